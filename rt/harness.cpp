// Concrete-execution harness: runs the REAL compiled STLRom code (linked from /repo/src/*.cpp)
// on commands read from stdin.  One command per line; replies are single lines.
#include <iostream>
#include <fstream>
#include <unistd.h>
#include <stdlib.h>
#include <sstream>
#include <cstdio>
#include <map>
#include <memory>
#include <string>
#include <vector>
#include <stdexcept>
#include "stl_driver.h"
#include "stl_monitor.h"
#include "signal_expr.h"
#include "robustness.h"
#include "tools.h"
#if defined(__SANITIZE_ADDRESS__)
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
using namespace std;
using namespace STLRom;
static map<string, Signal> S;
static map<string, unique_ptr<STLDriver>> DR;
static map<string, unique_ptr<STLMonitor>> MO;
static string unhex(const string &h){ if(h=="-") return ""; string r; for(size_t i=0;i+1<h.size();i+=2) r.push_back((char)stoi(h.substr(i,2),nullptr,16)); return r; }
static string tohex(const string&s){ static const char*d="0123456789abcdef"; string r; for(unsigned char c: s){r+=d[c>>4];r+=d[c&15];} return r.empty()?"-":r; }
static void pd(ostream&o,double x){ char b[64]; snprintf(b,64,"%.17g",x); o<<b; }
static void dump(ostream&o,const Signal&s){ pd(o,s.beginTime); o<<' '; pd(o,s.endTime); o<<' '<<s.size(); for(auto&x: s){o<<' ';pd(o,x.time);o<<' ';pd(o,x.value);o<<' ';pd(o,x.derivative);} }
static double rd(istream&i){ string s; if(!(i>>s)) throw runtime_error("harness: missing number"); return strtod(s.c_str(),nullptr); }
static STLDriver& D(istream&i){ string n; i>>n; return *DR.at(n); }
static STLMonitor& M(istream&i){ string n; i>>n; return *MO.at(n); }
static vector<double> rest(istream&i){ vector<double> v; string s; while(i>>s) v.push_back(strtod(s.c_str(),nullptr)); return v; }
static void setp(Signal &z, Signal *p){ z=*p; delete p; }
static void pdata(ostream&o,const trace_data&d){ o<<d.size(); for(auto&r:d){ o<<" "<<r.size(); for(double x:r){o<<' ';pd(o,x);} } }
static void tree(ostream &o, const transducer *T){
    if(!T){ o<<"null"; return; }
    if(auto p=dynamic_cast<const signal_transducer*>(T)){ o<<"(sig "<<p->variable<<" "; auto it=p->signal_map.find(p->variable); if(it==p->signal_map.end()) o<<"-"; else o<<it->second; o<<")"; return; }
    if(auto p=dynamic_cast<const constant_transducer*>(T)){ o<<"(const "; if(p->param.empty()) pd(o,p->value); else o<<"$"<<p->param; o<<")"; return; }
    const char *n=nullptr;
    if(auto p=dynamic_cast<const stl_atom*>(T)) n = p->comp==comparator::LESSTHAN?"lt":"gt";
    if(dynamic_cast<const plus_transducer*>(T)) n="plus"; if(dynamic_cast<const minus_transducer*>(T)) n="minus"; if(dynamic_cast<const mult_transducer*>(T)) n="mult";
    if(dynamic_cast<const and_transducer*>(T)) n="and"; if(dynamic_cast<const or_transducer*>(T)) n="or"; if(dynamic_cast<const implies_transducer*>(T)) n="implies";
    if(dynamic_cast<const abs_transducer*>(T)) n="abs"; if(dynamic_cast<const not_transducer*>(T)) n="not";
    if(dynamic_cast<const ev_transducer*>(T)) n="ev"; if(dynamic_cast<const alw_transducer*>(T)) n="alw"; if(dynamic_cast<const until_transducer*>(T)) n="until";
    o<<"("<<(n?n:"?");
    const interval*I=nullptr;
    if(auto p=dynamic_cast<const timed_unary_transducer*>(T)) I=p->I; if(auto p=dynamic_cast<const timed_binary_transducer*>(T)) I=p->I;
    if(I){ o<<" "; if(I->begin_str.empty()) pd(o,I->begin); else o<<"$"<<I->begin_str; o<<" "; if(I->end_str.empty()) pd(o,I->end); else o<<"$"<<I->end_str; }
    if(auto p=dynamic_cast<const unary_transducer*>(T)){ o<<" "; tree(o,p->child); }
    else if(auto p=dynamic_cast<const binary_transducer*>(T)){ o<<" "; tree(o,p->childL); o<<" "; tree(o,p->childR); }
    o<<")";
}
int main(){
    string line;
    // library chatter goes to cout: capture it so that the protocol stays clean
    streambuf *real = cout.rdbuf(); ostream out(real);
    stringstream sink; cout.rdbuf(sink.rdbuf());
    stringstream esink; cerr.rdbuf(esink.rdbuf());
    while(getline(cin,line)){
        istringstream in(line); string c; in>>c; ostringstream o; 
        sink.str(""); esink.str("");
        try{
        if(c=="sig"){ string n; in>>n; Signal s; s.beginTime=rd(in); s.endTime=rd(in); int k; in>>k; for(int i=0;i<k;i++){double t=rd(in),v=rd(in),d=rd(in); s.push_back(Sample(t,v,d));} S[n]=s; o<<"ok"; }
        else if(c=="mksig"){ string n; in>>n; int k; in>>k; vector<double>t(k),v(k); for(int i=0;i<k;i++){t[i]=rd(in);v[i]=rd(in);} S[n]=Signal(t.data(),v.data(),k); dump(o,S[n]); }
        else if(c=="dump"){ string n; in>>n; dump(o,S[n]); }
        else if(c=="interp"){ string n; in>>n; Signal::set_interpol(n); o<<"ok"; }
        else if(c=="sem"){ string n; in>>n; Signal::set_semantics(n); o<<"ok"; }
        else if(c=="geti"){ o<<Signal::get_interpol()<<" "<<Signal::get_semantics(); }
        else if(c=="bigm"){ Signal::set_BigM(rd(in)); o<<Signal::get_BigM(); }
        else if(c=="append"){ string n; in>>n; double t=rd(in),v=rd(in),d=rd(in); S[n].appendSample(t,v,d); dump(o,S[n]); }
        else if(c=="append2"){ string n; in>>n; double t=rd(in),v=rd(in); S[n].appendSample(t,v); dump(o,S[n]); }
        else if(c=="appendsig"){ string n,m; in>>n>>m; S[n].appendSignal(S[m]); dump(o,S[n]); }
        else if(c=="resize"){ string n; in>>n; double s=rd(in),t=rd(in),v=rd(in); S[n].resize(s,t,v); dump(o,S[n]); }
        else if(c=="shift"){ string n; in>>n; S[n].shift(rd(in)); dump(o,S[n]); }
        else if(c=="simplify"){ string n; in>>n; S[n].simplify(); dump(o,S[n]); }
        else if(c=="removeinf"){ string n; in>>n; S[n].removeInf(); dump(o,S[n]); }
        else if(c=="addlast"){ string n; in>>n; S[n].addLastSample(); dump(o,S[n]); }
        else if(c=="op"){ // op name z x [y] [a b]
            string f,z,x,y; in>>f>>z>>x;
            Signal &Z=S[z];
            if(f=="not") Z.compute_not(S[x]); else if(f=="bool") Z.compute_boolean(S[x]);
            else if(f=="left") Z.compute_left_time_rob(S[x]); else if(f=="right") Z.compute_right_time_rob(S[x]);
            else if(f=="ev") Z.compute_eventually(S[x]); else if(f=="alw") Z.compute_globally(S[x]);
            else if(f=="bev"){ double a=rd(in); Z.compute_bounded_eventually(S[x],a);} else if(f=="balw"){ double a=rd(in); Z.compute_bounded_globally(S[x],a);} 
            else if(f=="tev"){ double a=rd(in),b=rd(in); Z.compute_timed_eventually(S[x],a,b);} else if(f=="talw"){ double a=rd(in),b=rd(in); Z.compute_timed_globally(S[x],a,b);} 
            else if(f=="pmax"){ double a=rd(in); Z.compute_plateau_max(S[x],a);} else if(f=="pmin"){ double a=rd(in); Z.compute_plateau_min(S[x],a);} 
            
#ifndef LITE
            else if(f=="cnot") setp(Z,computeNot(&S[x])); else if(f=="cev") setp(Z,computeEventually(&S[x])); else if(f=="calw") setp(Z,computeGlobally(&S[x]));
            else if(f=="cbev"){ double a=rd(in); setp(Z,computeBoundedEventually(&S[x],a));} else if(f=="cbalw"){ double a=rd(in); setp(Z,computeBoundedGlobally(&S[x],a));}
            else if(f=="cpmax"){ double a=rd(in); setp(Z,plateauMax(&S[x],a));} else if(f=="cpmin"){ double a=rd(in); setp(Z,plateauMin(&S[x],a));}
#endif
            else { in>>y;
              if(f=="and") Z.compute_and(S[x],S[y]); else if(f=="or") Z.compute_or(S[x],S[y]); else if(f=="implies") Z.compute_implies(S[x],S[y]); else if(f=="until") Z.compute_until(S[x],S[y]);
              else if(f=="tuntil"){ double a=rd(in),b=rd(in); Z.compute_timed_until(S[x],S[y],a,b);} 
#ifndef LITE
              else if(f=="cand") setp(Z,computeAnd(&S[x],&S[y])); else if(f=="cor") setp(Z,computeOr(&S[x],&S[y])); else if(f=="cimplies") setp(Z,computeImplies(&S[x],&S[y])); else if(f=="cuntil") setp(Z,computeUntil(&S[x],&S[y]));
              else if(f=="ctuntil"){ double a=rd(in),b=rd(in); setp(Z,computeTimedUntil(&S[x],&S[y],a,b));} 
#endif
              else throw runtime_error("harness: op "+f);
            }
            dump(o,Z); }
        else if(c=="valueat"){ double t=rd(in),v=rd(in),d=rd(in),u=rd(in); pd(o,Sample(t,v,d).valueAt(u)); }
        // ---- driver
        else if(c=="drv"){ string n; in>>n; DR[n].reset(new STLDriver()); o<<"ok"; }
        else if(c=="drvcopy"){ string n; in>>n; STLDriver&d=D(in); auto*p=new STLDriver(d); DR[n].reset(p); o<<"ok"; }
        else if(c=="drvassign"){ string n; in>>n; STLDriver&d=D(in); *DR.at(n)=d; o<<"ok"; }
        else if(c=="drvmove"){ string n; in>>n; STLDriver&d=D(in); auto*p=new STLDriver(std::move(d)); DR[n].reset(p); o<<"ok"; }
        else if(c=="drvmoveassign"){ string n; in>>n; STLDriver&d=D(in); *DR.at(n)=std::move(d); o<<"ok"; }
        else if(c=="drvdel"){ string n; in>>n; DR.erase(n); o<<"ok"; }
        else if(c=="dclear"){ D(in).clear(); o<<"ok"; }
        else if(c=="parse"){ auto&d=D(in); string h; in>>h; o<<(d.parse_string(unhex(h))?1:0); }
        else if(c=="parsefile"){ auto&d=D(in); string h; in>>h; o<<(d.parse_file(unhex(h))?1:0); }
        else if(c=="sample"){ auto&d=D(in); d.add_sample(rest(in)); o<<"ok"; }
        else if(c=="ddata"){ auto&d=D(in); pdata(o,d.data); }
        else if(c=="online"){ auto&d=D(in); string p; in>>p; double t=rd(in); auto r=d.get_online_rob(p,t); o<<r.size(); for(double x:r){o<<' ';pd(o,x);} }
        else if(c=="ddump"){ auto&d=D(in); string p; in>>p; char t[]="/tmp/vdumpXXXXXX", old[4096]; if(!mkdtemp(t)||!getcwd(old,sizeof old)||chdir(t)) throw std::runtime_error("scratch");
            string e; try { d.dump(); } catch(std::exception&x){ e=x.what(); if(e.empty()) e="?"; }
            { std::ifstream f(p+".out"); double x; int n=0; while(f>>x){ if(n++) o<<' '; pd(o,x); } } for(auto&q:d.formula_map) remove((q.first+".out").c_str());
            if(chdir(old)){} rmdir(t); if(!e.empty()) throw std::runtime_error(e); }
        else if(c=="dset"){ auto&d=D(in); string p; in>>p; d.set_param(p,rd(in)); o<<"ok"; }
        else if(c=="dget"){ auto&d=D(in); string p; in>>p; pd(o,d.get_param(p)); }
        else if(c=="dsem"){ auto&d=D(in); string p; in>>p; d.set_semantics(p); o<<"ok"; }
        else if(c=="dint"){ auto&d=D(in); string p; in>>p; d.set_interpol(p); o<<"ok"; }
        else if(c=="dcfg"){ auto&d=D(in); o<<d.get_interpol()<<" "<<d.get_semantics(); }
        else if(c=="dsignals"){ auto&d=D(in); o<<d.signal_map.size(); for(auto&p:d.signal_map) o<<" "<<p.first<<" "<<p.second; }
        else if(c=="dnames"){ auto&d=D(in); o<<tohex(d.get_signals_names()); }
        else if(c=="dparams"){ auto&d=D(in); o<<d.param_map.size(); for(auto&p:d.param_map){ o<<" "<<p.first<<" "; pd(o,p.second);} }
        else if(c=="dformulas"){ auto&d=D(in); for(auto&p:d.formula_map){ o<<p.first<<"="; tree(o,p.second); o<<";"; } }
        else if(c=="dform"){ auto&d=D(in); string p; in>>p; auto it=d.formula_map.find(p); if(it==d.formula_map.end()) o<<"none"; else tree(o,it->second); }
        else if(c=="dtests"){ auto&d=D(in); o<<d.trace_test_queue.size()<<" "<<d.nb_test_pos<<" "<<d.nb_test_total<<" "<<d.error_flag<<" "<<tohex(d.test_log)<<" "<<tohex(d.report); }
        else if(c=="dqueue"){ auto&d=D(in); for(auto&q:d.trace_test_queue){ o<<"["<<q.id<<"|"<<q.env<<"|"; pd(o,q.sim_time); o<<"|"<<q.visu; for(auto&t:q.tests){ o<<"|"<<t.test_id<<":"<<t.is_error<<":"<<t.report_positive<<":"<<t.report_negative<<":"; for(auto&p:t.param_map){o<<p.first<<"~";pd(o,p.second);o<<",";} tree(o,t.formula);} o<<"]"; } }
        else if(c=="runtests"){ auto&d=D(in); o<<(d.run_tests()?1:0); }
        else if(c=="readtrace"){ auto&d=D(in); string h; in>>h; o<<(d.read_trace_file(unhex(h))?1:0); }
        else if(c=="dumptrace"){ auto&d=D(in); string h; in>>h; d.dump_trace_file(unhex(h)); o<<"ok"; }
        // ---- monitor
        else if(c=="mon"){ string n; in>>n; auto&d=D(in); string p; in>>p; MO[n].reset(new STLMonitor(d.get_monitor(p))); o<<(MO[n]->formula?1:0); }
        else if(c=="moncopy"){ string n; in>>n; auto&m=M(in); auto*p=new STLMonitor(m); MO[n].reset(p); o<<"ok"; }
        else if(c=="monassign"){ string n; in>>n; auto&m=M(in); *MO.at(n)=m; o<<"ok"; }
        else if(c=="monmove"){ string n; in>>n; auto&m=M(in); auto*p=new STLMonitor(std::move(m)); MO[n].reset(p); o<<"ok"; }
        else if(c=="monmoveassign"){ string n; in>>n; auto&m=M(in); *MO.at(n)=std::move(m); o<<"ok"; }
        else if(c=="mondel"){ string n; in>>n; MO.erase(n); o<<"ok"; }
        else if(c=="msample"){ auto&m=M(in); m.add_sample(rest(in)); o<<"ok"; }
        else if(c=="mdata"){ auto&m=M(in); pdata(o,m.data); }
        else if(c=="mreset"){ M(in).reset_signal_data(); o<<"ok"; }
        else if(c=="mtime"){ auto&m=M(in); double a=rd(in),b=rd(in); m.set_eval_time(a,b); o<<"ok"; }
        else if(c=="meval"){ auto&m=M(in); auto a=rest(in); double r= a.size()==0?m.eval_rob():a.size()==1?m.eval_rob(a[0]):m.eval_rob(a[0],a[1]); pd(o,r); o<<' '; pd(o,m.get_rob()); o<<' ';pd(o,m.get_lower_rob()); o<<' '; pd(o,m.get_upper_rob()); o<<' '; pd(o,m.start_time); o<<' '; pd(o,m.end_time); }
        else if(c=="mstate"){ auto&m=M(in); pd(o,m.rob); o<<' ';pd(o,m.lower_rob); o<<' '; pd(o,m.upper_rob); o<<' '; pd(o,m.start_time); o<<' '; pd(o,m.end_time); o<<' '; tree(o,m.formula); }
        else if(c=="msig"){ auto&m=M(in); dump(o,m.get_signal()); }
        else if(c=="mlow"){ auto&m=M(in); dump(o,m.formula->z_low); }
        else if(c=="mup"){ auto&m=M(in); dump(o,m.formula->z_up); }
        else if(c=="mset"){ auto&m=M(in); string p; in>>p; m.set_param(p,rd(in)); o<<"ok"; }
        else if(c=="mget"){ auto&m=M(in); string p; in>>p; pd(o,m.get_param(p)); }
        else if(c=="mparams"){ auto&m=M(in); o<<m.param_map.size(); for(auto&p:m.param_map){ o<<" "<<p.first<<" "; pd(o,p.second);} }
        else if(c=="msignals"){ auto&m=M(in); o<<m.signal_map.size(); for(auto&p:m.signal_map) o<<" "<<p.first<<" "<<p.second; }
        else if(c=="msem"){ auto&m=M(in); string p; in>>p; m.set_semantics(p); o<<"ok"; }
        else if(c=="mint"){ auto&m=M(in); string p; in>>p; m.set_interpol(p); o<<"ok"; }
        else if(c=="mcfg"){ auto&m=M(in); o<<m.get_interpol()<<" "<<m.get_semantics(); }
        // ---- tools
        else if(c=="rand"){ int a,b; in>>a>>b; pdata(o,rand_trace_data(a,b)); }
        else if(c=="std"){ string h; in>>h; double x=-77; bool r=s_to_d(unhex(h),x); o<<(r?1:0)<<' '; pd(o,x); }
        else if(c=="interval"){ string a,b; in>>a>>b; interval I(unhex(a),unhex(b)); o<<tohex(I.begin_str)<<' '<<tohex(I.end_str)<<' '; if(I.begin_str.empty()) pd(o,I.begin); else o<<"-"; o<<' '; if(I.end_str.empty()) pd(o,I.end); else o<<"-"; }
        else if(c=="allocated"){ S.clear(); DR.clear(); MO.clear();
#if defined(__SANITIZE_ADDRESS__)
            o<<__sanitizer_get_current_allocated_bytes();
#else
            o<<0;
#endif
        }
        else if(c=="lite"){
#ifdef LITE
            o<<1;
#else
            o<<0;
#endif
        }
        else if(c=="quit") break;
        else o<<"?unknown "<<c;
        }catch(const invalid_argument&e){ o.str(""); o<<"!invalid_argument"; }
        catch(const exception&e){ o.str(""); o<<"!exception "<<e.what(); }
        out<<o.str()<<endl;
    }
    cout.rdbuf(real);
    return 0;
}
