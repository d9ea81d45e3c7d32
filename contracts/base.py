"""Shared vocabulary of the contracts (z3 formulas over the views of vc/expr.py)."""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'vc'))
from z3 import *
from theory import *
from expr import Contract, LoopC, norm
LEMMAS = {}      # named groups of (name, hypotheses, conclusion)
CON = {}
def contract(key, **kw):
    f, _, ty = key.partition('|'); key = f + ('|' + norm(ty) if ty else '')
    c = Contract(key, **kw); CON[key] = c; return c
def wf(S):
    """well-formed signal: non-empty, first sample at beginTime, strictly increasing times, none after endTime"""
    return [('non-empty', S.lo < S.hi), ('first sample at begin', S.T(S.lo) == S.begin), ('times increase', sorted_q(S.q)), ('samples within domain', S.T(S.hi-1) <= S.end)]
def pre_names(p, l): return [(p + ' ' + n, f) for n, f in l]
