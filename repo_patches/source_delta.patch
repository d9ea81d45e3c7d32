From 241cbec422d51f5f07b4b8ec614a5e55c8c8fd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:47 +0000
Subject: [PATCH 01/22] fix: do not walk past the first sample in
 computeAnd/computeOr/until

computeAnd, computeOr, computeUntil and Signal::compute_until skipped samples
at or after the common end time without a bound, so a common domain reduced to
the start of one operand (e.g. until_[1,1]) dereferenced rend() and crashed.
Use the guard compute_and/compute_or already have.
---
 src/robustness.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 7ccd64d..dfede10 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -204,9 +204,9 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
-	while (i->time >= endTime)
+	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
-	while (j->time >= endTime)
+	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
 	s = beginTime;
@@ -679,9 +679,9 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	computePartialAnd(z, i, j, z->beginTime, z->endTime);
@@ -714,9 +714,9 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 
@@ -806,9 +806,9 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
-	while (i->time >= z->endTime)
+	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
-	while (j->time >= z->endTime)
+	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
 	s = z->beginTime;
-- 
2.43.0


From 64796f5683f821ab1f0cf50cf61c60ce37687c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 02/22] fix: arithmetic expressions keep the slope and end time
 of their operands

---
 src/signal_expr.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/signal_expr.cpp b/src/signal_expr.cpp
index 1089e80..85182b5 100644
--- a/src/signal_expr.cpp
+++ b/src/signal_expr.cpp
@@ -14,6 +14,14 @@ using namespace std;
 
 namespace STLRom {
 
+/* Slope from sample s to the end of its signal y, given the values of the expression at both: only used for the last
+ * sample, when y was trimmed between two samples. */
+static double slope_to_end(const Signal &y, const Sample &s, double v, double v_end) {
+	if (y.endTime > s.time)
+		return (v_end-v)/(y.endTime-s.time);
+	return 0.;
+}
+
 /* Unary operators on signals */
 
 double abs_transducer::compute_robustness() {
@@ -27,8 +35,9 @@ double abs_transducer::compute_robustness() {
 			iter++) {
 		double t= (*iter).time;
 		double v = (*iter).value;
-		z.appendSample(t, fabs(v));
+		z.appendSample(t, fabs(v), slope_to_end(child->z, *iter, fabs(v), fabs(iter->valueAt(child->z.endTime))));
 	}
+	z.endTime = child->z.endTime;
 	return z.front().value;
 }
 
@@ -49,8 +58,9 @@ double plus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL+vR);
+		z.appendSample(t, vL+vR, (*iterL).derivative+(*iterR).derivative);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -67,8 +77,9 @@ double minus_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL-vR);
+		z.appendSample(t, vL-vR, (*iterL).derivative-(*iterR).derivative);
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
@@ -85,8 +96,10 @@ double mult_transducer::compute_robustness() {
 		double t= (*iterL).time;
 		double vL = (*iterL).value;
 		double vR = (*iterR).value;
-		z.appendSample(t, vL*vR);
+		double te= childL->z.endTime;
+		z.appendSample(t, vL*vR, slope_to_end(childL->z, *iterL, vL*vR, iterL->valueAt(te)*iterR->valueAt(te)));
 	}
+	z.endTime = childL->z.endTime;
 	return z.front().value;
 }
 
-- 
2.43.0


From 923e1978d3feb43cdd065c6d9393ea08e00d5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 03/22] fix: ev_transducer must not trim the signal of its
 child

---
 src/transducer.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index dae6f67..b5abc76 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -174,8 +174,6 @@ namespace STLRom {
         
 
         double et = min(z.endTime,end_time);
-        (child->z).resize(et-b, (child->z).endTime, 0.);
-
         z.resize(start_time,max(start_time,et), 0.);
 
 #ifdef DEBUG__
-- 
2.43.0


From 206aafd7d6c8fd1a00803130b00a2b1f8c40d708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 04/22] fix: Signal::resize keeps the slope of the sample it
 moves to the new start

---
 src/signal.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 7be1ab0..027c1fd 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -180,7 +180,7 @@ namespace STLRom {
             }
             if (empty()) {
                 //			cout << "push empty " << first << endl;
-                push_front(Sample(s, first.valueAt(s), 0));
+                push_front(Sample(s, first.valueAt(s), first.derivative));
                 if (endTime < s)
                     endTime = s;
             }
-- 
2.43.0


From ac1589e708a923e1c2d2a06bea74a98ebe1a6323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 05/22] fix: compute_right_time_rob compared an iterator with
 the end of another signal

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index dfede10..4edf46d 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -90,7 +90,7 @@ void Signal::compute_right_time_rob(const Signal &y) {
 		double next_time;
 		auto next_i = std::next(i);
 		
-		if (next_i == y.end())
+		if (next_i == y_bool.end())
 			next_time = endTime;
 		else 
 			next_time = next_i->time;
-- 
2.43.0


From 1be643cc80b68799d5874242ee0e1973fe851671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 06/22] fix: default upper robustness is TOP when there is no
 data at start_time

---
 src/interval_transducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index e88ce64..76a3f7f 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -33,7 +33,7 @@ namespace STLRom {
 #endif
         compute_robustness();
         if (z.endTime < start_time) {
-            z_up.appendSample(start_time, BOTTOM); 
+            z_up.appendSample(start_time, TOP); 
         }
         else
             z_up = z;
-- 
2.43.0


From 03c00db69729e4aebe42c07e858b9d444dabdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 07/22] fix: compute_eventually and compute_until clear
 previous content first

---
 src/robustness.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 4edf46d..d0608cf 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -163,6 +163,7 @@ void Signal::compute_implies(const Signal &x, const Signal &y) {
 
 void Signal::compute_eventually(const Signal &x) {
 
+	clear();
 	beginTime = x.beginTime;
 	endTime = x.endTime;
 	Signal::const_reverse_iterator i = x.rbegin();
@@ -198,6 +199,7 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	double s, t;
 	double z_max = BOTTOM;
 
+	clear();
 	Signal::const_reverse_iterator i = x.rbegin();
 	Signal::const_reverse_iterator j = y.rbegin();
 
-- 
2.43.0


From cda40a2fd5a9b4837730e514a6be9c6832670e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 08/22] fix: Signal::compute_bounded_eventually/globally
 shifted an empty signal

---
 src/robustness.cpp | 26 ++++++++------------------
 1 file changed, 8 insertions(+), 18 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index d0608cf..4106b1d 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -250,15 +250,10 @@ void Signal::compute_bounded_eventually(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_max(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, BOTTOM);
-	z2.shift(-a);
-	z3.compute_or(z2, z1);
-
-	compute_or(x, z3);
-	simplify();
+	Signal y = x;
+	Signal *rob = computeBoundedEventually(&y, a);
+	*this = *rob;
+	delete rob;
 
   #ifdef DEBUG__
 	cout << "<  Signal::compute_bounded_eventually         OUT." << endl;
@@ -318,15 +313,10 @@ void Signal::compute_bounded_globally(const Signal& x, double a) {
 		return;
 	}
 
-	Signal z1, z2, z3;
-
-	z1.compute_plateau_min(x, a);
-	z2.resize(x.beginTime + a, x.endTime + a, TOP);
-	z2.shift(-a);
-	z3.compute_and(z2, z1);
-
-	compute_and(x, z3);
-	simplify();
+	Signal y = x;
+	Signal *rob = computeBoundedGlobally(&y, a);
+	*this = *rob;
+	delete rob;
 
 }
 
-- 
2.43.0


From 938106a02f1926bf56c31269031fe644e5e4c050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:05 +0000
Subject: [PATCH 09/22] fix: timed until with start_time > 0, punctual or long
 windows, and sound until bounds on partial data

---
 src/interval_transducer.cpp | 33 +++++++++++++++++++++------------
 src/robustness.cpp          | 37 ++++++++++---------------------------
 src/transducer.cpp          |  3 ++-
 3 files changed, 33 insertions(+), 40 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 76a3f7f..321ff65 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,8 +297,13 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
-        if (childL->compute_lower_rob()==BOTTOM) return BOTTOM;
-        if (childR->compute_lower_rob()==BOTTOM) return BOTTOM;
+        // L must be known until the earliest time at which R can hold
+        if (childL->compute_lower_rob()==BOTTOM ||
+            childR->compute_lower_rob()==BOTTOM ||
+            childL->z_low.endTime < start_time + a) {
+            z_low.appendSample(start_time, BOTTOM);
+            return BOTTOM;
+        }
 
         z_low.compute_timed_until(childL->z_low,childR->z_low, a, b);
         double et =min(z_low.endTime,end_time);
@@ -306,9 +311,9 @@ namespace STLRom {
         
         
         if (z_low.empty())
-            return BOTTOM;
-        else
-            return z_low.front().value;
+            z_low.appendSample(start_time, BOTTOM);
+
+        return z_low.front().value;
 
     }
 
@@ -318,17 +323,21 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP) return TOP;
-        if (childR->compute_upper_rob()==TOP) return TOP;
+        if (childL->compute_upper_rob()==TOP ||
+            childR->compute_upper_rob()==TOP) {
+            z_up.appendSample(start_time, TOP);
+            return TOP;
+        }
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
-        double et =min(z_up.endTime-b,end_time);
-        z_up.resize(start_time,max(start_time,et),0.);
+        // Here we remove values computed with partial data
+        double et =min(z_up.endTime-b+a,end_time);
+        z_up.resize(start_time,et,0.);
 
         if (z_up.empty())
-            return TOP;
-        else
-            return z_up.front().value;
+            z_up.appendSample(start_time, TOP);
+
+        return z_up.front().value;
     }
 
 }
diff --git a/src/robustness.cpp b/src/robustness.cpp
index 4106b1d..a49cb42 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -376,24 +376,9 @@ void Signal::compute_timed_until(const Signal& x , const Signal& y, double a, do
 	}
 
 
-	if(b > std::min(y1.endTime, y2.endTime))
-	{
-		if (a==0)
-			yunt = computeUntil(&y1,&y2);
-		else
-			if (a > y1.endTime) {
-				yunt = computeGlobally(&y1);
-			}
-			else
-			{
-				Signal * yalw1 = computeBoundedGlobally(&y1, a);
-				Signal * yuntmp = computeUntil(&y1,&y2);
-				yuntmp->shift(-a);
-				yunt = computeAnd(yalw1, yuntmp);
-				delete yalw1;
-				delete yuntmp;
-			}
-	}
+	// no data a time units after the start, or x and y have no common time
+	if (std::min(y1.endTime, y2.endTime) < std::max(y1.beginTime + a, y2.beginTime))
+		yunt = computeGlobally(&y1);
 	else
 		yunt = computeTimedUntil(&y1,&y2, a, b );
 
@@ -893,23 +878,21 @@ Signal * computeBoundedGlobally(Signal * x, double a) {
 
 
 Signal * computeTimedUntil(Signal * x, Signal * y, double a, double b) {
-	Signal *z, *z2, *z3, *z4;
-
-	z = new Signal();
+	Signal *z, *z3, *z4;
 
-	z2 = computeBoundedEventually(y, b - a);
+	// these handle windows that are empty or longer than the signals
+	Signal z1, z2;
+	z2.compute_timed_eventually(*y, 0., b - a);
 
 	z3 = computeUntil(x, y);
-	z4 = computeAnd(z2, z3);
+	z4 = computeAnd(&z2, z3);
 
-	delete z2;
 	delete z3;
 
 	if (a > 0) {
-		Signal * z1 = computeBoundedGlobally(x, a);
+		z1.compute_timed_globally(*x, 0., a);
 		z4->shift(-a);
-		z = computeAnd(z1, z4);
-		delete z1;
+		z = computeAnd(&z1, z4);
 	} else
 		z = computeAnd(x, z4);
 
diff --git a/src/transducer.cpp b/src/transducer.cpp
index b5abc76..416021a 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -279,7 +279,8 @@ namespace STLRom {
         childR->compute_robustness();
 
         z.compute_timed_until(childL->z, childR->z, a, b);
-        z.resize(0.,z.endTime,0.);
+        double et = min(z.endTime,end_time);
+        z.resize(start_time,max(start_time,et),0.);
         return z.front().value;
     }
 
-- 
2.43.0


From 04a52fd4f0cf6538c6931181d5b87dca26ac0d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:00 +0000
Subject: [PATCH 10/22] fix: Signal::resize left two samples at the same time
 when it extended a signal that has a sample at its end

A later simplify() of such a signal (start == old end) then took the wrong one of the two.
---
 src/signal.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 027c1fd..54c9946 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -194,8 +194,12 @@ namespace STLRom {
         //trim or extend back of signal
         if(endTime < t) {
             //		cout << "push_back here" << endl;
-            if (back().value != v || back().derivative != 0.)
+            if (back().value != v || back().derivative != 0.) {
+                // v replaces a last sample that sits at the old end
+                if (back().time >= endTime)
+                    pop_back();
                 push_back(Sample(endTime, v, 0));
+            }
         }
         else {
             while(!empty()&&back().time >t) {
-- 
2.43.0


From 0961e17226a318e124e0cd75df69d80869de856f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 11/22] fix: computePartialEventually took the crossing time of
 the leftmost piece from s instead of the start of the piece

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index a49cb42..b1236db 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1191,7 +1191,7 @@ void computePartialEventually(Signal* z, Signal::const_reverse_iterator & i, dou
 	} else if (z_max >= i->valueAt(s)) {
 		z->push_front(Sample(s, z_max, 0));
 	} else {
-		z->push_front(Sample(s + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
+		z->push_front(Sample(i->time + (z_max - i->value) / i->derivative, z_max, 0)); //time at which y reaches value next_z
 		z->push_front(Sample(s, i->valueAt(s), i->derivative));
 	}
 
-- 
2.43.0


From c9f8165598767d2fe93d55380b33463fb20b66b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 12/22] fix: and/or/until dropped the value at the closed end
 of the domain

---
 src/robustness.cpp | 72 +++++++++++++++++++++++++++++++++++++---------
 1 file changed, 58 insertions(+), 14 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index b1236db..a9aa5b4 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -15,6 +15,14 @@ using namespace std;
 
 namespace STLRom { 
 
+// value of x at t, where t is not before x begins
+static double value_at(const Signal &x, double t) {
+	Signal::const_reverse_iterator i = x.rbegin();
+	while ((i->time > t) && i != x.rend()-1)
+		i++;
+	return i->valueAt(t);
+}
+
 void Signal::compute_boolean(const Signal &y) {
 	clear();
 	beginTime = y.beginTime;
@@ -123,12 +131,17 @@ void Signal::compute_and(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
+	// the domain is closed: the last value is the one at endTime
+	if (beginTime <= endTime)
+		push_front(Sample(endTime, std::min(value_at(x, endTime), value_at(y, endTime)), 0.));
+
 	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
 	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
-	computePartialAnd(this, i, j, this->beginTime, this->endTime);
+	if (beginTime != endTime)
+		computePartialAnd(this, i, j, this->beginTime, this->endTime);
 	simplify();
 
 }
@@ -142,12 +155,17 @@ void Signal::compute_or(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
+	// the domain is closed: the last value is the one at endTime
+	if (beginTime <= endTime)
+		push_front(Sample(endTime, std::max(value_at(x, endTime), value_at(y, endTime)), 0.));
+
 	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
 	while ((j->time >= endTime) && j != y.rend()-1)
 		j++;
 
-	computePartialOr(this, i, j, beginTime, endTime);
+	if (beginTime != endTime)
+		computePartialOr(this, i, j, beginTime, endTime);
 	simplify();
 
 }
@@ -206,6 +224,12 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 	beginTime = fmax(x.beginTime, y.beginTime);
 	endTime = fmin(x.endTime, y.endTime);
 
+	// the domain is closed: the last value is the one at endTime
+	if (beginTime <= endTime) {
+		z_max = std::min(value_at(x, endTime), value_at(y, endTime));
+		push_front(Sample(endTime, z_max, 0.));
+	}
+
 	while ((i->time >= endTime) && i != x.rend()-1)
 		i++;
 	while ((j->time >= endTime) && j != y.rend()-1)
@@ -225,11 +249,13 @@ void Signal::compute_until(const Signal &x, const Signal &y) {
 		i++;
 	}
 
-	if (i->time == s)
-		computeSegmentUntil(this, *i, t, j, z_max);
-	else
-		computeSegmentUntil(this, Sample(s, i->valueAt(s), i->derivative), t, j,
-				z_max);
+	if (s != t) {
+		if (i->time == s)
+			computeSegmentUntil(this, *i, t, j, z_max);
+		else
+			computeSegmentUntil(this, Sample(s, i->valueAt(s), i->derivative), t, j,
+					z_max);
+	}
 
 	simplify();
 
@@ -656,12 +682,17 @@ Signal * computeAnd(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
+	// the domain is closed: the last value is the one at endTime
+	if (z->beginTime <= z->endTime)
+		z->push_front(Sample(z->endTime, std::min(value_at(*x, z->endTime), value_at(*y, z->endTime)), 0.));
+
 	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
 	while ((j->time >= z->endTime) && j != y->rend()-1)
 		j++;
 
-	computePartialAnd(z, i, j, z->beginTime, z->endTime);
+	if (z->beginTime != z->endTime)
+		computePartialAnd(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
 
 	return z;
@@ -691,6 +722,10 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
+	// the domain is closed: the last value is the one at endTime
+	if (z->beginTime <= z->endTime)
+		z->push_front(Sample(z->endTime, std::max(value_at(*x, z->endTime), value_at(*y, z->endTime)), 0.));
+
 	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
 	while ((j->time >= z->endTime) && j != y->rend()-1)
@@ -702,7 +737,8 @@ Signal * computeOr(Signal * x, Signal * y) {
 #endif
 
 
-	computePartialOr(z, i, j, z->beginTime, z->endTime);
+	if (z->beginTime != z->endTime)
+		computePartialOr(z, i, j, z->beginTime, z->endTime);
 	z->simplify();
 
 #ifdef DEBUG__
@@ -783,6 +819,12 @@ Signal * computeUntil(Signal * x, Signal * y) {
 	z->beginTime = fmax(x->beginTime, y->beginTime);
 	z->endTime = fmin(x->endTime, y->endTime);
 
+	// the domain is closed: the last value is the one at endTime
+	if (z->beginTime <= z->endTime) {
+		z_max = std::min(value_at(*x, z->endTime), value_at(*y, z->endTime));
+		z->push_front(Sample(z->endTime, z_max, 0.));
+	}
+
 	while ((i->time >= z->endTime) && i != x->rend()-1)
 		i++;
 	while ((j->time >= z->endTime) && j != y->rend()-1)
@@ -802,11 +844,13 @@ Signal * computeUntil(Signal * x, Signal * y) {
 		i++;
 	}
 
-	if (i->time == s)
-		computeSegmentUntil(z, *i, t, j, z_max);
-	else
-		computeSegmentUntil(z, Sample(s, i->valueAt(s), i->derivative), t, j,
-				z_max);
+	if (s != t) {
+		if (i->time == s)
+			computeSegmentUntil(z, *i, t, j, z_max);
+		else
+			computeSegmentUntil(z, Sample(s, i->valueAt(s), i->derivative), t, j,
+					z_max);
+	}
 
 	z->simplify();
 
-- 
2.43.0


From a6c5ddf120276b0137e711dcba23ccbeb8326b60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:32 +0000
Subject: [PATCH 13/22] fix: simplify stopped early when rounding put several
 samples at beginTime

---
 src/signal.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/signal.cpp b/src/signal.cpp
index 54c9946..4071999 100644
--- a/src/signal.cpp
+++ b/src/signal.cpp
@@ -124,9 +124,11 @@ namespace STLRom {
         cout << "IN: " << *this << endl;
 #endif
 
+        // one pass over the samples: read at the front, keep at the back (after rounding several may be at beginTime)
+        const size_t n = size();
         push_back(front());
         pop_front();
-        while (front().time != beginTime) {
+        for (size_t k = 1; k < n; k++) {
             if( back().valueAt(front().time) != front().value || back().derivative != front().derivative ) {
                 push_back(front());
             }
-- 
2.43.0


From 51f25100a117be4e2daefc625c10a50b49b0388d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:42 +0000
Subject: [PATCH 14/22] fix: crossing of pieces that only rounding makes cross
 (NaN samples, times out of the segment)

---
 src/robustness.cpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index a9aa5b4..4957de0 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -15,6 +15,14 @@ using namespace std;
 
 namespace STLRom { 
 
+// time at which the pieces i and j, in opposite order at s and t, cross; rounding can make parallel pieces look crossing, or
+// put their intersection out of [s, t]
+static double crossing(const Sample &i, const Sample &j, double s, double t) {
+	if (i.derivative == j.derivative)
+		return s;
+	return std::max(s, std::min(t, i.timeIntersect(j)));
+}
+
 // value of x at t, where t is not before x begins
 static double value_at(const Signal &x, double t) {
 	Signal::const_reverse_iterator i = x.rbegin();
@@ -959,7 +967,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) < j->valueAt(t)) {
 			if (i.valueAt(s) > j->value) {
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -979,7 +987,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1002,7 +1010,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) < j->valueAt(t)) {
 		if (i.value > j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1022,7 +1030,7 @@ void computeSegmentAnd(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
@@ -1070,7 +1078,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	while (s > i.time) {
 		if (i.valueAt(t) > j->valueAt(t)) {
 			if (i.valueAt(s) < j->value) {
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				z->push_front(Sample(s, j->value, j->derivative));
 				continued = false;
@@ -1090,7 +1098,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 				if (continued) {
 					z->push_front(Sample(t, i.valueAt(t), i.derivative));
 				}
-				t = i.timeIntersect(*j);
+				t = crossing(i, *j, s, t);
 				z->push_front(Sample(t, j->valueAt(t), j->derivative));
 				continued = true;
 			} else {
@@ -1113,7 +1121,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 	s = i.time;
 	if (i.valueAt(t) > j->valueAt(t)) {
 		if (i.value < j->valueAt(s)) {
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			z->push_front(Sample(s, j->valueAt(s), j->derivative));
 		} else {
@@ -1133,7 +1141,7 @@ void computeSegmentOr(Signal * z, const Sample & i, double t,
 			if (continued) {
 				z->push_front(Sample(t, i.valueAt(t), i.derivative));
 			}
-			t = i.timeIntersect(*j);
+			t = crossing(i, *j, s, t);
 			z->push_front(Sample(t, j->valueAt(t), j->derivative));
 			z->push_front(i);
 		} else {
-- 
2.43.0


From e68aff85b2d3ddd38cf82676bb91ce082dc7d4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 15/22] fix: boolean signal of a piece that leaves zero upwards
 stayed false

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 4957de0..755aece 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -46,7 +46,7 @@ void Signal::compute_boolean(const Signal &y) {
 		else 
 			next_time = next_i->time;
 		
-		if (v>0.) {
+		if (v>0. || (v==0. && d>0.)) {
 			push_back(Sample(i->time, 1. , 0.));
 			if (d<0.) {
 				double t_zero_cross = i->time-v/d;
-- 
2.43.0


From f85c752580fe40ed6f2e4abbbca71c2cc9e31a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:57 +0000
Subject: [PATCH 16/22] fix: boolean signal of a signal reduced to one instant
 was empty (time robustness read an empty queue)

---
 src/robustness.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 755aece..4daaa3e 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -64,7 +64,7 @@ void Signal::compute_boolean(const Signal &y) {
 		}
 	}
 	simplify();
-	if (!empty() && back().time == endTime) {
+	if (size() > 1 && back().time == endTime) {
 		pop_back();
 	}
 }
-- 
2.43.0


From a7fcb432c535753f54450f03ba1bbbca2195f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 17/22] fix: nothing was read from the trace when the
 evaluation time is negative

---
 src/stl_atom.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stl_atom.cpp b/src/stl_atom.cpp
index 49ce337..b7da9e0 100644
--- a/src/stl_atom.cpp
+++ b/src/stl_atom.cpp
@@ -7,6 +7,7 @@
 #include <map>
 #include "tools.h"
 #include <exception>
+#include <limits>
 #include "signal_expr.h"
 #ifdef IS_PC
 #include <minmax.h>
@@ -75,7 +76,7 @@ namespace STLRom {
         cout<< "start_time:" << start_time << " end_time:" << end_time << endl;
 #endif
         short i = signal_map[variable];
-        double t=0., v=0.;  
+        double t=-std::numeric_limits<double>::infinity(), v=0.;  
         double res= 0.;
             
         if (i) {
@@ -117,7 +118,7 @@ namespace STLRom {
                 cout << "Parameter " << param << " not found (?)." << endl;                
         }
 
-        double t=0.;  
+        double t=-std::numeric_limits<double>::infinity();  
             
         while ((td_idx <= trace_data_ptr->size()-1) && t<=end_time)   {
             t = (trace_data_ptr->at(td_idx))[0];
-- 
2.43.0


From 7c3eccf9db7a1ad426947f8ed9671e4a4c12ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:29 +0000
Subject: [PATCH 18/22] fix: implies did not align the end of its operands on
 partial traces (samples out of order)

---
 src/transducer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/transducer.cpp b/src/transducer.cpp
index 416021a..649389a 100755
--- a/src/transducer.cpp
+++ b/src/transducer.cpp
@@ -262,6 +262,8 @@ namespace STLRom {
         Signal z1= childL->z;
         Signal z2= childR->z;
         double et = max(z1.endTime, z2.endTime);
+        z1.endTime = et;
+        z2.endTime = et;
 
         z.compute_implies(z1,z2);
 
-- 
2.43.0


From c4580af67be15f93a5d8b2e7f15dd1142073c822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:16 +0000
Subject: [PATCH 19/22] fix: bounded eventually/always emit one sample per time

---
 src/robustness.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/robustness.cpp b/src/robustness.cpp
index 4daaa3e..374d099 100755
--- a/src/robustness.cpp
+++ b/src/robustness.cpp
@@ -1396,6 +1396,10 @@ Signal * plateauMax(Signal * x, double a) {
 		   cout << "OUTPUT OF NEW MAXIMUM" << endl;
 		#endif
 
+		// several events can fall on the same time: the last one counts
+		if (!z->empty() && z->back().time == t)
+			z->pop_back();
+
 		if (M.empty()) {                         
 			#ifdef DEBUG___
 			cout << "No candidate." << endl;
@@ -1468,8 +1472,6 @@ Signal * plateauMax(Signal * x, double a) {
 		cont = (new_candidate||end_candidate);
 	}
 
-    if(z->back().time==z->endTime) z->pop_back(); // from Breach ...
-
 #ifdef DEBUG___
 		cout << "OUT:" <<  *z  << endl; 
 		cout << "<<<plateauMax:                            OUT.==================================================================================" << endl;
@@ -1549,6 +1551,10 @@ Signal * plateauMin(Signal * x, double a) {
 		}
 
 		//OUTPUT OF NEW MINIMUM
+		// several events can fall on the same time: the last one counts
+		if (!z->empty() && z->back().time == t)
+			z->pop_back();
+
 		//no candidate
         if (M.empty()) {
              z->push_back(Sample(t, TOP, 0)); //  => Why ? otherwise crashes :)
@@ -1600,8 +1606,6 @@ Signal * plateauMin(Signal * x, double a) {
 		cont = (new_candidate || end_candidate);
 	}
 
-    if(z->back().time==z->endTime) z->pop_back();
-
 	return z;
 }
 
-- 
2.43.0


From 7f272a4650891282bc944f7a5cb68d9c761efceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:44 +0000
Subject: [PATCH 20/22] fix: bounds of ev and alw compare the operand's end
 with the window's start, not with a bare offset

---
 src/interval_transducer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 321ff65..70d25a6 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -163,7 +163,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_lower_rob();
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a) {
             z_low.appendSample(start_time, BOTTOM); 
             return BOTTOM;
         }
@@ -197,7 +197,7 @@ namespace STLRom {
 
         child->compute_upper_rob();
 
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
@@ -234,7 +234,7 @@ namespace STLRom {
 
         child->compute_lower_rob();
 
-        if (child->z_low.endTime < a) {
+        if (child->z_low.endTime < start_time + a) {
             z_low.appendSample(start_time,BOTTOM);        
             return BOTTOM;
         }
@@ -268,7 +268,7 @@ namespace STLRom {
         if (!get_param(I->end_str,b)) b = I->end;
 
         child->compute_upper_rob();
-        if (child->z_up.endTime < a) {
+        if (child->z_up.endTime < start_time + a) {
             z_up.appendSample(start_time, TOP); 
             return TOP;
         }
-- 
2.43.0


From 4b55d913ee55debd8fec055cfb3638a6da865929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:44 +0000
Subject: [PATCH 21/22] fix: a value at the bound at one instant does not make
 the bounds of until unknown

---
 src/interval_transducer.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/interval_transducer.cpp b/src/interval_transducer.cpp
index 70d25a6..dc131d0 100644
--- a/src/interval_transducer.cpp
+++ b/src/interval_transducer.cpp
@@ -297,10 +297,11 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
         
+        childL->compute_lower_rob();
+        childR->compute_lower_rob();
+
         // L must be known until the earliest time at which R can hold
-        if (childL->compute_lower_rob()==BOTTOM ||
-            childR->compute_lower_rob()==BOTTOM ||
-            childL->z_low.endTime < start_time + a) {
+        if (childL->z_low.endTime < start_time + a) {
             z_low.appendSample(start_time, BOTTOM);
             return BOTTOM;
         }
@@ -323,11 +324,8 @@ namespace STLRom {
         if (!get_param(I->begin_str,a)) a = I->begin;
         if (!get_param(I->end_str,b)) b = I->end;
 
-        if (childL->compute_upper_rob()==TOP ||
-            childR->compute_upper_rob()==TOP) {
-            z_up.appendSample(start_time, TOP);
-            return TOP;
-        }
+        childL->compute_upper_rob();
+        childR->compute_upper_rob();
 
         z_up.compute_timed_until(childL->z_up,childR->z_up, a, b);
         // Here we remove values computed with partial data
-- 
2.43.0


From 91cfdbe27c3d1e41523350bc37e770b9f2ea8c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:10 +0000
Subject: [PATCH 22/22] fix: dump evaluates formulas with the driver's data,
 parameters and settings, afresh and at time 0

---
 src/stl_driver.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/stl_driver.cpp b/src/stl_driver.cpp
index d5bd812..ec85a74 100644
--- a/src/stl_driver.cpp
+++ b/src/stl_driver.cpp
@@ -292,8 +292,12 @@ namespace STLRom
 
 		for (auto formula = formula_map.begin(); formula != formula_map.end(); formula++)
 		{
-			formula->second->trace_data_ptr = &data;
-			formula->second->init_horizon();
+			formula->second->set_trace_data_ptr(data);
+			formula->second->set_param_map_ptr(param_map);
+			Signal::semantics = semantics;
+			Signal::interpol = interpol;
+			formula->second->reset();
+			formula->second->set_horizon(0., 0.);
 			formula->second->compute_robustness();
 			(formula->second->z).dumpFile(formula->first + ".out");
 		}
-- 
2.43.0

