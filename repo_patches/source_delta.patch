From 3d1236f912df12551ba662f69dc802dce0085ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 01/47] fix: MinMaxHeap heapDownMin must stop after swapping
 with a child

---
 common/include/rofl/common/min_max_heap.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 3c58787..0bcfc10 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -368,7 +368,7 @@ namespace rofl {
                     icurr = igrand;
                 } else if (ichild < data_.size() && cmp_(data_[ichild], data_[icurr])) {
                     std::swap(data_[icurr], data_[ichild]);
-                    icurr = ichild;
+                    icurr = data_.size();
                 } else {
                     icurr = data_.size();
                 }
-- 
2.43.0


From deaaf4d03a792ef3708a2c3ad0a6d356a8cebdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 02/47] fix: MinMaxHeap nextTop must consider a root child
 without children

---
 common/include/rofl/common/min_max_heap.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 0bcfc10..9498c6d 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -133,7 +133,10 @@ namespace rofl {
             } else if (data_.size() < 4) {
                 return data_[childMin(0)];
             } else {
-                return data_[grandchildMin(0)];
+                // a child of the root without children may still be the next minimum
+                size_t ichild = childMin(0);
+                size_t igrand = grandchildMin(0);
+                return (cmp_(data_[ichild], data_[igrand]) ? data_[ichild] : data_[igrand]);
             }
         }
 
-- 
2.43.0


From 43b589d15f0f91f87be0ccdbdf12cc05d7424719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:44 +0000
Subject: [PATCH 03/47] fix: MinMaxHeap nextBottom must return the second
 maximum item

---
 common/include/rofl/common/min_max_heap.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/min_max_heap.h b/common/include/rofl/common/min_max_heap.h
index 9498c6d..44d0d36 100644
--- a/common/include/rofl/common/min_max_heap.h
+++ b/common/include/rofl/common/min_max_heap.h
@@ -140,14 +140,24 @@ namespace rofl {
             }
         }
 
-        /** Returns the next minimum element.
+        /** Returns the next maximum element.
          */
         const Value& nextBottom() const {
             ROFL_ASSERT(!data_.empty());
             if (data_.size() < 3) {
                 return data_[0];
             } else {
-                return data_[childMin(0)];
+                // the next maximum is the other child of the root or a descendant 
+                // of the maximum item
+                size_t imax = childMax(0);
+                size_t inext = (imax == childLeft(0) ? childRight(0) : childLeft(0));
+                if (hasChildren(imax) && cmp_(data_[inext], data_[childMax(imax)])) {
+                    inext = childMax(imax);
+                }
+                if (hasGrandchildren(imax) && cmp_(data_[inext], data_[grandchildMax(imax)])) {
+                    inext = grandchildMax(imax);
+                }
+                return data_[inext];
             }
         }
 
-- 
2.43.0


From 68ff5f74ad30deaab34782b3bf982ad851495746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:01 +0000
Subject: [PATCH 04/47] fix: BoustrophedonIndexer jumps with 3 or more
 dimensions of odd size

---
 common/include/rofl/common/interval_indices.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 4e5e78f..3e55e6e 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -143,12 +143,12 @@ namespace rofl {
                 Index odd = 0;
                 for (int d = Dim - 1; d >= 0; --d) {
                     //ROFL_VAR3(d, indices[d], odd);
+                    // odd: parity of the number of rows visited on the outer dimensions
+                    Index oddNext = (odd * dimensions[d] + indices[d]) % 2;
                     if (odd) {
-                        odd = indices[d] % 2;
                         indices[d] = dimensions[d] - indices[d] - 1;
-                    } else {
-                        odd = indices[d] % 2;
                     }
+                    odd = oddNext;
                     indices[d] += minval[d];
                 }
                 //ROFL_MSG("indices computed " << indices);
-- 
2.43.0


From 33d5240e1c3e7187c42f759f9408cc56655274ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:01 +0000
Subject: [PATCH 05/47] fix: IntervalIndices size() must be 0 for empty
 intervals with negative dimensions

---
 common/include/rofl/common/interval_indices.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/interval_indices.h b/common/include/rofl/common/interval_indices.h
index 3e55e6e..bdac713 100644
--- a/common/include/rofl/common/interval_indices.h
+++ b/common/include/rofl/common/interval_indices.h
@@ -351,6 +351,9 @@ namespace rofl {
          * Returns the number of indices items included in the interval.
          */
         size_t size() const {
+            if (empty()) {
+                return 0;
+            }
             size_t s = 1;
             for (int d = 0; d < Dim; ++d) {
                 s *= dimensions_[d];
-- 
2.43.0


From 64366b1437eb8be749e7520e1882301d58fcf70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:32 +0000
Subject: [PATCH 06/47] fix: PeakFinderD must evaluate also the first cell of
 the domain

---
 common/include/rofl/common/peak_finder_d.h | 32 +++++++++++-----------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index a5c6bfd..ff049d4 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -137,6 +137,20 @@ namespace rofl {
             IntervalType windowInterval, novelInterval;
             int dimMax, incrMax;
 
+            // Inserts the cell icurr, which is the center of the window, into the maxima if it is a peak.
+            auto checkPeak = [&](const Indices& icurr) {
+                // Checks if current cell icurr is not dominated by the top item windowItems.top().
+                // E.g. if comp_ = std::greater<>, then
+                //   !comp_(map(windowItems.top()), map(icurr))) -> map(icurr) >= map(windowItems.top()
+                if (!enableFilterMinValue_ || comp_(map(icurr), valueMin_)) {
+                    if (!windowItems.empty() && !comp_(map(windowItems.top()), map(icurr))) {
+                        if (comp_(map(icurr), map(windowItems.nextTop()))) {
+                            maxima.push(icurr);
+                        }
+                    }
+                }
+            };
+
             // Initializes the window
             auto domainIt = domain_.beginBoustrophedon();
             auto domainEnd = domain_.endBoustrophedon();
@@ -147,6 +161,7 @@ namespace rofl {
                 windowItems.push(*it);
             }
             //ROFL_VAR4(*domainIt, windowInterval, novelInterval, windowItems.size());
+            checkPeak(*domainIt);
             indicesPrev = *domainIt;
             ++domainIt;
 
@@ -168,22 +183,7 @@ namespace rofl {
                     windowItems.popTop();
                 }
 
-                // Checks if current cell *domainIt is not dominated by the top item windowItems.top().
-                // E.g. if comp_ = std::greater<>, then
-                //   !comp_(map(windowItems.top()), map(*domainIt))) -> map(*domainIt) >= map(windowItems.top()
-                if (!enableFilterMinValue_ || comp_(map(*domainIt), valueMin_)) {
-                    if (!windowItems.empty() && !comp_(map(windowItems.top()), map(*domainIt))) {
-                        //ROFL_VAR4(outIdx(*domainIt), map(*domainIt), outIdx(windowItems.top()), map(windowItems.top()));
-                        //ROFL_VAR3(outIdx(windowItems.nextTop()), map(windowItems.nextTop()), comp_(map(*domainIt), map(windowItems.nextTop())));
-                        //Indices curTop = windowItems.top();
-                        //windowItems.popTop();
-                        if (comp_(map(*domainIt), map(windowItems.nextTop()))) {
-                            //insertMax = *domainIt;
-                            maxima.push(*domainIt);
-                        }
-                        //windowItems.push(curTop);
-                    }
-                }
+                checkPeak(*domainIt);
                 indicesPrev = *domainIt;
             }
 
-- 
2.43.0


From 9f173ab808247278eee1c537e8921b4cc65dd53b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:32 +0000
Subject: [PATCH 07/47] fix: PeakFinderD misses peaks due to stale or repeated
 items in the window queue

---
 common/include/rofl/common/peak_finder_d.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/peak_finder_d.h b/common/include/rofl/common/peak_finder_d.h
index ff049d4..1e06fff 100644
--- a/common/include/rofl/common/peak_finder_d.h
+++ b/common/include/rofl/common/peak_finder_d.h
@@ -144,7 +144,14 @@ namespace rofl {
                 //   !comp_(map(windowItems.top()), map(icurr))) -> map(icurr) >= map(windowItems.top()
                 if (!enableFilterMinValue_ || comp_(map(icurr), valueMin_)) {
                     if (!windowItems.empty() && !comp_(map(windowItems.top()), map(icurr))) {
-                        if (comp_(map(icurr), map(windowItems.nextTop()))) {
+                        // The queue may also store items out of the window or multiple copies of an item: 
+                        // strict dominance is checked on the cells of the window
+                        bool isPeak = true;
+                        IntervalType windowDomain = windowInterval.intersect(domain_);
+                        for (auto it = windowDomain.beginRaster(); isPeak && it != windowDomain.endRaster(); ++it) {
+                            isPeak = (*it == icurr || comp_(map(icurr), map(*it)));
+                        }
+                        if (isPeak) {
                             maxima.push(icurr);
                         }
                     }
-- 
2.43.0


From 34f2649654cfdfa866c42bbfe3ed8ed6cebe94ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:59 +0000
Subject: [PATCH 08/47] fix: DisjointSet makeSet must increment the number of
 sets

---
 common/src/disjoint_set.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index c12ceea..ad84dc3 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -53,6 +53,7 @@ namespace rofl {
         n.rank = 0;
         n.size = 1;
         nodes_.push_back(n);
+        setNum_++;
         return n.parent;
     }
 
-- 
2.43.0


From 52c18414049686a57e68a159303dc5a8b5be34db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:59 +0000
Subject: [PATCH 09/47] fix: DisjointSet join() and size() access out of bounds
 with invalid node id

---
 common/include/rofl/common/disjoint_set.h | 3 +++
 common/src/disjoint_set.cpp               | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/common/include/rofl/common/disjoint_set.h b/common/include/rofl/common/disjoint_set.h
index 31296b6..9313326 100644
--- a/common/include/rofl/common/disjoint_set.h
+++ b/common/include/rofl/common/disjoint_set.h
@@ -82,6 +82,9 @@ namespace rofl {
          */
         size_t size(int n) {
             id_type root = find(n);
+            if (root >= (id_type) nodes_.size()) {
+                return 0;
+            }
             return nodes_[root].size;
         }
 
diff --git a/common/src/disjoint_set.cpp b/common/src/disjoint_set.cpp
index ad84dc3..bdb16d9 100644
--- a/common/src/disjoint_set.cpp
+++ b/common/src/disjoint_set.cpp
@@ -76,6 +76,8 @@ namespace rofl {
     DisjointSet::id_type DisjointSet::join(id_type n1, id_type n2) {
         id_type root1 = find(n1);
         id_type root2 = find(n2);
+        // Invalid node identifiers cannot be joined
+        if (root1 >= (id_type) nodes_.size() || root2 >= (id_type) nodes_.size()) return nodes_.size();
         // If n1 and n2 are already in the same set, there is no join to do
         if (root1 == root2) return nodes_.size();
 
-- 
2.43.0


From ea76c479ded1589b8e19a6f60764190196f0453c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:59 +0000
Subject: [PATCH 10/47] fix: LabelSet stream operator must be inline to be
 linked by multiple units

---
 common/include/rofl/common/label_set.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/label_set.h b/common/include/rofl/common/label_set.h
index bf72992..88292e5 100644
--- a/common/include/rofl/common/label_set.h
+++ b/common/include/rofl/common/label_set.h
@@ -163,7 +163,7 @@ namespace rofl {
 
 } // end of namespace
 
-std::ostream& operator<<(std::ostream& out, const rofl::LabelSet& ls) {
+inline std::ostream& operator<<(std::ostream& out, const rofl::LabelSet& ls) {
     ls.print(out);
     return out;
 }
-- 
2.43.0


From 1430224d2b4a08393c99ce8d09c1277e84218d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:07 +0000
Subject: [PATCH 11/47] fix: LabelSet comparison of sets with different sizes

---
 common/src/label_set.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/label_set.cpp b/common/src/label_set.cpp
index be5586b..06d4a9b 100644
--- a/common/src/label_set.cpp
+++ b/common/src/label_set.cpp
@@ -54,11 +54,11 @@ namespace rofl {
     }
     
     bool LabelSet::operator==(const LabelSet& ls) const {
-        return std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return (labels_ == ls.labels_);
     }
     
     bool LabelSet::operator!=(const LabelSet& ls) const {
-        return !std::equal(labels_.begin(), labels_.end(), ls.labels_.begin());
+        return !(labels_ == ls.labels_);
     }
 
     bool LabelSet::insert(Label label) {
-- 
2.43.0


From 20c46022bc9116dc1efe51468d4b38789486a053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:02 +0000
Subject: [PATCH 12/47] fix: IntegerTraits<int64_t>::log2Mod must count the
 leading zeros on 64 bits

---
 common/include/rofl/common/numeric_traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index b620365..2a0d2b2 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -258,9 +258,9 @@ struct IntegerTraits<int64_t> {
 
     static IntegerType log2Mod(const IntegerType& i) {
         if (i > 0)
-            return (BIT_NUM - 1 - nlz8(i));
+            return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz8(-i));
+            return (BIT_NUM - 1 - nlz64(-i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
-- 
2.43.0


From 5a2fa7cc3f8167516824c27a20b1dd27dc16dd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:02 +0000
Subject: [PATCH 13/47] fix: undefined negation of the lowest 32 and 64 bit
 integers in IntegerTraits

---
 common/include/rofl/common/numeric_traits.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 2a0d2b2..4d3346a 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -190,7 +190,7 @@ struct IntegerTraits<int32_t> {
         if (i > 0)
             return (BIT_NUM - 1 - nlz32(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz32(-i));
+            return (BIT_NUM - 1 - nlz32(-(UnsignedType)i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
@@ -199,14 +199,14 @@ struct IntegerTraits<int32_t> {
         if (i >= 0)
             return flp2u32((UnsignedType)i);
         else
-            return -clp2u32((UnsignedType)(-i));
+            return -clp2u32(-(UnsignedType)i);
     }
 
     static IntegerType ceilPow2(const IntegerType& i) {
         if (i >= 0)
             return clp2u32((UnsignedType)i);
         else
-            return -flp2u32((UnsignedType)(-i));
+            return -flp2u32(-(UnsignedType)i);
     }
 };
 
@@ -260,7 +260,7 @@ struct IntegerTraits<int64_t> {
         if (i > 0)
             return (BIT_NUM - 1 - nlz64(i));
         else if (i < 0)
-            return (BIT_NUM - 1 - nlz64(-i));
+            return (BIT_NUM - 1 - nlz64(-(UnsignedType)i));
         else
             return 0;  // arbitrary output for invalid argument 0
     }
@@ -269,14 +269,14 @@ struct IntegerTraits<int64_t> {
         if (i >= 0)
             return flp2u64((UnsignedType)i);
         else
-            return -clp2u64((UnsignedType)(-i));
+            return -clp2u64(-(UnsignedType)i);
     }
 
     static IntegerType ceilPow2(const IntegerType& i) {
         if (i >= 0)
             return clp2u64((UnsignedType)i);
         else
-            return -flp2u64((UnsignedType)(-i));
+            return -flp2u64(-(UnsignedType)i);
     }
 };
 
-- 
2.43.0


From b6870e7c04e0194e07edb90bad65d1f1e5f0f728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:02 +0000
Subject: [PATCH 14/47] fix: FloatTraits<double> exponent has 11 bits

---
 common/include/rofl/common/numeric_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/numeric_traits.h b/common/include/rofl/common/numeric_traits.h
index 4d3346a..b8d3f63 100644
--- a/common/include/rofl/common/numeric_traits.h
+++ b/common/include/rofl/common/numeric_traits.h
@@ -437,7 +437,7 @@ struct FloatTraits<double> {
 
     static const int BIT_NUM = 64;
     static const int MANTISSA_BITS = 52;
-    static const int EXPONENT_BITS = 8;
+    static const int EXPONENT_BITS = 11;
     static const int EXPONENT_BIAS = 1023;
 
     static constexpr IntegerType MANTISSA_IMPLICIT_BIT = (IntegerType)1 << MANTISSA_BITS;
-- 
2.43.0


From e2379c0c32ed6ef2e91e95338888818fad3bd2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:31 +0000
Subject: [PATCH 15/47] fix: Morton order of floating points must handle 0.0
 and -0.0 as equal

---
 common/include/rofl/common/morton_sort.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index da42b0d..7d702ef 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -156,6 +156,9 @@ F xorFloat(const F& fin1,
 
     FT::decompose(f1, fm1, fe1, fs1);
     FT::decompose(f2, fm2, fe2, fs2);
+    // The values 0.0 and -0.0 are equal: zero is handled as positive
+    fs1 = fs1 && (f1 != 0);
+    fs2 = fs2 && (f2 != 0);
 
     // If the input numbers have different signs, then the returned value
     // is the infinity.
-- 
2.43.0


From 5825a979b4096b1cee49c83a45bd0d1183bc11e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:31 +0000
Subject: [PATCH 16/47] fix: Morton order of negative floating points is not
 transitive

---
 common/include/rofl/common/morton_sort.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 7d702ef..2320df9 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -180,11 +180,8 @@ F xorFloat(const F& fin1,
     } else {
         fm2 = 0;
     }
-    // Changes the mantissas sign, if f1 and f2 are both negatives
-    if (fs1) {
-        fm1 = -fm1;
-        fm2 = -fm2;
-    }
+    // If f1 and f2 are both negative, the subtrees of negative values mirror the
+    // ones of positive values (see also intervalPow2Float())
     mantissaDiff = fm1 ^ fm2;
 
     if (mantissaDiff == 0) {
-- 
2.43.0


From b7a084ab7ecf594482e7a753ba028c8331841154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:31 +0000
Subject: [PATCH 17/47] fix: Morton order of floating points with differences
 under the exponent range

---
 common/include/rofl/common/morton_sort.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 2320df9..5027338 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -185,13 +185,18 @@ F xorFloat(const F& fin1,
     mantissaDiff = fm1 ^ fm2;
 
     if (mantissaDiff == 0) {
-        exponentDiff = -FT::EXPONENT_BIAS;
-        return FT::compose(mantissaDiff, exponentDiff, false);
+        // Exponent less than the exponent of any difference
+        exponentDiff = FT::EXPONENT_MIN - FT::BIT_NUM;
+        return FT::compose(mantissaDiff, FT::EXPONENT_MIN, false);
     }
     msbPos = FT::MANTISSA_BITS - rofl::IntegerTraits<IntegerType>::log2Mod(mantissaDiff);
     exponentDiff = fe1 - msbPos;
     mantissaDiff = (mantissaDiff << msbPos) & FT::MANTISSA_MASK;
 
+    // The difference may be too small to be represented
+    if (exponentDiff < FT::EXPONENT_MIN) {
+        return FT::compose(0, FT::EXPONENT_MIN, false);
+    }
     return FT::compose(mantissaDiff, exponentDiff, false);
 }
 
@@ -384,16 +389,14 @@ bool mortonCmpFloat(const F* v1, const F* v2) {
     using UnsignedType = typename FT::UnsignedType;
     IntegerType currMantissa, currExponent, lastMantissa, lastExponent;
     int lastDim;
-    F currXor, lastXor;
 
     lastDim = 0;
-    lastXor = xorFloat(v1[0], v2[0], lastMantissa, lastExponent);
+    xorFloat(v1[0], v2[0], lastMantissa, lastExponent);
     for (int d = 1; d < Dim; ++d) {
-        currXor = xorFloat(v1[d], v2[d], currMantissa, currExponent);
-        if (lastXor < currXor && lastExponent < currExponent) {
+        xorFloat(v1[d], v2[d], currMantissa, currExponent);
+        if (lastExponent < currExponent) {
             lastDim = d;
             lastExponent = currExponent;
-            lastXor = currXor;
         }
     }
     return (v1[lastDim] < v2[lastDim]);
-- 
2.43.0


From 44781bb50b2da6c27747b28c1402ede5166fbc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:25 +0000
Subject: [PATCH 18/47] fix: intervalPow2Int shifts with equal values and on
 intervals larger than 2^30

---
 common/include/rofl/common/morton_sort.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 5027338..2967d8a 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -112,10 +112,11 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
     //   mid         00001000  -> 8
     level = IT::BIT_NUM - IT::nlz(IT::removeSign(i1) ^ IT::removeSign(i2));
     if (level < IT::BIT_NUM) {
-        intervMask = (1 << level) - 1;
+        intervMask = (IntegerType)(((UnsignedType)1 << level) - 1);
         low = i1 & (~intervMask);
         upp = (low | intervMask);
-        mid = low | (1 << (level - 1));
+        // When i1 == i2, the interval contains only one value
+        mid = (level > 0 ? (I)(low | (I)((UnsignedType)1 << (level - 1))) : low);
         // ROFL_VAR1(level);
         // ROFL_MSG("i1          " << std::bitset<IT::BIT_NUM>(i1));
         // ROFL_MSG("i2          " << std::bitset<IT::BIT_NUM>(i2));
-- 
2.43.0


From 45f2a6f3d32b79fec8a04e153aceb3815005f350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:25 +0000
Subject: [PATCH 19/47] fix: intervalPow2Int mid value of the whole range of
 unsigned integers

---
 common/include/rofl/common/morton_sort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index 2967d8a..baf2bcf 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -129,7 +129,7 @@ int intervalPow2Int(const I& i1, const I& i2, I& low, I& mid, I& upp) {
         intervMask = ~0;
         low = std::numeric_limits<I>::min();
         upp = std::numeric_limits<I>::max();
-        mid = (upp + low) / 2;
+        mid = (upp / 2 + 1) + low / 2;
     }
     return (int)level;
 }
-- 
2.43.0


From 7f86f01c34e0c0108c9c564ee06dfb474d9c18d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:25 +0000
Subject: [PATCH 20/47] fix: intervalPow2Float invalid shifts with equal values
 or double precision

---
 common/include/rofl/common/morton_sort.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/common/include/rofl/common/morton_sort.h b/common/include/rofl/common/morton_sort.h
index baf2bcf..dd533cc 100644
--- a/common/include/rofl/common/morton_sort.h
+++ b/common/include/rofl/common/morton_sort.h
@@ -248,7 +248,7 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
     }
 
     // Arranges the input floating s.t. fabs(f1) < fabs(f2)
-    f2 = fin1;
+    f1 = fin1;
     f2 = fin2;
     if (fe1 > fe2 || (fe1 == fe2 && fm1 > fm2)) {
         std::swap(fm1, fm2);
@@ -269,10 +269,11 @@ int intervalPow2Float(const F& fin1, const F& fin2, F& low, F& mid, F& upp) {
         level = IT::BIT_NUM - IT::nlz(fm2);
     }
     ROFL_VAR4(fe1, fe2, fe12, level);
-    intervMask = (1 << level) - 1;
+    intervMask = ((IntegerType)1 << level) - 1;
     mlow = fm2 & (~intervMask);
     mupp = (mlow | intervMask);
-    mmid = mlow | (1 << (level - 1));
+    // When the two values are equal, the interval contains only one value
+    mmid = (level > 0 ? (mlow | ((IntegerType)1 << (level - 1))) : mlow);
     if (mlow != 0) {
         low = FT::compose(mlow ^ FT::MANTISSA_IMPLICIT_BIT, fe2, fs2);
     } else {
-- 
2.43.0


From 7b370b2391e1f6ca6faa0ea791b7f7c5e286b75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:44 +0000
Subject: [PATCH 21/47] fix: MortonTree searchInBox returns exactly the items
 inside the box

---
 common/include/rofl/common/morton_tree.h | 60 +++++-------------------
 1 file changed, 11 insertions(+), 49 deletions(-)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index c2064fa..a3757e2 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -255,60 +255,22 @@ class MortonTree {
     }
 
     void searchInBox(const Item& boxMin, const Item& boxMax, std::vector<ConstIterator>& items) {
-        using TreeIntervalQueue = std::deque<TreeInterval>;
-        TreeIntervalQueue queue;
-        TreeInterval cur, low, upp;
-        ConstIterator itLow, itMid, itUpp;
-
         if (!ordered_) {
             sort();
         }
 
-        ROFL_VAR2(boxMin.toString(), boxMax.toString());
-
-        for (auto it = std::begin(items_); it != std::end(items_); ++it) {
-            ROFL_VAR3(it->toString(), compareItems(*it, boxMin), compareItems(*it, boxMax));
-        }
-        cur.first = std::upper_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
-        cur.second = std::lower_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
-        queue.push_back(cur);
-
-        ROFL_MSG("initial interval " << cur.first->toString() << " : " << cur.second->toString());
-
-        int count = 0;
-        while (!queue.empty() && count < 10) {
-            cur = queue.back();
-            queue.pop_back();
-            std::cout << "\n---\nEXPLORING " << printInter(cur) << std::endl;
-            findTreeBucket(cur.first, cur.second, itLow, itMid, itUpp);
-            ROFL_MSG("splitting\n"
-                     << "  low " << printIt(itLow)
-                     << "  mid " << printIt(itMid)
-                     << "  upp " << printIt(itUpp));
-            if (cur.first == itLow && cur.second == itUpp) {
-                for (auto it = itLow; it != itUpp; ++it) {
-                    items.push_back(it);
-                }
-            } else {
-                low.first = cur.first;
-                low.second = itMid;
-                upp.first = itMid;
-                upp.second = cur.second;
-                // ROFL_VAR2(printInter(low), printInter(upp));
-                if (low.first != low.second) {
-                    ROFL_MSG("added LOW interval: " << printInter(low));
-                    queue.push_back(low);
-                } else {
-                    ROFL_MSG("discarted LOW interval: " << printInter(low));
-                }
-                if (upp.first != upp.second) {
-                    ROFL_MSG("added UPP interval: " << printInter(upp));
-                    queue.push_back(upp);
-                } else {
-                    ROFL_MSG("discarted UPP interval: " << printInter(upp));
-                }
+        // All the items inside the box are between its minimum and maximum corners
+        // in Morton order
+        ConstIterator first = std::lower_bound(std::begin(items_), std::end(items_), boxMin, compareItems);
+        ConstIterator last = std::upper_bound(std::begin(items_), std::end(items_), boxMax, compareItems);
+        for (ConstIterator it = first; it < last; ++it) {
+            bool inside = true;
+            for (size_t d = 0; d < Dim && inside; ++d) {
+                inside = (boxMin.values[d] <= it->values[d] && it->values[d] <= boxMax.values[d]);
+            }
+            if (inside) {
+                items.push_back(it);
             }
-            count++;
         }
     }
 
-- 
2.43.0


From d71e0f008f088e1aa924f4798015e68227ef70d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:44 +0000
Subject: [PATCH 22/47] fix: MortonTree insert must keep the id of the item
 when it is not reset

---
 common/include/rofl/common/morton_tree.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/common/include/rofl/common/morton_tree.h b/common/include/rofl/common/morton_tree.h
index a3757e2..83f755a 100644
--- a/common/include/rofl/common/morton_tree.h
+++ b/common/include/rofl/common/morton_tree.h
@@ -177,6 +177,8 @@ class MortonTree {
         std::copy(item.values, item.values + Dim, itemCopy.values);
         if (resetId) {
             itemCopy.id = items_.size();
+        } else {
+            itemCopy.id = item.id;
         }
         items_.push_back(itemCopy);
         ordered_ = false;
-- 
2.43.0


From 07c8df2017d8afdbe97ad3c68e4a5f40db2f87c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:56 +0000
Subject: [PATCH 23/47] fix: ParamMap read must not stop at lines longer than
 MAX_LEN

---
 common/src/param_map.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 11d738d..7619a0d 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -35,8 +35,8 @@ namespace rofl {
         std::string name;
         std::string value;
         std::string length;
-        char buffer[MAX_LEN];
-        while (in.getline(buffer, MAX_LEN)) {
+        std::string buffer;
+        while (std::getline(in, buffer)) {
             std::stringstream ss(buffer);
             if (ss >> name >> value) {
                 if (name.empty() || name.at(0) == COMMENT) {
-- 
2.43.0


From 6f46a16a4847c01b23512d824c9d44e0854b7f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:27:56 +0000
Subject: [PATCH 24/47] fix: ParamMap adaptTildeInPaths invalidates iterator
 and misses paths with other tildes

---
 common/src/param_map.cpp | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/common/src/param_map.cpp b/common/src/param_map.cpp
index 7619a0d..52abd28 100644
--- a/common/src/param_map.cpp
+++ b/common/src/param_map.cpp
@@ -128,19 +128,20 @@ namespace rofl {
 
     void ParamMap::adaptTildeInPaths()
     {
+        const char* homePath = getenv("HOME");
+        if (homePath == nullptr)
+        {
+            return;
+        }
         for (auto it = table_.begin(); it != table_.end(); ++it)
         {
-            auto first = it->first;
-            auto second = it->second;
-            // std::cout << "second with tilde: " << second << std::endl;
-            std::string homePath = getenv("HOME");
-            homePath += "/"; // getenv() return only /home/user -> need to add another
-            // std::cout << "homePath " << homePath << std::endl;
-            if (second.rfind("~") == 0)
+            // The value is changed in place: inserting the parameter again would invalidate it
+            std::string& value = it->second;
+            // Only "~" and "~/..." refer to the home directory
+            if (value == "~" || value.compare(0, 2, "~/") == 0)
             {
-                second.replace(0, 2, homePath);
-                std::cout << "second WITHOUT tilde: " << second << std::endl;
-                setParam(first, second);
+                value.replace(0, 1, homePath);
+                std::cout << "second WITHOUT tilde: " << value << std::endl;
             }
         }
     }
-- 
2.43.0


From 9abfc41e5ab041a33cdd2cafb9605dcc25271ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 25/47] fix: Profiler getVariance must use the sum of squared
 deviations

---
 common/include/rofl/common/profiler.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index f6a55d6..02c3031 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -53,7 +53,7 @@ namespace rofl {
 
             double getVariance() const {
                 if (count > 1) {
-                    return (timeAvg / (count - 1));
+                    return (timeVar / (count - 1));
                 } else {
                     return 0.0;
                 }
-- 
2.43.0


From 3a81a4e7d7c24c2fc860a7269849f5997b798b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 26/47] fix: Profiler mean must be updated with the number of
 measures including the last

---
 common/src/profiler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 77122f3..65418a2 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -30,6 +30,7 @@ namespace rofl {
             stats_.insert(std::make_pair(label, ms));
         } else {
             // Computes mean value and variance with online Welford’s method 
+            it->second.count++;
             double timeAvgOld = it->second.timeAvg;
             it->second.timeAvg += (time - timeAvgOld) / (double) it->second.count;
             it->second.timeVar += (time - it->second.timeAvg) * (time - timeAvgOld);
@@ -39,7 +40,6 @@ namespace rofl {
             if (time > it->second.timeMax) {
                 it->second.timeMax = time;
             }
-            it->second.count++;
         }
     }
 
-- 
2.43.0


From 8820b68238cefba2310fb4c0ad542fe9bdec3e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:12 +0000
Subject: [PATCH 27/47] fix: scoped timer macro must last until the end of its
 scope

---
 common/include/rofl/common/profiler.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index 02c3031..a052d42 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -23,7 +23,9 @@
 #include <chrono>
 #include <rofl/common/macros.h>
 
-#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
+#define ROFL_COMMON_PROFILER_CONCAT_(X, Y) X##Y
+#define ROFL_COMMON_PROFILER_CONCAT(X, Y) ROFL_COMMON_PROFILER_CONCAT_(X, Y)
+#define ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE rofl::ScopedTimer ROFL_COMMON_PROFILER_CONCAT(scopedTimerHere, __LINE__)(ROFL_FILENAME(__FILE__) + "_" + __FUNCTION__ + "_" + ROFL_COMMON_STRING_LINE);
 
 namespace rofl {
 
-- 
2.43.0


From faf39519e3e83863a43cd3e992f32396158eb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:27 +0000
Subject: [PATCH 28/47] fix: evaluatePnebiVector is inaccurate with arguments
 larger than the order

---
 common/src/functions.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index bb9f57b..8876747 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -181,7 +181,9 @@ namespace rofl {
         seqPrev = 0.0; // bip
         seqCurr = 1.0; // bi
         seqNext = 0.0; // bim
-        for (int k = 2 * (n + (int) sqrt(40.0 * n)); k >= 0; --k) {
+        // The initial order must depend also on x: if x is large, the orders above n are not negligible
+        int kInit = (n > 0) ? 2 * (n + (int) sqrt(40.0 * std::max<double>(n, std::min(x, 1.0e+6)))) : 0;
+        for (int k = kInit; k >= 0; --k) {
             seqNext = seqPrev + factor * k * seqCurr;
             seqPrev = seqCurr;
             seqCurr = seqNext;
-- 
2.43.0


From c9d63076286e0f7b5b911d0816167b7659e95efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:27 +0000
Subject: [PATCH 29/47] fix: PnebiLUT eval must accept the maximum order

---
 common/src/functions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index 8876747..774cce9 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -276,7 +276,7 @@ namespace rofl {
 
         // Checks that 1) argument x is positive; 2) order of PNEBI has been computed;
         if (x < 0.0) x = -x;
-        ROFL_ASSERT_VAR2(0 <= k && k < orderMax_, k, orderMax_);
+        ROFL_ASSERT_VAR2(0 <= k && k <= orderMax_, k, orderMax_);
 
         PnebiPoint tmp(0, x);
         auto upper = std::upper_bound(lut_.begin(), lut_.end(), tmp);
-- 
2.43.0


From 41f873593f7af396cb23809d756e65643e45d3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:34:27 +0000
Subject: [PATCH 30/47] fix: PnebiLUT init accesses out of bounds when the
 maximum order is 0

---
 common/src/functions.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index 774cce9..d256dbe 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -243,6 +243,10 @@ namespace rofl {
         // Case  f'(0,x0) = 0 occurs only for x0 -> +inf. When |f'(0,x)| < eps, the algorithm stops.
         int lutNum = (int) ceil(2.0 / tol) + 20;
         double x, y0prev, ratio, deriv;
+        // The derivative requires f(1,x), which is not stored in the LUT when n is 0
+        auto computeDeriv = [](const PnebiPoint& p) -> double {
+            return (p.y.size() > 1) ? (p.y[1] - p.y[0]) : (PnebiPoint(1, p.x).y[1] - p.y[0]);
+        };
 
         // Inserts initial point x=0.0
         x = 0.0;
@@ -251,14 +255,14 @@ namespace rofl {
         lut_.clear();
         lut_.reserve(lutNum);
         lut_.push_back(PnebiPoint(n, x));
-        deriv = lut_.back().y[1] - lut_.back().y[0]; // Initial value of deriv is -2.0
+        deriv = computeDeriv(lut_.back()); // Initial value of deriv is -2.0
         y0prev = lut_.back().y[0];
         //  std::cout << "x " << x << ", deriv " << deriv << std::endl;
         for (int i = 1; i < lutNum; ++i) {
             x = x - tol / deriv;
             lut_.push_back(PnebiPoint(n, x));
             ratio = deriv * (y0prev - lut_.back().y[0]) / tol;
-            deriv = std::min(std::max(lut_.back().y[1] - lut_.back().y[0], ratio), -10.0 * std::numeric_limits<double>::min());
+            deriv = std::min(std::max(computeDeriv(lut_.back()), ratio), -10.0 * std::numeric_limits<double>::min());
             //            std::cout << "x " << x << ", y[0] " << lut_.back().y[0] << " (incr prev y[0] " << (lut_.back().y[0] - y0prev) << "), "
             //                      << "real deriv " << (lut_.back().y[1] - lut_.back().y[0]) << ", deriv " << deriv << ", ratio " << ratio << std::endl;
             y0prev = lut_.back().y[0];
-- 
2.43.0


From 7243dbca1661dcd083c9b4291cb8ec43356ab89e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:36:42 +0000
Subject: [PATCH 31/47] fix: local XY conversion must scale the longitude
 according to the latitude of the origin

---
 geometry/src/gis.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/geometry/src/gis.cpp b/geometry/src/gis.cpp
index f9c04ab..2543c84 100644
--- a/geometry/src/gis.cpp
+++ b/geometry/src/gis.cpp
@@ -44,12 +44,12 @@ namespace rofl {
     }
 
     void convertLatLonToLocalXY(Scalar latOrg, Scalar lonOrg, Scalar lat, Scalar lon, Scalar& x, Scalar& y) {
-        x = (lon - lonOrg) * meterPerDegLon(lonOrg);
+        x = (lon - lonOrg) * meterPerDegLon(latOrg);
         y = (lat - latOrg) * meterPerDegLat(latOrg);
     }
 
     void convertLocalXYToLatLon(Scalar latOrg, Scalar lonOrg, Scalar x, Scalar y, Scalar& lat, Scalar& lon) {
-        lon = x / meterPerDegLon(lonOrg) + lonOrg;
+        lon = x / meterPerDegLon(latOrg) + lonOrg;
         lat = y / meterPerDegLat(latOrg) + latOrg;
     }
 }
-- 
2.43.0


From 036e7657486d943e30b50d16efba6f2662e29bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:37:24 +0000
Subject: [PATCH 32/47] fix: VectorArray operators must assign the components
 of the result

---
 common/include/rofl/common/vector_array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b242922..b1b512b 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -40,7 +40,7 @@ namespace rofl {
 		Type operator+(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] + other[d];
 			}
 			return res;
 		}
@@ -48,7 +48,7 @@ namespace rofl {
 		Type operator-(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] + other[d];
+				res[d] = (*this)[d] - other[d];
 			}
 			return res;
 		}
@@ -56,7 +56,7 @@ namespace rofl {
 		Type operator*(const Value& scalar)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = scalar * (*this)[d];
+				res[d] = scalar * (*this)[d];
 			}
 			return res;
 		}
@@ -64,7 +64,7 @@ namespace rofl {
 		Type operator*(const Type& other)  const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] * other[d];
+				res[d] = (*this)[d] * other[d];
 			}
 			return res;
 		}
@@ -72,7 +72,7 @@ namespace rofl {
 		Type operator/(const Type& other) const {
 			Type res;
 			for (size_t d = 0; d < Dim; ++d) {
-				res = (*this)[d] / other[d];
+				res[d] = (*this)[d] / other[d];
 			}
 			return res;
 		}
-- 
2.43.0


From 493c0f33acff11b5d9145ef9fe9923d8ec34a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:08 +0000
Subject: [PATCH 33/47] fix: BoxRegistration computeTransform must flip the
 axis with minimum singular value

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index 36c1452..c724de3 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -190,7 +190,7 @@ namespace rofl {
         else
             d = -1.0;
         SquareMatrix I = SquareMatrix::Identity();
-        I(1, 1) = d;
+        I(DIM - 1, DIM - 1) = d; // the axis with the minimum singular value
 
         R = svd.matrixV() * I * svd.matrixU().transpose();
         transl = meanDst - R * meanSrc;
-- 
2.43.0


From fcbf2ac62312ee9194f312089dcdc978d09173d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:08 +0000
Subject: [PATCH 34/47] fix: BoxRegistration initial transformation must be a
 rotation and not a reflection

---
 geometry/include/rofl/geometry/box_registration.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index c724de3..b1cdc4e 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -233,7 +233,12 @@ namespace rofl {
         std::cout << "eigen values: " << eigenSolver.eigenvalues().transpose() << "\n"
                 << "eigen vectors:\n" << eigenSolver.eigenvectors() << "\n";
 
-        transf.linear() = eigenSolver.eigenvectors() * perm_;
+        // The eigenvectors may form a reflection: the box is symmetric, so one of the axes can be reversed
+        SquareMatrix axes = eigenSolver.eigenvectors() * perm_;
+        if (axes.determinant() < 0) {
+            axes.col(0) = -axes.col(0);
+        }
+        transf.linear() = axes;
         transf.translation() = centroid;
         transf.makeAffine();
     }
-- 
2.43.0


From 952cdff745a3682f5f2e886489b0b6c34b78b87b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:33 +0000
Subject: [PATCH 35/47] fix: CorrespondenceGraphAssociation must forget the
 previous items and nodes when reused

---
 .../include/rofl/geometry/correspondence_graph_association.h  | 4 +++-
 geometry/src/correspondence_graph_association.cpp             | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index a29fba0..5cbb393 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -122,6 +122,7 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertSrc(It beg, It end, Dist dist) {
             numSrc_ = std::distance(beg, end);
+            distancesSrc_.clear();
             distancesSrc_.reserve(numSrc_ * (numSrc_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesSrc_));
 
@@ -151,7 +152,8 @@ namespace rofl {
         template <typename It, typename Dist>
         void insertDst(It beg, It end, Dist dist) {
             numDst_ = std::distance(beg, end);
-            distancesSrc_.reserve(numDst_ * (numDst_ - 1) / 2);
+            distancesDst_.clear();
+            distancesDst_.reserve(numDst_ * (numDst_ - 1) / 2);
             insertPairDistances(beg, end, dist, std::back_inserter(distancesDst_));
 
             std::sort(distancesDst_.begin(), distancesDst_.end(),
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5d8aeed..5483afc 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -52,6 +52,7 @@ namespace rofl {
         // Creates the list of correspondence nodes.
         // Each node represents an association between a source and a destination
         // point/item. 
+        nodes_.clear();
         nodes_.reserve(numSrc_ * numDst_);
         node.adjacents.clear();
         for (int is = 0; is < numSrc_; ++is) {
-- 
2.43.0


From 3a59b8f3911047cc2205ca62e7d9f04a38696250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:33 +0000
Subject: [PATCH 36/47] fix: CorrespondenceGraphAssociation must return all the
 maximum cliques

---
 .../correspondence_graph_association.h        |  2 +-
 .../src/correspondence_graph_association.cpp  | 33 ++++++++++---------
 2 files changed, 18 insertions(+), 17 deletions(-)

diff --git a/geometry/include/rofl/geometry/correspondence_graph_association.h b/geometry/include/rofl/geometry/correspondence_graph_association.h
index 5cbb393..c3bbb40 100644
--- a/geometry/include/rofl/geometry/correspondence_graph_association.h
+++ b/geometry/include/rofl/geometry/correspondence_graph_association.h
@@ -197,7 +197,7 @@ namespace rofl {
         
         void convertToAssociation(const LabelSet& correspNodes, AssociationHypothesis& assocHyp) const;
         
-        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes);
+        void executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const;
     };
 
 } // end of namespace
diff --git a/geometry/src/correspondence_graph_association.cpp b/geometry/src/correspondence_graph_association.cpp
index 5483afc..1b35d81 100644
--- a/geometry/src/correspondence_graph_association.cpp
+++ b/geometry/src/correspondence_graph_association.cpp
@@ -115,7 +115,8 @@ namespace rofl {
         for (int i = 0; i < nodes_.size(); ++i) {
             candidateNodes.insert(i);
         }
-        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes);
+        cliquesMax.clear();
+        executeBronKerbosch(cliqueCur, candidateNodes, excludedNodes, cliquesMax);
 
         //        for (auto& node0 : nodeList) {
         //            cliqueCur = nodes_[node0].adjacents.unionSet(node0);
@@ -178,28 +179,28 @@ namespace rofl {
         //        }
     }
 
-    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes) {
-        static int iterCount = 0;
-
-        iterCount++;
-        ROFL_VAR1(iterCount);
-        if (iterCount >= 200) {
-            return;
-        }
-
+    void CorrespondenceGraphAssociation::executeBronKerbosch(LabelSet cliqueCur, LabelSet candidateNodes, LabelSet excludedNodes, std::vector<LabelSet>& cliquesMax) const {
         if (candidateNodes.empty() && excludedNodes.empty()) {
-            //return cliqueCur;
-            ROFL_MSG("maximum clique: " << cliqueCur);
+            // cliqueCur is maximal: only the cliques with the maximum number of nodes are kept
+            if (cliqueCur.empty()) {
+                return;
+            }
+            if (!cliquesMax.empty() && cliqueCur.size() > cliquesMax.back().size()) {
+                cliquesMax.clear();
+            }
+            if (cliquesMax.empty() || cliqueCur.size() == cliquesMax.back().size()) {
+                cliquesMax.push_back(cliqueCur);
+            }
             return;
         }
 
-        for (auto& n : candidateNodes) {
-            ROFL_VAR4(n, cliqueCur, candidateNodes, excludedNodes);
+        // The candidate nodes are changed inside the loop, so it visits a copy of them
+        const LabelSet candidateNodesInit(candidateNodes);
+        for (auto& n : candidateNodesInit) {
             LabelSet cliqueCurNew = cliqueCur.unionSet(n);
             LabelSet candidateNodesNew = candidateNodes.intersectionSet(nodes_[n].adjacents);
             LabelSet excludedNodesNew = excludedNodes.intersectionSet(nodes_[n].adjacents);
-            ROFL_VAR4(n, cliqueCurNew, candidateNodesNew, excludedNodesNew);
-            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew);
+            executeBronKerbosch(cliqueCurNew, candidateNodesNew, excludedNodesNew, cliquesMax);
             candidateNodes.remove(n);
             excludedNodes.insert(n);
         }
-- 
2.43.0


From 532a55ab64e9b438551e16a91754d19b8ec4bbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 37/47] fix: HoughPlaneDetector insert divides by zero with
 less than 8 longitude bins

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index a8d08fd..af897ce 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -198,7 +198,7 @@ namespace rofl {
     void HoughPlaneDetector::insert(const VectorVector3& points) {
         int indicesAngle[3];
         rofl::Scalar rho;
-        int phiNotify = phiNum_ / 8;
+        int phiNotify = std::max(phiNum_ / 8, 1);
 
         // Computes the Hough Transform (HT) by incrementing counting cells
         for (indicesAngle[0] = 0; indicesAngle[0] < thetaNum_; ++indicesAngle[0]) {
-- 
2.43.0


From fa2647fa173629d3b60d55ad1d8cdfa69213f5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 38/47] fix: HoughPlaneDetector insert must not count points
 under the minimum distance

---
 geometry/src/hough_plane_detector.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index af897ce..acb8c27 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -197,7 +197,7 @@ namespace rofl {
 
     void HoughPlaneDetector::insert(const VectorVector3& points) {
         int indicesAngle[3];
-        rofl::Scalar rho;
+        rofl::Scalar rho, cell;
         int phiNotify = std::max(phiNum_ / 8, 1);
 
         // Computes the Hough Transform (HT) by incrementing counting cells
@@ -212,8 +212,9 @@ namespace rofl {
                 for (auto &p : points) {
                     rho = normal(0) * p(0) + normal(1) * p(1) + normal(2) * p(2);
                     //indicesAngle[2] = (int) round((rho - rhoMin_) / rhoRes_);
-                    indicesAngle[2] = (int) ((rho - rhoMin_) / rhoRes_);
-                    if (0 <= indicesAngle[2] && indicesAngle[2] < rhoNum_) {
+                    cell = std::floor((rho - rhoMin_) / rhoRes_);
+                    if (0 <= cell && cell < rhoNum_) {
+                        indicesAngle[2] = (int) cell;
                         //houghTransform_.value( { itheta, iphi, irho })++;
                         houghTransform_.value(indicesAngle)++;
                     }
-- 
2.43.0


From a4a7e8855ea196fedd9379c9825cfcf18deb816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 39/47] fix: HoughPlaneDetector getPlaneParam must consider the
 minimum distance

---
 geometry/src/hough_plane_detector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/src/hough_plane_detector.cpp b/geometry/src/hough_plane_detector.cpp
index acb8c27..4adbbeb 100644
--- a/geometry/src/hough_plane_detector.cpp
+++ b/geometry/src/hough_plane_detector.cpp
@@ -174,7 +174,7 @@ namespace rofl {
         ROFL_ASSERT_VAR2(0 <= irho && irho < rhoNum_, irho, rhoNum_);
         PlaneParam planeParam;
         const Vector3 normal = getNormal(itheta, iphi);
-        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho);
+        planeParam << normal(0), normal(1), normal(2), -(rhoRes_ * irho + rhoMin_);
         return planeParam;
     }
 
-- 
2.43.0


From dadc3aa14742bd5829b0b45c0455bc2e63976a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 40/47] fix: HoughLineDetector insert must compute Hough
 transform and spectrum

---
 geometry/src/hough_line_detector.cpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/geometry/src/hough_line_detector.cpp b/geometry/src/hough_line_detector.cpp
index 402f15d..61928c9 100644
--- a/geometry/src/hough_line_detector.cpp
+++ b/geometry/src/hough_line_detector.cpp
@@ -128,7 +128,28 @@ namespace rofl {
     }
 
     void HoughLineDetector::insert(const VectorVector2& points) {
+        Scalar rho, cell;
 
+        // Computes the Hough Transform (HT) by incrementing counting cells
+        for (int itheta = 0; itheta < thetaNum_; ++itheta) {
+            const Vector2& normal = normalLut_[itheta];
+            for (auto &p : points) {
+                rho = normal(0) * p(0) + normal(1) * p(1);
+                cell = std::floor((rho - rhoMin_) / rhoRes_);
+                if (0 <= cell && cell < rhoNum_) {
+                    houghTransform_.value({itheta, (int) cell})++;
+                }
+            }
+        }
+
+        // Computes Hough Spectrum (HS)
+        for (int itheta = 0; itheta < thetaNum_; ++itheta) {
+            houghSpectrum_[itheta] = 0;
+            for (int irho = 0; irho < rhoNum_; ++irho) {
+                Counter htVal = houghTransform_.value({itheta, irho});
+                houghSpectrum_[itheta] += htVal * htVal;
+            }
+        }
     }
 
     void HoughLineDetector::findSpectrumIndicesMax(std::vector<Indices1>& indicesMaxima) const {
-- 
2.43.0


From e6980584128a51d0f0f444e778a9ee196d80d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:34 +0000
Subject: [PATCH 41/47] fix: PointCloudPlaneAligner inliers must not depend on
 the scale of plane coefficients

---
 pcl/include/rofl/pcl/point_cloud_plane_aligner.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pcl/include/rofl/pcl/point_cloud_plane_aligner.h b/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
index f0c2fa8..8ec57ff 100644
--- a/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
+++ b/pcl/include/rofl/pcl/point_cloud_plane_aligner.h
@@ -138,7 +138,7 @@ namespace rofl {
             inlierNum = 0;
             for (auto& p : cloud_->points) {
                 dist = fabs(p.x * plane_(0) + p.y * plane_(1) + p.z * plane_(2) + plane_(3));
-                if (dist < planeTol_) {
+                if (dist < planeTol_ * plane_.template head<3>().norm()) {
                     centerPlane(0) += p.x;
                     centerPlane(1) += p.y;
                     centerPlane(2) += p.z;
-- 
2.43.0


From a5d18fc01eb90d54403acc087110aa7ca77c2c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:53 +0000
Subject: [PATCH 42/47] fix: Profiler singleton must be protected from
 concurrent updates

---
 common/include/rofl/common/profiler.h | 2 ++
 common/src/profiler.cpp               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/common/include/rofl/common/profiler.h b/common/include/rofl/common/profiler.h
index a052d42..faf85f3 100644
--- a/common/include/rofl/common/profiler.h
+++ b/common/include/rofl/common/profiler.h
@@ -21,6 +21,7 @@
 #include <iostream>
 #include <map>
 #include <chrono>
+#include <mutex>
 #include <rofl/common/macros.h>
 
 #define ROFL_COMMON_PROFILER_CONCAT_(X, Y) X##Y
@@ -85,6 +86,7 @@ namespace rofl {
 
     protected:
         std::map<std::string, MeasureStatistic> stats_;
+        mutable std::mutex mutex_;
 
         /**
          * Default constructor as private member of the class. 
diff --git a/common/src/profiler.cpp b/common/src/profiler.cpp
index 65418a2..92e5aea 100644
--- a/common/src/profiler.cpp
+++ b/common/src/profiler.cpp
@@ -24,6 +24,7 @@ namespace rofl {
     // ----------------------------------------------------
 
     void Profiler::updateStat(std::string label, double time) {
+        std::lock_guard<std::mutex> lock(mutex_);
         auto it = stats_.find(label);
         if (it == stats_.end()) {
             MeasureStatistic ms(time);
@@ -44,6 +45,7 @@ namespace rofl {
     }
 
     void Profiler::printStats(std::ostream& out) const {
+        std::lock_guard<std::mutex> lock(mutex_);
         for (auto s : stats_) {
             out << s.first << " \t"
                     << s.second.timeAvg << " \t"
-- 
2.43.0


From 073b4c748e50df343f33943030763ca40d78ca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:53 +0000
Subject: [PATCH 43/47] fix: generateStampedString must not share the static
 buffer of localtime

---
 common/src/io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/src/io.cpp b/common/src/io.cpp
index 2d3da94..da3a421 100644
--- a/common/src/io.cpp
+++ b/common/src/io.cpp
@@ -60,7 +60,8 @@ namespace rofl {
 
     std::string generateStampedString(const std::string prefix, const std::string postfix) {
         std::time_t now = std::time(nullptr);
-        std::tm tm = *std::localtime(&now);
+        std::tm tm;
+        localtime_r(&now, &tm);
         std::stringstream ss;
         ss << prefix << std::put_time(&tm, "%Y%m%d_%H%M_%S") << postfix;
         return ss.str();
-- 
2.43.0


From 278d9581af5700da4cf7c45ffe4cf4882d353888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:55 +0000
Subject: [PATCH 44/47] fix: VectorArray scaling in place must accept one of
 its components as factor

---
 common/include/rofl/common/vector_array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/common/include/rofl/common/vector_array.h b/common/include/rofl/common/vector_array.h
index b1b512b..70cd1ce 100644
--- a/common/include/rofl/common/vector_array.h
+++ b/common/include/rofl/common/vector_array.h
@@ -85,8 +85,9 @@ namespace rofl {
 		}
 
 		Type& operator*=(const Value& scalar) {
+			const Value factor = scalar; // scalar may refer to a component of this object
 			for (size_t d = 0; d < Dim; ++d) {
-				(*this)[d] *= scalar;
+				(*this)[d] *= factor;
 			}
 			return *this;
 		}
-- 
2.43.0


From e0099f1466b87c9874e04d9d876b18819051b529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:52:59 +0000
Subject: [PATCH 45/47] fix: scalar consensus must not estimate from the
 rounding errors of an empty group

---
 common/include/rofl/common/tls_scalar_consensus.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/common/include/rofl/common/tls_scalar_consensus.h b/common/include/rofl/common/tls_scalar_consensus.h
index ff2a20c..794cac3 100644
--- a/common/include/rofl/common/tls_scalar_consensus.h
+++ b/common/include/rofl/common/tls_scalar_consensus.h
@@ -18,6 +18,8 @@
 #ifndef ROFL_COMMON_TLS_SCALAR_CONSENSUS_H_
 #define ROFL_COMMON_TLS_SCALAR_CONSENSUS_H_
 
+#include <limits>
+
 #include <rofl/common/macros.h>
 
 namespace rofl {
@@ -103,6 +105,17 @@ void estimateTranslationTls(const std::vector<Scalar>& values, const std::vector
 
         // ROFL_VAR1(consensusWeighted);
 
+        // No interval contains the points between this endpoint and the next one: there is no estimate
+        // and the sums are exactly zero (their residual values are only rounding errors)
+        if (consensusSetCardinal == 0) {
+            consensusWeighted = 0;
+            valueWeighted = 0;
+            sumXi = 0;
+            sumXiSquare = 0;
+            valueCost[j] = std::numeric_limits<Scalar>::max();
+            continue;
+        }
+
         valueHat[j] = valueWeighted / consensusWeighted;
 
         Scalar residual = consensusSetCardinal * valueHat[j] * valueHat[j] + sumXiSquare - 2 * sumXi * valueHat[j];
-- 
2.43.0


From 656d5db772d9b3cbabf1ff87f0ec9f1e3ee6eec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:47 +0000
Subject: [PATCH 46/47] fix: BoxRegistration initial estimate must not add the
 identity to the covariance

---
 geometry/include/rofl/geometry/box_registration.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/geometry/include/rofl/geometry/box_registration.h b/geometry/include/rofl/geometry/box_registration.h
index b1cdc4e..e7840ff 100644
--- a/geometry/include/rofl/geometry/box_registration.h
+++ b/geometry/include/rofl/geometry/box_registration.h
@@ -222,7 +222,7 @@ namespace rofl {
 
         // Estimates the covariance matrix: the initial rotation matrix corresponds 
         // to eigenvector matrix
-        covar = SquareMatrix::Identity();
+        covar = SquareMatrix::Zero();
         for (int i = 0; i < n; ++i) {
             covar += (cloud[i] - centroid) * (cloud[i] - centroid).transpose();
         }
-- 
2.43.0


From 2435cc83d7ff0e6e8abb86848c09c63a6e3182c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:24 +0000
Subject: [PATCH 47/47] fix: evaluatePnebiVector must be accurate for orders
 above 0 also for large arguments

---
 common/src/functions.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/common/src/functions.cpp b/common/src/functions.cpp
index d256dbe..5678c8f 100755
--- a/common/src/functions.cpp
+++ b/common/src/functions.cpp
@@ -176,13 +176,23 @@ namespace rofl {
             return;
         }
 
+        // The length of the recursion grows with sqrt(x): for large x uses the asymptotic
+        // BesselI(k,x) / BesselI(0,x) ~= exp(-k^2 / (2 * x)), with relative error O(1/x).
+        if (x > 1e+6) {
+            pnebis[0] = evaluatePnebi0Polynom(x);
+            for (int k = 1; k <= n; ++k) {
+                pnebis[k] = pnebis[0] * exp(-0.5 * k * (k / x));
+            }
+            return;
+        }
+
         // Computes bessel function using back recursion
         factor = 2.0 / x;
         seqPrev = 0.0; // bip
         seqCurr = 1.0; // bi
         seqNext = 0.0; // bim
         // The initial order must depend also on x: if x is large, the orders above n are not negligible
-        int kInit = (n > 0) ? 2 * (n + (int) sqrt(40.0 * std::max<double>(n, std::min(x, 1.0e+6)))) : 0;
+        int kInit = (n > 0) ? 2 * (n + (int) sqrt(40.0 * std::max<double>(n, x))) : 0;
         for (int k = kInit; k >= 0; --k) {
             seqNext = seqPrev + factor * k * seqCurr;
             seqPrev = seqCurr;
-- 
2.43.0

