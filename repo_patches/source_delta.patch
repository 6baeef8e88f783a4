From db0f4efe5239ed5943ac388ca682f527ab8d4c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 01/36] fix: PairQuantity::setStructure must invalidate
 optimized fast updates

setStructure resets the value to zeros, but did not click the ticker.
The optimized evaluator then updated from the zeroed value and returned
wrong totals for the next eval.
---
 src/diffpy/srreal/PQEvaluator.cpp  |  8 ++++----
 src/diffpy/srreal/PairQuantity.cpp | 16 ++++++++++++----
 src/diffpy/srreal/PairQuantity.hpp |  1 +
 3 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 7187405..5ab2927 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -97,7 +97,7 @@ void PQEvaluatorBasic::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
     mtypeused = BASIC;
-    pq.setStructure(stru);
+    pq.assignStructure(stru);
     BaseBondGeneratorPtr bnds = pq.mstructure->createBondGenerator();
     pq.configureBondGenerator(*bnds);
     int cntsites = pq.mstructure->countSites();
@@ -244,13 +244,13 @@ void PQEvaluatorOptimized::updateValue(
         }
     }
     // Add contributions from the new atoms in the updated structure
-    // save current value to override the resetValue call from setStructure
+    // save current value to override the resetValue call in assignStructure
     assert(sd.stru1);
     pq.stashPartialValue();
-    // setStructure(stru1) calls stru1->customPQConfig(pq), which may totally
+    // assignStructure(stru1) calls stru1->customPQConfig(pq) which may totally
     // change pq configuration.  If so, revert to full calculation.
     assert(pq.ticker() < mvalue_ticker);
-    pq.setStructure(sd.stru1);
+    pq.assignStructure(convertToStructureAdapter(sd.stru1));
     if (pq.ticker() >= mvalue_ticker)
     {
         return this->updateValueCompletely(pq, stru);
diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index b525b54..d0a645c 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -68,10 +68,9 @@ const QuantityType& PairQuantity::eval(StructureAdapterPtr stru)
 
 void PairQuantity::setStructure(StructureAdapterPtr stru)
 {
-    mstructure = stru.get() ? stru : emptyStructureAdapter();
-    mstructure->customPQConfig(this);
-    this->updateMaskData();
-    this->resetValue();
+    this->assignStructure(stru);
+    // the value has been reset, it cannot be used for fast updates
+    mticker.click();
 }
 
 
@@ -419,6 +418,15 @@ void PairQuantity::restorePartialValue()
 
 // Private Methods -----------------------------------------------------------
 
+void PairQuantity::assignStructure(StructureAdapterPtr stru)
+{
+    mstructure = stru.get() ? stru : emptyStructureAdapter();
+    mstructure->customPQConfig(this);
+    this->updateMaskData();
+    this->resetValue();
+}
+
+
 void PairQuantity::updateMaskData()
 {
     int cntsites = this->countSites();
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index b80086e..fbae344 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -126,6 +126,7 @@ class PairQuantity : public diffpy::Attributes
     private:
 
         // methods
+        void assignStructure(StructureAdapterPtr);
         void updateMaskData();
         bool setPairMaskValue(int i, int j, bool mask);
 
-- 
2.43.0


From 62a32a2ac87dfc4d94a5b5631473f51edd3fa426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:52 +0000
Subject: [PATCH 02/36] fix: let the last pair mask operation win and notify on
 every mask change

setPairMask(i, ALL) after or before pair-specific masks, as well as masks
set before the structure is assigned, left stale or ignored pair masks, and
all-site masks did not always invalidate optimized fast updates.
---
 src/diffpy/srreal/PairQuantity.cpp | 61 ++++++++++++++++++++++--------
 src/diffpy/srreal/PairQuantity.hpp |  6 +++
 2 files changed, 52 insertions(+), 15 deletions(-)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index d0a645c..a8d3c06 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -34,6 +34,17 @@ namespace srreal {
 const int PairQuantity::ALLATOMSINT = -1;
 const string PairQuantity::ALLATOMSSTR = "all";
 
+// Local Helpers -------------------------------------------------------------
+
+namespace {
+
+pair<int,int> sorted_pair(int i, int j)
+{
+    return (i > j) ? make_pair(j, i) : make_pair(i, j);
+}
+
+}   // namespace
+
 // Constructor ---------------------------------------------------------------
 
 PairQuantity::PairQuantity() :
@@ -186,6 +197,7 @@ void PairQuantity::maskAllPairs(bool mask)
     if (!nochange)  mticker.click();
     minvertpairmask.clear();
     msiteallmask.clear();
+    mpairmask.clear();
     mtypemask.clear();
     mdefaultpairmask = mask;
 }
@@ -200,6 +212,11 @@ void PairQuantity::invertMask()
     {
         mm->second = !(mm->second);
     }
+    PairMaskMap::iterator pm;
+    for (pm = mpairmask.begin(); pm != mpairmask.end(); ++pm)
+    {
+        pm->second = !(pm->second);
+    }
     TypeMaskStorage::iterator tpmsk;
     for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
     {
@@ -233,36 +250,43 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
         pmm = msiteallmask.emplace(k, mask);
         if (pmm.second || pmm.first->second != mask)  modified = true;
         pmm.first->second = mask;
+        // this setting supersedes earlier masks of individual pairs at site k
+        PairMaskMap::iterator pm = mpairmask.begin();
+        while (pm != mpairmask.end())
+        {
+            const pair<int,int>& kl = pm->first;
+            if (k == kl.first || k == kl.second)  pm = mpairmask.erase(pm);
+            else  ++pm;
+        }
+        // and it also takes precedence over earlier all-masks at other sites
+        unordered_map<int, bool>::const_iterator ia;
+        for (ia = msiteallmask.begin(); ia != msiteallmask.end(); ++ia)
+        {
+            const int& l = ia->first;
+            if (mask != ia->second)  mpairmask[sorted_pair(k, l)] = mask;
+        }
         int cntsites = this->countSites();
         for (int l = 0; l < cntsites; ++l)
         {
-            this->setPairMaskValue(k, l, mask);
+            modified = this->setPairMaskValue(k, l, mask) || modified;
         }
         if (modified)  mticker.click();
         return;
     }
     // here neither i nor j is ALLATOMSINT
-    unordered_map<int, bool>::iterator ii, jj;
-    ii = msiteallmask.find(i);
-    if (ii != msiteallmask.end() && mask != ii->second)
-    {
-        msiteallmask.erase(ii);
-        modified = true;
-    }
-    jj = msiteallmask.find(j);
-    if (jj != msiteallmask.end() && mask != jj->second)
+    // remember masks that must not be reset by some all-mask for i or j.
+    if (msiteallmask.count(i) || msiteallmask.count(j))
     {
-        msiteallmask.erase(jj);
-        modified = true;
+        mpairmask[sorted_pair(i, j)] = mask;
     }
-    modified = this->setPairMaskValue(i, j, mask) ? true : modified;
+    modified = this->setPairMaskValue(i, j, mask) || modified;
     if (modified)  mticker.click();
 }
 
 
 bool PairQuantity::getPairMask(int i, int j) const
 {
-    pair<int,int> ij = (i > j) ? make_pair(j, i) : make_pair(i, j);
+    pair<int,int> ij = sorted_pair(i, j);
     bool rv = minvertpairmask.count(ij) ?
         !mdefaultpairmask : mdefaultpairmask;
     return rv;
@@ -294,6 +318,7 @@ setTypeMask(string smbli, string smblj, bool mask)
     // msiteallmask is only relevant for index-based masking.
     // clean it up to avoid unexpected effects when switching to index masks.
     msiteallmask.clear();
+    mpairmask.clear();
     bool modified = false;
     // when all is used, remove all typemask elements with the other type
     if (ALLATOMSSTR == smbli || ALLATOMSSTR == smblj)
@@ -441,6 +466,12 @@ void PairQuantity::updateMaskData()
                 this->setPairMaskValue(ia->first, j, ia->second);
             }
         }
+        PairMaskMap::const_iterator pm;
+        for (pm = mpairmask.begin(); pm != mpairmask.end(); ++pm)
+        {
+            this->setPairMaskValue(
+                    pm->first.first, pm->first.second, pm->second);
+        }
     }
     // For type masking propagate atom types to corresponding atom indices.
     else
@@ -488,7 +519,7 @@ void PairQuantity::updateMaskData()
 bool PairQuantity::setPairMaskValue(int i, int j, bool mask)
 {
     assert(i >= 0 && j >= 0);
-    pair<int,int> ij = (i > j) ? make_pair(j, i) : make_pair(i, j);
+    pair<int,int> ij = sorted_pair(i, j);
     bool rv;
     rv = (mask == mdefaultpairmask) ?
         minvertpairmask.erase(ij) :
diff --git a/src/diffpy/srreal/PairQuantity.hpp b/src/diffpy/srreal/PairQuantity.hpp
index fbae344..d870008 100644
--- a/src/diffpy/srreal/PairQuantity.hpp
+++ b/src/diffpy/srreal/PairQuantity.hpp
@@ -107,6 +107,10 @@ class PairQuantity : public diffpy::Attributes
             std::pair<int,int>,
             boost::hash< std::pair<int,int> >
                 > PairMaskStorage;
+        typedef std::unordered_map<
+            std::pair<int,int>, bool,
+            boost::hash< std::pair<int,int> >
+                > PairMaskMap;
         typedef std::unordered_map<
             std::pair<std::string,std::string>, bool,
             boost::hash< std::pair<std::string,std::string> >
@@ -119,6 +123,7 @@ class PairQuantity : public diffpy::Attributes
         bool mdefaultpairmask;
         PairMaskStorage minvertpairmask;
         std::unordered_map<int, bool> msiteallmask;
+        PairMaskMap mpairmask;      // pair masks that override msiteallmask
         TypeMaskStorage mtypemask;
         int mmergedvaluescount;
         mutable eventticker::EventTicker mticker;
@@ -143,6 +148,7 @@ class PairQuantity : public diffpy::Attributes
             ar & mdefaultpairmask;
             ar & minvertpairmask;
             ar & msiteallmask;
+            ar & mpairmask;
             ar & mtypemask;
             ar & mmergedvaluescount;
             ar & mticker;
-- 
2.43.0


From 137c2ec1d24a7d4cad51da59abc91c17b49ff2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:48 +0000
Subject: [PATCH 03/36] fix: asind must return the arc sine, not the arc cosine

---
 src/diffpy/mathutils.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/mathutils.ipp b/src/diffpy/mathutils.ipp
index acf4d24..5782e76 100644
--- a/src/diffpy/mathutils.ipp
+++ b/src/diffpy/mathutils.ipp
@@ -106,7 +106,7 @@ double asind(double x)
             case -2: return -90.0;
         };
     }
-    return acos(x)/M_PI*180.0;
+    return asin(x)/M_PI*180.0;
 }
 
 
-- 
2.43.0


From 6d9b5ca81d0f8ad91724ae66b7c78e93f048066f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:56 +0000
Subject: [PATCH 04/36] fix: PointsInSphere must exclude points below Rmin that
 lie on a line whose exclusion starts at a lattice point

---
 src/diffpy/srreal/PointsInSphere.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PointsInSphere.cpp b/src/diffpy/srreal/PointsInSphere.cpp
index 88c24ef..e63a0b5 100644
--- a/src/diffpy/srreal/PointsInSphere.cpp
+++ b/src/diffpy/srreal/PointsInSphere.cpp
@@ -223,7 +223,7 @@ void PointsInSphere::next_n()
             if (oExclHalfSpan)
             {
                 int hole_o = int(ceil(o0line - oExclHalfSpan));
-                if (fabs(hole_o-o0line) < oExclHalfSpan)    hi_o = hole_o;
+                if (hole_o - o0line < oExclHalfSpan)    hi_o = hole_o;
             }
             return;
         }
-- 
2.43.0


From ff2a3964198d5e12d8b3f4a981fe19ddc942e247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:54 +0000
Subject: [PATCH 05/36] fix: average equal symmetry positions across cell
 boundaries and reduce P1 sites to the unit cell

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 22 +++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 9db5f0d..d690af4 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -157,8 +157,10 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
 {
     using mathutils::eps_eq;
     AtomVector eqsites;
+    vector<R3::Vector> eqrefpos;
     vector<R3::Vector> eqsumpos;
     vector<int> eqduplicity;
+    eqrefpos.reserve(this->countSymOps());
     eqsumpos.reserve(this->countSymOps());
     eqduplicity.reserve(this->countSymOps());
     const Lattice& L = this->getLattice();
@@ -177,32 +179,44 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
             R3::Matrix utmp = R3::prod(a0.uij_cartn, R3::trans(op->R));
             a1.uij_cartn = R3::prod(op->R, utmp);
             eqsites.push_back(a1);
+            eqrefpos.push_back(L.ucvFractional(a1.xyz_cartn));
             eqsumpos.push_back(R3::zerovector);
             eqduplicity.push_back(0);
             ieq = eqsites.size() - 1;
         }
-        eqsumpos[ieq] += L.ucvFractional(a1.xyz_cartn);
+        // sum offsets from the first equal position, because positions close
+        // to a cell boundary may reduce to its opposite sides.
+        R3::Vector dxyz = a1.xyz_cartn - eqrefpos[ieq];
+        dxyz[0] -= round(dxyz[0]);
+        dxyz[1] -= round(dxyz[1]);
+        dxyz[2] -= round(dxyz[2]);
+        eqsumpos[ieq] += dxyz;
         eqduplicity[ieq] += 1;
     }
     // assume P1 if symmetry operations were not defined
     if (msymops.empty())
     {
         assert(eqsites.empty());
+        assert(eqrefpos.empty());
         assert(eqsumpos.empty());
         assert(eqduplicity.empty());
         eqsites.push_back(a0);
-        eqsumpos.push_back(a0.xyz_cartn);
+        eqrefpos.push_back(a0.xyz_cartn);
+        eqsumpos.push_back(R3::zerovector);
         eqduplicity.push_back(1);
     }
     // calculate mean values from equivalent sites and adjust any roundoffs
     assert(eqsites.size() == eqduplicity.size());
+    assert(eqsites.size() == eqrefpos.size());
     assert(eqsites.size() == eqsumpos.size());
     iterator ai = eqsites.begin();
+    vector<R3::Vector>::const_iterator rpi = eqrefpos.begin();
     vector<R3::Vector>::const_iterator sii = eqsumpos.begin();
     vector<int>::const_iterator dpi = eqduplicity.begin();
-    for (; ai != eqsites.end(); ++ai, ++sii, ++dpi)
+    for (; ai != eqsites.end(); ++ai, ++rpi, ++sii, ++dpi)
     {
-        ai->xyz_cartn = (*sii) / (*dpi);
+        R3::Vector xyz = *rpi + (*sii) / (*dpi);
+        ai->xyz_cartn = L.ucvFractional(xyz);
     }
     return eqsites;
 }
-- 
2.43.0


From 6fe51ecb63e73d116651a507c827ec5e78b86ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:04 +0000
Subject: [PATCH 06/36] fix: rotate displacement tensors correctly by
 operations that mix axes of unequal length

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index d690af4..08c82b1 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -164,6 +164,7 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
     eqsumpos.reserve(this->countSymOps());
     eqduplicity.reserve(this->countSymOps());
     const Lattice& L = this->getLattice();
+    const double rlen[R3::Ndim] = {L.ar(), L.br(), L.cr()};
     SymOpVector::const_iterator op = msymops.begin();
     Atom a1 = a0;
     for (; op != msymops.end(); ++op)
@@ -176,8 +177,18 @@ CrystalStructureAdapter::expandLatticeAtom(const Atom& a0) const
         if (ieq < 0)
         {
             // a1 is a new symmetry site
-            R3::Matrix utmp = R3::prod(a0.uij_cartn, R3::trans(op->R));
-            a1.uij_cartn = R3::prod(op->R, utmp);
+            // Uij-s are expressed per reciprocal axes lengths, therefore
+            // rotation needs to be rescaled if it mixes unequal axes.
+            R3::Matrix Ru = op->R;
+            for (int i = 0; i < R3::Ndim; ++i)
+            {
+                for (int j = 0; j < R3::Ndim; ++j)
+                {
+                    Ru(i, j) *= rlen[j] / rlen[i];
+                }
+            }
+            R3::Matrix utmp = R3::prod(a0.uij_cartn, R3::trans(Ru));
+            a1.uij_cartn = R3::prod(Ru, utmp);
             eqsites.push_back(a1);
             eqrefpos.push_back(L.ucvFractional(a1.xyz_cartn));
             eqsumpos.push_back(R3::zerovector);
-- 
2.43.0


From 225dfd4dbeb409a6369f0baa6db4cf61cf5a7bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:12 +0000
Subject: [PATCH 07/36] fix: bond generator must use the displacement tensor of
 the actual anchor position

---
 src/diffpy/srreal/CrystalStructureAdapter.cpp | 10 +++++++++-
 src/diffpy/srreal/CrystalStructureAdapter.hpp |  3 ++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/CrystalStructureAdapter.cpp b/src/diffpy/srreal/CrystalStructureAdapter.cpp
index 08c82b1..33e2e4c 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.cpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.cpp
@@ -327,6 +327,14 @@ void CrystalStructureBondGenerator::selectAnchorSite(int anchor)
 }
 
 
+const R3::Matrix& CrystalStructureBondGenerator::Ucartesian0() const
+{
+    // r0 is at the first symmetry position, which may be rotated
+    // with respect to the site in the asymmetric unit.
+    return this->symatoms(this->site0())[0].uij_cartn;
+}
+
+
 const R3::Matrix& CrystalStructureBondGenerator::Ucartesian1() const
 {
     return *mpuc1;
@@ -380,7 +388,7 @@ void CrystalStructureBondGenerator::updater1()
 // Private Methods -----------------------------------------------------------
 
 const CrystalStructureAdapter::AtomVector&
-CrystalStructureBondGenerator::symatoms(int idx)
+CrystalStructureBondGenerator::symatoms(int idx) const
 {
     assert(0 <= idx && idx < int(mcstructure->msymatoms.size()));
     return mcstructure->msymatoms[idx];
diff --git a/src/diffpy/srreal/CrystalStructureAdapter.hpp b/src/diffpy/srreal/CrystalStructureAdapter.hpp
index 5664581..30138a2 100644
--- a/src/diffpy/srreal/CrystalStructureAdapter.hpp
+++ b/src/diffpy/srreal/CrystalStructureAdapter.hpp
@@ -148,6 +148,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         virtual void selectAnchorSite(int);
 
         // data access
+        virtual const R3::Matrix& Ucartesian0() const;
         virtual const R3::Matrix& Ucartesian1() const;
 
     protected:
@@ -168,7 +169,7 @@ class CrystalStructureBondGenerator : public PeriodicStructureBondGenerator
         typedef CrystalStructureAdapter::AtomVector AtomVector;
 
         // methods
-        const AtomVector& symatoms(int idx);
+        const AtomVector& symatoms(int idx) const;
 
 };
 
-- 
2.43.0


From 8d305d2c8b39ad4a475b2e5c534daa05f0150be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:57 +0000
Subject: [PATCH 08/36] fix: let the last type mask operation win when wildcard
 masks overlap

---
 src/diffpy/srreal/PairQuantity.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index a8d3c06..9e9d9f3 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -337,6 +337,20 @@ setTypeMask(string smbli, string smblj, bool mask)
             }
             else  ++tpmsk;
         }
+        // take precedence over earlier all-masks for other types
+        TypeMaskStorage explicitmasks;
+        for (tpmsk = mtypemask.begin(); tpmsk != mtypemask.end(); ++tpmsk)
+        {
+            const pair<string,string>& kl = tpmsk->first;
+            const bool hasall =
+                (ALLATOMSSTR == kl.first || ALLATOMSSTR == kl.second);
+            if (!hasall || mask == tpmsk->second || kl == smblij)  continue;
+            const string& sl = (ALLATOMSSTR != kl.first) ? kl.first : kl.second;
+            explicitmasks[(sk > sl) ?
+                make_pair(sl, sk) : make_pair(sk, sl)] = mask;
+        }
+        if (!explicitmasks.empty())  modified = true;
+        mtypemask.insert(explicitmasks.begin(), explicitmasks.end());
     }
     pair<TypeMaskStorage::iterator, bool> pmm;
     pmm = mtypemask.emplace(smblij, mask);
-- 
2.43.0


From b46a0518e31992de3b66aae7f46aecf7019da504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:08 +0000
Subject: [PATCH 09/36] fix: discard masks derived from atom types when
 switching to index masks

---
 src/diffpy/srreal/PairQuantity.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/PairQuantity.cpp b/src/diffpy/srreal/PairQuantity.cpp
index 9e9d9f3..5889d7e 100644
--- a/src/diffpy/srreal/PairQuantity.cpp
+++ b/src/diffpy/srreal/PairQuantity.cpp
@@ -240,6 +240,8 @@ void PairQuantity::setPairMask(int i, int j, bool mask)
     if (!mtypemask.empty())
     {
         mtypemask.clear();
+        // forget also the pair masks that were derived from atom types
+        minvertpairmask.clear();
         modified = true;
     }
     // handle one ALLATOMSINT argument
-- 
2.43.0


From 3c821f6a182fb42a50bb6c8b196c1bece708da99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 10/36] fix: changed parallel setup must invalidate optimized
 fast updates

---
 src/diffpy/srreal/PQEvaluator.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 5ab2927..5249686 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,6 +149,12 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
+    // the last value was obtained for a different share of contributions
+    // and cannot be used for fast updates.
+    if (mcpuindex != cpuindex || mncpu != ncpu)
+    {
+        mvalue_ticker = eventticker::EventTicker();
+    }
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
-- 
2.43.0


From 10231003f5048efa1c760f23c86c91834b8df996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:06 +0000
Subject: [PATCH 11/36] fix: merge bonds correctly from parallel workers that
 use fast updates

---
 src/diffpy/srreal/BondCalculator.cpp | 14 +++++++++-----
 src/diffpy/srreal/BondCalculator.hpp |  1 +
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 21e8435..d501c94 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -233,18 +233,20 @@ void BondCalculator::executeParallelMerge(const std::string& pdata)
 
 void BondCalculator::finishValue()
 {
-    // filter-out entries marked for removal
-    assert(mpopbonds.size() <= mbonds.size());
     sort(mpopbonds.begin(), mpopbonds.end(), BondOp::compare);
     sort(maddbonds.begin(), maddbonds.end(), BondOp::compare);
+    // keep accumulating added and removed bonds in the parallel workers,
+    // because removed bonds may have been added by some other worker.
     if (mevaluator->isParallel())  return;
+    if (mbonds.empty())  mbonds.swap(maddbonds);
+    else  BondOp::bmerge(mbonds, maddbonds);
+    // filter-out entries marked for removal
+    assert(mpopbonds.size() <= mbonds.size());
     BondDataStorage::iterator last;
     last = set_difference(mbonds.begin(), mbonds.end(),
             mpopbonds.begin(), mpopbonds.end(),
             mbonds.begin(), BondOp::compare);
     mbonds.erase(last, mbonds.end());
-    if (mbonds.empty())  mbonds.swap(maddbonds);
-    else  BondOp::bmerge(mbonds, maddbonds);
     mvalue = this->distances();
     mpopbonds.clear();
     maddbonds.clear();
@@ -255,7 +257,7 @@ void BondCalculator::stashPartialValue()
 {
     mstashedvalue.bonds.swap(mbonds);
     mstashedvalue.popbonds.swap(mpopbonds);
-    // No need to stash maddbonds as they are evaluated after partial value.
+    mstashedvalue.addbonds.swap(maddbonds);
 }
 
 
@@ -263,8 +265,10 @@ void BondCalculator::restorePartialValue()
 {
     mbonds.swap(mstashedvalue.bonds);
     mpopbonds.swap(mstashedvalue.popbonds);
+    maddbonds.swap(mstashedvalue.addbonds);
     mstashedvalue.bonds.clear();
     mstashedvalue.popbonds.clear();
+    mstashedvalue.addbonds.clear();
 }
 
 // Private Methods -----------------------------------------------------------
diff --git a/src/diffpy/srreal/BondCalculator.hpp b/src/diffpy/srreal/BondCalculator.hpp
index 49c6876..94ae340 100644
--- a/src/diffpy/srreal/BondCalculator.hpp
+++ b/src/diffpy/srreal/BondCalculator.hpp
@@ -111,6 +111,7 @@ class BondCalculator : public PairQuantity
         struct {
             BondDataStorage bonds;
             BondDataStorage popbonds;
+            BondDataStorage addbonds;
         } mstashedvalue;
 
 };
-- 
2.43.0


From 17f0e1d70ae9e270daa564ad2fbafc232620c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 12/36] fix: discard partial values of optimized updates that
 end with exception

---
 src/diffpy/srreal/PQEvaluator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 5249686..b6876ac 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -206,6 +206,8 @@ void PQEvaluatorOptimized::updateValue(
     }
     // Remove contributions from the extra sites in the old structure
     assert(sd.stru0 == mlast_structure);
+    // the value is incomplete if any of the steps below throws exception
+    mlast_structure.reset();
     int cntsites0 = sd.stru0->countSites();
     BaseBondGeneratorPtr bnds0 = sd.stru0->createBondGenerator();
     pq.configureBondGenerator(*bnds0);
@@ -307,6 +309,7 @@ void PQEvaluatorOptimized::updateValue(
 void PQEvaluatorOptimized::updateValueCompletely(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
+    mlast_structure.reset();
     this->PQEvaluatorBasic::updateValue(pq, stru);
     mlast_structure = pq.getStructure()->clone();
 }
-- 
2.43.0


From e496256cafa2050687518e18b60e2245f220cee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 13/36] fix: export bonds also from a single parallel worker

---
 src/diffpy/srreal/BondCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index d501c94..3305f81 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -190,7 +190,10 @@ string BondCalculator::getParallelData() const
 {
     ostringstream storage(ios::binary);
     diffpy::serialization::oarchive oa(storage, ios::binary);
-    oa << mpopbonds << maddbonds;
+    // when not parallel, all bonds are already in place after finishValue
+    const BondDataStorage& badd =
+        mevaluator->isParallel() ? maddbonds : mbonds;
+    oa << mpopbonds << badd;
     return storage.str();
 }
 
-- 
2.43.0


From 6b9769ccd69962e7e099e61787a7eecb67a9998c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:05 +0000
Subject: [PATCH 14/36] fix: Debye sums must respect different occupancies of
 the same atom type

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index e416569..eb8a420 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -21,6 +21,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <functional>
+#include <map>
 
 #include <diffpy/srreal/BaseDebyeSum.hpp>
 #include <diffpy/mathutils.hpp>
@@ -234,19 +235,21 @@ void BaseDebyeSum::cacheStructureData()
     int cntsites = this->countSites();
     const int nqpts = pdfutils_qmaxSteps(this);
     QuantityType zeros(nqpts, 0.0);
-    unordered_map<string,int> atomtypeidx;
+    // scattering factors of the sites depend on atom type and occupancy
+    map<pair<string,double>,int> atomtypeidx;
     // sftypeatkq
     mstructure_cache.typeofsite.clear();
     mstructure_cache.typeofsite.reserve(cntsites);
     mstructure_cache.sftypeatkq.clear();
     for (int siteidx = 0; siteidx < cntsites; ++siteidx)
     {
-        const string& smbl = mstructure->siteAtomType(siteidx);
-        if (!atomtypeidx.count(smbl))
+        const pair<string,double> tp(mstructure->siteAtomType(siteidx),
+                mstructure->siteOccupancy(siteidx));
+        if (!atomtypeidx.count(tp))
         {
-            atomtypeidx.insert(make_pair(smbl, int(atomtypeidx.size())));
+            atomtypeidx.insert(make_pair(tp, int(atomtypeidx.size())));
         }
-        int tpidx = atomtypeidx[smbl];
+        int tpidx = atomtypeidx[tp];
         mstructure_cache.typeofsite.push_back(tpidx);
         // do nothing if the type has been already cached
         if (tpidx < int(mstructure_cache.sftypeatkq.size()))  continue;
-- 
2.43.0


From da62d6f459de0c0029923f772ca917bbaa454f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:15 +0000
Subject: [PATCH 15/36] fix: bond valence sums must scale with multiplicities
 of symmetry related sites

---
 src/diffpy/srreal/BVSCalculator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVSCalculator.cpp b/src/diffpy/srreal/BVSCalculator.cpp
index 44e5de4..d93d7b1 100644
--- a/src/diffpy/srreal/BVSCalculator.cpp
+++ b/src/diffpy/srreal/BVSCalculator.cpp
@@ -176,7 +176,10 @@ void BVSCalculator::addPairContribution(const BaseBondGenerator& bnds,
     const double& o0 = mstructure->siteOccupancy(bnds.site0());
     const double& o1 = mstructure->siteOccupancy(bnds.site1());
     mvalue[bnds.site0()] += summationscale * pm0 * valencehalf * o1;
-    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0;
+    // site1 has this many bonds to site0 per each bond found here
+    const double m01 = double(bnds.multiplicity()) /
+        mstructure->siteMultiplicity(bnds.site1());
+    mvalue[bnds.site1()] += summationscale * pm1 * valencehalf * o0 * m01;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From f143756e44599dd65b9126e2d1a5e62b69387761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:10 +0000
Subject: [PATCH 16/36] fix: parallel merge of overlaps must discard cached
 neighbor lists

---
 src/diffpy/srreal/OverlapCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.cpp b/src/diffpy/srreal/OverlapCalculator.cpp
index 008addc..a84f26f 100644
--- a/src/diffpy/srreal/OverlapCalculator.cpp
+++ b/src/diffpy/srreal/OverlapCalculator.cpp
@@ -453,6 +453,9 @@ void OverlapCalculator::executeParallelMerge(const std::string& pdata)
     QuantityType pvalue;
     ia >> pvalue;
     mvalue.insert(mvalue.end(), pvalue.begin(), pvalue.end());
+    // rebuild the neighbor lists when needed
+    mneighborids.clear();
+    mneighborids_cached = false;
 }
 
 // Private Methods -----------------------------------------------------------
-- 
2.43.0


From 3ee26938bd19862971d486e24353ed6da0255e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:05 +0000
Subject: [PATCH 17/36] fix: do not keep partially loaded data tables after a
 failed load

---
 src/diffpy/srreal/BVParametersTable.cpp    |  8 ++--
 src/diffpy/srreal/scatteringfactordata.cpp | 44 ++++++++++++----------
 2 files changed, 30 insertions(+), 22 deletions(-)

diff --git a/src/diffpy/srreal/BVParametersTable.cpp b/src/diffpy/srreal/BVParametersTable.cpp
index 896cd46..fa1d9d3 100644
--- a/src/diffpy/srreal/BVParametersTable.cpp
+++ b/src/diffpy/srreal/BVParametersTable.cpp
@@ -167,7 +167,8 @@ BVParametersTable::getStandardSetOfBVParam() const
     static unique_ptr<SetOfBVParam> the_set;
     if (!the_set)
     {
-        the_set.reset(new SetOfBVParam);
+        // publish the table only after it was completely loaded
+        unique_ptr<SetOfBVParam> newset(new SetOfBVParam);
         string bvparmfile = datapath("bvparm2011sel.cif");
         ifstream fp(bvparmfile.c_str());
         ensureFileOK(bvparmfile, fp);
@@ -186,9 +187,10 @@ BVParametersTable::getStandardSetOfBVParam() const
             if (lnrd.isignored())  continue;
             BVParam bp;
             bp.setFromCifLine(lnrd.line);
-            assert(!the_set->count(bp));
-            the_set->insert(bp);
+            assert(!newset->count(bp));
+            newset->insert(bp);
         }
+        the_set.swap(newset);
     }
     return *the_set;
 }
diff --git a/src/diffpy/srreal/scatteringfactordata.cpp b/src/diffpy/srreal/scatteringfactordata.cpp
index 6439269..46cb42a 100644
--- a/src/diffpy/srreal/scatteringfactordata.cpp
+++ b/src/diffpy/srreal/scatteringfactordata.cpp
@@ -133,7 +133,8 @@ const SetOfWKFormulas& getWKFormulasSet()
     using diffpy::validators::ensureFileOK;
     static unique_ptr<SetOfWKFormulas> the_set;
     if (the_set)  return *the_set;
-    the_set.reset(new SetOfWKFormulas);
+    // publish the table only after it was completely loaded
+    unique_ptr<SetOfWKFormulas> newset(new SetOfWKFormulas);
     string wkfile = datapath("f0_WaasKirf.dat");
     ifstream fp(wkfile.c_str());
     ensureFileOK(wkfile, fp);
@@ -172,17 +173,18 @@ const SetOfWKFormulas& getWKFormulasSet()
                 throw line.format_error(wkfile,
                         "Line should contain 11 floating point values.");
             }
-            if (the_set->count(wk))
+            if (newset->count(wk))
             {
                 string emsg = "Duplicate atom symbol \"";
                 emsg += wk.symbol + "\".";
                 throw line.format_error(wkfile, emsg);
             }
-            the_set->insert(wk);
+            newset->insert(wk);
             wk.symbol.clear();
         }
     }
-    return getWKFormulasSet();
+    the_set.swap(newset);
+    return *the_set;
 }
 
 
@@ -227,7 +229,8 @@ ElectronNumberStorage& getElectronNumberTable()
     typedef ElectronNumberStorage::value_type ENPair;
     if (!entable)
     {
-        entable.reset(new ElectronNumberStorage);
+        // publish the table only after it was completely loaded
+        unique_ptr<ElectronNumberStorage> newtable(new ElectronNumberStorage);
         string ionfile = datapath("ionlist.dat");
         ifstream fp0(ionfile.c_str());
         ensureFileOK(ionfile, fp0);
@@ -244,22 +247,23 @@ ElectronNumberStorage& getElectronNumberTable()
                 throw line.format_error(ionfile,
                         "Expected at least 2 columns for (symbol, Z).");
             }
-            entable->insert(ENPair(element, z));
+            newtable->insert(ENPair(element, z));
             for (int v; fpline >> v;)
             {
                 ostringstream smbl;
                 smbl << element << abs(v) << ((v > 0) ? '+' : '-');
-                entable->insert(ENPair(smbl.str(), z - v));
+                newtable->insert(ENPair(smbl.str(), z - v));
             }
         }
         const size_t mintablesize = 447;
-        if (entable->size() < mintablesize)
+        if (newtable->size() < mintablesize)
         {
             ostringstream emsg;
             emsg << "Incomplete file.  Expected " << mintablesize <<
-                " items loaded " << entable->size() << ".";
+                " items loaded " << newtable->size() << ".";
             throw line.format_error(ionfile, emsg.str());
         }
+        entable.swap(newtable);
     }
     return *entable;
 }
@@ -275,7 +279,8 @@ const NeutronBCStorage& getNeutronBCTable()
     typedef NeutronBCStorage::value_type BCPair;
     static unique_ptr<NeutronBCStorage> bctable;
     if (bctable)  return *bctable;
-    bctable.reset(new NeutronBCStorage);
+    // publish the table only after it was completely loaded
+    unique_ptr<NeutronBCStorage> newtable(new NeutronBCStorage);
     string nsffile = datapath("nsftable.dat");
     ifstream fp(nsffile.c_str());
     ensureFileOK(nsffile, fp);
@@ -310,13 +315,13 @@ const NeutronBCStorage& getNeutronBCTable()
         {
             throw line.format_error(nsffile, "Invalid b_c value.");
         }
-        if (bctable->count(smbl))
+        if (newtable->count(smbl))
         {
             string emsg = "Duplicate atom symbol \"";
             emsg += smbl + "\".";
             throw line.format_error(nsffile, emsg);
         }
-        bctable->insert(BCPair(smbl, bc));
+        newtable->insert(BCPair(smbl, bc));
         // elements are not explicitly included if there is just one isotope
         // or if all isotopes are unstable
         size_t p2 = smbl.find_first_of('-');
@@ -326,24 +331,25 @@ const NeutronBCStorage& getNeutronBCTable()
             // there is just one isotope
             const string& chlf = line.words[1];
             bool addel = (chlf == "100") ||
-                (!bctable->count(el) && *chlf.rbegin() == 'Y');
+                (!newtable->count(el) && *chlf.rbegin() == 'Y');
             if (addel)
             {
-                if (bctable->count(el))
+                if (newtable->count(el))
                 {
                     string emsg = "Duplicate element entry for \"";
                     emsg += el + "\".";
                     throw line.format_error(nsffile, emsg);;
                 }
-                bctable->insert(BCPair(el, bc));
+                newtable->insert(BCPair(el, bc));
             }
         }
     }
     // define aliases for neutron, deuterium and tritium
-    bctable->insert(BCPair("n", bctable->at("1-n")));
-    bctable->insert(BCPair("D", bctable->at("2-H")));
-    bctable->insert(BCPair("T", bctable->at("3-H")));
-    return getNeutronBCTable();
+    newtable->insert(BCPair("n", newtable->at("1-n")));
+    newtable->insert(BCPair("D", newtable->at("2-H")));
+    newtable->insert(BCPair("T", newtable->at("3-H")));
+    bctable.swap(newtable);
+    return *bctable;
 }
 
 }   // namespace
-- 
2.43.0


From 94c17984995add5b3c2bb73b1e340e13a25f8cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:14 +0000
Subject: [PATCH 18/36] fix: bond valence parameters must not depend on the
 order of atoms with equal valence

---
 src/diffpy/srreal/BVParam.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BVParam.cpp b/src/diffpy/srreal/BVParam.cpp
index 7460170..a9f460f 100644
--- a/src/diffpy/srreal/BVParam.cpp
+++ b/src/diffpy/srreal/BVParam.cpp
@@ -46,7 +46,9 @@ BVParam::BVParam(const string& atom0, int valence0,
     mvalence0 = valence0;
     matom1 = atom1;
     mvalence1 = valence1;
-    if (mvalence0 < mvalence1)
+    // use unique order also for atoms of equal valence
+    if (mvalence0 < mvalence1 ||
+            (mvalence0 == mvalence1 && matom0 > matom1))
     {
         swap(matom0, matom1);
         swap(mvalence0, mvalence1);
-- 
2.43.0


From d465e0e744a6eb4ac29580083dd32cba3f7e36e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:41 +0000
Subject: [PATCH 19/36] fix: cone filter must accept bonds parallel with the
 cone axis despite round-off

---
 src/diffpy/srreal/BondCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BondCalculator.cpp b/src/diffpy/srreal/BondCalculator.cpp
index 3305f81..3d87783 100644
--- a/src/diffpy/srreal/BondCalculator.cpp
+++ b/src/diffpy/srreal/BondCalculator.cpp
@@ -292,7 +292,9 @@ bool BondCalculator::checkConeFilters(const R3::Vector& ru01) const
     for (;  coneax != mfilter_directions.end(); ++coneax, ++deg)
     {
         if (180.0 <= *deg)    return true;
-        double angledegrees = 180.0 / M_PI * acos(R3::dot(ru01, *coneax));
+        // avoid NaN angle when cosine gets out of range due to round-off
+        double cosangle = max(-1.0, min(1.0, R3::dot(ru01, *coneax)));
+        double angledegrees = 180.0 / M_PI * acos(cosangle);
         if (angledegrees <= *deg)    return true;
     }
     return false;
-- 
2.43.0


From 42012c0a327793c35279f81d14a028c9048c02ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:02 +0000
Subject: [PATCH 20/36] fix: changed distance limits must invalidate optimized
 Debye sums

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index d77198e..3ae846a 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -193,10 +193,13 @@ void DebyePDFCalculator::setRmax(double rmax)
 
 void DebyePDFCalculator::setRstep(double rstep)
 {
-    // NOTE: do not update ticker here, rstep is only used in the FFT
-    // and not in the Debye summation.
     ensureEpsilonPositive("Rstep", rstep);
-    if (mrstep != rstep)  mrlimits_are_cached = false;
+    if (mrstep != rstep)
+    {
+        // distance limits of the summed pairs are rounded to multiple of rstep
+        mticker.click();
+        mrlimits_are_cached = false;
+    }
     mrstep = rstep;
 }
 
@@ -383,12 +386,19 @@ void DebyePDFCalculator::cacheRlimitsData() const
     const double& rmin = this->getRmin();
     const double& rmax = this->getRmax();
     const double& dr = this->getRstep();
-    mrcalclosteps = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
+    const int nlo = max(0, pdfutils_rminSteps(rmin - ext_total, dr));
     const int nhi = pdfutils_rmaxSteps(rmax + ext_total, dr);
     if (nhi <= (mrcalchisteps - minreductionsteps) || nhi > mrcalchisteps)
     {
+        // the last value was summed over different range of pair distances
+        mticker.click();
         mrcalchisteps = nhi;
     }
+    if (nlo != mrcalclosteps)
+    {
+        mticker.click();
+        mrcalclosteps = nlo;
+    }
     mrlimits_are_cached = true;
 }
 
-- 
2.43.0


From c01a7f5ebd59c469c2dcca7fc9c12702ed47230d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:17 +0000
Subject: [PATCH 21/36] fix: allow fast PDF updates when the r-range is empty

---
 src/diffpy/srreal/PDFCalculator.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 47c7189..07ef654 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -546,8 +546,6 @@ void PDFCalculator::stashPartialValue()
 
 void PDFCalculator::restorePartialValue()
 {
-    assert(!mstashedvalue.value.empty());
-    assert(!mvalue.empty());
     QuantityType::const_iterator si = mstashedvalue.value.begin();
     QuantityType::const_iterator slast = mstashedvalue.value.end();
     QuantityType::iterator ti = mvalue.begin();
-- 
2.43.0


From a5edc23d23d86db7952209f01a3cb3db7b7f5c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:36 +0000
Subject: [PATCH 22/36] fix: cropped Gaussian profile must vanish for zero or
 negative width

---
 src/diffpy/srreal/CroppedGaussianProfile.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/diffpy/srreal/CroppedGaussianProfile.cpp b/src/diffpy/srreal/CroppedGaussianProfile.cpp
index aabdba0..41dcf90 100644
--- a/src/diffpy/srreal/CroppedGaussianProfile.cpp
+++ b/src/diffpy/srreal/CroppedGaussianProfile.cpp
@@ -63,6 +63,7 @@ const string& CroppedGaussianProfile::type() const
 
 double CroppedGaussianProfile::operator()(double x, double fwhm) const
 {
+    if (fwhm <= 0)  return 0.0;
     double xrel = x / fwhm;
     double rv = (fabs(xrel) >= mhalfboundrel) ? 0.0 :
         2 * sqrt(M_LN2 / M_PI) / fwhm *
-- 
2.43.0


From d575c7507005809a40c676aadf3707d5df5e583e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:21 +0000
Subject: [PATCH 23/36] fix: out-of-range access in Debye PDF interpolation at
 the last grid interval

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 3ae846a..689ee8f 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -304,6 +304,9 @@ QuantityType DebyePDFCalculator::getPDFAtQmin(double qmin) const
     if (nfromdr > int(fpad.size()))  fpad.resize(nfromdr, 0.0);
     QuantityType gpad = fftftog(fpad, this->getQstep());
     const double drpad = M_PI / (gpad.size() * this->getQstep());
+    // sine transform is zero at the end point, which is necessary for
+    // interpolation in the last interval
+    gpad.push_back(0.0);
     QuantityType rgrid = this->getRgrid();
     QuantityType pdf0(rgrid.size());
     QuantityType::const_iterator ri = rgrid.begin();
-- 
2.43.0


From dceddb0058ecdd4766e46d252f46d569e5673d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:37 +0000
Subject: [PATCH 24/36] fix: Debye sum must not access Q-points beyond the last
 evaluation

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index eb8a420..815102b 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -79,7 +79,8 @@ QuantityType BaseDebyeSum::getF() const
 {
     QuantityType rv = this->value();
     const double& totocc = mstructure_cache.totaloccupancy;
-    const int npts = pdfutils_qmaxSteps(this);
+    // Q-range may have been extended since the last evaluation
+    const int npts = min(pdfutils_qmaxSteps(this), int(rv.size()));
     for (int kq = pdfutils_qminSteps(this); kq < npts; ++kq)
     {
         double sfavg = this->sfAverageAtkQ(kq);
-- 
2.43.0


From 10974f0103977bfd530378e42cacc3a6f17b5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:30 +0000
Subject: [PATCH 25/36] fix: PDF results must not be cut beyond the calculated
 range

---
 src/diffpy/srreal/PDFCalculator.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PDFCalculator.cpp b/src/diffpy/srreal/PDFCalculator.cpp
index 07ef654..4012fb7 100644
--- a/src/diffpy/srreal/PDFCalculator.cpp
+++ b/src/diffpy/srreal/PDFCalculator.cpp
@@ -656,7 +656,9 @@ void PDFCalculator::cutRipplePoints(QuantityType& y) const
             this->extendedRmaxSteps() - this->extendedRminSteps());
     int ncutlo = pdfutils_rminSteps(this) - this->extendedRminSteps();
     int ncuthi = this->extendedRmaxSteps() - pdfutils_rmaxSteps(this);
-    assert(ncutlo + ncuthi <= int(y.size()));
+    // r-range may have been changed since the last evaluation
+    ncuthi = min(max(0, ncuthi), int(y.size()));
+    ncutlo = min(max(0, ncutlo), int(y.size()) - ncuthi);
     y.erase(y.end() - ncuthi, y.end());
     y.erase(y.begin(), y.begin() + ncutlo);
 }
-- 
2.43.0


From 13e1cce18b150606bcf54416a306e8348c7cb9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:29 +0000
Subject: [PATCH 26/36] fix: keep lattice unchanged when new base vectors are
 refused

---
 src/diffpy/srreal/Lattice.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srreal/Lattice.cpp b/src/diffpy/srreal/Lattice.cpp
index 6fd171d..7551a67 100644
--- a/src/diffpy/srreal/Lattice.cpp
+++ b/src/diffpy/srreal/Lattice.cpp
@@ -106,10 +106,11 @@ void Lattice::setLatBase(const R3::Vector& va0,
         const R3::Vector& vc0)
 {
     using diffpy::mathutils::acosd;
-    R3::row(mbase, 0) = va0;
-    R3::row(mbase, 1) = vb0;
-    R3::row(mbase, 2) = vc0;
-    double detbase = R3::determinant(mbase);
+    R3::Matrix base0;
+    R3::row(base0, 0) = va0;
+    R3::row(base0, 1) = vb0;
+    R3::row(base0, 2) = vc0;
+    double detbase = R3::determinant(base0);
     if (fabs(detbase) < 1.0e-8)
     {
         throw invalid_argument("base vectors are degenerate");
@@ -118,9 +119,10 @@ void Lattice::setLatBase(const R3::Vector& va0,
     {
         throw invalid_argument("base is not right-handed");
     }
-    mva = va0;
-    mvb = vb0;
-    mvc = vc0;
+    mbase = base0;
+    mva = R3::row(mbase, 0);
+    mvb = R3::row(mbase, 1);
+    mvc = R3::row(mbase, 2);
     ma = R3::norm(mva);
     mb = R3::norm(mvb);
     mc = R3::norm(mvc);
-- 
2.43.0


From 7dc0038d0b9c41723e63629e67aa51408396fe7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:44 +0000
Subject: [PATCH 27/36] fix: keep Debye PDF configuration when zero Qmax is
 refused

---
 src/diffpy/srreal/DebyePDFCalculator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/diffpy/srreal/DebyePDFCalculator.cpp b/src/diffpy/srreal/DebyePDFCalculator.cpp
index 689ee8f..a46ca57 100644
--- a/src/diffpy/srreal/DebyePDFCalculator.cpp
+++ b/src/diffpy/srreal/DebyePDFCalculator.cpp
@@ -140,6 +140,8 @@ const double& DebyePDFCalculator::getQmin() const
 
 void DebyePDFCalculator::setQmax(double qmax)
 {
+    // there are at least 4 Q-steps, see updateQstep
+    ensureEpsilonPositive("Qmax", qmax / 4);
     this->BaseDebyeSum::setQmax(qmax);
     this->updateQstep();
 }
-- 
2.43.0


From 2e345614bf0f8cbfaf8c35fe6c137f2c3bc4a8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:45 +0000
Subject: [PATCH 28/36] fix: determinant of singular matrix must be zero

---
 src/diffpy/srreal/R3linalg.cpp | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/src/diffpy/srreal/R3linalg.cpp b/src/diffpy/srreal/R3linalg.cpp
index 19a70cc..f7922e9 100644
--- a/src/diffpy/srreal/R3linalg.cpp
+++ b/src/diffpy/srreal/R3linalg.cpp
@@ -41,20 +41,11 @@ const Matrix& zeromatrix()
 
 double determinant(const Matrix& A)
 {
-    gsl_matrix* gA = gsl_matrix_alloc(Ndim, Ndim);
-    for (int i = 0; i != Ndim; ++i)
-    {
-        for (int j = 0; j != Ndim; ++j)
-        {
-            gsl_matrix_set(gA, i, j, A(i,j));
-        }
-    }
-    gsl_permutation* gP = gsl_permutation_alloc(Ndim);
-    int signum;
-    gsl_linalg_LU_decomp(gA, gP, &signum);
-    double det = gsl_linalg_LU_det(gA, signum);
-    gsl_permutation_free(gP);
-    gsl_matrix_free(gA);
+    // avoid LU decomposition, which gives NaN for some singular matrices
+    double det =
+        A(0,0) * (A(1,1) * A(2,2) - A(1,2) * A(2,1)) -
+        A(0,1) * (A(1,0) * A(2,2) - A(1,2) * A(2,0)) +
+        A(0,2) * (A(1,0) * A(2,1) - A(1,1) * A(2,0));
     return det;
 }
 
-- 
2.43.0


From 53ee618af082a872ef46ecd4393fdedd146504cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:42 +0000
Subject: [PATCH 29/36] fix: do not keep a scattering factor table whose
 registration was refused

---
 src/diffpy/srreal/ScatteringFactorTable.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/diffpy/srreal/ScatteringFactorTable.cpp b/src/diffpy/srreal/ScatteringFactorTable.cpp
index b5c4872..647254a 100644
--- a/src/diffpy/srreal/ScatteringFactorTable.cpp
+++ b/src/diffpy/srreal/ScatteringFactorTable.cpp
@@ -39,8 +39,15 @@ bool ScatteringFactorTable::registerThisType() const
 {
     typedef diffpy::HasClassRegistry<ScatteringFactorTable> HCRBase;
     bool rv = this->HCRBase::registerThisType();
-    rv = rv && ScatteringFactorTable::aliasType(
-            this->type(), this->radiationType());
+    try {
+        rv = rv && ScatteringFactorTable::aliasType(
+                this->type(), this->radiationType());
+    }
+    catch (logic_error&) {
+        // do not keep a type that could not be registered
+        ScatteringFactorTable::deregisterType(this->type());
+        throw;
+    }
     return rv;
 }
 
-- 
2.43.0


From 5a4ad0b38b56a318f4da19fecc0d01bedf8e03e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:13 +0000
Subject: [PATCH 30/36] fix: rebuild neighbors of a restored overlap calculator

---
 src/diffpy/srreal/OverlapCalculator.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/diffpy/srreal/OverlapCalculator.hpp b/src/diffpy/srreal/OverlapCalculator.hpp
index 0a6b576..90d5505 100644
--- a/src/diffpy/srreal/OverlapCalculator.hpp
+++ b/src/diffpy/srreal/OverlapCalculator.hpp
@@ -127,6 +127,12 @@ class OverlapCalculator : public PairQuantity
             ar & mneighborids;
             ar & mstructure_cache.siteradii;
             ar & mstructure_cache.maxseparation;
+            // neighbors must be always rebuilt from the loaded overlaps
+            if (Archive::is_loading::value)
+            {
+                mneighborids.clear();
+                mneighborids_cached = false;
+            }
         }
 
 };
-- 
2.43.0


From b3c795228bf69ee61d9414f839423a990a92a70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:46 +0000
Subject: [PATCH 31/36] fix: calculators with the CHECK evaluator can be
 serialized

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 ++
 src/diffpy/srreal/PQEvaluator.hpp | 1 +
 2 files changed, 3 insertions(+)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index b6876ac..e6a182c 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -481,5 +481,7 @@ DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorBasic)
 DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorOptimized)
 BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorOptimized)
+DIFFPY_INSTANTIATE_SERIALIZATION(diffpy::srreal::PQEvaluatorCheck)
+BOOST_CLASS_EXPORT_IMPLEMENT(diffpy::srreal::PQEvaluatorCheck)
 
 // End of file
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 8fa5f22..0393e5c 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -160,5 +160,6 @@ PQEvaluatorPtr createPQEvaluator(
 BOOST_SERIALIZATION_ASSUME_ABSTRACT(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorBasic)
 BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorOptimized)
+BOOST_CLASS_EXPORT_KEY(diffpy::srreal::PQEvaluatorCheck)
 
 #endif  // PQEVALUATOR_HPP_INCLUDED
-- 
2.43.0


From 2b0d63cf6e2d5af7e37ad052d3bca113efbc5d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:58 +0000
Subject: [PATCH 32/36] fix: CHECK evaluator must compare complete bonds

---
 src/diffpy/srreal/PQEvaluator.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index e6a182c..db6fde5 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -354,11 +354,23 @@ class pqresults
 };
 
 
+/// copy of BondCalculator with all added and removed bonds in place
+class finishedbonds : public BondCalculator
+{
+    public:
+
+        finishedbonds(const BondCalculator& bc) : BondCalculator(bc)
+        {
+            this->finishValue();
+        }
+};
+
+
 class pqresults_bondcalculator : public pqresults
 {
     public:
 
-        pqresults_bondcalculator(const BondCalculator& bc) :
+        pqresults_bondcalculator(const finishedbonds& bc) :
             pqresults(bc),
             msaved_directions(bc.directions()),
             msaved_sites0(bc.sites0()),
@@ -370,8 +382,8 @@ class pqresults_bondcalculator : public pqresults
 
         virtual bool compare(const PairQuantity& pq) const
         {
-            if (!(this->pqresults::compare(pq)))  return false;
-            const BondCalculator& bc = dynamic_cast<const BondCalculator&>(pq);
+            const finishedbonds bc(dynamic_cast<const BondCalculator&>(pq));
+            if (!(this->pqresults::compare(bc)))  return false;
             if (msaved_sites0 != bc.sites0())  return false;
             if (msaved_sites1 != bc.sites1())  return false;
             if (msaved_types0 != bc.types0())  return false;
@@ -405,7 +417,7 @@ class pqresults_bondcalculator : public pqresults
 pqresults* create_pqresults(const PairQuantity& pq)
 {
     const BondCalculator* pbc = dynamic_cast<const BondCalculator*>(&pq);
-    if (pbc)  return new pqresults_bondcalculator(*pbc);
+    if (pbc)  return new pqresults_bondcalculator(finishedbonds(*pbc));
     return new pqresults(pq);
 }
 
-- 
2.43.0


From 5087455abcc7875ff574b95ab9495998162c646b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:11 +0000
Subject: [PATCH 33/36] fix: tolerance of CHECK evaluator must follow the
 magnitude of negative values

---
 src/diffpy/srreal/PQEvaluator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index db6fde5..4c2b4af 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -341,7 +341,7 @@ class pqresults
             QuantityType::const_iterator smx = max_element(
                     msaved_value.begin(), msaved_value.end(), cmpfabs);
             const double eps = R3::SQRT_DOUBLE_EPS *
-                (msaved_value.empty() ? 1.0 : max(*smx, 1.0));
+                (msaved_value.empty() ? 1.0 : max(fabs(*smx), 1.0));
             mathutils::EpsilonEqual allclose(eps);
             const QuantityType& cur_value = pq.value();
             return allclose(msaved_value, cur_value);
-- 
2.43.0


From 56d3f6adf5bbc5ea37ba1c2f270e1782e755deae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:34 +0000
Subject: [PATCH 34/36] fix: F(0) of Debye sums was NaN for electron scattering
 factors

---
 src/diffpy/srreal/BaseDebyeSum.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/BaseDebyeSum.cpp b/src/diffpy/srreal/BaseDebyeSum.cpp
index 815102b..78d5fae 100644
--- a/src/diffpy/srreal/BaseDebyeSum.cpp
+++ b/src/diffpy/srreal/BaseDebyeSum.cpp
@@ -178,7 +178,9 @@ void BaseDebyeSum::addPairContribution(const BaseBondGenerator& bnds,
     const int nqpts = pdfutils_qmaxSteps(this);
     const int smscale = summationscale * bnds.multiplicity();
     const double& sineprec = this->getDebyePrecision();
-    for (int kq = pdfutils_qminSteps(this); kq < nqpts; ++kq)
+    // sine is zero at Q=0, where electron scattering factors diverge
+    const int kqlo = max(1, pdfutils_qminSteps(this));
+    for (int kq = kqlo; kq < nqpts; ++kq)
     {
         const double q = kq * this->getQstep();
         const double dwscale = exp(-0.5 * pow(dwsigma * q, 2));
-- 
2.43.0


From dd1ba35825264817e7e38f3389ed17c76486accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 35/36] fix: maximum peak width ignored off-diagonal
 displacement parameters

The mean square displacement along a bond of an anisotropic site may exceed
every diagonal element of its tensor.  The reported maximum was too small and
the r-range was not extended enough for the tails of the peaks next to it.
---
 src/diffpy/srreal/DebyeWallerPeakWidth.cpp | 32 +++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/diffpy/srreal/DebyeWallerPeakWidth.cpp b/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
index 10c6bfe..ff7deaf 100644
--- a/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
+++ b/src/diffpy/srreal/DebyeWallerPeakWidth.cpp
@@ -26,6 +26,36 @@ namespace srreal {
 
 using namespace std;
 
+// Local Helpers -------------------------------------------------------------
+
+namespace {
+
+/// upper bound for mean square displacement of any site in any direction
+double maxSiteMSD(StructureAdapterPtr stru)
+{
+    double rv = maxUii(stru);
+    const int cntsites = stru ? stru->countSites() : 0;
+    for (int i = 0; i < cntsites; ++i)
+    {
+        if (!stru->siteAnisotropy(i))  continue;
+        // off-diagonal elements can make it larger than any diagonal one,
+        // but never larger than the maximum row sum.
+        const R3::Matrix& U = stru->siteCartesianUij(i);
+        for (int k = 0; k < R3::Ndim; ++k)
+        {
+            double rowsum = U(k,k);
+            for (int l = 0; l < R3::Ndim; ++l)
+            {
+                if (l != k)  rowsum += fabs(U(k,l));
+            }
+            rv = max(rv, rowsum);
+        }
+    }
+    return rv;
+}
+
+}   // namespace
+
 // Constructors --------------------------------------------------------------
 
 PeakWidthModelPtr DebyeWallerPeakWidth::create() const
@@ -63,7 +93,7 @@ double DebyeWallerPeakWidth::maxWidth(StructureAdapterPtr stru,
                 double rmin, double rmax) const
 {
     using diffpy::mathutils::GAUSS_SIGMA_TO_FWHM;
-    double maxmsd = 2 * maxUii(stru);
+    double maxmsd = 2 * maxSiteMSD(stru);
     double rv = (maxmsd <= 0.0) ? 0.0 : GAUSS_SIGMA_TO_FWHM * sqrt(maxmsd);
     return rv;
 }
-- 
2.43.0


From d0810e95d6faade7e14512887a797e8dc351c045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:00 +0000
Subject: [PATCH 36/36] fix: restored calculators reused the complete value in
 parallel runs

The ticker of the last value was compared with the configuration ticker, but
tickers restored in a younger process may be below the default ticker.
---
 src/diffpy/srreal/PQEvaluator.cpp | 16 ++++++++++------
 src/diffpy/srreal/PQEvaluator.hpp |  3 ++-
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/diffpy/srreal/PQEvaluator.cpp b/src/diffpy/srreal/PQEvaluator.cpp
index 4c2b4af..8599e94 100644
--- a/src/diffpy/srreal/PQEvaluator.cpp
+++ b/src/diffpy/srreal/PQEvaluator.cpp
@@ -149,12 +149,6 @@ void PQEvaluatorBasic::setupParallelRun(int cpuindex, int ncpu)
         const char* emsg = "Number of CPU ncpu must be at least 1.";
         throw invalid_argument(emsg);
     }
-    // the last value was obtained for a different share of contributions
-    // and cannot be used for fast updates.
-    if (mcpuindex != cpuindex || mncpu != ncpu)
-    {
-        mvalue_ticker = eventticker::EventTicker();
-    }
     mcpuindex = cpuindex;
     mncpu = ncpu;
 }
@@ -183,6 +177,16 @@ void PQEvaluatorOptimized::validate(PairQuantity& pq) const
 }
 
 
+void PQEvaluatorOptimized::setupParallelRun(int cpuindex, int ncpu)
+{
+    const bool samerun = (mcpuindex == cpuindex && mncpu == ncpu);
+    this->PQEvaluatorBasic::setupParallelRun(cpuindex, ncpu);
+    // the last value was obtained for a different share of contributions
+    // and cannot be used for fast updates.
+    if (!samerun)  mlast_structure.reset();
+}
+
+
 void PQEvaluatorOptimized::updateValue(
         PairQuantity& pq, StructureAdapterPtr stru)
 {
diff --git a/src/diffpy/srreal/PQEvaluator.hpp b/src/diffpy/srreal/PQEvaluator.hpp
index 0393e5c..ea643cd 100644
--- a/src/diffpy/srreal/PQEvaluator.hpp
+++ b/src/diffpy/srreal/PQEvaluator.hpp
@@ -68,7 +68,7 @@ class PQEvaluatorBasic
         virtual void validate(PairQuantity&) const;
         void setFlag(PQEvaluatorFlag flag, bool value);
         bool getFlag(PQEvaluatorFlag flag) const;
-        void setupParallelRun(int cpuindex, int ncpu);
+        virtual void setupParallelRun(int cpuindex, int ncpu);
         bool isParallel() const;
 
     protected:
@@ -105,6 +105,7 @@ class PQEvaluatorOptimized : public PQEvaluatorBasic
         // methods
         virtual PQEvaluatorType typeint() const;
         virtual void validate(PairQuantity&) const;
+        virtual void setupParallelRun(int cpuindex, int ncpu);
         virtual void updateValue(PairQuantity&, StructureAdapterPtr);
 
     private:
-- 
2.43.0

