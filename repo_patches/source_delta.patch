From 81c8b023f98c93eb57aae6c12c43b7b00d7c90e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 01/30] fix: use velocity component as last digit of hybrid
 Taylor-Hood multi-indices

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 80efc8f..2cf6867 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -262,7 +262,7 @@ protected:
       for (std::size_t i = 0; i<subTreeSize; ++i)
       {
         multiIndexPushFront(multiIndices[i], 0);
-        multiIndices[i].push_back(i);
+        multiIndices[i].push_back(child);
       }
       multiIndices += subTreeSize;
     }
-- 
2.43.0


From 1f2135f583f4284d5fe3c555ed5f4673e3c6c417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 02/30] fix: update stored grid view in
 TaylorHoodPreBasis::update()

---
 dune/functions/functionspacebases/taylorhoodbasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/taylorhoodbasis.hh b/dune/functions/functionspacebases/taylorhoodbasis.hh
index 2cf6867..54891cf 100644
--- a/dune/functions/functionspacebases/taylorhoodbasis.hh
+++ b/dune/functions/functionspacebases/taylorhoodbasis.hh
@@ -108,6 +108,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    gridView_ = gv;
     pq1PreBasis_.update(gv);
     pq2PreBasis_.update(gv);
   }
-- 
2.43.0


From 3ddcb45d14b336a1c8c885175968928582c51a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 03/30] fix: update element mapper in MorleyPreBasis::update()

---
 dune/functions/functionspacebases/morleybasis.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/functions/functionspacebases/morleybasis.hh b/dune/functions/functionspacebases/morleybasis.hh
index cdb0bea..ea1628c 100644
--- a/dune/functions/functionspacebases/morleybasis.hh
+++ b/dune/functions/functionspacebases/morleybasis.hh
@@ -641,6 +641,7 @@ namespace Dune::Functions
     void update(GridView const &gv)
     {
       Base::update(gv);
+      mapper_.update(this->gridView());
       data_ = Impl::computeEdgeOrientations(mapper_);
     }
 
-- 
2.43.0


From f1b65565a4489cd021a070acbf2196176e352a34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 04/30] fix: use correct number of element DOFs for
 second-order BDM basis

---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index e367797..1e7c0a4 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -173,7 +173,7 @@ class BrezziDouglasMariniPreBasis :
   {
     return [](GeometryType gt, size_t gridDim) -> size_t {
       if (gt.dim() == gridDim)
-        return dim*(k-1)*3;
+        return gt.isSimplex() ? k*k-1 : k*(k-1);
       if (gt.dim() == gridDim-1)
         return dim+(k-1);
       return 0;
-- 
2.43.0


From 169fcce429b808d73d0635f134455f16d3455e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:34 +0000
Subject: [PATCH 05/30] fix: make copy assignment of DefaultLocalView a deep
 copy

---
 .../functionspacebases/defaultlocalview.hh      | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dune/functions/functionspacebases/defaultlocalview.hh b/dune/functions/functionspacebases/defaultlocalview.hh
index f3e5d64..52c49b5 100644
--- a/dune/functions/functionspacebases/defaultlocalview.hh
+++ b/dune/functions/functionspacebases/defaultlocalview.hh
@@ -87,6 +87,23 @@ public:
       bind(other.element());
   }
 
+  /** \brief Deep copy assignment of the local view */
+  DefaultLocalView& operator=(const DefaultLocalView& other)
+    requires std::is_move_assignable_v<Tree>
+  {
+    if (this != &other)
+    {
+      globalBasis_ = other.globalBasis_;
+      tree_ = globalBasis_->preBasis().makeNode();
+      initializeTree(tree_);
+      element_.reset();
+      indices_.clear();
+      if (other.bound())
+        bind(other.element());
+    }
+    return *this;
+  }
+
   /** \brief Bind the view to a grid element
    *
    * Having to bind the view to an element before being able to actually access any of its data members
-- 
2.43.0


From d4d02c2bc4e8d782402254ded4d0c27b92ba2c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:45 +0000
Subject: [PATCH 06/30] fix: keep local basis attached to its own finite
 element on assignment

---
 .../functionspacebases/transformedfiniteelementmixin.hh     | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
index 84a1f18..719e6e7 100644
--- a/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
+++ b/dune/functions/functionspacebases/transformedfiniteelementmixin.hh
@@ -155,6 +155,12 @@ class TransformedFiniteElementMixin
     : TransformedFiniteElementMixin()
     {}
 
+    //! The local basis has to keep pointing to the implementation it belongs to
+    TransformedFiniteElementMixin& operator=(TransformedFiniteElementMixin const& other)
+    {
+      return *this;
+    }
+
     const FEImplementation& asImpl() const
     {
       return *(static_cast<FEImplementation const*>(this));
-- 
2.43.0


From 1a6e59a8ca35022ba40ee31774874fed19c1c586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:33 +0000
Subject: [PATCH 07/30] fix: make FunctionalDescriptor::isPartialDerivative()
 usable

The method called partialDerivativeOrder() with an argument, which no
overload accepts, so that any use of it failed to compile.
---
 dune/functions/functionspacebases/functionaldescriptor.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/functionaldescriptor.hh b/dune/functions/functionspacebases/functionaldescriptor.hh
index 5e67609..d150427 100644
--- a/dune/functions/functionspacebases/functionaldescriptor.hh
+++ b/dune/functions/functionspacebases/functionaldescriptor.hh
@@ -63,7 +63,7 @@ public:
   {
     for(auto i: Dune::range(dim))
     {
-      if (partialDerivativeOrder(i)>0)
+      if (partialDerivativeOrder_[i]>0)
         return true;
     }
     return false;
-- 
2.43.0


From e342cfc15697d0bbb22c2dcc1fef981040b428fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:38 +0000
Subject: [PATCH 08/30] fix: describe derivative DOFs of 1d cubic Hermite
 element as partial derivatives

FunctionalDescriptor({1}) selects the constructor for normal derivatives
in 1d, because the braced initializer converts to unsigned int.
---
 dune/functions/functionspacebases/cubichermitebasis.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 79e5da6..1930ba7 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -405,9 +405,9 @@ namespace Dune::Functions
         if constexpr (dim==1)
         {
           descriptors_[0] = FunctionalDescriptor();
-          descriptors_[1] = FunctionalDescriptor({1});
+          descriptors_[1] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
           descriptors_[2] = FunctionalDescriptor();
-          descriptors_[3] = FunctionalDescriptor({1});
+          descriptors_[3] = FunctionalDescriptor(typename FunctionalDescriptor::Order{1});
         }
         if constexpr (dim==2)
         {
-- 
2.43.0


From 98bdd4ec4e387fbd763342b7340716b2c6232a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 09/30] fix: support copying empty PolymorphicSmallObjects and
 throwing copies

---
 dune/functions/common/polymorphicsmallobject.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/functions/common/polymorphicsmallobject.hh b/dune/functions/common/polymorphicsmallobject.hh
index 512df50..edba45a 100644
--- a/dune/functions/common/polymorphicsmallobject.hh
+++ b/dune/functions/common/polymorphicsmallobject.hh
@@ -155,6 +155,9 @@ private:
         p_->~Base();
       else
         delete p_;
+      // Leave pointer in a clean state in case that no new object
+      // is stored, e.g., because copying it throws an exception.
+      p_ = nullptr;
     }
   }
 
@@ -179,7 +182,9 @@ private:
 
   void copyToWrappedObject(const PolymorphicSmallObject& other)
   {
-    if (other.bufferUsed())
+    if (not other)
+      p_ = nullptr;
+    else if (other.bufferUsed())
       p_ = other.p_->clone(&buffer_);
     else
       p_ = other.p_->clone();
-- 
2.43.0


From d95ce8a625fc75cb4dc52c26b179308e7bed0578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 10/30] fix: let copies of GeometryInAncestor refer to the
 correct coarse element and return it from bind()

---
 dune/functions/common/geometryinancestor.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/geometryinancestor.hh b/dune/functions/common/geometryinancestor.hh
index 2334089..f0ffb84 100644
--- a/dune/functions/common/geometryinancestor.hh
+++ b/dune/functions/common/geometryinancestor.hh
@@ -67,7 +67,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&storedFineElement_)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If other points to external fine element,
@@ -90,7 +90,7 @@ public:
     : storedFineElement_(other.storedFineElement_)
     , storedCoarseElement_(other.storedCoarseElement_)
     , fineElementPtr_(&fineElement)
-    , coarseElementPtr_(&storedFineElement_)
+    , coarseElementPtr_(&storedCoarseElement_)
     , geometryInFathersVector_(other.geometryInFathersVector_)
   {
     // If the other coarse element is not the stored one,
@@ -150,7 +150,7 @@ public:
   const Element& bind(Element&& fineElement, F&& includeFather)
   {
     storedFineElement_ = fineElement;
-    bind(storedFineElement_, includeFather);
+    return bind(storedFineElement_, includeFather);
   }
 
   //! Return the fine element
-- 
2.43.0


From 46c1276508493450b370af5f8aaa2c022d4459a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 11/30] fix: avoid dangling entity set in local functions of
 coarse/fine functions on other grid views

---
 dune/functions/gridfunctions/coarsefunctiononfinegridview.hh | 4 ++--
 dune/functions/gridfunctions/finefunctiononcoarsegridview.hh | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
index 8a64ebb..15adc9b 100644
--- a/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
+++ b/dune/functions/gridfunctions/coarsefunctiononfinegridview.hh
@@ -96,7 +96,7 @@ private:
       : element_(element)
       , localFunction_(localFunction)
       , coarseEntitySet_(coarseEntitySet)
-      , geometryInAncestor_(geometryInAncestor, *element_)
+      , geometryInAncestor_(element_ ? GeometryInAncestor(geometryInAncestor, *element_) : GeometryInAncestor())
     {}
 
     //! Bind to an element from the GridView
@@ -143,7 +143,7 @@ private:
   private:
     std::optional<Element> element_;
     RawLocalFunction localFunction_;
-    const CoarseEntitySet& coarseEntitySet_;
+    CoarseEntitySet coarseEntitySet_;
     GeometryInAncestor geometryInAncestor_;
   };
 
diff --git a/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh b/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
index c7836d4..570c6ea 100644
--- a/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
+++ b/dune/functions/gridfunctions/finefunctiononcoarsegridview.hh
@@ -239,7 +239,7 @@ private:
 
     std::optional<Element> element_;
     mutable RawLocalFunction localFunction_;
-    const FineEntitySet& fineEntitySet_;
+    FineEntitySet fineEntitySet_;
     bool forwardToFineFunction_ = false;
   };
 
-- 
2.43.0


From 609ee1e9add840571c815a6ac482d806b31eec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 12/30] fix: shift entries in OverflowArray::push_front()

---
 dune/functions/common/overflowarray.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/overflowarray.hh b/dune/functions/common/overflowarray.hh
index fc684c0..715de63 100644
--- a/dune/functions/common/overflowarray.hh
+++ b/dune/functions/common/overflowarray.hh
@@ -125,9 +125,12 @@ public:
    */
   void push_front(const value_type& t) {
     assert(size() < capacity());
-    for (size_type i=0; i<size(); i++)
-      (*this)[i+1] = (*this)[i];
-    (*this)[0] = t;
+    // Copy t first, because it may be an entry of this container.
+    value_type tmp = t;
+    ++size_;
+    for (size_type i=size_-1; i>0; --i)
+      (*this)[i] = (*this)[i-1];
+    (*this)[0] = tmp;
   }
 
   //! Returns a iterator pointing to the beginning of the OverflowArray.
-- 
2.43.0


From 8bed05798bda10f589332a0c3afd378dbf1318cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 13/30] fix: respect position of first element in ReservedDeque

---
 dune/functions/common/reserveddeque.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/reserveddeque.hh b/dune/functions/common/reserveddeque.hh
index e7f27fa..8913d60 100644
--- a/dune/functions/common/reserveddeque.hh
+++ b/dune/functions/common/reserveddeque.hh
@@ -78,7 +78,8 @@ namespace Functions {
       first_(0)
     {}
 
-    ReservedDeque(std::initializer_list<T> const &l)
+    ReservedDeque(std::initializer_list<T> const &l) :
+      first_(0)
     {
       assert(l.size() <= n);// Actually, this is not needed any more!
       size_ = l.size();
@@ -107,7 +108,7 @@ namespace Functions {
     void push_back(const T& t)
     {
       CHECKSIZE(size_<n);
-      data_[size_++ % n] = t;
+      data_[(first_ + size_++) % n] = t;
     }
 
     //! Prepends an element to the begin of a deque if size<capacity, O(1) time.
-- 
2.43.0


From d6d44021b12b0c26309260f8e61c9661777eef5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:19 +0000
Subject: [PATCH 14/30] fix: store knot vector in bSpline() pre-basis factory
 by value

---
 dune/functions/functionspacebases/bsplinebasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/bsplinebasis.hh b/dune/functions/functionspacebases/bsplinebasis.hh
index 9fba082..9be69fc 100644
--- a/dune/functions/functionspacebases/bsplinebasis.hh
+++ b/dune/functions/functionspacebases/bsplinebasis.hh
@@ -1290,7 +1290,7 @@ inline auto bSpline(const std::vector<double>& knotVector,
                     unsigned int order,
                     bool makeOpen = true)
 {
-  return [&knotVector, order, makeOpen](const auto& gridView) {
+  return [knotVector, order, makeOpen](const auto& gridView) {
     return BSplinePreBasis<std::decay_t<decltype(gridView)>>(gridView, knotVector, order, makeOpen);
   };
 }
-- 
2.43.0


From c3284a87b6226146dcb90bef65a66f241c9a3fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:07 +0000
Subject: [PATCH 15/30] fix: identify transitively connected indices in
 periodic basis

---
 .../functionspacebases/periodicbasis.hh       | 32 ++++++++++++-------
 1 file changed, 20 insertions(+), 12 deletions(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index a27029e..6db5626 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -7,9 +7,10 @@
 #ifndef DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 #define DUNE_FUNCTIONS_FUNCTIONSPACEBASES_PERIODICBASIS_HH
 
+#include <algorithm>
+#include <numeric>
 #include <utility>
 #include <type_traits>
-#include <limits>
 #include <set>
 #include <vector>
 
@@ -85,20 +86,27 @@ public:
   PeriodicIndexingTransformation(const RawPreBasis& rawPreBasis, const IndexPairSet& indexPairSet)
   {
     static_assert(RawPreBasis::maxMultiIndexSize==1, "PeriodicIndexingTransformation is only implemented for flat multi-indices");
-    std::size_t invalid = {std::numeric_limits<std::size_t>::max()};
-    mappedIdx_.resize(rawPreBasis.size(), invalid);
-    numIndices_ = 0;
-    std::size_t i = 0;
+    // Compute the smallest representative of each class of (transitively) identified indices
+    std::vector<std::size_t> representative(rawPreBasis.size());
+    std::iota(representative.begin(), representative.end(), 0);
+    auto findRepresentative = [&](std::size_t i) {
+      while (representative[i] != i)
+        i = representative[i] = representative[representative[i]];
+      return i;
+    };
     for(const auto& [a, b] : indexPairSet)
     {
-      for(; i<=a; ++i)
-        if (mappedIdx_[i] == invalid)
-          mappedIdx_[i] = numIndices_++;
-      mappedIdx_[b] = mappedIdx_[a];
+      auto [first, second] = std::minmax({findRepresentative(a), findRepresentative(b)});
+      representative[second] = first;
+    }
+    // Enumerate the representatives consecutively
+    mappedIdx_.resize(rawPreBasis.size());
+    numIndices_ = 0;
+    for(std::size_t i = 0; i<rawPreBasis.size(); ++i)
+    {
+      auto j = findRepresentative(i);
+      mappedIdx_[i] = (j==i) ? numIndices_++ : mappedIdx_[j];
     }
-    for(; i<rawPreBasis.size(); ++i)
-      if (mappedIdx_[i] == invalid)
-        mappedIdx_[i] = numIndices_++;
   }
 
   template<class MultiIndex, class PreBasis>
-- 
2.43.0


From e5f7fbff421dc05f0106015c16a3f08d80855b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:08 +0000
Subject: [PATCH 16/30] fix: return container descriptor with merged size from
 periodic basis

---
 dune/functions/functionspacebases/periodicbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/periodicbasis.hh b/dune/functions/functionspacebases/periodicbasis.hh
index 6db5626..9e6bcd7 100644
--- a/dune/functions/functionspacebases/periodicbasis.hh
+++ b/dune/functions/functionspacebases/periodicbasis.hh
@@ -133,7 +133,7 @@ public:
   template<class PreBasis>
   auto containerDescriptor(const PreBasis& preBasis) const
   {
-    return Dune::Functions::containerDescriptor(preBasis);
+    return Dune::Functions::ContainerDescriptors::FlatVector(numIndices_);
   }
 
 private:
-- 
2.43.0


From 995f77138dacd140bac4595e100371b460cd1801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:08 +0000
Subject: [PATCH 17/30] fix: make flat merging of Array and Tuple container
 descriptors compile

---
 .../containerdescriptors.hh                   | 34 ++++++++++---------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/dune/functions/functionspacebases/containerdescriptors.hh b/dune/functions/functionspacebases/containerdescriptors.hh
index 41019e0..1b80a85 100644
--- a/dune/functions/functionspacebases/containerdescriptors.hh
+++ b/dune/functions/functionspacebases/containerdescriptors.hh
@@ -335,11 +335,9 @@ auto flatLexicographicN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto j : Dune::range(n))
-      for (auto i : Dune::range(child.size()))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i%m]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -348,9 +346,12 @@ template<class N, class... GrandChild>
 auto flatLexicographicN (N n, Tuple<GrandChild...> child)
 {
   constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i%m>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i%m>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
 }
 
 //! Concatenate descriptor n-times by flat interleaved merging wrt first digit
@@ -404,11 +405,9 @@ auto flatInterleavedN (N n, Array<GrandChild, m> child)
   }
   else
   {
-    auto result = Array<GrandChild, N::value*m>{};
-    for (auto i : Dune::range(child.size()))
-      for (auto j : Dune::range(n))
-        result.emplace_back(child[i]);
-    return result;
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return Array<GrandChild, N::value*m>{child[i/N::value]...};
+    }, std::make_index_sequence<N::value*m>{});
   }
 }
 
@@ -417,9 +416,12 @@ template<class N, class... GrandChild>
 auto flatInterleavedN (N n, Tuple<GrandChild...> child)
 {
   constexpr std::size_t m = sizeof...(GrandChild);
-  return Dune::unpackIntegerSequence([&](auto... i) {
-    return makeDescriptor(std::get<i/n>(child)...);
-  }, std::make_index_sequence<n*m>{});
+  if constexpr (std::is_integral_v<N>)
+    return Unknown{};
+  else
+    return Dune::unpackIntegerSequence([&](auto... i) {
+      return makeDescriptor(std::get<i/N::value>(child)...);
+    }, std::make_index_sequence<N::value*m>{});
 }
 
 } // end namespace Impl
-- 
2.43.0


From dd903d67c65439720f43e86ac43598dfbe4cad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:08 +0000
Subject: [PATCH 18/30] fix: keep block level of size 1 in makeISTLVector()

---
 dune/functions/backends/istlvectorfactory.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/functions/backends/istlvectorfactory.hh b/dune/functions/backends/istlvectorfactory.hh
index 5df1bb2..021ce7d 100644
--- a/dune/functions/backends/istlvectorfactory.hh
+++ b/dune/functions/backends/istlvectorfactory.hh
@@ -39,8 +39,9 @@ struct ISTLVectorFactory
   template<class V, std::size_t n>
   auto operator() (const Array<V,n>& tree) const
   {
+    using W = decltype((*this)(tree[0]));
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{(*this)(tree[ii])...};
+      return Dune::BlockVector<W>{(*this)(tree[ii])...};
     }, std::make_index_sequence<n>());
   }
 
@@ -58,8 +59,9 @@ struct ISTLVectorFactory
   auto operator() (const UniformArray<V,n>& tree) const
   {
     auto node = (*this)(tree[0]);
+    using W = decltype(node);
     return unpackIntegerSequence([&](auto... ii) {
-      return Dune::BlockVector{((void)(ii),node)...};
+      return Dune::BlockVector<W>{((void)(ii),node)...};
     }, std::make_index_sequence<n>());
   }
 
-- 
2.43.0


From 4f86d2c07cc05c607352cd3bc83d4b6462f2492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:23 +0000
Subject: [PATCH 19/30] fix: forward assignment of ISTL vector backends of
 equal type to wrapped vector

---
 dune/functions/backends/istlvectorbackend.hh | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dune/functions/backends/istlvectorbackend.hh b/dune/functions/backends/istlvectorbackend.hh
index d6d428a..d7a2e58 100644
--- a/dune/functions/backends/istlvectorbackend.hh
+++ b/dune/functions/backends/istlvectorbackend.hh
@@ -296,6 +296,18 @@ public:
     vector() = other.vector();
   }
 
+  ISTLVectorBackend(const ISTLVectorBackend&) = default;
+
+  //! Forward assignment to the wrapped vector instead of rebinding the backend
+  ISTLVectorBackend& operator= (const ISTLVectorBackend& other)
+  {
+    if constexpr (std::is_const_v<V>)
+      vector_ = other.vector_;
+    else
+      vector() = other.vector();
+    return *this;
+  }
+
   const Vector& vector() const
   {
     return *vector_;
-- 
2.43.0


From 6d771f0eabf3056fe18e9326a65ab6f95d50d78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:40 +0000
Subject: [PATCH 20/30] fix: store callables by value in
 makeDifferentiableFunctionFromCallables()

Storing lvalue arguments by reference made the returned function
dangle, and rvalues were copied instead of moved.
---
 .../common/differentiablefunctionfromcallables.hh      | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dune/functions/common/differentiablefunctionfromcallables.hh b/dune/functions/common/differentiablefunctionfromcallables.hh
index b0d9447..5bffbd4 100644
--- a/dune/functions/common/differentiablefunctionfromcallables.hh
+++ b/dune/functions/common/differentiablefunctionfromcallables.hh
@@ -8,6 +8,9 @@
 #define DUNE_FUNCTIONS_COMMON_DIFFEREENTIONABEFUNCTIONFROMCALLABLES_HH
 
 
+#include <type_traits>
+#include <utility>
+
 #include <dune/common/typeutilities.hh>
 #include <dune/common/hybridutilities.hh>
 
@@ -61,7 +64,8 @@ public:
   using Derivative = DifferentiableFunction<DerivativeSignature, DerivativeTraits>;
 
   //! Constructor copying the given function
-  template<class FF, disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0>
+  template<class FF, disableCopyMove<DifferentiableFunctionFromCallables, FF> = 0,
+    std::enable_if_t<std::is_constructible_v<F, FF>, int> = 0>
   DifferentiableFunctionFromCallables(FF&& f) :
     f_(std::forward<FF>(f))
   {}
@@ -164,10 +168,10 @@ private:
  * \returns Object modelling DifferentiableFunction interface
  */
 template<class Signature, template<class> class DerivativeTraits, class... F>
-DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>
+DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>
   makeDifferentiableFunctionFromCallables(const SignatureTag<Signature, DerivativeTraits>& signatureTag, F&&... f)
 {
-  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, F...>(f...);
+  return DifferentiableFunctionFromCallables<Signature, DerivativeTraits, std::decay_t<F>...>(std::forward<F>(f)...);
 }
 
 
-- 
2.43.0


From 4253b7b7edf029ce6a78e5d93f51aa3803effcba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:48 +0000
Subject: [PATCH 21/30] fix: do not return reference to temporary in
 SubDomainGridView element iterator

The iterators of some host grids return elements by value.
---
 dune/functions/common/subdomain.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/functions/common/subdomain.hh b/dune/functions/common/subdomain.hh
index 0104252..a67c2bc 100644
--- a/dune/functions/common/subdomain.hh
+++ b/dune/functions/common/subdomain.hh
@@ -380,7 +380,6 @@ namespace Dune::Functions::Experimental {
     template<PartitionIteratorType pit>
     class ElementIterator
     {
-      using Element = typename HGV::template Codim<0>::Entity;
     public:
 
       using HostElementIterator = typename HGV::template Codim<0>::template Partition<pit>::Iterator;
@@ -402,7 +401,8 @@ namespace Dune::Functions::Experimental {
         return *this;
       }
 
-      const Element& operator*() const
+      // The host iterator may return elements by reference or by value
+      decltype(auto) operator*() const
       {
         return *hostIt_;
       }
-- 
2.43.0


From 8a3b69c90b3fbd6503b61ffeb90b77dd8c3aa432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:14 +0000
Subject: [PATCH 22/30] fix: make copies of cubic Hermite and Argyris finite
 elements self-contained

The local interpolation kept a pointer to the vertex mesh sizes stored in
the finite element it was bound by. A copied finite element hence used the
mesh sizes of the original, even after that was rebound or destroyed.
---
 dune/functions/functionspacebases/argyrisbasis.hh      | 6 +++---
 dune/functions/functionspacebases/cubichermitebasis.hh | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/functions/functionspacebases/argyrisbasis.hh b/dune/functions/functionspacebases/argyrisbasis.hh
index dd8a77f..0ef6772 100644
--- a/dune/functions/functionspacebases/argyrisbasis.hh
+++ b/dune/functions/functionspacebases/argyrisbasis.hh
@@ -470,7 +470,7 @@ namespace Dune::Functions
       template<class Element>
       void bind( Element const& element, std::array<D, 3>const& averageVertexMeshSize, std::bitset<3>const& edgeOrientation)
       {
-        averageVertexMeshSize_ = &averageVertexMeshSize;
+        averageVertexMeshSize_ = averageVertexMeshSize;
 
         auto geometry = element.geometry();
 
@@ -514,7 +514,7 @@ namespace Dune::Functions
           auto&& x = localVertices_[i];
           auto derivativeValue = squeezeTensor(df(x));
           auto hessianValue = squeezeTensor(Hf(x));
-          auto && h = (*averageVertexMeshSize_)[i];
+          auto && h = averageVertexMeshSize_[i];
 
           out[offset ] = f(x);
 
@@ -543,7 +543,7 @@ namespace Dune::Functions
       std::array<Dune::FieldVector<D, 2>, 3> globalNormals_;
       std::array<Dune::FieldVector<D, 2>, 3> localMidpoints_;
       std::array<Dune::FieldVector<D, 2>, 3> localVertices_;
-      std::array<D, 3> const* averageVertexMeshSize_;
+      std::array<D, 3> averageVertexMeshSize_;
       std::array<FunctionalDescriptor, size()> descriptors_;
     };
 
diff --git a/dune/functions/functionspacebases/cubichermitebasis.hh b/dune/functions/functionspacebases/cubichermitebasis.hh
index 1930ba7..2d239ed 100644
--- a/dune/functions/functionspacebases/cubichermitebasis.hh
+++ b/dune/functions/functionspacebases/cubichermitebasis.hh
@@ -453,7 +453,7 @@ namespace Dune::Functions
       template<class Element>
       void bind( Element const &element, std::array<D, dim+1>const& averageVertexMeshSize)
       {
-        averageVertexMeshSize_ = &averageVertexMeshSize;
+        averageVertexMeshSize_ = averageVertexMeshSize;
       }
 
       /** \brief Evaluate a given function and its derivatives at the nodes
@@ -477,7 +477,7 @@ namespace Dune::Functions
           auto&& derivativeValue = df(x);
           out[i * (dim +1)] = f(x);
           for (int d = 0; d < dim; ++d)
-            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * (*averageVertexMeshSize_)[i];
+            out[i * (dim+1) + d + 1] = squeezeTensor(derivativeValue)[d] * averageVertexMeshSize_[i];
         }
 
         if constexpr (not reduced)
@@ -496,7 +496,7 @@ namespace Dune::Functions
       }
 
     protected:
-      std::array<D, dim+1> const* averageVertexMeshSize_;
+      std::array<D, dim+1> averageVertexMeshSize_;
       std::array<FunctionalDescriptor, size()> descriptors_;
     };
 
-- 
2.43.0


From 2c2aba4ee151279adba3059b833934ee4af00cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:44 +0000
Subject: [PATCH 23/30] fix: refuse unsupported element types when updating a
 pre-basis

---
 .../brezzidouglasmarinibasis.hh               | 16 +++++++---
 .../hierarchicallagrangebasis.hh              | 30 +++++++++++++++++++
 ...rarchicallagrangewithelementbubblebasis.hh | 30 +++++++++++++++++++
 .../functionspacebases/nedelecbasis.hh        | 24 ++++++++++-----
 .../functionspacebases/rannacherturekbasis.hh | 14 +++++++--
 .../functionspacebases/raviartthomasbasis.hh  | 22 +++++++++-----
 .../refinedlagrangebasis.hh                   | 25 ++++++++++++----
 7 files changed, 134 insertions(+), 27 deletions(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index 1e7c0a4..a0d2f85 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -195,15 +195,13 @@ public:
     Base(gv, dofLayout()),
     finiteElementMap_(gv)
   {
-    // There is no inherent reason why the basis shouldn't work for grids with more than one
-    // element types.  Somebody simply has to sit down and implement the missing bits.
-    if (gv.indexSet().types(0).size() > 1)
-      DUNE_THROW(Dune::NotImplemented, "Brezzi-Douglas-Marini basis is only implemented for grids with a single element type");
+    checkElementTypes(gv);
   }
 
   /* \brief Update the stored grid view, to be called if the grid has changed */
   void update (const GridView& gv)
   {
+    checkElementTypes(gv);
     Base::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -217,6 +215,16 @@ public:
   }
 
 protected:
+
+  // Throw an exception if the grid view contains unsupported combinations of element types
+  static void checkElementTypes(const GridView& gv)
+  {
+    // There is no inherent reason why the basis shouldn't work for grids with more than one
+    // element types.  Somebody simply has to sit down and implement the missing bits.
+    if (gv.indexSet().types(0).size() > 1)
+      DUNE_THROW(Dune::NotImplemented, "Brezzi-Douglas-Marini basis is only implemented for grids with a single element type");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/hierarchicallagrangebasis.hh b/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
index 28bc78b..0c3d59d 100644
--- a/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
+++ b/dune/functions/functionspacebases/hierarchicallagrangebasis.hh
@@ -51,6 +51,21 @@ namespace Dune {
     public:
       HierarchicalLagrangePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) -> std::size_t { return gt.isVertex() ? 1 : 0; })
+      {
+        checkElementTypes(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkElementTypes(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+
+      // Throw an exception if the grid view contains unsupported element types
+      static void checkElementTypes (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
@@ -68,6 +83,21 @@ namespace Dune {
     public:
       HierarchicalLagrangePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) -> std::size_t { return (gt.isVertex() || gt.isLine()) ? 1 : 0; })
+      {
+        checkElementTypes(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkElementTypes(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+
+      // Throw an exception if the grid view contains unsupported element types
+      static void checkElementTypes (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
diff --git a/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh b/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
index b6b225c..7c18078 100644
--- a/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
+++ b/dune/functions/functionspacebases/hierarchicallagrangewithelementbubblebasis.hh
@@ -49,6 +49,21 @@ namespace Dune {
     public:
       HierarchicalLagrangeWithElementBubblePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) { return (gt.isVertex() || gt.dim() == GV::dimension) ? 1 : 0; })
+      {
+        checkElementTypes(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkElementTypes(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+
+      // Throw an exception if the grid view contains unsupported element types
+      static void checkElementTypes (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
@@ -66,6 +81,21 @@ namespace Dune {
     public:
       HierarchicalLagrangeWithElementBubblePreBasis (const GV& gridView) :
         Base(gridView, [](GeometryType gt, int) { return (gt.dim() <= 1 || gt.dim() == GV::dimension) ? 1 : 0; })
+      {
+        checkElementTypes(gridView);
+      }
+
+      //! Update the stored grid view, to be called if the grid has changed
+      void update (const GV& gridView)
+      {
+        checkElementTypes(gridView);
+        Base::update(gridView);
+      }
+
+    private:
+
+      // Throw an exception if the grid view contains unsupported element types
+      static void checkElementTypes (const GV& gridView)
       {
         for (auto gt : gridView.indexSet().types(0)) {
           if (!gt.isSimplex())
diff --git a/dune/functions/functionspacebases/nedelecbasis.hh b/dune/functions/functionspacebases/nedelecbasis.hh
index d58687d..74d18a8 100644
--- a/dune/functions/functionspacebases/nedelecbasis.hh
+++ b/dune/functions/functionspacebases/nedelecbasis.hh
@@ -169,14 +169,7 @@ public:
     if (kind!=1)
       DUNE_THROW(NotImplemented, "Only Nedelec elements of the first kind are implemented!");
 
-    // There is no inherent reason why the basis shouldn't work for grids with more than two
-    // element types.  Somebody simply has to sit down and implement the missing bits.
-    if (gv.indexSet().types(0).size() > 2)
-      DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex and cube elements");
-
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube())
-        DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex or cube elements.");
+    checkElementTypes(gv);
 
     if (order>1)
       DUNE_THROW(NotImplemented, "Only first-order elements are implemented");
@@ -188,6 +181,7 @@ public:
   /** \brief Update the stored grid view, to be called if the grid has changed */
   void update (const GridView& gv)
   {
+    checkElementTypes(gv);
     LeafPreBasisMapperMixin<GV>::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -201,6 +195,20 @@ public:
   }
 
 protected:
+
+  // Throw an exception if the grid view contains unsupported element types
+  static void checkElementTypes(const GridView& gv)
+  {
+    // There is no inherent reason why the basis shouldn't work for grids with more than two
+    // element types.  Somebody simply has to sit down and implement the missing bits.
+    if (gv.indexSet().types(0).size() > 2)
+      DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex and cube elements");
+
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube())
+        DUNE_THROW(NotImplemented, "Nédélec basis is only implemented for grids with simplex or cube elements.");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/rannacherturekbasis.hh b/dune/functions/functionspacebases/rannacherturekbasis.hh
index de41d63..e9c99cd 100644
--- a/dune/functions/functionspacebases/rannacherturekbasis.hh
+++ b/dune/functions/functionspacebases/rannacherturekbasis.hh
@@ -73,9 +73,7 @@ public:
   RannacherTurekPreBasis(const GridView& gv) :
     gridView_(gv)
   {
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube())
-        DUNE_THROW(Dune::NotImplemented, "Rannacher-Turek or Crouzeix-Raviart elements are only implemented for grids with simplex or cube elements.");
+    checkElementTypes(gv);
   }
 
   //! Initialize the global indices
@@ -91,6 +89,7 @@ public:
   //! Update the stored grid view, to be called if the grid has changed
   void update (const GridView& gv)
   {
+    checkElementTypes(gv);
     gridView_ = gv;
   }
 
@@ -129,6 +128,15 @@ public:
   }
 
 protected:
+
+  // Throw an exception if the grid view contains unsupported element types
+  static void checkElementTypes(const GridView& gv)
+  {
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube())
+        DUNE_THROW(Dune::NotImplemented, "Rannacher-Turek or Crouzeix-Raviart elements are only implemented for grids with simplex or cube elements.");
+  }
+
   GridView gridView_;
 };
 
diff --git a/dune/functions/functionspacebases/raviartthomasbasis.hh b/dune/functions/functionspacebases/raviartthomasbasis.hh
index 033ca48..c078306 100644
--- a/dune/functions/functionspacebases/raviartthomasbasis.hh
+++ b/dune/functions/functionspacebases/raviartthomasbasis.hh
@@ -293,18 +293,13 @@ public:
     Base(gv, dofLayout()),
     finiteElementMap_(gv)
   {
-    // Currently there are some unresolved bugs with hybrid grids and higher order Raviart-Thomas elements
-    if (gv.indexSet().types(0).size() > 1 and k>0)
-      DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas basis with index k>0 is only implemented for grids with a single element type");
-
-    for(auto type : gv.indexSet().types(0))
-      if (!type.isSimplex() && !type.isCube() && !type.isPyramid() && !type.isPrism())
-        DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas elements are only implemented for grids with simplex, cube, pyramid or prism elements.");
+    checkElementTypes(gv);
   }
 
   /** \brief Update the stored grid view, to be called if the grid has changed */
   void update(const GridView& gv)
   {
+    checkElementTypes(gv);
     Base::update(gv);
     finiteElementMap_.update(gv);
   }
@@ -318,6 +313,19 @@ public:
   }
 
 protected:
+
+  // Throw an exception if the grid view contains unsupported (combinations of) element types
+  static void checkElementTypes(const GridView& gv)
+  {
+    // Currently there are some unresolved bugs with hybrid grids and higher order Raviart-Thomas elements
+    if (gv.indexSet().types(0).size() > 1 and k>0)
+      DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas basis with index k>0 is only implemented for grids with a single element type");
+
+    for(auto type : gv.indexSet().types(0))
+      if (!type.isSimplex() && !type.isCube() && !type.isPyramid() && !type.isPrism())
+        DUNE_THROW(Dune::NotImplemented, "Raviart-Thomas elements are only implemented for grids with simplex, cube, pyramid or prism elements.");
+  }
+
   FiniteElementMap finiteElementMap_;
 };
 
diff --git a/dune/functions/functionspacebases/refinedlagrangebasis.hh b/dune/functions/functionspacebases/refinedlagrangebasis.hh
index c793b5f..3aa744d 100644
--- a/dune/functions/functionspacebases/refinedlagrangebasis.hh
+++ b/dune/functions/functionspacebases/refinedlagrangebasis.hh
@@ -86,11 +86,14 @@ public:
   RefinedLagrangePreBasis (const GridView& gv)
     : Base(gv, dofLayout())
   {
-    for (auto gt : gv.indexSet().types(0)) {
-      if (!gt.isSimplex())
-        DUNE_THROW(Dune::NotImplemented,
-          "Refined Lagrange basis only implemented for simplex grids.");
-    }
+    checkElementTypes(gv);
+  }
+
+  //! Update the stored grid view, to be called if the grid has changed
+  void update (const GridView& gv)
+  {
+    checkElementTypes(gv);
+    Base::update(gv);
   }
 
   //! Create tree node
@@ -110,6 +113,18 @@ public:
   {
     return k;
   }
+
+private:
+
+  // Throw an exception if the grid view contains unsupported element types
+  static void checkElementTypes (const GridView& gv)
+  {
+    for (auto gt : gv.indexSet().types(0)) {
+      if (!gt.isSimplex())
+        DUNE_THROW(Dune::NotImplemented,
+          "Refined Lagrange basis only implemented for simplex grids.");
+    }
+  }
 };
 
 
-- 
2.43.0


From abe4df5ceaef34e12d0b233edb9a7638b9da2fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:55 +0000
Subject: [PATCH 24/30] fix: do not index neighbours outside the grid view in
 the BDM basis

---
 dune/functions/functionspacebases/brezzidouglasmarinibasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
index a0d2f85..6c97b10 100644
--- a/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
+++ b/dune/functions/functionspacebases/brezzidouglasmarinibasis.hh
@@ -120,7 +120,7 @@ namespace Impl {
 
         for (const auto& intersection : intersections(gv,cell))
         {
-          if (intersection.neighbor() && (is_->index(intersection.outside()) > myId))
+          if (intersection.neighbor() && gv.contains(intersection.outside()) && (is_->index(intersection.outside()) > myId))
             orient_[myId] |= (1 << intersection.indexInInside());
         }
       }
-- 
2.43.0


From 1407e32e737ae4b6b5622c81394c83805139289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 25/30] fix: keep the local view alive as long as the nodes of
 its tree are used from Python

localView.tree() referred to the local view without keeping it alive. The
children of a node have been copied, hence they missed later calls to bind()
and referred to data of the local view and basis without keeping these alive.
---
 dune/python/functions/globalbasis.hh | 3 ++-
 dune/python/functions/tree.hh        | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 21ce47c..820de85 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -186,7 +186,8 @@ namespace Dune
       lv.def( "maxSize", [] ( LocalView &self ) -> int { return self.maxSize(); } );
 
       Functions::registerTree<Tree>(lv);
-      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); });
+      // The tree is owned by the local view
+      lv.def("tree", [](const LocalView& view) { return Dune::stackobject_to_shared_ptr(view.tree()); }, pybind11::keep_alive< 0, 1 >() );
 
       cls.def( "localView", [] ( const GlobalBasis &self ) -> LocalView { return self.localView(); }, pybind11::keep_alive< 0, 1 >() );
       cls.def_property_readonly( "dimension", [] ( const GlobalBasis &self ) -> int { return self.dimension(); } );
diff --git a/dune/python/functions/tree.hh b/dune/python/functions/tree.hh
index ea73f5f..91d3025 100644
--- a/dune/python/functions/tree.hh
+++ b/dune/python/functions/tree.hh
@@ -11,6 +11,7 @@
 #include <memory>
 
 // for void_t, in <type_traits> for C++17
+#include <dune/common/shared_ptr.hh>
 #include <dune/common/typetraits.hh>
 #include <dune/common/visibility.hh>
 
@@ -61,7 +62,8 @@ template<typename Tree, std::size_t i>
 auto childAccessor()
 {
   return [](Tree& tree) {
-    return pybind11::cast(tree.template child(index_constant<i>{}));
+    // The child is owned by its parent, do not hand out a copy
+    return pybind11::cast(Dune::stackobject_to_shared_ptr(tree.child(index_constant<i>{})));
   };
 }
 
@@ -80,6 +82,7 @@ void registerTreeChildAccessor(pybind11::class_<Tree, std::shared_ptr<Tree>>& cl
   cls.def(
     "child",
     [accessors](Tree& tree, std::size_t i) { return accessors.at(i)(tree); },
+    pybind11::keep_alive<0, 1>(),
     pybind11::arg("i"));
 }
 
-- 
2.43.0


From 958d2c499ceb3610ce1760226d631d0244e07853 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 26/30] fix: keep the grid alive as long as grid views of a
 basis are used from Python

The grid view handed out by basis.gridView, and the basis after assigning a
new grid view, did not keep the grid alive.
---
 dune/python/functions/globalbasis.hh | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 820de85..656c236 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -159,15 +159,24 @@ namespace Dune
               pybind11::overload_cast<const typename GlobalBasis::SizePrefix&>(&GlobalBasis::size, pybind11::const_),
               "Return number of possible values for next position in multi index");
 
+      // A grid view does not own its grid: Keep the latter alive as long as the grid view is used
+      auto getGridView = [](const GlobalBasis& basis) {
+        pybind11::object gridView = pybind11::cast(basis.gridView());
+        pybind11::detail::keep_alive_impl(gridView, pybind11::cast(&basis.gridView().grid(), pybind11::return_value_policy::reference));
+        return gridView;
+      };
+
       if constexpr (hasUpdate)
       {
         cls.def_property( "gridView",
-                          [](const GlobalBasis& basis) { return basis.gridView(); },
-                          [](GlobalBasis& basis, const GridView& gridView) { basis.update(gridView); });
+                          getGridView,
+                          pybind11::cpp_function(
+                            [](GlobalBasis& basis, const GridView& gridView) { basis.update(gridView); },
+                            pybind11::keep_alive< 1, 2 >()));
       }
       else
       {
-        cls.def_property_readonly( "gridView", [](const GlobalBasis& basis) { return basis.gridView(); });
+        cls.def_property_readonly( "gridView", getGridView);
       }
 
       using LocalView = LocalViewWrapper< GlobalBasis >;
-- 
2.43.0


From d29cea247ebb2879d9f0e141277a5983cb420a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 27/30] fix: do not leak the element when unbinding a local
 view from Python

---
 dune/python/functions/globalbasis.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 656c236..5e42bf1 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -115,7 +115,7 @@ namespace Dune
       void unbind ( )
       {
         base().unbind();
-        obj_.release();
+        obj_ = pybind11::object();
       }
       pybind11::object obj_;
     };
-- 
2.43.0


From e0967794003b1e0a58f255d79338cfd4183a0937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:07 +0000
Subject: [PATCH 28/30] fix: do not interpolate into a temporary copy of the
 coefficient array

Arrays of other types than those supported, and other sequences, have been
converted silently, and the result was lost.
---
 dune/python/functions/globalbasis.hh | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 5e42bf1..50181b1 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -205,17 +205,18 @@ namespace Dune
       // TODO: Currently we only register the method for cases where either scalars or FieldVector<double,dimRange>
       // are reasonable value types for functions to be interpolated. This excludes various not-very-exotic
       // composite bases.  Support for them is planned for the future.
+      // The coefficient vector must not be converted, because the result would be written into a temporary.
       if constexpr (dimRange==1)
       {
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double> );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool> );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int> );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double>, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool>, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int>, "x"_a.noconvert(), "f"_a );
       }
       else if constexpr (LeafTreeNode<RawTree> or UniformInnerTreeNode<RawTree>)
       {
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> > );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> > );
-        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int, FieldVector<int,dimRange> > );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> >, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> >, "x"_a.noconvert(), "f"_a );
+        cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int, FieldVector<int,dimRange> >, "x"_a.noconvert(), "f"_a );
       }
 
       // Register various grid function types
-- 
2.43.0


From fa58261d0ec861ebaef59e24ecd6c9c43f479823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:57 +0000
Subject: [PATCH 29/30] fix: refuse coefficient vectors of wrong size when
 creating functions from Python

Evaluating a function of a too short vector accessed memory outside of it.
---
 dune/python/functions/discretefunction.hh | 5 +++++
 dune/python/functions/globalbasis.hh      | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dune/python/functions/discretefunction.hh b/dune/python/functions/discretefunction.hh
index c92f338..29d608f 100644
--- a/dune/python/functions/discretefunction.hh
+++ b/dune/python/functions/discretefunction.hh
@@ -4,6 +4,9 @@
 #ifndef DUNE_PYTHON_FUNCTIONS_DISCRETEFUNCTION_HH
 #define DUNE_PYTHON_FUNCTIONS_DISCRETEFUNCTION_HH
 
+#include <memory>
+#include <stdexcept>
+
 #include <dune/common/ftraits.hh>
 
 #include <dune/functions/gridfunctions/discreteglobalbasisfunction.hh>
@@ -49,6 +52,8 @@ namespace Dune
                 std::make_shared<const NodeToRangeMap>();
               std::shared_ptr<const Basis> basisPtr = Dune::wrap_or_move( basis );
               auto vectorPtr = std::make_shared< const Vector >( dofVector );
+              if (vectorPtr->vector().size() != basis.size())
+                throw std::runtime_error("Coefficient vector has wrong size");
               return new DiscreteFunction( basisPtr,
                                            vectorPtr,
                                            nodeToRangeMapPtr );
diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index 50181b1..fcaf2dc 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -6,6 +6,7 @@
 
 #include <cstddef>
 
+#include <stdexcept>
 #include <tuple>
 #include <type_traits>
 #include <utility>
@@ -257,7 +258,10 @@ namespace Dune
         registerDiscreteFunction<GlobalBasis>( module, clsDiscreteFunction.first );
 
         cls.def("asFunction", [] ( GlobalBasis &self, pybind11::buffer dofVector ) {
-            return new DiscreteFunction( self, HierarchicPythonVector<double>(dofVector), Dune::Functions::HierarchicNodeToRangeMap());
+            auto vector = HierarchicPythonVector<double>(dofVector);
+            if (vector.vector().size() != self.size())
+              throw std::runtime_error("Coefficient vector has wrong size");
+            return new DiscreteFunction( self, std::move(vector), Dune::Functions::HierarchicNodeToRangeMap());
           }, pybind11::keep_alive< 0, 1 >(), pybind11::keep_alive< 0, 2 >(), "dofVector"_a );
       }
     }
-- 
2.43.0


From 08938a1cb850a9d24d1d75dac4712110e214230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:17 +0000
Subject: [PATCH 30/30] fix: register Python interpolation and functions only
 for spaces with plain ranges

For bases of nested power spaces and powers of vector valued spaces the generated
module did not compile, hence such bases could not be created at all from Python.
---
 dune/python/functions/globalbasis.hh | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/dune/python/functions/globalbasis.hh b/dune/python/functions/globalbasis.hh
index fcaf2dc..ee7c74f 100644
--- a/dune/python/functions/globalbasis.hh
+++ b/dune/python/functions/globalbasis.hh
@@ -77,6 +77,25 @@ namespace Dune
           static_assert(Dune::AlwaysFalse<Node>::value, "Dynamic power bases are not supported through the python interface.");
       }
 
+      // Is the node a leaf or a power of scalar leafs? Only for those the range is a number or a plain FieldVector.
+      template<class Node>
+      constexpr bool hasSimpleRange()
+      {
+        using namespace Dune::TypeTree::Concept;
+        if constexpr (LeafTreeNode<Node>)
+          return true;
+        else if constexpr (UniformInnerTreeNode<Node>)
+        {
+          using Child = Dune::TypeTree::Child<Node, 0>;
+          if constexpr (LeafTreeNode<Child>)
+            return nodeRangeDim<Child>() == 1;
+          else
+            return false;
+        }
+        else
+          return false;
+      }
+
     } // end namespace Impl
 
 
@@ -213,7 +232,7 @@ namespace Dune
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool>, "x"_a.noconvert(), "f"_a );
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, int>, "x"_a.noconvert(), "f"_a );
       }
-      else if constexpr (LeafTreeNode<RawTree> or UniformInnerTreeNode<RawTree>)
+      else if constexpr (Impl::hasSimpleRange<RawTree>())
       {
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, double, FieldVector<double,dimRange> >, "x"_a.noconvert(), "f"_a );
         cls.def( "interpolate", &Dune::Python::Functions::interpolate<GlobalBasis, bool, std::array<bool,dimRange> >, "x"_a.noconvert(), "f"_a );
@@ -224,7 +243,7 @@ namespace Dune
       // TODO: As we do not currently have support for nested range types,
       // we register grid function types only for 'simple' bases.
       // A more general implementation is planned for the future.
-      if constexpr (LeafTreeNode<RawTree> or UniformInnerTreeNode<RawTree>)
+      if constexpr (Impl::hasSimpleRange<RawTree>())
       {
         using Range = typename RangeType< double, dimRange >::type;
         RangeType< double, dimRange >::registerRange(module);
-- 
2.43.0

