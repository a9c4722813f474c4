From 33f2689600125ff10f8223c83326bd6fae52b071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:14 +0000
Subject: [PATCH 01/81] fix: free individually allocated BCRSMatrix rows with
 the size they were allocated with

The rows of a row-wise built BCRSMatrix with unknown number of nonzeroes are
allocated with s entries, but were handed back to the allocators as if they
had been allocated with a single entry.
---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..a80954e 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2193,8 +2193,8 @@ namespace Dune {
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From 1175a7f6dc608eb9ec45b3f52a13d4be6320f1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 02/81] fix: scaling a BCRSMatrix whose rows are allocated
 individually

operator*= and operator/= took nnz_ > 0 as an indication that the entries live
in one array.  But nonzeroes() caches the number of entries in nnz_ also for
matrices with individually allocated rows, which made the scaling dereference
a null pointer.  Look at the allocation instead.
---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index a80954e..27c3687 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1517,7 +1517,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (allocationSize_ > 0)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
@@ -1545,7 +1545,7 @@ namespace Dune {
         DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
 #endif
 
-      if (nnz_ > 0)
+      if (allocationSize_ > 0)
       {
         // process 1D array
         for (size_type i=0; i<nnz_; i++)
-- 
2.43.0


From 24687c46370a996699e94701a94c66b97ab06b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:42 +0000
Subject: [PATCH 03/81] fix: BCRSMatrix::nonzeroes() after a random build with
 over-estimated nnz

A matrix constructed in random mode with more nonzeroes than the row sizes
need kept reporting the estimate as its number of nonzeroes.
---
 dune/istl/bcrsmatrix.hh | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 27c3687..da9f33a 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1286,13 +1286,18 @@ namespace Dune {
           if (j.index() >= m) {
             dwarn << "WARNING: size of row "<< i.index()<<" is "<<j.offset()<<". But was specified as being "<< (*i).end().offset()
                   <<". This means you are wasting valuable space and creating additional cache misses!"<<std::endl;
-            nnz_ -= ((*i).end().offset() - j.offset());
             r[i.index()].setsize(j.offset());
             break;
           }
         }
       }
 
+      // set nnz to the exact number of entries, which can be smaller
+      // than the number requested by the user
+      nnz_ = 0;
+      for (size_type i=0; i<n; i++)
+        nnz_ += r[i].getsize();
+
       allocateData();
       setDataPointers();
 
-- 
2.43.0


From d84b6e45ffc2fa6aa32c748c0c7cf3fa3d75d574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:57 +0000
Subject: [PATCH 04/81] fix: copying a BCRSMatrix must not modify the source

The column indices are shared between the copies.  If the row sizes of a
random mode matrix were over-estimated its rows are not contiguous in that
array, but the copy laid out its rows contiguously and then copied the
indices, i.e. it overwrote the pattern of the source.
---
 dune/istl/bcrsmatrix.hh | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index da9f33a..fdaccc8 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2083,7 +2083,8 @@ namespace Dune {
     typedef std::map<std::pair<size_type,size_type>, B> OverflowType;
     OverflowType overflow;
 
-    void setWindowPointers(ConstRowIterator row)
+    //! \param shared_indices Whether the column index array is shared with the matrix the rows belong to
+    void setWindowPointers(ConstRowIterator row, bool shared_indices)
     {
       row_type current_row(a,j_.get(),0); // Pointers to current row data
       for (size_type i=0; i<n; i++, ++row) {
@@ -2091,6 +2092,9 @@ namespace Dune {
         size_type s = row->getsize();
 
         if (s>0) {
+          // the rows do not need to be contiguous in a shared index array
+          if (shared_indices)
+            current_row.setindexptr(const_cast<size_type*>(row->getindexptr()));
           // setup pointers and size
           r[i].set(s,current_row.getptr(), current_row.getindexptr());
           // update pointer for next row
@@ -2155,7 +2159,7 @@ namespace Dune {
     //! \brief Copy the window structure from another matrix
     void copyWindowStructure(const BCRSMatrix& Mat)
     {
-      setWindowPointers(Mat.begin());
+      setWindowPointers(Mat.begin(), j_ && j_ == Mat.j_);
 
       // copy data
       for (size_type i=0; i<n; i++) r[i] = Mat.r[i];
-- 
2.43.0


From 64d1c080fbc86e83ace427e2243d612bfcf7ae63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 05/81] fix: destroying a BCRSMatrix between setrowsize() and
 endrowsizes()

---
 dune/istl/bcrsmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index fdaccc8..e709dfb 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2196,7 +2196,8 @@ namespace Dune {
       {
         // check if memory for rows have been allocated individually
         for (size_type i=0; i<n; i++)
-          if (r[i].getsize()>0)
+          // rows of a random build get their memory in endrowsizes() only
+          if (r[i].getsize()>0 && r[i].getptr())
           {
             for (B *col=r[i].getptr()+(r[i].getsize()-1),
                  *colend = r[i].getptr()-1; col!=colend; --col) {
-- 
2.43.0


From 724185f50a7e550a0a682c0ddaac51fb3fdd7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:18 +0000
Subject: [PATCH 06/81] fix: implicit build of a BCRSMatrix with zero average
 row size

---
 dune/istl/bcrsmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index e709dfb..6b8044a 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2314,7 +2314,8 @@ namespace Dune {
         DUNE_THROW(InvalidStateException,"You have to set the implicit build mode parameters before starting to build the matrix");
       //calculate size of overflow region, add buffer for row sort!
       size_type osize = (size_type) (_n*avg)*compressionBufferSize_ + 4*avg;
-      allocationSize_ = _n*avg + osize;
+      // never leave the matrix without any memory, compress() needs a place to work on
+      allocationSize_ = std::max<size_type>(_n*avg + osize, 1);
 
       allocate(_n, _m, allocationSize_,true,true);
 
-- 
2.43.0


From ebb3ac2041760847dc2f4b24dc2826982e4eee4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 07/81] fix: Matrix::infinity_norm() for entry types without
 NaN did not compile

---
 dune/istl/matrix.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 2aff176..7574828 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -995,7 +995,6 @@ namespace MatrixImp
         for (auto const &y : x)
           sum += Impl::asMatrix(y).infinity_norm();
         norm = max(sum, norm);
-        isNaN += sum;
       }
 
       return norm;
-- 
2.43.0


From cf3b7beae4d6b1470e49557e0624eecf07d06ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:13 +0000
Subject: [PATCH 08/81] fix: Frobenius norm of complex ScaledIdentityMatrix

---
 dune/istl/scaledidmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/scaledidmatrix.hh b/dune/istl/scaledidmatrix.hh
index 4efdba4..c73243f 100644
--- a/dune/istl/scaledidmatrix.hh
+++ b/dune/istl/scaledidmatrix.hh
@@ -361,13 +361,13 @@ namespace Dune {
     //! frobenius norm: sqrt(sum over squared values of entries)
     typename FieldTraits<field_type>::real_type frobenius_norm () const
     {
-      return fvmeta::sqrt(n*p_*p_);
+      return fvmeta::sqrt(frobenius_norm2());
     }
 
     //! square of frobenius norm, need for block recursion
     typename FieldTraits<field_type>::real_type frobenius_norm2 () const
     {
-      return n*p_*p_;
+      return n*fvmeta::abs2(p_);
     }
 
     //! infinity norm (row sum norm, how to generalize for blocks?)
-- 
2.43.0


From b1b2cf9ab5aada5af4cf53db03dd0453a3e6c2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 09/81] fix: indices of reverse and end iterators of
 VariableBlockVector

---
 dune/istl/vbvector.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..0155bc6 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -422,21 +422,21 @@ namespace Dune {
     //! end Iterator
     Iterator end ()
     {
-      return Iterator{block.end()};
+      return Iterator{block.end(), static_cast<std::ptrdiff_t>(block.size())};
     }
 
     //! @returns an iterator that is positioned before
     //! the end iterator of the vector, i.e. at the last entry.
     Iterator beforeEnd ()
     {
-      return Iterator{--block.end()};
+      return Iterator{--block.end(), static_cast<std::ptrdiff_t>(block.size())-1};
     }
 
     //! @returns an iterator that is positioned before
     //! the first entry of the vector.
     Iterator beforeBegin ()
     {
-      return Iterator{--block.begin()};
+      return Iterator{--block.begin(), -1};
     }
 
     /** \brief Export the iterator type using std naming rules */
@@ -457,21 +457,21 @@ namespace Dune {
     //! end ConstIterator
     ConstIterator end () const
     {
-      return ConstIterator{block.end()};
+      return ConstIterator{block.end(), static_cast<std::ptrdiff_t>(block.size())};
     }
 
     //! @returns an iterator that is positioned before
     //! the end iterator of the vector. i.e. at the last element.
     ConstIterator beforeEnd () const
     {
-      return ConstIterator{--block.end()};
+      return ConstIterator{--block.end(), static_cast<std::ptrdiff_t>(block.size())-1};
     }
 
     //! @returns an iterator that is positioned before
     //! the first entry of the vector.
     ConstIterator beforeBegin () const
     {
-      return ConstIterator{--block.begin()};
+      return ConstIterator{--block.begin(), -1};
     }
 
     //! end ConstIterator
-- 
2.43.0


From 9677af2167515aa67419d704d37f85e122289ce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:10 +0000
Subject: [PATCH 10/81] fix: creating a VariableBlockVector without blocks

---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 0155bc6..eb32cc8 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -530,7 +530,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size()>0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From 5544821351ba9c30a9c17c7b052d99d97ec98c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:50 +0000
Subject: [PATCH 11/81] fix: sparse matrix products without rows

---
 dune/istl/matrixmatrix.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/matrixmatrix.hh b/dune/istl/matrixmatrix.hh
index 19ac9e1..7fb95f6 100644
--- a/dune/istl/matrixmatrix.hh
+++ b/dune/istl/matrixmatrix.hh
@@ -330,7 +330,8 @@ namespace Dune
         : mat(mat_), row(mat.begin())
       {
         mat=0;
-        col=row->begin();
+        if(row!=mat.end())
+          col=row->begin();
       }
       void nextRow()
       {
-- 
2.43.0


From 16d05d5eb0f430dddddb8278224df3bb079a3596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:21 +0000
Subject: [PATCH 12/81] fix: row and column dimensions of BCRSMatrix with empty
 rows, columns or unused entries

---
 dune/istl/matrixutils.hh | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/dune/istl/matrixutils.hh b/dune/istl/matrixutils.hh
index c5d93ef..959a5c2 100644
--- a/dune/istl/matrixutils.hh
+++ b/dune/istl/matrixutils.hh
@@ -266,35 +266,25 @@ namespace Dune
 
     static size_type rowdim (const Matrix& A, size_type i)
     {
-      const B* row = A.r[i].getptr();
-      if(row)
-        return MatrixDimension<block_type>::rowdim(*row);
+      if constexpr (IsNumber<block_type>::value)
+        return 1;
+      else if(A.r[i].getsize()>0)
+        return MatrixDimension<block_type>::rowdim(*A.r[i].getptr());
       else
         return 0;
     }
 
     static size_type coldim (const Matrix& A, size_type c)
     {
+      if constexpr (IsNumber<block_type>::value)
+        return 1;
+
       // find an entry in column c
-      if (A.nnz_ > 0)
-      {
-        for (size_type k=0; k<A.nnz_; k++) {
-          if (A.j_.get()[k] == c) {
-            return MatrixDimension<block_type>::coldim(A.a[k]);
-          }
-        }
-      }
-      else
+      for (size_type i=0; i<A.N(); i++)
       {
-        for (size_type i=0; i<A.N(); i++)
-        {
-          size_type* j = A.r[i].getindexptr();
-          B*   a = A.r[i].getptr();
-          for (size_type k=0; k<A.r[i].getsize(); k++)
-            if (j[k]==c) {
-              return MatrixDimension<block_type>::coldim(a[k]);
-            }
-        }
+        auto col = A[i].find(c);
+        if (col != A[i].end())
+          return MatrixDimension<block_type>::coldim(*col);
       }
 
       // not found
@@ -309,6 +299,9 @@ namespace Dune
     }
 
     static size_type coldim (const Matrix& A){
+      if constexpr (IsNumber<block_type>::value)
+        return A.M();
+
       typedef typename Matrix::ConstRowIterator ConstRowIterator;
       typedef typename Matrix::ConstColIterator ConstColIterator;
 
@@ -328,7 +321,7 @@ namespace Dune
       for (typename std::vector<size_type>::iterator it=coldims.begin();
            it!=coldims.end(); ++it)
         // skip rows for which no coldim could be determined
-        if ((*it)>=0)
+        if ((*it)!=std::numeric_limits<size_type>::max())
           sum += *it;
 
       return sum;
-- 
2.43.0


From f470e9b3e84cc64a815ac1cf509512ec11ab99b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 13/81] fix: sizing of default constructed or copied BDMatrix
 and BTDMatrix, solving with an empty BTDMatrix

---
 dune/istl/bdmatrix.hh  | 1 +
 dune/istl/btdmatrix.hh | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/dune/istl/bdmatrix.hh b/dune/istl/bdmatrix.hh
index 19ed0f3..df63838 100644
--- a/dune/istl/bdmatrix.hh
+++ b/dune/istl/bdmatrix.hh
@@ -83,6 +83,7 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      size);  // nonzeros
+      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
 
       for (auto i : range(size))
         this->BCRSMatrix<B,A>::setrowsize(i, 1);
diff --git a/dune/istl/btdmatrix.hh b/dune/istl/btdmatrix.hh
index 2bd2a6e..d123853 100644
--- a/dune/istl/btdmatrix.hh
+++ b/dune/istl/btdmatrix.hh
@@ -80,6 +80,7 @@ namespace Dune {
       this->BCRSMatrix<B,A>::setSize(size,   // rows
                                      size,   // columns
                                      nonZeros);
+      this->BCRSMatrix<B,A>::setBuildMode(BCRSMatrix<B,A>::random);
 
       // Set number of entries for each row
       // All rows get three entries, except for the first and the last one
@@ -120,6 +121,10 @@ namespace Dune {
     template <class V>
     void solve (V& x, const V& rhs) const {
 
+      // nothing to do for empty matrices
+      if (this->N()==0)
+        return;
+
       // special handling for 1x1 matrices.  The generic algorithm doesn't work for them
       if (this->N()==1) {
         auto&& x0 = Impl::asVector(x[0]);
-- 
2.43.0


From eaf09fbe289a8ec6569a58e51cc6fb8c701cd35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:09 +0000
Subject: [PATCH 14/81] fix: infinity norms of MultiTypeBlockMatrix lost NaN of
 all but the last row

---
 dune/istl/multitypeblockmatrix.hh | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index e2389d9..f5102ba 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -10,6 +10,7 @@
 #include <tuple>
 
 #include <dune/common/hybridutilities.hh>
+#include <dune/common/typetraits.hh>
 
 #include "istlexception.hh"
 
@@ -384,6 +385,8 @@ namespace Dune {
     {
       using std::max;
       real_type norm=0;
+      // This variable will preserve any nan value
+      real_type nanTracker=1;
 
       auto rows = index_constant<N()>();
       Hybrid::forEach(Hybrid::integralRange(rows), [&](auto&& i) {
@@ -393,8 +396,13 @@ namespace Dune {
           sum += (*this)[i][j].infinity_norm();
         });
         norm = max(sum, norm);
+        nanTracker += sum;
       });
 
+      // Incorporate possible nan value into result
+      if constexpr (HasNaN<real_type>())
+        norm *= (nanTracker / nanTracker);
+
       return norm;
     }
 
@@ -403,6 +411,8 @@ namespace Dune {
     {
       using std::max;
       real_type norm=0;
+      // This variable will preserve any nan value
+      real_type nanTracker=1;
 
       auto rows = index_constant<N()>();
       Hybrid::forEach(Hybrid::integralRange(rows), [&](auto&& i) {
@@ -412,8 +422,13 @@ namespace Dune {
           sum += (*this)[i][j].infinity_norm_real();
         });
         norm = max(sum, norm);
+        nanTracker += sum;
       });
 
+      // Incorporate possible nan value into result
+      if constexpr (HasNaN<real_type>())
+        norm *= (nanTracker / nanTracker);
+
       return norm;
     }
 
-- 
2.43.0


From f5551495fe4cffd341921de29702bec66db97faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 15/81] fix: nested SOR and Jacobi steps must compute
 corrections starting from zero

---
 dune/istl/gsetc.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 0cfddb0..c1c7b2b 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -451,6 +451,10 @@ namespace Dune {
           coliterator diag=j;           // *diag = a_ii
           for (; j!=endj; ++j)
             (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
+          if constexpr (I>1) {
+            v = x[i.index()];           // allocate with same size
+            v = 0;                      // the nested step computes a correction
+          }
           algmeta_itsteps<I-1,typename M::block_type>::bsorf(*diag,v,rhs,w);           // if blocksize I==1: v = rhs/a_ii
           x[i.index()].axpy(w,v);           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
         }
@@ -494,6 +498,10 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          if constexpr (I>1) {
+            v = x[i.index()];           // allocate with same size
+            v = 0;                      // the nested step computes a correction
+          }
           algmeta_itsteps<I-1,typename M::block_type>::bsorb(*diag,v,rhs,w);
           x[i.index()].axpy(w,v);
         }
@@ -509,6 +517,8 @@ namespace Dune {
       bblock rhs;
 
       X v(x);     // allocate with same size
+      if constexpr (I>1)
+        v = 0;    // the nested steps compute corrections
 
       rowiterator endi=A.end();
       for (rowiterator i=A.begin(); i!=endi; ++i)
-- 
2.43.0


From 1286cebb8edde05a151e8d6df2efab96c2f05402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:55 +0000
Subject: [PATCH 16/81] fix: relaxation steps of MultiTypeBlockMatrix did not
 keep the solution

---
 dune/istl/multitypeblockmatrix.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index f5102ba..a119d36 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -524,6 +524,7 @@ namespace Dune {
       auto rhs = std::get<crow> (b);
 
       MultiTypeBlockMatrix_Solver_Col<I,crow,0, TMatrix::M()>::calc_rhs(A,x,v,rhs,w);  // calculate right side of equation
+      std::get<crow>( std::get<crow>(A)).umv( std::get<crow>(x), rhs );          // the diagonal block does not belong to the right side
       //solve on blocklevel I-1
       using M =
         typename std::remove_cv<
@@ -543,7 +544,8 @@ namespace Dune {
     template <typename TVector, typename TMatrix, typename K>
     static void bsorf(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
       TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      v=x;                                                            //allocate with same size
+      v=0;                                                            //calc corrections in v
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorf(A,x,v,b,w);
 
     }
@@ -570,7 +572,8 @@ namespace Dune {
     template <typename TVector, typename TMatrix, typename K>
     static void bsorb(const TMatrix& A, TVector& x, const TVector& b, const K& w) {
       TVector v;
-      v=x;                                                            //use latest x values in right side calculation
+      v=x;                                                            //allocate with same size
+      v=0;                                                            //calc corrections in v
       MultiTypeBlockMatrix_Solver<I,crow,remain_row>::bsorb(A,x,v,b,w);
 
     }
-- 
2.43.0


From a394b2d0b4005a6e815d4c69f9571b63bea04145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 17/81] fix: incomplete factorizations read past the row end if
 a diagonal entry is missing

---
 dune/istl/dilu.hh | 2 ++
 dune/istl/ildl.hh | 5 +++--
 dune/istl/ilu.hh  | 8 +++++---
 3 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/dune/istl/dilu.hh b/dune/istl/dilu.hh
index 7c5d955..9820b50 100644
--- a/dune/istl/dilu.hh
+++ b/dune/istl/dilu.hh
@@ -56,6 +56,8 @@ namespace Dune
       {
         const auto row_i = row.index();
         const auto col = row->find(row_i);
+        if (col == row->end())
+          DUNE_THROW(ISTLError, "diagonal entry missing");
         // initialise Dinv[i] = A[i, i]
         Dinv_[row_i] = *col;
       }
diff --git a/dune/istl/ildl.hh b/dune/istl/ildl.hh
index a647795..417b324 100644
--- a/dune/istl/ildl.hh
+++ b/dune/istl/ildl.hh
@@ -94,7 +94,8 @@ namespace Dune
       auto &&A_i = *i;
 
       auto ij = A_i.begin();
-      for( ; ij.index() < i.index(); ++ij )
+      const auto ijend = A_i.end();
+      for( ; ij != ijend && ij.index() < i.index(); ++ij )
       {
         auto &&A_ij = *ij;
         auto &&A_j = A[ ij.index() ];
@@ -117,7 +118,7 @@ namespace Dune
         }
       }
 
-      if( ij.index() != i.index() )
+      if( ij == ijend || ij.index() != i.index() )
         DUNE_THROW( ISTLError, "diagonal entry missing" );
 
       // update diagonal and multiply A_ij by D_j^{-1}
diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 75bf295..8e752fa 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -48,7 +48,7 @@ namespace Dune {
         coliterator ij;
 
         // eliminate entries left of diagonal; store L factor
-        for (ij=(*i).begin(); ij.index()<i.index(); ++ij)
+        for (ij=(*i).begin(); ij!=endij && ij.index()<i.index(); ++ij)
         {
           // find A_jj which eliminates A_ij
           coliterator jj = A[ij.index()].find(ij.index());
@@ -78,7 +78,7 @@ namespace Dune {
         }
 
         // invert pivot and store it in A
-        if (ij.index()!=i.index())
+        if (ij==endij || ij.index()!=i.index())
           DUNE_THROW(ISTLError,"diagonal entry missing");
         try {
           Impl::asMatrix(*ij).invert();   // compute inverse of diagonal block
@@ -196,12 +196,14 @@ namespace Dune {
           rowpattern[j.index()] = 0;
 
         // eliminate entries in row which are to the left of the diagonal
-        for (mapiterator ik=rowpattern.begin(); (*ik).first<i.index(); ++ik)
+        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end() && (*ik).first<i.index(); ++ik)
         {
           if ((*ik).second<n)
           {
             coliterator endk = ILU[(*ik).first].end();                       // end of row k
             coliterator kj = ILU[(*ik).first].find((*ik).first);                       // diagonal in k
+            if (kj==endk)
+              DUNE_THROW(ISTLError,"diagonal entry missing");
             for (++kj; kj!=endk; ++kj)                       // row k eliminates in row i
             {
               // we misuse the storage to store an int. If the field_type is std::complex, we have to access the real/abs part
-- 
2.43.0


From dde63fcc47fb7ffced5c3479b39201cbdfb93f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 18/81] fix: MatrixBlockError of the DILU decomposition had no
 column index

---
 dune/istl/dilu.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/dilu.hh b/dune/istl/dilu.hh
index 9820b50..f5475e9 100644
--- a/dune/istl/dilu.hh
+++ b/dune/istl/dilu.hh
@@ -90,6 +90,7 @@ namespace Dune
           MatrixBlockError ex;
           ex.message(sstream.str());
           ex.r = row_i;
+          ex.c = row_i;
           throw ex;
         }
       }
-- 
2.43.0


From 391926ba7a837fb440812f3ccb57e290ab2004a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:41 +0000
Subject: [PATCH 19/81] fix: converting a second matrix into the same ILU::CRS
 kept the old entries

---
 dune/istl/ilu.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 8e752fa..76172d8 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -283,11 +283,11 @@ namespace Dune {
 
       void resize( const size_type nRows )
       {
-          if( nRows_ != nRows )
-          {
-            nRows_ = nRows ;
-            rows_.resize( nRows_+1, size_type(-1) );
-          }
+          nRows_ = nRows ;
+          rows_.assign( nRows_+1, size_type(-1) );
+          // drop the entries of a matrix stored before
+          values_.clear();
+          cols_.clear();
       }
 
       void reserveAdditional( const size_type nonZeros )
-- 
2.43.0


From 2fa9e635e89025fe3a8d53eeb350bdaddc0f6229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 20/81] fix: GeneralizedPCGSolver did not stop at convergence,
 exceeded zero iterations and hung with restart=1

---
 dune/istl/solvers.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..698dd1e 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1394,15 +1394,17 @@ private:
       _prec->pre(x,b);                 // prepare preconditioner
       _op->applyscaleadd(-1,x,b);      // overwrite b with defect
 
-      std::vector<std::shared_ptr<X> > p(_restart);
-      std::vector<field_type,fAlloc> pp(_restart);
+      // at least the last and the new search direction are stored
+      const int restart = std::max(_restart,2);
+      std::vector<std::shared_ptr<X> > p(restart);
+      std::vector<field_type,fAlloc> pp(restart);
       X q(x);                  // a temporary vector
       X prec_res(x);           // a temporary vector for preconditioner output
 
       p[0].reset(new X(x));
 
       real_type def = _sp->norm(b);    // compute norm
-      if(iteration.step(0, def)){
+      if(iteration.step(0, def) || _maxit < 1){
         _prec->post(x);
         return;
       }
@@ -1430,7 +1432,7 @@ private:
 
       while(i<_maxit) {
         // the loop
-        int end=std::min(_restart, _maxit-i+1);
+        int end=std::min(restart, _maxit-i+1);
         for (int ii = 1; ii < end; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
@@ -1458,13 +1460,14 @@ private:
           def = _sp->norm(b);        // comp defect norm
 
           ++i;
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
         }
         if(res.converged)
           break;
-        if(end==_restart) {
-          *(p[0])=*(p[_restart-1]);
-          pp[0]=pp[_restart-1];
+        if(end==restart) {
+          *(p[0])=*(p[restart-1]);
+          pp[0]=pp[restart-1];
         }
       }
 
-- 
2.43.0


From 3b924e8c748ca8f6168f4b6fbf9b2268ce5d18b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 21/81] fix: flexible CG solvers did not stop at convergence,
 RestartedFCGSolver hung with mmax=0

---
 dune/istl/solvers.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 698dd1e..4c5e567 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1629,7 +1629,8 @@ private:
           // convergence test
           def = _sp->norm(b); // comp defect norm
 
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
           i++;
         }
         //restart: exchange first and last stored values
@@ -1654,7 +1655,7 @@ private:
     // This function is called every mmax iterations to handle limited array sizes.
     virtual void cycle(std::vector<X>& Ad,std::vector<X>& d,std::vector<field_type,ReboundAllocatorType<X,field_type> >& ddotAd,int& i_bounded) {
       // Reset loop index and exchange the first and last arrays
-      i_bounded = 1;
+      i_bounded = std::min(1,_mmax);
       std::swap(Ad[0], Ad[_mmax]);
       std::swap(d[0], d[_mmax]);
       std::swap(ddotAd[0], ddotAd[_mmax]);
-- 
2.43.0


From 1ed0b688efd8811beead85b326b5320ea8904782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 22/81] fix: GMRes solvers restarted with a stale defect if a
 single iteration was left

---
 dune/istl/solvers.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 4c5e567..16d7b11 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1014,7 +1014,7 @@ namespace Dune {
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
         // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1259,7 +1259,7 @@ namespace Dune {
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
         // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From 346fb88b116becba6bb68953851fbb6ad89651aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:50 +0000
Subject: [PATCH 23/81] fix: no convergence reported without a valid defect, no
 NaN reported for a zero initial defect

---
 dune/istl/solver.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..cd549ec 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -480,9 +480,9 @@ namespace Dune
 
     protected:
       void finalize(){
-        _res.converged = (Simd::allTrue(_def<_def0*_parent._reduction || _def<real_type(1E-30)));
+        // _res.converged is the outcome of the last (successful) step
         _res.iterations = _i;
-        _res.reduction = static_cast<double>(Simd::max(_def/_def0));
+        _res.reduction = static_cast<double>(Simd::max(Simd::cond(_def0==real_type(0.), real_type(0.), real_type(_def/_def0))));
         _res.conv_rate  = pow(_res.reduction,1.0/_i);
         _res.elapsed = _watch.elapsed();
         if (_parent._verbose>0)                 // final print
-- 
2.43.0


From 0cce9b0f5f0e3d3f37944df28c8ba84c3477feb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:00 +0000
Subject: [PATCH 24/81] fix: reduction given to a single solve was ignored by
 the GMRes solvers and kept after an abort

---
 dune/istl/solver.hh  |  9 +++++++--
 dune/istl/solvers.hh | 20 +++++---------------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index cd549ec..784793c 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -375,10 +375,15 @@ namespace Dune
      */
     void apply (X& x, X& b, double reduction, InverseOperatorResult& res) override
     {
-      scalar_real_type saved_reduction = _reduction;
+      // restores the configured reduction, also if the solver aborts
+      struct Restore
+      {
+        scalar_real_type& reduction;
+        const scalar_real_type saved;
+        ~Restore() { reduction = saved; }
+      } restore{_reduction, _reduction};
       _reduction = reduction;
       this->apply(x,b,res);
-      _reduction = saved_reduction;
     }
 
     //! Category of the solver (see SolverCategory::Category)
diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 16d7b11..eb31754 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -831,6 +831,9 @@ namespace Dune {
     using typename IterativeSolver<X,Y>::field_type;
     using typename IterativeSolver<X,Y>::real_type;
 
+    // don't shadow four-argument version of apply defined in the base class
+    using IterativeSolver<X,Y>::apply;
+
   protected:
     using typename IterativeSolver<X,X>::scalar_real_type;
 
@@ -908,19 +911,6 @@ namespace Dune {
              breakdown.
      */
     void apply (X& x, Y& b, InverseOperatorResult& res) override
-    {
-      apply(x,b,Simd::max(_reduction),res);
-    }
-
-    /*!
-       \brief Apply inverse operator.
-
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
-
-       \note Currently, the RestartedGMResSolver aborts when it detects a
-             breakdown.
-     */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
@@ -1161,12 +1151,12 @@ namespace Dune {
     /*!
        \brief Apply inverse operator.
 
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
+       \copydoc InverseOperator::apply(X&,Y&,InverseOperatorResult&)
 
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
-- 
2.43.0


From 34cca9f1a2953345af5ce7d34b54ee13e69411ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:49 +0000
Subject: [PATCH 25/81] fix: GMRes and MINRES reported convergence for systems
 with small entries (absolute threshold in plane rotations)

---
 dune/istl/solvers.hh | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index eb31754..aa03d65 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -769,29 +769,28 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy == real_type(0.0),
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy == real_type(0.0),
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
             // dy and dx are real in exact arithmetic
             // thus dx*dy is real so we can explicitly enforce it
-            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dx*dy/norm_dx/norm_dy,
+            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*(dx/norm_dx)*(dy/norm_dy),
             // dy and dx is real in exact arithmetic
             // so we don't have to conjugate both of them
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dy/dx
@@ -1066,27 +1065,26 @@ namespace Dune {
       using std::abs;
       using std::max;
       using std::min;
-      const real_type eps = 1e-15;
       real_type norm_dx = abs(dx);
       real_type norm_dy = abs(dy);
       real_type norm_max = max(norm_dx, norm_dy);
       real_type norm_min = min(norm_dx, norm_dy);
       real_type temp = norm_min/norm_max;
       // we rewrite the code in a vectorizable fashion
-      cs = Simd::cond(norm_dy < eps,
+      cs = Simd::cond(norm_dy == real_type(0.0),
         real_type(1.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           real_type(0.0),
           Simd::cond(norm_dy > norm_dx,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)*temp,
             real_type(1.0)/sqrt(real_type(1.0) + temp*temp)
           )));
-      sn = Simd::cond(norm_dy < eps,
+      sn = Simd::cond(norm_dy == real_type(0.0),
         field_type(0.0),
-        Simd::cond(norm_dx < eps,
+        Simd::cond(norm_dx == real_type(0.0),
           field_type(1.0),
           Simd::cond(norm_dy > norm_dx,
-            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*dx*conjugate(dy)/norm_dx/norm_dy,
+            field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*(dx/norm_dx)*(conjugate(dy)/norm_dy),
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*conjugate(dy/dx)
           )));
     }
-- 
2.43.0


From 82dbabe0961e3222b5db1a14cbbded15869a8956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:40 +0000
Subject: [PATCH 26/81] fix: MINRES compared defects measured in different
 norms

---
 dune/istl/solvers.hh | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index aa03d65..71dd16a 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -641,14 +641,22 @@ namespace Dune {
 
       // calculate preconditioned defect
       _prec->apply(z,b); // r = W^-1 (b - Ax)
-      real_type def = _sp->norm(z);
+
+      // recurrence coefficients as computed in Lanczos algorithm
+      field_type alpha, beta;
+
+      // beta is real and positive in exact arithmetic
+      // since it is the norm of the basis vectors (in unpreconditioned case)
+      beta = sqrt(_sp->dot(b,z));
+      field_type beta0 = beta;
+
+      // the defect is measured in the norm of the preconditioner, as in the loop
+      real_type def = abs(beta0);
       if (iteration.step(0, def)){
         _prec->post(x);
         return;
       }
 
-      // recurrence coefficients as computed in Lanczos algorithm
-      field_type alpha, beta;
         // diagonal entries of givens rotation
       std::array<real_type,2> c{{0.0,0.0}};
         // off-diagonal entries of givens rotation
@@ -660,11 +668,6 @@ namespace Dune {
       // the rhs vector of the min problem
       std::array<field_type,2> xi{{1.0,0.0}};
 
-      // beta is real and positive in exact arithmetic
-      // since it is the norm of the basis vectors (in unpreconditioned case)
-      beta = sqrt(_sp->dot(b,z));
-      field_type beta0 = beta;
-
       // the search directions
       std::array<X,3> p{{b,b,b}};
       p[0] = 0.0;
-- 
2.43.0


From 2875df47cf0a999f7b78ae55c1f50c4bec4b3a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:18 +0000
Subject: [PATCH 27/81] fix: plane rotations of GMRes and MINRES lost invalid
 numbers if the pivot is zero

---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 71dd16a..1ec90cd 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -789,7 +789,8 @@ namespace Dune {
       sn = Simd::cond(norm_dy == real_type(0.0),
         field_type(0.0),
         Simd::cond(norm_dx == real_type(0.0),
-          field_type(1.0),
+          // do not lose an invalid dy
+          field_type(dy/norm_dy),
           Simd::cond(norm_dy > norm_dx,
             // dy and dx are real in exact arithmetic
             // thus dx*dy is real so we can explicitly enforce it
@@ -1085,7 +1086,8 @@ namespace Dune {
       sn = Simd::cond(norm_dy == real_type(0.0),
         field_type(0.0),
         Simd::cond(norm_dx == real_type(0.0),
-          field_type(1.0),
+          // do not lose an invalid dy
+          field_type(conjugate(dy)/norm_dy),
           Simd::cond(norm_dy > norm_dx,
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*(dx/norm_dx)*(conjugate(dy)/norm_dy),
             field_type(1.0)/sqrt(real_type(1.0) + temp*temp)*conjugate(dy/dx)
-- 
2.43.0


From 1436e899d136005241168109ce854b5839ead95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:17 +0000
Subject: [PATCH 28/81] fix: BCCSMatrix copies shared storage, assignment left
 dangling pointers and failed for int indices

---
 dune/istl/bccsmatrix.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bccsmatrix.hh b/dune/istl/bccsmatrix.hh
index 39103f8..f14232e 100644
--- a/dune/istl/bccsmatrix.hh
+++ b/dune/istl/bccsmatrix.hh
@@ -37,6 +37,13 @@ namespace Dune::ISTL::Impl
     : N_(0), M_(0), Nnz_(0), values(0), rowindex(0), colstart(0)
     {}
 
+    /** \brief Copy constructor */
+    BCCSMatrix(const BCCSMatrix& mat)
+    : BCCSMatrix()
+    {
+      *this = mat;
+    }
+
     /** @brief Destructor */
     ~BCCSMatrix()
     {
@@ -111,20 +118,22 @@ namespace Dune::ISTL::Impl
     /** \brief Assignment operator */
     BCCSMatrix& operator=(const BCCSMatrix& mat)
     {
+      if(this==&mat)
+        return *this;
       if(N_+M_+Nnz_!=0)
         free();
       N_=mat.N_;
       M_=mat.M_;
       Nnz_= mat.Nnz_;
       if(M_>0) {
-        colstart=new size_type[M_+1];
+        colstart=new Index[M_+1];
         for(size_type i=0; i<=M_; ++i)
           colstart[i]=mat.colstart[i];
       }
 
       if(Nnz_>0) {
         values = new B[Nnz_];
-        rowindex = new size_type[Nnz_];
+        rowindex = new Index[Nnz_];
 
         for(size_type i=0; i<Nnz_; ++i)
           values[i]=mat.values[i];
@@ -141,6 +150,9 @@ namespace Dune::ISTL::Impl
       delete[] values;
       delete[] rowindex;
       delete[] colstart;
+      values = nullptr;
+      rowindex = nullptr;
+      colstart = nullptr;
       N_ = 0;
       M_ = 0;
       Nnz_ = 0;
-- 
2.43.0


From 41e9692ff5ad5ec1da831e2130e27d8f731d61c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:32 +0000
Subject: [PATCH 29/81] fix: number of edges of the subgraph of an empty graph
 was not initialised

---
 dune/istl/paamg/graph.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/graph.hh b/dune/istl/paamg/graph.hh
index 5f712f8..3be6952 100644
--- a/dune/istl/paamg/graph.hh
+++ b/dune/istl/paamg/graph.hh
@@ -1980,7 +1980,7 @@ namespace Dune
 
     template<class G, class T>
     SubGraph<G,T>::SubGraph(const G& graph, const T& excluded)
-      : excluded_(excluded), noVertices_(0), endVertex_(0), maxVertex_(graph.maxVertex())
+      : excluded_(excluded), noVertices_(0), endVertex_(0), noEdges_(0), maxVertex_(graph.maxVertex())
     {
       start_ = new std::ptrdiff_t[graph.noVertices()];
       end_ = new std::ptrdiff_t[graph.noVertices()];
-- 
2.43.0


From 16aa4387d505c4fce9a1abb022c6cd1311317b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:04 +0000
Subject: [PATCH 30/81] fix: never merge a vertex into the pseudo aggregate of
 skipped vertices

---
 dune/istl/paamg/aggregates.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index a71a29e..7dd0e4c 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2173,6 +2173,7 @@ namespace Dune
       Iterator end = graph_->endEdges(vertex);
       for(Iterator edge = graph_->beginEdges(vertex); edge != end; ++edge) {
         if(aggregates[edge.target()] != AggregatesMap<Vertex>::UNAGGREGATED &&
+           aggregates[edge.target()] != AggregatesMap<Vertex>::ISOLATED &&
            graph_->getVertexProperties(edge.target()).isolated() == graph_->getVertexProperties(edge.source()).isolated()) {
           if( graph_->getVertexProperties(vertex).isolated() ||
               ((edge.properties().depends() || edge.properties().influences())
-- 
2.43.0


From e9b2c87366eea59cac3f16f7e544c8a6680cc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 31/81] fix: stop growing an aggregate at its maximum size if
 that is below the minimum

---
 dune/istl/paamg/aggregates.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index 7dd0e4c..f63efc4 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -2284,7 +2284,8 @@ namespace Dune
       using std::min;
 
       std::size_t distance_ =0;
-      while(aggregate_->size() < c.minAggregateSize()&& distance_<c.maxDistance()) {
+      while(aggregate_->size() < c.minAggregateSize() && aggregate_->size() < c.maxAggregateSize()
+            && distance_<c.maxDistance()) {
         int maxTwoCons=0, maxOneCons=0, maxNeighbours=-1;
         double maxCon=-1;
 
-- 
2.43.0


From f578297d55c23be1c7838780586afaff58060ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:05 +0000
Subject: [PATCH 32/81] fix: initialize the number of vertices of a default
 constructed AggregatesMap

---
 dune/istl/paamg/aggregates.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/aggregates.hh b/dune/istl/paamg/aggregates.hh
index f63efc4..ab7dc14 100644
--- a/dune/istl/paamg/aggregates.hh
+++ b/dune/istl/paamg/aggregates.hh
@@ -1673,7 +1673,7 @@ namespace Dune
 
     template<class V>
     AggregatesMap<V>::AggregatesMap()
-      : aggregates_(0)
+      : aggregates_(0), noVertices_(0)
     {}
 
     template<class V>
-- 
2.43.0


From 0fec131ec67aa3eb4cc553f7deb01922922da84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 33/81] fix: AMG: do not take ownership of the given coarse
 solver, get the category without a smoother

---
 dune/istl/paamg/amg.hh | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 9142d01..ad9eca7 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -408,14 +408,13 @@ namespace Dune
                          const SmootherArgs& smootherArgs,
                          const Parameters& parms)
       : matrices_(stackobject_to_shared_ptr(matrices)), smootherArgs_(smootherArgs),
-        smoothers_(new Hierarchy<Smoother,A>), solver_(&coarseSolver),
-        rhs_(), lhs_(), update_(), scalarProduct_(0),
+        smoothers_(new Hierarchy<Smoother,A>), solver_(stackobject_to_shared_ptr(coarseSolver)),
+        rhs_(), lhs_(), update_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
         additive(parms.getAdditive()), coarsesolverconverged(true),
         coarseSmoother_(),
-// #warning should category be retrieved from matrices?
-        category_(SolverCategory::category(*smoothers_->coarsest())),
+        category_(SolverCategory::category(*matrices.parallelInformation().finest())),
         verbosity_(parms.debugLevel())
     {
       assert(matrices_->isBuilt());
-- 
2.43.0


From 60270aa66a5529c3a997a3c44bff4caf9648040a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 34/81] fix: FastAMG: do not take ownership of the given coarse
 solver

---
 dune/istl/paamg/fastamg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 84621a8..9a0673f 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -319,7 +319,7 @@ namespace Dune
     template<class M, class X, class PI, class A>
     FastAMG<M,X,PI,A>::FastAMG(OperatorHierarchy& matrices, CoarseSolver& coarseSolver,
                                const Parameters& parms, bool symmetric_)
-      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(&coarseSolver),
+      : matrices_(stackobject_to_shared_ptr(matrices)), solver_(stackobject_to_shared_ptr(coarseSolver)),
         rhs_(), lhs_(), residual_(), scalarProduct_(),
         gamma_(parms.getGamma()), preSteps_(parms.getNoPreSmoothSteps()),
         postSteps_(parms.getNoPostSmoothSteps()), buildHierarchy_(false),
-- 
2.43.0


From 462e551e41e5eb705f7e424400ac18cddd946135 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 35/81] fix: AMG, FastAMG: a failed coarse solve spoiled all
 later applications

---
 dune/istl/paamg/amg.hh     | 2 ++
 dune/istl/paamg/fastamg.hh | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index ad9eca7..009a03d 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -888,6 +888,8 @@ namespace Dune
     void AMG<M,X,S,PI,A>::apply(Domain& v, const Range& d)
     {
       LevelContext levelContext;
+      // only the coarse solves of this application matter
+      coarsesolverconverged=true;
 
       if(additive) {
         *(rhs_->finest())=d;
diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 9a0673f..7b42f89 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -515,6 +515,8 @@ namespace Dune
 
       assert(v.two_norm()==0);
 
+      // only the coarse solves of this application matter
+      coarsesolverconverged=true;
       level=0;
       if(matrices_->maxlevels()==1){
         // The coarse solver might modify the d!
-- 
2.43.0


From 6705dacfe7c6fa6bdbcaad38e2253c8ff70525a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 36/81] fix: AMG: start the additive coarse solve from zero

---
 dune/istl/paamg/amg.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 009a03d..94e7e27 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1117,6 +1117,8 @@ namespace Dune
       // Coarse level solve
 #ifndef DUNE_AMG_NO_COARSEGRIDCORRECTION
       InverseOperatorResult res;
+      // start from zero instead of the correction of the previous application
+      *lhs=0;
       pinfo->copyOwnerToAll(*rhs, *rhs);
       solver_->apply(*lhs, *rhs, res);
 
-- 
2.43.0


From 374a7d3d103b02d0a6758c939fb84af8f2084602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 37/81] fix: FastAMG: W-cycle dereferenced the end of the
 hierarchy and ignored the first correction

---
 dune/istl/paamg/fastamg.hh | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 7b42f89..4cc9d6c 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -602,6 +602,7 @@ namespace Dune
         --levelContext.level;
         //prolongate and add the correction (update is in coarse left hand side)
         --levelContext.matrix;
+        --levelContext.pinfo;
         --levelContext.residual;
 
       }
@@ -694,8 +695,17 @@ namespace Dune
 
         if(processNextLevel) {
           // next level
-          for(std::size_t i=0; i<gamma_; i++)
-            mgc(levelContext, *levelContext.lhs, *levelContext.rhs);
+          mgc(levelContext, *levelContext.lhs, *levelContext.rhs);
+          if (levelContext.matrix != matrices_->matrices().coarsest() || levels()<maxlevels())
+            for(std::size_t i=1; i<gamma_; i++) {
+              // the smoothers start from zero, therefore solve for the defect
+              Range defect(*levelContext.rhs);
+              levelContext.matrix->applyscaleadd(-1., *levelContext.lhs, defect);
+              Domain update(*levelContext.lhs);
+              update=0;
+              mgc(levelContext, update, defect);
+              *levelContext.lhs += update;
+            }
         }
 
         moveToFineLevel(levelContext, processNextLevel, v);
-- 
2.43.0


From eb1eef516a7c19b40d0e6acbc29400bd4d5a53f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 38/81] fix: FastAMG: use the transposed block for the entries
 above the diagonal

---
 dune/istl/paamg/fastamgsmoother.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamgsmoother.hh b/dune/istl/paamg/fastamgsmoother.hh
index b7c157e..57c529b 100644
--- a/dune/istl/paamg/fastamgsmoother.hh
+++ b/dune/istl/paamg/fastamgsmoother.hh
@@ -43,7 +43,7 @@ namespace Dune
 
           // Update residual for the symmetric case
           for(col=(*row).begin(); col.index()<row.index(); ++col)
-            col->mmv(*xIter, d[col.index()]);     //d_j-=A_ij x_i
+            col->mmtv(*xIter, d[col.index()]);     //d_j-=A_ji x_i, A_ji=A_ij^T
         }
       }
     };
-- 
2.43.0


From 97e37634fb65686c1f8d9c3a0d70edf6f5c1db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 39/81] fix: Hierarchy::addFiner did not compile

---
 dune/istl/paamg/hierarchy.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/hierarchy.hh b/dune/istl/paamg/hierarchy.hh
index e3f8d82..7061d83 100644
--- a/dune/istl/paamg/hierarchy.hh
+++ b/dune/istl/paamg/hierarchy.hh
@@ -366,13 +366,13 @@ namespace Dune
         // allocate into the shared_ptr
         originalFinest_ = ConstructionTraits<MemberType>::construct(args);
         finest_ = std::allocate_shared<Element>(allocator_);
-        finest_->element = originalFinest_;
+        finest_->element_ = originalFinest_;
         coarsest_ = finest_;
       }else{
         finest_->finer_ = std::allocate_shared<Element>(allocator_);
         finest_->finer_->coarser_ = finest_;
         finest_ = finest_->finer_;
-        finest_->element = ConstructionTraits<T>::construct(args);
+        finest_->element_ = ConstructionTraits<T>::construct(args);
       }
       ++levels_;
     }
-- 
2.43.0


From 6a7e25cb6762230c975b0da73378cdf45774a5ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 40/81] fix: KAmgTwoGrid::coarseSolver did not compile

---
 dune/istl/paamg/kamg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 2676909..0512bc4 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -94,7 +94,7 @@ namespace Dune
        */
       InverseOperator<Domain,Range>* coarseSolver()
       {
-        return coarseSolver_;
+        return coarseSolver_.get();
       }
 
       /**
-- 
2.43.0


From 751d11a23899c96d951f4c46fedbc98bd2823a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 41/81] fix: KAMG: release the solvers of the levels in post

---
 dune/istl/paamg/kamg.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/paamg/kamg.hh b/dune/istl/paamg/kamg.hh
index 0512bc4..0a6818e 100644
--- a/dune/istl/paamg/kamg.hh
+++ b/dune/istl/paamg/kamg.hh
@@ -293,6 +293,8 @@ namespace Dune
     void KAMG<M,X,S,P,K,A>::post(Domain& x)
     {
       amg.post(x);
+      ksolvers.clear();
+      scalarproducts.clear();
 
     }
 
-- 
2.43.0


From 169b7c4754e7d6aea60459fe77fda7848aa27b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 42/81] fix: MatrixHierarchy: initialize the state, allow
 destruction before build

---
 dune/istl/paamg/matrixhierarchy.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 6f62666..52662a9 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -392,7 +392,8 @@ namespace Dune
     MatrixHierarchy<M,IS,A>::MatrixHierarchy(std::shared_ptr<MatrixOperator> fineMatrix,
                                              std::shared_ptr<ParallelInformation> pinfo)
       : matrices_(fineMatrix),
-        parallelInformation_(pinfo)
+        parallelInformation_(pinfo),
+        built_(false), maxlevels_(1), prolongDamp_(1.0)
     {
       if (SolverCategory::category(*fineMatrix) != SolverCategory::category(*pinfo))
         DUNE_THROW(ISTLError, "MatrixOperator and ParallelInformation must belong to the same category!");
@@ -837,7 +838,9 @@ namespace Dune
         (*amap)->free();
         delete *amap;
       }
-      delete *amap;
+      // nothing to free if build was never called
+      if(amap != aggregatesMaps_.rend())
+        delete *amap;
     }
 
     template<class M, class IS, class A>
-- 
2.43.0


From 967cc970e34cca3fef7efa030be4b2e36eaecbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 43/81] fix: coarsest aggregate numbers of a hierarchy with one
 level

---
 dune/istl/paamg/matrixhierarchy.hh | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/dune/istl/paamg/matrixhierarchy.hh b/dune/istl/paamg/matrixhierarchy.hh
index 52662a9..3c6d9cd 100644
--- a/dune/istl/paamg/matrixhierarchy.hh
+++ b/dune/istl/paamg/matrixhierarchy.hh
@@ -770,14 +770,20 @@ namespace Dune
 
       // Number the unknowns on the coarsest level consecutively for each process.
       if(levels==maxlevels) {
-        const AggregatesMap& map = *(*(++aggregatesMaps().rbegin()));
         std::size_t m=0;
 
-        for(typename AggregatesMap::const_iterator iter = map.begin(); iter != map.end(); ++iter)
-          if(*iter< AggregatesMap::ISOLATED)
-            m=std::max(*iter,m);
+        if(levels==1)
+          // no coarsening, the finest level is the coarsest one
+          m=matrices_.finest()->getmat().N();
+        else {
+          const AggregatesMap& map = *(*(++aggregatesMaps().rbegin()));
 
-        coarse->resize(m+1);
+          for(typename AggregatesMap::const_iterator iter = map.begin(); iter != map.end(); ++iter)
+            if(*iter< AggregatesMap::ISOLATED)
+              m=std::max(*iter+1,m);
+        }
+
+        coarse->resize(m);
         std::size_t i=0;
         srand((unsigned)std::clock());
         std::set<size_t> used;
-- 
2.43.0


From e7b0a42a91153c3fb24aba11c7c2ff4f4298b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:59 +0000
Subject: [PATCH 44/81] fix: copying a used OneStepAMG coarse solver led to
 null pointer access

---
 dune/istl/paamg/twolevelmethod.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 336f4a4..25533f6 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -301,8 +301,9 @@ private:
         amg_.post(x_);
     }
     AMGInverseOperator(const AMGInverseOperator& other)
-    : x_(other.x_), amg_(other.amg_), first_(other.first_)
+    : x_(other.x_), amg_(other.amg_), first_(true)
     {
+      // the copied AMG has no vectors until its pre method is called
     }
   private:
     X x_;
-- 
2.43.0


From 31302053a88e459e4cecfa692ad9537541fd6f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:09 +0000
Subject: [PATCH 45/81] fix: make UMFPack::apply on flat arrays compile for
 complex numbers

---
 dune/istl/umfpack.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index 416d7af..eeceffa 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -470,8 +470,8 @@ namespace Dune {
                     umfpackMatrix_.getColStart(),
                     umfpackMatrix_.getRowIndex(),
                     umfpackMatrix_.getValues(),
-                    x,
-                    b,
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
                     UMF_Numeric,
                     UMF_Control,
                     UMF_Apply_Info);
-- 
2.43.0


From 4614d20b672056ef9f88b18bd70c1c9541b90859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:07 +0000
Subject: [PATCH 46/81] fix: apply UMFPack decompositions loaded from a file

---
 dune/istl/umfpack.hh | 44 ++++++++++++++++++++++++--------------------
 1 file changed, 24 insertions(+), 20 deletions(-)

diff --git a/dune/istl/umfpack.hh b/dune/istl/umfpack.hh
index eeceffa..76b87af 100644
--- a/dune/istl/umfpack.hh
+++ b/dune/istl/umfpack.hh
@@ -402,9 +402,10 @@ namespace Dune {
      */
     void apply(domain_type& x, range_type& b, InverseOperatorResult& res) override
     {
-      if (umfpackMatrix_.N() != b.dim())
+      // the size of a decomposition loaded from a file is not known
+      if (!matrixIsLoaded_ && umfpackMatrix_.N() != b.dim())
         DUNE_THROW(Dune::ISTLError, "Size of right-hand-side vector b does not match the number of matrix rows!");
-      if (umfpackMatrix_.M() != x.dim())
+      if (!matrixIsLoaded_ && umfpackMatrix_.M() != x.dim())
         DUNE_THROW(Dune::ISTLError, "Size of solution vector x does not match the number of matrix columns!");
       if (b.size() == 0)
         return;
@@ -424,15 +425,7 @@ namespace Dune {
       });
 
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(&xFlat[0]),
-                    reinterpret_cast<double*>(&bFlat[0]),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(&xFlat[0], &bFlat[0], UMF_Apply_Info);
 
       // copy back to blocked vector
       flatVectorForEach(x, [&](auto&& entry, auto offset)
@@ -466,15 +459,7 @@ namespace Dune {
     void apply(T* x, T* b)
     {
       double UMF_Apply_Info[UMFPACK_INFO];
-      Caller::solve(UMFPACK_A,
-                    umfpackMatrix_.getColStart(),
-                    umfpackMatrix_.getRowIndex(),
-                    umfpackMatrix_.getValues(),
-                    reinterpret_cast<double*>(x),
-                    reinterpret_cast<double*>(b),
-                    UMF_Numeric,
-                    UMF_Control,
-                    UMF_Apply_Info);
+      solve(x, b, UMF_Apply_Info);
       printOnApply(UMF_Apply_Info);
     }
 
@@ -761,6 +746,25 @@ namespace Dune {
       }
     }
 
+    /** @brief solves with the current decomposition */
+    void solve(T* x, T* b, double* info)
+    {
+      // a decomposition loaded from a file comes without the matrix needed for iterative refinement
+      const double refinementSteps = UMF_Control[UMFPACK_IRSTEP];
+      if (matrixIsLoaded_)
+        UMF_Control[UMFPACK_IRSTEP] = 0;
+      Caller::solve(UMFPACK_A,
+                    umfpackMatrix_.getColStart(),
+                    umfpackMatrix_.getRowIndex(),
+                    umfpackMatrix_.getValues(),
+                    reinterpret_cast<double*>(x),
+                    reinterpret_cast<double*>(b),
+                    UMF_Numeric,
+                    UMF_Control,
+                    info);
+      UMF_Control[UMFPACK_IRSTEP] = refinementSteps;
+    }
+
     void printOnApply(double* UMF_Info)
     {
       Caller::report_status(UMF_Control,UMF_Info[UMFPACK_STATUS]);
-- 
2.43.0


From 132c4bd9d25e1017a6375030adf8a0c2ff7460cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:26 +0000
Subject: [PATCH 47/81] fix: construct, copy and reset SuperLUMatrix objects

---
 dune/istl/supermatrix.hh | 49 +++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/dune/istl/supermatrix.hh b/dune/istl/supermatrix.hh
index 7df48fe..bbe3f97 100644
--- a/dune/istl/supermatrix.hh
+++ b/dune/istl/supermatrix.hh
@@ -209,8 +209,18 @@ namespace Dune
      * @brief Constructor that initializes the data.
      * @param mat The matrix to convert.
      */
-    explicit SuperLUMatrix(const Matrix& mat) : ISTL::Impl::BCCSMatrix<BCRSMatrix<B,TA>, int>(mat)
-    {}
+    explicit SuperLUMatrix(const Matrix& mat)
+    {
+      *this = mat;
+    }
+
+    /** @brief Copy constructor, the copy refers to its own data. */
+    SuperLUMatrix(const SuperLUMatrix& mat)
+      : ISTL::Impl::BCCSMatrix<typename BCRSMatrix<B,TA>::field_type, int>(mat)
+    {
+      if (this->N_ + this->M_ + this->Nnz_!=0)
+        createSuperMatrix();
+    }
 
     SuperLUMatrix() : ISTL::Impl::BCCSMatrix<typename BCRSMatrix<B,TA>::field_type, int>()
     {}
@@ -218,7 +228,7 @@ namespace Dune
     /** @brief Destructor */
     virtual ~SuperLUMatrix()
     {
-      if (this->N_+this->M_*this->Nnz_ != 0)
+      if (this->N_ + this->M_ + this->Nnz_!=0)
         free();
     }
 
@@ -246,29 +256,21 @@ namespace Dune
 
       copyToBCCSMatrix(initializer, mat);
 
-      SuperMatrixCreateSparseChooser<typename Matrix::field_type>
-           ::create(&A, this->N_, this->M_, this->colstart[this->N_],
-             this->values,this->rowindex, this->colstart, SLU_NC,
-             static_cast<Dtype_t>(GetSuperLUType<typename Matrix::field_type>::type), SLU_GE);
+      createSuperMatrix();
       return *this;
     }
 
     SuperLUMatrix<BCRSMatrix<B,TA> >& operator=(const SuperLUMatrix <BCRSMatrix<B,TA> >& mat)
     {
+      if (this == &mat)
+        return *this;
+
       if (this->N_ + this->M_ + this->Nnz_!=0)
         free();
 
-      using Matrix = BCRSMatrix<B,TA>;
-      this->N_ = MatrixDimension<Matrix>::rowdim(mat);
-      this->M_ = MatrixDimension<Matrix>::coldim(mat);
-      ISTL::Impl::BCCSMatrixInitializer<Matrix, int> initializer(*this);
-
-      copyToBCCSMatrix(initializer, mat);
-
-      SuperMatrixCreateSparseChooser<B>
-           ::create(&A, this->N_, this->M_, this->colstart[this->N_],
-             this->values,this->rowindex, this->colstart, SLU_NC,
-             static_cast<Dtype_t>(GetSuperLUType<B>::type), SLU_GE);
+      ISTL::Impl::BCCSMatrix<typename BCRSMatrix<B,TA>::field_type, int>::operator=(mat);
+      if (this->N_ + this->M_ + this->Nnz_!=0)
+        createSuperMatrix();
       return *this;
     }
 
@@ -292,6 +294,8 @@ namespace Dune
     /** @brief Initialize data from given matrix. */
     virtual void setMatrix(const Matrix& mat)
     {
+      if (this->N_ + this->M_ + this->Nnz_!=0)
+        free();
       this->N_=MatrixDimension<Matrix>::rowdim(mat);
       this->M_=MatrixDimension<Matrix>::coldim(mat);
       SuperMatrixInitializer<Matrix> initializer(*this);
@@ -306,6 +310,15 @@ namespace Dune
       SUPERLU_FREE(A.Store);
     }
   private:
+    //! @brief set up the SuperLU view of the stored data
+    void createSuperMatrix()
+    {
+      SuperMatrixCreateSparseChooser<typename Matrix::field_type>
+           ::create(&A, this->N_, this->M_, this->colstart[this->M_],
+             this->values,this->rowindex, this->colstart, SLU_NC,
+             static_cast<Dtype_t>(GetSuperLUType<typename Matrix::field_type>::type), SLU_GE);
+    }
+
     SuperMatrix A;
   };
 
-- 
2.43.0


From 94bcda6fbc7e1018371183410c875193ac862bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:10 +0000
Subject: [PATCH 48/81] fix: release the previous factorization and index map
 in Cholmod::setMatrix

---
 dune/istl/cholmod.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dune/istl/cholmod.hh b/dune/istl/cholmod.hh
index bfc8457..7eb0d62 100644
--- a/dune/istl/cholmod.hh
+++ b/dune/istl/cholmod.hh
@@ -342,6 +342,11 @@ public:
   template<class Matrix, class Ignore>
   void setMatrix(const Matrix& matrix, const Ignore* ignore)
   {
+    // forget the previous matrix
+    if (L_)
+      CholmodMethod::free_factor(&L_, &c_);
+    subIndices_.clear();
+
     // count the number of entries and diagonal entries
     size_t nonZeros = 0;
     size_t numberOfIgnoredDofs = 0;
-- 
2.43.0


From 9fcb87e55d94b08d065a7b87eb328cc75863d843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:24 +0000
Subject: [PATCH 49/81] fix: SPQR: allocate complex matrices and vectors for
 complex numbers, release the common object

---
 dune/istl/spqr.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/spqr.hh b/dune/istl/spqr.hh
index 98bbf47..a6a5903 100644
--- a/dune/istl/spqr.hh
+++ b/dune/istl/spqr.hh
@@ -149,6 +149,7 @@ namespace Dune {
       if ((spqrMatrix_.N() + spqrMatrix_.M() > 0) || matrixIsLoaded_)
         free();
       cholmod_l_finish(cc_);
+      delete cc_;
     }
 
     /** \copydoc InverseOperator::apply(X&, Y&, InverseOperatorResult&) */
@@ -290,8 +291,9 @@ namespace Dune {
       const std::size_t ncols(spqrMatrix_.M());
       const std::size_t nnz(spqrMatrix_.getColStart()[ncols]);
 
-      // initialise the matrix A (sorted, packed, unsymmetric, real entries)
-      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, 1, cc_);
+      // initialise the matrix A (sorted, packed, unsymmetric, real or complex entries)
+      const int xtype = std::is_same<T,double>::value ? CHOLMOD_REAL : CHOLMOD_COMPLEX;
+      A_ = cholmod_l_allocate_sparse(nrows, ncols, nnz, 1, 1, 0, xtype, cc_);
 
       // copy all the entries of Ap, Ai, Ax
       for(std::size_t k = 0; k != (ncols+1); ++k)
-- 
2.43.0


From f32245effe9a58e9f1bad390892fdf6ee43aae8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:19 +0000
Subject: [PATCH 50/81] fix: compile ILUNSubdomainSolver, ILU(n) into a matrix
 with a given number of nonzeroes

copyToLocalMatrix was looked up as an unqualified name of the dependent base
class. blockILUDecomposition stored the generation numbers in the values of
the new matrix, which do not exist before the last row is created if the
number of nonzeroes was specified, and wrote to a null pointer.
---
 dune/istl/ilu.hh                | 26 ++++++++++----------------
 dune/istl/ilusubdomainsolver.hh |  2 +-
 2 files changed, 11 insertions(+), 17 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 76172d8..1b6fa56 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -180,16 +180,17 @@ namespace Dune {
       typedef typename M::ConstRowIterator crowiterator;
       typedef typename M::ConstColIterator ccoliterator;
       typedef typename M::CreateIterator createiterator;
-      typedef typename M::field_type K;
       typedef std::map<size_t, int> map;
       typedef typename map::iterator mapiterator;
 
-      // symbolic factorization phase, store generation number in first matrix element
+      // symbolic factorization phase. The generation numbers cannot be stored in the matrix, because
+      // a matrix with a given number of nonzeroes has no values before its last row is created.
+      std::vector<map> generations(A.N());
       crowiterator endi=A.end();
       createiterator ci=ILU.createbegin();
       for (crowiterator i=A.begin(); i!=endi; ++i)
       {
-        map rowpattern; // maps column index to generation
+        map& rowpattern = generations[i.index()]; // maps column index to generation
 
         // initialize pattern with row of A
         for (ccoliterator j=(*i).begin(); j!=(*i).end(); ++j)
@@ -200,22 +201,20 @@ namespace Dune {
         {
           if ((*ik).second<n)
           {
-            coliterator endk = ILU[(*ik).first].end();                       // end of row k
-            coliterator kj = ILU[(*ik).first].find((*ik).first);                       // diagonal in k
+            map& row_k = generations[(*ik).first];
+            mapiterator endk = row_k.end();                       // end of row k
+            mapiterator kj = row_k.find((*ik).first);                       // diagonal in k
             if (kj==endk)
               DUNE_THROW(ISTLError,"diagonal entry missing");
             for (++kj; kj!=endk; ++kj)                       // row k eliminates in row i
             {
-              // we misuse the storage to store an int. If the field_type is std::complex, we have to access the real/abs part
-              // starting from C++11, we can use std::abs to always return a real value, even if it is double/float
-              using std::abs;
-              int generation = (int) Simd::lane(0, abs( firstMatrixElement(*kj) ));
+              int generation = (*kj).second;
               if (generation<n)
               {
-                mapiterator ij = rowpattern.find(kj.index());
+                mapiterator ij = rowpattern.find((*kj).first);
                 if (ij==rowpattern.end())
                 {
-                  rowpattern[kj.index()] = generation+1;
+                  rowpattern[(*kj).first] = generation+1;
                 }
               }
             }
@@ -226,11 +225,6 @@ namespace Dune {
         for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
           ci.insert((*ik).first);
         ++ci;           // now row i exist
-
-        // write generation index into entries
-        coliterator endILUij = ILU[i.index()].end();;
-        for (coliterator ILUij=ILU[i.index()].begin(); ILUij!=endILUij; ++ILUij)
-          Simd::lane(0, firstMatrixElement(*ILUij)) = (Simd::Scalar<K>) rowpattern[ILUij.index()];
       }
 
       // copy entries of A
diff --git a/dune/istl/ilusubdomainsolver.hh b/dune/istl/ilusubdomainsolver.hh
index 1ea13df..a320603 100644
--- a/dune/istl/ilusubdomainsolver.hh
+++ b/dune/istl/ilusubdomainsolver.hh
@@ -228,7 +228,7 @@ namespace Dune {
   template<class S>
   void ILUNSubdomainSolver<M,X,Y>::setSubMatrix(const M& A, S& rowSet)
   {
-    std::size_t offset=copyToLocalMatrix(A,rowSet);
+    std::size_t offset=this->copyToLocalMatrix(A,rowSet);
     RILU.setSize(rowSet.size(),rowSet.size(), (1+2*offset)*rowSet.size());
     RILU.setBuildMode(matrix_type::row_wise);
     ILU::blockILUDecomposition(this->ILU, (offset+1)/2, RILU);
-- 
2.43.0


From 746cd2d403acd80ebce7237dfc106d7fc2c74a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:02 +0000
Subject: [PATCH 51/81] fix: DynamicMatrixSubdomainSolver: relax each entry
 once, store numbers instead of blocks

In the multiplicative modes all entries of the local update were multiplied
by the relaxation factor once for each row of the subdomain. The local dense
matrix stored blocks, so blocks larger than 1x1 could not be used.
---
 dune/istl/overlappingschwarz.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/overlappingschwarz.hh b/dune/istl/overlappingschwarz.hh
index 8b52620..564271a 100644
--- a/dune/istl/overlappingschwarz.hh
+++ b/dune/istl/overlappingschwarz.hh
@@ -207,7 +207,7 @@ namespace Dune
       }
     }
   private:
-    DynamicMatrix<K> A;
+    DynamicMatrix<field_type> A;
   };
 
   template<typename T, bool tag>
@@ -1324,7 +1324,8 @@ namespace Dune
   OverlappingAssignerHelper< DynamicMatrixSubdomainSolver< BCRSMatrix< K, Al>, X, Y >,false>
   ::relaxResult(field_type relax)
   {
-    lhs() *= relax;
+    for(size_type j=0; j<n; ++j)
+      lhs()[i+j] *= relax;
   }
 
   template<class K, class Al, class X, class Y>
-- 
2.43.0


From d7a5429352bd0490d7c9bc0171c22d1effcf2443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 52/81] fix: AMG: read minCoarseningRate as the real number it
 is

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 94e7e27..d02f657 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -541,7 +541,7 @@ namespace Dune
         criterion.setMaxLevel(configuration.get<int>("maxLevel"));
 
       if (configuration.hasKey ("minCoarseningRate"))
-        criterion.setMinCoarsenRate(configuration.get<int>("minCoarseningRate"));
+        criterion.setMinCoarsenRate(configuration.get<double>("minCoarseningRate"));
 
       if (configuration.hasKey ("coarsenTarget"))
         criterion.setCoarsenTarget (configuration.get<int>("coarsenTarget"));
-- 
2.43.0


From 99f7733aca39305a35136ca26c6ddadcb500866f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 53/81] fix: AMG: accumulationMode "successive" sets the mode
 instead of the coarsening target

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index d02f657..fb77372 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -554,7 +554,7 @@ namespace Dune
         else if ( mode == "atonce" )
           criterion.setAccumulate(AccumulationMode::atOnceAccu);
         else if ( mode == "successive")
-          criterion.setCoarsenTarget (AccumulationMode::successiveAccu);
+          criterion.setAccumulate(AccumulationMode::successiveAccu);
         else
           DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                      << mode <<".");
-- 
2.43.0


From 026f86720874c84bb34469e4b5bf6c03d1c03d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:31 +0000
Subject: [PATCH 54/81] fix: AMG: default aggregation sizes honour the
 documented key maxAggregateDistance

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index fb77372..dc3056d 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -568,7 +568,7 @@ namespace Dune
         auto mode = ToLower()(configuration.get<std::string>("defaultAggregationSizeMode"));
         auto dim = configuration.get<std::size_t>("defaultAggregationDimension");
         std::size_t maxDistance = 2;
-        if (configuration.hasKey("MaxAggregateDistance"))
+        if (configuration.hasKey("maxAggregateDistance"))
           maxDistance = configuration.get<std::size_t>("maxAggregateDistance");
         if (mode == "isotropic")
           criterion.setDefaultValuesIsotropic(dim, maxDistance);
-- 
2.43.0


From d951d89b79799c1064570ccbc51ccbffd7e785fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 55/81] fix: power iterations: a residual norm that is not a
 number is no convergence

---
 dune/istl/eigenvalue/poweriteration.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index c345dd8..e5d6da3 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -275,7 +275,7 @@ namespace Dune
       m_.mv(x,y);
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also continue if r_norm is not a number
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -425,7 +425,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also continue if r_norm is not a number
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -553,7 +553,7 @@ namespace Dune
       x *= (1.0 / x.two_norm());
       Real r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also continue if r_norm is not a number
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
@@ -726,7 +726,7 @@ namespace Dune
       doRQI = false;
       r_norm = std::numeric_limits<Real>::max();
       nIterations_ = 0;
-      while (r_norm > epsilon)
+      while (!(r_norm <= epsilon)) // also continue if r_norm is not a number
       {
         // update and check number of iterations
         if (++nIterations_ > nIterationsMax_)
-- 
2.43.0


From fd880312985f34308fbc1912dfd4f676de1e35b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 56/81] fix: inverse iteration without shift honours
 avoidLinSolverCrime

---
 dune/istl/eigenvalue/poweriteration.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index e5d6da3..13d8107 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -357,7 +357,8 @@ namespace Dune
                                        BlockVector& x, Real& lambda) const
     {
       constexpr Real gamma = 0.0;
-      applyInverseIteration(gamma,epsilon,solver,x,lambda);
+      applyInverseIteration<ISTLLinearSolver,avoidLinSolverCrime>
+        (gamma,epsilon,solver,x,lambda);
     }
 
     /**
-- 
2.43.0


From c94409b0771a91a9dc7c3ce916fe6e439336478e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:12 +0000
Subject: [PATCH 57/81] fix: power iterations: an iteration matrix requested
 after a shift was set includes the shift

---
 dune/istl/eigenvalue/poweriteration.hh | 43 +++++++++++++++++---------
 1 file changed, 28 insertions(+), 15 deletions(-)

diff --git a/dune/istl/eigenvalue/poweriteration.hh b/dune/istl/eigenvalue/poweriteration.hh
index 13d8107..15170ca 100644
--- a/dune/istl/eigenvalue/poweriteration.hh
+++ b/dune/istl/eigenvalue/poweriteration.hh
@@ -947,7 +947,12 @@ namespace Dune
     {
       // create iteration matrix on demand
       if (!itMatrix_)
+      {
         itMatrix_ = std::make_unique<BCRSMatrix>(m_);
+        // account for a shift which has been set by a previous algorithm
+        if (mu_ != 0.0)
+          updateIterationMatrix();
+      }
 
       // return iteration matrix
       return *itMatrix_;
@@ -993,27 +998,35 @@ namespace Dune
       // update iteration matrix when needed
       if (itMatrix_)
       {
-        // iterate over entries in iteration matrix diagonal
-        constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
-        constexpr int colBlockSize = BCRSMatrix::block_type::cols;
-        for (typename BCRSMatrix::size_type i = 0;
-             i < itMatrix_->M()*rowBlockSize; ++i)
-        {
-          // access m_[i,i] where i is the flat index of a row/column
-          const Real& m_entry = m_
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // access *itMatrix[i,i] where i is the flat index of a row/column
-          Real& entry = (*itMatrix_)
-            [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
-          // change current entry in iteration matrix diagonal
-          entry = m_entry - mu_;
-        }
+        updateIterationMatrix();
         // notify linear solver about change of the iteration matrix object
         SolverHelper<ISTLLinearSolver,BCRSMatrix>::setMatrix
           (solver,*itMatrix_);
       }
     }
 
+    /**
+     * \brief Set the diagonal of the iteration matrix to that of (m_ - mu_*I).
+     */
+    inline void updateIterationMatrix () const
+    {
+      // iterate over entries in iteration matrix diagonal
+      constexpr int rowBlockSize = BCRSMatrix::block_type::rows;
+      constexpr int colBlockSize = BCRSMatrix::block_type::cols;
+      for (typename BCRSMatrix::size_type i = 0;
+           i < itMatrix_->M()*rowBlockSize; ++i)
+      {
+        // access m_[i,i] where i is the flat index of a row/column
+        const Real& m_entry = m_
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // access *itMatrix[i,i] where i is the flat index of a row/column
+        Real& entry = (*itMatrix_)
+          [i/rowBlockSize][i/colBlockSize][i%rowBlockSize][i%colBlockSize];
+        // change current entry in iteration matrix diagonal
+        entry = m_entry - mu_;
+      }
+    }
+
   protected:
     // parameters related to iterative eigenvalue algorithms
     const BCRSMatrix& m_;
-- 
2.43.0


From 0616fa9ed93627c8372db4cfdfb1e64d0698084b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:36 +0000
Subject: [PATCH 58/81] fix: ArPackPlusPlus_Algorithms: rectangular matrices

---
 dune/istl/eigenvalue/arpackpp.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index cc8930a..8b5dfbb 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -63,7 +63,7 @@ namespace Dune
       //! Construct from BCRSMatrix A
       ArPackPlusPlus_BCRSMatrixWrapper (const BCRSMatrix& A)
         : A_(A),
-          m_(A_.M() * mBlock), n_(A_.N() * nBlock)
+          m_(A_.N() * mBlock), n_(A_.M() * nBlock)
       {
         // assert that BCRSMatrix type has blocklevel 2
         static_assert
@@ -72,8 +72,8 @@ namespace Dune
 
         // allocate memory for auxiliary block vector objects
         // which are compatible to matrix rows / columns
-        domainBlockVector.resize(A_.N());
-        rangeBlockVector.resize(A_.M());
+        domainBlockVector.resize(A_.M());
+        rangeBlockVector.resize(A_.N());
       }
 
       //! Perform matrix-vector product w = A*v
-- 
2.43.0


From e1f0b6e99f108f53671110cf99508ee842d273f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:00 +0000
Subject: [PATCH 59/81] fix: ArPackPlusPlus_Algorithms: condition number of
 symmetric matrices that are not positive definite

---
 dune/istl/eigenvalue/arpackpp.hh | 41 ++++++++++++++++++++------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 8b5dfbb..92ed2a4 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -513,38 +513,48 @@ namespace Dune
                    << nrows << "x" << ncols << ").");
 
       // allocate memory for variables, set parameters
-      const int nev = 2;                     // Number of eigenvalues to compute
+      const int nev = 1;                     // Number of eigenvalues to compute per end of the spectrum
       int ncv = std::min(20, nrows);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
       const Real tol = epsilon;              // Stopping tolerance (relative accuracy of Ritz values) (0 == machine precision)
       const int maxit = nIterationsMax_*nev; // Maximum number of Arnoldi update iterations allowed   (0 == 100*nev)
-      Real* ev = new Real[nev];              // Computed eigenvalues of A
+      Real* ev_max = new Real[nev];          // Computed dominant eigenvalue of A
+      Real* ev_min = new Real[nev];          // Computed least dominant eigenvalue of A
       const bool ivec = true;                // Flag deciding if eigenvectors shall be determined
-      int nconv;                             // Number of converged eigenvalues
+      int nconv_max, nconv_min;              // Number of converged eigenvalues
 
-      // define what we need: eigenvalues from both ends of the spectrum
-      char which[] = "BE";
+      // define what we need: the eigenvalues with largest and smallest magnitude
+      // (the ends of the spectrum are not sufficient for indefinite matrices)
+      char which_max[] = "LM";
+      char which_min[] = "SM";
       ARSymStdEig<Real,WrappedMatrix>
-        dprob(nrows, nev, &A, &WrappedMatrix::multMv, which, ncv, tol, maxit);
+        dprob_max(nrows, nev, &A, &WrappedMatrix::multMv, which_max, ncv, tol, maxit);
+      ARSymStdEig<Real,WrappedMatrix>
+        dprob_min(nrows, nev, &A, &WrappedMatrix::multMv, which_min, ncv, tol, maxit);
 
       // set ARPACK verbosity mode if requested
-      if (verbosity_level_ > 3) dprob.Trace();
+      if (verbosity_level_ > 3)
+      {
+        dprob_max.Trace();
+        dprob_min.Trace();
+      }
 
       // find eigenvalues and eigenvectors of A, obtain the eigenvalues
-      nconv = dprob.Eigenvalues(ev,ivec);
+      nconv_max = dprob_max.Eigenvalues(ev_max,ivec);
+      nconv_min = dprob_min.Eigenvalues(ev_min,ivec);
 
       // obtain approximated dominant and least dominant eigenvalue of A
-      const Real& lambda_max = ev[nev-1];
-      const Real& lambda_min = ev[0];
+      const Real& lambda_max = ev_max[nev-1];
+      const Real& lambda_min = ev_min[nev-1];
 
       // obtain associated approximated eigenvectors of A
-      Real* x_max_raw = dprob.RawEigenvector(nev-1);
-      Real* x_min_raw = dprob.RawEigenvector(0);
+      Real* x_max_raw = dprob_max.RawEigenvector(nev-1);
+      Real* x_min_raw = dprob_min.RawEigenvector(nev-1);
 
       // obtain approximated spectral condition number of A
       cond_2 = std::abs(lambda_max / lambda_min);
 
       // obtain number of Arnoldi update iterations actually taken
-      nIterations_ = dprob.GetIter();
+      nIterations_ = dprob_max.GetIter() + dprob_min.GetIter();
 
       // compute each residual norm
       Real* Ax_max_raw = new Real[nrows];
@@ -571,7 +581,7 @@ namespace Dune
                     << "A*x = λ*x using the ARPACK++ class ARSym"
                     << "StdEig:" << std::endl;
           std::cout << blank_ << "       converged eigenvalues of A: "
-                    << nconv << " / " << nev << std::endl;
+                    << nconv_max + nconv_min << " / " << 2*nev << std::endl;
           std::cout << blank_ << "         dominant eigenvalue of A: "
                     << lambda_max << std::endl;
           std::cout << blank_ << "   least dominant eigenvalue of A: "
@@ -590,7 +600,8 @@ namespace Dune
       // free dynamically allocated memory
       delete[] Ax_min_raw;
       delete[] Ax_max_raw;
-      delete[] ev;
+      delete[] ev_min;
+      delete[] ev_max;
     }
 
     /**
-- 
2.43.0


From a9851e2daa25e96468b133cfba7e7f2a00c3647a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:12:00 +0000
Subject: [PATCH 60/81] fix: ArPackPlusPlus_Algorithms: number of Arnoldi
 vectors bounded by the size of the eigenvalue problem

---
 dune/istl/eigenvalue/arpackpp.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dune/istl/eigenvalue/arpackpp.hh b/dune/istl/eigenvalue/arpackpp.hh
index 92ed2a4..7f52190 100644
--- a/dune/istl/eigenvalue/arpackpp.hh
+++ b/dune/istl/eigenvalue/arpackpp.hh
@@ -643,7 +643,7 @@ namespace Dune
 
       // allocate memory for variables, set parameters
       const int nev = 1;                     // Number of eigenvalues to compute
-      int ncv = std::min(20, nrows);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
+      int ncv = std::min(20, ncols);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
       const Real tol = epsilon;              // Stopping tolerance (relative accuracy of Ritz values) (0 == machine precision)
       const int maxit = nIterationsMax_*nev; // Maximum number of Arnoldi update iterations allowed   (0 == 100*nev)
       Real* ev = new Real[nev];              // Computed eigenvalues of A^T*A
@@ -755,7 +755,7 @@ namespace Dune
 
       // allocate memory for variables, set parameters
       const int nev = 1;                     // Number of eigenvalues to compute
-      int ncv = std::min(20, nrows);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
+      int ncv = std::min(20, ncols);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
       const Real tol = epsilon;              // Stopping tolerance (relative accuracy of Ritz values) (0 == machine precision)
       const int maxit = nIterationsMax_*nev; // Maximum number of Arnoldi update iterations allowed   (0 == 100*nev)
       Real* ev = new Real[nev];              // Computed eigenvalues of A^T*A
@@ -863,7 +863,7 @@ namespace Dune
 
       // allocate memory for variables, set parameters
       const int nev = 2;                     // Number of eigenvalues to compute
-      int ncv = std::min(20, nrows);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
+      int ncv = std::min(20, ncols);         // Number of Arnoldi vectors generated at each iteration (0 == auto)
       const Real tol = epsilon;              // Stopping tolerance (relative accuracy of Ritz values) (0 == machine precision)
       const int maxit = nIterationsMax_*nev; // Maximum number of Arnoldi update iterations allowed   (0 == 100*nev)
       Real* ev = new Real[nev];              // Computed eigenvalues of A^T*A
-- 
2.43.0


From a686f413c32ed9ace0f90529d24f5232acd835c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:00 +0000
Subject: [PATCH 61/81] fix: BCRSMatrix: row-wise creation of a matrix without
 rows

---
 dune/istl/bcrsmatrix.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 6b8044a..7f21164 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -961,7 +961,9 @@ namespace Dune {
           {
             Mat.build_mode = row_wise;
           }
-        if (i==0 && Mat.ready != building)
+        // for a matrix without rows begin and end coincide and it is built already by the former
+        const bool emptyAndBuilt = Mat.N()==0 && Mat.ready == built;
+        if (i==0 && Mat.ready != building && !emptyAndBuilt)
           DUNE_THROW(BCRSMatrixError,"creation only allowed for uninitialized matrix");
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
-- 
2.43.0


From 891a31abf882109c454803067df1b490c61ae472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:00 +0000
Subject: [PATCH 62/81] fix: writeMatrixToMatlab: matrices without columns

---
 dune/istl/io.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index d7bd69c..db09029 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -436,7 +436,7 @@ namespace Dune {
     if (colOffset.size() > 0)
       colOffset[0] = 0;
 
-    for (typename MatrixType::size_type i=0; i<matrix.M()-1; i++)
+    for (typename MatrixType::size_type i=0; i+1<matrix.M(); i++)
       colOffset[i+1] = colOffset[i] +
                        MatrixDimension<MatrixType>::coldim(matrix,i);
 
-- 
2.43.0


From 2c78ba5951a9e16526f08c4e52d873789c00b478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:00 +0000
Subject: [PATCH 63/81] fix: writeSVGMatrix: automatic size if neither width
 nor height is given

---
 dune/istl/io.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/io.hh b/dune/istl/io.hh
index db09029..243a3f2 100644
--- a/dune/istl/io.hh
+++ b/dune/istl/io.hh
@@ -553,9 +553,9 @@ namespace Dune {
       // if empty, we try to figure out a sensible value of width and height
       if (opts.width == 0 and opts.height == 0)
         width = height = 500;
-      if (opts.width == 0)
+      else if (opts.width == 0)
         width = opts.height * (double(col_offset) / row_offset);
-      if (opts.height == 0)
+      else if (opts.height == 0)
         height = opts.width * (double(row_offset) / col_offset);
 
       // scale group w.r.t final offsets
-- 
2.43.0


From f47153efba07595c3a98b2d3848424d1c92738b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:44:33 +0000
Subject: [PATCH 64/81] fix: BCRSMatrix: a matrix without rows has no nonzeroes

---
 dune/istl/bcrsmatrix.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 7f21164..b92a618 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -968,8 +968,11 @@ namespace Dune {
         if(Mat.build_mode!=row_wise)
           DUNE_THROW(BCRSMatrixError,"creation only allowed if row wise allocation was requested in the constructor");
         if(i==0 && _Mat.N()==0)
+        {
           // empty Matrix is always built.
-           Mat.ready = built;
+          Mat.ready = built;
+          Mat.nnz_ = 0;
+        }
       }
 
       //! prefix increment
@@ -1497,6 +1500,7 @@ namespace Dune {
       //determine average number of entries and memory usage
       if ( n == 0)
       {
+        nnz_ = 0;
         stats.avg = 0;
         stats.mem_ratio = 1;
       }
-- 
2.43.0


From 78f04e8804ab94fd3a9690ad270d6583ad144a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:15 +0000
Subject: [PATCH 65/81] fix: readMatrixMarket: partially filled blocks and
 symmetric matrices without full diagonal

---
 dune/istl/matrixmarket.hh | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..6e5587a 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -826,8 +826,20 @@ namespace Dune
                    "Only general, symmetric, skew-symmetric and hermitian is supported right now!");
       }
 
+      // Count the blocks: they may be filled partially only and the number of
+      // scalar entries in the file does not determine how many there are
+      std::size_t nnz=0;
+      for(std::size_t blockrow=0; blockrow<matrix.N(); ++blockrow)
+      {
+        std::set<std::size_t> blockcols;
+        for(std::size_t brow=blockrow*brows; brow<(blockrow+1)*brows; ++brow)
+          for(const auto& data : rows[brow])
+            blockcols.insert(data.index/bcols);
+        nnz += blockcols.size();
+      }
+      matrix.setSize(matrix.N(), matrix.M(), nnz);
+
       // Setup the matrix sparsity pattern
-      int nnz=0;
       for(typename Matrix::CreateIterator iter=matrix.createbegin();
           iter!= matrix.createend(); ++iter)
       {
@@ -836,7 +848,7 @@ namespace Dune
         {
           typedef typename std::set<IndexData<D> >::const_iterator Siter;
           for(Siter siter=rows[brow].begin(), send=rows[brow].end();
-              siter != send; ++siter, ++nnz)
+              siter != send; ++siter)
             iter.insert(siter->index/bcols);
         }
       }
@@ -1005,18 +1017,19 @@ namespace Dune
 
     istr >>entries;
 
-    std::size_t nnz, blockrows, blockcols;
+    std::size_t blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
-    std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
+    std::tie(blockrows, blockcols, std::ignore) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
 
 
-    matrix.setSize(blockrows, blockcols, nnz);
+    // the number of blocks is known only after the entries have been read
+    matrix.setSize(blockrows, blockcols);
     matrix.setBuildMode(Dune::BCRSMatrix<T,A>::row_wise);
 
     if(header.type==array_type)
-- 
2.43.0


From 9150b4e6ab370a3464b9282eedaf53f2992ca329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:15 +0000
Subject: [PATCH 66/81] fix: Matrix Market files: complex numbers are written
 and read as real and imaginary part

---
 dune/istl/matrixmarket.hh | 54 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 6e5587a..f957e98 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -908,14 +908,37 @@ namespace Dune
     istr >> cols;
   }
 
+  // Read a number. Complex numbers are stored as real and imaginary part;
+  // the pair notation (x,y) is understood as well
+  template<typename T>
+  void mm_read_number(T& number, std::istream& istr)
+  {
+    if constexpr (MatrixMarketImpl::is_complex<T>::value)
+    {
+      if ((istr>>std::ws).peek()=='(')
+        istr>>number;
+      else
+      {
+        typename T::value_type real{}, imag{};
+        istr>>real>>imag;
+        number = {real, imag};
+      }
+    }
+    else
+      istr>>number;
+  }
+
   template<typename T, typename A>
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
                               size_t lane)
   {
-    for (int i=0; size>0; ++i, --size)
-        istr>>Simd::lane(lane,vector[i]);
+    for (int i=0; size>0; ++i, --size) {
+      Simd::Scalar<T> val;
+      mm_read_number(val, istr);
+      Simd::lane(lane,vector[i])=val;
+    }
   }
 
   template<typename T, typename A, int entries>
@@ -926,7 +949,7 @@ namespace Dune
   {
     for(int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      istr>>val;
+      mm_read_number(val, istr);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -1038,6 +1061,16 @@ namespace Dune
     readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
+  // Print a number, real and imaginary part of complex numbers separately
+  template<typename T>
+  void mm_print_number(const T& number, std::ostream& ostr)
+  {
+    if constexpr (MatrixMarketImpl::is_complex<T>::value)
+      ostr << number.real() << " " << number.imag();
+    else
+      ostr << number;
+  }
+
   // Print a scalar entry
   template<typename B>
   void mm_print_entry(const B& entry,
@@ -1046,13 +1079,21 @@ namespace Dune
                       std::ostream& ostr)
   {
     if constexpr (IsNumber<B>())
-      ostr << rowidx << " " << colidx << " " << entry << std::endl;
+    {
+      ostr << rowidx << " " << colidx << " ";
+      mm_print_number(entry, ostr);
+      ostr << std::endl;
+    }
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
         int coli=colidx;
         for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+        {
+          ostr<< rowidx<<" "<<coli<<" ";
+          mm_print_number(*col, ostr);
+          ostr<<std::endl;
+        }
       }
     }
   }
@@ -1063,7 +1104,8 @@ namespace Dune
                              const std::integral_constant<int,1>&,
                              size_t lane)
   {
-    ostr<<Simd::lane(lane,entry)<<std::endl;
+    mm_print_number(Simd::lane(lane,entry), ostr);
+    ostr<<std::endl;
   }
 
   // Write a vector
-- 
2.43.0


From 61ebb63bb23a51b61b19c2085dca268dcfbc57d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:38 +0000
Subject: [PATCH 67/81] fix: readMatrixMarket: damaged files are refused
 instead of writing outside of the matrix

---
 dune/istl/matrixmarket.hh | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index f957e98..c6fa292 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -61,6 +61,9 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -784,9 +787,11 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
           file>>data;
-          assert(data.index/bcols<matrix.M());
+          if(!file)
+            DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries << "!");
+          if(row/brows>=matrix.N() || data.index/bcols>=matrix.M())
+            DUNE_THROW(MatrixMarketFormatError, "Entry " << i+1 << " is outside of the matrix!");
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
@@ -876,9 +881,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
 
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
@@ -906,6 +908,9 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
     istr >> cols;
+
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the vector!");
   }
 
   // Read a number. Complex numbers are stored as real and imaginary part;
@@ -999,6 +1004,9 @@ namespace Dune
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
       mm_read_vector_entries(vector, rows, istr, l);
     }
+
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read all entries of the vector!");
   }
 
   /**
@@ -1040,12 +1048,21 @@ namespace Dune
 
     istr >>entries;
 
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the size of the matrix!");
+
     std::size_t blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
+    if(rows%brows!=0 || cols%bcols!=0)
+      DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
+
+    if(header.structure!=general && rows!=cols)
+      DUNE_THROW(MatrixMarketFormatError, "Only square matrices can be symmetric, skew-symmetric or hermitian!");
+
     std::tie(blockrows, blockcols, std::ignore) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
-- 
2.43.0


From 5b43c4c6a2c48d0f629b936e01faac1973d9c719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:38 +0000
Subject: [PATCH 68/81] fix: readMatrixMarket: pattern files, real data for
 complex and complex data for real numbers

---
 dune/istl/matrixmarket.hh | 46 ++++++++++++++++++++++++++++++++-------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index c6fa292..28273c1 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -780,6 +780,20 @@ namespace Dune
       // data structure
       std::vector<std::set<IndexData<D> > > rows(matrix.N()*brows);
 
+      auto readData = [&] (std::istream& is, auto& data) {
+        using Number = std::decay_t<decltype(data.number)>;
+        if constexpr (is_complex<Number>::value)
+          if(mmHeader.ctype!=complex_type) {
+            // only the real part is stored
+            typename Number::value_type real{};
+            is>>data.index>>real;
+            --data.index;
+            data.number = real;
+            return;
+          }
+        is>>data;
+      };
+
       auto readloop = [&] (auto symmetryFixup) {
         for(std::size_t i = 0; i < entries; ++i) {
           std::size_t row;
@@ -787,7 +801,13 @@ namespace Dune
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          file>>data;
+          if(mmHeader.ctype==pattern) {
+            // there are no values
+            file>>data.index;
+            --data.index;
+          }
+          else
+            readData(file, data);
           if(!file)
             DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries << "!");
           if(row/brows>=matrix.N() || data.index/bcols>=matrix.M())
@@ -916,7 +936,7 @@ namespace Dune
   // Read a number. Complex numbers are stored as real and imaginary part;
   // the pair notation (x,y) is understood as well
   template<typename T>
-  void mm_read_number(T& number, std::istream& istr)
+  void mm_read_number(T& number, std::istream& istr, bool complexData)
   {
     if constexpr (MatrixMarketImpl::is_complex<T>::value)
     {
@@ -925,7 +945,9 @@ namespace Dune
       else
       {
         typename T::value_type real{}, imag{};
-        istr>>real>>imag;
+        istr>>real;
+        if (complexData)
+          istr>>imag;
         number = {real, imag};
       }
     }
@@ -937,11 +959,12 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<T,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              bool complexData)
   {
     for (int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      mm_read_number(val, istr);
+      mm_read_number(val, istr, complexData);
       Simd::lane(lane,vector[i])=val;
     }
   }
@@ -950,11 +973,12 @@ namespace Dune
   void mm_read_vector_entries(Dune::BlockVector<Dune::FieldVector<T,entries>,A>& vector,
                               std::size_t size,
                               std::istream& istr,
-                              size_t lane)
+                              size_t lane,
+                              bool complexData)
   {
     for(int i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      mm_read_number(val, istr);
+      mm_read_number(val, istr, complexData);
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
@@ -983,6 +1007,9 @@ namespace Dune
         DUNE_THROW(MatrixMarketFormatError, "cols does not match the number of lanes in the field_type!");
     }
 
+    if(header.ctype==complex_type && !is_complex<Simd::Scalar<field_type>>::value)
+      DUNE_THROW(MatrixMarketFormatError, "Complex data cannot be stored in a real vector!");
+
     if(header.type!=array_type)
       DUNE_THROW(MatrixMarketFormatError, "Vectors have to be stored in array format!");
 
@@ -1002,7 +1029,7 @@ namespace Dune
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
     for(size_t l=0;l<Simd::lanes<field_type>();++l){
-      mm_read_vector_entries(vector, rows, istr, l);
+      mm_read_vector_entries(vector, rows, istr, l, header.ctype==complex_type);
     }
 
     if(!istr)
@@ -1057,6 +1084,9 @@ namespace Dune
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
+    if(header.ctype==complex_type && !is_complex<typename Matrix::field_type>::value)
+      DUNE_THROW(MatrixMarketFormatError, "Complex data cannot be stored in a real matrix!");
+
     if(rows%brows!=0 || cols%bcols!=0)
       DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
 
-- 
2.43.0


From 293775e4f890a6a2eec5136c295e08ab3ce8d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:04:38 +0000
Subject: [PATCH 69/81] fix: the parallel dot product of complex vectors was
 not conjugated

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..601dc4e 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -411,7 +411,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From c47436f642d40100409691fdb0bba685b6db9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:19 +0000
Subject: [PATCH 70/81] fix: OwnerOverlapCopyCommunication: a remote index that
 is not in the index set was looked up behind its end

---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 601dc4e..dea5934 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -626,7 +626,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From fd062c3c10f84142f46bf86b1952e4d3bda8f404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:21:37 +0000
Subject: [PATCH 71/81] fix: redistributeMatrix: a process with one unknown
 lost all matrix entries

---
 dune/istl/matrixredistribute.hh | 63 +++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 23 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 00ad7d5..68c80ba 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -513,6 +513,24 @@ namespace Dune
 
   };
 
+  namespace Impl
+  {
+    /**
+     * @brief Find the index pair of a global index.
+     * @return Pointer to the pair or nullptr if the index is not in the set.
+     *
+     * ParallelIndexSet::at() does not find the entry of a set of size one.
+     */
+    template<class I>
+    const typename I::IndexPair* findIndexPair(const I& indexSet, const typename I::GlobalIndex& global)
+    {
+      if (indexSet.size() == 0)
+        return nullptr;
+      const typename I::IndexPair& pair = indexSet[global];
+      return pair.global() == global ? &pair : nullptr;
+    }
+  }
+
   template<class M, class I>
   struct MatrixSparsityPatternGatherScatter
   {
@@ -552,20 +570,20 @@ namespace Dune
     }
     static void scatter(Container& cont, const GlobalIndex& gi, std::size_t i, [[maybe_unused]] std::size_t j)
     {
-      try{
-        if (gi != std::numeric_limits<GlobalIndex>::max()) {
-          const typename I::IndexPair& ip=cont.aggidxset.at(gi);
-          assert(ip.global()==gi);
-          std::size_t column = ip.local();
-          cont.sparsity[i].insert(column);
-
-          typedef typename Dune::OwnerOverlapCopyCommunication<int>::OwnerSet OwnerSet;
-          if(!OwnerSet::contains(ip.local().attribute()))
-            // preserve symmetry for overlap
-            cont.sparsity[column].insert(i);
-        }
+      if (gi == std::numeric_limits<GlobalIndex>::max())
+        return;
+
+      const typename I::IndexPair* ip = Impl::findIndexPair(cont.aggidxset, gi);
+      if (ip) {
+        std::size_t column = ip->local();
+        cont.sparsity[i].insert(column);
+
+        typedef typename Dune::OwnerOverlapCopyCommunication<int>::OwnerSet OwnerSet;
+        if(!OwnerSet::contains(ip->local().attribute()))
+          // preserve symmetry for overlap
+          cont.sparsity[column].insert(i);
       }
-      catch(const Dune::RangeError&) {
+      else {
         // Entry not present in the new index set. Ignore!
 #ifdef DEBUG_REPART
         typedef typename Container::LookupIndexSet GlobalLookup;
@@ -580,7 +598,7 @@ namespace Dune
           MPI_Comm_rank(MPI_COMM_WORLD,&rank);
           std::cout<<rank<<cont.aggidxset<<std::endl;
           std::cout<<rank<<": row "<<i<<" (global="<<gi <<") not in index set for owner index "<<pi->global()<<std::endl;
-          throw;
+          DUNE_THROW(RangeError, "Could not find entry of "<<gi);
         }
 #endif
       }
@@ -637,16 +655,15 @@ namespace Dune
     }
     static void scatter(Container& cont, const Data& data, std::size_t i, [[maybe_unused]] std::size_t j)
     {
-      try{
-        if (data.first != std::numeric_limits<GlobalIndex>::max()) {
-          typename M::size_type column=cont.aggidxset.at(data.first).local();
-          cont.matrix[i][column]=data.second;
-        }
-      }
-      catch(const Dune::RangeError&) {
-        // This an overlap row and might therefore lack some entries!
-      }
+      if (data.first == std::numeric_limits<GlobalIndex>::max())
+        return;
 
+      // An overlap row might lack some entries!
+      const typename I::IndexPair* ip = Impl::findIndexPair(cont.aggidxset, data.first);
+      if (ip) {
+        typename M::size_type column = ip->local();
+        cont.matrix[i][column]=data.second;
+      }
     }
   };
 
-- 
2.43.0


From e9623237ee7218b14313732d470de86d211fe405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:36 +0000
Subject: [PATCH 72/81] fix: graphRepartition: the partition was assigned to
 other unknowns than the ones given to ParMETIS

---
 dune/istl/repartition.hh | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/dune/istl/repartition.hh b/dune/istl/repartition.hh
index 1646810..606e9c5 100644
--- a/dune/istl/repartition.hh
+++ b/dune/istl/repartition.hh
@@ -1272,7 +1272,7 @@ namespace Dune
 
 
     typedef typename  Dune::OwnerOverlapCopyCommunication<T1,T2> OOComm;
-    typedef typename  OOComm::OwnerSet OwnerSet;
+    using OwnerSet [[maybe_unused]] = typename OOComm::OwnerSet;
 
     // Create the vtxdist array and parmetisVtxMapping.
     // Global communications are necessary
@@ -1420,11 +1420,9 @@ namespace Dune
     // the overlap/copy vertices
     std::vector<int> setPartition(oocomm.indexSet().size(), -1);
 
-    std::size_t i=0; // parmetis index
-    for(auto index = oocomm.indexSet().begin(); index != oocomm.indexSet().end(); ++index)
-      if(OwnerSet::contains(index->local().attribute())) {
-        setPartition[index->local()]=domainMapping[part[i++]];
-      }
+    // the ParMETIS vertices are numbered as in indexMap
+    for(std::size_t i=0; i<indexMap.numOfOwnVtx(); ++i)
+      setPartition[indexMap.toDune(i)]=domainMapping[part[i]];
 
     delete[] part;
     oocomm.copyOwnerToAll(setPartition, setPartition);
-- 
2.43.0


From 8d9a7dcb2a6447a82b2eb5e22ad3433550d93000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:43 +0000
Subject: [PATCH 73/81] fix: redistributeMatrix dropped the couplings to
 overlap unknowns of overlapping decompositions

---
 dune/istl/matrixredistribute.hh | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 68c80ba..12cc72c 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -357,6 +357,8 @@ namespace Dune
     const I& aggidxset;
     std::vector<std::set<size_type> > sparsity;
     const std::vector<size_type>* rowsize;
+    /** @brief Whether columns with attribute overlap are ghosts (novlp case) that are not sent. */
+    bool skipGhosts = true;
   };
 
   template<class M, class I>
@@ -450,6 +452,8 @@ namespace Dune
     const I& aggidxset;
     /** @brief row size information for the receiving side. */
     std::vector<size_t>* rowsize; // row sizes differ from sender side in overlap!
+    /** @brief Whether columns with attribute overlap are ghosts (novlp case) that are not sent. */
+    bool skipGhosts = true;
   };
 
   template<class M, class I>
@@ -560,7 +564,7 @@ namespace Dune
         const typename I::IndexPair* index=cont.idxset.pair(col.index());
         assert(index);
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != OwnerOverlapCopyAttributeSet::overlap)
           return index->global();
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -644,7 +648,7 @@ namespace Dune
         assert(index);
         // Store the data to prevent reference to temporary
         // Only send index if col is no ghost
-        if ( index->local().attribute() != 2)
+        if ( !cont.skipGhosts || index->local().attribute() != OwnerOverlapCopyAttributeSet::overlap)
           datastore = Data(index->global(),*col);
         else {
           numlimits = std::numeric_limits<GlobalIndex>::max();
@@ -703,6 +707,7 @@ namespace Dune
     CommMatrixSparsityPattern<M,IndexSet>
     newsp(origMatrix, origComm.globalLookup(), newComm.indexSet(), rowsize);
 
+    origsp.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     ri.template redistribute<MatrixSparsityPatternGatherScatter<M,IndexSet> >(origsp,newsp);
 
     // build copy to owner interface to get missing matrix values for novlp case
@@ -812,6 +817,7 @@ namespace Dune
     origrow(origMatrix, origComm.globalLookup(), newComm.indexSet());
     CommMatrixRow<M,IndexSet>
     newrow(newMatrix, origComm.globalLookup(), newComm.indexSet(),rowsize);
+    origrow.skipGhosts = SolverCategory::category(origComm) == SolverCategory::nonoverlapping;
     ri.template redistribute<MatrixRowGatherScatter<M,IndexSet> >(origrow,newrow);
     if (SolverCategory::category(origComm) != static_cast<int>(SolverCategory::nonoverlapping))
       newrow.setOverlapRowsToDirichlet();
-- 
2.43.0


From b167befa27e1294261321975a7d0aafb09e320b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:17 +0000
Subject: [PATCH 74/81] fix: redistributeMatrix (nonoverlapping): the entry
 behind the end of a copy row was read

---
 dune/istl/matrixredistribute.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 12cc72c..1b35e62 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -639,7 +639,7 @@ namespace Dune
       // and receiver will ignore it.
       if (col==cont.matrix[i].end()) {
         numlimits = std::numeric_limits<GlobalIndex>::max();
-        datastore = Data(numlimits,*col);
+        datastore = Data(numlimits,typename M::block_type{});
         return datastore;
       }
       else {
-- 
2.43.0


From bcb2ff5e70b1129b50ee5840aa85cbf1688581cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:01:12 +0000
Subject: [PATCH 75/81] fix: AMG: an accumulated coarse problem was solved
 starting from the correction of the previous application

---
 dune/istl/paamg/amg.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index dc3056d..6f3107f 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1040,6 +1040,8 @@ namespace Dune
             // We are still participating in the computation
             levelContext.pinfo.getRedistributed().copyOwnerToAll(levelContext.rhs.getRedistributed(),
                                                     levelContext.rhs.getRedistributed());
+            // start from zero instead of the correction of the previous application
+            levelContext.update.getRedistributed()=0;
             solver_->apply(levelContext.update.getRedistributed(),
                            levelContext.rhs.getRedistributed(), res);
           }
-- 
2.43.0


From 682080915d2383a35936c756aa59df148323cdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:21:31 +0000
Subject: [PATCH 76/81] fix: pairwise Schwarz smoother: subdomains of the
 previous level were kept, matrices without couplings crashed

---
 dune/istl/paamg/smoother.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 7783913..38eca91 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -762,6 +762,8 @@ namespace Dune
           }
 
 
+        // forget the subdomains of a matrix set before
+        subdomains.clear();
         subdomains.resize(pairs.size());
         Dune::dinfo <<std::endl<< "Created "<<pairs.size()<<" ("<<total<<") pair domains"<<std::endl<<std::endl;
         typedef typename std::set<std::pair<size_type,size_type> >::const_iterator SIter;
@@ -781,8 +783,9 @@ namespace Dune
           minsize=std::min(minsize, subdomains[i].size());
           maxsize=std::max(maxsize, subdomains[i].size());
         }
-        Dune::dinfo<<"Subdomain size: min="<<minsize<<" max="<<maxsize<<" avg="<<(sum/subdomains.size())
-                   <<" no="<<subdomains.size()<<std::endl;
+        if(!subdomains.empty())
+          Dune::dinfo<<"Subdomain size: min="<<minsize<<" max="<<maxsize<<" avg="<<(sum/subdomains.size())
+                     <<" no="<<subdomains.size()<<std::endl;
       }
 
       template<class Visitor>
-- 
2.43.0


From 44aec4c6f105b999d8ee998a50f6860b60f0fad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 77/81] fix: Schwarz smoother with aggregate overlap:
 subdomains lacked neighbouring aggregates, were mixed up or missing

---
 dune/istl/paamg/smoother.hh | 37 ++++++++++++++++---------------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 38eca91..2dbc103 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -591,7 +591,7 @@ namespace Dune
         break;
         case SmootherArgs::aggregate :
         {
-          AggregateAdder<VisitedMapType> visitor(subdomains, amap, graph, visitedMap);
+          AggregateAdder visitor(subdomains, amap, graph);
           createSubdomains(matrix, graph, amap, visitor, visitedMap);
         }
         break;
@@ -633,7 +633,7 @@ namespace Dune
         {
           DUNE_THROW(NotImplemented, "Aggregate overlap is not supported yet");
           /*
-             AggregateAdder<VisitedMapType> visitor(subdomains, amap, graph, visitedMap);
+             AggregateAdder visitor(subdomains, amap, graph);
              createSubdomains(matrix, graph, amap, visitor, visitedMap);
            */
         }
@@ -698,49 +698,44 @@ namespace Dune
         }
       };
 
-      template<class VM>
       struct AggregateAdder
       {
         AggregateAdder(Vector& subdomains_, const AggregatesMap& aggregates_,
-                       const MatrixGraph<const M>& graph_, VM& visitedMap_)
+                       const MatrixGraph<const M>& graph_)
           : subdomains(subdomains_), subdomain(-1), aggregates(aggregates_),
-            adder(subdomains_, aggregates_), graph(graph_), visitedMap(visitedMap_)
+            adder(subdomains_, aggregates_), graph(graph_), visited(aggregates_.noVertices(), false)
         {}
         template<class T>
         void operator()(const T& edge)
         {
           subdomains[subdomain].insert(edge.target());
-          // If we (the neighbouring vertex of the aggregate)
-          // are not isolated, add the aggregate we belong to
-          // to the same subdomain using the OneOverlapAdder
+          // If the neighbouring vertex of the aggregate
+          // is not isolated, add the aggregate it belongs to
+          // to the same subdomain
           if(aggregates[edge.target()]!=AggregatesMap::ISOLATED) {
-            assert(aggregates[edge.target()]!=aggregate);
+            IteratorPropertyMap<std::vector<bool>::iterator,IdentityMap> visitedMap(visited.begin());
             typename AggregatesMap::VertexList vlist;
-            aggregates.template breadthFirstSearch<true,false>(edge.target(), aggregate,
-                                                               graph, vlist, adder, adder,
-                                                               visitedMap);
+            typename AggregatesMap::DummyEdgeVisitor dummy;
+            aggregates.template breadthFirstSearch<true,true>(edge.target(), aggregates[edge.target()],
+                                                              graph, vlist, adder, dummy,
+                                                              visitedMap);
           }
         }
 
         int setAggregate(const AggregateDescriptor& aggregate_)
         {
           adder.setAggregate(aggregate_);
-          aggregate=aggregate_;
-          return ++subdomain;
-        }
-        int noSubdomains() const
-        {
-          return subdomain+1;
+          return subdomain=aggregate_;
         }
 
       private:
-        AggregateDescriptor aggregate;
         Vector& subdomains;
-        int subdomain;
+        AggregateDescriptor subdomain;
         const AggregatesMap& aggregates;
         VertexAdder adder;
         const MatrixGraph<const M>& graph;
-        VM& visitedMap;
+        // vertices of the neighbouring aggregate already added
+        std::vector<bool> visited;
       };
 
       void createPairDomains(const MatrixGraph<const M>& graph)
-- 
2.43.0


From e58a8857842c50f3f3409af60d10921da84e90ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:22:00 +0000
Subject: [PATCH 78/81] fix: Schwarz smoother: isolated unknowns led to
 additional empty subdomains, matrices without rows crashed

---
 dune/istl/paamg/smoother.hh | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/dune/istl/paamg/smoother.hh b/dune/istl/paamg/smoother.hh
index 2dbc103..e687060 100644
--- a/dune/istl/paamg/smoother.hh
+++ b/dune/istl/paamg/smoother.hh
@@ -790,18 +790,18 @@ namespace Dune
       {
         // count  number ag aggregates. We assume that the
         // aggregates are numbered consecutively from 0 except
-        // for the isolated ones. All isolated vertices form
-        // one aggregate, here.
+        // for the isolated ones. Each isolated vertex forms
+        // a subdomain of its own, which is appended below.
         int isolated=0;
-        AggregateDescriptor maxAggregate=0;
+        std::size_t noAggregates=0;
 
         for(std::size_t i=0; i < amap.noVertices(); ++i)
           if(amap[i]==AggregatesMap::ISOLATED)
             isolated++;
           else
-            maxAggregate = std::max(maxAggregate, amap[i]);
+            noAggregates = std::max<std::size_t>(noAggregates, amap[i]+1);
 
-        subdomains.resize(maxAggregate+1+isolated);
+        subdomains.resize(noAggregates);
 
         // reset the subdomains
         for(typename Vector::size_type i=0; i < subdomains.size(); ++i)
@@ -837,8 +837,9 @@ namespace Dune
           minsize=std::min(minsize, subdomains[i].size());
           maxsize=std::max(maxsize, subdomains[i].size());
         }
-        Dune::dinfo<<"Subdomain size: min="<<minsize<<" max="<<maxsize<<" avg="<<(sum/subdomains.size())
-                   <<" no="<<subdomains.size()<<" isolated="<<isolated<<std::endl;
+        if(!subdomains.empty())
+          Dune::dinfo<<"Subdomain size: min="<<minsize<<" max="<<maxsize<<" avg="<<(sum/subdomains.size())
+                     <<" no="<<subdomains.size()<<" isolated="<<isolated<<std::endl;
 
 
 
-- 
2.43.0


From b2bad1eab27e166e89ffde417ddb9f176f68770e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:15 +0000
Subject: [PATCH 79/81] fix: Matrix: assigning constant row iterators overwrote
 the entries of the row

---
 dune/istl/matrix.hh | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 7574828..dd2ba7b 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -421,6 +421,17 @@ namespace MatrixImp
       : i(it.i), window_(it.window_.getptr(),it.window_.getsize())
       {}
 
+      ConstIterator (const ConstIterator& other) = default;
+
+      //! copy assignment
+      ConstIterator& operator=(const ConstIterator& other)
+      {
+        i = other.i;
+        // Do NOT use window_.operator=, because that copies the window content, not just the window!
+        window_.set(other.window_.getsize(),other.window_.getptr());
+        return *this;
+      }
+
       ConstIterator& operator=(Iterator&& other)
       {
         i = other.i;
-- 
2.43.0


From 8e6ed885b315515772958067a7283f05297d8f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:23 +0000
Subject: [PATCH 80/81] fix: Matrix::exists in checking mode refused valid and
 accepted invalid columns

---
 dune/istl/matrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index dd2ba7b..55b1fa8 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -1075,7 +1075,7 @@ namespace MatrixImp
     {
 #ifdef DUNE_ISTL_WITH_CHECKING
       if (i<0 || i>=N()) DUNE_THROW(ISTLError,"row index out of range");
-      if (j<0 || i>=M()) DUNE_THROW(ISTLError,"column index out of range");
+      if (j<0 || j>=M()) DUNE_THROW(ISTLError,"column index out of range");
 #endif
       return true;
     }
-- 
2.43.0


From 28d3055fba573c11d88cc8c167ebdb6b2765f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:04 +0000
Subject: [PATCH 81/81] fix: inner products of sparse vectors did not compile
 in checking mode

---
 dune/istl/bvector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bvector.hh b/dune/istl/bvector.hh
index 28597e5..092aff1 100644
--- a/dune/istl/bvector.hh
+++ b/dune/istl/bvector.hh
@@ -960,7 +960,7 @@ namespace Imp {
 
     //! return true if index sets coincide
     template<class V>
-    bool includesindexset (const V& y)
+    bool includesindexset (const V& y) const
     {
       typename V::ConstIterator e=this->end();
       for (size_type i=0; i<y.n; i++)
-- 
2.43.0

