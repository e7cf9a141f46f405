From 79941e0cee502ed8a7384459941036723f2eb406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 01/51] fix: Matrix::infinity_norm for field types without NaN
 does not compile

The overload for fields without NaN accumulated into an undeclared tracker.
---
 dune/istl/matrix.hh | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 2aff176..7574828 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -995,7 +995,6 @@ namespace MatrixImp
         for (auto const &y : x)
           sum += Impl::asMatrix(y).infinity_norm();
         norm = max(sum, norm);
-        isNaN += sum;
       }
 
       return norm;
-- 
2.43.0


From c28304105cf2678e8ef8824d5c6a30be694c01bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 02/51] fix: IterativeSolver::apply with explicit reduction
 does not restore the reduction when the solve throws

---
 dune/istl/solver.hh | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index 48696d0..f48aaab 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -377,7 +377,13 @@ namespace Dune
     {
       scalar_real_type saved_reduction = _reduction;
       _reduction = reduction;
-      this->apply(x,b,res);
+      try {
+        this->apply(x,b,res);
+      }
+      catch (...) {
+        _reduction = saved_reduction;
+        throw;
+      }
       _reduction = saved_reduction;
     }
 
-- 
2.43.0


From ed8d11b95b3396683a6b825ee33b7c9a50782b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 03/51] fix: a solve aborted before its first defect
 measurement reports convergence

---
 dune/istl/solver.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solver.hh b/dune/istl/solver.hh
index f48aaab..503d990 100644
--- a/dune/istl/solver.hh
+++ b/dune/istl/solver.hh
@@ -486,7 +486,8 @@ namespace Dune
 
     protected:
       void finalize(){
-        _res.converged = (Simd::allTrue(_def<_def0*_parent._reduction || _def<real_type(1E-30)));
+        // _res.converged has been set by the last call to step(); if there
+        // was none because of an exception it is still false
         _res.iterations = _i;
         _res.reduction = static_cast<double>(Simd::max(_def/_def0));
         _res.conv_rate  = pow(_res.reduction,1.0/_i);
-- 
2.43.0


From 9552fc5954d3ff1c4a8a257d22bb70f761d8f659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 04/51] fix: GMRes solvers ignore the reduction requested for a
 single solve

---
 dune/istl/solvers.hh | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index cb09353..da47a62 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -840,6 +840,8 @@ namespace Dune {
     using rAlloc = ReboundAllocatorType<X,real_type>;
 
   public:
+    // don't shadow four-argument version of apply defined in the base class
+    using IterativeSolver<X,Y>::apply;
 
     /*!
        \brief Set up RestartedGMResSolver solver.
@@ -908,19 +910,6 @@ namespace Dune {
              breakdown.
      */
     void apply (X& x, Y& b, InverseOperatorResult& res) override
-    {
-      apply(x,b,Simd::max(_reduction),res);
-    }
-
-    /*!
-       \brief Apply inverse operator.
-
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
-
-       \note Currently, the RestartedGMResSolver aborts when it detects a
-             breakdown.
-     */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
@@ -1161,12 +1150,12 @@ namespace Dune {
     /*!
        \brief Apply inverse operator.
 
-       \copydoc InverseOperator::apply(X&,Y&,double,InverseOperatorResult&)
+       \copydoc InverseOperator::apply(X&,Y&,InverseOperatorResult&)
 
        \note Currently, the RestartedFlexibleGMResSolver aborts when it detects a
              breakdown.
      */
-    void apply (X& x, Y& b, [[maybe_unused]] double reduction, InverseOperatorResult& res) override
+    void apply (X& x, Y& b, InverseOperatorResult& res) override
     {
       using std::abs;
       const Simd::Scalar<real_type> EPSILON = 1e-80;
-- 
2.43.0


From 22ac36e23627b6f85a0ee031a48ca4cc4a8958ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:25 +0000
Subject: [PATCH 05/51] fix: last restart cycle of the GMRes solvers starts
 from a stale residual

---
 dune/istl/solvers.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index da47a62..c802332 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1002,8 +1002,8 @@ namespace Dune {
 
         // restart GMRes if convergence was not achieved,
         // i.e. linear defect has not reached desired reduction
-        // and if j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit ) {
+        // and if j <= _maxit (there is another iteration to do)
+        if( res.converged != true && j <= _maxit ) {
 
           if(_verbose > 0)
             std::cout << "=== GMRes::restart" << std::endl;
@@ -1247,8 +1247,8 @@ namespace Dune {
 
         // restart fGMRes if convergence was not achieved,
         // i.e. linear residual has not reached desired reduction
-        // and if still j < _maxit (do not restart on last iteration)
-        if( res.converged != true && j < _maxit)
+        // and if still j <= _maxit (there is another iteration to do)
+        if( res.converged != true && j <= _maxit)
         {
           if (_verbose > 0)
             std::cout << "=== fGMRes::restart" << std::endl;
-- 
2.43.0


From f5361270fc4951d5170e66991350f4d20a9fb26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 06/51] fix: GeneralizedPCGSolver does not terminate for a
 restart length of one

---
 dune/istl/solvers.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index c802332..93c37ab 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1383,8 +1383,11 @@ private:
       _prec->pre(x,b);                 // prepare preconditioner
       _op->applyscaleadd(-1,x,b);      // overwrite b with defect
 
-      std::vector<std::shared_ptr<X> > p(_restart);
-      std::vector<field_type,fAlloc> pp(_restart);
+      // at least the previous direction has to be kept, otherwise there
+      // would not be any progress after the first iteration
+      const int restart = std::max(_restart, 2);
+      std::vector<std::shared_ptr<X> > p(restart);
+      std::vector<field_type,fAlloc> pp(restart);
       X q(x);                  // a temporary vector
       X prec_res(x);           // a temporary vector for preconditioner output
 
@@ -1419,7 +1422,7 @@ private:
 
       while(i<_maxit) {
         // the loop
-        int end=std::min(_restart, _maxit-i+1);
+        int end=std::min(restart, _maxit-i+1);
         for (int ii = 1; ii < end; ++ii)
         {
           //std::cout<<" ii="<<ii<<" i="<<i<<std::endl;
@@ -1451,9 +1454,9 @@ private:
         }
         if(res.converged)
           break;
-        if(end==_restart) {
-          *(p[0])=*(p[_restart-1]);
-          pp[0]=pp[_restart-1];
+        if(end==restart) {
+          *(p[0])=*(p[restart-1]);
+          pp[0]=pp[restart-1];
         }
       }
 
-- 
2.43.0


From 45c42e1a85c6a57ff94968fd95ba622b9a74be61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 07/51] fix: GeneralizedPCGSolver and FCG solvers continue
 iterating after convergence

---
 dune/istl/solvers.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 93c37ab..d957e59 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1450,7 +1450,8 @@ private:
           def = _sp->norm(b);        // comp defect norm
 
           ++i;
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
         }
         if(res.converged)
           break;
@@ -1618,7 +1619,8 @@ private:
           // convergence test
           def = _sp->norm(b); // comp defect norm
 
-          iteration.step(i, def);
+          if(iteration.step(i, def))
+            break;
           i++;
         }
         //restart: exchange first and last stored values
-- 
2.43.0


From 1cdb9b006133cd7c467c775304bd9343dd30b718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 08/51] fix: GeneralizedPCGSolver performs an iteration if none
 is allowed

---
 dune/istl/solvers.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index d957e59..1138377 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1394,7 +1394,7 @@ private:
       p[0].reset(new X(x));
 
       real_type def = _sp->norm(b);    // compute norm
-      if(iteration.step(0, def)){
+      if(iteration.step(0, def) || _maxit<1){
         _prec->post(x);
         return;
       }
-- 
2.43.0


From e46f1700a371b47ca5273fd42e3fc20aa6c907c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 09/51] fix: RestartedFCGSolver does not terminate if no
 previous direction is kept

---
 dune/istl/solvers.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/solvers.hh b/dune/istl/solvers.hh
index 1138377..339ae3b 100644
--- a/dune/istl/solvers.hh
+++ b/dune/istl/solvers.hh
@@ -1645,7 +1645,8 @@ private:
     // This function is called every mmax iterations to handle limited array sizes.
     virtual void cycle(std::vector<X>& Ad,std::vector<X>& d,std::vector<field_type,ReboundAllocatorType<X,field_type> >& ddotAd,int& i_bounded) {
       // Reset loop index and exchange the first and last arrays
-      i_bounded = 1;
+      // (if no previous direction is kept there is nothing to exchange)
+      i_bounded = std::min(1, _mmax);
       std::swap(Ad[0], Ad[_mmax]);
       std::swap(d[0], d[_mmax]);
       std::swap(ddotAd[0], ddotAd[_mmax]);
-- 
2.43.0


From 90f307dd41632ebdf368d52fe499bafde1d3cc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 10/51] fix: leave out the diagonal block in the Gauss-Seidel
 sweep of MultiTypeBlockMatrix

dbgs subtracted the diagonal block times the old component and then solved
with the diagonal block, so the sweep computed a correction and stored it as
the new component.
---
 dune/istl/multitypeblockmatrix.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index e2389d9..b2603e0 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -508,7 +508,9 @@ namespace Dune {
     static void dbgs(const TMatrix& A, TVector& x, TVector& v, const TVector& b, const K& w) {
       auto rhs = std::get<crow> (b);
 
-      MultiTypeBlockMatrix_Solver_Col<I,crow,0, TMatrix::M()>::calc_rhs(A,x,v,rhs,w);  // calculate right side of equation
+      // calculate right side of equation, leaving out the diagonal block that is solved for below
+      MultiTypeBlockMatrix_Solver_Col<I,crow,0,crow>::calc_rhs(A,x,v,rhs,w);
+      MultiTypeBlockMatrix_Solver_Col<I,crow,crow+1,TMatrix::M()-crow-1>::calc_rhs(A,x,v,rhs,w);
       //solve on blocklevel I-1
       using M =
         typename std::remove_cv<
-- 
2.43.0


From 80c5364d8f6e58c8d463b77afa48dc3cd6e013df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 11/51] fix: start nested relaxation sweeps from a zero
 correction

With more than one recursion level the inner sweep continues from the content
of its correction vector, which still held the correction of the previous row.
---
 dune/istl/gsetc.hh                | 6 ++++++
 dune/istl/multitypeblockmatrix.hh | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/dune/istl/gsetc.hh b/dune/istl/gsetc.hh
index 0cfddb0..13f6ed2 100644
--- a/dune/istl/gsetc.hh
+++ b/dune/istl/gsetc.hh
@@ -451,6 +451,8 @@ namespace Dune {
           coliterator diag=j;           // *diag = a_ii
           for (; j!=endj; ++j)
             (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
+          if constexpr (I > 1)
+            v = 0;           // the inner sweep computes a correction and must start from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorf(*diag,v,rhs,w);           // if blocksize I==1: v = rhs/a_ii
           x[i.index()].axpy(w,v);           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
         }
@@ -494,6 +496,8 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          if constexpr (I > 1)
+            v = 0;           // the inner sweep computes a correction and must start from zero
           algmeta_itsteps<I-1,typename M::block_type>::bsorb(*diag,v,rhs,w);
           x[i.index()].axpy(w,v);
         }
@@ -532,6 +536,8 @@ namespace Dune {
           coliterator diag=j;
           for (; j!=endj; ++j)
             j->mmv(x[j.index()],rhs);
+          if constexpr (I > 1)
+            v[i.index()] = 0;           // the inner sweep computes a correction and must start from zero
           algmeta_itsteps<I-1,typename M::block_type>::dbjac(*diag,v[i.index()],rhs,w);
         }
       }
diff --git a/dune/istl/multitypeblockmatrix.hh b/dune/istl/multitypeblockmatrix.hh
index b2603e0..f6a242b 100644
--- a/dune/istl/multitypeblockmatrix.hh
+++ b/dune/istl/multitypeblockmatrix.hh
@@ -546,6 +546,8 @@ namespace Dune {
             decltype(std::get<crow>( std::get<crow>(A)))
           >::type
         >::type;
+      if constexpr (I > 1)
+        std::get<crow>(v) = 0;               // the inner sweep computes a correction and must start from zero
       algmeta_itsteps<I-1,M>::bsorf(std::get<crow>( std::get<crow>(A)), std::get<crow>(v),rhs,w);
       std::get<crow>(x).axpy(w,std::get<crow>(v));
       MultiTypeBlockMatrix_Solver<I,crow+1,remain_row-1>::bsorf(A,x,v,b,w);        //next row
@@ -573,6 +575,8 @@ namespace Dune {
             decltype(std::get<crow>( std::get<crow>(A)))
           >::type
         >::type;
+      if constexpr (I > 1)
+        std::get<crow>(v) = 0;               // the inner sweep computes a correction and must start from zero
       algmeta_itsteps<I-1,M>::bsorb(std::get<crow>( std::get<crow>(A)), std::get<crow>(v),rhs,w);
       std::get<crow>(x).axpy(w,std::get<crow>(v));
       MultiTypeBlockMatrix_Solver<I,crow-1,remain_row-1>::bsorb(A,x,v,b,w);        //next row
-- 
2.43.0


From f3e79250f3e57bd1f7759cababaf04a05d01081a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 12/51] fix: do not read past a row without diagonal entry in
 the ILU decompositions

The loop over the entries left of the diagonal did not stop at the end of the
row, so a row without diagonal and upper entries was continued in the next row.
---
 dune/istl/ilu.hh | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/dune/istl/ilu.hh b/dune/istl/ilu.hh
index 75bf295..1dfab7a 100644
--- a/dune/istl/ilu.hh
+++ b/dune/istl/ilu.hh
@@ -48,7 +48,7 @@ namespace Dune {
         coliterator ij;
 
         // eliminate entries left of diagonal; store L factor
-        for (ij=(*i).begin(); ij.index()<i.index(); ++ij)
+        for (ij=(*i).begin(); ij!=endij && ij.index()<i.index(); ++ij)
         {
           // find A_jj which eliminates A_ij
           coliterator jj = A[ij.index()].find(ij.index());
@@ -78,7 +78,7 @@ namespace Dune {
         }
 
         // invert pivot and store it in A
-        if (ij.index()!=i.index())
+        if (ij==endij || ij.index()!=i.index())
           DUNE_THROW(ISTLError,"diagonal entry missing");
         try {
           Impl::asMatrix(*ij).invert();   // compute inverse of diagonal block
@@ -196,7 +196,8 @@ namespace Dune {
           rowpattern[j.index()] = 0;
 
         // eliminate entries in row which are to the left of the diagonal
-        for (mapiterator ik=rowpattern.begin(); (*ik).first<i.index(); ++ik)
+        mapiterator ik=rowpattern.begin();
+        for (; ik!=rowpattern.end() && (*ik).first<i.index(); ++ik)
         {
           if ((*ik).second<n)
           {
@@ -220,8 +221,12 @@ namespace Dune {
           }
         }
 
+        // the elimination of later rows starts at the diagonal of this row
+        if (ik==rowpattern.end() || (*ik).first!=i.index())
+          DUNE_THROW(ISTLError,"diagonal entry missing");
+
         // create row
-        for (mapiterator ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
+        for (ik=rowpattern.begin(); ik!=rowpattern.end(); ++ik)
           ci.insert((*ik).first);
         ++ci;           // now row i exist
 
-- 
2.43.0


From 8d2a3587b4c4dabc4b2b501b157e6adc69f444bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 13/51] fix: do not read past a row without diagonal entry in
 bildl_decompose

---
 dune/istl/ildl.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dune/istl/ildl.hh b/dune/istl/ildl.hh
index a647795..f6bd63f 100644
--- a/dune/istl/ildl.hh
+++ b/dune/istl/ildl.hh
@@ -93,8 +93,9 @@ namespace Dune
     {
       auto &&A_i = *i;
 
+      const auto ijend = A_i.end();
       auto ij = A_i.begin();
-      for( ; ij.index() < i.index(); ++ij )
+      for( ; (ij != ijend) && (ij.index() < i.index()); ++ij )
       {
         auto &&A_ij = *ij;
         auto &&A_j = A[ ij.index() ];
@@ -117,7 +118,7 @@ namespace Dune
         }
       }
 
-      if( ij.index() != i.index() )
+      if( (ij == ijend) || (ij.index() != i.index()) )
         DUNE_THROW( ISTLError, "diagonal entry missing" );
 
       // update diagonal and multiply A_ij by D_j^{-1}
-- 
2.43.0


From ebf8c60f74cf0e088259c098e66bfeb6cf73681b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 14/51] fix: report a missing diagonal entry in the DILU
 decomposition

The iterator returned by find() was dereferenced without a check. Also set the
column in the exception for a singular diagonal block, as ILU does.
---
 dune/istl/dilu.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/dilu.hh b/dune/istl/dilu.hh
index 7c5d955..f5475e9 100644
--- a/dune/istl/dilu.hh
+++ b/dune/istl/dilu.hh
@@ -56,6 +56,8 @@ namespace Dune
       {
         const auto row_i = row.index();
         const auto col = row->find(row_i);
+        if (col == row->end())
+          DUNE_THROW(ISTLError, "diagonal entry missing");
         // initialise Dinv[i] = A[i, i]
         Dinv_[row_i] = *col;
       }
@@ -88,6 +90,7 @@ namespace Dune
           MatrixBlockError ex;
           ex.message(sstream.str());
           ex.r = row_i;
+          ex.c = row_i;
           throw ex;
         }
       }
-- 
2.43.0


From 17f6772ed13e5755425acdbaeb6fcc509bbd3ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:27 +0000
Subject: [PATCH 15/51] fix: include ftraits.hh in pinfo.hh, which uses
 FieldTraits

---
 dune/istl/paamg/pinfo.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/pinfo.hh b/dune/istl/paamg/pinfo.hh
index 31a5bfd..9a7d676 100644
--- a/dune/istl/paamg/pinfo.hh
+++ b/dune/istl/paamg/pinfo.hh
@@ -7,6 +7,7 @@
 
 #include <dune/common/parallel/communication.hh>
 #include <dune/common/enumset.hh>
+#include <dune/common/ftraits.hh>
 
 #if HAVE_MPI
 
-- 
2.43.0


From 200ac5a5826fb4a08766211f4bd5e29096e1bc22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 16/51] fix: check stage and row size in BCRSMatrix::setIndices
 before storing

---
 dune/istl/bcrsmatrix.hh | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 3806a81..dfaf261 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1231,14 +1231,22 @@ namespace Dune {
     template<typename It>
     void setIndicesNoSort(size_type row, It begin, It end)
     {
-      size_type row_size = r[row].size();
-      size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      if (build_mode!=random)
+        DUNE_THROW(BCRSMatrixError,"requires random build mode");
+      if (ready==built)
+        DUNE_THROW(BCRSMatrixError,"matrix already built up");
+      if (ready==building)
+        DUNE_THROW(BCRSMatrixError,"matrix row sizes not built up yet");
+      if (ready==notAllocated)
+        DUNE_THROW(BCRSMatrixError,"matrix size not set and no memory allocated yet");
+
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      size_type row_size = r[row].size();
+      if (std::distance(begin,end) != std::ptrdiff_t(row_size))
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
+                   << ") does not match number of passed entries (" << std::distance(begin,end) << ")");
+      std::copy(begin,end,r[row].getindexptr());
     }
 
 
@@ -1254,14 +1262,23 @@ namespace Dune {
     template<typename It>
     void setIndices(size_type row, It begin, It end)
     {
-      size_type row_size = r[row].size();
-      size_type* col_begin = r[row].getindexptr();
-      size_type* col_end;
+      if (build_mode!=random)
+        DUNE_THROW(BCRSMatrixError,"requires random build mode");
+      if (ready==built)
+        DUNE_THROW(BCRSMatrixError,"matrix already built up");
+      if (ready==building)
+        DUNE_THROW(BCRSMatrixError,"matrix row sizes not built up yet");
+      if (ready==notAllocated)
+        DUNE_THROW(BCRSMatrixError,"matrix size not set and no memory allocated yet");
+
       // consistency check between allocated row size and number of passed column indices
-      if ((col_end = std::copy(begin,end,r[row].getindexptr())) != col_begin + row_size)
+      size_type row_size = r[row].size();
+      if (std::distance(begin,end) != std::ptrdiff_t(row_size))
         DUNE_THROW(BCRSMatrixError,"Given size of row " << row
                    << " (" << row_size
-                   << ") does not match number of passed entries (" << (col_end - col_begin) << ")");
+                   << ") does not match number of passed entries (" << std::distance(begin,end) << ")");
+      size_type* col_begin = r[row].getindexptr();
+      size_type* col_end = std::copy(begin,end,col_begin);
       std::sort(col_begin,col_end);
     }
 
-- 
2.43.0


From afd602743aeb76ddd2fe16d517dfa622e98f082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 17/51] fix: keep the matrix when BCRSMatrix::setSize rejects
 its arguments

---
 dune/istl/bcrsmatrix.hh | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index dfaf261..b618d16 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -857,14 +857,19 @@ namespace Dune {
      */
     void setSize(size_type rows, size_type columns, size_type nnz=0)
     {
-      // deallocate already setup memory
-      deallocate();
-
       if (build_mode == implicit)
       {
         if (nnz>0)
           DUNE_THROW(Dune::BCRSMatrixError,"number of non-zeroes may not be set in implicit mode, use setImplicitBuildModeParameters() instead");
+        if (compressionBufferSize_ < 0)
+          DUNE_THROW(InvalidStateException,"You have to set the implicit build mode parameters before starting to build the matrix");
+      }
 
+      // deallocate already setup memory
+      deallocate();
+
+      if (build_mode == implicit)
+      {
         // implicit allocates differently
         implicit_allocate(rows,columns);
       }
-- 
2.43.0


From fcd437f5ad09956a62b090d0c429ed3e6fd995e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 18/51] fix: drop entries in the overflow area when a
 BCRSMatrix is deallocated

---
 dune/istl/bcrsmatrix.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index b618d16..81822da 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2231,6 +2231,9 @@ namespace Dune {
         r = nullptr;
       }
 
+      // drop entries that have not been merged by compress()
+      overflow.clear();
+
       // Mark matrix as not built at all.
       ready=notAllocated;
 
-- 
2.43.0


From ca01cf2e8a5b623b4ee5a237bde24f2e34f305a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 19/51] fix: do not change the build mode when the
 ImplicitMatrixBuilder rejects its parameters

---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 81822da..5453aa7 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -196,8 +196,8 @@ namespace Dune {
     {
       if (m.buildStage() != Matrix::notAllocated)
         DUNE_THROW(BCRSMatrixError,"You can only set up a matrix for this ImplicitBuilder if it has no memory allocated yet");
-      m.setBuildMode(Matrix::implicit);
       m.setImplicitBuildModeParameters(avg_cols_per_row,overflow_fraction);
+      m.setBuildMode(Matrix::implicit);
       m.setSize(rows,cols);
     }
 
-- 
2.43.0


From 1984670989d9a82cf4f5ce1ed2cb4688d0770725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 20/51] fix: return the rows of a BCRSMatrix to the allocator
 with their size

---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 5453aa7..f87be07 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2215,8 +2215,8 @@ namespace Dune {
                  *colend = r[i].getptr()-1; col!=colend; --col) {
               std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
             }
-            sizeAllocator_.deallocate(r[i].getindexptr(),1);
-            allocator_.deallocate(r[i].getptr(),1);
+            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
+            allocator_.deallocate(r[i].getptr(),r[i].getsize());
             // clear out row data in case we don't want to deallocate the rows
             // otherwise we might run into a double free problem here later
             r[i].set(0,nullptr,nullptr);
-- 
2.43.0


From 0ef0e51b888cdedb84364575c0b446e8f4bafed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:53 +0000
Subject: [PATCH 21/51] fix: free the rows only once in the assignment of a
 BCRSMatrix

---
 dune/istl/bcrsmatrix.hh | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index f87be07..1a138ae 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -922,14 +922,6 @@ namespace Dune {
       // and deallocate rows only if n != Mat.n
       deallocate(n!=Mat.n);
 
-      // reallocate the rows if required
-      if (n>0 && n!=Mat.n) {
-        // free rows
-        for(row_type *riter=r+(n-1), *rend=r-1; riter!=rend; --riter)
-          std::allocator_traits<decltype(rowAllocator_)>::destroy(rowAllocator_, riter);
-        rowAllocator_.deallocate(r,n);
-      }
-
       nnz_ = Mat.nonzeroes();
 
       // allocate a, share j_
-- 
2.43.0


From 1b007c800997acf5f31b0e2ab738dfef53c012c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 22/51] fix: do not free rows of a BCRSMatrix that have a size
 but no storage yet

---
 dune/istl/bcrsmatrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 1a138ae..eef1798 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2201,7 +2201,7 @@ namespace Dune {
       {
         // check if memory for rows have been allocated individually
         for (size_type i=0; i<n; i++)
-          if (r[i].getsize()>0)
+          if (r[i].getsize()>0 && r[i].getptr())
           {
             for (B *col=r[i].getptr()+(r[i].getsize()-1),
                  *colend = r[i].getptr()-1; col!=colend; --col) {
-- 
2.43.0


From 38c960b78c2707abbda78271d9a4de74e111a3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 23/51] fix: check the build stage in BCRSMatrix::mmtv like in
 the other products

---
 dune/istl/bcrsmatrix.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index eef1798..ae455ce 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -1788,6 +1788,8 @@ namespace Dune {
     void mmtv (const X& x, Y& y) const
     {
 #ifdef DUNE_ISTL_WITH_CHECKING
+      if (ready != built)
+        DUNE_THROW(BCRSMatrixError,"You can only call arithmetic operations on fully built BCRSMatrix instances");
       if (x.N()!=N()) DUNE_THROW(BCRSMatrixError,"index out of range");
       if (y.N()!=M()) DUNE_THROW(BCRSMatrixError,"index out of range");
 #endif
-- 
2.43.0


From 3d5a47e76a2309d8a9cc88790253117ca39c2650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:28 +0000
Subject: [PATCH 24/51] fix: check the column index in Matrix::exists

---
 dune/istl/matrix.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 7574828..8e04776 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -1064,7 +1064,7 @@ namespace MatrixImp
     {
 #ifdef DUNE_ISTL_WITH_CHECKING
       if (i<0 || i>=N()) DUNE_THROW(ISTLError,"row index out of range");
-      if (j<0 || i>=M()) DUNE_THROW(ISTLError,"column index out of range");
+      if (j<0 || j>=M()) DUNE_THROW(ISTLError,"column index out of range");
 #endif
       return true;
     }
-- 
2.43.0


From 8691600994d2641a679b4122d1aca1af18570bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:12 +0000
Subject: [PATCH 25/51] fix: the checked scalar product of compressed block
 vectors did not compile

---
 dune/istl/bvector.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/bvector.hh b/dune/istl/bvector.hh
index 28597e5..092aff1 100644
--- a/dune/istl/bvector.hh
+++ b/dune/istl/bvector.hh
@@ -960,7 +960,7 @@ namespace Imp {
 
     //! return true if index sets coincide
     template<class V>
-    bool includesindexset (const V& y)
+    bool includesindexset (const V& y) const
     {
       typename V::ConstIterator e=this->end();
       for (size_type i=0; i<y.n; i++)
-- 
2.43.0


From 7f84390999492f522fefd5cc88f3f5d8e202b0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 26/51] fix: do not set window pointers of a
 VariableBlockVector without blocks

---
 dune/istl/vbvector.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 33684ec..6318650 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -530,7 +530,8 @@ namespace Dune {
       syncBaseArray();
 
       // and we set the window pointers
-      block[0].setptr(this->p); // pointer to first block
+      if (block.size() > 0)
+        block[0].setptr(this->p); // pointer to first block
       for (size_type j=1; j<block.size(); ++j) // and the rest
         block[j].setptr(block[j-1].getptr()+block[j-1].getsize());
 
-- 
2.43.0


From b1648dedef981537a9918572091a44f6c0494181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:53 +0000
Subject: [PATCH 27/51] fix: BCCSMatrix copies and releases its arrays exactly
 once

The implicit copy constructor shared the arrays (double delete), free() left
dangling pointers that were deleted again, and the assignment allocated arrays
of the wrong index type.
---
 dune/istl/bccsmatrix.hh | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dune/istl/bccsmatrix.hh b/dune/istl/bccsmatrix.hh
index 39103f8..ec97fee 100644
--- a/dune/istl/bccsmatrix.hh
+++ b/dune/istl/bccsmatrix.hh
@@ -37,6 +37,13 @@ namespace Dune::ISTL::Impl
     : N_(0), M_(0), Nnz_(0), values(0), rowindex(0), colstart(0)
     {}
 
+    /** \brief Copy constructor, has copy semantics */
+    BCCSMatrix(const BCCSMatrix& mat)
+    : BCCSMatrix()
+    {
+      *this = mat;
+    }
+
     /** @brief Destructor */
     ~BCCSMatrix()
     {
@@ -111,20 +118,22 @@ namespace Dune::ISTL::Impl
     /** \brief Assignment operator */
     BCCSMatrix& operator=(const BCCSMatrix& mat)
     {
+      if(&mat==this)
+        return *this;
       if(N_+M_+Nnz_!=0)
         free();
       N_=mat.N_;
       M_=mat.M_;
       Nnz_= mat.Nnz_;
-      if(M_>0) {
-        colstart=new size_type[M_+1];
+      if(mat.colstart) {
+        colstart=new Index[M_+1];
         for(size_type i=0; i<=M_; ++i)
           colstart[i]=mat.colstart[i];
       }
 
-      if(Nnz_>0) {
+      if(mat.values) {
         values = new B[Nnz_];
-        rowindex = new size_type[Nnz_];
+        rowindex = new Index[Nnz_];
 
         for(size_type i=0; i<Nnz_; ++i)
           values[i]=mat.values[i];
@@ -141,6 +150,9 @@ namespace Dune::ISTL::Impl
       delete[] values;
       delete[] rowindex;
       delete[] colstart;
+      values = nullptr;
+      rowindex = nullptr;
+      colstart = nullptr;
       N_ = 0;
       M_ = 0;
       Nnz_ = 0;
-- 
2.43.0


From 62a5881da50f86e7b0a253ef3117c0888d284a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 28/51] fix: TwoLevelMethod::post finishes the smoother that
 pre() started

---
 dune/istl/paamg/twolevelmethod.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dune/istl/paamg/twolevelmethod.hh b/dune/istl/paamg/twolevelmethod.hh
index 336f4a4..d99a8e1 100644
--- a/dune/istl/paamg/twolevelmethod.hh
+++ b/dune/istl/paamg/twolevelmethod.hh
@@ -433,8 +433,10 @@ public:
     smoother_->pre(x,b);
   }
 
-  void post([[maybe_unused]] FineDomainType& x) override
-  {}
+  void post(FineDomainType& x) override
+  {
+    smoother_->post(x);
+  }
 
   void apply(FineDomainType& v, const FineRangeType& d) override
   {
-- 
2.43.0


From 8a073f3492bddb0952b1634cac6732a0948e2ff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 29/51] fix: AMG::post calls post once for every level smoother

A single-level hierarchy below the maximal level posted its smoother twice.
---
 dune/istl/paamg/amg.hh | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 9142d01..2c9a990 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -1146,11 +1146,8 @@ namespace Dune
       Iterator smoother = smoothers_->finest();
       DIterator lhs = lhs_->finest();
       if(smoothers_->levels()>0) {
-        if(smoother != coarsest  || matrices_->levels()<matrices_->maxlevels())
+        for(; smoother != coarsest; ++smoother, ++lhs)
           smoother->post(*lhs);
-        if(smoother!=coarsest)
-          for(++smoother, ++lhs; smoother != coarsest; ++smoother, ++lhs)
-            smoother->post(*lhs);
         smoother->post(*lhs);
       }
       lhs_ = nullptr;
-- 
2.43.0


From 11243936a2064f86ddd26ac9474abe0ec25bea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 30/51] fix: FastAMG moves the parallel information back with
 the other level data

---
 dune/istl/paamg/fastamg.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 84621a8..40e4f0a 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -601,6 +601,7 @@ namespace Dune
         //prolongate and add the correction (update is in coarse left hand side)
         --levelContext.matrix;
         --levelContext.residual;
+        --levelContext.pinfo;
 
       }
 
-- 
2.43.0


From c81595a6ec2148543b1c84236f7ce2ed7b10ddae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 31/51] fix: FastAMG::pre makes x consistent with the finest
 communication

---
 dune/istl/paamg/fastamg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/fastamg.hh b/dune/istl/paamg/fastamg.hh
index 40e4f0a..739b061 100644
--- a/dune/istl/paamg/fastamg.hh
+++ b/dune/istl/paamg/fastamg.hh
@@ -481,7 +481,7 @@ namespace Dune
         std::cout<<" Preprocessing Dirichlet took "<<watch1.elapsed()<<std::endl;
       watch1.reset();
       // No smoother to make x consistent! Do it by hand
-      matrices_->parallelInformation().coarsest()->copyOwnerToAll(x,x);
+      matrices_->parallelInformation().finest()->copyOwnerToAll(x,x);
       rhs_ = std::make_shared<Hierarchy<Range,A>>(std::make_shared<Range>(b));
       lhs_ = std::make_shared<Hierarchy<Domain,A>>(std::make_shared<Domain>(x));
       residual_ = std::make_shared<Hierarchy<Domain,A>>(std::make_shared<Domain>(x));
-- 
2.43.0


From faceabbc3e16815cb3725796c298f0e3ba6735ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 32/51] fix: AMG::pre without smoothers makes x consistent with
 the finest communication

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index 2c9a990..cc1b7b6 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -838,7 +838,7 @@ namespace Dune
         smoothers_->finest()->pre(x,b);
       else
         // No smoother to make x consistent! Do it by hand
-        matrices_->parallelInformation().coarsest()->copyOwnerToAll(x,x);
+        matrices_->parallelInformation().finest()->copyOwnerToAll(x,x);
       rhs_ = std::make_shared<Hierarchy<Range,A>>(std::make_shared<Range>(b));
       lhs_ = std::make_shared<Hierarchy<Domain,A>>(std::make_shared<Domain>(x));
       update_ = std::make_shared<Hierarchy<Domain,A>>(std::make_shared<Domain>(x));
-- 
2.43.0


From 9b6889eb49147c8903bee530bd9127e7fe0e3d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 33/51] fix: read minCoarseningRate as the real number it is

---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index cc1b7b6..fd95d16 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -542,7 +542,7 @@ namespace Dune
         criterion.setMaxLevel(configuration.get<int>("maxLevel"));
 
       if (configuration.hasKey ("minCoarseningRate"))
-        criterion.setMinCoarsenRate(configuration.get<int>("minCoarseningRate"));
+        criterion.setMinCoarsenRate(configuration.get<double>("minCoarseningRate"));
 
       if (configuration.hasKey ("coarsenTarget"))
         criterion.setCoarsenTarget (configuration.get<int>("coarsenTarget"));
-- 
2.43.0


From da67e15f36505f01521fc41ab3ae6909225101c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 34/51] fix: accumulationMode "successive" selects the
 accumulation mode

It overwrote the coarsen target instead.
---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index fd95d16..aad18d2 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -555,7 +555,7 @@ namespace Dune
         else if ( mode == "atonce" )
           criterion.setAccumulate(AccumulationMode::atOnceAccu);
         else if ( mode == "successive")
-          criterion.setCoarsenTarget (AccumulationMode::successiveAccu);
+          criterion.setAccumulate(AccumulationMode::successiveAccu);
         else
           DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                      << mode <<".");
-- 
2.43.0


From acec32d1ee7122ecc354db353b3a0d12481104f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:08 +0000
Subject: [PATCH 35/51] fix: honour maxAggregateDistance with a default
 aggregation size mode

The presence of a differently spelled key was tested.
---
 dune/istl/paamg/amg.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/paamg/amg.hh b/dune/istl/paamg/amg.hh
index aad18d2..c1bb3e0 100644
--- a/dune/istl/paamg/amg.hh
+++ b/dune/istl/paamg/amg.hh
@@ -569,7 +569,7 @@ namespace Dune
         auto mode = ToLower()(configuration.get<std::string>("defaultAggregationSizeMode"));
         auto dim = configuration.get<std::size_t>("defaultAggregationDimension");
         std::size_t maxDistance = 2;
-        if (configuration.hasKey("MaxAggregateDistance"))
+        if (configuration.hasKey("maxAggregateDistance"))
           maxDistance = configuration.get<std::size_t>("maxAggregateDistance");
         if (mode == "isotropic")
           criterion.setDefaultValuesIsotropic(dim, maxDistance);
-- 
2.43.0


From 18a9b6e651cd3ed3711b5be03d49328798cdfee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:32 +0000
Subject: [PATCH 36/51] fix: VariableBlockVector iterators at the end and
 before the ends carry their index

rend() const did not compile.
---
 dune/istl/vbvector.hh | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/dune/istl/vbvector.hh b/dune/istl/vbvector.hh
index 6318650..734ba71 100644
--- a/dune/istl/vbvector.hh
+++ b/dune/istl/vbvector.hh
@@ -422,21 +422,21 @@ namespace Dune {
     //! end Iterator
     Iterator end ()
     {
-      return Iterator{block.end()};
+      return Iterator{block.end(), std::ptrdiff_t(block.size())};
     }
 
     //! @returns an iterator that is positioned before
     //! the end iterator of the vector, i.e. at the last entry.
     Iterator beforeEnd ()
     {
-      return Iterator{--block.end()};
+      return Iterator{--block.end(), std::ptrdiff_t(block.size())-1};
     }
 
     //! @returns an iterator that is positioned before
     //! the first entry of the vector.
     Iterator beforeBegin ()
     {
-      return Iterator{--block.begin()};
+      return Iterator{--block.begin(), -1};
     }
 
     /** \brief Export the iterator type using std naming rules */
@@ -457,27 +457,27 @@ namespace Dune {
     //! end ConstIterator
     ConstIterator end () const
     {
-      return ConstIterator{block.end()};
+      return ConstIterator{block.end(), std::ptrdiff_t(block.size())};
     }
 
     //! @returns an iterator that is positioned before
     //! the end iterator of the vector. i.e. at the last element.
     ConstIterator beforeEnd () const
     {
-      return ConstIterator{--block.end()};
+      return ConstIterator{--block.end(), std::ptrdiff_t(block.size())-1};
     }
 
     //! @returns an iterator that is positioned before
     //! the first entry of the vector.
     ConstIterator beforeBegin () const
     {
-      return ConstIterator{--block.begin()};
+      return ConstIterator{--block.begin(), -1};
     }
 
     //! end ConstIterator
     ConstIterator rend () const
     {
-      return ConstIterator{block.rend()};
+      return beforeBegin();
     }
 
     //! random access returning iterator (end if not contained)
-- 
2.43.0


From 997490b0d958d4a67d5c98f5f38965baffcd65bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:32 +0000
Subject: [PATCH 37/51] fix: copying a BCRSMatrix does not write the column
 indices it shares with the source

The copy re-wrote the shared index array, which corrupted the source if its
rows were not contiguous (random mode with over-estimated row sizes).
---
 dune/istl/bcrsmatrix.hh | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index ae455ce..2ae7eed 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2169,7 +2169,16 @@ namespace Dune {
       setWindowPointers(Mat.begin());
 
       // copy data
-      for (size_type i=0; i<n; i++) r[i] = Mat.r[i];
+      if (j_ == Mat.j_) {
+        // the column indices are shared with Mat and must not be written
+        for (size_type i=0; i<n; i++)
+          if (r[i].getsize() > 0) {
+            r[i].setindexptr(Mat.r[i].getindexptr());
+            std::copy_n(Mat.r[i].getptr(), r[i].getsize(), r[i].getptr());
+          }
+      }
+      else
+        for (size_type i=0; i<n; i++) r[i] = Mat.r[i];
 
       // finish off
       build_mode = row_wise; // dummy
-- 
2.43.0


From 17e6a469722558e0b73d5ac4e2c9439e3d82265f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:32 +0000
Subject: [PATCH 38/51] fix: BCRSMatrix::nonzeroes() does not modify the matrix

The cached count was written by a const query, and switched the allocation
mode when asked for during row-wise creation.
---
 dune/istl/bcrsmatrix.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/bcrsmatrix.hh b/dune/istl/bcrsmatrix.hh
index 2ae7eed..d4cfe05 100644
--- a/dune/istl/bcrsmatrix.hh
+++ b/dune/istl/bcrsmatrix.hh
@@ -2030,7 +2030,7 @@ namespace Dune {
     {
       // in case of row-wise allocation
       if( nnz_ <= 0 )
-        nnz_ = std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
+        return std::accumulate( begin(), end(), size_type( 0 ), [] ( size_type s, const row_type &row ) { return s+row.getsize(); } );
       return nnz_;
     }
 
@@ -2074,7 +2074,7 @@ namespace Dune {
     // size of the matrix
     size_type n;       // number of rows
     size_type m;       // number of columns
-    mutable size_type nnz_;     // number of nonzeroes contained in the matrix
+    size_type nnz_;     // number of nonzeroes contained in the matrix
     size_type allocationSize_; //allocated size of a and j arrays, except in implicit mode: nnz_==allocationsSize_
     // zero means that memory is allocated separately for each row.
 
-- 
2.43.0


From caaba8959b5e78d3603c5f76e2b9913639a0a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:08 +0000
Subject: [PATCH 39/51] fix: redistributing matrices keeps no state shared
 between threads

---
 dune/istl/matrixredistribute.hh | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/dune/istl/matrixredistribute.hh b/dune/istl/matrixredistribute.hh
index 00ad7d5..1444f2f 100644
--- a/dune/istl/matrixredistribute.hh
+++ b/dune/istl/matrixredistribute.hh
@@ -520,8 +520,8 @@ namespace Dune
     typedef CommMatrixSparsityPattern<M,I> Container;
     typedef typename M::ConstColIterator ColIter;
 
-    static ColIter col;
-    static GlobalIndex numlimits;
+    static thread_local ColIter col;
+    static thread_local GlobalIndex numlimits;
 
     static const GlobalIndex& gather(const Container& cont, std::size_t i, std::size_t j)
     {
@@ -588,10 +588,10 @@ namespace Dune
 
   };
   template<class M, class I>
-  typename MatrixSparsityPatternGatherScatter<M,I>::ColIter MatrixSparsityPatternGatherScatter<M,I>::col;
+  thread_local typename MatrixSparsityPatternGatherScatter<M,I>::ColIter MatrixSparsityPatternGatherScatter<M,I>::col;
 
   template<class M, class I>
-  typename MatrixSparsityPatternGatherScatter<M,I>::GlobalIndex MatrixSparsityPatternGatherScatter<M,I>::numlimits;
+  thread_local typename MatrixSparsityPatternGatherScatter<M,I>::GlobalIndex MatrixSparsityPatternGatherScatter<M,I>::numlimits;
 
 
   template<class M, class I>
@@ -601,9 +601,9 @@ namespace Dune
     typedef CommMatrixRow<M,I> Container;
     typedef typename M::ConstColIterator ColIter;
     typedef typename std::pair<GlobalIndex,typename M::block_type> Data;
-    static ColIter col;
-    static Data datastore;
-    static GlobalIndex numlimits;
+    static thread_local ColIter col;
+    static thread_local Data datastore;
+    static thread_local GlobalIndex numlimits;
 
     static const Data& gather(const Container& cont, std::size_t i, std::size_t j)
     {
@@ -651,13 +651,13 @@ namespace Dune
   };
 
   template<class M, class I>
-  typename MatrixRowGatherScatter<M,I>::ColIter MatrixRowGatherScatter<M,I>::col;
+  thread_local typename MatrixRowGatherScatter<M,I>::ColIter MatrixRowGatherScatter<M,I>::col;
 
   template<class M, class I>
-  typename MatrixRowGatherScatter<M,I>::Data MatrixRowGatherScatter<M,I>::datastore;
+  thread_local typename MatrixRowGatherScatter<M,I>::Data MatrixRowGatherScatter<M,I>::datastore;
 
   template<class M, class I>
-  typename MatrixRowGatherScatter<M,I>::GlobalIndex MatrixRowGatherScatter<M,I>::numlimits;
+  thread_local typename MatrixRowGatherScatter<M,I>::GlobalIndex MatrixRowGatherScatter<M,I>::numlimits;
 
   template<typename M, typename C>
   void redistributeSparsityPattern(M& origMatrix, M& newMatrix, C& origComm, C& newComm,
-- 
2.43.0


From b102032116afa6030b9983873af1d6489bf54296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 40/51] fix: parallel scalar product conjugates its first
 argument

OwnerOverlapCopyCommunication::dot used the non-conjugating product of the
blocks, so for complex fields dot(x,x) was not norm(x)^2 and differed from
the sequential scalar product.
---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index ebd2745..601dc4e 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -411,7 +411,7 @@ namespace Dune {
       result = T2(0.0);
 
       for (typename T1::size_type i=0; i<x.size(); i++)
-        result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);
+        result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);
       result = cc.sum(result);
     }
 
-- 
2.43.0


From f31c005b68e242fe0ffeacc5ccbbd05cb17542d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 41/51] fix: do not dereference the end of the index set

When a remote index names a global index that is not in the local set the
search loop looked at the end iterator before comparing with it.
---
 dune/istl/owneroverlapcopy.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index 601dc4e..dea5934 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -626,7 +626,7 @@ namespace Dune {
           }
 
           // position to correct entry in parallel index set
-          while (pi->global()!=std::get<1>(*i) && pi!=pis.end())
+          while (pi!=pis.end() && pi->global()!=std::get<1>(*i))
             ++pi;
           if (pi==pis.end())
             DUNE_THROW(ISTLError,"OwnerOverlapCopyCommunication: global index not in index set");
-- 
2.43.0


From c877017ee432fb6e162d1b6fe272a495eadf0d9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 42/51] fix: rebuild the mask of dot and norm after a change of
 the index set

The mask was only rebuilt when the size of the vectors changed, entries whose
attribute had changed were counted twice or not at all.
---
 dune/istl/owneroverlapcopy.hh | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index dea5934..a75feba 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -399,8 +399,9 @@ namespace Dune {
     {
       using real_type = typename FieldTraits<typename T1::field_type>::real_type;
       // set up mask vector
-      if (mask.size()!=static_cast<typename std::vector<double>::size_type>(x.size()))
+      if (mask.size()!=static_cast<typename std::vector<double>::size_type>(x.size()) || maskSeqNo!=pis.seqNo())
       {
+        maskSeqNo = pis.seqNo();
         mask.resize(x.size());
         for (typename std::vector<double>::size_type i=0; i<mask.size(); i++)
           mask[i] = 1;
@@ -427,8 +428,9 @@ namespace Dune {
       using real_type = typename FieldTraits<typename T1::field_type>::real_type;
 
       // set up mask vector
-      if (mask.size()!=static_cast<typename std::vector<double>::size_type>(x.size()))
+      if (mask.size()!=static_cast<typename std::vector<double>::size_type>(x.size()) || maskSeqNo!=pis.seqNo())
       {
+        maskSeqNo = pis.seqNo();
         mask.resize(x.size());
         for (typename std::vector<double>::size_type i=0; i<mask.size(); i++)
           mask[i] = 1;
@@ -687,6 +689,7 @@ namespace Dune {
     mutable IF CopyToAllInterface;
     mutable bool CopyToAllInterfaceBuilt;
     mutable std::vector<double> mask;
+    mutable int maskSeqNo = -1;
     int oldseqNo;
     GlobalLookupIndexSet* globalLookup_;
     const SolverCategory::Category category_;
-- 
2.43.0


From 7b51aedca26faed15f67fc57399c9a6d699be0c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:05:11 +0000
Subject: [PATCH 43/51] fix: rebuild the interfaces of
 OwnerOverlapCopyCommunication after a change of the index set

Interfaces are built lazily and were kept for ever; after the index set was
resized and the remote indices rebuilt the exchanges used the old ones.
---
 dune/istl/owneroverlapcopy.hh | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/dune/istl/owneroverlapcopy.hh b/dune/istl/owneroverlapcopy.hh
index a75feba..bf15857 100644
--- a/dune/istl/owneroverlapcopy.hh
+++ b/dune/istl/owneroverlapcopy.hh
@@ -230,6 +230,22 @@ namespace Dune {
       }
     };
 
+    // drop the interfaces that were built before the last change of the index set
+    void freeOutdatedInterfaces () const
+    {
+      if (interfaceSeqNo==pis.seqNo())
+        return;
+      OwnerToAllInterface.free();
+      OwnerOverlapToAllInterface.free();
+      OwnerCopyToAllInterface.free();
+      OwnerCopyToOwnerCopyInterface.free();
+      CopyToAllInterface.free();
+      OwnerToAllInterfaceBuilt = OwnerOverlapToAllInterfaceBuilt = false;
+      OwnerCopyToAllInterfaceBuilt = OwnerCopyToOwnerCopyInterfaceBuilt = false;
+      CopyToAllInterfaceBuilt = false;
+      interfaceSeqNo = pis.seqNo();
+    }
+
     void buildOwnerOverlapToAllInterface () const
     {
       if (OwnerOverlapToAllInterfaceBuilt)
@@ -310,6 +326,7 @@ namespace Dune {
     template<class T>
     void copyOwnerToAll (const T& source, T& dest) const
     {
+      freeOutdatedInterfaces();
       if (!OwnerToAllInterfaceBuilt)
         buildOwnerToAllInterface ();
       BC communicator;
@@ -327,6 +344,7 @@ namespace Dune {
     template<class T>
     void copyCopyToAll (const T& source, T& dest) const
     {
+      freeOutdatedInterfaces();
       if (!CopyToAllInterfaceBuilt)
         buildCopyToAllInterface ();
       BC communicator;
@@ -344,6 +362,7 @@ namespace Dune {
     template<class T>
     void addOwnerOverlapToAll (const T& source, T& dest) const
     {
+      freeOutdatedInterfaces();
       if (!OwnerOverlapToAllInterfaceBuilt)
         buildOwnerOverlapToAllInterface ();
       BC communicator;
@@ -361,6 +380,7 @@ namespace Dune {
     template<class T>
     void addOwnerCopyToAll (const T& source, T& dest) const
     {
+      freeOutdatedInterfaces();
       if (!OwnerCopyToAllInterfaceBuilt)
         buildOwnerCopyToAllInterface ();
       BC communicator;
@@ -378,6 +398,7 @@ namespace Dune {
     template<class T>
     void addOwnerCopyToOwnerCopy (const T& source, T& dest) const
     {
+      freeOutdatedInterfaces();
       if (!OwnerCopyToOwnerCopyInterfaceBuilt)
         buildOwnerCopyToOwnerCopyInterface ();
       BC communicator;
@@ -688,6 +709,7 @@ namespace Dune {
     mutable bool OwnerCopyToOwnerCopyInterfaceBuilt;
     mutable IF CopyToAllInterface;
     mutable bool CopyToAllInterfaceBuilt;
+    mutable int interfaceSeqNo = -1;
     mutable std::vector<double> mask;
     mutable int maskSeqNo = -1;
     int oldseqNo;
-- 
2.43.0


From 975cdd374fd30f95420146433a10759e2858bc63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:37 +0000
Subject: [PATCH 44/51] fix: MatrixMarket: entries outside of the announced
 matrix and unreadable entries are rejected

---
 dune/istl/matrixmarket.hh | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 5c2d782..2810a14 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -61,6 +61,9 @@ namespace Dune
    * @brief Provides classes for reading and writing MatrixMarket Files with
    * an extension for parallel matrices.
    */
+  class MatrixMarketFormatError : public Dune::Exception
+  {};
+
   namespace MatrixMarketImpl
   {
     /**
@@ -776,17 +779,23 @@ namespace Dune
       // store entries together with column index in a separate
       // data structure
       std::vector<std::set<IndexData<D> > > rows(matrix.N()*brows);
+      const std::size_t cols = matrix.M()*bcols;
+
+      if(mmHeader.structure!=general && rows.size()!=cols)
+        DUNE_THROW(MatrixMarketFormatError, "Only square matrices can be (skew-)symmetric or hermitian!");
 
       auto readloop = [&] (auto symmetryFixup) {
         for(std::size_t i = 0; i < entries; ++i) {
-          std::size_t row;
+          std::size_t row = 0;
           IndexData<D> data;
           skipComments(file);
           file>>row;
           --row; // Index was 1 based.
-          assert(row/bcols<matrix.N());
           file>>data;
-          assert(data.index/bcols<matrix.M());
+          if(!file)
+            DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of " << entries << "!");
+          if(row>=rows.size() || data.index>=cols)
+            DUNE_THROW(MatrixMarketFormatError, "Entry " << i+1 << " is outside of the matrix!");
           rows[row].insert(data);
           if(row!=data.index)
             symmetryFixup(row, data);
@@ -864,10 +873,6 @@ namespace Dune
 
   } // end namespace MatrixMarketImpl
 
-  class MatrixMarketFormatError : public Dune::Exception
-  {};
-
-
   inline void mm_read_header(std::size_t& rows, std::size_t& cols,
                              MatrixMarketImpl::MMHeader& header, std::istream& istr,
                              bool isVector)
-- 
2.43.0


From 6912cadd810ef7f3f0f2485515e93ed0854e4499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:37 +0000
Subject: [PATCH 45/51] fix: MatrixMarket: unreadable sizes and sizes that are
 no multiple of the block size are rejected

---
 dune/istl/matrixmarket.hh | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 2810a14..19b92d1 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -899,6 +899,9 @@ namespace Dune
     if(lineFeed(istr))
       throw MatrixMarketFormatError();
     istr >> cols;
+
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the dimensions!");
   }
 
   template<typename T, typename A>
@@ -1010,12 +1013,18 @@ namespace Dune
 
     istr >>entries;
 
+    if(!istr)
+      DUNE_THROW(MatrixMarketFormatError, "Could not read the dimensions and the number of entries!");
+
     std::size_t nnz, blockrows, blockcols;
 
     // Number of rows and columns of T, if it is a matrix (1x1 otherwise)
     constexpr int brows = mm_multipliers<Matrix>::rows;
     constexpr int bcols = mm_multipliers<Matrix>::cols;
 
+    if(rows%brows!=0 || cols%bcols!=0)
+      DUNE_THROW(MatrixMarketFormatError, "Block size of matrix is not correct!");
+
     std::tie(blockrows, blockcols, nnz) = calculateNNZ<brows, bcols>(rows, cols, entries, header);
 
     istr.ignore(std::numeric_limits<std::streamsize>::max(),'\n');
-- 
2.43.0


From 7939c4c56f4d8b65af4b79595a3e36df4abb2498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:37 +0000
Subject: [PATCH 46/51] fix: MatrixMarket: truncated vector data is rejected

---
 dune/istl/matrixmarket.hh | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 19b92d1..cb59367 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -910,8 +910,9 @@ namespace Dune
                               std::istream& istr,
                               size_t lane)
   {
-    for (int i=0; size>0; ++i, --size)
-        istr>>Simd::lane(lane,vector[i]);
+    for (std::size_t i=0; size>0; ++i, --size)
+      if(!(istr>>Simd::lane(lane,vector[i])))
+        DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of the vector!");
   }
 
   template<typename T, typename A, int entries>
@@ -920,9 +921,10 @@ namespace Dune
                               std::istream& istr,
                               size_t lane)
   {
-    for(int i=0; size>0; ++i, --size) {
+    for(std::size_t i=0; size>0; ++i, --size) {
       Simd::Scalar<T> val;
-      istr>>val;
+      if(!(istr>>val))
+        DUNE_THROW(MatrixMarketFormatError, "Could not read entry " << i+1 << " of the vector!");
       Simd::lane(lane, vector[i/entries][i%entries])=val;
     }
   }
-- 
2.43.0


From b0d1f9e69d2b11803a916c045483f7079522b394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:37 +0000
Subject: [PATCH 47/51] fix: MatrixMarket: pattern files and complex values for
 a real matrix are rejected

---
 dune/istl/matrixmarket.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index cb59367..754952e 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1038,6 +1038,12 @@ namespace Dune
     if(header.type==array_type)
       DUNE_THROW(Dune::NotImplemented, "Array format currently not supported for matrices!");
 
+    if(header.ctype==pattern)
+      DUNE_THROW(Dune::NotImplemented, "Pattern files contain no values for the matrix!");
+
+    if((header.ctype==complex_type)!=is_complex<typename Matrix::field_type>::value)
+      DUNE_THROW(MatrixMarketFormatError, "The entries of the file do not have the field type of the matrix!");
+
     readSparseEntries(matrix, istr, entries, header, NumericWrapper<typename Matrix::field_type>());
   }
 
-- 
2.43.0


From 1f13abf3c74efdf968c8afc2f7b0c8233a4de86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:37 +0000
Subject: [PATCH 48/51] fix: MatrixMarket: complex matrix entries are written
 as two numbers

---
 dune/istl/matrixmarket.hh | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 754952e..8ee4c95 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1054,14 +1054,17 @@ namespace Dune
                       std::size_t colidx,
                       std::ostream& ostr)
   {
-    if constexpr (IsNumber<B>())
+    if constexpr (MatrixMarketImpl::is_complex<B>::value)
+      // the format wants real and imaginary part separately
+      ostr << rowidx << " " << colidx << " " << entry.real() << " " << entry.imag() << std::endl;
+    else if constexpr (IsNumber<B>())
       ostr << rowidx << " " << colidx << " " << entry << std::endl;
     else
     {
       for (auto row=entry.begin(); row != entry.end(); ++row, ++rowidx) {
-        int coli=colidx;
+        std::size_t coli=colidx;
         for (auto col = row->begin(); col != row->end(); ++col, ++coli)
-          ostr<< rowidx<<" "<<coli<<" "<<*col<<std::endl;
+          mm_print_entry(*col, rowidx, coli, ostr);
       }
     }
   }
-- 
2.43.0


From dca231837ccda32c6450606aa1894e38f057adca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:37 +0000
Subject: [PATCH 49/51] fix: MatrixMarket: the number of nonzeroes of symmetric
 files was underestimated

---
 dune/istl/matrixmarket.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 8ee4c95..0c9a6e5 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -561,9 +561,9 @@ namespace Dune
       case skew_symmetric :
         blockentries = 2*entries/blocksize; break;
       case symmetric :
-        blockentries = (2*entries-rows)/blocksize; break;
+        blockentries = 2*entries/blocksize; break;
       case hermitian :
-        blockentries = (2*entries-rows)/blocksize; break;
+        blockentries = 2*entries/blocksize; break;
       default :
         throw Dune::NotImplemented();
       }
-- 
2.43.0


From 794d06ef7d25f9a01daacde7b51b75b3c1c6207a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:28:37 +0000
Subject: [PATCH 50/51] fix: MatrixMarket: unreadable index files are rejected

---
 dune/istl/matrixmarket.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dune/istl/matrixmarket.hh b/dune/istl/matrixmarket.hh
index 0c9a6e5..4964522 100644
--- a/dune/istl/matrixmarket.hh
+++ b/dune/istl/matrixmarket.hh
@@ -1342,7 +1342,7 @@ namespace Dune
       DUNE_THROW(InvalidIndexSetState, "Index set is not empty!");
 
     pis.beginResize();
-    while(!file.eof() && file.peek()!='n') {
+    while(file.peek()!='n' && !file.eof()) {
       G g;
       file >>g;
       std::size_t l;
@@ -1351,6 +1351,8 @@ namespace Dune
       file >>c;
       bool b;
       file >> b;
+      if(!file)
+        DUNE_THROW(MatrixMarketFormatError, "Could not read an entry of the index set!");
       pis.add(g,LocalIndexT(l,Attribute(c),b));
       lineFeed(file);
     }
@@ -1362,11 +1364,9 @@ namespace Dune
       if(s!="neighbours:")
         DUNE_THROW(MatrixMarketFormatError, "was expecting the string: \"neighbours:\"");
       std::set<int> nb;
-      while(!file.eof()) {
-        int i;
-        file >> i;
+      int i;
+      while(file >> i)
         nb.insert(i);
-      }
       file.close();
       comm.ri.setNeighbours(nb);
     }
-- 
2.43.0


From 5ee4cb43dbdddcdcc2be7765baf7e2ec656cbd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:59 +0000
Subject: [PATCH 51/51] fix: assigning a constant row iterator of Matrix moves
 the iterator

The implicit assignment copied the contents of the row.
---
 dune/istl/matrix.hh | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/dune/istl/matrix.hh b/dune/istl/matrix.hh
index 8e04776..d3e623d 100644
--- a/dune/istl/matrix.hh
+++ b/dune/istl/matrix.hh
@@ -421,6 +421,16 @@ namespace MatrixImp
       : i(it.i), window_(it.window_.getptr(),it.window_.getsize())
       {}
 
+      ConstIterator (const ConstIterator& other) = default;
+
+      ConstIterator& operator=(const ConstIterator& other)
+      {
+        i = other.i;
+        // Do NOT use window_.operator=, because that copies the window content, not just the window!
+        window_.set(other.window_.getsize(),other.window_.getptr());
+        return *this;
+      }
+
       ConstIterator& operator=(Iterator&& other)
       {
         i = other.i;
-- 
2.43.0

