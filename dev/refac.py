#!/usr/bin/env python3
"""Development aid: behaviour-preserving refactorings; every claimed check has to stay quiet on each tree.
usage: refac.py [tree-substring] [PROP ...]"""
import sys, os, re, shutil, subprocess, tempfile, json
from concurrent.futures import ThreadPoolExecutor
B='bcrsmatrix.hh'; V='bvector.hh'; SO='solver.hh'; SV='solvers.hh'; P='preconditioners.hh'; G='gsetc.hh'; I='ilu.hh'; A='paamg/amg.hh'; O='owneroverlapcopy.hh'
T = {}
T['bcrs'] = [
 (B,'''      ConstRowIterator endi=end();
      for (ConstRowIterator i=this->begin(); i!=endi; ++i)
      {
        y[i.index()]=0;
        ConstColIterator endj = (*i).end();
        for (ConstColIterator j=(*i).begin(); j!=endj; ++j)
        {
          auto&& xj = Impl::asVector(x[j.index()]);
          auto&& yi = Impl::asVector(y[i.index()]);
          Impl::asMatrix(*j).umv(xj, yi);
        }
      }
''','''      for (ConstRowIterator row=begin(); row!=end(); ++row)
      {
        const auto rowIndex = row.index();
        y[rowIndex] = 0;
        auto&& yi = Impl::asVector(y[rowIndex]);
        for (auto col=row->begin(); col!=row->end(); ++col)
          Impl::asMatrix(*col).umv(Impl::asVector(x[col.index()]), yi);
      }
'''),
 (B,'''      ConstRowIterator endi=end();
      for (ConstRowIterator i=this->begin(); i!=endi; ++i)
      {
        ConstColIterator endj = (*i).end();
        for (ConstColIterator j=(*i).begin(); j!=endj; ++j)
        {
          auto&& xj = Impl::asVector(x[j.index()]);
          auto&& yi = Impl::asVector(y[i.index()]);
          Impl::asMatrix(*j).usmv(alpha,xj,yi);
        }
      }
    }
''','''      forEachEntry([&](auto row, auto col, const auto& entry) {
        auto&& yi = Impl::asVector(y[row]);
        Impl::asMatrix(entry).usmv(alpha, Impl::asVector(x[col]), yi);
      });
    }

    //! call f(row index, column index, entry) for all entries
    template<class F>
    void forEachEntry (F&& f) const
    {
      ConstRowIterator endi=end();
      for (ConstRowIterator i=this->begin(); i!=endi; ++i)
      {
        ConstColIterator endj = (*i).end();
        for (ConstColIterator j=(*i).begin(); j!=endj; ++j)
          f(i.index(), j.index(), *j);
      }
    }
'''),
 (B,'''      real_type norm = 0;
      for (auto const &x : *this) {
        real_type sum = 0;
        for (auto const &y : x)
          sum += Impl::asMatrix(y).infinity_norm();
        norm = max(sum, norm);
      }
      return norm;''','''      real_type norm = 0;
      for (size_type i=0; i<N(); ++i) {
        real_type rowSum = 0;
        const row_type& row = (*this)[i];
        for (auto&& entry : row)
          rowSum += Impl::asMatrix(entry).infinity_norm();
        if (rowSum > norm)
          norm = rowSum;
      }
      return norm;'''),
 (B,'''      typename FieldTraits<field_type>::real_type sum=0;

      for (auto&& row : (*this))
        for (auto&& entry : row)
          sum += Impl::asMatrix(entry).frobenius_norm2();

      return sum;''','''      using real_type = typename FieldTraits<field_type>::real_type;
      real_type result(0);
      for (ConstRowIterator i=begin(); i!=end(); ++i)
        for (ConstColIterator j=i->begin(), last=i->end(); j!=last; ++j)
          result += Impl::asMatrix(*j).frobenius_norm2();
      return result;'''),
 (B,'''      // drop entries that have not been merged by compress()
      overflow.clear();

      // Mark matrix as not built at all.
      ready=notAllocated;
''','''      // Mark matrix as not built at all, drop entries that have not been merged by compress()
      ready=notAllocated;
      overflow.clear();
'''),
 (B,'''        for (size_type i=0; i<n; i++)
          if (r[i].getsize()>0 && r[i].getptr())
          {
            for (B *col=r[i].getptr()+(r[i].getsize()-1),
                 *colend = r[i].getptr()-1; col!=colend; --col) {
              std::allocator_traits<decltype(allocator_)>::destroy(allocator_, col);
            }
            sizeAllocator_.deallocate(r[i].getindexptr(),r[i].getsize());
            allocator_.deallocate(r[i].getptr(),r[i].getsize());
            // clear out row data in case we don't want to deallocate the rows
            // otherwise we might run into a double free problem here later
            r[i].set(0,nullptr,nullptr);
          }
''','''        for (size_type i=0; i<n; i++)
          deallocateRow(r[i]);
'''),
 (B,'''    void deallocate(bool deallocateRows=true)
    {
''','''    void deallocateRow(row_type& row)
    {
      const size_type length = row.getsize();
      if (length == 0 || !row.getptr())
        return;
      B* entries = row.getptr();
      for (size_type k=length; k>0; --k)
        std::allocator_traits<decltype(allocator_)>::destroy(allocator_, entries+(k-1));
      allocator_.deallocate(entries, length);
      sizeAllocator_.deallocate(row.getindexptr(), length);
      // clear out row data, so that it is not released twice
      row.set(0,nullptr,nullptr);
    }

    void deallocate(bool deallocateRows=true)
    {
'''),
 (B,'''      if (build_mode == implicit)
      {
        if (nnz>0)
          DUNE_THROW(Dune::BCRSMatrixError,"number of non-zeroes may not be set in implicit mode, use setImplicitBuildModeParameters() instead");
        if (compressionBufferSize_ < 0)
          DUNE_THROW(InvalidStateException,"You have to set the implicit build mode parameters before starting to build the matrix");
      }

      // deallocate already setup memory
      deallocate();

      if (build_mode == implicit)
      {
        // implicit allocates differently
        implicit_allocate(rows,columns);
      }
      else
      {
        // allocate matrix memory
        allocate(rows, columns, nnz, true, false);
      }
''','''      const bool isImplicit = (build_mode == implicit);
      if (isImplicit && nnz>0)
        DUNE_THROW(Dune::BCRSMatrixError,"number of non-zeroes may not be set in implicit mode, use setImplicitBuildModeParameters() instead");
      if (isImplicit && compressionBufferSize_ < 0)
        DUNE_THROW(InvalidStateException,"You have to set the implicit build mode parameters before starting to build the matrix");

      // release the memory of the old matrix
      deallocate();

      if (!isImplicit)
        allocate(rows, columns, nnz, true, false);
      else
        implicit_allocate(rows,columns);
'''),
]
T['vec'] = [
 (V,'''      for (size_type i=0; i<this->n; ++i) (*this)[i] += y[i];
      return *this;
''','''      auto other = y.begin();
      for (auto& block : *this) {
        block += *other;
        ++other;
      }
      return *this;
'''),
 (V,'''      for (size_type i=0; i<this->n; ++i) (*this)[i] *= k;
      return *this;
''','''      for (auto& block : *this)
        block *= k;
      return *this;
'''),
 (V,'''      for (size_type i=0; i<this->n; ++i)
        Impl::asVector((*this)[i]).axpy(a,Impl::asVector(y[i]));

''','''      const size_type size = this->n;
      for (size_type i=0; i!=size; ++i) {
        auto&& xi = Impl::asVector((*this)[i]);
        auto&& yi = Impl::asVector(y[i]);
        xi.axpy(a, yi);
      }
'''),
 (V,'''      for (size_type i=0; i<this->n; i++)
        (*this)[i] = k;
      return *this;
''','''      size_type i = 0;
      while (i < this->n)
        (*this)[i++] = k;
      return *this;
''',1),
]
T['solver'] = [
 (SO,'''        _res.converged = (Simd::allTrue(def<_def0*_parent._reduction || def<real_type(1E-30)));    // convergence check
        return _res.converged;
      }
''','''        _res.converged = isConverged(def);
        return _res.converged;
      }

      //! whether the defect is small enough
      bool isConverged(const real_type& def) const {
        return Simd::allTrue(def<_def0*_parent._reduction || def<real_type(1E-30));
      }
'''),
 (SO,'''      scalar_real_type saved_reduction = _reduction;
      _reduction = reduction;
      try {
        this->apply(x,b,res);
      }
      catch (...) {
        _reduction = saved_reduction;
        throw;
      }
      _reduction = saved_reduction;
''','''      // restores the reduction when the scope is left
      struct Restore {
        scalar_real_type& target;
        scalar_real_type value;
        ~Restore() { target = value; }
      } restore{_reduction, _reduction};
      _reduction = reduction;
      this->apply(x,b,res);
'''),
 (SO,'''        _def = def;
        _i = i;
        _res.conv''','''        _i = i;
        _def = def;
        _res.conv'''),
 (SV,'''      int i=1;   // loop variables
      field_type lambda;
      for ( ; i<=_maxit; i++ )
      {
        p = 0;                      // clear correction
        _prec->apply(p,b);           // apply preconditioner
        _op->apply(p,q);             // q=Ap
        auto alpha = _sp->dot(q,p);
        lambda = Simd::cond(def==field_type(0.),
                            field_type(0.), // no need for minimization if def is already 0
                            _sp->dot(p,b)/alpha); // minimization
        x.axpy(lambda,p);           // update solution
        b.axpy(-lambda,q);          // update defect

        def =_sp->norm(b); // comp defect norm
        if(iteration.step(i, def))
          break;
      }
''','''      bool done = false;
      for (int i=1; !done && i<=_maxit; ++i)
      {
        computeDirection(p, q, b);
        const field_type alpha = _sp->dot(q,p);
        const field_type beta = _sp->dot(p,b);
        const field_type lambda = Simd::cond(def==field_type(0.), field_type(0.), beta/alpha);
        b.axpy(-lambda,q);          // update defect
        x.axpy(lambda,p);           // update solution

        def =_sp->norm(b); // comp defect norm
        done = iteration.step(i, def);
      }
'''),
 (SV,'''    using Iteration = typename IterativeSolver<X,X>::template Iteration<unsigned int>;
  };
  DUNE_REGISTER_SOLVER("gradientsolver"''','''    using Iteration = typename IterativeSolver<X,X>::template Iteration<unsigned int>;

    //! p = M^{-1} b, q = A p
    void computeDirection (X& p, X& q, const X& b) const
    {
      p = 0;
      _prec->apply(p,b);
      _op->apply(p,q);
    }
  };
  DUNE_REGISTER_SOLVER("gradientsolver"'''),
 (SV,'''      // determine initial search direction
      p = 0;                          // clear correction
      _prec->apply(p,b);               // apply preconditioner
      rholast = _sp->dot(p,b);         // orthogonalization

      // the loop
      int i=1;
      for ( ; i<=_maxit; i++ )
      {
        // minimize in given search direction p
        _op->apply(p,q);             // q=Ap
        alpha = _sp->dot(p,q);       // scalar product
        lambda = Simd::cond''','''      auto precondition = [&](X& correction) {
        correction = 0;
        _prec->apply(correction, b);
        return _sp->dot(correction, b);
      };

      // determine initial search direction
      rholast = precondition(p);

      // the loop
      int i=1;
      for ( ; i<=_maxit; ++i )
      {
        // minimize in given search direction p
        _op->apply(p,q);             // q=Ap
        alpha = _sp->dot(p,q);       // scalar product
        lambda = Simd::cond'''),
 (SV,'''        q = 0;                      // clear correction
        _prec->apply(q,b);           // apply preconditioner
        rho = _sp->dot(q,b);         // orthogonalization
        beta = Simd::cond(def==field_type(0.), field_type(0.), rho/rholast);         // scaling factor
        if constexpr (enableConditionEstimate)''','''        rho = precondition(q);
        beta = Simd::cond(def==field_type(0.), field_type(0.), rho/rholast);         // scaling factor
        if constexpr (enableConditionEstimate)'''),
 (SV,'''      while(j <= _maxit && res.converged != true) {

        int i = 0;
        v[0] *= Simd::cond(norm==real_type(0.),
                           real_type(0.),
                           real_type(1.0)/norm);
        s[0] = norm;
        for(i=1; i<m+1; i++)
          s[i] = 0.0;

        for(i=0; i < m && j <= _maxit && res.converged != true; i++, j++) {
          w = 0.0;
          // use v[i+1] as temporary vector
          v[i+1] = 0.0;
          // do Arnoldi algorithm
          _op->apply(v[i],v[i+1]);
          _prec->apply(w,v[i+1]);
''','''      while(!res.converged && j <= _maxit) {

        v[0] *= Simd::cond(norm==real_type(0.),
                           real_type(0.),
                           real_type(1.0)/norm);
        std::fill(s.begin()+1, s.end(), field_type(0.0));
        s[0] = norm;

        int i = 0;
        for( ; !res.converged && i < m && j <= _maxit; ++i, ++j) {
          // do Arnoldi algorithm, use v[i+1] as temporary vector
          v[i+1] = 0.0;
          _op->apply(v[i],v[i+1]);
          w = 0.0;
          _prec->apply(w,v[i+1]);
'''),
]
T['smooth'] = [
 (P,'''      for (int i=0; i<_n; i++) {
        dbjac(_A_,v,d,_w,BL<l>());
      }
''','''      int remaining = _n;
      while (remaining-- > 0)
        dbjac(_A_,v,d,_w,BL<l>());
'''),
 (P,'''      v = d;
      v *= _w;
''','''      v = d;
      const auto factor = _w;
      v *= factor;
'''),
 (G,'''      rowiterator endi=A.end();
      for (rowiterator i=A.begin(); i!=endi; ++i)
      {
        rhs = b[i.index()];           // rhs = b_i
        coliterator endj=(*i).end();           // iterate over a_ij with j < i
        coliterator j=(*i).begin();
        if constexpr (IsNumber<typename M::block_type>())
        {
          for (; j.index()<i.index(); ++j)
            rhs -= (*j) * x[j.index()];               //  rhs -= sum_{j<i} a_ij * xnew_j
          coliterator diag=j;           // *diag = a_ii
          for (; j!=endj; ++j)
            rhs -= (*j) * x[j.index()];               // rhs -= sum_{j<i} a_ij * xnew_j
          v = rhs / (*diag);
          x[i.index()] += w*v;           // x_i = w / a_ii * (b_i - sum_{j<i} a_ij * xnew_j - sum_{j>=i} a_ij * xold_j)
        }
''','''      for (rowiterator i=A.begin(), endi=A.end(); i!=endi; ++i)
      {
        const auto row = i.index();
        rhs = b[row];           // rhs = b_i
        const coliterator endj=(*i).end();
        coliterator j=(*i).begin();
        if constexpr (IsNumber<typename M::block_type>())
        {
          while (j.index()<row)
          {
            rhs -= (*j) * x[j.index()];
            ++j;
          }
          const coliterator diag=j;
          while (j!=endj)
          {
            rhs -= (*j) * x[j.index()];
            ++j;
          }
          v = rhs / (*diag);
          x[row] += w*v;
        }
'''),
 (G,'''          for (; j.index()<i.index(); ++j)
            rhs -= (*j) * x[j.index()];
          coliterator diag=j;
          for (; j!=endj; ++j)
            rhs -= (*j) * x[j.index()];
          v[i.index()] = rhs / (*diag);
''','''          coliterator diag=endj;
          for (; j!=endj; ++j)
          {
            if (j.index()==i.index())
              diag = j;
            rhs -= (*j) * x[j.index()];
          }
          v[i.index()] = rhs / (*diag);
'''),
 (I,'''          while (ik!=endij && jk!=endjk)
            if (ik.index()==jk.index())
            {
              block B(*jk);
              Impl::asMatrix(B).leftmultiply(Impl::asMatrix(*ij));
              *ik -= B;
              ++ik; ++jk;
            }
            else
            {
              if (ik.index()<jk.index())
                ++ik;
              else
                ++jk;
            }
''','''          while (ik!=endij && jk!=endjk)
          {
            if (ik.index()<jk.index())
              ++ik;
            else if (jk.index()<ik.index())
              ++jk;
            else
            {
              block update(*jk);
              Impl::asMatrix(update).leftmultiply(Impl::asMatrix(*ij));
              *ik -= update;
              ++jk;
              ++ik;
            }
          }
'''),
 (I,'''        coliterator j;
        for (j=(*i).beforeEnd(); j.index()>i.index(); --j)
          Impl::asMatrix(*j).mmv(Impl::asVector(v[j.index()]),rhs);
        auto&& vi = Impl::asVector(v[i.index()]);
''','''        coliterator j = (*i).beforeEnd();
        while (j.index()>i.index())
        {
          Impl::asMatrix(*j).mmv(Impl::asVector(v[j.index()]),rhs);
          --j;
        }
        auto&& vi = Impl::asVector(v[i.index()]);
'''),
]
T['amg'] = [
 (A,'''          // next level
          for(std::size_t i=0; i<gamma_; i++){
            mgc(levelContext);
            if (levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels())
              break;
            if(i+1 < gamma_){
              levelContext.matrix->applyscaleadd(-1., *levelContext.lhs, *levelContext.rhs);
            }
          }
''','''          // next level
          const bool nextIsCoarsest = onCoarsestLevel(levelContext);
          for(std::size_t i=0; i<gamma_; ++i){
            if (i > 0)
              levelContext.matrix->applyscaleadd(-1., *levelContext.lhs, *levelContext.rhs);
            mgc(levelContext);
            if (nextIsCoarsest)
              break;
          }
'''),
 (A,'''      if(levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels()) {
        // Solve directly
''','''      if(onCoarsestLevel(levelContext)) {
        // Solve directly
'''),
 (A,'''      void mgc(LevelContext& levelContext);
''','''      void mgc(LevelContext& levelContext);

      //! whether the level is the globally coarsest one
      bool onCoarsestLevel(const LevelContext& levelContext)
      {
        return levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels();
      }
'''),
 (A,'''        ++levelContext.lhs;
        ++levelContext.update;
        ++levelContext.matrix;
        ++levelContext.level;
        ++levelContext.redist;
''','''        ++levelContext.matrix;
        ++levelContext.redist;
        ++levelContext.level;
        ++levelContext.lhs;
        ++levelContext.update;
'''),
]
T['comm'] = [
 (O,'''        for (typename std::vector<double>::size_type i=0; i<mask.size(); i++)
          mask[i] = 1;
''','''        for (auto& m : mask)
          m = 1;
''',1),
 (O,'''      for (typename T1::size_type i=0; i<x.size(); i++)
        result +=''','''      const auto size = x.size();
      for (typename T1::size_type i=0; i<size; ++i)
        result +=''',1),
]
MX='matrix.hh'; VB='vbvector.hh'; MB='multitypeblockmatrix.hh'; MV='multitypeblockvector.hh'; SI='scaledidmatrix.hh'; DI='dilu.hh'; TL='paamg/twolevelmethod.hh'; KA='paamg/kamg.hh'; SC='schwarz.hh'; NS='novlpschwarz.hh'; SP='scalarproducts.hh'; OP='operators.hh'
T['dense'] = [
 (MX,'''      if (this->n>0) {
        size_type i=this->n;
        while (i)
          this->p[--i].~B();
        allocator_.deallocate(this->p,this->n);
      }
    }
''','''      release();
    }

    void release ()
    {
      if (this->n==0)
        return;
      for (size_type i=this->n; i>0; --i)
        this->p[i-1].~B();
      allocator_.deallocate(this->p,this->n);
    }

    void create (size_type count)
    {
      this->n = count;
      this->p = nullptr;
      if (count>0)
      {
        this->p = allocator_.allocate(count);
        new (this->p)B[count];
      }
    }
'''),
 (MX,'''      if (this->n>0) {
        size_type i=this->n;
        while (i)
          this->p[--i].~B();
        allocator_.deallocate(this->p,this->n);
      }

      this->n = rows*columns;
      if (this->n>0)
      {
        this->p = allocator_.allocate(this->n);
        new (this->p)B[this->n];
      }
      else
      {
        this->n = 0;
        this->p = nullptr;
      }
''','''      release();
      create(rows*columns);
'''),
 (MX,'''          if (this->n>0) {
            size_type i=this->n;
            while (i)
              this->p[--i].~B();
            allocator_.deallocate(this->p,this->n);
          }
''','''          release();
'''),
 (MX,'''        for (size_type i=0; i<this->n; i++)
          this->p[i]=a.p[i];
''','''        std::copy(a.p, a.p+this->n, this->p);
''',2),
 (MX,'''      for (size_type i=0; i<data_.N(); i++) {
        y[i]=0;
        for (size_type j=0; j<cols_; j++)
        {
          auto&& xj = Impl::asVector(x[j]);
          auto&& yi = Impl::asVector(y[i]);
          Impl::asMatrix((*this)[i][j]).umv(xj, yi);
        }
      }
''','''      const size_type rows = N();
      for (size_type row=0; row<rows; ++row) {
        y[row]=0;
        auto&& yRow = Impl::asVector(y[row]);
        size_type col=0;
        while (col<cols_)
        {
          Impl::asMatrix((*this)[row][col]).umv(Impl::asVector(x[col]), yRow);
          ++col;
        }
      }
'''),
 (MX,'''      for (size_type i=0; i<data_.N(); i++)

        for (size_type j=0; j<cols_; j++)
        {
          auto&& xi = Impl::asVector(x[i]);
          auto&& yj = Impl::asVector(y[j]);
          Impl::asMatrix((*this)[i][j]).umtv(xi, yj);
        }
''','''      for (size_type j=0; j<cols_; j++)
        for (size_type i=0; i<data_.N(); i++)
        {
          auto&& xi = Impl::asVector(x[i]);
          auto&& yj = Impl::asVector(y[j]);
          Impl::asMatrix((*this)[i][j]).umtv(xi, yj);
        }
'''),
 (VB,'''      if (block.size()>0) {
        block[0].set(block[0].getsize(),this->p);           // first block
        for (size_type i=1; i<block.size(); ++i)                         // and the rest
          block[i].set(block[i].getsize(),block[i-1].getptr()+block[i-1].getsize());
      }
''','''      B* start = this->p;
      for (auto& window : block) {
        window.set(window.getsize(), start);
        start += window.getsize();
      }
'''),
 (VB,'''      for (size_type i=0; i<block.size(); ++i)
        block[i].set(blockSize,this->p+(i*blockSize));
''','''      size_type offset = 0;
      for (size_type i=0; i!=numBlocks; ++i, offset += blockSize)
        block[i].set(blockSize, this->p+offset);
'''),
 (MB,'''      y = 0;
      umtv(x,y);
''','''      using namespace Dune::Hybrid;
      forEach(integralRange(Hybrid::size(y)), [&](auto&& i) {
        y[i] = 0;
      });
      umtv(x,y);
'''),
 (MB,'''      auto size = index_constant<N()>();
      Hybrid::forEach(Hybrid::integralRange(size), [&](auto&& i) {
        (*this)[i] += b[i];
      });

      return *this;
''','''      Hybrid::forEach(std::make_index_sequence<N()>(), [&](auto&& row) {
        auto& target = (*this)[row];
        target += b[row];
      });
      return *this;
'''),
]
T['dilu'] = [
 (DI,'''        for (auto a_ij = row->begin(); a_ij.index() < row_i; ++a_ij)
        {
          const auto col_j = a_ij.index();
          const auto a_ji = A[col_j].find(row_i);
          if (a_ji != A[col_j].end())
          {
            Dinv_[row_i] -= (*a_ij) * Dinv_[col_j] * (*a_ji);
          }
        }
''','''        auto& d_i = Dinv_[row_i];
        auto a_ij = row->begin();
        while (a_ij.index() < row_i)
        {
          const auto col_j = a_ij.index();
          auto&& transposedRow = A[col_j];
          const auto a_ji = transposedRow.find(row_i);
          if (a_ji == transposedRow.end())
          {
            ++a_ij;
            continue;
          }
          d_i -= (*a_ij) * Dinv_[col_j] * (*a_ji);
          ++a_ij;
        }
'''),
 (DI,'''        dblock rhsValue(d[row_i]);
        auto &&rhs = Impl::asVector(rhsValue);
        for (auto a_ij = (*row).begin(); a_ij.index() < row_i; ++a_ij)
        {
          const auto col_j = a_ij.index();
          Impl::asMatrix(*a_ij).mmv(v[col_j], rhs);
        }
''','''        dblock rhsValue = d[row_i];
        auto &&rhs = Impl::asVector(rhsValue);
        for (auto a_ij = row->begin(); ; ++a_ij)
        {
          if (a_ij.index() >= row_i)
            break;
          Impl::asMatrix(*a_ij).mmv(v[a_ij.index()], rhs);
        }
'''),
]
T['two'] = [
 (TL,'''    FineDomainType u(v);
    FineRangeType rhs(d);
''','''    auto u = v;
    auto rhs = d;
'''),
 (TL,'''    presmooth(context, preSteps_);
    policy_->moveToCoarseLevel(*context.rhs);
    InverseOperatorResult res;
    coarseSolver_->apply(policy_->getCoarseLevelLhs(), policy_->getCoarseLevelRhs(), res);
    *context.lhs=0;
    policy_->moveToFineLevel(*context.lhs);
    *context.update += *context.lhs;
''','''    presmooth(context, preSteps_);
    coarseGridCorrection(rhs, u, v);
'''),
 (TL,'''  SolverCategory::Category category() const override
  {
    return SolverCategory::sequential;
  }

private:
  /**
''','''  SolverCategory::Category category() const override
  {
    return SolverCategory::sequential;
  }

private:
  void coarseGridCorrection(const FineRangeType& defect, FineDomainType& correction, FineDomainType& update)
  {
    auto& policy = *policy_;
    policy.moveToCoarseLevel(defect);
    InverseOperatorResult result;
    coarseSolver_->apply(policy.getCoarseLevelLhs(), policy.getCoarseLevelRhs(), result);
    correction = 0;
    policy.moveToFineLevel(correction);
    update += correction;
  }

  /**
'''),
 (TL,'''      if(first_)
      {
        amg_.pre(x,b);
        first_=false;
        x_=x;
      }
      amg_.apply(x,b);
''','''      prepare(x,b);
      amg_.apply(x,b);
'''),
 (TL,'''    ~AMGInverseOperator()
''','''    void prepare(X& x, X& b)
    {
      if(!first_)
        return;
      amg_.pre(x,b);
      x_=x;
      first_=false;
    }

    ~AMGInverseOperator()
'''),
 (SC,'''    communication.project(y);     // we want this here to avoid it before the preconditioner
''','''    const auto& comm = communication;
    comm.project(y);
''',2),
 (SC,'''      for (int i=0; i<_n; i++) {
        bsorf(_A_,v,d,_w);
        bsorb(_A_,v,d,_w);
      }
''','''      int remaining = _n;
      while (remaining > 0) {
        bsorf(_A_,v,d,_w);
        bsorb(_A_,v,d,_w);
        --remaining;
      }
'''),
 (NS,'''      Y y1(y);
      y = 0;
      novlp_op_apply(x,y,alpha);
      communication.addOwnerCopyToOwnerCopy(y,y);
      y += y1;
''','''      const Y old(y);
      y = 0;
      novlp_op_apply(x,y,alpha);
      communication.addOwnerCopyToOwnerCopy(y,y);
      y += old;
'''),
 (SP,'''      field_type result(0);
      _communication->dot(x,y,result); // explicitly loop and apply masking
      return result;
''','''      field_type sum = field_type(0);
      const auto& comm = *_communication;
      comm.dot(x,y,sum);
      return sum;
'''),
 (KA,'''        typedef typename std::vector<std::shared_ptr<KAmgTwoGrid<Amg> > >::iterator Iter;
        for(Iter solver=ksolvers.begin(); solver!=ksolvers.end(); ++solver)
          (*solver)->setLevelContext(levelContext);
''','''        for(auto& solver : ksolvers)
          solver->setLevelContext(levelContext);
'''),
]
MH='paamg/matrixhierarchy.hh'; TR='paamg/transfer.hh'; IC='paamg/indicescoarsener.hh'; HI='paamg/hierarchy.hh'; AG='paamg/aggregates.hh'
T['setup'] = [
 (MH,'''        if((
#if HAVE_PARMETIS
             criterion.accumulate()==successiveAccu
#else
             false
#endif
             || (criterion.accumulate()==atOnceAccu
                 && dunknowns < 30*infoLevel->communicator().size()))
           && infoLevel->communicator().size()>1 &&
           dunknowns/infoLevel->communicator().size() <= criterion.coarsenTarget())
        {
''','''        if(shouldAccumulate(criterion, dunknowns, infoLevel->communicator().size()))
        {
'''),
 (MH,'''    template<class M, class IS, class A>
    template<typename O, typename T>
    void MatrixHierarchy<M,IS,A>::build(const T& criterion)
''','''    template<typename T>
    bool shouldAccumulate(const T& criterion, double unknowns, int processes)
    {
      if(processes<=1)
        return false;
      bool candidate = criterion.accumulate()==atOnceAccu && unknowns < 30*processes;
#if HAVE_PARMETIS
      candidate = candidate || criterion.accumulate()==successiveAccu;
#endif
      return candidate && unknowns/processes <= criterion.coarsenTarget();
    }

    template<class M, class IS, class A>
    template<typename O, typename T>
    void MatrixHierarchy<M,IS,A>::build(const T& criterion)
'''),
 (MH,'''        if(criterion.debugLevel()>2) {
          if(rank==0)
            std::cout<<"Coarsening of index sets took "<<watch.elapsed()<<" seconds."<<std::endl;
        }
''','''        const bool report = rank==0 && criterion.debugLevel()>2;
        if(report)
          std::cout<<"Coarsening of index sets took "<<watch.elapsed()<<" seconds."<<std::endl;
'''),
 (MH,'''        if(dgnoAggregates==0 || dunknowns/dgnoAggregates<criterion.minCoarsenRate())
''','''        const bool stalled = dgnoAggregates==0 || dunknowns/dgnoAggregates<criterion.minCoarsenRate();
        if(stalled)
'''),
 (MH,'''      BIGINT unknowns = mlevel->getmat().N();

      unknowns = infoLevel->communicator().sum(unknowns);
      double dunknowns=unknowns.todouble();
''','''      BIGINT unknowns = infoLevel->communicator().sum(BIGINT(mlevel->getmat().N()));
      double dunknowns=unknowns.todouble();
'''),
 (TR,'''      for(Iterator block=begin; block != end; ++block) {
        const Vertex& vertex = aggregates[block-begin];
        if(vertex != AggregatesMap<Vertex>::ISOLATED)
          coarse[vertex] += *block;
      }
''','''      std::ptrdiff_t position = 0;
      for(Iterator block=begin; block != end; ++block, ++position) {
        const Vertex& vertex = aggregates[position];
        if(vertex == AggregatesMap<Vertex>::ISOLATED)
          continue;
        coarse[vertex] += *block;
      }
'''),
 (TR,'''      if(fineRedist.size()>0)
        // we operated on the coarse level
        Transfer<V,V1,SequentialInformation>::prolongateVector(aggregates, coarse, fineRedist, damp);
''','''      const bool hasData = fineRedist.size()>0;
      if(hasData)
        Transfer<V,V1,SequentialInformation>::prolongateVector(aggregates, coarse, fineRedist, damp);
'''),
 (IC,'''        if(aggregates[*index]!=AggregatesMap<typename Graph::VertexDescriptor>::ISOLATED)
          if(!get(visitedMap, *index)) {
''','''        const bool isolated = aggregates[*index]==AggregatesMap<typename Graph::VertexDescriptor>::ISOLATED;
        if(!isolated)
          if(!get(visitedMap, *index)) {
'''),
]
def pattern(t):
    """the text, with any white space and line comments between its lines"""
    return re.compile(r'[ \t]*' + r'(?:\s|//[^\n]*\n)*'.join(re.escape(l.strip()) + r'(?:[ \t]*//[^\n]*)?' for l in t.strip('\n').split('\n') if l.strip()) + r'[ \t]*\n')
CL = [c['property'] for c in json.load(open('/verif/MANIFEST.json'))['checks']]
def main():
    sub = sys.argv[1] if len(sys.argv) > 1 else ''
    props = sys.argv[2:] or CL
    for name, edits in T.items():
        if sub not in name: continue
        d = tempfile.mkdtemp(prefix='refac_')
        try:
            subprocess.run(['cp', '-a', '/repo/dune', d])
            for e in edits:
                p = os.path.join(d, 'dune/istl', e[0]); s = open(p).read(); nth = e[3] if len(e) > 3 else None
                at = [(m.start(), m.start()+len(e[1])) for m in re.finditer(re.escape(e[1]), s)] or [m.span() for m in pattern(e[1]).finditer(s)]
                if not at or len(at) > 1 and nth is None: print('BADEDIT', name, len(at), repr(e[1][:70])); continue
                x, y = at[(nth or 1)-1]
                open(p, 'w').write(s[:x] + e[2] + s[y:])
            if props == ['-']: subprocess.run(['diff', '-ru', '/repo/dune', d + '/dune']); continue
            env = dict(os.environ, VT_REPO=d, VT_EVID=d); env.pop('VT_CACHE', None)
            def one(p):
                r = subprocess.run([sys.executable, '/verif/check.py', p], env=env, capture_output=True, text=True)
                return p, r.returncode, r.stdout[-2500:]
            with ThreadPoolExecutor(4) as ex:
                for p, rc, o in ex.map(one, props):
                    if rc: print(name, p, 'rc', rc); print('    ' + o.replace('\n', '\n    '))
            print(name, 'done', flush=True)
        finally: shutil.rmtree(d, ignore_errors=True)
main()
