F='gsetc.hh'; P='preconditioners.hh'; MT='multitypeblockmatrix.hh'
def m(n,e,*ed): return (n,'K03',e,[((F,)+x if x[0] not in (P,MT) else x) for x in ed])
T=[
m('q-dbgs-onesweep','quiet',('''      bblock rhs;

      X xold(x);     // remember old x
''','''      bblock rhs;

      X xold(x);     // remember old x
      const K keep = K(1)-w;
'''),('x.axpy(K(1)-w,xold);','x.axpy(keep,xold);')),
m('q-bsorf-res','quiet',('''          for (; j.index()<i.index(); ++j)
            (*j).mmv(x[j.index()],rhs);               //  rhs -= sum_{j<i} a_ij * xnew_j
          coliterator diag=j;           // *diag = a_ii
          for (; j!=endj; ++j)
            (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
''','''          coliterator diag=(*i).find(i.index());
          for (; j!=endj; ++j)
            (*j).mmv(x[j.index()],rhs);
''')),
m('q-bsorb-while','quiet',('''          for (; j.index()<i.index(); ++j)
            j->mmv(x[j.index()],rhs);
          coliterator diag=j;
          for (; j!=endj; ++j)
            j->mmv(x[j.index()],rhs);
          if constexpr (I > 1)
            v = 0;''','''          coliterator diag=j;
          while (j!=endj) {
            const auto col = j.index();
            if (col == i.index()) diag = j;
            j->usmv(-1.0, x[col],rhs);
            ++j;
          }
          if constexpr (I > 1)
            v = 0;''')),
m('q-dbjac-xi','quiet',('''      x.axpy(w,v);
    }
  };
  // end of recursion''','''      v *= w;
      x += v;
    }
  };
  // end of recursion''')),
m('q-bdsolve-asc','quiet',('''      rowiterator rendi=A.beforeBegin();
      for (rowiterator i=A.beforeEnd(); i!=rendi; --i)
      {
        coliterator ii=(*i).find(i.index());
''','''      const rowiterator rendi=A.end();
      for (rowiterator i=A.begin(); i!=rendi; ++i)
      {
        const auto& row = *i;
        coliterator ii=row.find(i.index());
''')),
m('q-ssor-while','quiet',(P,'''      for (int i=0; i<_n; i++) {
        bsorf(_A_,v,d,_w,BL<l>());
        bsorb(_A_,v,d,_w,BL<l>());
      }''','''      int remaining = _n;
      while (remaining-- > 0) {
        bsorf(_A_,v,d,_w,BL<l>());
        bsorb(_A_,v,d,_w,BL<l>());
      }''')),
m('q-jac-le','quiet',(P,'''      for (int i=0; i<_n; i++) {
        dbjac(_A_,v,d,_w,BL<l>());
      }''','''      for (int i=1; i<=_n; ++i)
        dbjac(_A_,v,d,_w,BL<l>());''')),
m('a-ssor-order','alarm',(P,'''        bsorf(_A_,v,d,_w,BL<l>());
        bsorb(_A_,v,d,_w,BL<l>());''','''        bsorb(_A_,v,d,_w,BL<l>());
        bsorf(_A_,v,d,_w,BL<l>());''')),
m('a-ssor-once','alarm',(P,'''      for (int i=0; i<_n; i++) {
        bsorf(_A_,v,d,_w,BL<l>());
        bsorb(_A_,v,d,_w,BL<l>());
      }''','''      for (int i=0; i<_n; i++)
        bsorf(_A_,v,d,_w,BL<l>());
      if (_n > 0) bsorb(_A_,v,d,_w,BL<l>());
      ''')),
m('a-sor-dir','alarm',(P,'''      else
        for (int i=0; i<_n; i++) {
          bsorb(_A_,v,d,_w,BL<l>());''','''      else
        for (int i=0; i<_n; i++) {
          bsorf(_A_,v,d,_w,BL<l>());''')),
m('a-jac-n','alarm',(P,'''      for (int i=0; i<_n; i++) {
        dbjac(_A_,v,d,_w,BL<l>());
      }''','''      for (int i=0; i<std::max(_n,1); i++) {
        dbjac(_A_,v,d,_w,BL<l>());
      }''')),
m('a-rich','alarm',(P,'''      v = d;
      v *= _w;''','''      v = d;
      v *= _w;
      v *= _w;''')),
m('a-bsorf-w','alarm',('x[i.index()].axpy(w,v);           // x_i','x[i.index()].axpy(w*w,v);           // x_i',1)),
m('a-bsorf-first','alarm',('''      for (rowiterator i=A.begin(); i!=endi; ++i)
      {
        rhs = b[i.index()];           // rhs = b_i
        coliterator endj=(*i).end();           // iterate''','''      for (rowiterator i=++A.begin(); i!=endi; ++i)
      {
        rhs = b[i.index()];           // rhs = b_i
        coliterator endj=(*i).end();           // iterate''')),
m('a-blt-le','alarm',('''        for (j=(*i).begin(); j.index()<i.index(); ++j)
          (*j).mmv(v[j.index()],rhs);''','''        for (j=(*i).begin(); j.index()+1<i.index(); ++j)
          (*j).mmv(v[j.index()],rhs);''')),
m('a-but-d','alarm',('''        for (j=(*i).beforeEnd(); j.index()>i.index(); --j)
          (*j).mmv(v[j.index()],rhs);''','''        for (j=(*i).beforeEnd(); j.index()>i.index(); --j)
          (*j).mmv(d[j.index()],rhs);''')),
m('a-dbgs-skip','alarm',('''            (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
          coliterator diag=j++;           // *diag = a_ii and increment coliterator j from a_ii to a_i+1,i to skip diagonal
          for (; j != endj; ++j)           // iterate''','''            (*j).mmv(x[j.index()],rhs);               // rhs -= sum_{j<i} a_ij * xnew_j
          coliterator diag=j++;           // *diag = a_ii and increment coliterator j from a_ii to a_i+1,i to skip diagonal
          if (j != endj) for (++j; j != endj; ++j)           // iterate''')),
m('a-dbgs-scal','alarm',('x[i.index()] = rhs / (*diag);','x[i.index()] = rhs / (*diag) * w;')),
m('q-dbjac-copy','quiet',('''            j->mmv(x[j.index()],rhs);
          if constexpr (I > 1)
            v[i.index()] = 0;''','''            j->mmv(v[j.index()],rhs);
          if constexpr (I > 1)
            v[i.index()] = 0;''')),
m('a-bd-relax','alarm',('''    static void bdsolve (const M& A, X& v, const Y& d, const K& w)
    {
      A.solve(v,d);
      v *= w;''','''    static void bdsolve (const M& A, X& v, const Y& d, const K& w)
    {
      A.solve(v,d);
      v *= w; v*= w;''')),
m('a-norelax','alarm',('algmeta_btsolve<1,nodiag,norelax>::butsolve(A,v,d,w);','algmeta_btsolve<1,withdiag,norelax>::butsolve(A,v,d,w);')),
m('a-nest-relax','alarm',('algmeta_btsolve<l,withdiag,norelax>::butsolve(A,v,d,w);','algmeta_btsolve<l,withdiag,withrelax>::bltsolve(A,v,d,w);')),
m('a-nest-start','alarm',('''          if constexpr (I > 1)
            v[i.index()] = 0;''','''          if constexpr (I > 2)
            v[i.index()] = 0;''')),
m('a-mt-jac','alarm',(MT,'''algmeta_itsteps<I-1,M>::dbjac(std::get<crow>( std::get<crow>(A)), std::get<crow>(v),rhs,w);''','''algmeta_itsteps<I-1,M>::dbjac(std::get<crow>( std::get<crow>(A)), std::get<crow>(x),rhs,w);''')),
m('a-mt-w','alarm',(MT,'x.axpy(1-w,xold); ','x.axpy(1,xold); ')),
m('a-mt-bsorb','alarm',(F,'MultiTypeBlockMatrix_Solver<I,N-1,N>::bsorb','MultiTypeBlockMatrix_Solver<I,N-1,N-1>::bsorb')[1:]),
m('q-mt-rhs','quiet',(MT,'''      std::get<ccol>( std::get<crow>(A) ).mmv( std::get<ccol>(x), b );
''','''      const auto& row = std::get<crow>(A);
      std::get<ccol>( row ).usmv( -1.0, std::get<ccol>(x), b );
''')),
]
