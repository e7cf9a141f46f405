B='bcrsmatrix.hh'
umv='''      ConstRowIterator endi=end();
      for (ConstRowIterator i=this->begin(); i!=endi; ++i)
      {
        ConstColIterator endj = (*i).end();
        for (ConstColIterator j=(*i).begin(); j!=endj; ++j)
        {
          auto&& xj = Impl::asVector(x[j.index()]);
          auto&& yi = Impl::asVector(y[i.index()]);
          Impl::asMatrix(*j).umv(xj,yi);
        }
      }
'''
mv='''        y[i.index()]=0;
        ConstColIterator endj = (*i).end();
        for (ConstColIterator j=(*i).begin(); j!=endj; ++j)
        {
          auto&& xj = Impl::asVector(x[j.index()]);
          auto&& yi = Impl::asVector(y[i.index()]);
          Impl::asMatrix(*j).umv(xj, yi);
        }
      }
'''
dm='''      for (size_type i=0; i<data_.N(); i++)
        for (size_type j=0; j<cols_; j++)
        {
          auto&& xi = Impl::asVector(x[i]);
          auto&& yj = Impl::asVector(y[j]);
          Impl::asMatrix((*this)[i][j]).mmtv(xi, yj);
        }
'''
T=[
('r-index','K01','quiet',[(B,umv,'''      for (size_type i=0;i<N();++i) { const auto& row=(*this)[i]; auto jt=row.begin(); const auto je=row.end(); while (jt!=je) { auto&& yi = Impl::asVector(y[i]); Impl::asMatrix(*jt).umv(Impl::asVector(x[jt.index()]),yi); ++jt; } }
''')]),
('r-raw','K01','quiet',[(B,umv,'''      for (size_type i=0;i<n;++i) { auto& row=r[i]; auto* a=row.getptr(); auto* c=row.getindexptr(); for (size_type k=0;k<row.getsize();++k) { auto&& yi = Impl::asVector(y[i]); Impl::asMatrix(a[k]).umv(Impl::asVector(x[c[k]]),yi);} }
''')]),
('r-rev','K01','quiet',[(B,umv,'''      for (size_type i=n;i-->0;) { auto& row=r[i]; auto* a=row.getptr(); auto* c=row.getindexptr(); for (size_type k=row.getsize();k>0;--k) { auto&& yi = Impl::asVector(y[i]); Impl::asMatrix(a[k-1]).umv(Impl::asVector(x[c[k-1]]),yi);} }
''')]),
('r-helper','K01','quiet',[(B,umv,'''      forRows([&](auto i, auto j, const auto& a){ auto&& yi = Impl::asVector(y[i]); a.umv(Impl::asVector(x[j]),yi);});
'''),(B,'''    //! y += A x
    template<class X, class Y>
    void umv''','''    template<class FF> void forRows(FF&& f) const { for (auto i=this->begin(); i!=this->end(); ++i) for (auto j=i->begin(); j!=i->end(); ++j) f(i.index(),j.index(),Impl::asMatrix(*j)); }
    //! y += A x
    template<class X, class Y>
    void umv''')]),
('r-mvsplit','K01','quiet',[(B,'''        y[i.index()]=0;
        ConstColIterator endj = (*i).end();''','''        y[i.index()]=0;
      }
      for (ConstRowIterator i=this->begin(); i!=endi; ++i) {
        ConstColIterator endj = (*i).end();''')]),
('r-mvall','K01','quiet',[(B,mv,'''        y[i.index()]=0; } umv(x,y);
''')]),
('r-mvempty','K01','quiet',[(B,'''        y[i.index()]=0;
''','''        auto& yy = y[i.index()]; yy=0; if (i->begin()==i->end()) continue;
''')]),
('r-ptr','K01','quiet',[(B,umv,'''      auto* row=r; auto* rend=r+n; auto yit=y.begin(); for (;row!=rend;++row,++yit) { auto c=row->getindexptr(); for (auto a=row->getptr(), e=a+row->getsize(); a!=e; ++a,++c) { Impl::asMatrix(*a).umv(Impl::asVector(x[*c]),*yit);} }
''')]),
('r-dense','K01','quiet',[('matrix.hh',dm,'''      for (size_type j=0; j<cols_; j++)
      for (size_type i=0; i<data_.N(); i++)
        {
          auto&& xi = Impl::asVector(x[i]);
          auto&& yj = Impl::asVector(y[j]);
          Impl::asMatrix((*this)[i][j]).mmtv(xi, yj);
        }
''')]),
('r-dense2','K01','quiet',[('matrix.hh',dm,'''      size_type i=0; for (auto r=begin(); r!=end(); ++r, ++i) for (auto c=r->begin(); c!=r->end(); ++c)
        {
          auto&& xi = Impl::asVector(x[i]);
          auto&& yj = Impl::asVector(y[c.index()]);
          Impl::asMatrix(*c).mmtv(xi, yj);
        }
''')]),
('b-off','K01','alarm',[(B,umv,umv.replace('i!=endi; ++i','i!=endi-1; ++i'))]),
('b-brk','K01','alarm',[(B,umv,umv.replace('Impl::asMatrix(*j).umv(xj,yi);','if (j.index()>i.index()) break; Impl::asMatrix(*j).umv(xj,yi);'))]),
('b-skip','K01','alarm',[(B,umv,umv.replace('Impl::asMatrix(*j).umv(xj,yi);','if (j.index()!=0) Impl::asMatrix(*j).umv(xj,yi);'))]),
('b-yy','K01','alarm',[(B,mv,mv.replace('y[i.index()]=0;','if (i->begin()!=i->end()) y[i.index()]=0;'))]),
('b-min','K01','alarm',[(B,umv,umv.replace('i=this->begin();','i=this->begin(); endi = begin()+std::min(N(),M());',1).replace('ConstRowIterator i=this->begin(); endi = begin()+std::min(N(),M());','ConstRowIterator i=(endi=begin()+std::min(N(),M()),this->begin());'))]),
('b-mtv','K01','alarm',[(B,'for(size_type i=0; i<y.N(); ++i)','for(size_type i=0; i<N(); ++i)')]),
('b-scaled','K01','alarm',[('scaledidmatrix.hh','y[i] += alpha * conjugateComplex(p_) * x[i]','y[i] += alpha * p_ * x[i]')]),
('b-scaled2','K01','alarm',[('scaledidmatrix.hh','y[i] -= conjugateComplex(p_)*x[i]','y[i] += conjugateComplex(p_)*x[i]')]),
('b-mtb','K01','alarm',[('multitypeblockmatrix.hh','(*this)[j][i].usmhv(alpha, x[j], y[i])','(*this)[j][i].usmtv(alpha, x[j], y[i])')]),
]
