F='owneroverlapcopy.hh'; S='scalarproducts.hh'
DOT="result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);"
MASK="""      if (mask.size()!=static_cast<typename std::vector<double>::size_type>(x.size()) || maskSeqNo!=pis.seqNo())
      {
        maskSeqNo = pis.seqNo();
        mask.resize(x.size());
        for (typename std::vector<double>::size_type i=0; i<mask.size(); i++)
          mask[i] = 1;
        for (typename PIS::const_iterator i=pis.begin(); i!=pis.end(); ++i)
          if (i->local().attribute()!=OwnerOverlapCopyAttributeSet::owner)
            mask[i->local().local()] = 0;
      }
"""
HELP="""    void updateMask(std::size_t n) const
    {
      if (mask.size()==n && maskSeqNo==pis.seqNo()) return;
      maskSeqNo = pis.seqNo();
      mask.resize(n);
      std::fill(mask.begin(), mask.end(), 1.0);
      for (const auto& p : pis)
        if (p.local().attribute()!=OwnerOverlapCopyAttributeSet::owner)
          mask[p.local().local()] = 0;
    }
    template<class T1, class T2>
    void dot ("""
T=[
('noconj','K05','alarm',[(F,DOT,"result += (x[i]*(y[i]))*static_cast<real_type>(mask[i]);")]),
('swapped','K05','alarm',[(F,DOT,"result += Impl::asVector(y[i]).dot(Impl::asVector(x[i]))*static_cast<real_type>(mask[i]);")]),
('nomask','K05','alarm',[(F,DOT,"result += Impl::asVector(x[i]).dot(Impl::asVector(y[i]));")]),
('nosum','K05','alarm',[(F,"      result = cc.sum(result);\n","")]),
('sqrtfirst','K05','alarm',[(F,"return sqrt(cc.sum(result));","return cc.sum(sqrt(result));")]),
('copyonly','K05','alarm',[(F,"          if (i->local().attribute()!=OwnerOverlapCopyAttributeSet::owner)\n            mask[i->local().local()] = 0;\n      }\n      auto","          if (i->local().attribute()==OwnerOverlapCopyAttributeSet::copy)\n            mask[i->local().local()] = 0;\n      }\n      auto")]),
('stale','K05','alarm',[(F," || maskSeqNo!=pis.seqNo())","||0)",1)]),
('stale2','K05','alarm',[(F,"        maskSeqNo = pis.seqNo();\n","",2)]),
('noinit','K05','alarm',[(F,"        for (typename std::vector<double>::size_type i=0; i<mask.size(); i++)\n          mask[i] = 1;\n","        for (typename std::vector<double>::size_type i=1; i<mask.size(); i++)\n          mask[i] = 1;\n",1)]),
('two_norm','K05','alarm',[(F,"two_norm2()*mask[i]","two_norm()*mask[i]")]),
('sp','K05','alarm',[(S,"return x.dot(y);","return x*y;")]),
('sp2','K05','alarm',[(S,"_communication->dot(x,y,result);","_communication->dot(y,x,result);")]),
('spn','K05','alarm',[(S,"return _communication->norm(x);","field_type r(0); _communication->dot(x,x,r); return r;")]),
('spsub','K05','alarm',[(S,"    using ScalarProduct<X>::ScalarProduct;","    using ScalarProduct<X>::ScalarProduct;\n    typename X::field_type dot (const X& x, const X& y) const override { return x*y; }\n")]),
('helper','K05','quiet',[(F,MASK,"      updateMask(x.size());\n",1),(F,MASK,"      updateMask(x.size());\n",1),(F,"    template<class T1, class T2>\n    void dot (",HELP,1)]),
('local','K05','quiet',[(F,"      result = T2(0.0);","      T2 s(0.0);"),(F,DOT,"s += Impl::asVector(x[i]).dot(Impl::asVector(y[i]))*static_cast<real_type>(mask[i]);"),(F,"result = cc.sum(result)","result = cc.sum(s)")]),
('skip','K05','quiet',[(F,"two_norm2()*mask[i]","two_norm2()*static_cast<real_type>(mask[i])")]),
]
