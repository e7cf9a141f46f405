B='bcrsmatrix.hh'; V='bvector.hh'
T=[
('bcrs-static','M04','alarm',[(B,"""    void mv (const X& x, Y& y) const
    {""","""    void mv (const X& x, Y& y) const
    {
      static size_type calls=0; ++calls;""")]),
('mut-cache','M04','alarm',[(B,"    size_type nnz_;     //","    mutable typename FieldTraits<field_type>::real_type normcache_ = 0;\n    size_type nnz_;     //"),
  (B,"      return sqrt(frobenius_norm2());","      normcache_ = sqrt(frobenius_norm2());\n      return normcache_;")]),
('op-const','M04','alarm',[('operators.hh',"""    void apply (const X& x, Y& y) const override
    {
      _A_->mv(x,y);""","""    void apply (const X& x, Y& y) const override
    {
      if (&y != nullptr) const_cast<X&>(x) *= 2.0;
      _A_->mv(x,y);""")]),
('dot-scratch','M04','alarm',[(V,"""        sum += Impl::asVector((*this)[i]).two_norm2();""","""        { static typename FieldTraits<field_type>::real_type part; part = Impl::asVector((*this)[i]).two_norm2(); sum += part; }""")]),
('novlp-x','M04','alarm',[('novlpschwarz.hh',"""      y = 0;
      novlp_op_apply(x,y,1);
      communication.addOwnerCopyToOwnerCopy(y,y);""","""      y = 0;
      communication.copyOwnerToAll(x,const_cast<X&>(x));
      novlp_op_apply(x,y,1);
      communication.addOwnerCopyToOwnerCopy(y,y);""")]),
('schwarz-x','M04','alarm',[('schwarz.hh',"""      y = 0;
      _A_->umv(x,y);     // result is consistent on interior+border""","""      y = 0;
      communication.project(const_cast<X&>(x));
      _A_->umv(x,y);     // result is consistent on interior+border""")]),
('dot-seqno','M04','alarm',[('owneroverlapcopy.hh',"""      result = T2(0.0);
""","""      result = T2(0.0);
      const_cast<OwnerOverlapCopyCommunication*>(this)->oldseqNo = 0;
""")]),
('q-local','M04','quiet',[(B,"""    void mv (const X& x, Y& y) const
    {""","""    void mv (const X& x, Y& y) const
    {
      static const size_type one=1; size_type calls=0; calls += one; (void)calls;""")]),
('q-guard','M04','quiet',[(B,"""    void mv (const X& x, Y& y) const
    {""","""    void mv (const X& x, Y& y) const
    {
      static const bool dbg = std::getenv("DUNE_ISTL_DEBUG")!=nullptr; if (dbg) std::cerr << "mv\\n";""")]),
('revert-thread','M04','alarm',[('matrixredistribute.hh',"static thread_local Data datastore;","static Data datastore;"),('matrixredistribute.hh',"thread_local typename MatrixRowGatherScatter<M,I>::Data","typename MatrixRowGatherScatter<M,I>::Data")]),
]
