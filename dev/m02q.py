F='bcrsmatrix.hh'
T=[('comb','M02','quiet',[(F,'''      if (x.N()!=M()) DUNE_THROW(BCRSMatrixError,
                                 "Size mismatch: M: " << N() << "x" << M() << " x: " << x.N());
      if (y.N()!=N()) DUNE_THROW(BCRSMatrixError,
                                 "Size mismatch: M: " << N() << "x" << M() << " y: " << y.N());
''','''      auto bad = [&](auto a, auto b) { if (a != b) DUNE_THROW(BCRSMatrixError, "Size mismatch " << a << " " << b); };
      bad(y.N(), N()); bad(x.N(), M());
''')]),
('or','M02','quiet',[('matrix.hh','''      if (x.N()!=M()) DUNE_THROW(ISTLError,"vector/matrix size mismatch!");
      if (y.N()!=N()) DUNE_THROW(ISTLError,"vector/matrix size mismatch!");
''','''      if (!(y.size()==N() && x.size()==M())) DUNE_THROW(ISTLError,"vector/matrix size mismatch!");
''',2)]),
('late','M02','alarm',[('matrix.hh','''      if (x.N()!=N()) DUNE_THROW(ISTLError,"index out of range");
      if (y.N()!=M()) DUNE_THROW(ISTLError,"index out of range");
#endif
      for(size_type i=0; i<y.N(); ++i)
        y[i]=0;
''','''#endif
      for(size_type i=0; i<y.N(); ++i)
        y[i]=0;
''')]),
]
