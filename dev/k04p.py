P='preconditioners.hh'
T=[
('relax-twice','K04','alarm',[(P,"      if( wNotIdentity_ )\n      {\n        v *= w_;","      if( wNotIdentity_ )\n      {\n        v *= w_; v *= w_;")]),
('norelax-crs','K04','alarm',[(P,"        ILU::blockILUBacksolve(lower_, upper_, inv_, v, d);\n      }","        ILU::blockILUBacksolve(lower_, upper_, inv_, v, d);\n        return;\n      }")]),
('swap','K04','alarm',[(P,"ILU::blockILUBacksolve(lower_, upper_, inv_, v, d);","ILU::blockILUBacksolve(upper_, lower_, inv_, v, d);")]),
('n','K04','alarm',[(P,"      if( n == 0 )","      if( n <= 1 )")]),
('dims','K04','alarm',[(P,"new matrix_type(  A.N(), A.M(), matrix_type::row_wise)","new matrix_type(  A.M(), A.N(), matrix_type::row_wise)")]),
('resort-first','K04','alarm',[(P,"        ILU_.reset( new matrix_type( A ) );\n        ILU::blockILU0Decomposition( *ILU_ );","        ILU_.reset( new matrix_type( A ) );\n        if( !resort ) ILU::blockILU0Decomposition( *ILU_ );")]),
('dilu-relax','K04','alarm',[(P,"abs(w - real_field_type(1)) > 1e-15; }())","abs(w) > 1e-15; }())")]),
('ildl-relax','K04','alarm',[(P,"      v *= relax_;\n","")]),
('ildl-upper','K04','alarm',[(P,"bildl_backsolve( decomposition_, v, d, true );","bildl_backsolve( decomposition_, v, d );")]),
('q1','K04','quiet',[(P,"      if( resort )\n      {\n        ILU::convertToCRS( *ILU_, lower_, upper_, inv_ );","      if( resort )\n      {\n        const matrix_type& f = *ILU_;\n        ILU::convertToCRS( f, lower_, upper_, inv_ );")]),
('q2','K04','quiet',[(P,"      if( n == 0 )","      const bool exact = (n != 0);\n      if( !exact )")]),
]
