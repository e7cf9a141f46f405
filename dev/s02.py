F='solvers.hh'; G='solver.hh'
T=[
('q-crit','S02','quiet',[(G,'''        _res.converged = (Simd::allTrue(def<_def0*_parent._reduction || def<real_type(1E-30)));    // convergence check
        return _res.converged;''','''        const auto target = _parent._reduction*_def0;
        bool done = false;
        if (Simd::allTrue(target>def || real_type(1E-30)>def)) done = true;
        _res.converged = done;
        return done;''')]),
('q-order','S02','quiet',[(G,'''        _def = def;
        _i = i;
''',''''''),(G,'''        if(_parent._verbose > 1){
          if(i!=0)''','''        auto last = _def; _def = def; _i = i;
        if(_parent._verbose > 1){
          if(i!=0)'''),(G,'printOutput(std::cout,i,def,_def);','printOutput(std::cout,i,def,last);')]),
('q-fin','S02','quiet',[(G,'''      void finalize(){
''','''      void finalize(){
        auto& r = _res;
        r.elapsed = _watch.elapsed();
'''),(G,'''        _res.elapsed = _watch.elapsed();
        if (''','''        if ('''),(G,'''        _res.iterations = _i;
        _res.reduction = static_cast<double>(Simd::max(_def/_def0));''','''        const double red = static_cast<double>(Simd::max(_def/_def0));
        r.reduction = red; r.iterations = _i;''')]),
('q-def','S02','quiet',[(F,'''        def =_sp->norm(b); // comp defect norm
        if(iteration.step(i, def))
          break;
      }
      // postprocess preconditioner
      _prec->post(x);''','''        if(const real_type d = _sp->norm(b); iteration.step(i, d))
          break;
      }
      // postprocess preconditioner
      _prec->post(x);''')]),
('a-le0','S02','alarm',[(G,'def<_def0*_parent._reduction','def<=_def0*_parent._reduction')]),
('a-and','S02','alarm',[(G,'_parent._reduction || def<real','_parent._reduction && def<real')]),
('a-last','S02','alarm',[(G,'        if(i == 0)\n          _def0 = def;','        if(i <= 1)\n          _def0 = def;')]),
('a-i','S02','alarm',[(G,'_res.iterations = _i;','_res.iterations = _i+1;')]),
('a-red','S02','alarm',[(G,'Simd::max(_def/_def0)','Simd::max(_def0/_def)')]),
('a-rate','S02','alarm',[(G,'pow(_res.reduction,1.0/_i)','pow(_res.reduction,1.0/(_i+1))')]),
('a-fin','S02','alarm',[(G,'if (!Simd::allTrue(isFinite(def)))','if (Simd::anyTrue(isNaN(def)))')]),
('a-move','S02','alarm',[(G,'        other._valid = false;','')]),
('a-conv','S02','alarm',[(G,'        // _res.converged has been set','        _res.converged = true;\n        // _res.converged has been set')]),
('a-clear','S02','alarm',[(G,'        res.clear();\n','')]),
('a-clear2','S02','alarm',[(G,'condition_estimate = -1;','condition_estimate = 0;',1)]),
('a-abs','S02','alarm',[(G,'def<real_type(1E-30)','def<real_type(1E-3)')]),
('a-stale','S02','alarm',[(F,'''        x.axpy(lambda,p);           // update solution
        b.axpy(-lambda,q);          // update defect

        // convergence test
        def=_sp->norm(b); // comp defect norm
''','''        x.axpy(lambda,p);           // update solution
        def=_sp->norm(b); // comp defect norm
        b.axpy(-lambda,q);          // update defect
''')]),
('a-normq','S02','alarm',[(F,'''        def=_sp->norm(b);  // comp defect norm
        if(iteration.step(i, def))
          break;''','''        if(iteration.step(i, def))
          break;
        def=_sp->norm(b);  // comp defect norm''')]),
('a-bicg','S02','alarm',[(F,'''        norm = _sp->norm(r);
        if(iteration.step(it, norm)){
          break;
        }

        it''','''        if(iteration.step(it, norm)){
          break;
        }

        it''')]),
('a-gmres','S02','alarm',[(F,'norm = abs(s[i+1]);','norm = abs(s[i]);',1)]),
('a-first','S02','alarm',[(F,'''
      X p(x);              // the search direction
      X q(x);              // a temporary vector

      // Rem''','''
      if (def < 1e-20) { b *= 2; _prec->post(x); return; }
      X p(x);              // the search direction
      X q(x);              // a temporary vector

      // Rem''')]),
('a-first2','S02','alarm',[(F,'''      real_type def = _sp->norm(b); // compute norm
      if(iteration.step(0, def)){
        _prec->post(x);
        return;
      }

      X p(x);              // the search direction
      X q(x);              // a temporary vector

      // Rem''','''      real_type def = _sp->norm(b); // compute norm
      if(def == 0.0) { _prec->post(x); return; }
      if(iteration.step(0, def)){
        _prec->post(x);
        return;
      }

      X p(x);              // the search direction
      X q(x);              // a temporary vector

      // Rem''')]),
]
