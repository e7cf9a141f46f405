G='solver.hh'
body='''      scalar_real_type saved_reduction = _reduction;
      _reduction = reduction;
      try {
        this->apply(x,b,res);
      }
      catch (...) {
        _reduction = saved_reduction;
        throw;
      }
      _reduction = saved_reduction;
'''
def m(n,e,new): return (n,'S06',e,[(G,body,new)])
T=[
m('q-guard','quiet','''      struct Guard { scalar_real_type& r; scalar_real_type old; ~Guard() { r = old; } } g{_reduction, _reduction};
      g.r = reduction;
      this->apply(x,b,res);
'''),
m('q-exch','quiet','''      using std::swap;
      scalar_real_type saved = reduction;
      swap(saved, _reduction);
      std::exception_ptr p;
      try { this->apply(x,b,res); }
      catch (...) { p = std::current_exception(); }
      swap(saved, _reduction);
      if (p) std::rethrow_exception(p);
'''),
m('a-nocatch','alarm','''      scalar_real_type saved_reduction = _reduction;
      _reduction = reduction;
      this->apply(x,b,res);
      _reduction = saved_reduction;
'''),
m('a-std','alarm',body.replace('catch (...)','catch (const std::exception&)')),
m('a-noreset','alarm',body.replace('''      }
      _reduction = saved_reduction;''','      }')),
m('a-ignored','alarm',body.replace('      _reduction = reduction;\n','      _reduction = std::min<scalar_real_type>(_reduction, reduction);\n')),
m('a-res','alarm',body.replace('      _reduction = saved_reduction;\n','      if (res.converged) _reduction = saved_reduction;\n')),
m('a-late','alarm',body.replace('''      scalar_real_type saved_reduction = _reduction;
      _reduction = reduction;''','''      _reduction = reduction;
      scalar_real_type saved_reduction = _reduction;''')),
('a-inner','S06','alarm',[('solvers.hh','''      double it;
''','''      double it; _reduction = std::max<real_type>(_reduction, 1e-14);
''')]),
('a-override','S06','alarm',[('solvers.hh','''    using IterativeSolver<X,X>::_maxit;
    using IterativeSolver<X,X>::_verbose;
    using typename''','''    using IterativeSolver<X,X>::_maxit;
  public: void apply(X& x, X& b, double, InverseOperatorResult& res) override { this->apply(x,b,res); } protected:
    using IterativeSolver<X,X>::_verbose;
    using typename''',1)]),
('a-crit','S06','alarm',[(G,'def<_def0*_parent._reduction','def<_def0*1e-8')]),
]
