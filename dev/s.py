F='solvers.hh'
def one(old,new,nth=None): return [(F,old,new)] if nth is None else [(F,old,new,nth)]
T=[
# ---- quiet
('q-loop-while','S03','quiet',one('''      int i=1;
      for ( ; i<=_maxit; i++ )
      {
        v = 0;                      // clear correction''','''      int i=0;
      while (i < _maxit)
      {
        ++i;
        v = 0;                      // clear correction''')),
('q-grad-nest','S03','quiet',one('''        def =_sp->norm(b); // comp defect norm
        if(iteration.step(i, def))
          break;
      }
      // postprocess preconditioner
      _prec->post(x);''','''        def =_sp->norm(b); // comp defect norm
        const bool stop = iteration.step(i, def);
        if(stop) { _prec->post(x); return; }
      }
      // postprocess preconditioner
      _prec->post(x);''')),
('q-grad-nest1','S01','quiet',one('''        def =_sp->norm(b); // comp defect norm
        if(iteration.step(i, def))
          break;
      }
      // postprocess preconditioner
      _prec->post(x);''','''        def =_sp->norm(b); // comp defect norm
        const bool stop = iteration.step(i, def);
        if(stop) { _prec->post(x); return; }
      }
      // postprocess preconditioner
      _prec->post(x);''')),
('q-gmres-flag','S03','quiet',one('''        for(i=0; i < m && j <= _maxit && res.converged != true; i++, j++) {
          w = 0.0;''','''        bool stop = res.converged;
        for(i=0; i < m && j <= _maxit && !stop; i++, j++) {
          w = 0.0;''')+one('''          norm = abs(s[i+1]);

          iteration.step(j, norm);

        } // end for''','''          norm = abs(s[i+1]);

          stop = iteration.step(j, norm);

        } // end for''')),
('q-gpcg-end','S03','quiet',one('int end=std::min(restart, _maxit-i+1);','int end = restart; if(_maxit-i+1 < end) end = _maxit-i+1;')),
('q-bicg-it','S03','quiet',one('it+=.5)','it = it + 0.5)')+one('        it+=.5;','        it = 0.5 + it;')),
('q-cg-swap','S03','quiet',one('''        x.axpy(lambda,p);           // update solution
        b.axpy(-lambda,q);          // update defect

        // convergence test''','''        b.axpy(-lambda,q);          // update defect
        x.axpy(lambda,p);           // update solution

        // convergence test''')),
('q-fcg','S03','quiet',one('''          if(iteration.step(i, def))
            break;
          i++;
        }
        //restart''','''          if(!iteration.step(i, def))
            i++;
          else
            break;
        }
        //restart''')),
('q-cg-maxit','S03','quiet',one('''      // the loop
      int i=1;
      for ( ; i<=_maxit; i++ )
      {
        // minimize in given search direction p''','''      // the loop
      const int last = _maxit;
      int i=1;
      for ( ; ; i++ )
      {
        if (i > last) break;
        // minimize in given search direction p''')),
('q-gmres-fresh','S03','quiet',one('''          b = b2;
          // calculate new defect
          _op->applyscaleadd(-1.0,x,b); // b -= Ax;''','''          // calculate new defect
          X b3(b2);
          _op->applyscaleadd(-1.0,x,b3); // b -= Ax;
          b = b3;''')),
# ---- alarms
('a-cg-limit','S03','alarm',one('''      // the loop
      int i=1;
      for ( ; i<=_maxit; i++ )
      {
        // minimize in given search direction p''','''      // the loop
      int i=1;
      for ( ; i<=_maxit+1; i++ )
      {
        // minimize in given search direction p''')),
('a-bicg-nobreak','S03','alarm',one('''        if(iteration.step(it, norm)){
          break;
        }

        it+=.5;''','''        iteration.step(it, norm);

        it+=.5;''')),
('a-gmres-conv','S03','alarm',one('for(i=0; i < m && j <= _maxit && res.converged != true; i++, j++) {\n          w = 0.0','for(i=0; i < m && j <= _maxit; i++, j++) {\n          w = 0.0')),
('a-gmres-maxit','S03','alarm',one('for(i=0; i < m && j <= _maxit && res.converged != true; i++, j++) {\n          w = 0.0','for(i=0; i < m && res.converged != true; i++, j++) {\n          w = 0.0')),
('a-gmres-stale','S03','alarm',one('          b = b2;\n','')),
('a-fgmres-stale','S03','alarm',one('          v[0] = b;\n','')),
('a-gpcg-end','S03','alarm',one('int end=std::min(restart, _maxit-i+1);','int end=std::min(restart, _maxit-i+2);')),
('a-fcg-cycle','S03','alarm',one('i_bounded = std::min(1, _mmax);','i_bounded = 1;')),
('a-fcg-inc','S03','alarm',one('for (; i_bounded <= _mmax && i<= _maxit; i_bounded++) {','for (; i_bounded <= _mmax; i_bounded++) {')),
('a-minres-post','S01','alarm',one('''      if (iteration.step(0, def)){
        _prec->post(x);
        return;''','''      if (iteration.step(0, def)){
        return;''')),
('a-gpcg-post','S01','alarm',one('''      ++i;
      if(iteration.step(i, def)){
        _prec->post(x);
        return;''','''      ++i;
      if(iteration.step(i, def)){
        return;''')),
('a-bicg-pre','S01','alarm',one('''      _prec->pre(x,r);             // prepare preconditioner
''','''      if(_maxit>0) _prec->pre(x,r);             // prepare preconditioner
''')),
('a-bicg-post2','S01','alarm',one('''        if(iteration.step(it, norm)){
          break;
        }

        it+=.5;''','''        if(iteration.step(it, norm)){
          _prec->post(x); break;
        }

        it+=.5;''')),
]
