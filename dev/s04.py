F='solvers.hh'
def m(n,e,*ed): return (n,'S04',e,[(F,)+x for x in ed])
T=[
m('q-swap','quiet',('''        x.axpy(lambda,p);           // update solution
        b.axpy(-lambda,q);          // update defect

        // convergence test''','''        b.axpy(-lambda,q);          // update defect
        x.axpy(lambda,p);           // update solution

        // convergence test''')),
m('q-neg','quiet',('''        x.axpy(lambda,p);           // update solution
        b.axpy(-lambda,q);          // update defect

        // convergence test''','''        const field_type ml = -lambda;
        x.axpy(-ml,p);
        b.axpy(ml,q);

        // convergence test''')),
m('q-loopop','quiet',('''        x += v;                     // update solution
        _op->applyscaleadd(-1,v,b);  // update defect
        def''','''        _op->applyscaleadd(-1,v,b);  // update defect
        x.axpy(1.0, v);
        def''')),
m('q-fcgref','quiet',('''          x.axpy(alpha, d[i_bounded]);
          b.axpy(-alpha, Ad[i_bounded]);''','''          const int cur = i_bounded;
          const X& dir = d[cur]; const X& img = Ad[cur];
          x.axpy(alpha, dir);
          b.axpy(-alpha, img);''')),
m('q-gpcg','quiet',('''          lambda = rho/pp[ii];             // minimization
          x.axpy(lambda,*(p[ii]));                   // update solution
''','''          lambda = rho/pp[ii];             // minimization
          X& pi = *p[ii];
          x.axpy(lambda,pi);
''')),
m('q-orth','quiet',('''            rho =_sp->dot(q,*(p[j]))/pp[j];
            p[ii]->axpy(-rho, *(p[j]));''','''            const X& pj = *p[j];
            const field_type c = -_sp->dot(q,pj)/pp[j];
            p[ii]->axpy(c, pj);''')),
m('a-bicg','alarm',('x.axpy(alpha,y);','x.axpy(alpha,p);')),
m('a-bicg2','alarm',('r.axpy(-omega,t);','r.axpy(-alpha,t);')),
m('a-fcgidx','alarm',('b.axpy(-alpha, Ad[i_bounded]);','b.axpy(-alpha, Ad[i_bounded > 0 ? i_bounded-1 : 0]);')),
m('a-early','alarm',('''          x.axpy(lambda,*(p[ii]));                   // update solution
          b.axpy(-lambda,q);                  // update defect

          // convergence test
          def = _sp->norm(b);        // comp defect norm
''','''          x.axpy(lambda,*(p[ii]));                   // update solution
          if (i == _maxit-1) break;
          b.axpy(-lambda,q);                  // update defect

          // convergence test
          def = _sp->norm(b);        // comp defect norm
''')),
m('a-noop','alarm',('''          _op->apply(*(p[ii]),q);                     // q=Ap
''','')),
m('a-orth','alarm',('p[ii]->axpy(-rho, *(p[j]));','p[ii]->axpy(-rho, *(p[ii-1-j]));')),
m('a-orth2','alarm',('/pp[j];','/pp[ii-1];')),
m('a-cycle','alarm',('      std::swap(d[0], d[_mmax]);\n','')),
m('a-klim','alarm',('      _k_limit = Ad.size();\n','      _k_limit = 0;\n')),
m('a-orthc','alarm',('if(i_bounded!=k)','if(i_bounded>k)')),
m('a-dirchg','alarm',('''        _op->apply(p,q);             // q=Ap
        alpha''','''        _op->apply(p,q);             // q=Ap
        p *= 2;
        alpha''')),
m('a-init','alarm',('''      _op->applyscaleadd(-1,x,b);  // overwrite b with defect

      real_type def = _sp->norm(b); // compute norm
      if(iteration.step(0, def)){
        _prec->post(x);
        return;
      }

      X p(x);              // the search direction
      X q(x);              // a temporary vector

      // Rem''','''      _op->applyscaleadd(1,x,b);  // overwrite b with defect

      real_type def = _sp->norm(b); // compute norm
      if(iteration.step(0, def)){
        _prec->post(x);
        return;
      }

      X p(x);              // the search direction
      X q(x);              // a temporary vector

      // Rem''')),
]
