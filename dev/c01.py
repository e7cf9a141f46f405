def m(n,e,*ed): return (n,'C01',e,list(ed))
S='solver.hh'
T=[
m('a-5-prec','alarm',(S,'''      if(SolverCategory::category(prec) != SolverCategory::sequential)
        DUNE_THROW(InvalidSolverCategory, "Preconditioner has to be sequential!");
''','')),
m('a-5-cmp','alarm',(S,'if(SolverCategory::category(prec) != SolverCategory::sequential)','if(SolverCategory::category(prec) == SolverCategory::overlapping)')),
m('a-6-sp','alarm',(S,'''      if(SolverCategory::category(op) != SolverCategory::category(sp))''','''      if(SolverCategory::category(op) != SolverCategory::category(op))''')),
m('a-p-prec','alarm',(S,'''      if(SolverCategory::category(*op) != SolverCategory::category(*prec))''','''      if(SolverCategory::category(*op) < SolverCategory::category(*prec))''')),
m('a-cat','alarm',(S,'_category(SolverCategory::category(*op))','_category(SolverCategory::sequential)')),
m('a-amg','alarm',('paamg/amg.hh','if(SolverCategory::category(matrix) != SolverCategory::category(pinfo))','if(SolverCategory::category(matrix) > SolverCategory::category(pinfo))')),
m('a-hier','alarm',('paamg/matrixhierarchy.hh','''      if (SolverCategory::category(*fineMatrix) != SolverCategory::category(*pinfo))
        DUNE_THROW(ISTLError, "MatrixOperator and ParallelInformation must belong to the same category!");
''','')),
m('a-makesp','alarm',('scalarproducts.hh','make_shared<ParallelScalarProduct<X,Comm>>(comm,category)','make_shared<ParallelScalarProduct<X,Comm>>(comm,SolverCategory::overlapping)')),
m('a-makesp2','alarm',('scalarproducts.hh','      case SolverCategory::sequential:\n','      case SolverCategory::sequential:\n      case SolverCategory::nonoverlapping:\n')),
m('a-i2p','alarm',('preconditioners.hh','if(c != -1 && SolverCategory::category(inverse_operator_) != c)','if(c > 0 && SolverCategory::category(inverse_operator_) != c)')),
m('a-nov','alarm',('novlpschwarz.hh','return SolverCategory::nonoverlapping','return SolverCategory::overlapping',1)),
m('a-comm','alarm',('owneroverlapcopy.hh','return category_;','return SolverCategory::overlapping;')),
m('q-order','quiet',(S,'''      if(SolverCategory::category(*op) != SolverCategory::category(*prec))
        DUNE_THROW(InvalidSolverCategory, "LinearOperator and Preconditioner must have the same SolverCategory!");
      if(SolverCategory::category(*op) != SolverCategory::category(*sp))
        DUNE_THROW(InvalidSolverCategory, "LinearOperator and ScalarProduct must have the same SolverCategory!");
''','''      checkCat(_category, sp->category(), "ScalarProduct");
      checkCat(_category, prec->category(), "Preconditioner");
'''),(S,'''    // #warning actually we want to have this as the default and just implement the second one
''','''    static void checkCat(SolverCategory::Category a, SolverCategory::Category b, const char* what)
    { if (a == b) return; DUNE_THROW(InvalidSolverCategory, "LinearOperator and " << what << " must have the same SolverCategory!"); }
''')),
m('q-both','quiet',(S,'''      if(SolverCategory::category(op) != SolverCategory::sequential)
        DUNE_THROW(InvalidSolverCategory, "LinearOperator has to be sequential!");
      if(SolverCategory::category(prec) != SolverCategory::sequential)
        DUNE_THROW(InvalidSolverCategory, "Preconditioner has to be sequential!");
''','''      const bool ok = op.category() == SolverCategory::sequential && prec.category() == SolverCategory::sequential;
      if(!ok)
        DUNE_THROW(InvalidSolverCategory, "LinearOperator and Preconditioner have to be sequential!");
''')),
m('q-sw','quiet',('scalarproducts.hh','''    switch(category)
    {
      case SolverCategory::sequential:
        return
          std::make_shared<ScalarProduct<X>>();
      default:
        return
          std::make_shared<ParallelScalarProduct<X,Comm>>(comm,category);
    }''','''    if(category != SolverCategory::sequential)
      return std::make_shared<ParallelScalarProduct<X,Comm>>(comm,category);
    return std::make_shared<SeqScalarProduct<X>>();''')),
m('q-deleg','quiet',(S,'''      _op(stackobject_to_shared_ptr(op)),
      _prec(stackobject_to_shared_ptr(prec)),
      _sp(stackobject_to_shared_ptr(sp)),
      _reduction(reduction), _maxit(maxit), _verbose(verbose), _category(SolverCategory::category(op))
    {
      if(SolverCategory::category(op) != SolverCategory::category(prec))
        DUNE_THROW(InvalidSolverCategory, "LinearOperator and Preconditioner must have the same SolverCategory!");
      if(SolverCategory::category(op) != SolverCategory::category(sp))
        DUNE_THROW(InvalidSolverCategory, "LinearOperator and ScalarProduct must have the same SolverCategory!");
    }''','''      IterativeSolver(stackobject_to_shared_ptr(op), stackobject_to_shared_ptr(sp), stackobject_to_shared_ptr(prec), reduction, maxit, verbose)
    {}''')),
]
