A='paamg/amg.hh'; R='solverregistry.hh'; F='solverfactory.hh'; P='preconditioners.hh'; SV='solvers.hh'; U='umfpack.hh'; L='ldl.hh'; C='cholmod.hh'; SP='scalarproducts.hh'
T=[
('gs-jac','F02','alarm',[(P,'DUNE_REGISTER_PRECONDITIONER("gs", defaultPreconditionerBlockLevelCreator<Dune::SeqGS>())','DUNE_REGISTER_PRECONDITIONER("gs", defaultPreconditionerBlockLevelCreator<Dune::SeqSSOR>())')]),
('cg-grad','F02','alarm',[(SV,'DUNE_REGISTER_SOLVER("cgsolver", defaultIterativeSolverCreator<Dune::CGSolver>())','DUNE_REGISTER_SOLVER("cgsolver", defaultIterativeSolverCreator<Dune::GradientSolver>())')]),
('sub','F02','alarm',[(R,'getPreconditionerFromFactory(_op, config.sub("preconditioner"))','getPreconditionerFromFactory(_op, config)')]),
('sub2','F02','alarm',[(R,'scalarProduct, preconditioner, config);','scalarProduct, preconditioner, config.sub("preconditioner"));')]),
('umf-size','F02','alarm',[(U,'communicator().size() > 1','communicator().size() > 2')]),
('ldl-verb','F02','alarm',[(L,'config.get("verbose", 0)','config.get("verbose", 1)')]),
('wrap-cat','F02','alarm',[(F,'if(op->category() == SolverCategory::overlapping && prec','if(op->category() != SolverCategory::sequential && prec')]),
('wrap-drop','F02','alarm',[(F,'prec->category() == SolverCategory::sequential)\n        return std::make_shared<BlockP','prec->category() != SolverCategory::overlapping)\n        return std::make_shared<BlockP')]),
('wrap-q','F02','quiet',[(F,'if(op->category() == SolverCategory::overlapping && prec->category() == SolverCategory::sequential)','if(prec->category() == SolverCategory::sequential && op->category() == SolverCategory::overlapping)')]),
('amg-sor','F02','alarm',[(A,'AMG<OP, X, BlockPreconditioner<X,Y,C,SeqSOR<M,X,Y>>,C>>(cop','AMG<OP, X, BlockPreconditioner<X,Y,C,SeqSSOR<M,X,Y>>,C>>(cop')]),
('amg-def','F02','alarm',[(A,'config.get("smoother", "ssor")','config.get("smoother", "sor")')]),
('amg-q','F02','quiet',[(A,'''      if(smoother == "ssor")
        return std::make_shared<Amg::AMG<OP, X, SeqSSOR<M,X,Y>>>(op, config);
      if(smoother == "sor")
        return std::make_shared<Amg::AMG<OP, X, SeqSOR<M,X,Y>>>(op, config);''','''      if(smoother == "sor")
        return std::make_shared<Amg::AMG<OP, X, SeqSOR<M,X,Y>>>(op, config);
      if(smoother == "ssor")
        return std::make_shared<Amg::AMG<OP, X, SeqSSOR<M,X,Y>>>(op, config);''')]),
('prec-ign','F02','alarm',[(F,'create(config.get<std::string>("type"),op, config_tmp);','create(config.get<std::string>("type"),op, config);')]),
('sp-seq','F02','alarm',[(F,'return createScalarProduct<domain_type>(getCommOrThrow(op), op->category());','return createScalarProduct<domain_type>(getCommOrThrow(op), SolverCategory::overlapping);')]),
('chol-q','F02','quiet',[(C,'''                           const M& mat = A->getmat();
                           auto solver = std::make_shared<Dune::Cholmod<D>>();
                           solver->setMatrix(mat);''','''                           auto solver = std::make_shared<Dune::Cholmod<D>>();
                           solver->setMatrix(A->getmat());''')]),
('chol-set','F02','alarm',[(C,'''                           solver->setMatrix(mat);
                           return''','''                           return''')]),
('cr-q','F02','quiet',[(R,'''      std::shared_ptr<ScalarProduct<Range>> scalarProduct = opInfo.getScalarProduct(linearOperator);
      std::shared_ptr<Dune::InverseOperator<Domain, Range>> solver
        = std::make_shared<Solver<Domain>>(linearOperator, scalarProduct, preconditioner, config);
      return solver;''','''      auto sp = opInfo.getScalarProduct(linearOperator);
      return std::shared_ptr<Dune::InverseOperator<Domain, Range>>(std::make_shared<Solver<Domain>>(linearOperator, sp, preconditioner, config));''')]),
]
