S='solver.hh'; G='solvers.hh'; R='repartition.hh'; M='paamg/matrixhierarchy.hh'
T=[
('def-in-verb','S05','alarm',[(S,"""            _parent.printOutput(std::cout,i,def);
        }
        _def = def;""","""            _parent.printOutput(std::cout,i,def);
        _def = def;
        }""")]),
('i-in-verb','S05','alarm',[(S,"        _i = i;\n","        if(_parent._verbose > 0) _i = i;\n")]),
('rate','S05','alarm',[(S,"        _res.conv_rate  = pow(_res.reduction,1.0/_i);\n",""),(S,"""        if (_parent._verbose>0)                 // final print
          {""","""        if (_parent._verbose>0)                 // final print
          {
            _res.conv_rate  = pow(_res.reduction,1.0/_i);""")]),
('throw','S05','alarm',[(S,"""          if (_parent._verbose>0)
            std::cout << "=== " << _parent.name() << ": abort due to infinite or NaN defect"
                      << std::endl;
          DUNE_THROW""","""          if (_parent._verbose>0)
            std::cout << "=== " << _parent.name() << ": abort due to infinite or NaN defect"
                      << std::endl;
          if (_parent._verbose<3) DUNE_THROW""")]),
('clear','S05','alarm',[(S,"        res.clear();\n        if(_parent._verbose>0){","        if(_parent._verbose>0){\n        res.clear();")]),
('ret','S05','alarm',[(S,"        return _res.converged;\n      }\n\n    protected","        return _res.converged && _parent._verbose < 9;\n      }\n\n    protected")]),
('coll','S05','alarm',[(M,"        if(rank==0 && criterion.debugLevel()>1)\n          std::cout<<\"Level \"<<level<<\" has \"","        if(rank==0 && criterion.debugLevel()>1) (void)infoLevel->communicator().sum(1);\n        if(rank==0 && criterion.debugLevel()>1)\n          std::cout<<\"Level \"<<level<<\" has \"")]),
('nocoll','S05','alarm',[(M,"      unknowns = infoLevel->communicator().sum(unknowns);\n      double dunknowns=unknowns.todouble();","        if(criterion.debugLevel()<5) unknowns = infoLevel->communicator().sum(unknowns);\n        double dunknowns=unknowns.todouble();")]),
('amg-verb','S05','alarm',[('paamg/amg.hh',"          if(verbosity_>0 && matrices_->parallelInformation().coarsest()->communicator().rank()==0)","          if(verbosity_>0) preSteps_++;\n          if(verbosity_>0 && matrices_->parallelInformation().coarsest()->communicator().rank()==0)")]),
('barrier','S05','alarm',[(R,'        oocomm.communicator().barrier();\n        if(oocomm.communicator().rank()==0)\n          std::cout<<"Parmetis took "','        if(oocomm.communicator().rank()==0) oocomm.communicator().barrier();\n        if(oocomm.communicator().rank()==0)\n          std::cout<<"Parmetis took "')]),
('lookup','S05','alarm',[(R,"""    fillIndexSetHoles(graph, oocomm);
    if(verbose && oocomm""","""    if(verbose) fillIndexSetHoles(graph, oocomm);
    if(verbose && oocomm""")]),
('umf','S05','alarm',[('umfpack.hh',"      if (verbosity_ == 2)\n        UMF_Control[UMFPACK_PRL] = 4;","      if (verbosity_ == 2)\n        UMF_Control[UMFPACK_IRSTEP] = 4;")]),
('slu','S05','alarm',[('superlu.hh',"""    if(verbose) {
      dinfo<<"LU factorization""","""    if(verbose) {
      first = false;
      dinfo<<"LU factorization""")]),
('gmres','S05','alarm',[(G,"          if(_verbose > 0)\n","          if(_verbose > 0) { res.iterations = 1; }\n          if(_verbose > 0)\n")]),
('q-talk','S05','quiet',[(S,"        if(_parent._verbose > 1){\n          if(i!=0)","        const bool talk = _parent._verbose > 1;\n        if(talk){\n          if(i!=0)")]),
('q-helper','S05','quiet',[(S,"""        if(_parent._verbose > 1){
          if(i!=0)
            _parent.printOutput(std::cout,i,def,_def);
          else
            _parent.printOutput(std::cout,i,def);
        }
""","""        report(i,def);
"""),(S,"    protected:\n      void finalize(){","""    protected:
      void report(CountType i, real_type def) const {
        if(_parent._verbose < 2) return;
        int sum = 0; for (int k=0;k<_parent._verbose;++k) sum += k;
        (void)sum;
        switch(_parent._verbose) { case 2: std::cout << ""; break; default: std::cout << sum << " "; }
          if(i!=0)
            _parent.printOutput(std::cout,i,def,_def);
          else
            _parent.printOutput(std::cout,i,def);
      }
      void finalize(){""")]),
('q-time','S05','quiet',[(R,"""    if(verbose && oocomm.communicator().rank()==0)
      std::cout<<"Filling index set took "<<time.elapsed()<<std::endl;
    time.reset();""","""    if(verbose && oocomm.communicator().rank()==0) {
      double t=time.elapsed(); std::ostringstream s; s<<"Filling index set took "<<t; std::cout<<s.str()<<std::endl; }
    if (verbose) time.reset();""")]),
('q-sum','S05','quiet',[(M,"      unknowns = infoLevel->communicator().sum(unknowns);\n      double dunknowns=unknowns.todouble();","        if(criterion.debugLevel()>1) { int k = infoLevel->communicator().sum(1); if (rank==0) std::cout << k << std::endl; }\n      unknowns = infoLevel->communicator().sum(unknowns);\n      double dunknowns=unknowns.todouble();")]),
]
