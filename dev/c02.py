O='owneroverlapcopy.hh'; G='solvers.hh'; R='repartition.hh'; M='paamg/matrixhierarchy.hh'; A='paamg/amg.hh'; SP='scalarproducts.hh'
T=[
('dot-empty','C02','alarm',[(O,"      result = T2(0.0);\n\n","      result = T2(0.0);\n      if (x.size()==0) return;\n\n")]),
('norm-zero','C02','alarm',[(O,"      return sqrt(cc.sum(result));","      if (result == real_type(0.0)) return result;\n      return sqrt(cc.sum(result));")]),
('dot-nonzero','C02','alarm',[(O,"      result = cc.sum(result);","      if (result != T2(0.0)) result = cc.sum(result);")]),
('unknowns','C02','alarm',[(M,"      unknowns = infoLevel->communicator().sum(unknowns);\n","      if (mlevel->getmat().N()>0) unknowns = infoLevel->communicator().sum(unknowns);\n")]),
('nosum','C02','alarm',[(M,"      unknowns = infoLevel->communicator().sum(unknowns);\n","")]),
('noagg','C02','alarm',[(M,"        gnoAggregates = info->communicator().sum(gnoAggregates);\n","")]),
('breakagg','C02','alarm',[(M,"if(dgnoAggregates==0 || dunknowns","if(noAggregates==0 || dunknowns")]),
('redist','C02','alarm',[(M,"          unknownsRedist = infoLevel->communicator().sum(unknownsRedist);\n          dunknowns=","          dunknowns=")]),
('holes-needed','C02','alarm',[(R,"    if(sum==0)\n","    if(needed==0)\n")]),
('holes-max','C02','alarm',[(R,"    maxgi=oocomm.communicator().max(maxgi);","    if(needed>0) maxgi=oocomm.communicator().max(maxgi);")]),
('sum0','C02','alarm',[(R,"    for(int i=0; i<oocomm.communicator().size(); ++i)\n      sum=sum+neededall[i];","    for(int i=0; i<oocomm.communicator().rank(); ++i)\n      sum=sum+neededall[i];")]),
('slv-cg','C02','alarm',[(G,"        def =_sp->norm(b); // comp defect norm","        def =b.two_norm(); // comp defect norm")]),
('slv-loop','C02','alarm',[(G,"        def=_sp->norm(b);  // comp defect norm","        def=b.infinity_norm();  // comp defect norm")]),
('slv-min','C02','alarm',[(G,"      real_type def = _sp->norm(z);","      real_type def = z.two_norm();")]),
('slv-gmres','C02','alarm',[(G,"          H[i+1][i] = _sp->norm(w);","          H[i+1][i] = w.two_norm();")]),
('slv-fcg','C02','alarm',[(G,"          def = _sp->norm(b);        // comp defect norm","          def = b.two_norm();        // comp defect norm")]),
('slv-size','C02','alarm',[(G,"        alpha = _sp->dot(z,q[i2]);","        if (z.N() > 0) alpha = _sp->dot(z,q[i2]);")]),
('amg-rank','C02','alarm',[(A,"        bool processNextLevel = moveToCoarseLevel(levelContext);","        bool processNextLevel = moveToCoarseLevel(levelContext) && levelContext.rhs->N() > 0;")]),
('amg-pre','C02','alarm',[(A,"    if(rhs_->finest()->N() == 0)\n      return;","")]) if False else ('maxlevels','C02','alarm',[(M,"      maxlevels_ = parallelInformation_.finest()->communicator().max(levels);","      if (parallelInformation_.finest()->communicator().rank()>0) maxlevels_ = parallelInformation_.finest()->communicator().max(levels);")]),
('barrier','C02','alarm',[(R,'        oocomm.communicator().barrier();\n        if(oocomm.communicator().rank()==0)\n          std::cout<<"Parmetis took "','        if(oocomm.communicator().rank()==0) oocomm.communicator().barrier();\n        if(oocomm.communicator().rank()==0)\n          std::cout<<"Parmetis took "')]) if False else ('bglr','C02','alarm',[(M,"          infoLevel->freeGlobalLookup();\n\n          if(!existentOnNextLevel)","          infoLevel->freeGlobalLookup();\n\n          if(redistMat->N()==0)")]),
# behaviour preserved
('q-order','C02','quiet',[(M,"      BIGINT unknowns = mlevel->getmat().N();\n\n      unknowns = infoLevel->communicator().sum(unknowns);","      BIGINT unknowns = infoLevel->communicator().sum(BIGINT(mlevel->getmat().N()));")]),
('q-mask','C02','quiet',[(O,"      result = cc.sum(result);","      T2 local = result;\n      if (local != local) local = result;\n      result = cc.sum(local);")]),
('q-holes','C02','quiet',[(R,"    if(sum==0)\n      // Nothing to do\n      return;","    const bool nothing = !(sum>0);\n    if(nothing)\n      return;")]),
('q-norm','C02','quiet',[(O,"      return sqrt(cc.sum(result));","      const real_type total = cc.sum(result);\n      if (total == real_type(0)) return total;\n      return sqrt(total);")]),
('q-cg','C02','quiet',[(G,"        def =_sp->norm(b); // comp defect norm","        const real_type newDef = _sp->norm(b);\n        def = newDef;")]),
('q-rate','C02','quiet',[(M,"        if(dgnoAggregates==0 || dunknowns/dgnoAggregates<criterion.minCoarsenRate())","        const bool breakdown = !(dgnoAggregates!=0) || dunknowns<criterion.minCoarsenRate()*dgnoAggregates;\n        if(breakdown)")]),
('q-split','C02','quiet',[(A,"        bool processNextLevel = moveToCoarseLevel(levelContext);","        const bool coarse = moveToCoarseLevel(levelContext);\n        bool processNextLevel = false;\n        if (coarse) processNextLevel = true;")]),
]
