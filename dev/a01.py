A='paamg/amg.hh'; FA='paamg/fastamg.hh'
T=[
('no-redist-dec','A01','alarm',[(A,'        --levelContext.redist;\n','')]),
('upd-order','A01','alarm',[(A,'        *levelContext.lhs = v;\n        *levelContext.rhs = d;\n        *levelContext.update=0;\n','        *levelContext.lhs = v;\n        *levelContext.rhs = d;\n'),(A,'        mgc(levelContext);\n\n        if(postSteps_==0','        mgc(levelContext);\n        *levelContext.update=0;\n        if(postSteps_==0')]),
('coarse-cond','A01','alarm',[(A,'        if(levelContext.matrix != matrices_->matrices().coarsest() || matrices_->levels()<matrices_->maxlevels()) {\n          // next','        if(levelContext.matrix != matrices_->matrices().coarsest()) {\n          // next')]),
('restr-src','A01','alarm',[(A,'static_cast<const Range&>(fineRhs.getRedistributed()),','static_cast<const Range&>(*fineRhs),')]),
('restr-pinfo','A01','alarm',[(A,'        typename Hierarchy<Range,A>::Iterator fineRhs = levelContext.rhs++;\n        ++levelContext.pinfo;\n        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>\n        ::restrictVector(*(*levelContext.aggregates),\n                         *levelContext.rhs, static_cast<const Range&>(*fineRhs),\n                         *levelContext.pinfo);','        typename Hierarchy<Range,A>::Iterator fineRhs = levelContext.rhs++;\n        Transfer<typename OperatorHierarchy::AggregatesMap::AggregateDescriptor,Range,ParallelInformation>\n        ::restrictVector(*(*levelContext.aggregates),\n                         *levelContext.rhs, static_cast<const Range&>(*fineRhs),\n                         *levelContext.pinfo);\n        ++levelContext.pinfo;')]),
('apply-post','A01','alarm',[(A,'if(postSteps_==0||matrices_->maxlevels()==1)','if(postSteps_==0&&matrices_->maxlevels()==1)')]),
('q-order','A01','quiet',[(A,'        ++levelContext.lhs;\n        ++levelContext.update;\n        ++levelContext.matrix;\n        ++levelContext.level;\n        ++levelContext.redist;\n','        ++levelContext.redist;\n        ++levelContext.level;\n        ++levelContext.matrix;\n        ++levelContext.update;\n        *levelContext.update=0;\n        ++levelContext.lhs;\n'),(A,'        // prepare the update on the next level\n        *levelContext.update=0;\n','')]),
('q-early','A01','quiet',[(A,'        processNextLevel = levelContext.rhs.getRedistributed().size()>0;\n','        processNextLevel = levelContext.rhs.getRedistributed().size()!=0;\n')]),
]
TR='paamg/transfer.hh'; FA='paamg/fastamg.hh'; SM='paamg/smoother.hh'
T+=[
('cyc-break','A01','alarm',[(A,'            if (levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels())\n              break;','            if (levels()==maxlevels())\n              break;')]),
('cyc-noscale','A01','alarm',[(A,'            if(i+1 < gamma_){','            if(i+2 < gamma_){')]),
('cyc-pre','A01','alarm',[(A,'presmooth(levelContext, preSteps_);','presmooth(levelContext, postSteps_);')]),
('cyc-gamma','A01','alarm',[(A,'for(std::size_t i=0; i<gamma_; i++){','for(std::size_t i=0; i<=gamma_; i++){')]),
('cyc-fineflag','A01','alarm',[(A,'moveToFineLevel(levelContext, processNextLevel);','moveToFineLevel(levelContext, true);')]),
('cyc-throwpost','A01','alarm',[(A,'        // postsmoothing\n        postsmooth(levelContext, postSteps_);','        // postsmoothing\n        if (levelContext.level>0) postsmooth(levelContext, postSteps_);')]),
('coarse-copy','A01','alarm',[(A,'          levelContext.pinfo->copyOwnerToAll(*levelContext.rhs, *levelContext.rhs);\n          solver_','          solver_')]),
('coarse-res','A01','alarm',[(A,'        res.converged=true; // If we do','        // If we do'),(A,'        if (!res.converged)\n          coarsesolverconverged = false;','        coarsesolverconverged = res.converged;')]),
('q-while','A01','quiet',[(A,'for(std::size_t i=0; i<gamma_; i++){\n            mgc(levelContext);','std::size_t i=0;\n          while(i<gamma_){ const std::size_t next = i+1;\n            mgc(levelContext);'),(A,'            if(i+1 < gamma_){','            i = next; if(next < gamma_){')]),
('q-onlast','A01','quiet',[(A,'        bool processNextLevel = moveToCoarseLevel(levelContext);','        const bool processNextLevel = moveToCoarseLevel(levelContext);'),(A,'            if (levelContext.matrix == matrices_->matrices().coarsest() && levels()==maxlevels())\n              break;','            const bool onCoarsest = levelContext.matrix == matrices_->matrices().coarsest();\n            if (onCoarsest && levels()==maxlevels())\n              break;')]),
('q-coarsehelper','A01','quiet',[(A,'          levelContext.pinfo->copyOwnerToAll(*levelContext.rhs, *levelContext.rhs);\n          solver_->apply(*levelContext.update, *levelContext.rhs, res);','          auto& r = *levelContext.rhs; auto& u = *levelContext.update;\n          levelContext.pinfo->copyOwnerToAll(r, r);\n          solver_->apply(u, r, res);')]),
('tr-damp','A01','alarm',[(TR,'        *begin*=damp;','        if (damp<1.5) *begin*=damp;')]),
('tr-iso','A01','alarm',[(TR,'        if(vertex != AggregatesMap<Vertex>::ISOLATED)\n          coarse','        if(vertex != AggregatesMap<Vertex>::UNAGGREGATED)\n          coarse')]),
('tr-project','A01','alarm',[(TR,'      comm.project(coarse);','      ')]),
('tr-redist','A01','alarm',[(TR,'      if(fineRedist.size()>0)','      if(coarse.size()>0)')]),
('tr-rangefor','A01','quiet',[(TR,'      for(Iterator block=begin; block != end; ++block) {\n        const Vertex& vertex = aggregates[block-begin];\n        if(vertex != AggregatesMap<Vertex>::ISOLATED)\n          coarse[vertex] += *block;\n      }','      for(std::size_t i=0; i<fine.size(); ++i) {\n        const Vertex vertex = aggregates[i];\n        if(vertex == AggregatesMap<Vertex>::ISOLATED) continue;\n        coarse[vertex] += fine[i];\n      }')]),
('sm-swap','A01','alarm',[(SM,'          levelContext.pinfo->project(*levelContext.rhs);\n          SmootherApplier','          SmootherApplier')]),
('sm-dir','A01','alarm',[(SM,'      static void postSmooth(Smoother& smoother, Domain& v, Range& d)\n      {\n        smoother.template apply<false>(v,d);','      static void postSmooth(Smoother& smoother, Domain& v, Range& d)\n      {\n        smoother.template apply<true>(v,d);',1)]),
('q-smdown','A01','quiet',[(SM,'        for(std::size_t i=0; i < steps; ++i) {\n          *levelContext.lhs=0;','        for(; steps > 0; --steps) {\n          *levelContext.lhs=0;')]),
('fa-up', 'A01','alarm',[(FA,'        --levelContext.matrix;\n','        --levelContext.matrix;\n        --levelContext.pinfo;\n')]),
('fa-agg','A01','alarm',[(FA,'          ++levelContext.aggregates;','          ')]),
('fa-gamma','A01','alarm',[(FA,'i<gamma_; i++','i<1; i++')]),
('fa-res','A01','alarm',[(FA,'        *levelContext.residual=0;','')]),
('fa-coarse','A01','alarm',[(FA,'          levelContext.pinfo->copyOwnerToAll(b, b);\n','')]),
('fa-post','A01','alarm',[(FA,'        postsmooth(levelContext, v, b);','        if(processNextLevel) postsmooth(levelContext, v, b);')]),
('fa-q','A01','quiet',[(FA,'        ++levelContext.residual;\n        ++levelContext.lhs;','        ++levelContext.lhs;\n        ++levelContext.residual;')]),
('fa-q2','A01','quiet',[(FA,'      typename Hierarchy<Domain,A>::Iterator coarseLhs = levelContext.lhs--;','      typename Hierarchy<Domain,A>::Iterator coarseLhs = levelContext.lhs;\n      --levelContext.lhs;')]),
]
