W='paamg/twolevelmethod.hh'; K='paamg/kamg.hh'
T=[
('noinit','A01','alarm',[(W,"    *context.lhs=0;\n    policy_->moveToFineLevel","    policy_->moveToFineLevel")]),
('noadd','A01','alarm',[(W,"    *context.update += *context.lhs;\n","")]),
('steps','A01','alarm',[(W,"    postsmooth(context, postSteps_);","    postsmooth(context, preSteps_);")]),
('rhs','A01','alarm',[(W,"policy_->moveToCoarseLevel(*context.rhs);","policy_->moveToCoarseLevel(d);")]),
('upd','A01','alarm',[(W,"    context.update=&v;","    context.update=&u;")]),
('matrix','A01','alarm',[(W,"    context.smoother=smoother_;\n","")]),
('lhs0','A01','alarm',[(W,"      ::restrictVector(*aggregatesMap_, this->rhs_, fineRhs, ParallelInformation());\n    this->lhs_=0;","      ::restrictVector(*aggregatesMap_, this->rhs_, fineRhs, ParallelInformation());")]),
('damp','A01','alarm',[(W,"                         prolongDamp_, ParallelInformation());","                         1.0, ParallelInformation());")]),
('clone','A01','alarm',[(W,"smoother_(other.smoother_), policy_(other.policy_->clone()),","smoother_(other.smoother_), policy_(other.policy_),")]),
('leak','A01','alarm',[(W,"    delete policy_;\n    delete coarseSolver_;","    delete coarseSolver_;")]),
('kam-x','A01','alarm',[(K,"          *levelContext_->update=x;\n","")]),
('kam-v','A01','alarm',[(K,"        *levelContext_->update=0;\n","")]),
('kam-post','A01','alarm',[(K,"        postsmooth(*levelContext_, amg_.postSteps_);","        postsmooth(*levelContext_, amg_.preSteps_);")]),
('kam-pfl','A01','alarm',[(K,"        amg_.moveToFineLevel(*levelContext_, processFineLevel);","        if(processFineLevel) amg_.moveToFineLevel(*levelContext_, processFineLevel);")]),
('kam-front','A01','alarm',[(K,"        ksolvers.back()->apply(v,d);","        ksolvers.front()->apply(v,d);")]),
('q-ref','A01','quiet',[(W,"    policy_->moveToFineLevel(*context.lhs);\n    *context.update += *context.lhs;","    FineDomainType& correction = *context.lhs;\n    policy_->moveToFineLevel(correction);\n    v += correction;")]),
('q-order','A01','quiet',[(W,"    context.pinfo=&info;\n    context.lhs=&u;\n    context.update=&v;","    context.update=&v;\n    context.lhs=&u;\n    context.pinfo=&info;")]),
]
