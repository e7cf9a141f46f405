A='paamg/amg.hh'; S='solver.hh'; SV='solvers.hh'; P='preconditioners.hh'
T=[
('s-red','F01','alarm',[(S,'configuration.get<real_type>("reduction"),\n        configuration.get<int>("maxit")','configuration.get<real_type>("reduction"),\n        configuration.get<int>("maxIterations")')]),
('s-swap','F01','alarm',[(S,'configuration.get<int>("maxit"),\n        configuration.get<int>("verbose")','configuration.get<int>("verbose"),\n        configuration.get<int>("maxit")',2)]),
('s-restart','F01','alarm',[(SV,'_restart(configuration.get<int>("restart"))','_restart(configuration.get<int>("maxit"))',3)]),
('s-mmax','F01','alarm',[(SV,'_mmax(config.get("mmax", 10))','_mmax(config.get("mmax", 20))',2)]),
('s-q','F01','quiet',[(SV,'_restart(configuration.get<int>("restart"))','_restart(int(configuration.get<int>("restart")))',2)]),
('p-def','F01','alarm',[(P,'SeqSOR(A, configuration.get<int>("iterations",1), configuration.get<real_field_type>("relaxation",1.0))','SeqSOR(A, configuration.get<int>("iterations",1), configuration.get<real_field_type>("relaxation",0.9))')]),
('p-type','F01','alarm',[(P,'config.get("n", 0)','config.get("n", 1)')]),
('p-resort','F01','alarm',[(P,'config.get("resort", false)','config.get("resort", true)')]),
('a-lvl','F01','alarm',[(A,'configuration.get<int>("maxLevel")','configuration.get<int>("maxlevel")')]),
('a-order','F01','alarm',[(A,'''      if (configuration.hasKey("maxAggregateDistance"))
        criterion.setMaxDistance(configuration.get<std::size_t>("maxAggregateDistance"));

''',''),(A,'''      if (configuration.hasKey("defaultAggregationSizeMode"))
      {''','''      if (configuration.hasKey("maxAggregateDistance"))
        criterion.setMaxDistance(configuration.get<std::size_t>("maxAggregateDistance"));

      if (configuration.hasKey("defaultAggregationSizeMode"))
      {''')]),
('a-none','F01','alarm',[(A,'criterion.setAccumulate(AccumulationMode::noAccu)','criterion.setAccumulate(AccumulationMode::atOnceAccu)')]),
('a-else','F01','alarm',[(A,'''        else
          DUNE_THROW(InvalidSolverFactoryConfiguration, "Parameter accumulationMode does not allow value "
                     << mode <<".");''','')]),
('a-alpha','F01','alarm',[(A,'criterion.setAlpha (configuration.get<double> ("alpha"))','criterion.setBeta (configuration.get<double> ("alpha"))')]),
('a-gamma','F01','alarm',[(A,'      gamma_ = criterion.getGamma();\n\n      if (configuration.hasKey ("additive"))','      if (configuration.hasKey ("additive"))')]),
('a-post','F01','alarm',[(A,'postSteps_ = criterion.getNoPostSmoothSteps ();\n\n      verbosity_','postSteps_ = criterion.getNoPreSmoothSteps ();\n\n      verbosity_')]),
('a-build','F01','alarm',[(A,'      createHierarchies(criterion, matrixptr, pinfo);\n    }\n\n    template <class Matrix,','      criterion.setMaxLevel(15); createHierarchies(criterion, matrixptr, pinfo);\n    }\n\n    template <class Matrix,')]),
('a-diag','F01','alarm',[(A,'case 2:\n          createCriterionAndHierarchies(matrixptr, pinfo, Diagonal<2>()','case 2:\n          createCriterionAndHierarchies(matrixptr, pinfo, Diagonal<3>()')]),
('a-sym','F01','alarm',[(A,'get<bool>("criterionSymmetric", true)','get<bool>("criterionSymmetric", false)')]),
('a-relax','F01','alarm',[(A,'configuration.hasKey ("smootherRelaxation")','configuration.hasKey ("smootherIterations")')]),
('a-q','F01','quiet',[(A,'''      if (configuration.hasKey ("maxLevel"))
        criterion.setMaxLevel(configuration.get<int>("maxLevel"));
''','''      const ParameterTree& cfg = configuration;
      if (cfg.hasKey ("maxLevel")) {
        const int lv = cfg.get<int>("maxLevel");
        criterion.setMaxLevel(lv);
      }
''')]),
('a-q2','F01','quiet',[(A,'''        if ( mode == "none")
          criterion.setAccumulate(AccumulationMode::noAccu);
        else if ( mode == "atonce" )
          criterion.setAccumulate(AccumulationMode::atOnceAccu);
        else if''','''        if ( mode == "atonce" )
          criterion.setAccumulate(AccumulationMode::atOnceAccu);
        else if ( mode == "none")
          criterion.setAccumulate(AccumulationMode::noAccu);
        else if''')]),
('a-q3','F01','quiet',[(A,'''      if (configuration.hasKey ("alpha"))
        criterion.setAlpha (configuration.get<double> ("alpha"));

      if (configuration.hasKey ("beta"))
        criterion.setBeta (configuration.get<double> ("beta"));
''','''      auto real = [&](const char* key, auto set) { if (configuration.hasKey(key)) set(configuration.get<double>(key)); };
      real("alpha", [&](double v) { criterion.setAlpha(v); });
      real("beta", [&](double v) { criterion.setBeta(v); });
''')]),
]
