F='owneroverlapcopy.hh'
T=[
('flags','C03','alarm',[(F,"      OwnerSet sourceFlags;\n      AllSet destFlags;","      OwnerOverlapSet sourceFlags;\n      AllSet destFlags;")]),
('dest','C03','alarm',[(F,"      OwnerCopySet sourceFlags;\n      OwnerCopySet destFlags;","      OwnerCopySet sourceFlags;\n      AllSet destFlags;")]),
('copyset','C03','alarm',[(F,"      CopySet sourceFlags;\n      AllSet destFlags;","      CopySet destFlags;\n      AllSet sourceFlags;")]),
('wrongif','C03','alarm',[(F,"communicator.template build<T>(OwnerCopyToAllInterface);","communicator.template build<T>(OwnerOverlapToAllInterface);")]),
('addcopy','C03','alarm',[(F,"a[i] += v;","a[i] = v;")]),
('gs','C03','alarm',[(F,"      communicator.template build<T>(OwnerToAllInterface);\n      communicator.template forward<CopyGatherScatter<T> >","      communicator.template build<T>(OwnerToAllInterface);\n      communicator.template forward<AddGatherScatter<T> >")]),
('swap','C03','alarm',[(F,"      communicator.template build<T>(CopyToAllInterface);\n      communicator.template forward<CopyGatherScatter<T> >(source,dest)","      communicator.template build<T>(CopyToAllInterface);\n      communicator.template forward<CopyGatherScatter<T> >(dest,dest)")]),
('noflag','C03','alarm',[(F,"      OwnerCopyToAllInterface.build(ri,sourceFlags,destFlags);\n      OwnerCopyToAllInterfaceBuilt = true;","      OwnerCopyToAllInterface.build(ri,sourceFlags,destFlags);\n      OwnerOverlapToAllInterfaceBuilt = true;")]),
('nosync','C03','alarm',[(F,"      freeOutdatedInterfaces();\n      if (!CopyToAllInterfaceBuilt)","      if (!CopyToAllInterfaceBuilt)")]),
('nofree','C03','alarm',[(F,"      OwnerCopyToAllInterfaceBuilt = OwnerCopyToOwnerCopyInterfaceBuilt = false;","      OwnerCopyToAllInterfaceBuilt = false;")]),
('ctorflag','C03','alarm',[(F,"OwnerCopyToAllInterfaceBuilt(false), OwnerCopyToOwnerCopyInterfaceBuilt(false),\n        CopyToAllInterfaceBuilt(false), globalLookup_(0), category_(cat_), freecomm(false)","OwnerCopyToAllInterfaceBuilt(false), OwnerCopyToOwnerCopyInterfaceBuilt(true),\n        CopyToAllInterfaceBuilt(false), globalLookup_(0), category_(cat_), freecomm(false)")]),
('project','C03','alarm',[(F,"        if (i->local().attribute()==OwnerOverlapCopyAttributeSet::copy)\n          x[","        if (i->local().attribute()!=OwnerOverlapCopyAttributeSet::owner)\n          x[")]),
('project2','C03','quiet',[(F,"        if (i->local().attribute()==OwnerOverlapCopyAttributeSet::copy)\n          x[i->local().local()] = 0;","      {\n        auto const& l = i->local();\n        if (l.attribute()!=OwnerOverlapCopyAttributeSet::copy) continue;\n          x[l.local()] = 0;\n      }")]),
('attr','C03','alarm',[(F,"LI(std::get<1>(*i),OwnerOverlapCopyAttributeSet::overlap,true)","LI(std::get<1>(*i),OwnerOverlapCopyAttributeSet::copy,true)")]),
('rattr','C03','alarm',[(F,"modifier.insert(RX(OwnerOverlapCopyAttributeSet::copy,&(*pi)))","modifier.insert(RX(OwnerOverlapCopyAttributeSet::overlap,&(*pi)))")]),
('lost','C03','alarm',[(F,"        if (std::get<2>(*i)==OwnerOverlapCopyAttributeSet::overlap)\n          pis.add","        if (std::get<2>(*i)==OwnerOverlapCopyAttributeSet::overlap && std::get<1>(*i))\n          pis.add")]),
('rpos','C03','alarm',[(F,"&& pi->global()!=std::get<1>(*i))","&& pi->global()<std::get<1>(*i))")]),
('oneadd','C03','quiet',[(F,"""        if (std::get<2>(*i)==OwnerOverlapCopyAttributeSet::owner)
          pis.add(std::get<0>(*i),LI(std::get<1>(*i),OwnerOverlapCopyAttributeSet::owner,true));
        if (std::get<2>(*i)==OwnerOverlapCopyAttributeSet::overlap)
          pis.add(std::get<0>(*i),LI(std::get<1>(*i),OwnerOverlapCopyAttributeSet::overlap,true));
        if (std::get<2>(*i)==OwnerOverlapCopyAttributeSet::copy)
          pis.add(std::get<0>(*i),LI(std::get<1>(*i),OwnerOverlapCopyAttributeSet::copy,true));""","""        const auto& [g, l, a] = *i;
        pis.add(g,LI(l,static_cast<AttributeSet>(a),true));""")]),
('elseif','C03','quiet',[(F,"""        if (std::get<2>(*i)==OwnerOverlapCopyAttributeSet::overlap)
          pis.add""","""        else if (std::get<2>(*i)==OwnerOverlapCopyAttributeSet::overlap)
          pis.add""")]),
('helper','C03','quiet',[(F,"""      BC communicator;
      communicator.template build<T>(OwnerCopyToAllInterface);
      communicator.template forward<AddGatherScatter<T> >(source,dest);
      communicator.free();
    }""","""      run<AddGatherScatter<T>>(OwnerCopyToAllInterface,source,dest);
    }
    template<class GS, class T> void run(const IF& f, const T& source, T& dest) const
    {
      BC communicator;
      communicator.template build<T>(f);
      communicator.template forward<GS>(source,dest);
      communicator.free();
    }""")]),
('allset','C03','quiet',[(F,"""      Combine<OwnerOverlapSet,EnumItem<AttributeSet,OwnerOverlapCopyAttributeSet::copy>,AttributeSet>
        destFlags;""","      AllSet destFlags;")]),
('osproj','C03','alarm',[('schwarz.hh',"      _A_->usmv(alpha,x,y);     // result is consistent on interior+border\n      communication.project(y);","      _A_->usmv(alpha,x,y);     // result is consistent on interior+border\n")]),
('psnocopy','C03','alarm',[('schwarz.hh',"      communication.copyOwnerToAll(v,v);","      communication.addOwnerOverlapToAll(v,v);")]),
('noscale','C03','alarm',[('novlpschwarz.hh',"""      Y y1(y);
      y = 0;
      novlp_op_apply(x,y,alpha);
      communication.addOwnerCopyToOwnerCopy(y,y);
      y += y1;""","""      novlp_op_apply(x,y,alpha);
      communication.addOwnerCopyToOwnerCopy(y,y);""")]),
('nbcopy','C03','alarm',[('novlpschwarz.hh',"      _preconditioner->apply(v,d);\n      _communication.addOwnerCopyToOwnerCopy(v,v);","      _preconditioner->apply(v,d);\n      _communication.addOwnerCopyToAll(v,v);")]),
]
