// ---------------------------------------------------------------- driver
static void setup(State*s){
  uint64_t fa=0x400000; for(auto&F:*M){ gaddr[&F]=fa; faddr[fa]=&F; addrName[fa]=F.getName().str(); fa+=16; }
  uint64_t ga=0x10000000; Thread t; t.sp=0x7f0000000000ull; t.hp=nextHeapBase; s->thr.push_back(t);
  for(auto&G:M->globals()){ uint64_t sz=G.isDeclaration()?256:DL->getTypeAllocSize(G.getValueType()); uint64_t al=std::max<uint64_t>(16,G.getAlign()?G.getAlign()->value():16); ga=(ga+64+al-1)&~(al-1); gaddr[&G]=ga; addrName[ga]=G.getName().str(); Obj*o=new Obj(ga,sz,K_GLOBAL); memset(o->data,0,sz); s->mem.insert(o); ga+=sz; std::string n=G.getName().str(); if(n=="_ZTVN10__cxxabiv117__class_type_infoE") vtClass=gaddr[&G]; if(n=="_ZTVN10__cxxabiv120__si_class_type_infoE") vtSI=gaddr[&G]; if(n=="_ZTVN10__cxxabiv121__vmi_class_type_infoE") vtVMI=gaddr[&G]; }
  for(auto&G:M->globals()) if(G.hasInitializer()&&!G.isDeclaration()){ Obj*o=s->mem.find(gaddr[&G]); writeConst(o,0,G.getInitializer()); if(G.isConstant()) o->ro=true; }
  // constructors
  std::vector<std::pair<uint64_t,Function*>> ct; if(auto*g=M->getGlobalVariable("llvm.global_ctors")) if(auto*ca=dyn_cast<ConstantArray>(g->getInitializer())) for(auto&o:ca->operands()){ auto*cs=cast<ConstantStruct>(o); if(auto*f=dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())) ct.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),f}); }
  std::stable_sort(ct.begin(),ct.end(),[](auto&a,auto&b){return a.first<b.first;}); for(auto&c:ct) entries.push_back(c.second);
  Function*e=M->getFunction(optEntry); if(!e||e->isDeclaration()){ fprintf(stderr,"no entry %s\n",optEntry.c_str()); exit(3); } entries.push_back(e);
}
static void writeOut(double tot){
  std::string o="{\n"; auto S=[&](const char*k,uint64_t v){ o+=std::string(" \"")+k+"\": "+std::to_string(v)+",\n"; };
  S("paths",nPaths); S("states",nStates); S("forks",nForks); S("dedup",nDedup); S("sched_points",nSchedPts); S("assume_killed",nAssumeKilled); S("instructions",nInstr); S("asserts",nAsserts); S("queries",gSS.queries); S("q_sat",gSS.sat); S("q_unsat",gSS.unsat); S("q_unknown",gSS.unknown); S("q_cache",gSS.cacheHits); S("exprs",exprCount());
  o+=" \"solver_s\": "+std::to_string(gSS.time)+",\n \"max_query_s\": "+std::to_string(gSS.maxTime)+",\n \"wall_s\": "+std::to_string(tot)+",\n";
  o+=" \"incomplete\": ["; for(size_t i=0;i<incomplete.size();i++) o+=std::string(i?",":"")+"\""+jesc(incomplete[i])+"\""; o+="],\n";
  o+=" \"reached\": {"; bool f=true; for(auto&r:reached){ o+=std::string(f?"":",")+"\""+jesc(r.first)+"\":"+std::to_string(r.second); f=false; } o+="},\n";
  o+=" \"concretizations\": {"; f=true; for(auto&r:concretizations){ o+=std::string(f?"":",")+"\""+jesc(r.first)+"\":"+std::to_string(r.second); f=false; } o+="},\n";
  o+=" \"violations\": ["; for(size_t i=0;i<viols.size();i++){ auto&v=viols[i]; o+=std::string(i?",":"")+"\n  {\"kind\":\""+jesc(v.kind)+"\",\"msg\":\""+jesc(v.msg)+"\",\"thread\":"+std::to_string(v.thr)+",\"stack\":["; for(size_t j=0;j<v.stack.size();j++) o+=std::string(j?",":"")+"\""+jesc(v.stack[j])+"\""; o+="],\"inputs\":"+v.inputs+"}"; } o+="],\n";
  o+=" \"samples\": ["; for(size_t i=0;i<samples.size();i++) o+=std::string(i?",":"")+"\n  {\"inputs\":"+samples[i].inputs+",\"obs\":"+samples[i].obs+"}"; o+="],\n";
  // functions of the repository executed, with instruction coverage
  o+=" \"functions\": ["; f=true; for(auto&p:kf){ KFunc*k=p.second; if(!k->executed) continue; if(k->file.compare(0,optRepo.size()+1,optRepo+"/")) continue; uint64_t tot=0,h=0; for(auto&i:k->in){ tot++; if(i.hit) h++; } o+=std::string(f?"":",")+"\n  {\"name\":\""+jesc(k->F->getName().str())+"\",\"file\":\""+jesc(k->file)+"\",\"instrs\":"+std::to_string(tot)+",\"hit\":"+std::to_string(h)+"}"; f=false; } o+="],\n";
  if(optRace){ auto&ids=raceIds;
    o+=" \"race_candidates\": ["; f=true; for(auto id:ids){ o+=std::string(f?"":",")+"\n  {\"fn\":\""+jesc(instById[id]->I->getFunction()->getName().str())+"\",\"loc\":\""+jesc(locOf(instById[id]->I))+"\"}"; f=false; } o+="],\n";
    if(!optInstrument.empty()){ // insert preemption points before candidate instructions and write module
      auto*ft=FunctionType::get(Type::getVoidTy(*LC),false); auto fc=M->getOrInsertFunction("__pm_preempt",ft); std::set<Instruction*> done; for(auto id:ids){ Instruction*I=instById[id]->I; if(!done.insert(I).second) continue; IRBuilder<> b(I); auto*c=b.CreateCall(fc); (void)c; }
      std::error_code ec; raw_fd_ostream os(optInstrument,ec); WriteBitcodeToFile(*M,os); } }
  o+=" \"engine\": \"symx\"\n}\n";
  std::ofstream(optOut)<<o; }
static void*runMain(void*arg){
  State*root=new State; root->model=std::make_shared<Model>(); setup(root); pushFrame(root,getKF(entries[0]),nullptr,0); work.push_back(root);
  uint64_t tick=0; bool stop=false;
  while(!work.empty()&&!stop){ State*s=work.back(); work.pop_back(); CS=s;
    while(s){ step(s); 
      if((++tick&0x3ff)==0){ double e=elapsed(); if(e>optTime){ incompleteR("time budget of "+std::to_string((int)optTime)+" s used up"); stop=true; break; }
        if((tick&0xfffff)==0){ FILE*f=fopen("/proc/self/statm","r"); long a=0,b=0; if(f){ if(fscanf(f,"%ld %ld",&a,&b)!=2) b=0; fclose(f);} if((uint64_t)b*4096/1048576>optMemMB){ incompleteR("memory budget used up"); stop=true; break; } if(optVerbose) fprintf(stderr,"[%.0fs] paths %llu work %zu instr %lluM queries %llu solver %.1fs dedup %llu rss %ldMB\n",e,(unsigned long long)nPaths,work.size(),(unsigned long long)(nInstr>>20),(unsigned long long)gSS.queries,gSS.time,(unsigned long long)nDedup,b*4096/1048576); } }
      if(s&&s->steps>optSteps){ report(s,"hang","execution exceeds "+std::to_string(optSteps)+" instructions"); endPath(s,"hang"); }
      if(viols.size()>=optMaxViol){ stop=true; break; } }
    if(nStates>optMaxStates){ incompleteR("state budget used up"); stop=true; } }
  writeOut(elapsed()); return nullptr; }
int main(int argc,char**argv){
  std::string in; for(int i=1;i<argc;i++){ std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if(a=="-entry") optEntry=nx(); else if(a=="-o") optOut=nx(); else if(a=="-repo") optRepo=nx(); else if(a=="-time") optTime=atof(nx().c_str()); else if(a=="-steps") optSteps=atoll(nx().c_str()); else if(a=="-maxstates") optMaxStates=atoll(nx().c_str()); else if(a=="-qtimeout") gQueryTimeoutMs=atoi(nx().c_str()); else if(a=="-maxviol") optMaxViol=atoi(nx().c_str()); else if(a=="-race") optRace=true; else if(a=="-instrument") optInstrument=nx(); else if(a=="-v") optVerbose=true; else if(a=="-mem") optMemMB=atoll(nx().c_str()); else if(a=="-samples") optSamples=atoi(nx().c_str()); else if(a=="-nodedup") optNoDedup=true;
    else if(a=="-p"){ std::string q=nx(); auto e=q.find('='); params[q.substr(0,e)]=strtoll(q.c_str()+e+1,nullptr,0); }
    else if(a=="-models"){ std::ifstream f(nx()); std::string l; while(std::getline(f,l)) if(!l.empty()) modelFns.insert(l); }
    else in=a; }
  T0=std::chrono::steady_clock::now(); LC=new LLVMContext; SMDiagnostic err; auto m=parseIRFile(in,err,*LC); if(!m){ err.print("symx",errs()); return 3; } M=m.get(); DL=&M->getDataLayout();
  solverInit(); initBuiltins();
  pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at,2ull<<30); pthread_t th; if(pthread_create(&th,&at,runMain,nullptr)){ perror("thread"); return 3; } pthread_join(th,nullptr);
  fflush(stdout); _exit(0); }
