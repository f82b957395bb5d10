// Driver: seeded search over workloads, schedules and faults; shrinking; replay.
#include "gen.h"
#include "mpi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <algorithm>
#include <string>
#include <atomic>
#include <chrono>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/personality.h>

typedef void rank_fn(const struct wprog*,int);
enum { NBANK=3 }; // builds of the library: std, nbc (GSLIB_USE_NBC), ser (without MPI)
static rank_fn *entry[NBANK][MAXR];
static std::string libpath[NBANK];
static bool loaded[NBANK];
bool have_serial=false;
static void need_bank(int b){ if(loaded[b]) return; int keep=sim_bank; sim_bank=b; int nb=b==2?1:MAXR; if(!sim_load(b,libpath[b].c_str(),nb)){ fprintf(stderr,"cannot load %s\n",libpath[b].c_str()); exit(2); } for(int i=0;i<nb;++i){ entry[b][i]=(rank_fn*)sim_sym(i,"wl_rank"); if(!entry[b][i]){ fprintf(stderr,"no entry point\n"); exit(2);} } sim_bank=keep; loaded[b]=true; }

struct Case { std::string prop; uint64_t seed=0; std::vector<uint32_t> w,s; bool replay=false; bool trace=false; };
struct Result { bool viol=false; std::string cls,detail; int rank=-1,op=-1; uint64_t evhash=0,whash=0,ophash=0; size_t wl=0,sl=0; std::vector<uint32_t> w,s; std::string prog,trace,strat; uint64_t checked=0,recorded=0,steps=0; int np=0,bank=0; bool faulted=false; uint64_t opcount[OP_COUNT]={0}; };
static uint64_t vhash(const std::vector<uint32_t>&v){ uint64_t h=0x9E37; for(auto x:v) h=mix64(h^(x+0x9e3779b97f4a7c15ull)); return h; }

static void one_run(Prog&p,bool calm){
  P=&p; sim_bank=p.bank; need_bank(p.bank); sim_restore(p.np); p.got.clear(); p.marks.clear();
  p.flat.clear(); for(auto&v:p.rk) for(auto&k:v) p.flat.push_back(k);
  wprog wp; wp.np=p.np; wp.nops=p.ops.size(); wp.ops=p.ops.data(); wp.rk=p.flat.data();
  RunCfg c=p.cfg; c.calm=calm; if(calm) c.junk_seed=mix64(c.junk_seed)&0x7ffffffe; // stale memory differs between the two runs of a reproducibility check
  int b=p.bank;
  S.run(c,[&wp,b](int r){ entry[b][r](&wp,r); });
}
static void run_case(const Case&c,const Profile&pf,Result&R){
  sim_set_hang_limit(pf.giant?150:5);
  Tape W; W.reset(c.replay); if(c.replay) W.v=c.w; Prog p; gen_program(p,W,c.seed*0x9e3779b97f4a7c15ull+0x51ull,pf); p.cfg.sched_seed=c.seed^0xabcdef12345ull; p.cfg.trace=c.trace;
  S.tape.reset(c.replay); if(c.replay) S.tape.v=c.s;
  bool rep=p.repro; std::unordered_map<uint64_t,std::vector<char>> first;
  if(rep){ std::vector<uint32_t> keep=S.tape.v; one_run(p,true); S.tape.reset(c.replay); if(c.replay) S.tape.v=keep; if(!S.viol.set||!counts_for(pf,S.viol.cls)) { first=p.got; } }
  if(!(rep&&S.viol.set&&counts_for(pf,S.viol.cls))) { one_run(p,false);
    if(S.viol.set&&!counts_for(pf,S.viol.cls)){ static const std::set<std::string> late={"unmatched-message","request-leak"}; if(late.count(S.viol.cls)) S.viol=Violation(); }
    if(!S.viol.set) judge(p);
    if(rep&&!S.viol.set){ for(auto&kv:first){ auto it=p.got.find(kv.first); p.checked++; if(it==p.got.end()||it->second!=kv.second){ int op=kv.first>>24,r=(kv.first>>12)&4095; S.violate("irreproducible","%s: rank %d delivers different results under two schedules of the same program",p.opdesc[op].c_str(),r); S.viol.op=op; S.viol.rank=r; break; } } } }
  R.viol=S.viol.set&&counts_for(pf,S.viol.cls); R.cls=S.viol.cls; R.detail=S.viol.detail; R.rank=S.viol.rank; R.op=S.viol.op; R.evhash=S.evhash; R.steps=S.steps; R.strat=S.strat_name;
  R.w=W.v; R.s=S.tape.v; R.wl=W.pos; R.sl=S.tape.pos; R.whash=vhash(W.v); R.prog=p.dump(); R.trace=S.trace; R.checked=p.checked; R.recorded=p.recorded; R.np=p.np; R.bank=p.bank; R.faulted=S.injected_alloc_failure; memcpy(R.opcount,p.opcount,sizeof R.opcount);
  uint64_t h=7; for(auto&o:p.ops) h=mix64(h*31+o.type+17*o.a[0]+1000*o.a[1]+10007*o.a[2]); R.ophash=mix64(h+p.np);
}

// ---------------------------------------------------------------- isolated execution of one case
struct Shm { std::atomic<long> next, found; std::atomic<long> done, same, diff; long cur[64]; uint64_t c[40]; };
static void put(std::string&o,const void*p,size_t n){ o.append((const char*)p,n); }
static void puts_(std::string&o,const std::string&s){ uint64_t n=s.size(); put(o,&n,8); o+=s; }
static void putv(std::string&o,const std::vector<uint32_t>&v){ uint64_t n=v.size(); put(o,&n,8); put(o,v.data(),n*4); }
struct Rd { const std::string&s; size_t p=0; bool ok=true; void get(void*d,size_t n){ if(p+n>s.size()){ ok=false; memset(d,0,n); return; } memcpy(d,s.data()+p,n); p+=n; } std::string str(){ uint64_t n; get(&n,8); if(!ok||p+n>s.size()){ ok=false; return ""; } std::string r=s.substr(p,n); p+=n; return r; } std::vector<uint32_t> vec(){ uint64_t n; get(&n,8); std::vector<uint32_t> v; if(!ok||p+n*4>s.size()){ ok=false; return v; } v.resize(n); memcpy(v.data(),s.data()+p,n*4); p+=n*4; return v; } };
static std::string ser(const Result&r){ std::string o; put(o,&r.viol,1); puts_(o,r.cls); puts_(o,r.detail); put(o,&r.rank,4); put(o,&r.op,4); put(o,&r.evhash,8); put(o,&r.np,4); put(o,&r.bank,4); put(o,&r.wl,8); put(o,&r.sl,8); puts_(o,r.prog); puts_(o,r.trace); puts_(o,r.strat); putv(o,r.w); putv(o,r.s); return o; }
static bool deser(const std::string&s,Result&r){ Rd d{s}; d.get(&r.viol,1); r.cls=d.str(); r.detail=d.str(); d.get(&r.rank,4); d.get(&r.op,4); d.get(&r.evhash,8); d.get(&r.np,4); d.get(&r.bank,4); d.get(&r.wl,8); d.get(&r.sl,8); r.prog=d.str(); r.trace=d.str(); r.strat=d.str(); r.w=d.vec(); r.s=d.vec(); return d.ok; }
static bool isolated(const Case&c,const Profile&pf,Result&R,double tmo=60){
  int fd[2]; if(pipe(fd)) return false; pid_t pid=fork(); if(pid==0){ close(fd[0]); if(pf.giant) tmo=500; alarm((unsigned)tmo); Result r; run_case(c,pf,r); std::string o=ser(r); size_t i=0; while(i<o.size()){ ssize_t k=write(fd[1],o.data()+i,o.size()-i); if(k<=0) break; i+=k; } _exit(0); }
  close(fd[1]); std::string o; char b[65536]; ssize_t k; while((k=read(fd[0],b,sizeof b))>0) o.append(b,k); close(fd[0]); int st; waitpid(pid,&st,0);
  if(!WIFEXITED(st)||WEXITSTATUS(st)!=0||!deser(o,R)){ R=Result(); R.viol=true; R.cls="crash"; char t[100]; snprintf(t,sizeof t,"the simulated process was destroyed (%s %d)",WIFSIGNALED(st)?"signal":"status",WIFSIGNALED(st)?WTERMSIG(st):WEXITSTATUS(st)); R.detail=t; R.w=c.w; R.s=c.s; return false; }
  return true;
}
static std::vector<uint32_t> trimz(std::vector<uint32_t> v){ while(!v.empty()&&v.back()==0) v.pop_back(); return v; }
static long shrink_tries=0;
static double nowsec(){ return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }
static void shrink(Case&c,const Profile&pf,const std::string&cls,double budget){
  double t0=nowsec(); auto ok=[&](const Case&k)->bool{ if(nowsec()-t0>budget) return false; ++shrink_tries; Result r; isolated(k,pf,r,20); return r.viol&&r.cls==cls; };
  auto minimise=[&](std::vector<uint32_t> Case::*f){
    // drop chunks, zero chunks, then lower single values
    for(int pass=0;pass<2;++pass){
      size_t n=(c.*f).size(); { Case k=c; (k.*f).clear(); if(n&&ok(k)){ c=k; return; } }
      // truncate by bisection (an exhausted tape yields zeros)
      { size_t lo=0,hi=(c.*f).size(); while(lo<hi&&nowsec()-t0<budget){ size_t mid=(lo+hi)/2; Case k=c; (k.*f).resize(mid); if(ok(k)) hi=mid; else lo=mid+1; } Case k=c; if(hi<(c.*f).size()){ (k.*f).resize(hi); if(ok(k)) c=k; } }
      for(size_t ch=std::max<size_t>(1,(c.*f).size()/2);;ch/=2){ for(size_t i=0;i<(c.*f).size()&&nowsec()-t0<budget;){ size_t e=std::min((c.*f).size(),i+ch); bool allz=true; for(size_t j=i;j<e;++j) if((c.*f)[j]) allz=false;
            Case k=c; (k.*f).erase((k.*f).begin()+i,(k.*f).begin()+e); if(ok(k)){ c=k; continue; } if(!allz){ k=c; for(size_t j=i;j<e;++j) (k.*f)[j]=0; if(ok(k)) c=k; } i+=ch; } if(ch<=1) break; if(ch<8&&(c.*f).size()>4000) break; }
      for(size_t i=0;i<(c.*f).size()&&(c.*f).size()<3000&&nowsec()-t0<budget;++i){ uint32_t v=(c.*f)[i]; if(v>1){ for(uint32_t t: {1u,v/2,v-1}) if(t<(c.*f)[i]){ Case k=c; (k.*f)[i]=t; if(ok(k)){ c=k; break; } } } }
    } };
  minimise(&Case::s); minimise(&Case::w); minimise(&Case::s); minimise(&Case::w); c.s=trimz(c.s); c.w=trimz(c.w);
}
static std::string jesc(const std::string&s){ std::string o; for(unsigned char ch:s){ if(ch=='"'||ch=='\\'){ o+='\\'; o+=ch; } else if(ch=='\n') o+="\\n"; else if(ch<32||ch>126){ char b[8]; snprintf(b,8,"\\u%04x",ch); o+=b; } else o+=ch; } return o; }
static std::string jarr(const std::vector<uint32_t>&v){ std::string o="["; char b[16]; for(size_t i=0;i<v.size();++i){ snprintf(b,16,"%s%u",i?",":"",v[i]); o+=b; } return o+"]"; }
static std::vector<uint32_t> parse_arr(const std::string&j,const char*key){ std::vector<uint32_t> v; size_t p=j.find(std::string("\"")+key+"\":"); if(p==std::string::npos) return v; p=j.find('[',p); size_t e=j.find(']',p); const char*q=j.c_str()+p+1,*end=j.c_str()+e; while(q<end){ char*n; unsigned long x=strtoul(q,&n,10); if(n==q) break; v.push_back(x); q=n; while(q<end&&(*q==','||*q==' ')) ++q; } return v; }
static std::string parse_str(const std::string&j,const char*key){ size_t p=j.find(std::string("\"")+key+"\":"); if(p==std::string::npos) return ""; p=j.find('"',p+strlen(key)+3); std::string o; for(++p;p<j.size()&&j[p]!='"';++p){ if(j[p]=='\\'){ ++p; o+=j[p]=='n'?'\n':j[p]; } else o+=j[p]; } return o; }
static uint64_t parse_u(const std::string&j,const char*key){ size_t p=j.find(std::string("\"")+key+"\":"); if(p==std::string::npos) return 0; p+=strlen(key)+3; while(j[p]==' '||j[p]=='"') ++p; return strtoull(j.c_str()+p,0,0); }
static std::string slurp(const char*f){ FILE*h=fopen(f,"rb"); std::string s; if(!h) return s; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,h))>0) s.append(b,k); fclose(h); return s; }

static void write_replay(const std::string&path,const Case&c,const Result&r,const Result&orig,long idx){
  FILE*f=fopen(path.c_str(),"w"); if(!f){ fprintf(stderr,"cannot write %s\n",path.c_str()); exit(2); }
  fprintf(f,"{\"property\":\"%s\",\"class\":\"%s\",\"detail\":\"%s\",\"rank\":%d,\"op\":%d,\n\"seed\":%llu,\"seed_only\":%d,\"index\":%ld,\"evhash\":\"%llu\",\n\"original_tape_lengths\":[%zu,%zu],\"original_detail\":\"%s\",\n\"program\":\"%s\",\n\"workload_tape\":%s,\n\"schedule_tape\":%s,\n\"trace\":\"%s\"}\n",
    c.prop.c_str(),r.cls.c_str(),jesc(r.detail).c_str(),r.rank,r.op,(unsigned long long)c.seed,(int)!c.replay,idx,(unsigned long long)r.evhash,orig.w.size(),orig.s.size(),jesc(orig.detail).c_str(),jesc(r.prog).c_str(),jarr(c.w).c_str(),jarr(c.s).c_str(),jesc(r.trace.size()>60000?r.trace.substr(r.trace.size()-60000):r.trace).c_str()); fclose(f);
}
static uint64_t fnv(const std::string&s){ uint64_t h=1469598103934665603ull; for(unsigned char c:s) h=(h^c)*1099511628211ull; return h; }
static uint64_t case_seed(const std::string&prop,uint64_t seed0,long i){ return mix64(mix64(fnv(prop)+seed0*1000003)+(uint64_t)i*0x9e3779b97f4a7c15ull)>>1; }

static const int NC=22;
static void cnt_get(uint64_t*o){ Counters&c=S.cnt; uint64_t v[NC]={c.runs,c.steps,c.msgs,c.bytes,c.colls,c.switches,c.late_send,c.rendezvous,c.delayed,c.reordered,c.wildcard,c.stalls,c.starved,c.clock_jump,c.clock_back,c.clock_freeze,c.alloc_fail,c.short_write,c.allocs,c.coll_late,c.net_starved,c.simtime_ns}; memcpy(o,v,sizeof v); }
static const char*cnt_name[NC]={"runs","steps","messages","message_bytes","collectives","context_switches","late_send_buffer_reads","rendezvous_sends","delayed_deliveries","overtaken_messages","wildcard_matches","rank_stalls","starved_steps","clock_jumps_forward","clock_steps_back","clock_freezes","allocation_failures","short_writes","library_allocations","late_collective_completions","network_starved_steps","simulated_ns"};

int main(int argc,char**argv){
  { int per=personality(0xffffffff); if(per!=-1&&!(per&ADDR_NO_RANDOMIZE)&&!getenv("SIM_NOREEXEC")){ setenv("SIM_NOREEXEC","1",1); if(personality(per|ADDR_NO_RANDOMIZE)!=-1) execv("/proc/self/exe",argv); } } // junk addresses must repeat, too
  std::string cmd=argc>1?argv[1]:""; std::string prop="C01",out=".",replay; long N=-1; uint64_t seed0=1; int nw=8; double maxt=1e9; bool nogate=false; long from=0; long only=-1;
  for(int i=2;i<argc;++i){ std::string a=argv[i]; auto nx=[&](){ return std::string(i+1<argc?argv[++i]:""); }; if(a=="--prop") prop=nx(); else if(a=="--std") libpath[0]=nx(); else if(a=="--nbc") libpath[1]=nx(); else if(a=="--ser") libpath[2]=nx(); else if(a=="--out") out=nx(); else if(a=="-n") N=atol(nx().c_str()); else if(a=="--seed") seed0=strtoull(nx().c_str(),0,0); else if(a=="--workers") nw=atoi(nx().c_str()); else if(a=="--time") maxt=atof(nx().c_str()); else if(a=="--only") only=atol(nx().c_str()); else if(a=="--nogate") nogate=true; else replay=a; }
  for(int b=0;b<NBANK;++b) if(libpath[b].empty()){ std::string q=libpath[b?0:1]; size_t k=q.rfind('/'); static const char*nm[]={"std.so","nbc.so","ser.so"}; libpath[b]=(k==std::string::npos?"":q.substr(0,k+1))+nm[b]; }
  have_serial=access(libpath[2].c_str(),R_OK)==0;
  (void)nogate; setvbuf(stdout,nullptr,_IOLBF,0);
  sim_boot();
  if(cmd=="replay"){
    std::string j=slurp(replay.c_str()); if(j.empty()){ fprintf(stderr,"cannot read %s\n",replay.c_str()); return 2; } Case c; c.prop=parse_str(j,"property"); c.seed=parse_u(j,"seed"); c.w=parse_arr(j,"workload_tape"); c.s=parse_arr(j,"schedule_tape"); c.replay=!parse_u(j,"seed_only"); c.trace=true; Profile pf; if(!find_profile(c.prop,pf)) return 2; Result r; isolated(c,pf,r);
    printf("REPLAY property=%s class=%s evhash=%llu\n%s%s\nrank %d op %d\n",c.prop.c_str(),r.viol?r.cls.c_str():"none",(unsigned long long)r.evhash,r.prog.c_str(),r.detail.c_str(),r.rank,r.op); if(getenv("SIM_TRACE")) fputs(r.trace.c_str(),stdout);
    bool same=r.viol&&r.cls==parse_str(j,"class")&&r.evhash==parse_u(j,"evhash"); printf(same?"REPRODUCED\n":"NOT REPRODUCED\n"); return same?1:r.viol?3:0; }
  Profile pf; if(!find_profile(prop,pf)){ fprintf(stderr,"unknown property %s\n",prop.c_str()); return 2; }
  if(N<0) N=pf.seeds;
  if(cmd=="one"){ Case c; c.prop=prop; c.seed=case_seed(prop,seed0,only); c.trace=true; Result r; isolated(c,pf,r); printf("np=%d strategy=%s\n%s%s: %s (rank %d, op %d) evhash %llu W=%zu S=%zu\n",r.np,r.strat.c_str(),r.prog.c_str(),r.cls.c_str(),r.detail.c_str(),r.rank,r.op,(unsigned long long)r.evhash,r.w.size(),r.s.size()); if(getenv("SIM_TRACE")) fputs(r.trace.c_str(),stdout); return r.viol; }
  if(cmd=="hashes"){ for(long i=0;i<N;++i){ Case c; c.prop=prop; c.seed=case_seed(prop,seed0,i); Result r; run_case(c,pf,r); printf("%ld %llu %llu %zu %s\n",i,(unsigned long long)r.evhash,(unsigned long long)r.whash,r.s.size(),r.viol?r.cls.c_str():"-"); } return 0; }
  if(cmd!="run"){ fprintf(stderr,"usage\n"); return 2; }
  if(pf.bank!=1) need_bank(0); if(pf.bank!=0) need_bank(1); if(pf.bank<0&&have_serial) need_bank(2);
  Shm*sh=(Shm*)mmap(0,sizeof(Shm),PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0); new(&sh->next) std::atomic<long>(0); new(&sh->found) std::atomic<long>(N); sh->done=0; sh->same=0; sh->diff=0; for(int i=0;i<64;++i) sh->cur[i]=-1;
  double t0=nowsec(); std::vector<pid_t> pid(nw,0); int unstable=0;
 search_again:
  auto spawn=[&](int w,long first){ pid_t p=fork(); if(p) return p;
    char fn[300]; snprintf(fn,sizeof fn,"%s/w%d.bin",out.c_str(),w); int fd=open(fn,O_CREAT|O_APPEND|O_WRONLY,0600); std::string buf; uint64_t last[NC]; cnt_get(last); (void)first;
    uint64_t tot[8]={0};
    for(;;){ if(nowsec()-t0>maxt) break; long i=sh->next.fetch_add(1); if(i>=N||i>=sh->found.load()) break; sh->cur[w]=i; Case c; c.prop=prop; c.seed=case_seed(prop,seed0,i); Result r; run_case(c,pf,r);
      uint64_t now[NC]; cnt_get(now); uint64_t rec[10+NC+OP_COUNT]; rec[0]=i; rec[1]=r.evhash; rec[2]=r.whash; rec[3]=r.ophash; rec[4]=r.np; rec[5]=r.checked; rec[6]=r.viol; rec[7]=r.bank; rec[8]=r.faulted; rec[9]=fnv(r.strat); for(int k=0;k<NC;++k) rec[10+k]=now[k]-last[k]; memcpy(last,now,sizeof now); for(int k=0;k<OP_COUNT;++k) rec[10+NC+k]=r.opcount[k]; buf.append((const char*)rec,sizeof rec);
      if(!r.viol&&i%499==7){ Result r2; run_case(c,pf,r2); sh->same++; if(r2.evhash!=r.evhash||r2.viol) sh->diff++; cnt_get(last); } // one seed, one execution
      sh->done++; sh->cur[w]=-1; if(r.viol){ long f=sh->found.load(); while(i<f&&!sh->found.compare_exchange_weak(f,i)); break; }
      if(buf.size()>(1<<18)){ if(write(fd,buf.data(),buf.size())<0) {} buf.clear(); } }
    if(write(fd,buf.data(),buf.size())<0) {} sim_cov_dump((out+"/cov."+std::to_string(w)).c_str()); _exit(0); return p; };
  for(int w=0;w<nw;++w) pid[w]=spawn(w,0);
  int alive=nw; while(alive>0){ int st; pid_t p=wait(&st); if(p<0) break; for(int w=0;w<nw;++w) if(pid[w]==p){ pid[w]=0; --alive; if(!WIFEXITED(st)||WEXITSTATUS(st)!=0){ long i=sh->cur[w]; if(i>=0){ long f=sh->found.load(); while(i<f&&!sh->found.compare_exchange_weak(f,i)); } } } }
  double el=nowsec()-t0; long found=sh->found.load();
  // merge statistics
  std::set<uint64_t> ev,wl,opn,nontriv; uint64_t tot[NC]={0},ops[OP_COUNT]={0},checked=0,runs=0,faulted=0; std::map<int,long> nps; std::map<uint64_t,long> strat; long banks[NBANK]={0};
  for(int w=0;w<nw;++w){ char fn[300]; snprintf(fn,sizeof fn,"%s/w%d.bin",out.c_str(),w); std::string s=slurp(fn); unlink(fn); const size_t RS=8*(10+NC+OP_COUNT); for(size_t k=0;k+RS<=s.size();k+=RS){ uint64_t rec[10+NC+OP_COUNT]; memcpy(rec,s.data()+k,RS); ++runs; ev.insert(rec[1]); wl.insert(rec[2]); opn.insert(rec[3]); nps[rec[4]]++; checked+=rec[5]; banks[rec[7]%NBANK]++; faulted+=rec[8]; strat[rec[9]]++; for(int z=0;z<NC;++z) tot[z]+=rec[10+z]; for(int z=0;z<OP_COUNT;++z) ops[z]+=rec[10+NC+z]; if(rec[4]>1&&rec[5]>0&&(rec[10+2]>0||rec[10+4]>0)) nontriv.insert(rec[1]); } }
  std::string st=out+"/stats.json"; FILE*f=fopen(st.c_str(),"w"); fprintf(f,"{\"property\":\"%s\",\"seed\":%llu,\"planned\":%ld,\"runs\":%llu,\"seconds\":%.3f,\"workers\":%d,\"checked\":%llu,\"distinct_event_sequences\":%zu,\"distinct_workloads\":%zu,\"distinct_op_sequences\":%zu,\"distinct_nontrivial\":%zu,\"runs_with_allocation_failure\":%llu,\"runs_std_build\":%ld,\"runs_nbc_build\":%ld,\"runs_serial_build\":%ld",prop.c_str(),(unsigned long long)seed0,N,(unsigned long long)runs,el,nw,(unsigned long long)checked,ev.size(),wl.size(),opn.size(),nontriv.size(),(unsigned long long)faulted,banks[0],banks[1],banks[2]);
  fprintf(f,",\"reruns\":%ld,\"reruns_different\":%ld",sh->same.load(),sh->diff.load()); fprintf(f,",\"counters\":{"); for(int k=0;k<NC;++k) fprintf(f,"%s\"%s\":%llu",k?",":"",cnt_name[k],(unsigned long long)tot[k]); fprintf(f,"},\"ranks\":{"); { bool first=true; for(auto&kv:nps){ fprintf(f,"%s\"%d\":%ld",first?"":",",kv.first,kv.second); first=false; } } 
  static const char*opn_[]={"nop","comm_split","comm_dup","comm_free","barrier","allreduce","scan","reduce","dot","bcast","gather","gs_setup","gs","gs_wait","gs_free","gs_unique","pw_data","crystal_init","crystal_free","crystal_router","sarray_transfer","crystal_ituple_transfer","crystal_tuple_transfer","app_recv_post","app_send","app_wait","yield","mark","misuse","findpts_setup","findpts","findpts_eval","findpts_free","sendrecv","iallreduce","iallreduce_wait","burst"};
  fprintf(f,"},\"operations\":{"); { bool first=true; for(int k=0;k<OP_COUNT;++k) if(ops[k]){ fprintf(f,"%s\"%s\":%llu",first?"":",",opn_[k],(unsigned long long)ops[k]); first=false; } } 
  fprintf(f,"},\"strategies\":{"); { static const char*sn[]={"uniform","run-to-block","pct","starve-rank","late-net","eager-net","lifo-net","round-robin"}; bool first=true; for(auto n:sn){ auto it=strat.find(fnv(n)); if(it!=strat.end()){ fprintf(f,"%s\"%s\":%ld",first?"":",",n,it->second); first=false; } } } fprintf(f,"},");
  fprintf(f,"\"samples\":["); { Case c; c.prop=prop; for(int k=0;k<3&&k<N;++k){ c.seed=case_seed(prop,seed0,k); Result r; isolated(c,pf,r); fprintf(f,"%s{\"seed\":%llu,\"event_hash\":\"%llu\",\"steps_tape\":%zu,\"program\":\"%s\"}",k?",":"",(unsigned long long)c.seed,(unsigned long long)r.evhash,r.s.size(),jesc(r.prog.substr(0,1500)).c_str()); } } fprintf(f,"],");
  if(found>=N){ fprintf(f,"\"violation\":null}\n"); fclose(f); printf("OK property=%s runs=%llu seconds=%.1f checked=%llu distinct=%zu\n",prop.c_str(),(unsigned long long)runs,el,(unsigned long long)checked,ev.size()); return 0; }
  // a violation: confirm in a fresh process, minimise, confirm again
  auto again=[&]()->bool{ fclose(f); if(++unstable>8||nowsec()-t0>maxt) return false; sh->next=found+1; sh->found=N; for(int i=0;i<64;++i) sh->cur[i]=-1; return true; };
  Case c; c.prop=prop; c.seed=case_seed(prop,seed0,found); Result a,b; isolated(c,pf,a); isolated(c,pf,b);
  printf("found at index %ld: %s: %s\n%s",found,a.cls.c_str(),a.detail.c_str(),a.prog.c_str());
  if(!a.viol||!b.viol||a.cls!=b.cls||a.evhash!=b.evhash||(a.w.empty()&&a.detail!=b.detail)){ fprintf(stderr,"UNSTABLE: index %ld does not repeat (%s/%s)\n",found,a.cls.c_str(),b.cls.c_str()); fprintf(f,"\"violation\":\"unstable\"}\n"); if(again()) goto search_again; return 2; }
  Case m=c; Result r1,r2;
  if(!a.w.empty()||!a.s.empty()){ m.replay=true; m.w=a.w; m.s=a.s; Result r0; isolated(m,pf,r0);
    if(!r0.viol||r0.cls!=a.cls){ fprintf(stderr,"UNSTABLE: index %ld does not replay from its tapes (%s/%s)\n",found,a.cls.c_str(),r0.cls.c_str()); m=c; }
    else { double sb=getenv("SIM_SHRINK")?atof(getenv("SIM_SHRINK")):25; shrink(m,pf,a.cls,sb); m.trace=true; isolated(m,pf,r1); isolated(m,pf,r2); if(!r1.viol||!r2.viol||r1.cls!=a.cls||r1.evhash!=r2.evhash){ fprintf(stderr,"the minimised case does not repeat; keeping the seed\n"); m=c; } } }
  if(!m.replay){ m.trace=true; isolated(m,pf,r1); isolated(m,pf,r2); if(!r1.viol||!r2.viol||r1.cls!=a.cls||r1.evhash!=r2.evhash){ fprintf(f,"\"violation\":\"unstable\"}\n"); if(again()) goto search_again; return 2; } }
  std::string rp=out+"/replay.json"; write_replay(rp,m,r1,a,found); fprintf(f,"\"violation\":{\"class\":\"%s\",\"detail\":\"%s\",\"index\":%ld,\"seed\":%llu,\"shrink_tries\":%ld,\"tape\":[%zu,%zu],\"from\":[%zu,%zu]}}\n",r1.cls.c_str(),jesc(r1.detail).c_str(),found,(unsigned long long)c.seed,shrink_tries,m.w.size(),m.s.size(),a.w.size(),a.s.size()); fclose(f);
  printf("minimised (%ld tries): tapes %zu+%zu -> %zu+%zu\n%s%s: %s (rank %d, operation %d)\n",shrink_tries,a.w.size(),a.s.size(),m.w.size(),m.s.size(),r1.prog.c_str(),r1.cls.c_str(),r1.detail.c_str(),r1.rank,r1.op);
  return 1;
}
