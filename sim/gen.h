// Workload programs: generation from a choice tape, expectations, and judgement.
#pragma once
#include "sim.h"
#include "prog.h"
#include <memory>
#include <set>
#include <string>
#include <vector>
#include <deque>
#include <functional>
#include <array>
#include <unordered_map>

struct Expect { int kind=1; /* 1 exact bytes, 2 recorded only */ int dom=-1; int vn=1; std::vector<char> bytes; };
static inline uint64_t okey(int op,int rank,int which){ return ((uint64_t)op<<24)|((uint64_t)rank<<12)|(unsigned)which; }

struct Prog {
  int np=1, bank=0; std::string desc;
  std::vector<wop> ops; std::vector<std::vector<wrk>> rk; std::vector<std::string> opdesc;
  std::deque<std::vector<char>> mem;
  std::unordered_map<uint64_t,Expect> exp;
  std::unordered_map<uint64_t,std::vector<char>> got;
  std::vector<std::function<void(Prog&)>> post;
  std::unordered_map<uint64_t,std::function<void(Prog&)>> before; // key okey(op,rank,0): run when rank begins op
  std::vector<std::vector<std::array<long,3>>> marks;              // per rank: live lib blocks, comms, requests
  RunCfg cfg; bool repro=false; bool alloc_prof=false; int misuse_op=-1; std::string misuse_text; int misuse_rank=-1; bool leak_prof=false; int leak_warm=1;
  uint64_t checked=0, recorded=0; std::vector<wrk> flat;
  uint64_t opcount[OP_COUNT]={0};
  void *keep(const void *p,size_t n){ mem.emplace_back((const char*)p,(const char*)p+n); return mem.back().data(); }
  template<class T> T *keepv(const std::vector<T>&v){ return (T*)keep(v.data(),v.size()*sizeof(T)); }
  std::string dump() const;
};
extern Prog *P;   // program of the current run
extern bool have_serial; // the build without MPI is there

struct Gen {
  Tape &W; Rng rng; Gen(Tape &w,uint64_t seed):W(w),rng(seed){}
  uint32_t below(uint32_t n){ return W.take(n,rng.below(n)); }
  bool chance(double p){ return W.take(2,rng.chance(p))!=0; }
  int range(int a,int b){ return b<=a?a:a+(int)below((uint32_t)(b-a+1)); }
  uint32_t seed(){ return W.take(0x7fffffff,(uint32_t)(rng.u64()&0x7ffffffe)); }
  // small values likely, large possible
  int size(int mx){ uint32_t m=1+rng.below(mx<1?1:mx); return mx<=0?0:(int)W.take(mx+1,rng.below(m+1)); }
  template<class V> int weighted(const V &w){ double t=0; for(double x:w) t+=x; double u=rng.unit()*t; int i=0,n=w.size(); for(;i<n-1;++i){ if(u<w[i]) break; u-=w[i]; } return W.take(n,i); }
};

enum Act { A_NOP, A_SPLIT, A_DUP, A_CFREE, A_BARRIER, A_ALLRED, A_SCAN, A_REDUCE, A_DOT, A_BCAST, A_GATHER, A_SENDRECV, A_IAR,
  A_GSSETUP, A_GS, A_IGS, A_WAIT, A_GSFREE, A_UNIQUE, A_CRINIT, A_ROUTE, A_SARRAY, A_CRFREE, A_FTUPLE, A_NOISE, A_NOISEEND, A_YIELD, A_PWDATA,
  A_FPSETUP, A_FPFIND, A_FPEVAL, A_FPFREE, A_IARWAIT, A_BURST, A_N };
static const char *const actnames[]={"nop","split","dup","cfree","barrier","allred","scan","reduce","dot","bcast","gather","sendrecv","iar","gssetup","gs","igs","wait","gsfree","unique","crinit","route","sarray","crfree","ftuple","noise","noiseend","yield","pwdata","fpsetup","fpfind","fpeval","fpfree","iarwait","burst"};

struct Profile {
  std::string id; double w[A_N]={0}; int minops=3, maxops=14;
  int bank=-1;                      // -1 any, 0 std, 1 nbc
  double fortran=0.15, unique=0.15, flagged=0.4, transpose=0.3;
  double method[4]={1,2,2,2};       // auto, pairwise, crystal router, all reduce
  double mode[4]={3,1,1,0};         // plain, vec, many, fields (Fortran only)
  double overflow=0.3;              // Fortran tuple transfers beyond capacity
  bool memcheck=false, giant=false, inflight=false, clock=false, shortw=false, leak=false, alloc=false, misuse=false, repro=false, samehandles=false;
  double burst=0.0015; double huge=0.0004; double bignp=0.04; int seeds=20000; int nscale=1; double nulbuf=0.4;
  int fpdim=0; double fpms=0;
  std::set<std::string> extra;      // violation classes that count in addition to the common ones
};
bool find_profile(const std::string&id,Profile&);
std::vector<std::string> profile_ids();

struct CommSt { bool live=false; std::vector<std::vector<int>> groups; int busy=0; };
struct Builder;
void gen_program(Prog&,Tape&W,uint64_t seed,const Profile&);
void judge(Prog&);                 // after the run
bool counts_for(const Profile&,const std::string&cls);

// ---- shared builder (gen.cpp, fpgen.cpp)
struct GsSt { bool live=false; int comm; std::vector<std::vector<int>> groups; std::vector<std::vector<long long>> id; std::vector<std::vector<int>> cls; int ncls=0; int unique,method,fortran; int fh=-1; int busy=0; std::shared_ptr<std::vector<std::vector<std::pair<int,int>>>> cands; };
struct CrSt { bool live=false; int comm; std::vector<std::vector<int>> groups; int fortran=0; int fh=-1; };
struct WaitSt { bool live=false; int gs=-1; int buf=-1; std::vector<char> mem; };
struct FpFind { int op; std::vector<int> npt; };
struct FpSt;
struct Builder {
  bool huge=false; // tens of thousands of entries a rank
  Prog &p; Gen g; const Profile &pf; int np;
  CommSt C[NCOMM]; GsSt G[NGS]; CrSt K[NCR]; WaitSt W[NWAIT]; bool bufbusy[NBUF]={false};
  struct Nz { bool live=false; int comm; int k,len; } N[NNOISE];
  struct Ia { bool live=false; int comm; std::vector<char> mem; } IA[NIAR];
  std::shared_ptr<FpSt> FP[NFP];
  int fgs_n=0, fcr_n=0, ffp_n=0; std::vector<int> freed_gs, freed_cr, freed_fp;
  Builder(Prog &q,Tape &w,uint64_t seed,const Profile&f):p(q),g(w,seed),pf(f){}
  int add(int type,int comm,int slot,const std::string &d);
  std::vector<char> members(const std::vector<std::vector<int>>&groups,bool all);
  int pick_comm(bool p2p); // a live communicator slot (not used by noise traffic if p2p)
  void act(int a);
  void SETM_(int op,const std::vector<char>&m){ for(int r=0;r<np;++r) p.rk[op][r].member=m[r]; }
  void drain();
  // findpts
  void fp_setup(); void fp_find(); void fp_eval(); void fp_free(int slot);
  void finish();
};
extern double total_counts[64];
