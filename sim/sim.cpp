#include "sim.h"
#include "mpi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <climits>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <algorithm>
#include <dlfcn.h>
#include <link.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <errno.h>

Sim S;
int cur_rank=-1;

// ------------------------------------------------------------------ fibers
struct Ctx { void *sp; };
extern "C" void sim_switch(Ctx *from, Ctx *to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
  pushq %rbp; pushq %rbx; pushq %r12; pushq %r13; pushq %r14; pushq %r15
  subq $8,%rsp
  stmxcsr (%rsp)
  fnstcw 4(%rsp)
  movq %rsp,(%rdi)
  movq (%rsi),%rsp
  ldmxcsr (%rsp)
  fldcw 4(%rsp)
  addq $8,%rsp
  popq %r15; popq %r14; popq %r13; popq %r12; popq %rbx; popq %rbp
  ret
.size sim_switch,.-sim_switch
.globl sim_tramp
.type sim_tramp,@function
sim_tramp:
  movq %r12,%rdi
  andq $-16,%rsp
  call sim_fiber_entry
  ud2
.size sim_tramp,.-sim_tramp
)");
extern "C" void sim_tramp();

static const uintptr_t ARENA   = 0x200000000000ull;
static const size_t    RSPACE  = 1ull<<30;            // 1 GB address space per rank
static const size_t    ASIZE   = RSPACE*MAXR;
static const uintptr_t SHADOW  = 0x300000000000ull;
static const uintptr_t STACKS  = 0x400000000000ull;
static const size_t    STKSZ   = 1<<20;
static const size_t    STKJUNK = 48<<10;

enum { SH_NONE=0, SH_OK=1, SH_FREED=2, SH_RECV=3, SH_SEND=4 };

static inline uint8_t *shp(uintptr_t a){ return (uint8_t*)(SHADOW + (a-ARENA)); }

struct Block { uintptr_t p; size_t n; bool live; uint8_t owner; const char *site; };
struct Req;
struct Msg;
enum WaitKind { W_NONE, W_REQS, W_COLL, W_PROBE, W_ANYREQ, W_SENDDONE };
struct Coll;
struct Rank {
  Ctx ctx; bool started=false, done=false, dead=false; 
  WaitKind wk=W_NONE; std::vector<Req*> wreqs; Coll *wcoll=nullptr; int pr_src=0,pr_tag=0,pr_comm=0; Msg *wmsg=nullptr;
  bool polled=false;
  uintptr_t brk=0, hi=0; std::vector<Block> blocks; std::unordered_map<uintptr_t,uint32_t> bmap; std::unordered_map<uintptr_t,size_t> giant; 
  long live=0, liveb=0, live_lib=0;
  double clk_off=0, clk_rate=1, clk_last=0, clk_adj=0;
  std::vector<uint32_t> collseq; // per comm
  std::vector<uint8_t> commstate; // per comm: 0 none 1 live 2 freed
  const char *where="start";
};
static Rank R[MAXR];
static Ctx sched_ctx;
static bool in_run=false;
static std::function<void(int)> rank_main_fn;

static bool ending=false;
static void to_sched(){ int r=cur_rank; cur_rank=-1; sim_switch(&R[r].ctx,&sched_ctx); cur_rank=r; }

static void ev(uint64_t a, uint64_t b=0, uint64_t c=0){ uint64_t h=S.evhash ^ (a*0x9e3779b97f4a7c15ull); h=mix64(h+b); h=mix64(h^ (c+0x632be59bd9b4e019ull)); S.evhash=h; }
static void tr(const char *fmt,...) __attribute__((format(printf,1,2)));
static void tr(const char *fmt,...){ if(!S.cfg.trace) return; if(S.trace.size()>(8u<<20)) return; char b[600]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap); char h[40]; snprintf(h,sizeof h,"%7llu ",(unsigned long long)S.steps); S.trace+=h; S.trace+=b; S.trace+='\n'; }

void Sim::violate(const char *cls, const char *fmt, ...){
  if(!viol.set){
    char b[1500]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
    viol.set=true; viol.cls=cls; viol.detail=b; viol.rank=cur_rank; viol.op=cur_rank>=0?cur_op[cur_rank]:-1;
    tr("VIOLATION %s rank %d op %d: %s",cls,viol.rank,viol.op,b);
  }
  if(in_run && cur_rank>=0){ ending=true; R[cur_rank].dead=true; to_sched(); _exit(97); }
}

// ------------------------------------------------------------------ choices
uint32_t Sim::choose(uint32_t n, uint32_t proposed){ return tape.take(n,proposed); }

// ------------------------------------------------------------------ messages
struct Msg { int src,dst,comm,tag; size_t n; const char *sbuf; std::vector<char> data; bool eager=false, copied=false; int mode=0;
  uint64_t hash=0; Req *sreq=nullptr,*rreq=nullptr; bool arrived=false,xfer_done=false; uint64_t seq=0, post_step=0, match_step=0; bool blocking_send=false; };
enum ReqKind { RK_SEND, RK_RECV, RK_COLL };
struct Req { int id=0; ReqKind kind; int rank; bool complete=false, freed=false; Msg *m=nullptr; char *buf=nullptr; size_t n=0; int src=0,tag=0,comm=0; Coll *coll=nullptr; int st_src=-1,st_tag=-1; size_t st_n=0; bool internal=false; int crank=-1; };
enum CollKind { C_DUP, C_SPLIT, C_BARRIER, C_BCAST, C_GATHER, C_SCATTER, C_ALLGATHER, C_ALLTOALL, C_REDUCE, C_ALLREDUCE, C_SCAN, C_EXSCAN, C_IALLREDUCE, C_IBARRIER };
static const char *collname[]={"Comm_dup","Comm_split","Barrier","Bcast","Gather","Scatter","Allgather","Alltoall","Reduce","Allreduce","Scan","Exscan","Iallreduce","Ibarrier"};
struct CPart { bool in=false, done=false; std::vector<char> data; const char *sbuf=nullptr; char *rbuf=nullptr; size_t n=0; int color=0,key=0; int newcomm=-1; Req *req=nullptr; uint64_t hash=0; std::vector<size_t> cnt; };
struct Coll { CollKind kind; int comm; uint32_t seq; int np; int nin=0; int root=-1; int dt=0, op=0; long count=-1; std::vector<CPart> part; bool computed=false, made=false; std::vector<char> result; uint64_t id; };
struct Comm { std::vector<int> members; std::vector<int> rk; /*world->local*/ int live=0; std::map<uint32_t,Coll*> colls; };
struct Pend { int t; Msg *m; Coll *c; int r; uint64_t born; }; // t:0 arrive(channel head) 1 xfer 2 absorb 3 coll compute 4 coll deliver
static std::vector<Comm*> comms;
static std::vector<Msg*> allmsgs; static std::vector<Req*> allreqs; static std::vector<Coll*> allcolls;
static std::vector<Pend> pend;
struct DstQ { std::deque<Req*> posted; std::deque<Msg*> unexp; };
static std::map<std::pair<int,int>,DstQ> dstq;              // (comm,dst local)
static std::map<std::pair<int,std::pair<int,int>>,std::deque<Msg*>> chan; // (comm,(src,dst)) not yet arrived
static uint64_t msgseq, last_xfer_seq[MAXR];
static int live_reqs_n[MAXR], live_comms_n[MAXR];

// strategy state
struct Strat { int kind; double p; std::vector<double> prio; double netprio; std::vector<uint64_t> cps; int victim; uint64_t st_a,st_b; int st_r; double p_late,p_rdv; int rr=0; } st;
static const char *stratname[]={"uniform","run-to-block","pct","starve-rank","late-net","eager-net","lifo-net","round-robin"};

int Sim::live_comms(int r) const { return live_comms_n[r]; }
int Sim::live_reqs(int r) const { return live_reqs_n[r]; }
long Sim::live_blocks(int r) const { return R[r].live; }
long Sim::live_lib_blocks(int r) const { return R[r].live_lib; }
long Sim::live_bytes(int r) const { return R[r].liveb; }
std::string Sim::live_report(int r,int maxn) const { std::string s; int k=0; for(auto &b:R[r].blocks) if(b.live){ char t[100]; snprintf(t,sizeof t,"%s%zu bytes(%s,#%zu)",s.empty()?"":", ",b.n,b.owner?"user":"lib",(size_t)(&b-&R[r].blocks[0])); s+=t; if(++k>=maxn) break;} return s; }

// ------------------------------------------------------------------ heap
static void junkfill(char *p, size_t n, uint64_t key){
  uint64_t mode=S.cfg.junk_seed&7; 
  if(mode==0){ memset(p,0,n); return; }
  if(mode==1){ memset(p,0xff,n); return; }
  uint64_t x=mix64(S.cfg.junk_seed*0x9e3779b97f4a7c15ull+key)|1; size_t i=0;
  if(mode<5){ // small numbers, as stale ids, ranks, counts and flags would be
    for(;i+8<=n;i+=8){ x^=x<<13; x^=x>>7; x^=x<<17; uint32_t w[2]={(uint32_t)(x&3),(uint32_t)(mode==2?0:mode==3?(x>>8)&1:(x>>8)&7)}; memcpy(p+i,w,8); }
    for(;i<n;++i) p[i]=(char)((i&3)==0?x>>20&3:0); return; }
  for(;i+8<=n;i+=8){ x^=x<<13; x^=x>>7; x^=x<<17; memcpy(p+i,&x,8); }
  for(;i<n;++i) p[i]=(char)(x>>(8*(i&7)));
}
static void *heap_alloc(size_t n, int owner, size_t al=16){
  int r=cur_rank; if(r<0) return malloc(n);
  Rank &k=R[r]; 
  if(owner==0){ long idx=S.lib_allocs[r]++; S.cnt.allocs++;
    if(S.cfg.fail_rank==r && n>0 && (idx==S.cfg.fail_at || (S.cfg.fail_sticky && idx>S.cfg.fail_at && S.cfg.fail_at>=0))){ if(!S.injected_alloc_failure) tr("rank %d: allocation #%ld (%zu bytes) FAILS (injected)",r,idx,n); S.injected_alloc_failure=true; S.cnt.alloc_fail++; ev(90,r,idx); return nullptr; } }
  size_t pad=al>16?((k.brk+16+al-1)&~(al-1))-k.brk-16:0, need=((n+15)&~(size_t)15)+32+pad;
  if(S.cfg.giant && n>RSPACE/4){ void*q=malloc(n); if(q){ k.live++; k.liveb+=n; if(owner==0) k.live_lib++; k.giant[(uintptr_t)q]=n; } return q; }
  if(n>RSPACE/2 || k.brk+need>ARENA+RSPACE*(r+1)){ tr("rank %d: allocation of %zu bytes refused (arena)",r,n); return nullptr; }
  uintptr_t p=k.brk+16+pad; k.brk+=need; 
  if(k.brk>k.hi){ k.hi=k.brk; }
  memset(shp(p-16-pad),SH_NONE,need); memset(shp(p),SH_OK,n);
  junkfill((char*)p,n,p-ARENA);
  k.bmap[p]=k.blocks.size(); k.blocks.push_back({p,n,true,(uint8_t)owner,nullptr}); k.live++; k.liveb+=n; if(owner==0) k.live_lib++;
  return (void*)p;
}
static void heap_free(void *vp){
  int r=cur_rank; if(!vp) return; if(r<0){ free(vp); return; }
  Rank &k=R[r]; uintptr_t p=(uintptr_t)vp; auto it=k.bmap.find(p);
  if(it==k.bmap.end()&&k.giant.count(p)){ k.live--; k.liveb-=k.giant[p]; k.live_lib--; k.giant.erase(p); free(vp); return; }
  if(it==k.bmap.end()){ S.violate("bad-free","free of %s pointer",(p>=ARENA&&p<ARENA+ASIZE)?"a non-block heap":"a non-heap"); return; }
  Block &b=k.blocks[it->second]; if(!b.live){ S.violate("double-free","block of %zu bytes freed twice",b.n); return; }
  for(size_t i=0;i<b.n;++i){ uint8_t s=*shp(p+i); if(s==SH_RECV||s==SH_SEND){ if(S.cfg.inflight) S.violate("inflight-free","block freed while an MPI operation on it is outstanding"); break; } }
  b.live=false; k.live--; k.liveb-=b.n; if(b.owner==0) k.live_lib--; memset(shp(p),SH_FREED,b.n); junkfill((char*)p,b.n,p^0x55);
}
static size_t heap_size(void *vp){ Rank &k=R[cur_rank]; auto it=k.bmap.find((uintptr_t)vp); if(it==k.bmap.end()||!k.blocks[it->second].live){ S.violate("bad-free","realloc of an invalid pointer"); return 0;} return k.blocks[it->second].n; }
static void *heap_realloc(void *vp,size_t n,int owner){
  if(cur_rank<0) return realloc(vp,n);
  if(!vp) return heap_alloc(n,owner);
  if(n==0){ heap_free(vp); if((S.cfg.junk_seed>>8)&1) return heap_alloc(0,owner); S.cnt.malloc0_null++; return nullptr; }
  size_t o=heap_size(vp); void *q=heap_alloc(n,owner); if(!q) return q;
  for(size_t i=0,m=o<n?o:n;i<m;++i){ uint8_t s=*shp((uintptr_t)vp+i); if(s==SH_RECV||s==SH_SEND){ if(S.cfg.inflight) S.violate("inflight-free","block reallocated while an MPI operation on it is outstanding"); break; } }
  memcpy(q,vp,o<n?o:n); heap_free(vp); S.cnt.realloc_move++; return q;
}
static void bad_access(uintptr_t a,size_t n,bool w){
  uint8_t s=*shp(a); size_t i=0; for(;i<n;++i){ s=*shp(a+i); if(s!=SH_OK && !(s==SH_SEND&&!w)) break; }
  if(i==n) return;
  int owner=(int)((a-ARENA)/RSPACE);
  if(s==SH_RECV||s==SH_SEND){ if(!S.cfg.inflight) return; S.violate("inflight-access","%s of %zu bytes in a buffer of an outstanding MPI %s",w?"write":"read",n,s==SH_RECV?"receive":"send"); return; }
  if(!S.cfg.memcheck) return;
  // locate nearest block for the report
  Rank &k=R[owner]; std::string d; uintptr_t bad=a+i; for(auto it=k.blocks.rbegin();it!=k.blocks.rend();++it) if(it->p<=bad){ char t[120]; snprintf(t,sizeof t," at offset %ld of a block of %zu bytes",(long)(bad-it->p),it->n); d=t; break; }
  S.violate(s==SH_FREED?"use-after-free":"out-of-bounds","%s of %zu bytes%s%s",w?"write":"read",n,d.c_str(),owner!=cur_rank?" (another rank's memory)":"");
}
static inline void chk(uintptr_t a,size_t n,bool w){
  if(a-ARENA>=ASIZE) return; if(cur_rank<0) return;
  if(n>ASIZE-(a-ARENA)) n=ASIZE-(a-ARENA);
  const uint8_t *s=shp(a); size_t i=0;
  for(;i+8<=n;i+=8){ uint64_t v; memcpy(&v,s+i,8); if(v!=0x0101010101010101ull){ bad_access(a,n,w); return; } }
  for(;i<n;++i) if(s[i]!=SH_OK){ bad_access(a,n,w); return; }
}
static bool range_is(uintptr_t a,size_t n,bool w){ // for MPI buffers: bytes must be allocated
  if(a-ARENA>=ASIZE) return true; for(size_t i=0;i<n;++i){ uint8_t s=*shp(a+i); if(s==SH_NONE||s==SH_FREED) return false; } (void)w; return true; }

extern "C" {
#define AS(n) void __asan_load##n##_noabort(uintptr_t a){chk(a,n,false);} void __asan_store##n##_noabort(uintptr_t a){chk(a,n,true);}
AS(1) AS(2) AS(4) AS(8) AS(16)
void __asan_loadN_noabort(uintptr_t a,size_t n){chk(a,n,false);} void __asan_storeN_noabort(uintptr_t a,size_t n){chk(a,n,true);}
void __asan_handle_no_return(){}
void *sim_malloc(size_t n){ return heap_alloc(n,0); }
void *sim_calloc(size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; void *p=heap_alloc(n,0); if(p) memset(p,0,n); return p; }
void *sim_realloc(void *p,size_t n){ return heap_realloc(p,n,0); }
void sim_free(void *p){ heap_free(p); }
void *usr_malloc(size_t n){ return heap_alloc(n,1); }
void *usr_calloc(size_t a,size_t b){ void *p=heap_alloc(a*b,1); if(p) memset(p,0,a*b); return p; }
void *usr_realloc(void *p,size_t n){ return heap_realloc(p,n,1); }
int sim_posix_memalign(void **o,size_t al,size_t n){ void*p=heap_alloc(n,0,al); if(!p) return ENOMEM; *o=p; return 0; }
void *sim_aligned_alloc(size_t al,size_t n){ return heap_alloc(n,0,al); }
void *sim_reallocarray(void*p,size_t a,size_t b){ size_t n; if(__builtin_mul_overflow(a,b,&n)) return nullptr; return heap_realloc(p,n,0); }
char *sim_strndup(const char*s,size_t m){ size_t n=strnlen(s,m); char *p=(char*)heap_alloc(n+1,0); if(p) memcpy(p,s,n),p[n]=0; return p; }
char *sim_strdup(const char*s){ size_t n=strlen(s)+1; char *p=(char*)heap_alloc(n,0); if(p) memcpy(p,s,n); return p; }
void *sim_memcpy(void *d,const void *s,size_t n){ if(n){ chk((uintptr_t)s,n,false); chk((uintptr_t)d,n,true); 
   if(S.cfg.memcheck && cur_rank>=0 && d!=s && (const char*)d<(const char*)s+n && (const char*)s<(char*)d+n) S.violate("memcpy-overlap","memcpy of %zu bytes between overlapping ranges",n);
   memmove(d,s,n);} return d; }
void *sim_memmove(void *d,const void *s,size_t n){ if(n){ chk((uintptr_t)s,n,false); chk((uintptr_t)d,n,true); memmove(d,s,n);} return d; }
void *sim_memset(void *d,int c,size_t n){ if(n){ chk((uintptr_t)d,n,true); memset(d,c,n);} return d; }
__attribute__((noreturn)) static void rank_terminate(int status,bool ab){
  int r=cur_rank; if(r<0) _exit(96);
  S.rexit[r].exited=true; S.rexit[r].status=status; S.rexit[r].abort=ab; R[r].done=true; R[r].where="exited"; ev(80,r,status); tr("rank %d: terminates with status %d%s",r,status,ab?" (MPI_Abort)":"");
  if(!S.cfg.tolerate_exit){ std::string o=S.out[r]; size_t e=o.rfind("ERROR"); if(e!=std::string::npos) o=o.substr(e); while(!o.empty()&&(o.back()=='\n')) o.pop_back(); S.violate("died","rank terminated with status %d: %s",status,o.c_str()); }
  for(;;) to_sched();
}
void sim_exit(int status){ rank_terminate(status,false); }
void sim__exit(int status){ rank_terminate(status,false); }
void sim_Exit(int status){ rank_terminate(status,false); }
void sim_abort(){ S.violate("abort","abort() called"); rank_terminate(134,true); }
void sim_assert_fail(const char*e,const char*f,unsigned l,const char*fn){ (void)fn; S.violate("assert","assertion failed: %s (%s:%u)",e,strrchr(f,'/')?strrchr(f,'/')+1:f,l); rank_terminate(134,true); }
void sim_stack_chk_fail(){ S.violate("stack-smash","stack smashing detected"); rank_terminate(134,true); }
static size_t out_append(const char *p,size_t n,bool allow_short){
  int r=cur_rank; if(r<0) return n; 
  if(allow_short && S.cfg.short_writes && n>1){ uint32_t c=S.choose(4,S.srng.below(4)); if(c){ size_t m=n; if(c==1) m=1; else if(c==2) m=n/2?n/2:1; else m=n-1; if(m<n){ S.cnt.short_write++; n=m; } } }
  if(S.out[r].size()<(1u<<20)) S.out[r].append(p,n); return n; }
static int is_std(void *f){ return f==(void*)stdout||f==(void*)stderr; }
size_t sim_fwrite(const void *p,size_t sz,size_t n,void *f){ if(!is_std(f)||sz==0) return n; if(sz!=1){ out_append((const char*)p,sz*n,false); return n; } return out_append((const char*)p,n,true); }
int sim_vfprintf(void *f,const char *fmt,va_list ap){ char b[8192]; int k=vsnprintf(b,sizeof b,fmt,ap); if(k>0&&is_std(f)) out_append(b,(size_t)k<sizeof b?k:sizeof b-1,false); return k; }
int sim_vprintf(const char *fmt,va_list ap){ return sim_vfprintf(stdout,fmt,ap); }
int sim_printf(const char *fmt,...){ va_list ap; va_start(ap,fmt); int k=sim_vfprintf(stdout,fmt,ap); va_end(ap); return k; }
int sim_fprintf(void *f,const char *fmt,...){ va_list ap; va_start(ap,fmt); int k=sim_vfprintf(f,fmt,ap); va_end(ap); return k; }
int sim_puts(const char*s){ out_append(s,strlen(s),false); out_append("\n",1,false); return 1; }
int sim_fputs(const char*s,void*f){ if(is_std(f)) out_append(s,strlen(s),false); return 1; }
int sim_putchar(int c){ char b=(char)c; out_append(&b,1,false); return c; }
int sim_fputc(int c,void*f){ return is_std(f)?sim_putchar(c):c; }
int sim_putc(int c,void*f){ return is_std(f)?sim_putchar(c):c; }
long sim_write(int fd,const void*p,size_t n){ return fd==1||fd==2?(long)out_append((const char*)p,n,true):(long)n; }
int sim_dprintf(int fd,const char *fmt,...){ va_list ap; va_start(ap,fmt); int k=sim_vfprintf(fd==1||fd==2?(void*)stdout:nullptr,fmt,ap); va_end(ap); return k; }
int sim_fflush(void*f){ (void)f; return 0; }
static double sim_clock();
long sim_time(long *p){ long t=1500000000+(long)sim_clock(); if(p) *p=t; return t; }
long sim_clockfn(){ return (long)(sim_clock()*1e6); }
int sim_gettimeofday(struct timeval*tv,void*){ double t=sim_clock(); tv->tv_sec=(long)t; tv->tv_usec=(long)((t-(long)t)*1e6); return 0; }
int sim_clock_gettime(int,struct timespec*ts){ double t=sim_clock(); ts->tv_sec=(long)t; ts->tv_nsec=(long)((t-(long)t)*1e9); return 0; }
int sim_rand(){ int r=cur_rank<0?0:cur_rank; static uint64_t c; return (int)(mix64(S.cfg.junk_seed+r*77+(S.steps<<8)+c)&0x7fffffff); }
void sim_srand(unsigned){ }
void sim_srandom(unsigned){ }
long sim_random(){ return sim_rand(); }
double sim_drand48(){ return sim_rand()/2147483648.0; }
int sim_getpid(){ return 4000+(cur_rank<0?0:cur_rank); }
int sim_sched_yield(){ sim_yield_point("sched_yield"); return 0; }
int sim_nanosleep(const struct timespec*t,struct timespec*){ S.now_ns+=t->tv_sec*1000000000ull+t->tv_nsec; sim_yield_point("nanosleep"); return 0; }
int sim_usleep(unsigned us){ S.now_ns+=us*1000ull; sim_yield_point("usleep"); return 0; }
}

// ------------------------------------------------------------------ buffers in flight
struct Fly { uintptr_t p; size_t n; uint8_t st; Req *q; };
static std::vector<Fly> flying[MAXR]; /* per rank: buffers of different ranks never overlap */
static void fly_add(Req *q,const void *b,size_t n,uint8_t stt){ uintptr_t p=(uintptr_t)b; if(!n||p-ARENA>=ASIZE) return; flying[q->rank].push_back({p,n,stt,q});
  for(size_t i=0;i<n;++i){ uint8_t &s=*shp(p+i); if(s==SH_OK||(s==SH_SEND&&stt==SH_RECV)) s=stt; } }
static void fly_del(Req *q){ auto&fly=flying[q->rank];
  for(size_t i=0;i<fly.size();) { if(fly[i].q!=q){ ++i; continue; }
    Fly f=fly[i]; fly.erase(fly.begin()+i);
    for(size_t j=0;j<f.n;++j){ uint8_t &s=*shp(f.p+j); if(s==SH_RECV||s==SH_SEND) s=SH_OK; }
    for(auto &g:fly) if(g.p<f.p+f.n&&f.p<g.p+g.n){ uintptr_t a=std::max(g.p,f.p),b=std::min(g.p+g.n,f.p+f.n); for(;a<b;++a) if(*shp(a)==SH_OK) *shp(a)=g.st; } } }
static uint64_t hbuf(const char *p,size_t n){ uint64_t h=1469598103934665603ull^n; size_t i=0; for(;i+8<=n;i+=8){ uint64_t v; memcpy(&v,p+i,8); h=(h^v)*0x9e3779b97f4a7c15ull; h^=h>>29; } for(;i<n;++i) h=(h^(uint8_t)p[i])*1099511628211ull; return mix64(h); }

// ------------------------------------------------------------------ scheduling
static void step_check(){ if(++S.steps>S.cfg.max_steps){ S.violate("no-progress","no completion within %llu scheduling steps",(unsigned long long)S.cfg.max_steps); } }
void sim_yield_point(const char *what){ if(cur_rank<0||!in_run) return; R[cur_rank].where=what; to_sched(); }
static void block(WaitKind w,const char*what){ R[cur_rank].wk=w; R[cur_rank].where=what; to_sched(); R[cur_rank].wk=W_NONE; }

static bool colldone(Coll*c,int me){ 
  if(c->part[me].done) return true;
  switch(c->kind){ case C_BCAST: return me==c->root || c->part[c->root].in; case C_SCATTER: return c->part[c->root].in; case C_GATHER: case C_REDUCE: return me!=c->root || c->nin==c->np;
   case C_SCAN: for(int i=0;i<me;++i) if(!c->part[i].in) return false; return true; case C_EXSCAN: for(int i=0;i<me;++i) if(!c->part[i].in) return false; return true; default: return c->nin==c->np; } }
static bool match1(Req*q,Msg*m){ return (q->src==MPI_ANY_SOURCE||q->src==m->src)&&(q->tag==MPI_ANY_TAG||q->tag==m->tag); }
static bool runnable(int r){ Rank&k=R[r]; if(k.done||k.dead) return false; switch(k.wk){ case W_NONE: return true; case W_REQS: for(auto q:k.wreqs) if(!q->complete) return false; return true; case W_ANYREQ: for(auto q:k.wreqs) if(q->complete) return true; return false;
   case W_COLL: { Coll*c=k.wcoll; int me=comms[c->comm]->rk[r]; return k.pr_src? c->nin==c->np : colldone(c,me); }
   case W_PROBE: { auto &d=dstq[{k.pr_comm,comms[k.pr_comm]->rk[r]}]; for(auto m:d.unexp){ if((k.pr_src==MPI_ANY_SOURCE||k.pr_src==m->src)&&(k.pr_tag==MPI_ANY_TAG||k.pr_tag==m->tag)) return true; } return false; }
   default: return true; } }
static int pend_find(int t,Msg*m){ for(size_t i=0;i<pend.size();++i) if(pend[i].t==t&&pend[i].m==m) return i; return -1; }
static void pend_add(int t,Msg*m,Coll*c=nullptr,int r=0){ pend.push_back({t,m,c,r,S.steps}); }
static void do_match(Msg*m,Req*q){ m->rreq=q; q->m=m; m->match_step=S.steps; q->st_src=m->src; q->st_tag=m->tag; q->st_n=m->n;
  int wr=comms[m->comm]->members[m->dst]; 
  if(m->n>q->n){ S.viol.rank=-1; int keep=cur_rank; if(keep<0){ if(!S.viol.set){ S.violate("truncation","message of %zu bytes (rank %d -> %d, tag %d) into a receive of %zu bytes",m->n,m->src,m->dst,m->tag,q->n); S.viol.rank=wr; S.viol.op=S.cur_op[wr]; ending=true; } return; } S.violate("truncation","message of %zu bytes (rank %d -> %d, tag %d) into a receive of %zu bytes",m->n,m->src,m->dst,m->tag,q->n); return; }
  if(m->n && q->buf) junkfill(q->buf,m->n,m->seq*31+7); // a receive may write its buffer at any time from here on
  pend_add(1,m); }
static void do_arrive(Msg*m){ m->arrived=true; auto &d=dstq[{m->comm,m->dst}];
  for(auto it=d.posted.begin();it!=d.posted.end();++it) if(match1(*it,m)){ Req*q=*it; if(q->src==MPI_ANY_SOURCE||q->tag==MPI_ANY_TAG) S.cnt.wildcard++; d.posted.erase(it); do_match(m,q); return; }
  d.unexp.push_back(m); }
static void absorb(Msg*m){ if(m->copied) return; if(m->n){ if(hbuf(m->sbuf,m->n)!=m->hash){ int wr=comms[m->comm]->members[m->src]; if(!S.viol.set){ S.violate("inflight-modify","send buffer of %zu bytes (rank %d -> %d, tag %d) changed while the send was outstanding",m->n,m->src,m->dst,m->tag); S.viol.rank=wr; S.viol.op=S.cur_op[wr]; } ending=true; return; } m->data.assign(m->sbuf,m->sbuf+m->n); } m->copied=true; S.cnt.late_send++; if(m->sreq) m->sreq->complete=true; }
static void coll_compute(Coll*c);
static void do_pend(size_t i){ Pend p=pend[i]; 
  if(p.t==0){ pend.erase(pend.begin()+i); auto &q=chan[{p.m->comm,{p.m->src,p.m->dst}}]; q.pop_front(); ev(10,p.m->seq); tr("net: envelope %d->%d comm %d tag %d (%zu bytes) arrives",p.m->src,p.m->dst,p.m->comm,p.m->tag,p.m->n); do_arrive(p.m); if(!q.empty()) pend_add(0,q.front()); return; }
  pend.erase(pend.begin()+i);
  if(p.t==1){ Msg*m=p.m; absorb(m); if(ending) return; int k=pend_find(2,m); if(k>=0) pend.erase(pend.begin()+k); if(m->n) memcpy(m->rreq->buf,m->data.data(),m->n); m->xfer_done=true; m->rreq->complete=true; std::vector<char>().swap(m->data); if(m->sreq) m->sreq->complete=true; ev(11,m->seq); if(S.steps-m->match_step>20) S.cnt.delayed++; int w=comms[m->comm]->members[m->dst]; if(m->seq<last_xfer_seq[w]) S.cnt.reordered++; last_xfer_seq[w]=m->seq; tr("net: data %d->%d comm %d tag %d (%zu bytes) delivered",m->src,m->dst,m->comm,m->tag,m->n); return; }
  if(p.t==2){ ev(12,p.m->seq); tr("net: send buffer %d->%d tag %d read",p.m->src,p.m->dst,p.m->tag); absorb(p.m); return; }
  if(p.t==3){ ev(13,p.c->id); coll_compute(p.c); if(ending) return; for(int r=0;r<p.c->np;++r) pend_add(4,nullptr,p.c,r); return; }
  if(p.t==4){ ev(14,p.c->id,p.r); CPart &q=p.c->part[p.r]; if(q.rbuf&&p.c->result.size()) memcpy(q.rbuf,p.c->result.data(),p.c->result.size()); q.done=true; q.req->complete=true; S.cnt.coll_late++; return; }
}
extern "C" void sim_fiber_entry(intptr_t r){ rank_main_fn((int)r); R[r].done=true; S.rexit[r].finished=true; R[r].where="finished"; tr("rank %d: finished",(int)r); for(;;) to_sched(); }

static sigjmp_buf crash_jmp; static volatile sig_atomic_t crash_armed=0; static volatile int crash_sig=0; static void*volatile crash_addr;
static double hang_limit=5.0; static volatile uint64_t tick_steps;
void sim_set_hang_limit(double s){ hang_limit=s; }
static void on_crash(int sig,siginfo_t*si,void*){ 
  if(!crash_armed){ if(sig==SIGVTALRM) return; signal(sig,SIG_DFL); raise(sig); return; }
  if(sig==SIGVTALRM){ if(cur_rank<0||S.steps!=tick_steps){ tick_steps=S.steps; return; } } // hang: no event of any rank between two ticks
  crash_sig=sig; crash_addr=si->si_addr; crash_armed=0; siglongjmp(crash_jmp,1); }

static void draw_strategy(int np){
  Rng &g=S.srng; st=Strat(); 
  st.kind = S.cfg.strategy>=0? S.cfg.strategy : (int)g.below(8);
  st.p = 0.02+0.3*g.unit()*g.unit(); for(int i=0;i<np;++i) st.prio.push_back(g.unit()); st.netprio=g.unit();
  int ncp=g.below(6); for(int i=0;i<ncp;++i) st.cps.push_back(g.below(40*np+100)); st.victim=g.below(np);
  st.st_r=-1; if(g.chance(0.35)){ st.st_r=g.below(np); st.st_a=g.below(60*np+50); st.st_b=st.st_a+20+g.below(400); }
  static const double pl[]={0,0.1,0.5,1.0}; st.p_late=pl[g.below(4)]; st.p_rdv=pl[g.below(4)];
}

void Sim::run(const RunCfg&c,const std::function<void(int)>&f){
  cfg=c; srng=Rng(c.sched_seed*0x2545f4914f6cdd1dull+11); viol=Violation(); evhash=0x1234567; steps=0; now_ns=0; trace.clear(); injected_alloc_failure=false;
  rank_main_fn=f; ending=false; int np=c.np;
  for(auto m:allmsgs) delete m; for(auto q:allreqs) delete q; for(auto x:allcolls) delete x; for(auto x:comms) delete x;
  allmsgs.clear(); allreqs.clear(); allcolls.clear(); comms.clear(); pend.clear(); dstq.clear(); chan.clear(); for(auto&f:flying) f.clear(); msgseq=0;
  Comm*w=new Comm; w->rk.assign(MAXR,-1); for(int i=0;i<np;++i){ w->members.push_back(i); w->rk[i]=i; } comms.push_back(w);
  for(int i=0;i<np;++i){ Comm*s=new Comm; s->rk.assign(MAXR,-1); s->members.push_back(i); s->rk[i]=0; comms.push_back(s); } // COMM_SELF of rank i = 1+i
  draw_strategy(np); if(cfg.calm) st.kind=-1; strat_name = cfg.calm?"calm":stratname[st.kind];
  for(int i=0;i<np;++i){ Rank&k=R[i]; 
    uintptr_t lo=ARENA+RSPACE*i; size_t used=k.hi>lo?k.hi-lo:0; if(used){ memset(shp(lo),SH_NONE,used); if(used>(16u<<20)){ madvise((void*)lo,used,MADV_DONTNEED); madvise(shp(lo),used,MADV_DONTNEED);} }
    k.started=k.done=k.dead=k.polled=false; k.wk=W_NONE; k.wreqs.clear(); k.brk=k.hi=lo; k.blocks.clear(); k.bmap.clear(); for(auto&kv:k.giant) free((void*)kv.first); k.giant.clear(); k.live=k.liveb=k.live_lib=0; k.where="start"; k.collseq.clear(); k.commstate.assign(1+np,0); k.commstate[0]=1; k.commstate[1+i]=1;
    uint64_t h=mix64(cfg.junk_seed*131+i); k.clk_off=cfg.clock_faults?(double)(h%100000):0; k.clk_rate=cfg.clock_faults?0.5+(h>>20&1023)/1024.0:1; k.clk_last=0; k.clk_adj=0;
    rexit[i]=RankExit(); out[i].clear(); cur_op[i]=-1; lib_allocs[i]=0; live_reqs_n[i]=0; live_comms_n[i]=0; last_xfer_seq[i]=0;
    char*top=(char*)(STACKS+(size_t)(i+1)*2*STKSZ); junkfill(top-STKJUNK,STKJUNK,i*997+5);
    void**sp=(void**)(top-64); *--sp=nullptr; *--sp=(void*)sim_tramp; 
    // order popped: r15 r14 r13 r12 rbx rbp
    *--sp=0; /*rbp*/ *--sp=0; /*rbx*/ *--sp=(void*)(intptr_t)i; /*r12*/ *--sp=0; *--sp=0; *--sp=0; /*r15*/
    --sp; uint32_t mx; uint16_t cw; asm volatile("stmxcsr %0; fnstcw %1":"=m"(mx),"=m"(cw)); ((uint32_t*)sp)[0]=mx; ((uint32_t*)sp)[1]=cw; k.ctx.sp=sp; }
  in_run=true; int last=0; bool stalled=false;
  tick_steps=~0ull; struct itimerval tv={{(long)hang_limit,(long)((hang_limit-(long)hang_limit)*1e6)},{(long)hang_limit,(long)((hang_limit-(long)hang_limit)*1e6)}}; setitimer(ITIMER_VIRTUAL,&tv,nullptr);
  if(sigsetjmp(crash_jmp,1)){ int r=cur_rank; int op=r>=0?cur_op[r]:-1; cur_rank=-1; if(!viol.set){ viol.set=true; viol.rank=r; viol.op=op; char b[200]; if(crash_sig==SIGVTALRM){ viol.cls="hang"; snprintf(b,sizeof b,"rank %d computes without end (op %d)",r,op);} else { viol.cls="crash"; snprintf(b,sizeof b,"%s in rank %d (op %d)",strsignal(crash_sig),r,op);} viol.detail=b; tr("VIOLATION %s %s",viol.cls.c_str(),b);} ending=true; }
  crash_armed=1;
  std::vector<int> rn; rn.reserve(MAXR);
  while(!ending){
    rn.clear(); if(runnable(last)&&!R[last].polled) rn.push_back(last); for(int r=0;r<np;++r) if(r!=last&&!R[r].polled&&runnable(r)) rn.push_back(r);
    if(rn.empty()&&pend.empty()){ for(int r=0;r<np;++r) if(R[r].polled){ R[r].polled=false; if(runnable(r)) rn.push_back(r);} }
    uint32_t nr=rn.size(), k=nr+pend.size();
    if(k==0){ bool all=true; std::string who; for(int r=0;r<np;++r) if(!R[r].done){ all=false; char t[80]; snprintf(t,sizeof t,"%srank %d in %s (op %d)",who.empty()?"":", ",r,R[r].where,cur_op[r]); who+=t; }
      if(!all){ bool anyexit=false; for(int r=0;r<np;++r) if(rexit[r].exited) anyexit=true; if(!(anyexit&&cfg.tolerate_exit)) { violate("deadlock","no rank can proceed: %s",who.c_str()); for(int r=0;r<np;++r) if(!R[r].done){ viol.rank=r; viol.op=cur_op[r]; break; } } }
      break; }
    uint32_t pr=0;
    if(!cfg.calm && !tape.replay && k>1){
      switch(st.kind){
        case 0: pr=srng.below(k); break;
        case 1: pr=srng.chance(st.p)?srng.below(k):0; break;
        case 2: { for(size_t i=0;i<st.cps.size();++i) if(st.cps[i]==steps){ if(srng.chance(0.3)) st.netprio=-1.0*srng.unit()*(1+steps); else if(nr) st.prio[rn[0]]=-1.0*(1+steps); }
           double best=-1e300; for(uint32_t i=0;i<nr;++i) if(st.prio[rn[i]]>best){ best=st.prio[rn[i]]; pr=i; } if(pend.size()&&st.netprio>best) pr=nr+srng.below(pend.size()); if(!nr) pr=srng.below(k); } break;
        case 3: { pr=srng.below(k); if(pr<nr&&rn[pr]==st.victim){ uint32_t o=srng.below(k); if(k>1&&o==pr) o=(o+1)%k; pr=o; cnt.starved++; } } break;
        case 4: if(nr){ pr=srng.chance(0.7)?0:srng.below(nr); if(pend.size()) cnt.net_starved++; } else pr=srng.below(k); break;
        case 5: if(pend.size()) pr=nr; else pr=srng.below(nr); break;
        case 6: if(pend.size()&&srng.chance(0.5)) pr=k-1; else pr=srng.below(k); break;
        case 7: if(nr&&(pend.empty()||srng.chance(0.5))){ int bestd=1000; for(uint32_t i=0;i<nr;++i){ int d=(rn[i]-st.rr-1+2*np)%np; if(d<bestd){bestd=d;pr=i;} } st.rr=rn[pr]; } else pr=nr+srng.below(pend.size()); break;
      }
      if(st.st_r>=0&&steps>=st.st_a&&steps<st.st_b&&pr<nr&&rn[pr]==st.st_r&&k>1){ uint32_t o=srng.below(k-1); pr=o>=pr?o+1:o; if(!stalled) cnt.stalls++; stalled=true; }
    }
    uint32_t ch = cfg.calm?0:choose(k,pr);
    step_check(); if(ending||viol.set) break; now_ns+=1000;
    if(ch<nr){ int r=rn[ch]; if(r!=last) cnt.switches++; last=r; for(int q=0;q<np;++q) if(q!=r) R[q].polled=false; ev(1,r); cur_rank=r; sim_switch(&sched_ctx,&R[r].ctx); cur_rank=-1; }
    else { now_ns+=500; for(int q=0;q<np;++q) R[q].polled=false; do_pend(ch-nr); }
    if(viol.set) break;
  }
  crash_armed=0; memset(&tv,0,sizeof tv); setitimer(ITIMER_VIRTUAL,&tv,nullptr);
  in_run=false; cur_rank=-1;
  if(!viol.set){ bool anyexit=false; for(int r=0;r<np;++r) if(rexit[r].exited) anyexit=true;
    if(!anyexit){ for(auto m:allmsgs) if(!m->rreq){ violate("unmatched-message","message of %zu bytes (comm rank %d -> %d, tag %d) was never received",m->n,m->src,m->dst,m->tag); viol.rank=comms[m->comm]->members[m->src]; break; }
      for(int r=0;r<np&&!viol.set;++r) if(live_reqs_n[r]>0){ violate("request-leak","%d MPI request(s) never completed by a wait",live_reqs_n[r]); viol.rank=r; } } }
  cnt.runs++; cnt.steps+=steps; cnt.simtime_ns+=now_ns;
}

// ------------------------------------------------------------------ MPI
static Comm*getc(MPI_Comm c,const char*fn,int&idx){ int r=cur_rank; if(c==MPI_COMM_WORLD) idx=0; else if(c==MPI_COMM_SELF) idx=1+r; else { idx=c-(int)0x84000000; if(idx<0||idx>=(int)comms.size()||comms[idx]->rk[r]<0){ S.violate("mpi-misuse","%s on an invalid communicator",fn); return nullptr; } }
  if((size_t)idx>=R[r].commstate.size()||R[r].commstate[idx]!=1){ S.violate("mpi-misuse","%s on a %s communicator",fn,(size_t)idx<R[r].commstate.size()&&R[r].commstate[idx]==2?"freed":"foreign"); return nullptr; }
  return comms[idx]; }
static int dtsize(int dt){ switch(dt){ case MPI_BYTE: case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_UNSIGNED_CHAR: case MPI_INT8_T: case MPI_UINT8_T: case MPI_C_BOOL: return 1; case MPI_SHORT: case MPI_UNSIGNED_SHORT: return 2; case MPI_INT: case MPI_UNSIGNED: case MPI_FLOAT: case MPI_INT32_T: case MPI_UINT32_T: return 4; case MPI_LONG_DOUBLE: case MPI_DOUBLE_INT: return 16; case MPI_LONG: case MPI_UNSIGNED_LONG: case MPI_LONG_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_DOUBLE: case MPI_INT64_T: case MPI_UINT64_T: case MPI_2INT: return 8; } S.violate("mpi-misuse","invalid datatype"); return 1; }
static size_t bytes(int n,int dt,const char*fn){ if(n<0){ S.violate("mpi-misuse","%s with a negative count (%d)",fn,n); return 0; } return (size_t)n*dtsize(dt); }
static void chkbuf(const void*b,size_t n,const char*fn){ if(!n) return; if(!b){ S.violate("mpi-misuse","%s with a null buffer of %zu bytes",fn,n); return; } if(!range_is((uintptr_t)b,n,false)&&S.cfg.memcheck) S.violate("out-of-bounds","%s with a buffer of %zu bytes that is not wholly allocated",fn,n); }
static void chkrecv(const void*b,size_t n,const char*fn){ chkbuf(b,n,fn); uintptr_t p=(uintptr_t)b; if(!S.cfg.inflight||p-ARENA>=ASIZE) return; for(size_t i=0;i<n;++i){ uint8_t s=*shp(p+i); if(s==SH_RECV||s==SH_SEND){ S.violate("inflight-overlap","%s into a buffer overlapping an outstanding %s buffer",fn,s==SH_RECV?"receive":"send"); return; } } }
static void chksend(const void*b,size_t n,const char*fn){ chkbuf(b,n,fn); uintptr_t p=(uintptr_t)b; if(!S.cfg.inflight||p-ARENA>=ASIZE) return; for(size_t i=0;i<n;++i){ if(*shp(p+i)==SH_RECV){ S.violate("inflight-overlap","%s from a buffer overlapping an outstanding receive buffer",fn); return; } } }
static Req*newreq(ReqKind k){ Req*q=new Req; q->kind=k; q->rank=cur_rank; q->id=allreqs.size(); allreqs.push_back(q); return q; }
static Req*getreq(MPI_Request h,const char*fn){ long i=(long)h-0x2c000001L; if(i<0||i>=(long)allreqs.size()||allreqs[i]->rank!=cur_rank||allreqs[i]->freed||allreqs[i]->internal){ S.violate("mpi-misuse","%s on an invalid or already completed request",fn); return nullptr; } return allreqs[i]; }
static MPI_Request reqh(Req*q){ return (MPI_Request)(0x2c000001+q->id); }
static void prank(Comm*c,int r,const char*fn,bool any){ if(r==MPI_ANY_SOURCE&&any) return; if(r<0||r>=(int)c->members.size()) S.violate("mpi-misuse","%s with rank %d in a communicator of %zu",fn,r,c->members.size()); }
static void ptag(int t,const char*fn,bool any){ if(t==MPI_ANY_TAG&&any) return; if(t<0||t>MPI_TAG_UB) S.violate("mpi-misuse","%s with invalid tag %d",fn,t); }
static Req*post_recv(void*b,size_t n,int src,int tag,int ci,const char*fn){ Comm*c=comms[ci]; prank(c,src,fn,true); ptag(tag,fn,true); chkrecv(b,n,fn); Req*q=newreq(RK_RECV); q->buf=(char*)b; q->n=n; q->src=src; q->tag=tag; q->comm=ci; fly_add(q,b,n,SH_RECV); live_reqs_n[cur_rank]++; 
  auto &d=dstq[{ci,c->rk[cur_rank]}]; std::vector<size_t> cand; for(size_t i=0;i<d.unexp.size();++i) if(match1(q,d.unexp[i])){ cand.push_back(i); break; }
  ev(2,n,tag); tr("rank %d: %s n=%zu src=%d tag=%d comm=%d",cur_rank,fn,n,src,tag,ci);
  if(!cand.empty()){ Msg*m=d.unexp[cand[0]]; d.unexp.erase(d.unexp.begin()+cand[0]); do_match(m,q); } else d.posted.push_back(q); return q; }
static Req*post_send(const void*b,size_t n,int dst,int tag,int ci,int forced,const char*fn){ Comm*c=comms[ci]; prank(c,dst,fn,false); ptag(tag,fn,false); chksend(b,n,fn); Msg*m=new Msg; allmsgs.push_back(m); m->src=c->rk[cur_rank]; m->dst=dst; m->comm=ci; m->tag=tag; m->n=n; m->sbuf=(const char*)b; m->seq=++msgseq; m->post_step=S.steps; 
  int mode=forced; if(mode<0){ uint32_t prop=0; if(!S.tape.replay){ if(S.srng.chance(st.p_rdv)) prop=1; else if(S.srng.chance(st.p_late)) prop=2; } mode=S.cfg.calm?0:S.choose(3,prop); }
  m->mode=mode; Req*q=newreq(RK_SEND); q->m=m; m->sreq=q; live_reqs_n[cur_rank]++; S.cnt.msgs++; S.cnt.bytes+=n; ev(3,n,((uint64_t)dst<<32)|(unsigned)tag); tr("rank %d: %s n=%zu dst=%d tag=%d comm=%d mode=%s",cur_rank,fn,n,dst,tag,ci,mode==0?"eager":mode==1?"rendezvous":"late-read");
  if(mode==0){ m->data.assign(m->sbuf,m->sbuf+n); m->copied=true; q->complete=true; } else { m->hash=hbuf(m->sbuf,n); if(mode==1) S.cnt.rendezvous++; }
  fly_add(q,b,n,SH_SEND);
  auto &ch=chan[{ci,{m->src,dst}}]; ch.push_back(m); if(ch.size()==1) pend_add(0,m); if(mode==2) pend_add(2,m); return q; }
static void finish(Req*q,MPI_Status*stt){ if(stt&&stt!=MPI_STATUS_IGNORE){ stt->MPI_SOURCE=q->st_src; stt->MPI_TAG=q->st_tag; stt->sim_count=q->st_n; stt->MPI_ERROR=0; } if(!q->freed){ q->freed=true; fly_del(q); live_reqs_n[q->rank]--; } }
static void empty_status(MPI_Status*s){ if(s&&s!=MPI_STATUS_IGNORE){ s->MPI_SOURCE=MPI_ANY_SOURCE; s->MPI_TAG=MPI_ANY_TAG; s->MPI_ERROR=0; s->sim_count=0; } }
static double sim_clock(){ int r=cur_rank; if(r<0) return 0; Rank&k=R[r]; S.cnt.wtime++; S.now_ns+=200; double t=k.clk_off+k.clk_rate*(S.now_ns*1e-9)+k.clk_adj;
  if(S.cfg.clock_faults){ uint32_t prop=0; if(!S.tape.replay){ uint32_t x=S.srng.below(10); prop= x<5?0:x-4; } uint32_t c=S.choose(6,prop); switch(c){ case 1: k.clk_adj+=3600; S.cnt.clock_jump++; break; case 2: k.clk_adj-=5; S.cnt.clock_back++; break; case 3: S.cnt.clock_freeze++; k.clk_last=k.clk_last?k.clk_last:t; return k.clk_last; case 4: k.clk_adj+=1e-4; S.cnt.clock_jump++; break; case 5: k.clk_adj-=1e-4; S.cnt.clock_back++; break; } t=k.clk_off+k.clk_rate*(S.now_ns*1e-9)+k.clk_adj; }
  k.clk_last=t; return t; }

static Coll*coll_enter(CollKind kind,int ci,int root,long count,int dt,int op){ Comm*c=comms[ci]; Rank&k=R[cur_rank]; if(k.collseq.size()<=(size_t)ci) k.collseq.resize(ci+1,0); uint32_t s=k.collseq[ci]++; Coll*&x=c->colls[s]; if(!x){ x=new Coll; allcolls.push_back(x); x->kind=kind; x->comm=ci; x->seq=s; x->np=c->members.size(); x->root=root; x->count=count; x->dt=dt; x->op=op; x->part.resize(x->np); x->id=allcolls.size(); S.cnt.colls++; }
  ev(4,kind,x->id); tr("rank %d: %s comm=%d count=%ld",cur_rank,collname[kind],ci,count);
  if(x->kind!=kind) S.violate("collective-mismatch","%s where another rank calls %s",collname[kind],collname[x->kind]);
  else if(x->root!=root||x->count!=count||x->dt!=dt||x->op!=op) S.violate("collective-mismatch","%s with arguments different from another rank's (count %ld vs %ld, root %d vs %d)",collname[kind],count,x->count,root,x->root);
  CPart&p=x->part[c->rk[cur_rank]]; p.in=true; x->nin++; return x; }
static void coll_wait(Coll*x,bool forcesync){ Rank&k=R[cur_rank]; k.wcoll=x; uint32_t sync=1; if(!forcesync&&!S.cfg.calm) sync=S.choose(2,S.tape.replay?0:S.srng.below(2)); k.pr_src=forcesync||sync; block(W_COLL,collname[x->kind]); k.wcoll=nullptr; }
template<class T> static void red(char*a,const char*b,size_t n,int op){ for(size_t i=0;i<n;++i){ T x,y; memcpy(&x,a+i*sizeof(T),sizeof(T)); memcpy(&y,b+i*sizeof(T),sizeof(T)); switch(op){ case MPI_SUM: x=(T)(x+y); break; case MPI_PROD: x=(T)(x*y); break; case MPI_MIN: if(y<x) x=y; break; case MPI_MAX: if(x<y) x=y; break; case MPI_LAND: x=(T)(x&&y); break; case MPI_LOR: x=(T)(x||y); break; case MPI_LXOR: x=(T)(!x!=!y); break; default: { if constexpr(std::is_integral<T>::value){ if(op==MPI_BAND) x&=y; else if(op==MPI_BOR) x|=y; else if(op==MPI_BXOR) x^=y; else S.violate("mpi-misuse","invalid reduction op"); } else S.violate("mpi-misuse","invalid reduction op"); } } memcpy(a+i*sizeof(T),&x,sizeof(T)); } }
static void redop(char*a,const char*b,size_t n,int dt,int op){ switch(dt){ case MPI_BYTE: case MPI_UNSIGNED_CHAR: case MPI_UINT8_T: case MPI_C_BOOL: red<uint8_t>(a,b,n,op); break; case MPI_CHAR: case MPI_SIGNED_CHAR: case MPI_INT8_T: red<int8_t>(a,b,n,op); break; case MPI_SHORT: red<int16_t>(a,b,n,op); break; case MPI_UNSIGNED_SHORT: red<uint16_t>(a,b,n,op); break; case MPI_INT: case MPI_INT32_T: red<int32_t>(a,b,n,op); break; case MPI_UNSIGNED: case MPI_UINT32_T: red<uint32_t>(a,b,n,op); break; case MPI_LONG: case MPI_LONG_LONG: case MPI_INT64_T: red<int64_t>(a,b,n,op); break; case MPI_UNSIGNED_LONG: case MPI_UNSIGNED_LONG_LONG: case MPI_UINT64_T: red<uint64_t>(a,b,n,op); break; case MPI_FLOAT: red<float>(a,b,n,op); break; case MPI_DOUBLE: red<double>(a,b,n,op); break; case MPI_LONG_DOUBLE: red<long double>(a,b,n,op); break; default: S.violate("mpi-misuse","invalid reduction datatype"); } }
static std::vector<char> reduce_all(Coll*x,int upto){ // any order is legal for these commutative ops
  std::vector<int> ord; for(int i=0;i<upto;++i) ord.push_back(i); uint64_t h=mix64(S.cfg.junk_seed*977+x->id); if(S.cfg.reorder_reduce) for(int i=upto-1;i>0;--i){ h=mix64(h+i); std::swap(ord[i],ord[h%(i+1)]); }
  std::vector<char> acc=x->part[ord[0]].data; for(int i=1;i<upto;++i) redop(acc.data(),x->part[ord[i]].data.data(),x->count,x->dt,x->op); return acc; }
static void coll_compute(Coll*c){ if(c->kind==C_IBARRIER) return; for(int i=0;i<c->np;++i){ CPart&p=c->part[i]; if(p.n&&hbuf(p.sbuf,p.n)!=p.hash){ if(!S.viol.set){ S.violate("inflight-modify","Iallreduce send buffer changed while the operation was outstanding"); S.viol.rank=comms[c->comm]->members[i]; } ending=true; return; } p.data.assign(p.sbuf,p.sbuf+p.n); } c->result=reduce_all(c,c->np); c->computed=true; }
static int newcomm(const std::vector<int>&mem){ Comm*n=new Comm; n->rk.assign(MAXR,-1); n->members=mem; for(size_t i=0;i<mem.size();++i) n->rk[mem[i]]=i; comms.push_back(n); return comms.size()-1; }
static void adopt(int idx){ Rank&k=R[cur_rank]; if(k.commstate.size()<=(size_t)idx) k.commstate.resize(idx+1,0); k.commstate[idx]=1; live_comms_n[cur_rank]++; }

#define GETC(c) int ci; Comm*cm=getc(c,__func__,ci); if(!cm) return MPI_ERR_OTHER
extern "C" {
int MPI_Init(int*,char***){ return 0; } int MPI_Initialized(int*f){*f=1;return 0;} int MPI_Finalize(){ return 0; } int MPI_Finalized(int*f){*f=0;return 0;}
int MPI_Init_thread(int*,char***,int,int*p){ *p=0; return 0; } int MPI_Query_thread(int*p){*p=0;return 0;}
int MPI_Abort(MPI_Comm,int e){ rank_terminate(e,true); }
double MPI_Wtime(){ sim_yield_point("Wtime"); return sim_clock(); } double MPI_Wtick(){ return 1e-9; }
int MPI_Comm_rank(MPI_Comm c,int*r){ GETC(c); *r=cm->rk[cur_rank]; return 0; }
int MPI_Comm_size(MPI_Comm c,int*n){ GETC(c); *n=cm->members.size(); return 0; }
int MPI_Comm_compare(MPI_Comm a,MPI_Comm b,int*r){ if(a==b){ *r=MPI_IDENT; return 0; } Comm*x,*y; { GETC(a); x=cm; } { GETC(b); y=cm; } auto u=x->members,v=y->members; if(u==v) *r=MPI_CONGRUENT; else { std::sort(u.begin(),u.end()); std::sort(v.begin(),v.end()); *r=u==v?MPI_SIMILAR:MPI_UNEQUAL; } return 0; }
MPI_Comm MPI_Comm_f2c(MPI_Fint f){ return f; } MPI_Fint MPI_Comm_c2f(MPI_Comm c){ return c; }
int MPI_Comm_set_errhandler(MPI_Comm,MPI_Errhandler){ return 0; } int MPI_Type_size(MPI_Datatype d,int*s){ *s=dtsize(d); return 0; }
int MPI_Comm_dup(MPI_Comm c,MPI_Comm*o){ sim_yield_point(__func__); GETC(c); Coll*x=coll_enter(C_DUP,ci,-1,0,0,0); coll_wait(x,true); if(!x->made){ x->made=true; int n=newcomm(cm->members); for(auto&p:x->part) p.newcomm=n; } int n=x->part[cm->rk[cur_rank]].newcomm; adopt(n); *o=(int)0x84000000+n; return 0; }
int MPI_Comm_split(MPI_Comm c,int color,int key,MPI_Comm*o){ sim_yield_point(__func__); GETC(c); Coll*x=coll_enter(C_SPLIT,ci,-1,0,0,0); int me=cm->rk[cur_rank]; x->part[me].color=color; x->part[me].key=key; coll_wait(x,true);
  if(!x->made){ x->made=true; std::map<int,std::vector<int>> g; for(int i=0;i<x->np;++i) if(x->part[i].color!=MPI_UNDEFINED) g[x->part[i].color].push_back(i); for(auto&kv:g){ auto v=kv.second; std::stable_sort(v.begin(),v.end(),[&](int a,int b){return x->part[a].key<x->part[b].key;}); std::vector<int> mem; for(int i:v) mem.push_back(cm->members[i]); int n=newcomm(mem); for(int i:v) x->part[i].newcomm=n; } }
  int n=x->part[me].newcomm; if(n<0){ *o=MPI_COMM_NULL; return 0; } adopt(n); *o=(int)0x84000000+n; return 0; }
int MPI_Comm_free(MPI_Comm*c){ sim_yield_point(__func__); GETC(*c); (void)cm; if(ci<=S.cfg.np){ S.violate("mpi-misuse","MPI_Comm_free on a predefined communicator"); return 1; } R[cur_rank].commstate[ci]=2; live_comms_n[cur_rank]--; *c=MPI_COMM_NULL; return 0; }
int MPI_Isend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ sim_yield_point(__func__); GETC(c); (void)cm; Req*r=post_send(b,bytes(n,d,__func__),dst,tag,ci,-1,__func__); *q=reqh(r); return 0; }
int MPI_Issend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ sim_yield_point(__func__); GETC(c); (void)cm; Req*r=post_send(b,bytes(n,d,__func__),dst,tag,ci,1,__func__); *q=reqh(r); return 0; }
int MPI_Irecv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Request*q){ sim_yield_point(__func__); GETC(c); (void)cm; Req*r=post_recv(b,bytes(n,d,__func__),src,tag,ci,__func__); *q=reqh(r); return 0; }
static void wait1(Req*q,MPI_Status*s,const char*fn){ R[cur_rank].wreqs.assign(1,q); block(W_REQS,fn); finish(q,s); }
int MPI_Send(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ sim_yield_point(__func__); GETC(c); (void)cm; Req*r=post_send(b,bytes(n,d,__func__),dst,tag,ci,-1,__func__); r->internal=true; wait1(r,MPI_STATUS_IGNORE,__func__); return 0; }
int MPI_Ssend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ sim_yield_point(__func__); GETC(c); (void)cm; Req*r=post_send(b,bytes(n,d,__func__),dst,tag,ci,1,__func__); r->internal=true; wait1(r,MPI_STATUS_IGNORE,__func__); return 0; }
int MPI_Rsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c){ return MPI_Send(b,n,d,dst,tag,c); }
int MPI_Recv(void*b,int n,MPI_Datatype d,int src,int tag,MPI_Comm c,MPI_Status*s){ sim_yield_point(__func__); GETC(c); (void)cm; Req*r=post_recv(b,bytes(n,d,__func__),src,tag,ci,__func__); r->internal=true; wait1(r,s,__func__); return 0; }
int MPI_Sendrecv(const void*sb,int sn,MPI_Datatype sd,int dst,int stag,void*rb,int rn,MPI_Datatype rd,int src,int rtag,MPI_Comm c,MPI_Status*s){ sim_yield_point(__func__); GETC(c); (void)cm; Req*r=post_recv(rb,bytes(rn,rd,__func__),src,rtag,ci,__func__); Req*q=post_send(sb,bytes(sn,sd,__func__),dst,stag,ci,-1,__func__); r->internal=q->internal=true; R[cur_rank].wreqs={r,q}; block(W_REQS,__func__); finish(q,MPI_STATUS_IGNORE); finish(r,s); return 0; }
int MPI_Sendrecv_replace(void*b,int n,MPI_Datatype d,int dst,int stag,int src,int rtag,MPI_Comm c,MPI_Status*s){ size_t nb=bytes(n,d,__func__); if(nb) chk((uintptr_t)b,nb,false); std::string t((const char*)b,nb); return MPI_Sendrecv(t.data(),n,d,dst,stag,b,n,d,src,rtag,c,s); }
int MPI_Irsend(const void*b,int n,MPI_Datatype d,int dst,int tag,MPI_Comm c,MPI_Request*q){ return MPI_Isend(b,n,d,dst,tag,c,q); }
int MPI_Comm_get_attr(MPI_Comm c,int key,void*v,int*f){ GETC(c); (void)cm; static int ub=0x3fffffff; *f=key==MPI_TAG_UB; if(*f) *(void**)v=&ub; return 0; }
int MPI_Get_version(int*v,int*u){ *v=3; *u=1; return 0; }
int MPI_Waitall(int n,MPI_Request*q,MPI_Status*s){ sim_yield_point(__func__); if(n<0){ S.violate("mpi-misuse","MPI_Waitall with count %d",n); return 1; } if(n>0) chk((uintptr_t)q,sizeof(*q)*n,false); std::vector<Req*> v; for(int i=0;i<n;++i){ Req*r=nullptr; if(q[i]!=MPI_REQUEST_NULL){ r=getreq(q[i],__func__); for(auto o:v) if(o==r) S.violate("mpi-misuse","request listed twice in MPI_Waitall"); } if(r) v.push_back(r); }
  tr("rank %d: Waitall %zu requests",cur_rank,v.size()); R[cur_rank].wreqs=v; block(W_REQS,__func__); for(int i=0;i<n;++i){ MPI_Status*si=s&&s!=MPI_STATUSES_IGNORE?s+i:MPI_STATUS_IGNORE; if(q[i]!=MPI_REQUEST_NULL){ finish(allreqs[q[i]-0x2c000001],si); q[i]=MPI_REQUEST_NULL; } else empty_status(si); } return 0; }
int MPI_Wait(MPI_Request*q,MPI_Status*s){ return MPI_Waitall(1,q,s); }
int MPI_Waitany(int n,MPI_Request*q,int*idx,MPI_Status*s){ sim_yield_point(__func__); std::vector<Req*> v; for(int i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL) v.push_back(getreq(q[i],__func__)); if(v.empty()){ *idx=MPI_UNDEFINED; empty_status(s); return 0; } R[cur_rank].wreqs=v; block(W_ANYREQ,__func__); std::vector<int> c; for(int i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL&&allreqs[q[i]-0x2c000001]->complete) c.push_back(i); int k=c[S.choose(c.size(),S.srng.below(c.size()))]; finish(allreqs[q[k]-0x2c000001],s); q[k]=MPI_REQUEST_NULL; *idx=k; return 0; }
int MPI_Waitsome(int n,MPI_Request*q,int*cnt,int*idx,MPI_Status*s){ int k; int r=MPI_Waitany(n,q,&k,s); if(k==MPI_UNDEFINED){ *cnt=MPI_UNDEFINED; return r; } *cnt=1; idx[0]=k;
  for(int i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL&&allreqs[q[i]-0x2c000001]->complete&&S.choose(2,S.srng.below(2))){ finish(allreqs[q[i]-0x2c000001],s&&s!=MPI_STATUSES_IGNORE?s+*cnt:MPI_STATUS_IGNORE); q[i]=MPI_REQUEST_NULL; idx[(*cnt)++]=i; } return r; }
int MPI_Testsome(int n,MPI_Request*q,int*cnt,int*idx,MPI_Status*s){ sim_yield_point(__func__); bool any=false; for(int i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL){ any=true; if(getreq(q[i],__func__)->complete) return MPI_Waitsome(n,q,cnt,idx,s); } *cnt=any?0:MPI_UNDEFINED; if(any) R[cur_rank].polled=true; return 0; }
int MPI_Testall(int n,MPI_Request*q,int*f,MPI_Status*s){ sim_yield_point(__func__); bool all=true; for(int i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL&&!getreq(q[i],__func__)->complete) all=false; *f=all; if(!all){ R[cur_rank].polled=true; return 0; } for(int i=0;i<n;++i){ MPI_Status*si=s&&s!=MPI_STATUSES_IGNORE?s+i:MPI_STATUS_IGNORE; if(q[i]!=MPI_REQUEST_NULL){ finish(allreqs[q[i]-0x2c000001],si); q[i]=MPI_REQUEST_NULL; } else empty_status(si);} return 0; }
int MPI_Test(MPI_Request*q,int*f,MPI_Status*s){ return MPI_Testall(1,q,f,s); }
int MPI_Testany(int n,MPI_Request*q,int*idx,int*f,MPI_Status*s){ sim_yield_point(__func__); bool any=false; for(int i=0;i<n;++i) if(q[i]!=MPI_REQUEST_NULL){ any=true; if(getreq(q[i],__func__)->complete){ finish(allreqs[q[i]-0x2c000001],s); q[i]=MPI_REQUEST_NULL; *idx=i; *f=1; return 0; } } if(!any){ *f=1; *idx=MPI_UNDEFINED; empty_status(s); return 0; } *f=0; R[cur_rank].polled=true; return 0; }
int MPI_Request_free(MPI_Request*q){ Req*r=getreq(*q,__func__); if(r) finish(r,MPI_STATUS_IGNORE); *q=MPI_REQUEST_NULL; return 0; }
int MPI_Probe(int src,int tag,MPI_Comm c,MPI_Status*s){ sim_yield_point(__func__); GETC(c); Rank&k=R[cur_rank]; k.pr_src=src; k.pr_tag=tag; k.pr_comm=ci; block(W_PROBE,__func__); auto&d=dstq[{ci,cm->rk[cur_rank]}]; for(auto m:d.unexp) if((src==MPI_ANY_SOURCE||src==m->src)&&(tag==MPI_ANY_TAG||tag==m->tag)){ if(s&&s!=MPI_STATUS_IGNORE){ s->MPI_SOURCE=m->src; s->MPI_TAG=m->tag; s->sim_count=m->n; s->MPI_ERROR=0; } break; } return 0; }
int MPI_Iprobe(int src,int tag,MPI_Comm c,int*f,MPI_Status*s){ sim_yield_point(__func__); GETC(c); auto&d=dstq[{ci,cm->rk[cur_rank]}]; *f=0; for(auto m:d.unexp) if((src==MPI_ANY_SOURCE||src==m->src)&&(tag==MPI_ANY_TAG||tag==m->tag)){ *f=1; if(s&&s!=MPI_STATUS_IGNORE){ s->MPI_SOURCE=m->src; s->MPI_TAG=m->tag; s->sim_count=m->n; s->MPI_ERROR=0; } break; } if(!*f) R[cur_rank].polled=true; return 0; }
int MPI_Get_count(const MPI_Status*s,MPI_Datatype d,int*n){ *n=s->sim_count/dtsize(d); return 0; }
int MPI_Barrier(MPI_Comm c){ sim_yield_point(__func__); GETC(c); (void)cm; Coll*x=coll_enter(C_BARRIER,ci,-1,0,0,0); coll_wait(x,true); return 0; }
int MPI_Ibarrier(MPI_Comm c,MPI_Request*q){ sim_yield_point(__func__); GETC(c); Coll*x=coll_enter(C_IBARRIER,ci,-1,0,0,0); Req*r=newreq(RK_COLL); live_reqs_n[cur_rank]++; x->part[cm->rk[cur_rank]].req=r; *q=reqh(r); if(x->nin==x->np) pend_add(3,nullptr,x); return 0; }
int MPI_Bcast(void*b,int n,MPI_Datatype d,int root,MPI_Comm c){ sim_yield_point(__func__); GETC(c); size_t nb=bytes(n,d,__func__); prank(cm,root,__func__,false); int me=cm->rk[cur_rank]; if(me==root) chksend(b,nb,__func__); else chkrecv(b,nb,__func__); Coll*x=coll_enter(C_BCAST,ci,root,(long)nb,0,0); if(me==root) x->part[me].data.assign((char*)b,(char*)b+nb); coll_wait(x,false); if(me!=root&&nb) memcpy(b,x->part[root].data.data(),nb); return 0; }
int MPI_Gatherv(const void*sb,int sn,MPI_Datatype sd,void*rb,const int*rc,const int*disp,MPI_Datatype rd,int root,MPI_Comm c){ sim_yield_point(__func__); GETC(c); size_t nb=bytes(sn,sd,__func__); prank(cm,root,__func__,false); int me=cm->rk[cur_rank]; if(sb!=MPI_IN_PLACE) chksend(sb,nb,__func__); Coll*x=coll_enter(C_GATHER,ci,root,-2,0,0); if(sb!=MPI_IN_PLACE) x->part[me].data.assign((char*)sb,(char*)sb+nb); coll_wait(x,false); if(me==root) for(int i=0;i<x->np;++i){ if(i==root&&sb==MPI_IN_PLACE) continue; size_t m=(size_t)rc[i]*dtsize(rd); if(x->part[i].data.size()>m){ S.violate("truncation","MPI_Gather(v) receive count too small"); return 1; } char*o=(char*)rb+(size_t)disp[i]*dtsize(rd); chkrecv(o,x->part[i].data.size(),__func__); memcpy(o,x->part[i].data.data(),x->part[i].data.size()); } return 0; }
int MPI_Gather(const void*sb,int sn,MPI_Datatype sd,void*rb,int rn,MPI_Datatype rd,int root,MPI_Comm c){ GETC(c); std::vector<int> rc(cm->members.size(),rn),dp; for(size_t i=0;i<rc.size();++i) dp.push_back(i*rn); return MPI_Gatherv(sb,sn,sd,rb,rc.data(),dp.data(),rd,root,c); }
int MPI_Scatter(const void*sb,int sn,MPI_Datatype sd,void*rb,int rn,MPI_Datatype rd,int root,MPI_Comm c){ sim_yield_point(__func__); GETC(c); int me=cm->rk[cur_rank]; size_t nb=bytes(rn,rd,__func__); Coll*x=coll_enter(C_SCATTER,ci,root,-2,0,0); if(me==root){ size_t t=bytes(sn,sd,__func__)*x->np; chksend(sb,t,__func__); x->part[me].data.assign((char*)sb,(char*)sb+t); x->part[me].n=t/x->np; } coll_wait(x,false); if(rb!=MPI_IN_PLACE){ chkrecv(rb,nb,__func__); size_t k=x->part[root].n; if(k>nb){ S.violate("truncation","MPI_Scatter"); return 1; } memcpy(rb,x->part[root].data.data()+k*me,k); } return 0; }
int MPI_Allgatherv(const void*sb,int sn,MPI_Datatype sd,void*rb,const int*rc,const int*disp,MPI_Datatype rd,MPI_Comm c){ sim_yield_point(__func__); GETC(c); int me=cm->rk[cur_rank]; Coll*x=coll_enter(C_ALLGATHER,ci,-1,-2,0,0); if(sb==MPI_IN_PLACE){ char*o=(char*)rb+(size_t)disp[me]*dtsize(rd); x->part[me].data.assign(o,o+(size_t)rc[me]*dtsize(rd)); } else { size_t nb=bytes(sn,sd,__func__); chksend(sb,nb,__func__); x->part[me].data.assign((char*)sb,(char*)sb+nb); } coll_wait(x,true); for(int i=0;i<x->np;++i){ size_t m=(size_t)rc[i]*dtsize(rd); if(x->part[i].data.size()>m){ S.violate("truncation","MPI_Allgather(v)"); return 1; } char*o=(char*)rb+(size_t)disp[i]*dtsize(rd); chkrecv(o,x->part[i].data.size(),__func__); memcpy(o,x->part[i].data.data(),x->part[i].data.size()); } return 0; }
int MPI_Allgather(const void*sb,int sn,MPI_Datatype sd,void*rb,int rn,MPI_Datatype rd,MPI_Comm c){ GETC(c); std::vector<int> rc(cm->members.size(),rn),dp; for(size_t i=0;i<rc.size();++i) dp.push_back(i*rn); return MPI_Allgatherv(sb,sn,sd,rb,rc.data(),dp.data(),rd,c); }
int MPI_Alltoallv(const void*sb,const int*sc,const int*sdp,MPI_Datatype sd,void*rb,const int*rc,const int*rdp,MPI_Datatype rd,MPI_Comm c){ sim_yield_point(__func__); GETC(c); int me=cm->rk[cur_rank]; Coll*x=coll_enter(C_ALLTOALL,ci,-1,-2,0,0); CPart&p=x->part[me]; p.cnt.assign(1,0); for(int i=0;i<x->np;++i){ size_t nb=(size_t)sc[i]*dtsize(sd); const char*o=(const char*)sb+(size_t)sdp[i]*dtsize(sd); chksend(o,nb,__func__); p.data.insert(p.data.end(),o,o+nb); p.cnt.push_back(p.data.size()); } coll_wait(x,true); for(int i=0;i<x->np;++i){ CPart&q=x->part[i]; size_t nb=q.cnt[me+1]-q.cnt[me]; if(nb>(size_t)rc[i]*dtsize(rd)){ S.violate("truncation","MPI_Alltoall(v)"); return 1; } char*o=(char*)rb+(size_t)rdp[i]*dtsize(rd); chkrecv(o,nb,__func__); if(nb) memcpy(o,q.data.data()+q.cnt[me],nb); } return 0; }
int MPI_Alltoall(const void*sb,int sn,MPI_Datatype sd,void*rb,int rn,MPI_Datatype rd,MPI_Comm c){ GETC(c); int P=cm->members.size(); std::vector<int> sc(P,sn),rc(P,rn),sp,rp; for(int i=0;i<P;++i){ sp.push_back(i*sn); rp.push_back(i*rn);} return MPI_Alltoallv(sb,sc.data(),sp.data(),sd,rb,rc.data(),rp.data(),rd,c); }
static int redcoll(CollKind kind,const void*sb,void*rb,int n,MPI_Datatype d,MPI_Op op,int root,MPI_Comm c,const char*fn){ sim_yield_point(fn); int ci; Comm*cm=getc(c,fn,ci); if(!cm) return 1; size_t nb=bytes(n,d,fn); int me=cm->rk[cur_rank]; bool recv=root<0||me==root; const void*src=sb; if(sb==MPI_IN_PLACE) src=rb; chksend(src,nb,fn); if(recv){ chkrecv(rb,nb,fn); if(sb!=MPI_IN_PLACE&&nb&&(const char*)sb<(char*)rb+nb&&(char*)rb<(const char*)sb+nb){ S.violate("mpi-misuse","%s with aliased send and receive buffers",fn); return 1; } } Coll*x=coll_enter(kind,ci,root,n,d,op); x->part[me].data.assign((const char*)src,(const char*)src+nb); coll_wait(x,false); if(!recv||!nb) return 0;
  if(kind==C_SCAN){ auto v=reduce_all(x,me+1); memcpy(rb,v.data(),nb); } else if(kind==C_EXSCAN){ if(me>0){ auto v=reduce_all(x,me); memcpy(rb,v.data(),nb);} } else { if(!x->computed){ x->result=reduce_all(x,x->np); x->computed=true; } memcpy(rb,x->result.data(),nb); } return 0; }
int MPI_Reduce(const void*sb,void*rb,int n,MPI_Datatype d,MPI_Op op,int root,MPI_Comm c){ return redcoll(C_REDUCE,sb,rb,n,d,op,root,c,__func__); }
int MPI_Allreduce(const void*sb,void*rb,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ return redcoll(C_ALLREDUCE,sb,rb,n,d,op,-1,c,__func__); }
int MPI_Scan(const void*sb,void*rb,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ return redcoll(C_SCAN,sb,rb,n,d,op,-1,c,__func__); }
int MPI_Exscan(const void*sb,void*rb,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c){ return redcoll(C_EXSCAN,sb,rb,n,d,op,-1,c,__func__); }
int MPI_Iallreduce(const void*sb,void*rb,int n,MPI_Datatype d,MPI_Op op,MPI_Comm c,MPI_Request*q){ sim_yield_point(__func__); GETC(c); size_t nb=bytes(n,d,__func__); int me=cm->rk[cur_rank]; chksend(sb,nb,__func__); chkrecv(rb,nb,__func__); if(nb&&(const char*)sb<(char*)rb+nb&&(char*)rb<(const char*)sb+nb){ S.violate("mpi-misuse","MPI_Iallreduce with aliased buffers"); return 1; } Coll*x=coll_enter(C_IALLREDUCE,ci,-1,n,d,op); CPart&p=x->part[me]; p.sbuf=(const char*)sb; p.rbuf=(char*)rb; p.n=nb; p.hash=nb?hbuf(p.sbuf,nb):0; if(nb) junkfill((char*)rb,nb,x->id*57+me); Req*r=newreq(RK_COLL); r->coll=x; live_reqs_n[cur_rank]++; fly_add(r,rb,nb,SH_RECV); fly_add(r,sb,nb,SH_SEND); p.req=r; *q=reqh(r); if(x->nin==x->np) pend_add(3,nullptr,x); return 0; }
int MPI_Get_processor_name(char*s,int*n){ strcpy(s,"sim"); *n=3; return 0; } int MPI_Error_string(int,char*s,int*n){ strcpy(s,"error"); *n=5; return 0; }
}

// ------------------------------------------------------------------ library copies
struct Seg { char*p; size_t n; std::vector<char> img; };
struct Lib { void*h=nullptr; std::vector<Seg> segs; };
static Lib libs[3][MAXR]; static int nlibs[3]; int sim_bank=0;
struct FindSeg { const char*name; std::vector<Seg>*out; };
static int find_cb(struct dl_phdr_info*i,size_t,void*d){ FindSeg*f=(FindSeg*)d; if(strcmp(i->dlpi_name,f->name)) return 0; uintptr_t ro_a=0,ro_b=0; long pg=4096; for(int k=0;k<i->dlpi_phnum;++k) if(i->dlpi_phdr[k].p_type==PT_GNU_RELRO){ ro_a=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr; ro_b=ro_a+i->dlpi_phdr[k].p_memsz; ro_a&=~(uintptr_t)(pg-1); ro_b&=~(uintptr_t)(pg-1); }
  for(int k=0;k<i->dlpi_phnum;++k) if(i->dlpi_phdr[k].p_type==PT_LOAD&&(i->dlpi_phdr[k].p_flags&PF_W)){ uintptr_t a=i->dlpi_addr+i->dlpi_phdr[k].p_vaddr,b=a+i->dlpi_phdr[k].p_memsz; if(a<ro_b&&b>ro_a) a=ro_b; if(a<b) f->out->push_back({(char*)a,b-a,{}}); } return 1; }
bool sim_load(int bank,const char*so,int n){ std::vector<char> img; FILE*f=fopen(so,"rb"); if(!f) return false; char b[65536]; size_t k; while((k=fread(b,1,sizeof b,f))>0) img.insert(img.end(),b,b+k); fclose(f);
  for(int i=0;i<n;++i){ char path[256]; snprintf(path,sizeof path,"%s.r%d.%d",so,i,(int)getpid()); int fd=open(path,O_CREAT|O_TRUNC|O_WRONLY,0700); if(fd<0) return false; if(write(fd,img.data(),img.size())!=(ssize_t)img.size()){ close(fd); return false; } close(fd); void*h=dlopen(path,RTLD_NOW|RTLD_LOCAL); if(!h){ fprintf(stderr,"dlopen: %s\n",dlerror()); unlink(path); return false; }
    Lib&l=libs[bank][i]; l.h=h; FindSeg fs{path,&l.segs}; dl_iterate_phdr(find_cb,&fs); unlink(path); for(auto&s:l.segs) s.img.assign(s.p,s.p+s.n); }
  nlibs[bank]=n; return true; }
void sim_restore(int np){ for(int i=0;i<np&&i<nlibs[sim_bank];++i) for(auto&s:libs[sim_bank][i].segs) memcpy(s.p,s.img.data(),s.n); }
void*sim_sym(int r,const char*n){ return dlsym(libs[sim_bank][r].h,n); }
void sim_boot(){
  auto mp=[](uintptr_t a,size_t n){ void*p=mmap((void*)a,n,PROT_READ|PROT_WRITE,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE,-1,0); if(p!=(void*)a){ fprintf(stderr,"mmap failed\n"); _exit(95);} };
  mp(ARENA,ASIZE); mp(SHADOW,ASIZE); mp(STACKS,MAXR*2*STKSZ+STKSZ); for(int i=0;i<MAXR;++i) mprotect((void*)(STACKS+(size_t)i*2*STKSZ),STKSZ,PROT_NONE); // guard region below each stack
  static char alt[65536]; stack_t ss={}; ss.ss_sp=alt; ss.ss_size=sizeof alt; sigaltstack(&ss,nullptr);
  struct sigaction sa={}; sa.sa_sigaction=on_crash; sa.sa_flags=SA_SIGINFO|SA_ONSTACK|SA_NODEFER; int sg[]={SIGSEGV,SIGBUS,SIGFPE,SIGILL,SIGVTALRM}; for(int s:sg) sigaction(s,&sa,nullptr);
}

// ------------------------------------------------------------------ which code was reached (development only: library built with -fsanitize-coverage=trace-pc)
#ifdef SIM_COV
static uintptr_t covtab[1<<20];
extern "C" void __sanitizer_cov_trace_pc(void){ uintptr_t pc=(uintptr_t)__builtin_return_address(0); size_t h=(pc*0x9e3779b97f4a7c15ull)>>44; while(covtab[h]&&covtab[h]!=pc) h=(h+1)&((1<<20)-1); covtab[h]=pc; }
void sim_cov_dump(const char*fn){ FILE*f=fopen(fn,"w"); for(uintptr_t pc:covtab) if(pc){ Dl_info i; if(dladdr((void*)pc,&i)) fprintf(f,"%s %lx\n",i.dli_fname,(unsigned long)(pc-(uintptr_t)i.dli_fbase)); } fclose(f); }
#else
void sim_cov_dump(const char*){}
#endif
