// Deterministic simulator: ranks as fibers, simulated MPI/heap/clock/stdio, seeded scheduler.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <deque>
#include <functional>
#include <unordered_map>
#include <unordered_set>

static inline uint64_t splitmix(uint64_t &s){ uint64_t z=(s+=0x9e3779b97f4a7c15ull); z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
static inline uint64_t mix64(uint64_t z){ z=(z^(z>>30))*0xbf58476d1ce4e5b9ull; z=(z^(z>>27))*0x94d049bb133111ebull; return z^(z>>31); }
struct Rng { uint64_t s; explicit Rng(uint64_t x=1):s(x){} uint64_t u64(){return splitmix(s);} uint32_t below(uint32_t n){return n<=1?0:(uint32_t)((u64()>>16)%n);} double unit(){return (u64()>>11)*(1.0/9007199254740992.0);} bool chance(double p){return unit()<p;} };

// A tape of bounded choices. Recording: values are supplied by the caller's generator.
// Replaying: values are read back (clipped); an exhausted tape yields 0, the simplest choice.
struct Tape {
  std::vector<uint32_t> v; size_t pos=0; bool replay=false;
  void reset(bool rep){ pos=0; replay=rep; if(!rep) v.clear(); }
  uint32_t take(uint32_t n, uint32_t proposed){
    if(n<=1) return 0;
    if(replay){ uint32_t r = pos<v.size()? v[pos]%n : 0; ++pos; return r; }
    v.push_back(proposed%n); ++pos; return proposed%n;
  }
};

enum { MAXR = 132 };
enum Phase { PH_BEFORE, PH_RUN, PH_DONE };

struct Violation { std::string cls, detail; int rank=-1, op=-1; bool set=false; };

struct Counters {
  uint64_t runs=0, steps=0, msgs=0, bytes=0, colls=0, switches=0;
  uint64_t late_send=0, rendezvous=0, delayed=0, reordered=0, wildcard=0;
  uint64_t stalls=0, starved=0, clock_jump=0, clock_back=0, clock_freeze=0, wtime=0;
  uint64_t alloc_fail=0, short_write=0, allocs=0, realloc_move=0, coll_late=0, malloc0_null=0;
  uint64_t net_starved=0;
  uint64_t simtime_ns=0;
};

struct RunCfg {
  int np=1;
  bool giant=false;         // tables of gigabytes come from outside the arena, unchecked
  bool memcheck=true;       // report invalid heap accesses
  bool inflight=true;       // report accesses to in-flight buffers
  bool clock_faults=false;
  bool short_writes=false;
  bool calm=false;          // no scheduling adversary at all (all-zero choices)
  bool reorder_reduce=true;
  int  fail_rank=-1;        // allocation failure injection
  long fail_at=-1;          // nth library allocation on fail_rank (0-based)
  bool fail_sticky=false;
  int  strategy=-1;         // -1: draw
  uint64_t junk_seed=1;
  uint64_t sched_seed=1;
  uint64_t max_steps=3000000;
  bool trace=false;
  bool tolerate_exit=false; // a rank that exits with nonzero status is not by itself a violation
};

struct RankExit { bool exited=false; int status=0; bool abort=false; bool finished=false; };

struct Prog; // workload program

struct Sim {
  RunCfg cfg; Tape tape; Rng srng{1};
  Counters cnt; Violation viol; uint64_t evhash=0; uint64_t steps=0; uint64_t now_ns=0;
  RankExit rexit[MAXR]; std::string out[MAXR]; int cur_op[MAXR];
  std::string trace; std::string strat_name;
  uint64_t lib_allocs[MAXR];
  bool injected_alloc_failure=false;
  // live block counts per rank
  long live_blocks(int r) const; long live_bytes(int r) const; long live_lib_blocks(int r) const;
  int live_comms(int r) const; int live_reqs(int r) const;
  std::string live_report(int r, int maxn=6) const;
  void run(const RunCfg&, const std::function<void(int)> &rank_main);
  void violate(const char *cls, const char *fmt, ...) __attribute__((format(printf,3,4)));
  uint32_t choose(uint32_t n, uint32_t proposed);
};
extern Sim S;
extern int cur_rank;            // rank whose fiber is running, or -1

void sim_boot();                // arena, stacks
bool sim_load(int bank, const char *so, int n); // n private copies of one build of the library under test
void sim_restore(int np);       // put the copies' writable data back to its initial image
extern int sim_bank;            // which build (bank) the next run uses
void *sim_sym(int rank, const char *name);
void sim_crash_note(const char*); 
void sim_yield_point(const char *what);
void sim_set_hang_limit(double cpu_s);
void sim_cov_dump(const char*file);
