// Profiles: which workload and which faults decide which property.
static Profile mk(const char*id){ Profile f; f.id=id; return f; }
static void W(Profile&f,std::initializer_list<std::pair<int,double>> l){ for(auto&x:l) f.w[x.first]=x.second; }
static std::vector<Profile> build_profiles(){ std::vector<Profile> v;
  { Profile f=mk("C01"); W(f,{{A_GSSETUP,2},{A_GS,8},{A_GSFREE,1},{A_SPLIT,.4},{A_DUP,.2},{A_CFREE,.3},{A_YIELD,1}}); f.fortran=0; f.unique=0; f.mode[1]=f.mode[2]=f.mode[3]=0; f.method[0]=.4; f.seeds=90000; v.push_back(f); }
  { Profile f=mk("C02"); W(f,{{A_GSSETUP,3},{A_GS,8},{A_GSFREE,.7},{A_SPLIT,.3},{A_YIELD,1}}); f.fortran=0; f.unique=.2; f.samehandles=true; f.method[0]=3; f.clock=true; f.huge=.001; f.seeds=21000; f.maxops=10; v.push_back(f); }
  { Profile f=mk("C03"); W(f,{{A_GSSETUP,2},{A_GS,9},{A_GSFREE,.8},{A_SPLIT,.3},{A_YIELD,1}}); f.fortran=0; f.unique=.1; f.mode[0]=.5; f.mode[1]=4; f.mode[2]=4; f.method[0]=.3; f.seeds=90000; v.push_back(f); }
  { Profile f=mk("C04"); W(f,{{A_GSSETUP,3},{A_IGS,9},{A_WAIT,5},{A_GS,2},{A_GSFREE,.6},{A_SPLIT,.3},{A_YIELD,1.5},{A_ALLRED,.5}}); f.fortran=.2; f.unique=.05; f.mode[1]=2; f.mode[2]=2; f.method[0]=.4; f.minops=5; f.maxops=22; f.nulbuf=.5; f.burst=.004; f.seeds=67500; v.push_back(f); }
  { Profile f=mk("C05"); W(f,{{A_UNIQUE,6},{A_GSSETUP,2},{A_GS,3},{A_GSFREE,.5},{A_SPLIT,.4},{A_YIELD,.7}}); f.fortran=.3; f.unique=1; f.seeds=48000; v.push_back(f); }
  { Profile f=mk("C06"); W(f,{{A_CRINIT,1},{A_ROUTE,9},{A_CRFREE,.5},{A_SPLIT,.4},{A_DUP,.2},{A_CFREE,.2},{A_YIELD,1}}); f.bignp=.08; f.seeds=165000; v.push_back(f); }
  { Profile f=mk("C07"); W(f,{{A_CRINIT,1},{A_SARRAY,9},{A_ROUTE,.5},{A_CRFREE,.4},{A_SPLIT,.4},{A_YIELD,1}}); f.seeds=135000; v.push_back(f); }
  { Profile f=mk("C08"); W(f,{{A_ALLRED,3},{A_SCAN,4},{A_REDUCE,3},{A_DOT,2},{A_BCAST,2},{A_GATHER,2},{A_SENDRECV,3},{A_IAR,2},{A_IARWAIT,2},{A_SPLIT,.8},{A_DUP,.4},{A_CFREE,.5},{A_BARRIER,.5},{A_YIELD,1}}); f.bignp=.08; f.maxops=24; f.seeds=375000; v.push_back(f); }
  { Profile f=mk("C09"); W(f,{{A_FPSETUP,.3},{A_FPFIND,1},{A_FPEVAL,.7},{A_FPFREE,.3},{A_GSSETUP,2},{A_GS,4},{A_IGS,2},{A_WAIT,1.5},{A_GSFREE,.8},{A_UNIQUE,1},{A_CRINIT,.7},{A_ROUTE,2},{A_SARRAY,2},{A_CRFREE,.5},{A_NOISE,5},{A_NOISEEND,4},{A_SPLIT,1},{A_DUP,1},{A_CFREE,1},{A_YIELD,2},{A_ALLRED,.5}}); f.method[0]=.2; f.minops=6; f.maxops=26; f.fpms=.3; f.seeds=48000; v.push_back(f); }
  { Profile f=mk("C10"); W(f,{{A_FPSETUP,.4},{A_FPFIND,1},{A_FPEVAL,.7},{A_FPFREE,.3},{A_GSSETUP,2},{A_GS,4},{A_IGS,4},{A_WAIT,3},{A_GSFREE,.8},{A_UNIQUE,1},{A_CRINIT,1},{A_ROUTE,3},{A_SARRAY,3},{A_FTUPLE,1},{A_CRFREE,.5},{A_SCAN,1},{A_ALLRED,1},{A_SENDRECV,1},{A_GATHER,.5},{A_IAR,.7},{A_IARWAIT,.7},{A_SPLIT,.6},{A_DUP,.5},{A_CFREE,.6},{A_YIELD,3}}); f.method[0]=.3; f.minops=5; f.maxops=24; f.inflight=true; f.extra={"inflight-access","inflight-free","inflight-modify","inflight-overlap","unmatched-message","request-leak"}; f.fpms=.3; f.seeds=45000; f.bignp=.06; v.push_back(f); }
  { Profile f=mk("C11"); W(f,{{A_FPSETUP,.7},{A_FPFIND,1},{A_FPEVAL,1},{A_FPFREE,.4},{A_GSSETUP,2},{A_GS,4},{A_IGS,2},{A_WAIT,1.5},{A_GSFREE,.8},{A_UNIQUE,1.5},{A_CRINIT,1},{A_ROUTE,1},{A_SARRAY,1},{A_FTUPLE,1},{A_CRFREE,.5},{A_SPLIT,.6},{A_DUP,.6},{A_CFREE,.6},{A_ALLRED,.5},{A_SCAN,.5}}); f.method[0]=.5; f.fortran=.3; f.leak=true; f.minops=2; f.maxops=10; f.extra={"leak","request-leak","unmatched-message"}; f.fpms=.3; f.seeds=24000; f.bignp=.01; v.push_back(f); }
  { Profile f=mk("C12"); W(f,{{A_FPSETUP,.7},{A_FPFIND,1},{A_FPEVAL,.7},{A_FPFREE,.3},{A_GSSETUP,3},{A_GS,3},{A_IGS,1.5},{A_WAIT,1},{A_GSFREE,.8},{A_UNIQUE,1},{A_CRINIT,1},{A_ROUTE,2},{A_SARRAY,2},{A_FTUPLE,1},{A_CRFREE,.5},{A_DUP,.3}}); f.method[0]=.2; f.alloc=true; f.shortw=true; f.memcheck=false; f.extra={"alloc-failure-ignored","bad-diagnostic"}; f.fortran=.3; f.fpms=.3; f.seeds=105000; f.bignp=.01; v.push_back(f); }
  { Profile f=mk("C13"); W(f,{{A_FPSETUP,1},{A_FPFIND,.4},{A_FPEVAL,.4},{A_FPFREE,.7},{A_GSSETUP,3},{A_GS,1},{A_GSFREE,1},{A_CRINIT,2},{A_FTUPLE,.5},{A_CRFREE,1},{A_YIELD,.5}}); f.method[0]=.2; f.misuse=true; f.shortw=true; f.fortran=.8; f.minops=1; f.maxops=7; f.extra={"misuse-accepted","bad-diagnostic"}; f.fpms=.3; f.seeds=75000; f.bignp=.01; v.push_back(f); }
  { Profile f=mk("C14"); W(f,{{A_FPSETUP,.6},{A_FPFIND,1.2},{A_FPEVAL,1},{A_FPFREE,.4},{A_GSSETUP,2.5},{A_GS,5},{A_IGS,2.5},{A_WAIT,2},{A_GSFREE,.8},{A_UNIQUE,1},{A_CRINIT,1},{A_ROUTE,2},{A_SARRAY,3},{A_FTUPLE,3},{A_CRFREE,.5},{A_SCAN,1},{A_ALLRED,1},{A_REDUCE,.5},{A_SPLIT,.3},{A_DUP,.3},{A_CFREE,.3},{A_PWDATA,.3},{A_YIELD,.5}}); f.mode[3]=.7; f.method[0]=.3; f.fortran=.25; f.memcheck=true; f.extra={"out-of-bounds","use-after-free","memcpy-overlap"}; f.fpms=.3; f.seeds=51000; v.push_back(f); }
  { Profile f=mk("C15"); W(f,{{A_GSSETUP,3},{A_GS,7},{A_IGS,2.5},{A_WAIT,2},{A_GSFREE,1.5},{A_SPLIT,.4},{A_UNIQUE,.5},{A_YIELD,.7}}); f.fortran=.9; f.mode[0]=2; f.mode[1]=1.5; f.mode[2]=1.5; f.mode[3]=2.5; f.method[0]=.5; f.minops=5; f.maxops=20; f.burst=.004; f.seeds=54000; v.push_back(f); }
  { Profile f=mk("C16"); W(f,{{A_CRINIT,1.2},{A_FTUPLE,9},{A_CRFREE,.8},{A_SPLIT,.4},{A_YIELD,.7}}); f.overflow=.5; f.burst=.004; f.seeds=165000; v.push_back(f); }
  { Profile f=mk("C17"); W(f,{{A_FPSETUP,1.5},{A_FPFIND,8},{A_FPFREE,.7},{A_SPLIT,.4},{A_DUP,.2},{A_CFREE,.3},{A_YIELD,.7}}); f.minops=2; f.maxops=8; f.seeds=48000; f.bignp=.02; v.push_back(f); }
  { Profile f=mk("C17G"); W(f,{{A_FPSETUP,.0001},{A_FPFIND,8}}); f.minops=2; f.maxops=4; f.seeds=1; f.bank=0; f.fpdim=2; f.giant=true; v.push_back(f); } // more than 2^32 cells in the global table (thorough runs only)
  { Profile f=mk("C18"); W(f,{{A_FPSETUP,1.5},{A_FPFIND,3},{A_FPEVAL,7},{A_FPFREE,.6},{A_SPLIT,.4},{A_DUP,.2},{A_CFREE,.3},{A_YIELD,.7}}); f.minops=3; f.maxops=9; f.fpms=.2; f.seeds=60000; f.bignp=.02; v.push_back(f); }
  { Profile f=mk("C19"); W(f,{{A_FPSETUP,1.5},{A_FPFIND,7},{A_FPEVAL,2.5},{A_FPFREE,.6},{A_SPLIT,.3},{A_YIELD,.7}}); f.fpms=1; f.minops=3; f.maxops=8; f.seeds=36000; f.bignp=.02; v.push_back(f); }
  { Profile f=mk("C20"); W(f,{{A_FPSETUP,.3},{A_FPFIND,.7},{A_FPEVAL,.7},{A_FPFREE,.2},{A_GSSETUP,2},{A_GS,6},{A_IGS,2},{A_WAIT,2},{A_GSFREE,.5},{A_UNIQUE,1},{A_CRINIT,1},{A_ROUTE,2},{A_SARRAY,2},{A_SPLIT,.3},{A_YIELD,1}}); f.method[0]=0; f.method[3]=0; f.repro=true; f.unique=.1; f.seeds=25500; v.push_back(f); }
  for(auto&f:v){ double t=0; for(double x:f.w) t+=x; f.w[A_BURST]=t*f.burst; }
  return v; }
static std::vector<Profile>&profs(){ static std::vector<Profile> v=build_profiles(); return v; }
bool find_profile(const std::string&id,Profile&o){ for(auto&f:profs()) if(f.id==id){ o=f; return true; } return false; }
std::vector<std::string> profile_ids(){ std::vector<std::string> r; for(auto&f:profs()) r.push_back(f.id); return r; }
bool counts_for(const Profile&f,const std::string&c){ static const std::set<std::string> common={"wrong-result","missing-output","crash","died","deadlock","no-progress","hang","truncation","collective-mismatch","mpi-misuse","abort","assert","stack-smash","bad-free","double-free","irreproducible"}; return common.count(c)||f.extra.count(c); }
