// Point search workloads: meshes, points, fields, sessions; host-side reference by brute-force Newton search.
#include "gen.h"
#include <cstdio>
#include <cstring>
#include <cmath>
#include <cfloat>
#include <algorithm>
#include <map>

static std::string fmt(const char*f,...) __attribute__((format(printf,1,2)));
static std::string fmt(const char*f,...){ char b[500]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
static uint64_t H(uint64_t a,uint64_t b=0,uint64_t c=0,uint64_t d=0){ uint64_t h=mix64(a*0x9e3779b97f4a7c15ull+11); h=mix64(h^(b+0x1234567)); h=mix64(h^(c*0x51ed270b+77)); return mix64(h^(d*0x2545F491+5)); }
static double U(uint64_t h){ return (h>>11)*(1.0/9007199254740992.0); }
static void POSTV(int o,int r,const char*cls,const std::string&s){ S.violate(cls,"%s",s.c_str()); S.viol.op=o; S.viol.rank=r; }
static void record(Prog&p,int op,int r,int which){ Expect e; e.kind=2; p.exp[okey(op,r,which)]=e; }

// ---- reference numerics
static const std::vector<double>& gll(int n){ static std::map<int,std::vector<double>> M; auto it=M.find(n); if(it!=M.end()) return it->second;
  std::vector<double> z(n); int N=n-1; z[0]=-1; z[n-1]=1; for(int i=1;i<n-1;++i){ double x=-cos(M_PI*i/N); for(int k=0;k<100;++k){ double p0=1,p1=x; for(int j=2;j<=N;++j){ double p2=((2*j-1)*x*p1-(j-1)*p0)/j; p0=p1; p1=p2; } double dp=N*(p0-x*p1)/(1-x*x); double d2=(2*x*dp-N*(N+1)*p1)/(1-x*x); double dx=dp/d2; x-=dx; if(fabs(dx)<1e-16) break; } z[i]=x; }
  for(int i=0;i<n/2;++i){ double a=(z[n-1-i]-z[i])/2; z[i]=-a; z[n-1-i]=a; } if(n%2) z[n/2]=0; return M[n]=z; }
static void lag(int n,double r,double*v,double*dv){ const std::vector<double>&z=gll(n); for(int i=0;i<n;++i){ double p=1,s=0; for(int j=0;j<n;++j) if(j!=i){ double q=1/(z[i]-z[j]); double t=(r-z[j])*q; s=s*t+p*q; p*=t; } v[i]=p; dv[i]=s; } }
struct Elem { std::vector<double> x[3]; double lo[3],hi[3],c[3],rad; };
static double ev(const std::vector<double>&f,const int*n,int D,const double*r,double*g){ double v[3][16],d[3][16]; for(int k=0;k<D;++k) lag(n[k],r[k],v[k],d[k]); double s=0; if(g) g[0]=g[1]=g[2]=0; int nz=D==3?n[2]:1; for(int k=0;k<nz;++k){ double vk=D==3?v[2][k]:1,dk=D==3?d[2][k]:0; for(int j=0;j<n[1];++j) for(int i=0;i<n[0];++i){ double q=f[(k*n[1]+j)*n[0]+i]; s+=q*v[0][i]*v[1][j]*vk; if(g){ g[0]+=q*d[0][i]*v[1][j]*vk; g[1]+=q*v[0][i]*d[1][j]*vk; g[2]+=q*v[0][i]*v[1][j]*dk; } } } return s; }
static void mapx(const Elem&e,const int*n,int D,const double*r,double*x){ for(int d=0;d<D;++d) x[d]=ev(e.x[d],n,D,r,nullptr); }
static bool solve(double A[3][3],double*b,int D){ for(int i=0;i<D;++i){ int p=i; for(int j=i+1;j<D;++j) if(fabs(A[j][i])>fabs(A[p][i])) p=j; if(fabs(A[p][i])<1e-300) return false; for(int k=0;k<D;++k) std::swap(A[i][k],A[p][k]); std::swap(b[i],b[p]); for(int j=i+1;j<D;++j){ double f=A[j][i]/A[i][i]; for(int k=i;k<D;++k) A[j][k]-=f*A[i][k]; b[j]-=f*b[i]; } } for(int i=D-1;i>=0;--i){ for(int k=i+1;k<D;++k) b[i]-=A[i][k]*b[k]; b[i]/=A[i][i]; } return true; }
static bool newton(const Elem&e,const int*n,int D,const double*x,double*r){ double xm=0; for(int d=0;d<D;++d) xm=std::max(xm,fabs(x[d])); for(int it=0;it<60;++it){ double A[3][3],b[3],m=0; for(int d=0;d<D;++d){ double g[3]; b[d]=x[d]-ev(e.x[d],n,D,r,g); for(int k=0;k<D;++k) A[d][k]=g[k]; } if(!solve(A,b,D)) return false; for(int d=0;d<D;++d) m=std::max(m,fabs(b[d])); double f=m>0.5?0.5/m:1; for(int d=0;d<D;++d){ r[d]+=f*b[d]; if(fabs(r[d])>2.5) return false; } if(m<1e-13+4e-15*xm) return true; } return false; }
// one to one elements: any solution in the element is the solution; a second starting point in case the first wanders off
static bool invert(const Elem&e,const int*n,int D,const double*x,double*r){ bool box=true; for(int d=0;d<D;++d){ r[d]=0; double w=(e.hi[d]-e.lo[d])*0.05; if(x[d]<e.lo[d]-w||x[d]>e.hi[d]+w) box=false; } bool ok=newton(e,n,D,x,r); if(!box) return ok; double m=0,k0[3]; for(int d=0;d<D;++d) m=std::max(m,fabs(k0[d]=r[d])); if(ok&&m<=1) return true;
  double bd=DBL_MAX; int bi=0,nt=n[0]*n[1]*(D==3?n[2]:1); for(int i=0;i<nt;++i){ double dd=0; for(int d=0;d<D;++d) dd+=(x[d]-e.x[d][i])*(x[d]-e.x[d][i]); if(dd<bd){ bd=dd; bi=i; } } for(int d=0,z=1;d<D;z*=n[d],++d) r[d]=0.98*gll(n[d])[bi/z%n[d]];
  if(newton(e,n,D,x,r)){ double m2=0; for(int d=0;d<D;++d) m2=std::max(m2,fabs(r[d])); if(!ok||m2<m) return true; } memcpy(r,k0,sizeof k0); return ok; }

static const double DISAMP=0.15, DISST=0.6; // how far the strongly distorted meshes bend and stretch
struct FpGroup {
  std::vector<int> ranks;                     // world ranks of the group, in communicator order
  std::vector<Elem> el; std::vector<int> owner,lel,session; // per element: member index, local index, session index
  std::vector<std::vector<int>> of;           // per member: its elements in local order
  std::vector<int> msess; std::vector<unsigned> sid;        // session index of each member; id of each session
  std::vector<std::vector<int>> en;          // per element: mesh size and position in the mesh
  std::vector<std::vector<double>> dist;      // per element: distance field
  double L=1, h=1;                            // size of coordinates; smallest element extent
  int find(int proc,int lel_) const { if(proc<0||proc>=(int)of.size()||lel_<0||lel_>=(int)of[proc].size()) return -1; return of[proc][lel_]; }
};
struct FpRef { int e; double r[3]; };
// what is known about a sought point: for each session whether it is strictly inside (1), clearly outside (0), or undecided (-1)
struct FpPt { double x[3]; unsigned sess=0; int kind=0; double delta=0; };
struct FpSt { int comm; std::vector<std::vector<int>> groups; int D; int n[3]; int ms,fortran,fh; double bbtol,ntol; std::vector<FpGroup> g; std::vector<int> grp,mem; // per world rank
  struct Find { int op; unsigned match; std::vector<std::vector<FpPt>> pts; std::vector<char> m; int local; }; std::vector<Find> finds; int nfield=0; bool distzero=true; int lastset=0; double sc=1, dsc=1; /* the library sees the coordinates, and the distances, times these powers of two */ };

static void classify(const FpSt&s,const FpGroup&g,const double*x,std::vector<int>&in,std::vector<FpRef>&at,int only_member=-1){
  int NS=g.sid.size(); in.assign(NS,0); at.assign(NS,FpRef{-1,{0,0,0}}); for(size_t e=0;e<g.el.size();++e){ if(only_member>=0&&g.owner[e]!=only_member) continue; const Elem&E=g.el[e]; double dd=0; for(int d=0;d<s.D;++d) dd+=(x[d]-E.c[d])*(x[d]-E.c[d]); if(dd>E.rad*E.rad*1.3) continue; double r[3]; if(!invert(E,s.n,s.D,x,r)) continue; double m=0; for(int d=0;d<s.D;++d) m=std::max(m,fabs(r[d])); int q=g.session[e]; if(m<1-1e-7){ in[q]=1; at[q].e=e; memcpy(at[q].r,r,sizeof r); } else if(m<1.01&&in[q]!=1){ in[q]=-1; if(m<=1+1e-9&&at[q].e<0){ at[q].e=e; memcpy(at[q].r,r,sizeof r); } } } }

void Builder::fp_setup(){
  int sl=-1; for(int i=0;i<NFP;++i) if(!FP[i]){ sl=i; break; } if(sl<0) return; int c=pick_comm(false); if(c<0) return;
  auto sp=std::make_shared<FpSt>(); FpSt&s=*sp; s.comm=c; s.groups=C[c].groups; 
  if(pf.giant) for(auto&q:FP) if(q) return;
  s.ms=g.chance(pf.fpms); s.D= pf.fpdim?pf.fpdim:2+g.chance(0.35); s.fortran=g.chance(0.4); int nb=3+g.below(s.D==2?3:2); for(int d=0;d<3;++d) s.n[d]= d<s.D? (g.chance(0.7)?nb:2+(int)g.below(s.D==2?5:3)):1; if(g.chance(0.05)) s.n[0]=s.n[1]=2; bool vast=np<=16&&!p.cfg.memcheck&&!pf.leak&&g.chance(0.012), stretch=g.chance(0.1), none=!pf.leak&&g.chance(0.012), isl=!s.ms&&!stretch&&g.chance(0.06); if(pf.giant){ vast=stretch=none=false; isl=true; } if(vast) for(int d=0;d<s.D;++d) s.n[d]=2+(int)g.below(s.D==2?3:2); else if(g.chance(0.06)) for(int d=0;d<s.D;++d) s.n[d]=s.D==2?6+(int)g.below(6):4+(int)g.below(4); 
  int mm[3]; for(int d=0;d<3;++d) mm[d]=d<s.D?2*s.n[d]+(int)g.below(3):1;
  static const double BT[]={0.01,0.05,0.1,0.001}; s.bbtol=BT[g.below(4)]; static const double NT[]={1024*DBL_EPSILON,1e-12,1e-13}; s.ntol=NT[g.below(3)];
  static const int NP_[]={256,16,4,1,2,7}; int nptmax=NP_[g.below(6)]; int lhx=g.chance(0.2)?4+g.below(2):g.below(4), ghs=g.chance(0.03)?1+g.size(5000):1+g.size(60); if(pf.giant) ghs=1461000000; bool big=g.chance(0.15); uint32_t sd=g.seed(); int own=g.below(5); int bump=g.below(4); bool shr=g.chance(0.4), dis=g.chance(0.3); s.distzero=g.chance(0.75); if(g.chance(0.15)&&!pf.giant) s.sc=ldexp(1,(int)g.below(81)-40); if(g.chance(0.2)) s.dsc=ldexp(1,(int)g.below(101)-50); double dlow=g.chance(0.4)?0.3+2.5*g.below(1000)/1000.:0; int nel_lim=np>16?1:1; (void)nel_lim;
  s.fh= s.fortran? ffp_n++:-1; s.grp.assign(np,-1); s.mem.assign(np,-1); s.g.resize(s.groups.size());
  int ntot=s.n[0]*s.n[1]*s.n[2]; size_t maxel=0;
  for(size_t gi=0;gi<s.groups.size();++gi){ FpGroup&G=s.g[gi]; G.ranks=s.groups[gi]; int gn=G.ranks.size(); for(int k=0;k<gn;++k){ s.grp[G.ranks[k]]=gi; s.mem[G.ranks[k]]=k; } G.of.resize(gn); G.msess.assign(gn,0);
    int NS= s.ms? std::min(gn,1+(int)(H(sd,gi,500)%(H(sd,gi,501)%8==0?7:3))):1; for(int q=0;q<NS;++q) G.sid.push_back(H(sd,7,q)%4==0? q: (unsigned)(H(sd,gi,q,8)%1000000)); for(int q=1;q<NS;++q) while(std::find(G.sid.begin(),G.sid.begin()+q,G.sid[q])!=G.sid.begin()+q) ++G.sid[q];
    { std::vector<int> perm(gn); for(int k=0;k<gn;++k) perm[k]=k; for(int k=gn-1;k>0;--k) std::swap(perm[k],perm[H(sd,gi,k,9)%(k+1)]); for(int k=0;k<gn;++k) G.msess[perm[k]]= k<NS?k:(int)(H(sd,gi,k,10)%NS); }
    double shift[3]; for(int d=0;d<3;++d) shift[d]=(H(sd,gi,d,20)%3==0?0:(U(H(sd,gi,d,21))-0.5)*20);
    double ioff[3]; { double len=0; for(int d=0;d<3;++d){ ioff[d]=d<s.D?2*U(H(sd,gi,d,23))-1:0; len+=ioff[d]*ioff[d]; } len=sqrt(len)+1e-9; for(int d=0;d<3;++d) ioff[d]*= pf.giant? 0 : (60+H(sd,gi,24)%4*100)/len; if(pf.giant) ioff[0]=ioff[1]=-60000; } // some elements lie far from the others
    for(int q=0;q<NS;++q){ // one mesh per session, overlapping in space
      int N[3]={1,1,1}; int lim=big?4:3; for(int d=0;d<s.D;++d) N[d]= pf.giant?3: vast? (s.D==2?8+H(sd,gi,q,30+d)%17:3+H(sd,gi,q,30+d)%4) : 1+H(sd,gi,q,30+d)%(s.D==2?lim:2); 
      double ang=U(H(sd,gi,q,40))*6.283, sc[3], amp= bump==0?0:(dis?DISAMP:0.06)*U(H(sd,gi,q,41)), st[3]; for(int d=0;d<3;++d) st[d]= dis?(2*U(H(sd,gi,q,90+d))-1)*DISST:0; double k1[3],ph[3]; for(int d=0;d<3;++d){ sc[d]=0.5+1.5*U(H(sd,gi,q,42+d)); k1[d]=1+H(sd,gi,q,50+d)%2; ph[d]=U(H(sd,gi,q,53+d))*6.28; } if(s.ms) for(int d=0;d<3;++d) sc[d]=(2.0+U(H(sd,gi,q,42+d)))/N[d]; else if(stretch) for(int d=0;d<3;++d) sc[d]*=exp((2*U(H(sd,gi,q,95+d))-1)*1.5); if(H(sd,gi,q,57)%3==0) ang=0; double shear[3]={0,0,0}; if(shr&&!stretch&&H(sd,gi,q,80)%3) for(int d=0;d<3;++d) shear[d]=(U(H(sd,gi,q,81+d))-0.5)*(s.D==2?1.4:0.8);
      std::vector<int> members; for(int k=0;k<gn;++k) if(G.msess[k]==q) members.push_back(k); int ne=N[0]*N[1]*N[2]; if(none&&(NS==1||H(sd,gi,q,99)%2)) ne=0; /* a mesh, or a session, without elements */ std::vector<int> order(ne); for(int e=0;e<ne;++e) order[e]=e; for(int e=ne-1;e>0;--e) std::swap(order[e],order[H(sd,gi,q,1000+e)%(e+1)]);
      auto build=[&](int e,Elem&E,std::vector<double>&df){ int ex[3]={e%N[0],(e/N[0])%N[1],e/(N[0]*N[1])}; for(int d=0;d<s.D;++d) E.x[d].resize(ntot); df.resize(ntot);
        for(int t=0;t<ntot;++t){ int ix[3]={t%s.n[0],(t/s.n[0])%s.n[1],t/(s.n[0]*s.n[1])}; double u[3]={0,0,0},y[3]={0,0,0},b=1; for(int d=0;d<s.D;++d){ u[d]=ix[d]==0?ex[d]:ix[d]==s.n[d]-1?ex[d]+1:ex[d]+(gll(s.n[d])[ix[d]]+1)/2; { double t=u[d]-ex[d]; u[d]+=st[d]*t*(1-t); } double w=u[d]/N[d]; b*=4*w*(1-w); } for(int d=0;d<s.D;++d){ int o=(d+1)%s.D; y[d]=(u[d]-0.5*N[d]+amp*sin(k1[d]*2.1*u[o]+ph[d]))*sc[d]; }
          y[0]+=shear[0]*y[1]+shear[1]*y[2]; y[1]+=shear[2]*y[2];
          double X[3]={cos(ang)*y[0]-sin(ang)*y[1],sin(ang)*y[0]+cos(ang)*y[1],y[2]}; if(s.D==3&&H(sd,gi,q,58)%2){ double t1=cos(ang*0.7)*X[1]-sin(ang*0.7)*X[2]; X[2]=sin(ang*0.7)*X[1]+cos(ang*0.7)*X[2]; X[1]=t1; } for(int d=0;d<s.D;++d) E.x[d][t]=X[d]+shift[d]+(s.ms?(U(H(sd,gi,q,60+d))-0.5)*1.2:0);
          if(isl&&(pf.giant?e==0:H(sd,gi,q,4000+e)%3==0)) for(int d=0;d<s.D;++d) E.x[d][t]+=ioff[d];
          df[t]= s.distzero? b*(0.5+U(H(sd,gi,q,70))) : 1+0.4*sin(1.3*u[0]+q)+0.3*cos(0.9*u[1]+2*q)+U(H(sd,gi,q,70))-dlow; } };
      for(int att=0;att<6;++att){ // the mapping of every element must be one to one: the Jacobian keeps its sign and does not degenerate
        bool bad=false; for(int e=0;e<ne&&!bad;++e){ Elem E; std::vector<double> df; build(e,E,df); for(int t=0;t<125&&!bad;++t){ if(s.D==2&&t>=25) break; double r[3]={t%5*0.5-1,t/5%5*0.5-1,s.D==3?t/25*0.5-1:0},J[3][3],ln=1,det; for(int d=0;d<s.D;++d) ev(E.x[d],s.n,s.D,r,J[d]); for(int c=0;c<s.D;++c){ double l=0; for(int d=0;d<s.D;++d) l+=J[d][c]*J[d][c]; ln*=sqrt(l); } det= s.D==2? J[0][0]*J[1][1]-J[0][1]*J[1][0] : J[0][0]*(J[1][1]*J[2][2]-J[1][2]*J[2][1])-J[0][1]*(J[1][0]*J[2][2]-J[1][2]*J[2][0])+J[0][2]*(J[1][0]*J[2][1]-J[1][1]*J[2][0]); if(!(det>0.3*ln)) bad=true; } }
        if(!bad) break; amp*=0.6; for(int d=0;d<3;++d) st[d]*=0.6,shear[d]*=0.6; }
      for(int oi=0;oi<ne;++oi){ int e=order[oi]; int ex[3]={e%N[0],(e/N[0])%N[1],e/(N[0]*N[1])}; Elem E; std::vector<double> df; build(e,E,df);
        E.rad=0; for(int d=0;d<s.D;++d){ E.lo[d]=*std::min_element(E.x[d].begin(),E.x[d].end()); E.hi[d]=*std::max_element(E.x[d].begin(),E.x[d].end()); E.c[d]=(E.lo[d]+E.hi[d])/2; E.rad+=(E.hi[d]-E.lo[d])*(E.hi[d]-E.lo[d]); G.L=std::max(G.L,std::max(fabs(E.lo[d]),fabs(E.hi[d]))); G.h=std::min(G.h,sc[d]*(shr?0.45:0.7)); } E.rad=sqrt(E.rad)*0.75;
        int who= own==0? oi*(int)members.size()/ne : own==1? oi%(int)members.size() : own==2? 0 : own==3? (int)(H(sd,gi,e,2000)%members.size()) : (int)(H(sd,gi,e,2001)%((members.size()+1)/2)); who=members[who]; G.lel.push_back(G.of[who].size()); G.of[who].push_back(G.el.size()); G.owner.push_back(who); G.session.push_back(q); G.el.push_back(E); G.dist.push_back(df); G.en.push_back({N[0],N[1],N[2],ex[0],ex[1],ex[2]}); } }
    for(auto&v:G.of) maxel=std::max(maxel,v.size()); }
  int o=add(OP_FP_SETUP,c,sl,fmt("%sfindpts%s_setup(slot %d, comm %d, dim %d, %dx%dx%d nodes, npt_max %d, bbox_tol %g%s)",s.fortran?"Fortran ":"",s.ms?"ms":"",sl,c,s.D,s.n[0],s.n[1],s.n[2],nptmax,s.bbtol,s.sc!=1?fmt(", coordinates times %g",s.sc).c_str():"")); wop&q=p.ops[o]; q.a[0]=s.D; q.a[1]=s.fortran; q.a[2]=s.ms; for(int d=0;d<3;++d) q.a[3+d]=s.n[d],q.a[6+d]=mm[d]; static const int LH[]={2,8,40,200,2000,20000}; q.a[9]=(int)maxel+LH[lhx]; q.a[10]=ghs; q.a[11]=nptmax; q.d[0]=s.bbtol; q.d[1]=s.ntol;
  for(int r=0;r<np;++r) if(s.grp[r]>=0){ wrk&k=p.rk[o][r]; k.member=1; FpGroup&G=s.g[s.grp[r]]; auto&v=G.of[s.mem[r]]; k.n=v.size(); k.n2=G.sid[G.msess[s.mem[r]]]; for(int d=0;d<s.D;++d){ std::vector<double> a; for(int e:v) a.insert(a.end(),G.el[e].x[d].begin(),G.el[e].x[d].end()); for(double&z:a) z*=s.sc; k.p[d]=p.keepv(a); } if(s.ms){ std::vector<double> a; for(int e:v) a.insert(a.end(),G.dist[e].begin(),G.dist[e].end()); for(double&z:a) z*=s.dsc; k.p[3]=p.keepv(a); } }
  FP[sl]=sp;
}

static bool truthful(const FpSt&s,const FpGroup&g,const FpPt&pt,const double*q,int&e,std::string&why,double*xs){
  int proc=(int)q[1],el=(int)q[2]; e=g.find(proc,el); if(e<0){ why=fmt("it names processor %d, element %d, which does not exist",proc,el); return false; }
  for(int d=0;d<s.D;++d) if(!(fabs(q[3+d])<=1+1e-9)){ why=fmt("reference coordinate %d is %.17g",d,q[3+d]); return false; }
  mapx(g.el[e],s.n,s.D,q+3,xs); double d2=0; for(int d=0;d<s.D;++d) d2+=(xs[d]-pt.x[d])*(xs[d]-pt.x[d]); if(!(q[6]>=0)||fabs(sqrt(q[6])-sqrt(d2))>1e-9*g.L){ why=fmt("the reported distance is %.9g but the returned location (processor %d, element %d, r = %.9g %.9g %.9g) is %.9g away",sqrt(q[6]),proc,el,q[3],q[4],s.D==3?q[5]:0.,sqrt(d2)); return false; }
  return true; }
static const char*const KN[]={"inside an element","on an element face, edge or corner","just outside the mesh","somewhat outside the mesh","far outside the mesh","anywhere","just outside an edge or corner of the mesh","somewhat outside an edge or corner of the mesh"};

void Builder::fp_find(){
  std::vector<int> v; for(int i=0;i<NFP;++i) if(FP[i]) v.push_back(i); if(v.empty()) return; int sl=v[g.below(v.size())]; auto sp=FP[sl]; FpSt&s=*sp;
  auto m=members(s.groups,false); bool loc=!s.ms&&g.chance(0.1); int aos=g.below(4), match=s.ms?(int)g.chance(0.4):0; int cap=pf.giant?200:g.chance(0.1)?60:12; if(np<=6&&g.chance(0.01)) cap=700; uint32_t sd=g.seed(); int zeros=g.chance(0.3)?2:100; bool few=g.chance(0.15);
  int o=add(OP_FP_FIND,s.comm,sl,fmt("%sfindpts%s%s(slot %d, %s%s)",s.fortran&&!loc?"Fortran ":"",loc?"_local":"",s.ms?"ms":"",sl,aos?"strided":"packed",s.ms?fmt(", match %d",match).c_str():"")); SETM_(o,m); p.ops[o].a[0]=aos; p.ops[o].a[1]=match; p.ops[o].a[3]=loc;
  FpSt::Find F; F.op=o; F.match=match; F.m=m; F.pts.resize(np); F.local=loc;
  for(int r=0;r<np;++r) if(m[r]&&s.grp[r]>=0){ FpGroup&G=s.g[s.grp[r]]; wrk&k=p.rk[o][r]; int n= H(sd,r)%zeros==1?0:H(sd,r,1)%(cap+1); if(few&&r%3) n=0; std::vector<double> xs; std::vector<unsigned> ss; auto&pts=F.pts[r]; pts.resize(n);
    for(int i=0;i<n;++i){ FpPt&t=pts[i]; uint64_t h=H(sd,r,i,3); if(G.el.empty()){ t.kind=4; t.sess=s.ms?4000000u:0; for(int d=0;d<s.D;++d) xs.push_back(t.x[d]=(2*U(H(h,2,d))-1)*(H(h,3)%3?2:1e4)); ss.push_back(t.sess); continue; } int e=H(h,1)%G.el.size(); if(loc&&!G.of[s.mem[r]].empty()) e=G.of[s.mem[r]][H(h,1)%G.of[s.mem[r]].size()]; double rr[3]={0,0,0}; for(int d=0;d<s.D;++d) rr[d]=2*U(H(h,2,d))-1; int z=H(h,4)%20; t.kind= z<8?0: z<11?1: z<13?2: z<15?3: z<16?4: z<17?5: z<19?6: 7; 
      if(t.kind==0){ for(int d=0;d<s.D;++d) rr[d]*=0.999; }
      if(t.kind==1){ int cnt=1+H(h,5)%s.D; for(int c=0;c<cnt;++c) rr[H(h,6,c)%s.D]=H(h,7,c)%2?1:-1; if(H(h,8)%3==0) for(int d=0;d<s.D;++d) if(fabs(rr[d])<1) rr[d]=gll(s.n[d])[H(h,9,d)%s.n[d]]; }
      mapx(G.el[e],s.n,s.D,rr,t.x);
      if(t.kind==2||t.kind==3){ // step out along a face normal: decided later whether this leaves the mesh
        int f=H(h,5)%s.D; double sg=H(h,6)%2?1:-1; rr[f]=sg; double J[3][3]; for(int d=0;d<s.D;++d){ double gr[3]; t.x[d]=ev(G.el[e].x[d],s.n,s.D,rr,gr); for(int c=0;c<s.D;++c) J[d][c]=gr[c]; } double nn[3]={0,0,0}; if(s.D==2){ int o2=1-f; nn[0]=J[1][o2]; nn[1]=-J[0][o2]; } else { int a=(f+1)%3,b=(f+2)%3; nn[0]=J[1][a]*J[2][b]-J[2][a]*J[1][b]; nn[1]=J[2][a]*J[0][b]-J[0][a]*J[2][b]; nn[2]=J[0][a]*J[1][b]-J[1][a]*J[0][b]; } double len=0,dot=0; for(int d=0;d<s.D;++d){ len+=nn[d]*nn[d]; dot+=nn[d]*J[d][f]; } len=sqrt(len); double q=(dot*sg>0?1:-1)/len; t.delta= t.kind==2? s.bbtol*G.h*0.02*(0.1+U(H(h,7))) : G.h*(0.02+0.6*U(H(h,7))); for(int d=0;d<s.D;++d) t.x[d]+=nn[d]*q*t.delta; }
      if(t.kind==6||t.kind==7){ // outwards from an edge or a corner, within the cone of the face normals
        int cnt=s.D==2?2:2+H(h,5)%2, f0=H(h,5,1)%s.D; double fix[3]={0,0,0}; for(int c=0;c<cnt;++c){ int f=(f0+c)%s.D; rr[f]=fix[f]=H(h,6,c)%2?1:-1; if(H(h,15)%2){ const int*N=G.en[e].data(); const int*X=G.en[e].data()+3; rr[f]=fix[f]= X[f]==0?-1: X[f]==N[f]-1?1:rr[f]; } }
        double J[3][3]; for(int d=0;d<s.D;++d){ double gr[3]; t.x[d]=ev(G.el[e].x[d],s.n,s.D,rr,gr); for(int c=0;c<s.D;++c) J[d][c]=gr[c]; }
        double tot[3]={0,0,0}; for(int f=0;f<s.D;++f) if(fix[f]!=0){ double nn[3]={0,0,0}; if(s.D==2){ int o2=1-f; nn[0]=J[1][o2]; nn[1]=-J[0][o2]; } else { int a=(f+1)%3,b=(f+2)%3; nn[0]=J[1][a]*J[2][b]-J[2][a]*J[1][b]; nn[1]=J[2][a]*J[0][b]-J[0][a]*J[2][b]; nn[2]=J[0][a]*J[1][b]-J[1][a]*J[0][b]; } double len=0,dot=0; for(int d=0;d<s.D;++d){ len+=nn[d]*nn[d]; dot+=nn[d]*J[d][f]; } len=sqrt(len); double q=(dot*fix[f]>0?1:-1)/len*(0.1+U(H(h,16,f))); for(int d=0;d<s.D;++d) tot[d]+=nn[d]*q; }
        double len=0; for(int d=0;d<s.D;++d) len+=tot[d]*tot[d]; len=sqrt(len); t.delta= t.kind==6? s.bbtol*G.h*0.02*(0.1+U(H(h,7))) : G.h*(0.02+0.4*U(H(h,7))); if(!(len>1e-9)) len=1; for(int d=0;d<s.D;++d) t.x[d]+=tot[d]/len*t.delta; }
      if(t.kind==4) for(int d=0;d<s.D;++d) t.x[d]+=(H(h,8,d)%2?1:-1)*(1000+200*U(H(h,9,d)))*(d==0||H(h,10,d)%2?1:0.001);
      if(t.kind==5) for(int d=0;d<s.D;++d) t.x[d]+=(U(H(h,11,d))-0.5)*2;
      t.sess= s.ms? (H(h,12)%6==0? 4000000u+H(h,13)%5: G.sid[H(h,13)%3==0?G.msess[s.mem[r]]:H(h,14)%G.sid.size()]):0; 
      for(int d=0;d<s.D;++d) xs.push_back(t.x[d]); ss.push_back(t.sess); }
    for(double&z:xs) z*=s.sc; k.n=n; k.p[0]=p.keepv(xs); k.p[1]=s.ms?p.keepv(ss):nullptr; record(p,o,r,0); }
  s.finds.push_back(F); bool rep=pf.repro; (void)rep; std::string desc=p.opdesc[o];
  p.post.push_back([sp,F,o,desc](Prog&p){ const FpSt&s=*sp; for(int r=0;r<p.np;++r) if(F.m[r]&&s.grp[r]>=0){ auto it=p.got.find(okey(o,r,0)); if(it==p.got.end()) continue; const FpGroup&G=s.g[s.grp[r]]; size_t n=F.pts[r].size(); if(it->second.size()!=n*64) { POSTV(o,r,"wrong-result",desc+": wrong size"); return; } const double*res=(const double*)it->second.data();
      for(size_t i=0;i<n;++i){ const FpPt&t=F.pts[r][i]; double q[8]; memcpy(q,res+8*i,sizeof q); q[6]/=s.sc*s.sc; p.checked++; std::string where=fmt("%s: point %zu of rank %d (%.9g, %.9g, %.9g; %s%s)",desc.c_str(),i,r,t.x[0],t.x[1],s.D==3?t.x[2]:0.,KN[t.kind],s.ms?fmt(", session %u",t.sess).c_str():"");
        if(q[7]!=0){ POSTV(o,r,"wrong-result",where+": the sought coordinates were modified"); return; }
        int code=(int)q[0]; if(q[0]!=0&&q[0]!=1&&q[0]!=2){ POSTV(o,r,"wrong-result",where+fmt(": code %g",q[0])); return; }
        std::vector<int> in; std::vector<FpRef> at; classify(s,G,t.x,in,at,F.local?s.mem[r]:-1); int NS=in.size(); std::vector<char> adm(NS,1); if(s.ms) for(int k=0;k<NS;++k) adm[k]= F.match==1? G.sid[k]==t.sess : G.sid[k]!=t.sess;
        bool anyin=false,und=false; for(int k=0;k<NS;++k) if(adm[k]){ if(in[k]==1) anyin=true; if(in[k]==-1) und=true; }
        int e=-1; double xs[3]; std::string why; double dd=0;
        if(code!=2){ if(!truthful(s,G,t,q,e,why,xs)){ POSTV(o,r,"wrong-result",where+": "+why); return; } dd=sqrt(q[6]); if(F.local&&G.owner[e]!=s.mem[r]){ POSTV(o,r,"wrong-result",where+": found outside its own elements"); return; } if(!adm[G.session[e]]){ POSTV(o,r,"wrong-result",where+fmt(": found in an element of session %u, which is not admissible",G.sid[G.session[e]])); return; } }
        if(anyin){ if(code==2){ POSTV(o,r,"wrong-result",where+": not found although an admissible element contains it"); return; }
          if(!s.ms){ if(code!=0||dd>1e-8*G.L){ if(!(code==1&&dd<=1e-8*G.L&&0)){ POSTV(o,r,"wrong-result",where+fmt(": strictly inside an element but reported with code %d at distance %.9g",code,dd)); return; } }
            if(e!=at[0].e){ POSTV(o,r,"wrong-result",where+fmt(": found in processor %d element %d, but lies in processor %d element %d",(int)q[1],(int)q[2],G.owner[at[0].e],G.lel[at[0].e])); return; } for(int d=0;d<s.D;++d) if(fabs(q[3+d]-at[0].r[d])>1e-7){ POSTV(o,r,"wrong-result",where+fmt(": reference coordinate %d is %.12g, expected %.12g",d,q[3+d],at[0].r[d])); return; } }
          else { double best=-DBL_MAX; for(int k=0;k<NS;++k) if(adm[k]&&in[k]==1) best=std::max(best,ev(G.dist[at[k].e],s.n,s.D,at[k].r,nullptr)); double mine=ev(G.dist[e],s.n,s.D,q+3,nullptr); int ks=G.session[e]; 
            if(in[ks]==1){ if(code!=0||dd>1e-8*G.L||e!=at[ks].e){ POSTV(o,r,"wrong-result",where+fmt(": strictly inside session %u but reported there with code %d at distance %.9g",G.sid[ks],code,dd)); return; } }
            if(mine<best-1e-7*(1+fabs(best))){ POSTV(o,r,"wrong-result",where+fmt(": found in session %u where the distance field is %.9g, but another admissible session that contains it has %.9g",G.sid[ks],mine,best)); return; }
            if(in[ks]==0&&s.distzero&&best>1e-6){ POSTV(o,r,"wrong-result",where+fmt(": found in session %u, which does not contain it",G.sid[ks])); return; } } }
        else if(!und){ if(code==0){ POSTV(o,r,"wrong-result",where+": reported inside although no admissible element contains it"); return; } if(code==1&&dd<=1e-10*G.h){ POSTV(o,r,"wrong-result",where+": reported at distance zero although it is outside"); return; }
          if(t.kind==4&&code!=2){ POSTV(o,r,"wrong-result",where+fmt(": reported with code %d",code)); return; } }
        if(!F.local&&(t.kind==1||t.kind==2||t.kind==6)){ // the element it was generated from, if admissible, is at most delta away
          bool ok=!s.ms; if(s.ms){ ok=false; for(int k=0;k<NS;++k) if(adm[k]&&in[k]!=0) ok= true; if(t.kind!=1||!s.distzero) ok=false; if(NS>1&&s.ms) ok=false; if(s.ms&&NS==1&&!adm[0]) ok=false; }
          if(ok){ if(code==2){ POSTV(o,r,"wrong-result",where+": not found"); return; } double lim=t.kind==1?1e-8*G.L:t.delta*(1+1e-6)+1e-9*G.L; if(dd>lim){ POSTV(o,r,"wrong-result",where+fmt(": found at distance %.9g, but the mesh is %.9g away",dd,t.delta)); return; } } }
      } } });
}

void Builder::fp_eval(){
  std::vector<int> v; for(int i=0;i<NFP;++i) if(FP[i]) v.push_back(i); if(v.empty()) return; int sl=v[g.below(v.size())]; auto sp=FP[sl]; FpSt&s=*sp;
  auto m=members(s.groups,false); int aos=g.below(4); uint32_t sd=g.seed(); int src=g.chance(0.6)&&!s.finds.empty()&&!pf.leak?1:0; bool local=s.fortran&&g.chance(0.15); if(local) src=0; int fi=-1; if(src){ fi=g.chance(0.6)?(int)s.finds.size()-1:(int)g.below(s.finds.size()); }
  int sub=g.below(3); int cap=g.chance(0.1)?80:12; if(np<=6&&g.chance(0.01)) cap=700; int field=g.below(4);
  int o=add(OP_FP_EVAL,s.comm,sl,fmt("%sfindpts%s_eval%s(slot %d, %s, points %s)",s.fortran?"Fortran ":"",s.ms?"ms":"",local?"_local":"",sl,aos?"strided":"packed",src?fmt("%s of the search in operation %d",sub==1?"a part":sub==2?"in reverse":"all",s.finds[fi].op).c_str():"given")); SETM_(o,m); p.ops[o].a[0]=aos; p.ops[o].a[2]=local; std::string desc=p.opdesc[o];
  int ntot=s.n[0]*s.n[1]*s.n[2];
  // field values: random, or the coordinates themselves
  auto fields=std::make_shared<std::vector<std::vector<std::vector<double>>>>(); // [group][element]
  for(size_t gi=0;gi<s.g.size();++gi){ fields->emplace_back(); for(size_t e=0;e<s.g[gi].el.size();++e){ std::vector<double> f(ntot); if(field<s.D&&field<2) f=s.g[gi].el[e].x[field]; else for(int t=0;t<ntot;++t) f[t]=2*U(H(sd,gi,e,t))-1; fields->back().push_back(f); } }
  auto inputs=std::make_shared<std::vector<std::vector<double>>>(np);
  for(int r=0;r<np;++r) if(m[r]&&s.grp[r]>=0){ FpGroup&G=s.g[s.grp[r]]; wrk&k=p.rk[o][r]; std::vector<double> f; for(int e:G.of[s.mem[r]]) f.insert(f.end(),(*fields)[s.grp[r]][e].begin(),(*fields)[s.grp[r]][e].end()); k.p[1]=p.keepv(f); record(p,o,r,0);
    if(!src){ int n= G.el.empty()||H(sd,r)%5==0?0:H(sd,r,1)%(cap+1); std::vector<double>&q=(*inputs)[r]; for(int i=0;i<n;++i){ uint64_t h=H(sd,r,i,5); int e=H(h,1)%G.el.size(); if(local){ auto&own=G.of[s.mem[r]]; if(own.empty()) continue; e=own[H(h,1)%own.size()]; } int code=local?0:H(h,2)%8==0?2:H(h,2)%2; q.push_back(code); q.push_back(code==2?(double)0x7fffffff:G.owner[e]); q.push_back(code==2?(double)0x7fffffff:G.lel[e]); for(int d=0;d<3;++d) q.push_back(d<s.D? (H(h,3,d)%6==0?(H(h,4,d)%2?1.:-1.):2*U(H(h,5,d))-1):0); q.push_back(0); q.push_back(0); } 
      if(local&&H(sd,99)%2){ int n2=q.size()/8; std::vector<int> od(n2); for(int i=0;i<n2;++i) od[i]=i; std::stable_sort(od.begin(),od.end(),[&](int a,int b){ return q[8*a+2]<q[8*b+2]; }); std::vector<double> q2; for(int i:od) q2.insert(q2.end(),q.begin()+8*i,q.begin()+8*i+8); q=q2; }
      k.n=q.size()/8; k.p[0]=p.keepv(q); }
    else { FpSt::Find F=s.finds[fi]; int fop=F.op; p.before[okey(o,r,0)]=[=](Prog&p){ std::vector<double> q; auto it=p.got.find(okey(fop,r,0)); if(it!=p.got.end()){ const double*a=(const double*)it->second.data(); size_t n=it->second.size()/64; for(size_t i=0;i<n;++i){ size_t j= sub==2?n-1-i:i; if(sub==1&&H(sd,r,j,77)%2) continue; q.insert(q.end(),a+8*j,a+8*j+8); } for(size_t i=0;i*8<q.size();++i){ double*x=&q[8*i]; if(x[0]==2) x[1]=x[2]=0x7fffffff; 
            bool fin=true; for(int c=0;c<6;++c) if(!(fabs(x[c])<4e9)) fin=false; if(!fin) x[0]=2,x[1]=x[2]=0x7fffffff,x[3]=x[4]=x[5]=0; if(x[0]!=2&&sp->g[sp->grp[r]].find((int)x[1],(int)x[2])<0) x[0]=2; } }
          (*inputs)[r]=q; wrk&k=p.flat[(size_t)o*p.np+r]; k.n=q.size()/8; k.p[0]=p.keepv(q); }; } }
  p.post.push_back([=](Prog&p){ const FpSt&s=*sp; for(int r=0;r<p.np;++r) if(m[r]&&s.grp[r]>=0){ auto it=p.got.find(okey(o,r,0)); if(it==p.got.end()) continue; const FpGroup&G=s.g[s.grp[r]]; auto&q=(*inputs)[r]; size_t n=q.size()/8; if(it->second.size()!=8*n){ POSTV(o,r,"wrong-result",desc+": wrong size"); return; } const double*out=(const double*)it->second.data();
      for(size_t i=0;i<n;++i){ const double*x=&q[8*i]; p.checked++; if(x[0]==2){ if(out[i]!=-12345.5){ POSTV(o,r,"wrong-result",desc+fmt(": the entry of point %zu of rank %d, which was not found, was overwritten with %.9g",i,r,out[i])); return; } continue; }
        int e=G.find((int)x[1],(int)x[2]); double w=ev((*fields)[s.grp[r]][e],s.n,s.D,x+3,nullptr); if(!(fabs(out[i]-w)<=1e-9*(1+fabs(w))*(field<2?G.L:1))){ POSTV(o,r,"wrong-result",desc+fmt(": the value at point %zu of rank %d (processor %d, element %d, r = %.9g %.9g %.9g) is %.12g, expected %.12g",i,r,(int)x[1],(int)x[2],x[3],x[4],s.D==3?x[5]:0.,out[i],w)); return; } } } });
}
void Builder::fp_free(int i){ FpSt&s=*FP[i]; int o=add(OP_FP_FREE,s.comm,i,fmt("%sfindpts%s_free(slot %d)",s.fortran?"Fortran ":"",s.ms?"ms":"",i)); std::vector<char> m=members(s.groups,true); SETM_(o,m); if(s.fortran) freed_fp.push_back(s.fh); FP[i].reset(); }
