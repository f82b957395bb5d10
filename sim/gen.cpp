#include "gen.h"
#include "mpi.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cfloat>
#include <climits>
#include <cmath>
#include <algorithm>
#include <array>
#include <map>

Prog *P=nullptr;
static const int DS[5]={8,4,4,8,8};
static const char *DN[5]={"double","float","int","long","long long"};
static const char *ON[5]={"add","mul","min","max","bpr"};
static const char *MN[4]={"auto","pairwise","crystal","allreduce"};
typedef long double LD;
static LD getv(int dom,const void*q){ switch(dom){ case 0:{double x;memcpy(&x,q,8);return x;} case 1:{float x;memcpy(&x,q,4);return x;} case 2:{int x;memcpy(&x,q,4);return x;} default:{long long x;memcpy(&x,q,8);return x;} } }
static void putv(int dom,void*q,LD v){ switch(dom){ case 0:{double x=v;memcpy(q,&x,8);}break; case 1:{float x=v;memcpy(q,&x,4);}break; case 2:{int x=v;memcpy(q,&x,4);}break; default:{long long x=v;memcpy(q,&x,8);} } }
static LD ident(int dom,int op){ switch(op){ case 0: case 4: return 0; case 1: return 1; case 2: switch(dom){case 0:return DBL_MAX;case 1:return FLT_MAX;case 2:return INT_MAX;default:return LLONG_MAX;} default: switch(dom){case 0:return -DBL_MAX;case 1:return -FLT_MAX;case 2:return INT_MIN;default:return LLONG_MIN;} } }
static LD apply(int op,LD a,LD b){ switch(op){ case 0: return a+b; case 1: return a*b; case 2: return b<a?b:a; case 3: return b>a?b:a; default: { unsigned x=(unsigned)a,y=(unsigned)b; if(y==0) return x; if(x==0) return y; while(x!=y){ if(x<y) y>>=1; else x>>=1; } return x; } } }
static uint64_t H(uint64_t a,uint64_t b=0,uint64_t c=0,uint64_t d=0){ uint64_t h=mix64(a*0x9e3779b97f4a7c15ull+1); h=mix64(h^(b+0x1234567)); h=mix64(h^(c*0x51ed270b+77)); return mix64(h^(d*0x2545F491+5)); }
// an input value for (dom,op); 'twos' is how many factors of two the group may still take
static LD genval(int dom,int op,uint64_t h,int*twos){
  switch(op){
    case 0: switch(dom){ case 1: return (LD)((long)(h%2001)-1000); case 2: return (LD)((long)(h%200001)-100000); default: return (LD)((long)(h%(1ull<<31))-(1l<<30)); }
    case 1: { if(twos&&*twos>0&&(h>>8)%3==0){ --*twos; return (h&1)?2:-2; } return (h&1)?1:-1; }
    case 2: case 3: switch(dom){ case 0: { if(h%17==0) return 0; double x=((double)(int64_t)mix64(h))*ldexp(1.0,(int)(h%120)-60); return x; } case 1: { float x=(float)(int32_t)(h>>16)*ldexpf(1.f,(int)(h%60)-30); return x; } case 2: if(h%19==0) return INT_MIN; if(h%19==1) return INT_MAX; return (int)(h>>13); default: if(h%19==0) return LLONG_MIN; if(h%19==1) return LLONG_MAX; return (long long)mix64(h^99); }
    default: if((h>>40)%5==0) return 0; return dom==1? (LD)(1+h%4096) : (LD)(1+h%1000000);
  } }

// ---------------------------------------------------------------- host callbacks
extern "C" {
void wl_begin(int op){ int r=cur_rank; S.cur_op[r]=op; if(op<(int)P->ops.size()){ P->opcount[P->ops[op].type]++; auto it=P->before.find(okey(op,r,0)); if(it!=P->before.end()) it->second(*P); } sim_yield_point("start of an operation"); }
static std::string fmtv(int dom,const char*q){ char b[64]; switch(dom){ case 0: snprintf(b,sizeof b,"%.17g",(double)getv(0,q)); break; case 1: snprintf(b,sizeof b,"%.9g",(double)getv(1,q)); break; default: snprintf(b,sizeof b,"%lld",(long long)getv(dom,q)); } return b; }
void wl_out(int op,int which,const void*p,size_t n){
  int r=cur_rank; uint64_t k=okey(op,r,which); auto it=P->exp.find(k);
  if(it==P->exp.end()) return;
  Expect&e=it->second; std::vector<char> v((const char*)p,(const char*)p+n);
  if(e.kind==1){
    P->checked++;
    if(e.bytes!=v){
      if(e.bytes.size()!=n){ S.violate("wrong-result","%s: output has %zu bytes, expected %zu",P->opdesc[op].c_str(),n,e.bytes.size()); }
      size_t i=0; while(i<n&&v[i]==e.bytes[i]) ++i;
      if(e.dom>=0){ int z=DS[e.dom]; i/=z; S.violate("wrong-result","%s: output %d, element %zu is %s, expected %s",P->opdesc[op].c_str(),which,i,fmtv(e.dom,&v[i*z]).c_str(),fmtv(e.dom,&e.bytes[i*z]).c_str()); }
      S.violate("wrong-result","%s: output %d differs from the expected at byte %zu (0x%02x, expected 0x%02x)",P->opdesc[op].c_str(),which,i,(unsigned char)v[i],(unsigned char)e.bytes[i]);
    }
  } else P->recorded++;
  P->got[k]=std::move(v);
}
void wl_mark(int op,int k){ int r=cur_rank; if((int)P->marks.size()<MAXR) P->marks.resize(MAXR); P->marks[r].push_back({S.live_lib_blocks(r),(long)S.live_comms(r),(long)S.live_reqs(r)}); }
void wl_yield(void){ sim_yield_point("yield"); }
void wl_fail(int op,const char*what){ S.violate("wrong-result","%s: %s",P->opdesc[op].c_str(),what); }
}

std::string Prog::dump() const { std::string s; char b[64]; snprintf(b,sizeof b,"np=%d build=%s\n",np,bank==2?"serial":bank?"nbc":"std"); s+=b; for(size_t i=0;i<ops.size();++i){ snprintf(b,sizeof b,"  op %zu: ",i); s+=b; s+=opdesc[i]; bool all=true; for(auto&k:rk[i]) if(!k.member) all=false; if(!all){ s+=" [ranks"; for(size_t r=0;r<rk[i].size();++r) if(rk[i][r].member){ snprintf(b,sizeof b," %zu",r); s+=b; } s+="]"; } s+="\n";
    if((ops[i].type==OP_GS_SETUP||ops[i].type==OP_GS_UNIQUE||ops[i].type==OP_GS)&&np<=8) for(size_t r=0;r<rk[i].size();++r) if(rk[i][r].member&&rk[i][r].n>0&&rk[i][r].n<=12&&rk[i][r].p[0]){ bool v=ops[i].type==OP_GS; if(v&&ops[i].a[4]>1) continue; snprintf(b,sizeof b,"       rank %zu %s:",r,v?"values":"ids"); s+=b; for(long k=0;k<rk[i][r].n;++k){ s+=" "; if(v) s+=fmtv(ops[i].a[1],(const char*)rk[i][r].p[0]+k*DS[ops[i].a[1]]); else { snprintf(b,sizeof b,"%lld",((const long long*)rk[i][r].p[0])[k]); s+=b; } } s+="\n"; } } return s; }

// ---------------------------------------------------------------- builder
int Builder::add(int type,int comm,int slot,const std::string&d){ wop o; memset(&o,0,sizeof o); o.type=type; o.comm=comm; o.slot=slot; p.ops.push_back(o); p.rk.emplace_back(np); for(auto&k:p.rk.back()) memset(&k,0,sizeof k); p.opdesc.push_back(d); return p.ops.size()-1; }
static std::string fmt(const char*f,...) __attribute__((format(printf,1,2)));
static std::string fmt(const char*f,...){ char b[400]; va_list ap; va_start(ap,f); vsnprintf(b,sizeof b,f,ap); va_end(ap); return b; }
static void expect(Prog&p,int op,int r,int which,const std::vector<char>&b,int dom=-1){ Expect e; e.bytes=b; e.dom=dom; p.exp[okey(op,r,which)]=std::move(e); }
static void record(Prog&p,int op,int r,int which){ Expect e; e.kind=2; p.exp[okey(op,r,which)]=e; }
template<class T> static std::vector<char> raw(const std::vector<T>&v){ return std::vector<char>((const char*)v.data(),(const char*)v.data()+v.size()*sizeof(T)); }

std::vector<char> Builder::members(const std::vector<std::vector<int>>&gr,bool all){ std::vector<char> m(np,0); bool any=false; for(auto&v:gr){ bool in=all||gr.size()<2||!g.chance(0.2); if(in){ any=true; for(int r:v) m[r]=1; } } return m; }
int Builder::pick_comm(bool p2p){ std::vector<int> v; for(int i=0;i<NCOMM;++i) if(C[i].live&&(!p2p||!C[i].busy)) v.push_back(i); if(v.empty()) return -1; return v[g.below(v.size())]; }
#define SETM(op,M) for(int r_=0;r_<np;++r_) p.rk[op][r_].member=M[r_]

static void gen_ids(Builder&b,const std::vector<std::vector<int>>&groups,std::vector<std::vector<long long>>&id,bool small){
  Gen&g=b.g; int np=b.np; id.assign(np,{});
  int pat=g.below(13); uint32_t sd=g.seed(); int cap; { static const std::vector<double> wz={6,4,1.2,0.4,0.06}; int z=g.weighted(wz); cap= z==0?6:z==1?30:z==2?150:z==3?1200:np<=4?6000:1200; if(small&&cap>150) cap=150; }
  if(np>12&&cap>150) cap=150; if((small&&np>12)||np>40) cap=std::min(cap,30);
  if(b.huge) cap=66000+g.below(80000);
  bool eq=g.chance(b.huge?0.6:0.2); int pool=1+g.below(cap>30?60:16); double pz=g.chance(0.4)?0.15:0, pneg=g.chance(b.pf.flagged)?(g.chance(0.3)?0.8:0.3):0; int n0=b.huge?cap-(int)g.below(500):g.size(cap); if(!b.huge&&np<=12&&g.chance(0.08)) n0=cap-(int)g.below(cap/8+1),eq=true;
  bool part=b.huge&&b.pf.samehandles&&g.chance(0.5); if(part) pat=13,pz=0,n0=110000+g.below(40000);
  int zeros=g.chance(0.3)?3:100;
  for(size_t gi=0;gi<groups.size();++gi){ auto&v=groups[gi]; int gn=v.size();
    for(int k=0;k<gn;++k){ int r=v[k]; int n=eq?n0:g.size(cap); if(!eq&&H(sd,r,gi,5)%zeros==0) n=0; auto&x=id[r]; x.resize(n);
      if(part&&gn==3) n=k==0?n0:n0/2, x.resize(n); 
      for(int i=0;i<n;++i){ uint64_t h=H(sd,r*200003+i,gi); long long a;
        switch(pat){
          case 12: a=1+i/(2+sd%3)+(sd%4?0:k*(cap/2+1)); break; /* every id several times on the rank, most on every rank or only there */
          case 13: a= k==2?1+n0/2+i:1+i; break; /* one rank shares everything, the others half each */
          case 0: a=1+h%pool; break;
          case 1: a=1+h%(cap*gn/2+1); break;
          case 2: a=(long long)(H(sd,h%pool,77)>>1)|1; break;
          case 3: a=1+(long long)k*(n0>1?n0-1:1)+i; break;
          case 4: a=1+(long long)gn*(1+h%pool); break;
          case 5: a=1+(long long)k*100000+i; break;
          case 6: a=1+(long long)(k/2)*3+h%3; break;
          case 7: a=1+i; break;
          case 9: a=(long long)((1+h%pool)<<32)|(sd%3==0?0:1+sd%7); break; /* equal in the low half */
          case 10: { static const long long B0[4]={1ll<<31,1ll<<32,1ll<<33,1ll<<16}; a=B0[sd%4]-pool/2+(long long)((h>>8)%pool); } break; /* around the limits of narrower types */
          case 11: a=(long long)(1+h%pool)<<((sd>>4)%56>56?0:(sd>>4)%50); break; /* multiples of a power of two: one owner */
          default: a=(h%3==0)? 9000000000000000000ll-(long long)((h>>8)%pool) : 1+(long long)((h>>8)%pool); break;
        }
        uint64_t h2=H(sd,r*200003+i,gi,9); if((h2%1000)/1000.0<pz) a=0; else if(((h2>>20)%1000)/1000.0<pneg) a=-a;
        x[i]=a; } } } }

static void class_map(GsSt&s,int np){ s.cls.assign(np,{}); s.ncls=0; for(auto&v:s.groups){ std::unordered_map<long long,int> m; for(int r:v){ s.cls[r].resize(s.id[r].size()); for(size_t i=0;i<s.id[r].size();++i){ long long a=s.id[r][i]; if(a<0) a=-a; if(a==0){ s.cls[r][i]=-1; continue; } auto it=m.find(a); if(it==m.end()) it=m.emplace(a,s.ncls++).first; s.cls[r][i]=it->second; } } } }

// outputs per (comp, rank) are arrays of n elements
typedef std::vector<std::vector<std::vector<LD>>> Vals; // [comp][rank][i]
static void gs_apply(const GsSt&s,int np,int dom,int op,int tr,const Vals&in,Vals&out,const std::vector<std::pair<int,int>>*owner){ // owner: per class the sole unflagged entry (or rank<0: as in id)
  out=in; for(size_t c=0;c<in.size();++c){ std::vector<LD> acc(s.ncls,ident(dom,op));
    auto flagged=[&](int r,int i)->bool{ int k=s.cls[r][i]; if(owner){ auto&o=(*owner)[k]; return !(o.first==r&&o.second==i); } return s.id[r][i]<0; };
    for(int r=0;r<np;++r) for(size_t i=0;i<s.cls[r].size();++i){ int k=s.cls[r][i]; if(k<0) continue; if(tr||!flagged(r,i)) acc[k]=apply(op,acc[k],in[c][r][i]); }
    for(int r=0;r<np;++r) for(size_t i=0;i<s.cls[r].size();++i){ int k=s.cls[r][i]; if(k<0) continue; if(!tr||!flagged(r,i)) out[c][r][i]=acc[k]; } } }

static const int FTYPE[3]={0,2,4};

static void do_gs_action(Builder&b,bool nb){
  Prog&p=b.p; Gen&g=b.g; int np=b.np; std::vector<int> v; for(int i=0;i<NGS;++i) if(b.G[i].live&&!b.G[i].busy){ if(nb&&p.bank!=1&&(b.G[i].method==0||b.G[i].method==3)) continue; v.push_back(i); }
  if(v.empty()) return; int wslot=-1; if(nb){ for(int i=0;i<NWAIT;++i) if(!b.W[i].live){ wslot=i; break; } if(wslot<0) return; }
  int sl=v[g.below(v.size())]; GsSt&s=b.G[sl];
  std::vector<double> mw(b.pf.mode,b.pf.mode+4); if(!s.fortran||nb) mw[3]=0; if(mw[0]+mw[1]+mw[2]+mw[3]==0) mw[0]=1; int mode=g.weighted(mw); if((!s.fortran||nb)&&mode==3) mode=0;
  int dom,op; if(s.fortran){ dom=FTYPE[g.below(3)]; op=g.below(4);} else { dom=g.below(5); op=g.below(5); }
  int tr=g.chance(b.pf.transpose); int vn=mode==0?1:mode==2&&s.fortran?1+g.below(6):g.chance(0.1)?1+g.below(48):1+g.below(5); { size_t tot=0; for(auto&x:s.id) tot+=x.size(); if(mode!=0&&!(mode==2&&s.fortran)){ if(tot<100&&g.chance(0.02)) vn=100+g.below(900); while(vn>5&&tot*vn>30000) vn/=2; } } if(b.huge) vn=std::min(vn,2); else if(np<=4&&(mode==1||mode==2)&&!(s.fortran&&mode==2)&&g.chance(0.006)){ size_t tot=0; for(auto&x:s.id) tot+=x.size(); if(tot>=40&&tot<=1500) vn=std::min<size_t>(mode==2?1000:6000,(100000+g.below(300000))/tot); } if(mode==3&&g.chance(0.1)) vn=0;
  int bk=0,bi=-1; if(!s.fortran&&!g.chance(b.pf.nulbuf)){ bk=1+g.below(2); if(bk==2){ bi=-1; for(int i=0;i<NBUF;++i){ int j=(i+(int)H(p.ops.size())%NBUF)%NBUF; if(!b.bufbusy[j]){ bi=j; break; } } if(bi<0) bk=1; } }
  std::vector<char> m=b.members(s.groups,s.unique&&false);
  int o=b.add(OP_GS,s.comm,sl,fmt("%s%s%s(slot %d: %s%s%s, %s, %s, transpose=%d%s%s)",s.fortran?"Fortran ":"",nb?"i":"",mode==0?"gs":mode==1?"gs_vec":mode==2?"gs_many":"gs_op_fields",sl,MN[s.method],s.unique?", unique":"",s.fortran?fmt(", handle %d",s.fh).c_str():"",DN[dom],ON[op],tr,mode?fmt(", vn=%d",vn).c_str():"",bk==0?", buf NULL":""));
  SETM(o,m); wop&q=p.ops[o]; q.a[0]=mode; q.a[1]=dom; q.a[2]=op; q.a[3]=tr; q.a[4]=vn; q.a[5]=bk; q.a[6]=nb?wslot:-1; q.a[8]=mode==3?g.below(5):0; if(s.fortran&&tr){ static const int TV[]={1,1,-1,2,4,256,-2147483647-1}; q.a[10]=TV[g.below(7)]; } q.a[9]=bi<0?0:bi;
  uint32_t sd=g.seed(); Vals in(vn),out; std::vector<std::vector<int>> twos(vn,std::vector<int>(s.ncls+1,20));
  for(int c=0;c<vn;++c){ in[c].resize(np); for(int r=0;r<np;++r){ in[c][r].resize(s.id[r].size()); for(size_t i=0;i<s.id[r].size();++i){ int k=s.cls[r].empty()?-1:s.cls[r][i]; in[c][r][i]= b.pf.repro&&dom<2? (LD)(dom==0? (double)(((LD)(H(sd,c,r,i)>>11)+0.5L)/9007199254740992.0L*ldexpl(1,(int)(H(sd,i,r)%20))) : (float)((H(sd,c,r,i)>>40)*1.00001f)) : genval(dom,op,H(sd,c,r,i),k>=0?&twos[c][k]:nullptr); } } }
  bool exact=!s.unique && !b.pf.repro; 
  if(exact) gs_apply(s,np,dom,op,tr,in,out,nullptr);
  for(int r=0;r<np;++r) if(m[r]){ size_t n=s.id[r].size(); int z=DS[dom]; std::vector<char> ib((size_t)vn*n*z),ob((size_t)vn*n*z);
    for(int c=0;c<vn;++c) for(size_t i=0;i<n;++i){ size_t at= mode==1? (i*vn+c)*z : (c*n+i)*z; putv(dom,&ib[at],in[c][r][i]); if(exact) putv(dom,&ob[at],out[c][r][i]); }
    p.rk[o][r].n=n; p.rk[o][r].p[0]=p.keepv(ib);
    if(mode>=2) for(int c=0;c<vn;++c){ if(exact) expect(p,o,r,c,std::vector<char>(ob.begin()+(size_t)c*n*z,ob.begin()+(size_t)(c+1)*n*z),dom); else record(p,o,r,c); }
    else if(exact) expect(p,o,r,0,ob,dom); else record(p,o,r,0); }
  if(s.unique&&!b.pf.repro){ auto cands=s.cands; GsSt cp=s; std::string d=p.opdesc[o];
    p.post.push_back([=](Prog&p){ // every class must agree with a single owner, the same for every operation on this handle
      int z=DS[dom]; std::vector<std::vector<std::pair<int,int>>> mem(cp.ncls); for(int r=0;r<p.np;++r) for(size_t i=0;i<cp.cls[r].size();++i) if(cp.cls[r][i]>=0) mem[cp.cls[r][i]].push_back({r,(int)i});
      std::unordered_map<uint64_t,std::vector<char>*> cache;
      auto outv=[&](int r,int i,int c)->const char*{ auto it=p.got.find(okey(o,r,mode>=2?c:0)); if(it==p.got.end()||it->second.empty()) return nullptr; size_t at= mode==1? ((size_t)i*vn+c)*z : (size_t)i*z; if(at+z>it->second.size()) return nullptr; return it->second.data()+at; };
      for(int k=0;k<cp.ncls;++k){ if(mem[k].empty()||!m[mem[k][0].first]) continue; auto&cs=(*cands)[k]; std::vector<std::pair<int,int>> keep; std::string why;
        std::vector<char> t(z); std::vector<LD> full(vn); for(int c=0;c<vn;++c){ LD a=ident(dom,op); for(auto&e:mem[k]) a=apply(op,a,in[c][e.first][e.second]); full[c]=a; }
        bool none=cs.empty(); std::vector<std::pair<int,int>> tryc=cs; if(none) tryc.push_back({-1,-1});
        for(auto&own:tryc){ bool ok=true; for(int c=0;c<vn&&ok;++c){ LD val= tr?full[c]:(own.first<0?ident(dom,op):in[c][own.first][own.second]);
            for(auto&e:mem[k]){ bool set=!tr||e==own; LD x=set?val:in[c][e.first][e.second]; putv(dom,t.data(),x); const char*q=outv(e.first,e.second,c); if(!q||memcmp(q,t.data(),z)){ ok=false; if(why.empty()) why=fmt("rank %d, element %d, component %d is %s",e.first,e.second,c,q?fmtv(dom,q).c_str():"missing"); break; } } }
          if(ok) keep.push_back(own); }
        if(keep.empty()){ S.violate("wrong-result","%s: no single owner of id %lld explains the results (%s)",d.c_str(),(long long)llabs(cp.id[mem[k][0].first][mem[k][0].second]),why.c_str()); S.viol.op=o; return; }
        if(!none) cs=keep; p.checked++; } }); }
  if(nb){ WaitSt&w=b.W[wslot]; w.live=true; w.gs=sl; w.buf=bk==2?bi:-1; w.mem=m; s.busy++; if(bk==2) b.bufbusy[bi]=true; }
}

static void gs_setup_action(Builder&b){
  Prog&p=b.p; Gen&g=b.g; int np=b.np; int sl=-1; for(int i=0;i<NGS;++i) if(!b.G[i].live){ sl=i; break; } if(sl<0) return; int c=b.pick_comm(false); if(c<0) return;
  auto setup=[&](int sl,int method,const std::vector<std::vector<long long>>*same){
    GsSt s; s.live=true; s.comm=c; s.groups=b.C[c].groups; s.fortran=g.chance(b.pf.fortran); s.unique=s.fortran?0:g.chance(b.pf.unique); s.method=method; bool old=false;
    if(same) s.id=*same; else gen_ids(b,s.groups,s.id,s.unique);
    class_map(s,np); if(s.fortran) s.fh=b.fgs_n++;
    int o=b.add(OP_GS_SETUP,c,sl,fmt("%sgs_setup(slot %d: %s%s)",s.fortran?"Fortran ":"",sl,MN[method],s.unique?", unique":"")); SETM(o,b.members(s.groups,true)); wop&q=p.ops[o]; q.a[0]=s.unique; q.a[1]=method; q.a[2]=g.chance(0.2); q.a[3]=s.fortran; q.a[4]=g.below(2);
    for(int r=0;r<np;++r) if(p.rk[o][r].member){ p.rk[o][r].n=s.id[r].size(); p.rk[o][r].p[0]=p.keepv(s.id[r]); expect(p,o,r,0,raw(s.id[r]),4); }
    if(s.unique){ s.cands=std::make_shared<std::vector<std::vector<std::pair<int,int>>>>(s.ncls); for(int r=0;r<np;++r) for(size_t i=0;i<s.cls[r].size();++i) if(s.cls[r][i]>=0&&s.id[r][i]>0) (*s.cands)[s.cls[r][i]].push_back({r,(int)i}); }
    // Fortran handles are numbered per process: ranks outside this communicator would get out of step
    b.G[sl]=s; };
  std::vector<double> mw(b.pf.method,b.pf.method+4); int method=g.weighted(mw);
  setup(sl,method,nullptr);
  if(b.pf.samehandles&&g.chance(0.8)){ auto id=b.G[sl].id; int base=sl; for(int k=0;k<2;++k){ int s2=-1; for(int i=0;i<NGS;++i) if(!b.G[i].live){ s2=i; break; } if(s2<0) break; setup(s2,g.weighted(mw),&id); } (void)base; }
}

static std::string rowkey(const std::vector<const std::vector<char>*>&arr,const std::vector<unsigned>&sz,size_t i){ std::string s; for(size_t a=0;a<arr.size();++a) s.append(arr[a]->data()+i*sz[a],sz[a]); return s; }
static std::string hex(const std::string&s){ std::string o; char b[4]; for(size_t i=0;i<s.size()&&i<24;++i){ snprintf(b,4,"%02x",(unsigned char)s[i]); o+=b; } return o; }
// compares two multisets of strings; returns description of the difference or ""
static std::string msdiff(std::vector<std::string> e,std::vector<std::string> a,bool sub=false){ std::sort(e.begin(),e.end()); std::sort(a.begin(),a.end()); size_t i=0,j=0; while(i<e.size()||j<a.size()){ if(j==a.size()){ if(sub) return ""; return fmt("an item is missing (%s; %zu expected, %zu delivered)",hex(e[i]).c_str(),e.size(),a.size()); } if(i==e.size()) return fmt("an unexpected item (%s; %zu expected, %zu delivered)",hex(a[j]).c_str(),e.size(),a.size()); if(e[i]==a[j]){ ++i;++j; continue; } if(e[i]<a[j]){ if(sub){ ++i; continue; } return fmt("an item is missing (%s; %zu expected, %zu delivered)",hex(e[i]).c_str(),e.size(),a.size()); } return fmt("an unexpected or altered item (%s; %zu expected, %zu delivered)",hex(a[j]).c_str(),e.size(),a.size()); } return ""; }
static std::string str(const std::vector<char>&v){ return std::string(v.begin(),v.end()); }
#define POSTV(o,r,cls,...) do { S.violate(cls,__VA_ARGS__); S.viol.op=o; S.viol.rank=r; return; } while(0)

static void route_action(Builder&b){
  Prog&p=b.p; Gen&g=b.g; int np=b.np; std::vector<int> v; for(int i=0;i<NCR;++i) if(b.K[i].live&&!b.K[i].fortran) v.push_back(i); if(v.empty()) return; int sl=v[g.below(v.size())]; CrSt&s=b.K[sl];
  auto m=b.members(s.groups,false); int o=b.add(OP_CR_ROUTE,s.comm,sl,fmt("crystal_router(slot %d)",sl)); SETM(o,m); uint32_t sd=g.seed(); int pat=g.below(5); int cap=g.chance(0.15)?200:g.chance(0.5)?30:6, maxlen=g.chance(0.1)?300:8; if(np>12) cap=std::min(cap,30); if(np<=9&&g.chance(0.012)){ if(g.below(2)){ cap=4; maxlen=np<=4?40000:9000; } else { cap=np<=4?4000:1200; maxlen=6; } } /* messages of hundreds of kilobytes */ if(b.huge) cap=70000,maxlen=2; if(np>40) cap=std::min(cap,8);
  auto exp=std::make_shared<std::vector<std::vector<std::string>>>(np);
  for(auto&gr:s.groups){ int gn=gr.size(); for(int k=0;k<gn;++k){ int r=gr[k]; if(!m[r]) continue; int nm=b.huge&&g.chance(0.7)?cap-(int)g.below(500):g.size(cap); std::vector<uint32_t> d; uint32_t seq=0;
      for(int i=0;i<nm;++i){ uint64_t h=H(sd,r,i); uint32_t t; switch(pat){ case 0: t=h%gn; break; case 1: t=0; break; case 2: t=gn-1; break; case 3: t=(k+1)%gn; break; default: t=(h%3)?gn/2:h%gn; } if(t>=(uint32_t)gn) t=gn-1; uint32_t len= (h>>30)%5==0?0:(h>>20)%(maxlen+1);
        d.push_back(t); d.push_back(k); d.push_back(len); std::vector<uint32_t> pay{(uint32_t)k,len}; for(uint32_t j=0;j<len;++j){ uint32_t x=(uint32_t)H(sd,r,i,j+1); if(j==0) x=seq++; d.push_back(x); pay.push_back(x); } (*exp)[gr[t]].push_back(str(raw(pay))); }
      p.rk[o][r].n=d.size(); p.rk[o][r].p[0]=p.keepv(d); record(p,o,r,0); } }
  auto groups=s.groups; std::string ds=p.opdesc[o];
  p.post.push_back([=](Prog&p){ for(auto&gr:groups) for(size_t k=0;k<gr.size();++k){ int r=gr[k]; if(!m[r]) continue; auto&v=p.got[okey(o,r,0)]; const uint32_t*q=(const uint32_t*)v.data(),*e=q+v.size()/4; std::vector<std::string> a; while(q<e){ if(e-q<3||q[2]>(size_t)(e-q-3)) POSTV(o,r,"wrong-result","%s: malformed message list on rank %d",ds.c_str(),r); if(q[0]!=k) POSTV(o,r,"wrong-result","%s: rank %d received a message addressed to %u",ds.c_str(),r,q[0]); std::vector<uint32_t> pay{q[1],q[2]}; pay.insert(pay.end(),q+3,q+3+q[2]); a.push_back(str(raw(pay))); q+=3+q[2]; } std::string d=msdiff((*exp)[r],a); if(!d.empty()) POSTV(o,r,"wrong-result","%s: on rank %d %s",ds.c_str(),r,d.c_str()); p.checked++; } });
}

static void sarray_action(Builder&b){
  Prog&p=b.p; Gen&g=b.g; int np=b.np; std::vector<int> v; for(int i=0;i<NCR;++i) if(b.K[i].live&&!b.K[i].fortran) v.push_back(i); if(v.empty()) return; int sl=v[g.below(v.size())]; CrSt&s=b.K[sl];
  auto m=b.members(s.groups,false); int ext=g.chance(0.4), An=g.chance(0.6)?1:2+g.below(3), set_src=g.below(2), rounds=ext?1:1+(g.chance(0.4)?1:0)+(g.chance(0.2)?1:0), force=g.chance(0.3), fixed=g.chance(0.12); if(fixed) force=1,rounds=1; unsigned off=0; std::vector<unsigned> sz(An);
  int wide=g.chance(0.1); for(int i=0;i<An;++i) sz[i]= i==0? (ext?1+g.below(wide?200:40):4+g.below(wide?200:36)) : g.chance(0.2)?0:1+g.below(24);
  if(!ext) off= g.below(3)==0?0: g.below(2)? (sz[0]-4) : g.below(sz[0]-3);
  int pst= ext? (g.chance(0.5)?4:4+4*g.below(5)) : 0;
  if(!ext) off&=~3u; // the destination is an aligned field of the caller's struct
  if(!ext&&off) sz[0]=std::max(sz[0],off+4); if(!ext) sz[0]=(sz[0]+3)&~3u; 
  int o=b.add(OP_SARRAY,s.comm,sl,fmt("%s(slot %d: %d array(s), row %u bytes%s%s%s)",ext?"sarray_transfer_ext":"sarray_transfer",sl,An,sz[0],ext?"":fmt(", destination at %u",off).c_str(),!ext&&set_src?", set_src":"",fixed?", fixed capacity":rounds>1?", repeated":"")); SETM(o,m);
  wop&q=p.ops[o]; q.a[1]=off; q.a[2]=set_src; q.a[3]=ext; q.a[4]=An; q.a[5]=rounds; q.a[6]=pst; q.a[7]=force|(fixed<<1); for(int i=0;i<An;++i) q.a[8+i]=sz[i]; { int sl=g.below(3); for(int i=0;i<An;++i) q.a[12+i]= sl==0?0:sl==1&&i>0?0:(int)g.size(sl==1?60:9); } // spare room of each array
  uint32_t sd=g.seed(); int pat=g.below(5), cap=g.chance(0.12)?300:g.chance(0.5)?40:7; if(np>12) cap=std::min(cap,40); if(np<=5&&!p.cfg.memcheck&&sz[0]<=64&&g.chance(0.015)) cap=5000; if(b.huge&&sz[0]<=64) cap=70000; if(np>40) cap=std::min(cap,10);
  struct Row { std::string s; uint32_t dst; }; std::vector<std::vector<Row>> cur(np);
  for(auto&gr:s.groups){ int gn=gr.size(); for(int k=0;k<gn;++k){ int r=gr[k]; if(!m[r]) continue; int n=cap==70000&&g.chance(0.7)?cap-(int)g.below(500):g.size(cap); std::vector<std::vector<char>> A(An); std::vector<uint32_t> proc; for(int i=0;i<An;++i) A[i].resize((size_t)n*sz[i]);
      for(int j=0;j<n;++j){ uint64_t h=H(sd,r,j); uint32_t t; switch(pat){ case 0: t=h%gn; break; case 1: t=0; break; case 2: t=gn-1; break; case 3: t=(k+j)%gn; break; default: t=k; } 
        std::string row; for(int i=0;i<An;++i) for(unsigned c=0;c<sz[i];++c) A[i][(size_t)j*sz[i]+c]=(char)(H(sd,r*200003+j,i,c/8)>>(8*(c%8))); if(!ext) memcpy(&A[0][(size_t)j*sz[0]+off],&t,4); proc.push_back(t); for(int i=0;i<An;++i) row.append(&A[i][(size_t)j*sz[i]],sz[i]); cur[r].push_back({row,t}); }
      p.rk[o][r].n=n; for(int i=0;i<An;++i) p.rk[o][r].p[i]=p.keepv(A[i]); p.rk[o][r].p[6]=p.keepv(proc); for(int t=0;t<rounds;++t) for(int i=0;i<An;++i) record(p,o,r,t*4+i); if(fixed) record(p,o,r,100); } }
  auto exp=std::make_shared<std::vector<std::vector<std::vector<std::string>>>>(rounds,std::vector<std::vector<std::string>>(np));
  for(int t=0;t<rounds;++t){ std::vector<std::vector<Row>> nx(np); for(auto&gr:s.groups) for(size_t k=0;k<gr.size();++k) for(auto&row:cur[gr[k]]){ Row w=row; uint32_t f= set_src?(uint32_t)k:row.dst; if(!ext){ memcpy(&w.s[off],&f,4); w.dst=f; } nx[gr[row.dst]].push_back(w); } cur=nx; for(int r=0;r<np;++r) for(auto&w:cur[r]) (*exp)[t][r].push_back(w.s); }
  auto groups=s.groups; std::string ds=p.opdesc[o];
  p.post.push_back([=](Prog&p){ for(int t=0;t<rounds;++t) for(int r=0;r<p.np;++r) if(m[r]){ std::vector<const std::vector<char>*> ar; size_t n=(*exp)[t][r].size(); bool bad=false; for(int i=0;i<An;++i){ auto&x=p.got[okey(o,r,t*4+i)]; ar.push_back(&x); if(sz[i]&&x.size()%sz[i]) bad=true; }
      size_t k=ar[0]->size()/sz[0]; for(int i=0;i<An;++i) if(ar[i]->size()!=k*sz[i]) bad=true; if(bad) POSTV(o,r,"wrong-result","%s: arrays of inconsistent length on rank %d",ds.c_str(),r); std::vector<std::string> a; for(size_t i=0;i<k;++i) a.push_back(rowkey(ar,sz,i)); if(fixed){ auto&c=p.got[okey(o,r,100)]; unsigned c2[2]={0,0}; if(c.size()==8) memcpy(c2,c.data(),8); if(c2[0]!=n) POSTV(o,r,"wrong-result","%s: rank %d reports %u received rows, %zu were sent to it",ds.c_str(),r,c2[0],n); if(k!=std::min<size_t>(n,c2[1])) POSTV(o,r,"wrong-result","%s: rank %d keeps %zu of %zu rows with room for %u",ds.c_str(),r,k,n,c2[1]); }
      std::string d=msdiff((*exp)[t][r],a,fixed); if(!d.empty()) POSTV(o,r,"wrong-result","%s: transfer %d, on rank %d %s",ds.c_str(),t+1,r,d.c_str()); p.checked++; } });
}

static void ftuple_action(Builder&b){
  Prog&p=b.p; Gen&g=b.g; int np=b.np; std::vector<int> v; for(int i=0;i<NCR;++i) if(b.K[i].live&&b.K[i].fortran) v.push_back(i); if(v.empty()) return; int sl=v[g.below(v.size())]; CrSt&s=b.K[sl];
  auto m=b.members(s.groups,false); int it=g.chance(0.4); int mi=1+g.below(4), ml=it?0:g.below(3), md=it?0:g.below(3); if(g.chance(0.12)){ mi=1+g.below(14); if(!it){ ml=g.below(8); md=g.below(8); } } int key=1+g.below(mi); int over=g.chance(b.pf.overflow); int sort=g.chance(0.4);
  uint32_t sd=g.seed(); int pat=g.below(4), cap=g.chance(0.12)?200:g.chance(0.5)?30:6; if(np>12) cap=std::min(cap,30); if(np<=4&&g.chance(0.012)) cap=4000; if(b.huge) cap=70000,mi=std::min(mi,3),key=std::min(key,mi),ml&=1,md&=1; if(np>40) cap=std::min(cap,10);
  int nk=1+g.below(2), kk[4]; for(int z=0;z<4;++z) kk[z]=1+g.below(mi+ml); if(g.chance(0.15)) nk=3+g.below(2);
  struct Row { std::vector<int> i; std::vector<long long> l; std::vector<double> d; }; std::vector<std::vector<Row>> cur(np);
  int o=b.add(it?OP_F_ITUPLE:OP_F_TUPLE,s.comm,sl,""); SETM(o,m);
  std::vector<std::vector<std::string>> exp(np),exp0(np); std::vector<int> n0(np,0),mx(np,0);
  auto ser=[](const Row&w){ std::string x; x.append((const char*)w.i.data(),w.i.size()*4); x.append((const char*)w.l.data(),w.l.size()*8); x.append((const char*)w.d.data(),w.d.size()*8); return x; };
  for(auto&gr:s.groups){ int gn=gr.size(); for(int k=0;k<gn;++k){ int r=gr[k]; if(!m[r]) continue; int n=cap==70000&&g.chance(0.7)?cap-(int)g.below(500):g.size(cap); n0[r]=n; std::vector<int> vi; std::vector<long long> vl; std::vector<double> vd;
      for(int j=0;j<n;++j){ Row w; uint64_t h=H(sd,r,j); int t; switch(pat){ case 0: t=h%gn; break; case 1: t=0; break; case 2: t=(k+1)%gn; break; default: t=(h%4)?gn-1:h%gn; } if(t>=gn)t=gn-1; for(int c=0;c<mi;++c) w.i.push_back(c==key-1?t:(int)(H(sd,r,j,c)%((h&64)?7:2000000000))); for(int c=0;c<ml;++c) w.l.push_back((long long)(H(sd,r,j,c+50)>>((h&128)?62:2))); for(int c=0;c<md;++c) w.d.push_back((double)(int64_t)H(sd,r,j,c+90));
        vi.insert(vi.end(),w.i.begin(),w.i.end()); vl.insert(vl.end(),w.l.begin(),w.l.end()); vd.insert(vd.end(),w.d.begin(),w.d.end()); Row z=w; z.i[key-1]=k; exp[gr[t]].push_back(ser(z)); exp0[r].push_back(ser(w)); Row back=w; }
      wrk&kk=p.rk[o][r]; kk.n=n; kk.p[0]=p.keepv(vi); kk.p[1]=p.keepv(vl); kk.p[2]=p.keepv(vd); } }
  bool any=false; for(int r=0;r<np;++r) if(m[r]){ int need=exp[r].size(); int lo=n0[r]; int mxv=std::max(lo,need); if(over&&need>lo&&g.chance(0.6)){ mxv=lo+g.below(need-lo); } else if(g.chance(0.5)) mxv+=g.below(4); mx[r]=mxv; p.rk[o][r].n2=mxv; if(need>mxv) any=true; }
  int rounds=any?1:1+(g.chance(0.4)?1:0); // second round returns the columns to their sources (vi(key) holds the source)
  wop&q=p.ops[o]; q.a[0]=mi; q.a[1]=ml; q.a[2]=md; q.a[3]=key; q.a[4]=sort; q.a[5]=rounds; q.a[6]=nk; q.a[9]=!p.cfg.memcheck; for(int z=0;z<4;++z) q.a[10+z]=kk[z]; std::array<int,4> keyv{kk[0],kk[1],kk[2],kk[3]};
  p.opdesc[o]=fmt("%s(handle %d: mi=%d ml=%d md=%d key=%d%s%s%s)",it?"crystal_ituple_transfer":"crystal_tuple_transfer",s.fh,mi,ml,md,key,any?", beyond capacity":"",sort?", sorted":"",rounds>1?", there and back":"");
  for(int r=0;r<np;++r) if(m[r]) for(int t=0;t<rounds;++t) for(int w=0;w<4;++w) record(p,o,r,t*8+w);
  std::string ds=p.opdesc[o]; std::vector<std::vector<int>> groups=s.groups;
  // after the second round rank r holds its own columns with vi(key) = the rank they visited, which is their original destination
  p.post.push_back([=](Prog&p){ for(int t=0;t<rounds;++t) for(int r=0;r<p.np;++r) if(m[r]){ auto&e= t==0?exp[r]:exp0[r]; auto&vn=p.got[okey(o,r,t*8+3)]; auto&vi=p.got[okey(o,r,t*8)]; auto&vl=p.got[okey(o,r,t*8+1)]; auto&vd=p.got[okey(o,r,t*8+2)]; int n; if(vn.size()!=4) POSTV(o,r,"wrong-result","%s: no column count on rank %d",ds.c_str(),r); memcpy(&n,vn.data(),4);
      if(n!=(int)e.size()) POSTV(o,r,"wrong-result","%s: rank %d reports %d received columns, %zu were sent to it",ds.c_str(),r,n,e.size()); size_t k=std::min(n,mx[r]); std::vector<std::string> a; std::vector<std::vector<long long>> keys;
      for(size_t j=0;j<k;++j){ std::string x; x.append(vi.data()+j*mi*4,mi*4); x.append(vl.data()+j*ml*8,ml*8); x.append(vd.data()+j*md*8,md*8); a.push_back(x); std::vector<long long> kv; for(int c=0;c<nk;++c){ int kk=keyv[c]; if(kk<=mi){ int y; memcpy(&y,vi.data()+(j*mi+kk-1)*4,4); kv.push_back(y);} else { long long y; memcpy(&y,vl.data()+(j*ml+kk-1-mi)*8,8); kv.push_back(y);} } keys.push_back(kv); }
      std::string d=msdiff(e,a,n>mx[r]); if(!d.empty()) POSTV(o,r,"wrong-result","%s: round %d, on rank %d %s",ds.c_str(),t+1,r,d.c_str()); if(sort) for(size_t j=1;j<keys.size();++j) if(keys[j]<keys[j-1]) POSTV(o,r,"wrong-result","%s: columns not in ascending key order on rank %d",ds.c_str(),r); p.checked++; } });
}

static void unique_action(Builder&b){
  Prog&p=b.p; Gen&g=b.g; int np=b.np; int c=b.pick_comm(false); if(c<0) return; GsSt s; s.groups=b.C[c].groups; gen_ids(b,s.groups,s.id,false); class_map(s,np); int f=g.chance(b.pf.fortran); auto m=b.members(s.groups,false);
  int o=b.add(OP_GS_UNIQUE,c,0,fmt("%sgs_unique(comm %d)",f?"Fortran ":"",c)); SETM(o,m); p.ops[o].a[0]=f; for(int r=0;r<np;++r) if(m[r]){ p.rk[o][r].n=s.id[r].size(); p.rk[o][r].p[0]=p.keepv(s.id[r]); record(p,o,r,0); }
  std::string ds=p.opdesc[o];
  p.post.push_back([=](Prog&p){ std::vector<int> nun(s.ncls,0),orig(s.ncls,0); std::vector<long long> idv(s.ncls,0); std::vector<char> in(s.ncls,0); 
    for(int r=0;r<p.np;++r) if(m[r]){ auto&v=p.got[okey(o,r,0)]; const long long*q=(const long long*)v.data(); if(v.size()!=s.id[r].size()*8) POSTV(o,r,"wrong-result","%s: no result on rank %d",ds.c_str(),r);
      for(size_t i=0;i<s.id[r].size();++i){ long long a=s.id[r][i],w=q[i]; if(w!=a&&w!=-a) POSTV(o,r,"wrong-result","%s: rank %d, entry %zu: id %lld became %lld",ds.c_str(),r,i,a,w); int k=s.cls[r][i]; if(k<0) continue; in[k]=1; idv[k]=llabs(a); if(a>0) orig[k]++; if(w>0){ nun[k]++; if(a<0) POSTV(o,r,"wrong-result","%s: rank %d, entry %zu: flagged id %lld became unflagged",ds.c_str(),r,i,a); } } }
    for(int k=0;k<s.ncls;++k) if(in[k]){ p.checked++; if(orig[k]>0&&nun[k]!=1) POSTV(o,-1,"wrong-result","%s: id %lld is left with %d unflagged entries (of %d)",ds.c_str(),idv[k],nun[k],orig[k]); } });
  // use the flagged ids: exactly one owner each, so a transpose=0 gs of the owner's value is a broadcast (checked through setup with the returned ids is left to the unique=1 handles)
}

static void reduce_like(Builder&b,int kind){ // allreduce, scan, reduce, dot, iallreduce
  Prog&p=b.p; Gen&g=b.g; int np=b.np; int c=b.pick_comm(true); if(c<0) return; auto&groups=b.C[c].groups; int dom=g.below(5), op=g.below(5); int vn= g.chance(0.1)?0:1+g.size(b.huge||(np<=4&&g.chance(0.004))?5000:g.chance(0.2)?100:6); uint32_t sd=g.seed(); int slot=-1;
  if(kind==A_IAR){ for(int i=0;i<NIAR;++i) if(!b.IA[i].live){ slot=i; break; } if(slot<0||p.bank!=1) return; }
  auto m=b.members(groups,false); static std::map<int,int> ty={{A_ALLRED,OP_ALLREDUCE},{A_SCAN,OP_SCAN},{A_REDUCE,OP_REDUCE},{A_DOT,OP_DOT},{A_IAR,OP_IALLREDUCE}}; if(kind==A_DOT) dom=0,op=0; 
  int o=b.add(ty[kind],c,slot<0?0:slot,fmt("%s(comm %d, %s, %s, vn=%d)",kind==A_ALLRED?"comm_allreduce":kind==A_SCAN?"comm_scan":kind==A_REDUCE?"comm_reduce":kind==A_DOT?"comm_dot":"comm_iallreduce",c,DN[dom],ON[op],vn)); SETM(o,m); p.ops[o].a[0]=dom; p.ops[o].a[1]=op; int z=DS[dom];
  for(auto&gr:groups){ int gn=gr.size(); if(!m[gr[0]]) continue; std::vector<std::vector<LD>> in(gn); int tw=20; std::vector<int> twc(vn+1,20);
    for(int k=0;k<gn;++k){ int n=vn; if(kind==A_REDUCE||kind==A_DOT) n= g.chance(0.2)?0:g.size(40); in[k].resize(n); for(int i=0;i<n;++i) in[k][i]= kind==A_DOT? (LD)((long)(H(sd,gr[k],i)%2001)-1000) : genval(dom,op,H(sd,gr[k],i),kind==A_REDUCE?&tw:&twc[i]); std::vector<char> ib((size_t)n*z); for(int i=0;i<n;++i) putv(dom,&ib[(size_t)i*z],in[k][i]); wrk&w=p.rk[o][gr[k]]; w.n=n; w.p[0]=p.keepv(ib); }
    if(kind==A_DOT){ LD s=0; for(int k=0;k<gn;++k){ std::vector<double> w; for(size_t i=0;i<in[k].size();++i){ double x=(double)((long)(H(sd,gr[k],i,3)%2001)-1000); w.push_back(x); s+=in[k][i]*x; } p.rk[o][gr[k]].p[1]=p.keepv(w); } for(int r:gr) expect(p,o,r,0,raw(std::vector<double>{(double)s}),0); continue; }
    if(kind==A_REDUCE){ LD a=ident(dom,op); for(auto&v:in) for(LD x:v) a=apply(op,a,x); std::vector<char> e(z); putv(dom,e.data(),a); for(int r:gr) expect(p,o,r,0,e,dom); continue; }
    std::vector<LD> acc(vn,ident(dom,op)),tot(vn,ident(dom,op)); for(auto&v:in) for(int i=0;i<vn;++i) tot[i]=apply(op,tot[i],v[i]);
    for(int k=0;k<gn;++k){ int r=gr[k]; if(kind==A_SCAN){ std::vector<char> e((size_t)2*vn*z); for(int i=0;i<vn;++i){ putv(dom,&e[(size_t)i*z],acc[i]); putv(dom,&e[(size_t)(vn+i)*z],tot[i]); } expect(p,o,r,0,e,dom); std::vector<char> ib((size_t)vn*z); for(int i=0;i<vn;++i) putv(dom,&ib[(size_t)i*z],in[k][i]); expect(p,o,r,1,ib,dom); for(int i=0;i<vn;++i) acc[i]=apply(op,acc[i],in[k][i]); }
      else { std::vector<char> e((size_t)vn*z); for(int i=0;i<vn;++i) putv(dom,&e[(size_t)i*z],tot[i]); expect(p,o,r,0,e,dom); } } }
  if(kind==A_IAR){ b.IA[slot].live=true; b.IA[slot].comm=c; b.IA[slot].mem=m; b.C[c].busy++; }
}

void Builder::act(int a){
  Prog&q=p;
  switch(a){
    case A_NOP: break;
    case A_SPLIT: { if(pf.w[A_SPLIT]<=0) return; int c=pick_comm(false),s=-1; for(int i=1;i<NCOMM;++i) if(!C[i].live){ s=i; break; } if(c<0||s<0) return; int o=add(OP_COMM_SPLIT,c,s,fmt("comm_split(comm %d -> %d)",c,s)); SETM(o,members(C[c].groups,true)); int nc=1+g.below(3),kp=g.below(3),pat=g.below(2); uint32_t sd=g.seed(); static const int CM[]={1,1,1,7,1000,700000000}; int cm=CM[g.below(6)]; C[s]=CommSt(); C[s].live=true;
      for(auto&gr:C[c].groups){ std::map<int,std::vector<std::pair<int,int>>> cl; for(size_t k=0;k<gr.size();++k){ int r=gr[k]; int col= pat==0?(int)(k*nc/gr.size()):(int)(H(sd,r)%nc); int key= kp==0?0:kp==1?-(int)k:(int)(H(sd,r,3)%5); p.rk[o][r].n=col*cm; p.rk[o][r].n2=key; cl[col].push_back({key,r}); }
        for(auto&kv:cl){ auto v=kv.second; std::stable_sort(v.begin(),v.end(),[](auto&x,auto&y){return x.first<y.first;}); std::vector<int> ng; for(auto&x:v) ng.push_back(x.second); for(size_t k=0;k<ng.size();++k) expect(p,o,ng[k],0,raw(std::vector<unsigned>{(unsigned)k,(unsigned)ng.size()}),2); C[s].groups.push_back(ng); } } } break;
    case A_DUP: { int c=pick_comm(false),s=-1; for(int i=1;i<NCOMM;++i) if(!C[i].live){ s=i; break; } if(c<0||s<0) return; int o=add(OP_COMM_DUP,c,s,fmt("comm_dup(comm %d -> %d)",c,s)); SETM(o,members(C[c].groups,true)); C[s]=CommSt(); C[s].live=true; C[s].groups=C[c].groups; for(auto&gr:C[s].groups) for(size_t k=0;k<gr.size();++k) expect(p,o,gr[k],0,raw(std::vector<unsigned>{(unsigned)k,(unsigned)gr.size()}),2); } break;
    case A_CFREE: { std::vector<int> v; for(int i=1;i<NCOMM;++i) if(C[i].live&&!C[i].busy) v.push_back(i); if(v.empty()) return; int c=v[g.below(v.size())]; int o=add(OP_COMM_FREE,c,0,fmt("comm_free(comm %d)",c)); SETM(o,members(C[c].groups,true)); C[c].live=false; } break;
    case A_BARRIER: { int c=pick_comm(false); if(c<0) return; int o=add(OP_BARRIER,c,0,fmt("comm_barrier(comm %d)",c)); auto m=members(C[c].groups,false); SETM(o,m); } break;
    case A_ALLRED: case A_SCAN: case A_REDUCE: case A_DOT: case A_IAR: reduce_like(*this,a); break;
    case A_IARWAIT: { std::vector<int> v; for(int i=0;i<NIAR;++i) if(IA[i].live) v.push_back(i); if(v.empty()) return; int i=v[g.below(v.size())]; int o=add(OP_IAR_WAIT,IA[i].comm,i,fmt("comm_wait(iallreduce %d)",i)); SETM(o,IA[i].mem); IA[i].live=false; C[IA[i].comm].busy--; } break;
    case A_BCAST: case A_GATHER: { int c=pick_comm(false); if(c<0) return; auto m=members(C[c].groups,false); int n=g.size(huge?100000:g.chance(0.2)?5000:40); if(np>40) n=std::min(n,500); uint32_t sd=g.seed(); size_t mn=1000; for(auto&gr:C[c].groups) mn=std::min(mn,gr.size()); int root=g.below(mn); int o=add(a==A_BCAST?OP_BCAST:OP_GATHER,c,0,fmt("%s(comm %d, %d bytes, root %d)",a==A_BCAST?"comm_bcast":"comm_gather",c,n,root)); SETM(o,m); p.ops[o].a[0]=root;
      for(auto&gr:C[c].groups) if(m[gr[0]]){ std::vector<char> all; for(size_t k=0;k<gr.size();++k){ std::vector<char> v(n); for(int i=0;i<n;++i) v[i]=(char)H(sd,gr[k],i/8)>>(i%8); p.rk[o][gr[k]].n=n; p.rk[o][gr[k]].p[0]=p.keepv(v); all.insert(all.end(),v.begin(),v.end()); } if(a==A_BCAST){ std::vector<char> e(all.begin()+(size_t)root*n,all.begin()+(size_t)(root+1)*n); for(int r:gr) expect(p,o,r,0,e); } else expect(p,o,gr[root],0,all); } } break;
    case A_SENDRECV: { if(p.bank==2) return; int c=pick_comm(true); if(c<0) return; auto m=members(C[c].groups,false); int cap=huge?100000:g.chance(0.2)?3000:40; uint32_t sd=g.seed(); int sh=g.below(np)+0, tag=g.below(9), blk=g.chance(0.4); int o=add(OP_SENDRECV,c,0,fmt("comm_irecv/isend/wait ring(comm %d, shift %d, tag %d)",c,sh,tag)); SETM(o,m); p.ops[o].a[0]=sh; p.ops[o].a[1]=tag; p.ops[o].a[2]=blk;
      for(auto&gr:C[c].groups) if(m[gr[0]]){ int gn=gr.size(); if(blk&&gn%2) { } std::vector<std::vector<char>> d(gn); for(int k=0;k<gn;++k){ d[k].resize(H(sd,gr[k])%(cap+1)); for(size_t i=0;i<d[k].size();++i) d[k][i]=(char)H(sd,gr[k],i+1); } for(int k=0;k<gn;++k){ int fr=(k+gn-sh%gn)%gn; wrk&w=p.rk[o][gr[k]]; w.n=d[k].size(); w.p[0]=p.keepv(d[k]); w.n3=d[fr].size(); expect(p,o,gr[k],0,d[fr]); } } } break;
    case A_GSSETUP: gs_setup_action(*this); break;
    case A_GS: do_gs_action(*this,false); break;
    case A_IGS: do_gs_action(*this,true); break;
    case A_WAIT: { std::vector<int> v; for(int i=0;i<NWAIT;++i) if(W[i].live) v.push_back(i); if(v.empty()) return; int i=v[g.below(v.size())]; int o=add(OP_GS_WAIT,G[W[i].gs].comm,i,fmt("gs_wait(request %d, gs slot %d)",i,W[i].gs)); SETM(o,W[i].mem); W[i].live=false; G[W[i].gs].busy--; if(W[i].buf>=0) bufbusy[W[i].buf]=false; } break;
    case A_GSFREE: { std::vector<int> v; for(int i=0;i<NGS;++i) if(G[i].live&&!G[i].busy) v.push_back(i); if(v.empty()) return; int i=v[g.below(v.size())]; int o=add(OP_GS_FREE,G[i].comm,i,fmt("%sgs_free(slot %d)",G[i].fortran?"Fortran ":"",i)); SETM(o,members(G[i].groups,true)); if(G[i].fortran) freed_gs.push_back(G[i].fh); G[i]=GsSt(); } break;
    case A_UNIQUE: unique_action(*this); break;
    case A_PWDATA: { std::vector<int> v; for(int i=0;i<NGS;++i) if(G[i].live&&G[i].method==1) v.push_back(i); if(v.empty()) return; int i=v[g.below(v.size())]; int o=add(OP_PW_DATA,G[i].comm,i,fmt("pw_data(slot %d)",i)); SETM(o,members(G[i].groups,false)); } break;
    case A_CRINIT: { int c=pick_comm(false),s=-1; for(int i=0;i<NCR;++i) if(!K[i].live){ s=i; break; } if(c<0||s<0) return; bool wantf= pf.w[A_FTUPLE]>0&&(pf.w[A_ROUTE]+pf.w[A_SARRAY]==0||g.chance(0.4)); int o=add(OP_CR_INIT,c,s,fmt("%s(slot %d, comm %d)",wantf?"Fortran crystal_setup":"crystal_init",s,c)); SETM(o,members(C[c].groups,true)); p.ops[o].a[3]=wantf; K[s]=CrSt(); K[s].live=true; K[s].comm=c; K[s].groups=C[c].groups; K[s].fortran=wantf; if(wantf) K[s].fh=fcr_n++; } break;
    case A_CRFREE: { std::vector<int> v; for(int i=0;i<NCR;++i) if(K[i].live) v.push_back(i); if(v.empty()) return; int i=v[g.below(v.size())]; int o=add(OP_CR_FREE,K[i].comm,i,fmt("%scrystal_free(slot %d)",K[i].fortran?"Fortran ":"",i)); SETM(o,members(K[i].groups,true)); if(K[i].fortran) freed_cr.push_back(K[i].fh); K[i]=CrSt(); } break;
    case A_ROUTE: route_action(*this); break;
    case A_SARRAY: sarray_action(*this); break;
    case A_FTUPLE: ftuple_action(*this); break;
    case A_NOISE: { if(p.bank==2) return; int s=-1; for(int i=0;i<NNOISE;++i) if(!N[i].live){ s=i; break; } std::vector<int> v; for(int i=0;i<NCOMM;++i) if(C[i].live&&!C[i].busy) v.push_back(i); if(s<0||v.empty()) return; int c=v[g.below(v.size())]; Nz&z=N[s]; z.live=true; z.comm=c; z.k=1+g.below(3); z.len=4+4*g.below(5); C[c].busy++; int o=add(OP_NOISE_POST,c,s,fmt("application posts %d wildcard receives on comm %d",z.k,c)); SETM(o,members(C[c].groups,true)); p.ops[o].a[0]=z.k; p.ops[o].a[1]=z.len; if(g.chance(0.5)) goto noise_send; return; noise_send: (void)0; } 
      // fall through: send now
    case A_NOISEEND: { int s=-1; for(int i=0;i<NNOISE;++i) if(N[i].live&&N[i].k>0){ s=i; break; } if(s<0){ for(int i=0;i<NNOISE;++i) if(N[i].live&&N[i].k<0){ int o=add(OP_NOISE_WAIT,N[i].comm,i,fmt("application waits for its messages on comm %d",N[i].comm)); SETM(o,members(C[N[i].comm].groups,true)); for(int r=0;r<np;++r) if(p.rk[o][r].member) record(p,o,r,0); C[N[i].comm].busy--; N[i].live=false; 
            int k=-N[i].k,len=N[i].len; int so=-1; for(int j=o;j>=0;--j) if(p.ops[j].type==OP_NOISE_SEND&&p.ops[j].slot==i){ so=j; break; } auto exp=std::make_shared<std::vector<std::vector<std::string>>>(np); for(auto&gr:C[N[i].comm].groups) for(size_t x=0;x<gr.size();++x){ wrk&w=p.rk[so][gr[x]]; for(int j=0;j<k;++j) (*exp)[gr[((const int*)w.p[1])[j]]].push_back(std::string((const char*)w.p[0]+(size_t)j*len,len)); }
            p.post.push_back([=](Prog&p){ for(int r=0;r<p.np;++r){ auto it=p.got.find(okey(o,r,0)); if(it==p.got.end()) continue; std::vector<std::string> a; for(int j=0;j<k;++j) a.push_back(std::string(it->second.data()+(size_t)j*len,len)); std::string d=msdiff((*exp)[r],a); if(!d.empty()) POSTV(o,r,"wrong-result","the application's own messages on comm are disturbed: on rank %d %s",r,d.c_str()); p.checked++; } }); return; } return; }
        Nz&z=N[s]; int o=add(OP_NOISE_SEND,z.comm,s,fmt("application sends %d messages per rank on comm %d",z.k,z.comm)); SETM(o,members(C[z.comm].groups,true)); p.ops[o].a[0]=z.k; uint32_t sd=g.seed(); for(auto&gr:C[z.comm].groups) for(size_t x=0;x<gr.size();++x){ std::vector<int> to,tag; std::vector<char> d; for(int j=0;j<z.k;++j){ to.push_back((int)((x+H(sd,j)%gr.size())%gr.size())); tag.push_back((int)(H(sd,j,x)%(np+6))); for(int c=0;c<z.len;++c) d.push_back((char)H(sd,x,j,c)); } wrk&w=p.rk[o][gr[x]]; w.p[0]=p.keepv(d); w.p[1]=p.keepv(to); w.p[2]=p.keepv(tag); } z.k=-z.k; } break;
    case A_BURST: { std::vector<int> kd; bool gsf=pf.w[A_GSSETUP]>0&&pf.fortran>0; if(gsf) kd.push_back(0); if(pf.w[A_IGS]>0) kd.push_back(1); if(pf.w[A_FTUPLE]>0) kd.push_back(2); if(pf.w[A_FPSETUP]>0) kd.push_back(3); if(pf.w[A_DUP]>0&&pf.w[A_SPLIT]>0&&(kd.empty()||g.chance(0.4))) kd.push_back(4); if(kd.empty()) return; int c=pick_comm(false); if(c<0) return; auto m=members(C[c].groups,false); int k=kd[g.below(kd.size())];
      size_t gn=1; for(auto&gr:C[c].groups) gn=std::max(gn,gr.size()); bool few=g.chance(0.4); int mx= k==0?(int)std::min<size_t>(200,600/gn):k==1?(few?2:(int)std::min<size_t>(70,280/gn)):k==2?(int)std::min<size_t>(150,500/gn):k==3?(int)std::min<size_t>(24,70/gn):(int)std::min<size_t>(30,200/gn);
      int n=1+g.size(std::max(1,mx-1)), cyc= k==1?(few?1+g.size(200/(int)gn):1+g.below(5)):1+g.below(3); static const char*const BN[]={"Fortran gather-scatter handles","nonblocking operations","Fortran routers","Fortran point searches","communicators"};
      int o=add(OP_BURST,c,0,fmt("%d %s at once, %d rounds (comm %d)",n,BN[k],cyc,c)); SETM(o,m); wop&q=p.ops[o]; q.a[0]=k; q.a[1]=n; q.a[2]=(int)g.seed(); q.a[3]=cyc; q.a[4]=p.bank==1&&pf.method[3]>0?3:2; for(int r=0;r<np;++r) if(m[r]) record(p,o,r,0); int cnt=n*cyc; p.post.push_back([=](Prog&p){ p.checked+=cnt; }); } break;
    case A_YIELD: { int o=add(OP_YIELD,0,0,"ranks drift apart"); uint32_t sd=g.seed(); int mx=1+g.below(30); for(int r=0;r<np;++r){ p.rk[o][r].member=1; p.rk[o][r].n= H(sd,r)%3==0? H(sd,r,1)%(mx+1):0; } } break;
    case A_FPSETUP: fp_setup(); break; case A_FPFIND: fp_find(); break; case A_FPEVAL: fp_eval(); break;
    case A_FPFREE: { std::vector<int> v; for(int i=0;i<NFP;++i) if(FP[i]) v.push_back(i); if(v.empty()) return; fp_free(v[g.below(v.size())]); } break;
  }
}
void Builder::drain(){ // complete and release everything still open
  for(;;){ bool any=false; for(int i=0;i<NWAIT;++i) if(W[i].live) any=true; if(!any) break; act(A_WAIT); }
  for(;;){ bool any=false; for(int i=0;i<NIAR;++i) if(IA[i].live) any=true; if(!any) break; act(A_IARWAIT); }
  for(;;){ bool any=false; for(int i=0;i<NNOISE;++i) if(N[i].live) any=true; if(!any) break; act(A_NOISEEND); }
  for(int i=0;i<NFP;++i) if(FP[i]) fp_free(i);
  for(;;){ bool any=false; for(int i=0;i<NGS;++i) if(G[i].live) any=true; if(!any) break; act(A_GSFREE); }
  for(;;){ bool any=false; for(int i=0;i<NCR;++i) if(K[i].live) any=true; if(!any) break; act(A_CRFREE); }
  for(;;){ bool any=false; for(int i=1;i<NCOMM;++i) if(C[i].live) any=true; if(!any) break; act(A_CFREE); }
}
static void misuse_action(Builder&b);
void gen_program(Prog&p,Tape&Wt,uint64_t seed,const Profile&pf){
  Builder b(p,Wt,seed,pf); Gen&g=b.g; 
  static const std::vector<int> NP={2,1,3,4,5,6,7,8,9,11,13,16,17}; static const std::vector<double> NW={9,4,9,9,7,6,5,4,2.5,1.2,1,0.8,0.6};
  static const std::vector<int> BN={20,24,31,32,33,40};
  static const std::vector<int> BB={48,63,64,65,100,127,128,129,130};
  if(g.chance(pf.bignp)) p.np=g.chance(pf.samehandles?0.01:0.06)?BB[g.below(BB.size())]:BN[g.below(BN.size())]; else p.np=NP[g.weighted(NW)];
  b.np=p.np; p.bank= pf.bank>=0?pf.bank:(int)g.below(p.np==1&&have_serial?3:2); p.cfg.np=p.np; p.cfg.memcheck=pf.memcheck; p.cfg.inflight=pf.inflight; p.cfg.clock_faults=pf.clock; p.cfg.short_writes=pf.shortw; p.repro=pf.repro; p.cfg.tolerate_exit=pf.alloc||pf.misuse;
  p.cfg.junk_seed=g.seed(); p.cfg.strategy=-1; if(p.np>40) p.cfg.max_steps*=8; p.leak_prof=pf.leak; p.alloc_prof=pf.alloc;
  b.C[0].live=true; b.C[0].groups.resize(1); for(int i=0;i<p.np;++i) b.C[0].groups[0].push_back(i);
  if(pf.alloc){ p.cfg.fail_rank=g.below(p.np); static const std::vector<double> w={2,3,3,1}; int z=g.weighted(w); p.cfg.fail_at= z==0?g.below(8):z==1?g.below(40):z==2?g.below(200):g.below(1200); p.cfg.fail_sticky=g.chance(0.3); }
  std::vector<double> w(pf.w,pf.w+A_N); w[A_NOP]=0.3; int n=pf.minops+g.below(pf.maxops-pf.minops+1); if(p.np>12) n=std::min(n,pf.minops+6); if(p.np>40) n=std::min(n,pf.minops+2);
  if(p.np<=4&&g.chance(pf.huge)){ b.huge=true; if(p.np==4||(pf.samehandles&&g.chance(0.4))){ p.np=b.np=p.cfg.np=3; if(p.cfg.fail_rank>2) p.cfg.fail_rank=2; b.C[0].groups[0]={0,1,2}; } n=std::min(n,2+(int)g.below(3)); }
  if(pf.giant){ p.np=b.np=p.cfg.np=3; b.C[0].groups[0]={0,1,2}; p.cfg.giant=true; }
  // a meaningful start: something to operate on
  auto prime=[&](){ if(pf.w[A_SPLIT]>0&&p.np>1&&g.chance(0.35)) b.act(A_SPLIT); if(pf.w[A_GSSETUP]>0) b.act(A_GSSETUP); if(pf.w[A_CRINIT]>0) b.act(A_CRINIT); if(pf.w[A_FPSETUP]>0) b.act(A_FPSETUP); };
  if(pf.leak){ // cycles of the same operations; what is alive after each must not grow
    size_t from=0; int cycles=3; prime(); for(int i=0;i<n;++i) b.act(g.weighted(w)); b.drain(); size_t end=p.ops.size(); int mk=b.add(OP_MARK,0,0,"count what is alive"); for(int r=0;r<p.np;++r) p.rk[mk][r].member=1;
    // replicate the cycle verbatim (outputs of the copies are not compared again)
    for(int c=1;c<cycles;++c) for(size_t i=from;i<=end;++i){ p.ops.push_back(p.ops[i]); p.rk.push_back(p.rk[i]); p.opdesc.push_back(p.opdesc[i]); auto&o=p.ops.back(); if(o.type==OP_MARK) o.a[0]=c; for(int r=0;r<p.np;++r){ auto it=p.before.find(okey(i,r,0)); if(it!=p.before.end()){ (void)0; } } }
    p.leak_warm=1;
  } else { prime(); for(int i=0;i<n;++i) b.act(g.weighted(w)); if(pf.misuse) misuse_action(b); else b.drain(); }
  for(int t=0;t<0;++t){}
}

static void misuse_action(Builder&b){
  Prog&p=b.p; Gen&g=b.g; int np=b.np; static const std::vector<int> kinds={0,1,2,26,3,4,5,6,7,14,15,23,8,9,10,11,12,13,20,21,22,16,17,18,24,25,19};
  int k=kinds[g.below(kinds.size())]; int comm=0, slot=0, a1=0,a2=0; std::string text; 
  int hk=0; auto badhandle=[&](int kind)->int{ hk=kind; a2=g.below(100); return g.below(4); }; // the rank picks: freed, negative, beyond any issued, next
  if(k==0||k==1||k==2||k==26){ a1=(int)g.below(3); comm=b.pick_comm(false); if(comm<0) comm=0; text="passed P="; if(a1==2) a1=-(int)g.below(2)-2; /* np+1+a1: too many or too few */ }
  else if((k>=3&&k<=7)||k==14||k==15||k==23){ a1=badhandle(1); text="invalid handle"; }
  else if(k>=8&&k<=11){ a1=badhandle(2); text="invalid handle"; }
  else if(k==12||k==13||k==20||k==21){ std::vector<int> v; for(int i=0;i<NGS;++i) if(b.G[i].live&&b.G[i].fortran&&!b.G[i].busy&&b.G[i].groups.size()==1) v.push_back(i); if(v.empty()){ k=3; a1=badhandle(1); text="invalid handle"; } else { slot=v[g.below(v.size())]; comm=0; static const int bd[]={0,4,-1,7,100}; static const int bo[]={0,5,-3,9,64}; if(k==12||k==20){ a2=bd[g.below(5)]; text=fmt("datatype %d not in valid range 1-3",a2); } else { a2=bo[g.below(5)]; text=fmt("op %d not in valid range 1-4",a2); } } }
  else if(k==22){ std::vector<int> v; for(int i=0;i<NCR;++i) if(b.K[i].live&&b.K[i].fortran&&b.K[i].groups.size()==1) v.push_back(i); if(v.empty()){ k=9; a1=badhandle(2); text="invalid handle"; } else { slot=v[g.below(v.size())]; static const int bk[]={0,4,-2,9}; a2=bk[g.below(4)]; text="crystal_tuple_sort: invalid key"; } }
  else if(k==19){ text="findpts_setup"; }
  else { a1=badhandle(3); text="invalid handle"; }
  bool all= k==0||k==1||k==2||k==26||k==19; int who=g.below(np);
  int o=b.add(OP_MISUSE,comm,slot,fmt("misuse %d (argument %d/%d): must be refused with \"%s\"",k,a1,a2,text.c_str())); for(int r=0;r<np;++r) p.rk[o][r].member= all?1:r==who; 
  if(comm>=0&&all){ std::vector<char> in(np,0); for(auto&gr:b.C[comm].groups) for(int r:gr) in[r]=1; for(int r=0;r<np;++r) p.rk[o][r].member=in[r]; }
  p.ops[o].a[0]=k; p.ops[o].a[1]=a1; p.ops[o].a[2]=a2; p.ops[o].a[3]=hk; p.misuse_op=o; p.misuse_text=text; for(int r=0;r<np;++r) if(p.rk[o][r].member) record(p,o,r,0);
}

static bool complete_diag(const std::string&out,const std::string&text,std::string&why){ size_t e=out.rfind("ERROR (proc "); if(e==std::string::npos){ why="no \"ERROR (proc\" line"; return false; } std::string l=out.substr(e); size_t nl=l.find('\n'); if(nl==std::string::npos){ why="the diagnostic line is cut short: "+l; return false; } l=l.substr(0,nl); int pr,ln=0; char f[300]; if(sscanf(l.c_str(),"ERROR (proc %d, %299[^:]:%d): ",&pr,f,&ln)!=3){ why="malformed diagnostic: "+l; return false; } if(l.find(text)==std::string::npos){ why="diagnostic does not name the fault: "+l; return false; } return true; }

void judge(Prog&p){
  if(S.viol.set) return; bool anyexit=false; for(int r=0;r<p.np;++r) if(S.rexit[r].exited) anyexit=true;
  if(p.alloc_prof){ if(S.injected_alloc_failure){ int r=p.cfg.fail_rank; std::string why; if(!S.rexit[r].exited){ S.violate("alloc-failure-ignored","rank %d continued after a failed allocation",r); S.viol.rank=r; return; } if(S.rexit[r].status==0){ S.violate("alloc-failure-ignored","rank %d ended with status 0 after a failed allocation",r); S.viol.rank=r; return; } if(!complete_diag(S.out[r],"allocation of ",why)){ S.violate("bad-diagnostic","after a failed allocation on rank %d: %s",r,why.c_str()); S.viol.rank=r; return; }
      size_t e=S.out[r].rfind("ERROR (proc "); int pr=-1; sscanf(S.out[r].c_str()+e,"ERROR (proc %d",&pr); if(pr!=r){ S.violate("bad-diagnostic","the diagnostic of rank %d names proc %d",r,pr); S.viol.rank=r; return; } p.checked++; for(int q=0;q<p.np;++q) if(q!=r&&S.rexit[q].exited){ S.violate("died","rank %d terminated with status %d though the allocation failure was on rank %d",q,S.rexit[q].status,r); S.viol.rank=q; return; } return; }
    for(int r=0;r<p.np;++r) if(S.rexit[r].exited){ std::string o=S.out[r]; size_t e=o.rfind("ERROR"); S.violate("died","rank %d terminated with status %d without a fault: %s",r,S.rexit[r].status,e==std::string::npos?"":o.c_str()+e); S.viol.rank=r; return; } }
  if(p.misuse_op>=0){ for(int r=0;r<p.np;++r) if(p.rk[p.misuse_op][r].member){ std::string why; if(p.got.count(okey(p.misuse_op,r,0))){ S.violate("misuse-accepted","%s: the call returned on rank %d",p.opdesc[p.misuse_op].c_str(),r); S.viol.rank=r; return; } if(S.cur_op[r]!=p.misuse_op) continue; if(!S.rexit[r].exited) continue; if(S.rexit[r].status==0){ S.violate("misuse-accepted","%s: rank %d ended with status 0",p.opdesc[p.misuse_op].c_str(),r); S.viol.rank=r; return; } if(!complete_diag(S.out[r],p.misuse_text,why)){ S.violate("bad-diagnostic","%s: rank %d: %s",p.opdesc[p.misuse_op].c_str(),r,why.c_str()); S.viol.rank=r; return; } p.checked++; }
    bool anyx=false; for(int r=0;r<p.np;++r) if(S.rexit[r].exited){ if(S.cur_op[r]!=p.misuse_op){ S.violate("died","rank %d terminated before the faulty call: %s",r,S.out[r].c_str()); S.viol.rank=r; return; } anyx=true; } if(!anyx){ S.violate("misuse-accepted","%s: no rank terminated",p.opdesc[p.misuse_op].c_str()); } return; }
  if(anyexit) return;
  for(auto&kv:p.exp) if(!p.got.count(kv.first)){ S.violate("missing-output","operation %d on rank %d delivered nothing",(int)(kv.first>>24),(int)((kv.first>>12)&4095)); S.viol.op=kv.first>>24; S.viol.rank=(kv.first>>12)&4095; return; }
  for(auto&f:p.post){ f(p); if(S.viol.set) return; }
  if(p.leak_prof) for(int r=0;r<p.np;++r){ auto&m=p.marks[r]; if(m.size()<3) continue; p.checked++; static const char*nm[3]={"heap blocks","communicators","requests"}; for(int k=0;k<3;++k) if(m[2][k]>m[1][k]){ S.violate("leak","rank %d holds %ld more %s after each repetition of the same operations (%ld, %ld, %ld)",r,m[2][k]-m[1][k],nm[k],m[0][k],m[1][k],m[2][k]); S.viol.rank=r; return; } }
}
#include "profiles.inc"
