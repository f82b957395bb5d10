/* Rank-side interpreter of workload programs: calls the library under test through its public
   C and Fortran interfaces, exactly as an application would. */
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <float.h>
#include "gslib.h"
#include "prog.h"
#ifndef GSLIB_USE_MPI /* the serial build: one rank, no application messages */
#define MPI_Request int
#define MPI_COMM_WORLD 0
#define MPI_Comm_c2f(c) 0
#endif

#define F(low) fgslib_##low##_
#ifdef GSLIB_USE_USR_EXIT /* the application's own way to stop */
extern void sim_exit(int);
void F(userexithandler)(int status){ sim_exit(status); }
#endif
extern void F(gs_setup_pick)(sint*,const slong*,const sint*,const MPI_Fint*,const sint*,const sint*);
extern void F(gs_setup)(sint*,const slong*,const sint*,const MPI_Fint*,const sint*);
extern void F(gs_op)(const sint*,void*,const sint*,const sint*,const sint*);
extern void F(gs_op_vec)(const sint*,void*,const sint*,const sint*,const sint*,const sint*);
extern void F(gs_op_many)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*);
extern void F(igs_op)(const sint*,void*,const sint*,const sint*,const sint*,int*);
extern void F(igs_op_vec)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,int*);
extern void F(igs_op_many)(const sint*,void*,void*,void*,void*,void*,void*,const sint*,const sint*,const sint*,const sint*,int*);
extern void F(gs_op_wait)(int*);
extern void F(gs_op_fields)(const sint*,void*,const sint*,const sint*,const sint*,const sint*,const sint*);
extern void F(gs_free)(const sint*);
extern void F(gs_unique)(slong*,const sint*,const MPI_Fint*,const sint*);
extern void F(crystal_setup)(sint*,const MPI_Fint*,const sint*);
extern void F(crystal_free)(sint*);
extern void F(crystal_ituple_transfer)(const sint*,sint*,const sint*,sint*,const sint*,const sint*);
extern void F(crystal_tuple_transfer)(const sint*,sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*);
extern void F(crystal_ituple_sort)(const sint*,sint*,const sint*,const sint*,const sint*,const sint*);
extern void F(crystal_tuple_sort)(const sint*,const sint*,sint*,const sint*,slong*,const sint*,double*,const sint*,const sint*,const sint*);
extern void F(findpts_setup)(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*);
extern void F(findptsms_setup)(sint*,const MPI_Fint*,const sint*,const sint*,const double*,const double*,const double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const sint*,const double*,const sint*,const double*);
extern void F(findpts_free)(const sint*);
extern void F(findptsms_free)(const sint*);
extern void F(findpts)(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const sint*);
extern void F(findptsms)(const sint*,sint*,const sint*,sint*,const sint*,sint*,const sint*,double*,const sint*,double*,const sint*,const double*,const sint*,const double*,const sint*,const double*,const sint*,const uint*,const sint*,const uint*,const sint*);
extern void F(findpts_eval)(const sint*,double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
extern void F(findptsms_eval)(const sint*,double*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
extern void F(findpts_eval_local)(const sint*,double*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);
extern void F(findptsms_eval_local)(const sint*,double*,const sint*,const sint*,const sint*,const double*,const sint*,const sint*,const double*);

/* application memory: owned by the user, not by the library */
extern void *usr_malloc(size_t), *usr_realloc(void*,size_t);
static void *dupmem(const void *p, size_t n) { void *q=usr_malloc(n); if(n&&p) memcpy(q,p,n); return q; }

static struct comm C[NCOMM]; static int Cok[NCOMM];
struct gsslot { struct gs_data *g; sint fh; int fortran; uint n; };
static struct gsslot G[NGS];
struct waitslot { int h; int op; char *data; void **arr; size_t bytes; buffer own; int own_used; int fortran; int live; };
static struct waitslot W[NWAIT];
struct crslot { struct crystal cr; sint fh; int fortran; };
static struct crslot K[NCR];
static buffer B[NBUF];
struct noise { MPI_Request *req; char *buf; int n; char *sbuf; MPI_Request *sreq; int sn; int len; };
static struct noise N[NNOISE];
struct fpslot { void *fd; uint id; int dim, fortran, ms; sint fh; uint nsid; uint nel; unsigned n[3], m[3]; uint lhash; unsigned nptmax; double bbtol, ntol; double *el[3]; double *dist; };
static struct fpslot FP[NFP];
/* Fortran handles: distinct from every live one; and, for misuse, ones that are not valid */
enum { HGS, HCR, HFP, NHK, NHAND=1024 };
static sint hlive[NHK][NHAND], hfreed[NHK][NHAND], hmax[NHK]={-1,-1,-1}; static int nlive[NHK], nfreed[NHK];
static void handle_new(int op, int k, sint h) { int i;
  for(i=0;i<nlive[k];++i) if(hlive[k][i]==h) { wl_fail(op,"the new handle is the number of one that is in use"); return; }
  if(nlive[k]<NHAND) hlive[k][nlive[k]++]=h; if(h>hmax[k]) hmax[k]=h;
  for(i=0;i<nfreed[k];++i) if(hfreed[k][i]==h) { hfreed[k][i]=hfreed[k][--nfreed[k]]; break; } }
static void handle_gone(int k, sint h) { int i;
  for(i=0;i<nlive[k];++i) if(hlive[k][i]==h) { hlive[k][i]=hlive[k][--nlive[k]]; break; }
  if(nfreed[k]<NHAND) hfreed[k][nfreed[k]++]=h; }
static sint bad_handle(int k, int z, int r) {
  if(z==0&&nfreed[k]) return hfreed[k][r%nfreed[k]];
  if(z==1) return -1-r%5;
  if(z==2) return hmax[k]+1+r%100;
  return hmax[k]+1; }
struct iar { comm_req req; void *v, *buf; size_t bytes; int op; };
static struct iar IA[NIAR];

static const unsigned dsz[5] = { sizeof(double), sizeof(float), sizeof(int), sizeof(long), sizeof(long long) };
static const sint fdom[5] = { 1, 9, 2, 9, 3 }; /* the Fortran interface has double, integer and integer*8 */

static void do_gs(int op, const struct wop *o, const struct wrk *k)
{
  struct gsslot *g=&G[o->slot];
  int mode=o->a[0], tr=o->a[3], bk=o->a[5], nb=o->a[6]; gs_dom dom=(gs_dom)o->a[1]; gs_op gop=(gs_op)o->a[2];
  unsigned vn=o->a[4]; size_t n=g->n, one=n*dsz[o->a[1]], bytes=one*(mode==0?1:vn);
  size_t stride=n+o->a[8]; /* fields */
  struct waitslot w; unsigned i; sint fd=fdom[o->a[1]], fo=o->a[2]+1, ft=tr?(o->a[10]?o->a[10]:1):0, fn=vn; /* any nonzero value means transpose */ int fortran=g->fortran;
  memset(&w,0,sizeof w); w.op=op; w.bytes=bytes; w.fortran=fortran; w.live=1;
  if(mode==2) {
    w.arr=usr_malloc(sizeof(void*)*(vn?vn:1)); for(i=0;i<vn;++i) w.arr[i]=dupmem((const char*)k->p[0]+i*one,one);
  } else if(mode==3) {
    size_t tot=vn?((vn-1)*stride+n)*dsz[o->a[1]]:0; w.data=usr_malloc(tot); memset(w.data,0x5a,tot); for(i=0;i<vn;++i) memcpy(w.data+i*stride*dsz[o->a[1]],(const char*)k->p[0]+i*one,one);
  } else w.data=dupmem(k->p[0],bytes);
  {
    buffer *bp=0; if(bk==1) bp=&w.own, w.own_used=1; else if(bk==2) bp=&B[o->a[9]];
    if(nb>=0 && bk==1) { W[nb]=w; bp=&W[nb].own; }
    if(!fortran) {
      if(nb<0) {
        if(mode==0) gs(w.data,dom,gop,tr,g->g,bp); else if(mode==1) gs_vec(w.data,vn,dom,gop,tr,g->g,bp);
        else gs_many((void*const*)w.arr,vn,dom,gop,tr,g->g,bp);
      } else {
        int h=-12345;
        if(mode==0) igs(w.data,dom,gop,tr,g->g,bp,&h); else if(mode==1) igs_vec(w.data,vn,dom,gop,tr,g->g,bp,&h);
        else igs_many((void*const*)w.arr,vn,dom,gop,tr,g->g,bp,&h);
        if(bk!=1) W[nb]=w; 
        W[nb].h=h;
      }
    } else {
      void *a[6]; for(i=0;i<6;++i) a[i]= mode==2&&i<vn? w.arr[i]:0;
      if(nb<0) {
        if(mode==0) F(gs_op)(&g->fh,w.data,&fd,&fo,&ft); else if(mode==1) F(gs_op_vec)(&g->fh,w.data,&fn,&fd,&fo,&ft);
        else if(mode==2) F(gs_op_many)(&g->fh,a[0],a[1],a[2],a[3],a[4],a[5],&fn,&fd,&fo,&ft);
        else { sint st=stride; F(gs_op_fields)(&g->fh,w.data,&st,&fn,&fd,&fo,&ft); }
      } else {
        int h=-12345;
        if(mode==0) F(igs_op)(&g->fh,w.data,&fd,&fo,&ft,&h); else if(mode==1) F(igs_op_vec)(&g->fh,w.data,&fn,&fd,&fo,&ft,&h);
        else F(igs_op_many)(&g->fh,a[0],a[1],a[2],a[3],a[4],a[5],&fn,&fd,&fo,&ft,&h);
        W[nb]=w; W[nb].h=h;
      }
    }
  }
  if(nb>=0) return;
  if(mode==2) { for(i=0;i<vn;++i) { wl_out(op,i,w.arr[i],one); free(w.arr[i]); } free(w.arr); }
  else if(mode==3) { for(i=0;i<vn;++i) { size_t j; char *f=w.data+i*stride*dsz[o->a[1]]; wl_out(op,i,f,one);
        if(i+1<vn) for(j=one;j<stride*dsz[o->a[1]];++j) if(f[j]!=0x5a) { wl_fail(op,"memory between the fields was modified"); break; } } free(w.data); }
  else { wl_out(op,0,w.data,bytes); free(w.data); }
  if(w.own_used) buffer_free(&w.own);
}

static void do_wait(const struct wop *o, const struct wprog *P)
{
  struct waitslot *w=&W[o->slot]; const struct wop *q=&P->ops[w->op]; unsigned i, vn=q->a[4]; int h=w->h;
  if(!w->live) return;
  if(w->fortran) F(gs_op_wait)(&h); else gs_wait(h);
  if(q->a[0]==2) { size_t one=vn?w->bytes/vn:0; for(i=0;i<vn;++i) { wl_out(w->op,i,w->arr[i],one); free(w->arr[i]); } free(w->arr); }
  else { wl_out(w->op,0,w->data,w->bytes); free(w->data); }
  if(w->own_used) buffer_free(&w->own);
  memset(w,0,sizeof *w);
}

static void do_sarray(int op, const struct wop *o, const struct wrk *k)
{
  struct crystal *cr=&K[o->slot].cr;
  int ext=o->a[3], An=o->a[4], set_src=o->a[2], rounds=o->a[5], i, t; unsigned size[4]; struct array A[4], *Ap[4];
  uint n=k->n, cnt[2]; int fixed=(o->a[7]&2)!=0;
  for(i=0;i<An;++i) size[i]=o->a[8+i];
  if(K[o->slot].fortran) return;
  for(i=0;i<An;++i) { /* room for exactly n rows, or a little more */
    A[i].n=n, A[i].max=n+o->a[12+i]; A[i].ptr=usr_malloc(A[i].max*size[i]); memset(A[i].ptr,0x77,A[i].max*size[i]); if(n) memcpy(A[i].ptr,k->p[i],(size_t)n*size[i]); Ap[i]=&A[i]; if(i==0||A[i].max<cnt[1]) cnt[1]=A[i].max; }
  for(t=0;t<rounds;++t) {
    if(ext) {
      unsigned pst=o->a[6]; uint *proc; uint j;
      if(t>0) break;
      proc=usr_malloc((size_t)n*pst); memset(proc,0x33,(size_t)n*pst);
      for(j=0;j<n;++j) memcpy((char*)proc+(size_t)j*pst,(const uint*)k->p[6]+j,sizeof(uint));
      if(An==1 && !(o->a[7]&1)) sarray_transfer_ext_(&A[0],size[0],proc,pst,cr);
      else { uint r=sarray_transfer_many((struct array*const*)Ap,size,An,fixed,1,0,0,proc,pst,cr); if(fixed) cnt[0]=r; else if(r!=A[0].n) wl_fail(op,"returned row count differs from the array's row count"); }
      free(proc);
    } else {
      unsigned off=o->a[1];
      if(An==1 && !(o->a[7]&1)) sarray_transfer_(&A[0],size[0],off,set_src,cr);
      else { uint r=sarray_transfer_many((struct array*const*)Ap,size,An,fixed,0,set_src,off,(uint*)((char*)A[0].ptr+off),size[0],cr); if(fixed) cnt[0]=r; else if(r!=A[0].n) wl_fail(op,"returned row count differs from the array's row count"); }
    }
    for(i=0;i<An;++i) { if(A[i].n!=A[0].n) wl_fail(op,"row counts of the arrays differ"); if(A[i].n>A[i].max) wl_fail(op,"row count exceeds the array's capacity"); wl_out(op,t*4+i,A[i].ptr,(size_t)A[0].n*size[i]); }
    if(fixed) wl_out(op,100,cnt,sizeof cnt);
  }
  for(i=0;i<An;++i) array_free(&A[i]);
}

static void do_ftuple(int op, const struct wop *o, const struct wrk *k)
{
  sint h=K[o->slot].fh, n=k->n, max=k->n2, key=o->a[3], mi=o->a[0], ml=o->a[1], md=o->a[2]; int sort=o->a[4], rounds=o->a[5], t;
  size_t pad=o->a[9], rows=(size_t)max+pad; /* rows beyond the stated capacity must stay as they are */
  sint *vi=usr_malloc(sizeof(sint)*mi*rows); slong *vl=usr_malloc(sizeof(slong)*ml*rows); double *vd=usr_malloc(sizeof(double)*md*rows);
  memset(vi,0x77,sizeof(sint)*mi*rows); memset(vl,0x77,sizeof(slong)*ml*rows); memset(vd,0x77,sizeof(double)*md*rows);
  memcpy(vi,k->p[0],sizeof(sint)*(size_t)mi*n); if(ml) memcpy(vl,k->p[1],sizeof(slong)*(size_t)ml*n); if(md) memcpy(vd,k->p[2],sizeof(double)*(size_t)md*n);
  for(t=0;t<rounds;++t) {
    sint m; 
    if(o->type==OP_F_ITUPLE) F(crystal_ituple_transfer)(&h,vi,&mi,&n,&max,&key);
    else F(crystal_tuple_transfer)(&h,&n,&max,vi,&mi,vl,&ml,vd,&md,&key);
    m = n<max?n:max; 
    if(sort) { sint keys[4]; sint nk=o->a[6]; int z; for(z=0;z<4;++z) keys[z]=o->a[10+z]; if(o->type==OP_F_ITUPLE) F(crystal_ituple_sort)(&h,vi,&mi,&m,keys,&nk); else F(crystal_tuple_sort)(&h,&m,vi,&mi,vl,&ml,vd,&md,keys,&nk); }
    wl_out(op,t*8+3,&n,sizeof n); wl_out(op,t*8+0,vi,sizeof(sint)*(size_t)mi*m); wl_out(op,t*8+1,vl,sizeof(slong)*(size_t)ml*m); wl_out(op,t*8+2,vd,sizeof(double)*(size_t)md*m);
    if(n>max) break;
  }
  { size_t j; const unsigned char *q; int bad=0;
    for(q=(unsigned char*)(vi+(size_t)mi*max),j=0;j<sizeof(sint)*mi*pad;++j) bad|=q[j]!=0x77;
    for(q=(unsigned char*)(vl+(size_t)ml*max),j=0;j<sizeof(slong)*ml*pad;++j) bad|=q[j]!=0x77;
    for(q=(unsigned char*)(vd+(size_t)md*max),j=0;j<sizeof(double)*md*pad;++j) bad|=q[j]!=0x77;
    if(bad) wl_fail(op,"tuples beyond the stated capacity were written"); }
  free(vi); free(vl); free(vd);
}

/* Many objects alive at once and many cycles: results are predicted on the spot. */
static unsigned brnd(unsigned *s) { *s=*s*1664525u+1013904223u; return (*s>>8)&0x7fffff; }
static char bmsg[200];
#define BFAIL(...) do { snprintf(bmsg,sizeof bmsg,__VA_ARGS__); wl_fail(op,bmsg); } while(0)
static void bids(slong *id, int j, uint me) { id[0]=5+j%3, id[1]=100+me, id[2]=j%2?id[0]:0; }
static void bfill(double *v, int vn, int j, int t, uint me) { int c; for(c=0;c<vn;++c) v[c]=me+1+j+c*1000+t, v[vn+c]=7+t-c, v[2*vn+c]=10*(j+1)+c; }
static void bcheck(int op, const double *v, int vn, int j, int t, uint me, uint np, const char *what) { int c;
  for(c=0;c<vn;++c) { double s=(double)np*(1+j+c*1000+t)+(double)np*(np-1)/2, e; e=s; if(j%2) s+=(double)np*(10*(j+1)+c);
    if(v[c]!=s) BFAIL("%s %d, round %d, component %d: the shared entry is %.17g, expected %.17g",what,j,t,c,v[c],s);
    if(v[vn+c]!=7+t-c) BFAIL("%s %d, round %d, component %d: the unshared entry became %.17g",what,j,t,c,v[vn+c]);
    if(v[2*vn+c]!=(j%2?s:10*(j+1)+c)) BFAIL("%s %d, round %d, component %d: the third entry is %.17g, expected %.17g",what,j,t,c,v[2*vn+c],j%2?s:10*(j+1)+c); } }
static void bshuffle(int *p, int n, unsigned *s) { int i; for(i=n-1;i>0;--i) { int k=brnd(s)%(i+1), x=p[i]; p[i]=p[k]; p[k]=x; } }
static void bnew(int op, int k, const sint *h, const char *alive, int n, sint x) { int i; for(i=0;i<n;++i) if(alive[i]&&h[i]==x) { BFAIL("the new handle %d is the number of one that is in use",(int)x); return; } for(i=0;i<nlive[k];++i) if(hlive[k][i]==x) { BFAIL("the new handle %d is the number of one that is in use",(int)x); return; } if(x>hmax[k]) hmax[k]=x; for(i=0;i<nfreed[k];++i) if(hfreed[k][i]==x) { hfreed[k][i]=hfreed[k][--nfreed[k]]; break; } }
static void bgone(int k, sint h) { if(nfreed[k]<NHAND) hfreed[k][nfreed[k]++]=h; }

struct bobj { sint h; double *el[2]; };
static void b_make(int op, int kind, int j, struct bobj *b, struct comm *c, sint *h, char *alive, int n)
{
  sint np=c->np; MPI_Fint fc=MPI_Comm_c2f(c->c);
  if(kind==0) { slong id[3]; sint three=3, m=1+j%3; bids(id,j,c->id); F(gs_setup_pick)(&h[j],id,&three,&fc,&np,&m); bnew(op,HGS,h,alive,n,h[j]); }
  else if(kind==2) { F(crystal_setup)(&h[j],&fc,&np); bnew(op,HCR,h,alive,n,h[j]); }
  else { sint two=2,one=1,nn=3,mm=6,hs=10,npt=16; double tol=.05,nt=1e-13; int a,d; for(d=0;d<2;++d) { b->el[d]=usr_malloc(9*sizeof(double)); for(a=0;a<9;++a) b->el[d][a]=d?10.*j+(a/3)/2.:2.*c->id+(a%3)/2.; }
    F(findpts_setup)(&h[j],&fc,&np,&two,b->el[0],b->el[1],0,&nn,&nn,&one,&one,&mm,&mm,&one,&tol,&hs,&hs,&npt,&nt); bnew(op,HFP,h,alive,n,h[j]); }
  alive[j]=1;
}
static void b_use(int op, int kind, int j, int t, struct bobj *b, struct comm *c, sint *h, double *sum)
{
  uint me=c->id, np=c->np;
  if(kind==0) { double v[9]; sint d=1,f=1,z=0,vn=j%4==1?3:1; int w=-7; bfill(v,vn,j,t,me);
    if(j%3!=2&&(j+t)%4==3) { if(vn==1) F(igs_op)(&h[j],v,&d,&f,&z,&w); else F(igs_op_vec)(&h[j],v,&vn,&d,&f,&z,&w); F(gs_op_wait)(&w); }
    else if(vn==1) F(gs_op)(&h[j],v,&d,&f,&z); else F(gs_op_vec)(&h[j],v,&vn,&d,&f,&z);
    bcheck(op,v,vn,j,t,me,np,"handle"); *sum+=v[0]; }
  else if(kind==2) { sint vi[8*2], mi=2, n=1+j%3, mx=8, key=1, i; int from=(int)((me+(long)np*1000-1-j-t)%np), seen=0;
    for(i=0;i<n;++i) vi[2*i]=(me+1+j+t)%np, vi[2*i+1]=me*1000+j*4+i;
    F(crystal_ituple_transfer)(&h[j],vi,&mi,&n,&mx,&key);
    if(n!=1+j%3) BFAIL("router %d: %d tuples arrived, %d were sent here",j,(int)n,1+j%3);
    for(i=0;i<n&&i<8;++i) { int k=vi[2*i+1]-from*1000-j*4; if(vi[2*i]!=from||k<0||k>j%3||(seen&(1<<k))) BFAIL("router %d: tuple %d is (%d,%d), not one sent here",j,(int)i,(int)vi[2*i],(int)vi[2*i+1]); else seen|=1<<k; } *sum+=n; }
  else { double x[2],y[2],r[4],d2[2],out[2]; sint code[2],proc[2],el[2],one=1,two=2,n=2,i; uint to=(me+j+t)%np; x[0]=2.*to+.25; y[0]=10.*j+.75; x[1]=2.*((to+1)%np)+.5; y[1]=10.*j+.125;
    F(findpts)(&h[j],code,&one,proc,&one,el,&one,r,&two,d2,&one,x,&one,y,&one,x,&one,&n);
    for(i=0;i<2;++i) { uint w=i?(to+1)%np:to; double er=2*(x[i]-2.*w)-1, es=2*(y[i]-10.*j)-1; if(code[i]!=0||proc[i]!=(sint)w||el[i]!=0||!(r[2*i]-er<1e-9&&er-r[2*i]<1e-9&&r[2*i+1]-es<1e-9&&es-r[2*i+1]<1e-9)) { BFAIL("search %d: point %d got code %d, processor %d, element %d, r = %.9g %.9g; expected 0, %d, 0, %.9g %.9g",j,(int)i,(int)code[i],(int)proc[i],(int)el[i],r[2*i],r[2*i+1],(int)w,er,es); return; } }
    F(findpts_eval)(&h[j],out,&one,code,&one,proc,&one,el,&one,r,&two,&n,b->el[t%2]);
    for(i=0;i<2;++i) { double e=t%2?y[i]:x[i]; if(!(out[i]-e<1e-8&&e-out[i]<1e-8)) BFAIL("search %d: the value at point %d is %.12g, expected %.12g",j,(int)i,out[i],e); *sum+=code[i]; } }
}
static void b_free(int kind, int j, struct bobj *b, sint *h, char *alive)
{
  sint x=h[j]; alive[j]=0;
  if(kind==0) { F(gs_free)(&h[j]); bgone(HGS,x); } else if(kind==2) { F(crystal_free)(&h[j]); bgone(HCR,x); } else { F(findpts_free)(&h[j]); bgone(HFP,x); free(b->el[0]); free(b->el[1]); }
}
static void do_burst(int op, const struct wop *o, struct comm *c)
{
  int kind=o->a[0], n=o->a[1], cyc=o->a[3], i, j, t; unsigned seed=o->a[2]; uint me=c->id, np=c->np; double sum=0; int *perm=usr_malloc(sizeof(int)*(n+1));
  if(kind==0||kind==2||kind==3) {
    sint *h=usr_malloc(sizeof(sint)*n); char *alive=usr_malloc(n); struct bobj *b=usr_malloc(sizeof(struct bobj)*n); memset(alive,0,n); memset(b,0,sizeof(struct bobj)*n);
    for(i=0;i<n;++i) perm[i]=i;
    for(t=0;t<cyc;++t) {
      bshuffle(perm,n,&seed); for(i=0;i<n;++i) if(!alive[perm[i]]&&(t==0||brnd(&seed)%4)) b_make(op,kind,perm[i],b+perm[i],c,h,alive,n);
      bshuffle(perm,n,&seed); for(i=0;i<n;++i) if(alive[perm[i]]&&(n<12||brnd(&seed)%3==0)) b_use(op,kind,perm[i],t,b+perm[i],c,h,&sum);
      bshuffle(perm,n,&seed); for(i=0;i<n;++i) if(alive[perm[i]]&&brnd(&seed)%2) b_free(kind,perm[i],b+perm[i],h,alive);
    }
    for(i=0;i<n;++i) if(alive[perm[i]]) b_use(op,kind,perm[i],cyc,b+perm[i],c,h,&sum), b_free(kind,perm[i],b+perm[i],h,alive);
    free(h); free(alive); free(b);
  } else if(kind==1) { /* many nonblocking operations outstanding, again and again */
    struct gs_data **g=usr_malloc(sizeof(void*)*n); double *v=usr_malloc(sizeof(double)*9*n); int *h=usr_malloc(sizeof(int)*n), *vn=usr_malloc(sizeof(int)*n), *tt=usr_malloc(sizeof(int)*n), *own=usr_malloc(sizeof(int)*n); char *act=usr_malloc(n); buffer *b=usr_malloc(sizeof(buffer)*n); int ms=o->a[4];
    memset(act,0,n); memset(b,0,sizeof(buffer)*n); for(i=0;i<n;++i) perm[i]=i;
    for(j=0;j<n;++j) { slong id[3]; bids(id,j,me); g[j]=gs_setup(id,3,c,0,(gs_method)(ms>=3?1+j%3:1+j%2),0); }
    for(t=0;t<=cyc;++t) {
      bshuffle(perm,n,&seed);
      if(t<cyc) for(i=0;i<n;++i) { j=perm[i]; if(act[j]) continue; if(n>1&&brnd(&seed)%5==0) continue; vn[j]=brnd(&seed)%3==0?3:1; tt[j]=t; own[j]=brnd(&seed)%2; bfill(v+9*j,vn[j],j,t,me); h[j]=-9;
        if(vn[j]==1) igs(v+9*j,gs_double,gs_add,0,g[j],own[j]?&b[j]:0,&h[j]); else igs_vec(v+9*j,vn[j],gs_double,gs_add,0,g[j],own[j]?&b[j]:0,&h[j]); act[j]=1; { int k; for(k=0;k<n;++k) if(k!=j&&act[k]&&h[k]==h[j]) BFAIL("request %d is the number of one that is outstanding",h[j]); } }
      bshuffle(perm,n,&seed);
      for(i=0;i<n;++i) { j=perm[i]; if(!act[j]) continue; if(t<cyc&&brnd(&seed)%3==0) continue; gs_wait(h[j]); act[j]=0; bcheck(op,v+9*j,vn[j],j,tt[j],me,np,"operation"); sum+=v[9*j]; }
    }
    for(j=0;j<n;++j) { gs_free(g[j]); buffer_free(&b[j]); }
    free(g); free(v); free(h); free(vn); free(tt); free(own); free(act); free(b);
  } else { /* communicators from communicators */
    struct comm *d=usr_malloc(sizeof(struct comm)*(n+1)); d[0]=*c;
    for(i=1;i<=n;++i) { int from=brnd(&seed)%i; unsigned k=brnd(&seed); if(k%3==0) comm_dup(&d[i],&d[from]); else if(k%3==1) comm_split(&d[from],(int)(d[from].id%2),-(int)d[from].id,&d[i]); else comm_split(&d[from],(int)(d[from].id*2/d[from].np),0,&d[i]);
      { long long v[2],s[4],w[2]; v[0]=d[i].id+1; v[1]=1; comm_scan(s,&d[i],gs_long_long,gs_add,v,2,w); if(s[0]!=(long long)d[i].id*(d[i].id+1)/2||s[1]!=d[i].id||s[2]!=(long long)d[i].np*(d[i].np+1)/2||s[3]!=d[i].np) BFAIL("communicator %d: the scan gives %lld %lld %lld %lld on rank %u of %u",i,s[0],s[1],s[2],s[3],(unsigned)d[i].id,(unsigned)d[i].np); sum+=s[2]; } }
    for(i=0;i<n;++i) perm[i]=i+1; bshuffle(perm,n,&seed);
    for(i=0;i<n;++i) { int k; for(k=i;k<n&&k<i+2;++k) { int x=d[perm[k]].id==0?perm[k]+1:0, w; comm_allreduce(&d[perm[k]],gs_int,gs_add,&x,1,&w); if(x!=perm[k]+1) BFAIL("communicator %d: the sum is %d, expected %d",perm[k],x,perm[k]+1); } comm_free(&d[perm[i]]); }
    free(d);
  }
  wl_out(op,0,&sum,sizeof sum); free(perm);
}

static void do_misuse(int op, const struct wop *o)
{
  MPI_Fint fc=MPI_Comm_c2f(C[o->comm].c); sint np=C[o->comm].np, bad=np+1+o->a[1], h=o->a[1], one=1, dom=2, gop=1, tr=0, n=1; double v[8]={0}; slong id[2]={1,2}; sint iv[8]={0}; int w; sint ndim=4; int hk=o->a[3];
  if(hk) h=bad_handle(hk-1,o->a[1],o->a[2]);
  switch(o->a[0]) {
    case 0: F(gs_setup_pick)(&h,id,&n,&fc,&bad,&one); break;
    case 1: F(crystal_setup)(&h,&fc,&bad); break;
    case 2: F(gs_unique)(id,&n,&fc,&bad); break;
    case 3: F(gs_op)(&h,v,&dom,&gop,&tr); break;              /* invalid handle a[1] */
    case 4: F(gs_op_vec)(&h,v,&one,&dom,&gop,&tr); break;
    case 5: F(gs_op_many)(&h,v,v,v,v,v,v,&one,&dom,&gop,&tr); break;
    case 6: F(gs_op_fields)(&h,v,&one,&one,&dom,&gop,&tr); break;
    case 7: F(gs_free)(&h); break;
    case 8: F(crystal_free)(&h); break;
    case 9: { sint m=2,k=1,mx=2; F(crystal_ituple_transfer)(&h,iv,&m,&n,&mx,&k); } break;
    case 10: { sint m=2,k=1,mx=2; F(crystal_tuple_transfer)(&h,&n,&mx,iv,&m,(slong*)v,&one,v,&one,&k); } break;
    case 11: { sint m=2,k=1; F(crystal_ituple_sort)(&h,iv,&m,&n,&k,&one); } break;
    case 12: { sint gh=G[o->slot].fh, bd=o->a[2]; F(gs_op)(&gh,v,&bd,&gop,&tr); } break;        /* bad dom */
    case 13: { sint gh=G[o->slot].fh, bo=o->a[2]; F(gs_op)(&gh,v,&dom,&bo,&tr); } break;        /* bad op */
    case 14: F(igs_op)(&h,v,&dom,&gop,&tr,&w); break;
    case 15: F(igs_op_vec)(&h,v,&one,&dom,&gop,&tr,&w); break;
    case 16: F(findpts_free)(&h); break;
    case 17: { sint st=1; F(findpts)(&h,iv,&st,iv,&st,iv,&st,v,&st,v,&st,v,&st,v,&st,v,&st,&n); } break;
    case 18: { sint st=1; F(findpts_eval)(&h,v,&st,iv,&st,iv,&st,iv,&st,v,&st,&n,v); } break;
    case 19: { sint nn=2,nel=0,mm=4,hs=2,npt=16; double tol=.01; F(findpts_setup)(&h,&fc,&np,&ndim,v,v,v,&nn,&nn,&nn,&nel,&mm,&mm,&mm,&tol,&hs,&hs,&npt,&tol); } break;
    case 20: { sint gh=G[o->slot].fh, bd=o->a[2]; F(gs_op_vec)(&gh,v,&one,&bd,&gop,&tr); } break;
    case 21: { sint gh=G[o->slot].fh, bo=o->a[2]; F(gs_op_many)(&gh,v,v,v,v,v,v,&one,&dom,&bo,&tr); } break;
    case 22: { sint gh=K[o->slot].fh, m=2, ml=1, md=0, k=o->a[2]; F(crystal_tuple_sort)(&gh,&n,iv,&m,id,&ml,v,&md,&k,&one); } break; /* bad key */
    case 23: F(igs_op_many)(&h,v,v,v,v,v,v,&one,&dom,&gop,&tr,&w); break;
    case 24: { sint st=1; F(findptsms_eval)(&h,v,&st,iv,&st,iv,&st,iv,&st,v,&st,&n,v); } break;
    case 25: F(findptsms_free)(&h); break;
    case 26: { struct comm d; comm_init_check(&d,fc,(uint)bad); } break;
  }
  wl_out(op,0,"returned",8);
}

static void do_findpts(int op, const struct wop *o, const struct wrk *k, int rank);

static void run_op(const struct wprog *P, int op, int rank)
{
  const struct wop *o=&P->ops[op]; const struct wrk *k=&P->rk[(size_t)op*P->np+rank];
  struct comm *c=&C[o->comm]; uint i;
  if(!k->member) return;
  wl_begin(op);
  switch(o->type) {
  case OP_COMM_SPLIT: comm_split(c,(int)k->n,(int)k->n2,&C[o->slot]); { uint r[2]; r[0]=C[o->slot].id, r[1]=C[o->slot].np; wl_out(op,0,r,sizeof r); } break;
  case OP_COMM_DUP: comm_dup(&C[o->slot],c); { uint r[2]; r[0]=C[o->slot].id, r[1]=C[o->slot].np; wl_out(op,0,r,sizeof r); } break;
  case OP_COMM_FREE: comm_free(c); break;
  case OP_BARRIER: comm_barrier(c); wl_out(op,0,"b",1); break;
  case OP_ALLREDUCE: { uint vn=k->n; size_t b=(size_t)vn*dsz[o->a[0]]; void *v=dupmem(k->p[0],b), *w=usr_malloc(b);
      comm_allreduce(c,(gs_dom)o->a[0],(gs_op)o->a[1],v,vn,w); wl_out(op,0,v,b); free(v); free(w); } break;
  case OP_IALLREDUCE: { struct iar *q=&IA[o->slot]; uint vn=k->n; q->bytes=(size_t)vn*dsz[o->a[0]]; q->v=dupmem(k->p[0],q->bytes); q->buf=usr_malloc(q->bytes); q->op=op;
      comm_iallreduce(&q->req,c,(gs_dom)o->a[0],(gs_op)o->a[1],q->v,vn,q->buf); } break;
  case OP_IAR_WAIT: { struct iar *q=&IA[o->slot]; comm_wait(&q->req,1); wl_out(q->op,0,q->buf,q->bytes); free(q->v); free(q->buf); } break;
  case OP_SCAN: { uint vn=k->n; size_t b=(size_t)vn*dsz[o->a[0]]; void *v=dupmem(k->p[0],b), *w=usr_malloc(2*b), *s=usr_malloc(2*b);
      comm_scan(s,c,(gs_dom)o->a[0],(gs_op)o->a[1],v,vn,w); wl_out(op,0,s,2*b); wl_out(op,1,v,b); free(v); free(w); free(s); } break;
  case OP_REDUCE: { uint n=k->n; void *v=dupmem(k->p[0],(size_t)n*dsz[o->a[0]]); gs_op g=(gs_op)o->a[1];
      switch(o->a[0]) {
        case gs_double: { double r=comm_reduce_double(c,g,v,n); wl_out(op,0,&r,sizeof r); } break;
        case gs_float: { float r=comm_reduce_float(c,g,v,n); wl_out(op,0,&r,sizeof r); } break;
        case gs_int: { int r=comm_reduce_int(c,g,v,n); wl_out(op,0,&r,sizeof r); } break;
        case gs_long: { long r=comm_reduce_long(c,g,v,n); wl_out(op,0,&r,sizeof r); } break;
        default: { long long r=comm_reduce_long_long(c,g,v,n); wl_out(op,0,&r,sizeof r); } break;
      } free(v); } break;
  case OP_DOT: { uint n=k->n; double *v=dupmem(k->p[0],n*sizeof(double)),*w=dupmem(k->p[1],n*sizeof(double)); double r=comm_dot(c,v,w,n); wl_out(op,0,&r,sizeof r); free(v); free(w); } break;
  case OP_BCAST: { size_t b=k->n; void *v=usr_malloc(b); memset(v,0,b); if((int)c->id==o->a[0]) memcpy(v,k->p[0],b); comm_bcast(c,v,b,o->a[0]); wl_out(op,0,v,b); free(v); } break;
  case OP_GATHER: { size_t b=k->n; void *v=dupmem(k->p[0],b), *w=usr_malloc((int)c->id==o->a[0]?b*c->np:0); comm_gather(c,v,b,w,b,o->a[0]); if((int)c->id==o->a[0]) wl_out(op,0,w,b*c->np); free(v); free(w); } break;
  case OP_SENDRECV: { size_t b=k->n; void *v=dupmem(k->p[0],b), *w=usr_malloc(k->n3); comm_req rq[2]; int to=(c->id+o->a[0])%c->np, fr=(c->id+c->np-o->a[0]%c->np)%c->np;
      if(o->a[2]) { if(c->id%2==0 || c->np%2) { comm_irecv(&rq[0],c,w,k->n3,fr,o->a[1]); comm_send(c,v,b,to,o->a[1]); comm_wait(rq,1); } else { comm_isend(&rq[0],c,v,b,to,o->a[1]); comm_recv(c,w,k->n3,fr,o->a[1]); comm_wait(rq,1); } }
      else { comm_irecv(&rq[0],c,w,k->n3,fr,o->a[1]); comm_isend(&rq[1],c,v,b,to,o->a[1]); comm_wait(rq,2); }
      wl_out(op,0,w,k->n3); free(v); free(w); } break;
  case OP_GS_SETUP: { struct gsslot *g=&G[o->slot]; slong *id=dupmem(k->p[0],k->n*sizeof(slong)); g->n=k->n; g->fortran=o->a[3];
      if(!g->fortran) g->g=gs_setup(id,(uint)k->n,c,o->a[0],(gs_method)o->a[1],o->a[2]);
      else { sint n=k->n,np=c->np,m=o->a[1]; MPI_Fint fc=MPI_Comm_c2f(c->c); if(m==0&&o->a[4]) F(gs_setup)(&g->fh,id,&n,&fc,&np); else F(gs_setup_pick)(&g->fh,id,&n,&fc,&np,&m); 
             handle_new(op,HGS,g->fh); }
      wl_out(op,0,id,k->n*sizeof(slong)); free(id); } break;
  case OP_GS: do_gs(op,o,k); break;
  case OP_GS_WAIT: do_wait(o,P); break;
  case OP_GS_FREE: if(G[o->slot].fortran) { sint h=G[o->slot].fh; F(gs_free)(&h); handle_gone(HGS,h); } else gs_free(G[o->slot].g); memset(&G[o->slot],0,sizeof G[0]); break;
  case OP_GS_UNIQUE: { slong *id=dupmem(k->p[0],k->n*sizeof(slong)); if(o->a[0]) { sint n=k->n,np=c->np; MPI_Fint fc=MPI_Comm_c2f(c->c); F(gs_unique)(id,&n,&fc,&np); } else gs_unique(id,(uint)k->n,c); wl_out(op,0,id,k->n*sizeof(slong)); free(id); } break;
  case OP_PW_DATA: { struct gs_data *g=G[o->slot].fortran?gs_hf2c(G[o->slot].fh):G[o->slot].g; int n=-1,*s; pw_data_nmsg(g,&n); s=usr_malloc(sizeof(int)*(n>0?n:0)); if(n>=0&&n<100000) { pw_data_size(g,s); wl_out(op,1,s,sizeof(int)*n); } wl_out(op,0,&n,sizeof n); free(s); } break;
  case OP_CR_INIT: K[o->slot].fortran=o->a[3]; if(o->a[3]) { sint np=c->np; MPI_Fint fc=MPI_Comm_c2f(c->c); F(crystal_setup)(&K[o->slot].fh,&fc,&np); handle_new(op,HCR,K[o->slot].fh); } else crystal_init(&K[o->slot].cr,c); break;
  case OP_CR_FREE: if(K[o->slot].fortran) { sint h=K[o->slot].fh; F(crystal_free)(&h); handle_gone(HCR,K[o->slot].fh); } else crystal_free(&K[o->slot].cr); break;
  case OP_CR_ROUTE: { struct crystal *cr=&K[o->slot].cr; buffer_reserve(&cr->data,k->n*sizeof(uint)); if(k->n) memcpy(cr->data.ptr,k->p[0],k->n*sizeof(uint)); cr->data.n=k->n; crystal_router(cr); wl_out(op,0,cr->data.ptr,cr->data.n*sizeof(uint)); } break;
  case OP_SARRAY: do_sarray(op,o,k); break;
  case OP_F_ITUPLE: case OP_F_TUPLE: do_ftuple(op,o,k); break;
#ifdef GSLIB_USE_MPI
  case OP_NOISE_POST: { struct noise *z=&N[o->slot]; z->n=o->a[0]; z->len=o->a[1]; z->req=usr_malloc(sizeof(MPI_Request)*z->n); z->buf=usr_malloc((size_t)z->n*z->len); memset(z->buf,0,(size_t)z->n*z->len);
      for(i=0;i<(uint)z->n;++i) MPI_Irecv(z->buf+(size_t)i*z->len,z->len,MPI_UNSIGNED_CHAR,MPI_ANY_SOURCE,MPI_ANY_TAG,c->c,&z->req[i]); } break;
  case OP_NOISE_SEND: { struct noise *z=&N[o->slot]; z->sn=o->a[0]; z->sreq=usr_malloc(sizeof(MPI_Request)*z->sn); z->sbuf=dupmem(k->p[0],(size_t)z->sn*z->len); 
      for(i=0;i<(uint)z->sn;++i) MPI_Isend(z->sbuf+(size_t)i*z->len,z->len,MPI_UNSIGNED_CHAR,((const int*)k->p[1])[i],((const int*)k->p[2])[i],c->c,&z->sreq[i]); } break;
  case OP_NOISE_WAIT: { struct noise *z=&N[o->slot]; MPI_Waitall(z->sn,z->sreq,MPI_STATUSES_IGNORE); MPI_Waitall(z->n,z->req,MPI_STATUSES_IGNORE); MPI_Barrier(c->c); /* a wildcard receive must not meet the next round */ wl_out(op,0,z->buf,(size_t)z->n*z->len); free(z->req); free(z->sreq); free(z->buf); free(z->sbuf); } break;
#endif
  case OP_YIELD: for(i=0;i<(uint)k->n;++i) wl_yield(); break;
  case OP_MARK: { for(i=0;i<NBUF;++i) { buffer_free(&B[i]); memset(&B[i],0,sizeof B[i]); } wl_mark(op,o->a[0]); } break;
  case OP_BURST: do_burst(op,o,c); break;
  case OP_MISUSE: do_misuse(op,o); break;
  case OP_FP_SETUP: case OP_FP_FIND: case OP_FP_EVAL: case OP_FP_FREE: do_findpts(op,o,k,rank); break;
  }
}

static void do_findpts(int op, const struct wop *o, const struct wrk *k, int rank)
{
  struct fpslot *f=&FP[o->slot]; struct comm *c=&C[o->comm]; int i, D; (void)rank;
  if(o->type==OP_FP_SETUP) {
    unsigned m[3]; size_t nt; const double *el[3]; 
    f->id=c->id; f->dim=o->a[0]; f->fortran=o->a[1]; f->ms=o->a[2]; f->nel=k->n; f->nsid=k->n2; D=f->dim;
    nt=1; for(i=0;i<D;++i) f->n[i]=o->a[3+i], m[i]=o->a[6+i], nt*=f->n[i]; for(;i<3;++i) f->n[i]=1,m[i]=1;
    for(i=0;i<3;++i) f->m[i]=m[i]; f->lhash=o->a[9]; f->nptmax=o->a[11]; f->bbtol=o->d[0]; f->ntol=o->d[1];
    nt*=f->nel; for(i=0;i<D;++i) el[i]=f->el[i]=dupmem(k->p[i],nt*sizeof(double)); for(;i<3;++i) f->el[i]=0, el[i]=0;
    f->dist=f->ms?dupmem(k->p[3],nt*sizeof(double)):0;
    if(!f->fortran) {
      if(D==2) f->fd = f->ms? (void*)findptsms_setup_2(c,el,f->n,f->nel,m,o->d[0],o->a[9],o->a[10],o->a[11],o->d[1],&f->nsid,f->dist)
                            : (void*)findpts_setup_2(c,el,f->n,f->nel,m,o->d[0],o->a[9],o->a[10],o->a[11],o->d[1]);
      else     f->fd = f->ms? (void*)findptsms_setup_3(c,el,f->n,f->nel,m,o->d[0],o->a[9],o->a[10],o->a[11],o->d[1],&f->nsid,f->dist)
                            : (void*)findpts_setup_3(c,el,f->n,f->nel,m,o->d[0],o->a[9],o->a[10],o->a[11],o->d[1]);
    } else {
      MPI_Fint fc=MPI_Comm_c2f(c->c); sint np=c->np,nd=D,nn[3],mm[3],nel=f->nel,lh=o->a[9],gh=o->a[10],npt=o->a[11],sid=k->n2; double tol=o->d[0],nt2=o->d[1];
      for(i=0;i<3;++i) nn[i]=f->n[i],mm[i]=m[i];
      if(f->ms) F(findptsms_setup)(&f->fh,&fc,&np,&nd,f->el[0],f->el[1],f->el[2],&nn[0],&nn[1],&nn[2],&nel,&mm[0],&mm[1],&mm[2],&tol,&lh,&gh,&npt,&nt2,(sint*)&f->nsid,f->dist);
      else F(findpts_setup)(&f->fh,&fc,&np,&nd,f->el[0],f->el[1],f->el[2],&nn[0],&nn[1],&nn[2],&nel,&mm[0],&mm[1],&mm[2],&tol,&lh,&gh,&npt,&nt2); (void)sid;
      handle_new(op,HFP,f->fh);
    }
    return;
  }
  D=f->dim;
  if(o->type==OP_FP_FREE) {
    if(f->fortran) { if(f->ms) F(findptsms_free)(&f->fh); else F(findpts_free)(&f->fh); handle_gone(HFP,f->fh); }
    else if(D==2) { if(f->ms) findptsms_free_2(f->fd); else findpts_free_2(f->fd); } else { if(f->ms) findptsms_free_3(f->fd); else findpts_free_3(f->fd); }
    for(i=0;i<D;++i) free(f->el[i]); if(f->dist) free(f->dist);
    return;
  }
  { /* array-of-structs or separate arrays, selected by a[0] */
    uint npt=k->n; int aos=o->a[0]; uint *code,*proc,*el,*sess; double *r,*d2,*x[3],*out; unsigned cs,ps,es,rs,ds,xs[3],ss,os; char *blk=0; size_t unit=0;
    unsigned match=o->a[1];
    if(aos) { unit=8*16+ (aos>1?8*(aos-1):0); blk=usr_malloc(unit*npt); memset(blk,0x11,unit*npt);
      code=(uint*)blk; proc=(uint*)(blk+4); el=(uint*)(blk+8); sess=(uint*)(blk+12); r=(double*)(blk+16); d2=(double*)(blk+40); for(i=0;i<3;++i) x[i]=(double*)(blk+48+8*i); out=(double*)(blk+72);
      cs=ps=es=rs=ds=ss=os=unit; xs[0]=xs[1]=xs[2]=unit; }
    else { code=usr_malloc(4*npt); proc=usr_malloc(4*npt); el=usr_malloc(4*npt); sess=usr_malloc(4*npt); r=usr_malloc(8*(size_t)D*npt); d2=usr_malloc(8*npt); for(i=0;i<3;++i) x[i]=usr_malloc(8*npt); out=usr_malloc(8*npt);
      cs=ps=es=ss=4; rs=8*D; ds=os=8; xs[0]=xs[1]=xs[2]=8; }
#define AT(T,p,s,j) (*(T*)((char*)(p)+(size_t)(s)*(j)))
    if(o->type==OP_FP_FIND) {
      uint j; for(j=0;j<npt;++j) { for(i=0;i<D;++i) AT(double,x[i],xs[i],j)=((const double*)k->p[0])[(size_t)j*D+i]; AT(uint,sess,ss,j)=k->p[1]?((const uint*)k->p[1])[j]:0; AT(uint,code,cs,j)=99; AT(uint,proc,ps,j)=0x7ffffff; AT(uint,el,es,j)=0x7ffffff; AT(double,d2,ds,j)=-7; for(i=0;i<D;++i) (&AT(double,r,rs,j))[i]=-3; }
      if(o->a[3]) { /* this process's elements only */
        buffer lb=null_buffer; const double *eb[3]; for(i=0;i<3;++i) eb[i]=f->el[i]; for(j=0;j<npt;++j) AT(uint,proc,ps,j)=f->id, AT(uint,code,cs,j)=99;
        if(D==2) { struct findpts_local_data_2 ld; const double *xb[2]; xb[0]=x[0],xb[1]=x[1]; findpts_local_setup_2(&ld,eb,f->n,f->nel,f->m,f->bbtol,f->lhash,f->nptmax,f->ntol); findpts_local_2(code,cs,el,es,r,rs,d2,ds,xb,xs,npt,&ld,&lb); findpts_local_free_2(&ld); }
        else { struct findpts_local_data_3 ld; const double *xb[3]; xb[0]=x[0],xb[1]=x[1],xb[2]=x[2]; findpts_local_setup_3(&ld,eb,f->n,f->nel,f->m,f->bbtol,f->lhash,f->nptmax,f->ntol); findpts_local_3(code,cs,el,es,r,rs,d2,ds,xb,xs,npt,&ld,&lb); findpts_local_free_3(&ld); }
        buffer_free(&lb);
      } else
      if(!f->fortran) {
        if(D==2) { const double *xb[2]; xb[0]=x[0],xb[1]=x[1]; if(f->ms) findptsms_2(code,cs,proc,ps,el,es,r,rs,d2,ds,xb,xs,sess,ss,&match,npt,f->fd); else findpts_2(code,cs,proc,ps,el,es,r,rs,d2,ds,xb,xs,npt,f->fd); }
        else { const double *xb[3]; xb[0]=x[0],xb[1]=x[1],xb[2]=x[2]; if(f->ms) findptsms_3(code,cs,proc,ps,el,es,r,rs,d2,ds,xb,xs,sess,ss,&match,npt,f->fd); else findpts_3(code,cs,proc,ps,el,es,r,rs,d2,ds,xb,xs,npt,f->fd); }
      } else { sint a=cs/4,b=ps/4,e=es/4,s=ss/4,rr=rs/8,dd=ds/8,xx=xs[0]/8,n=npt;
        if(f->ms) F(findptsms)(&f->fh,(sint*)code,&a,(sint*)proc,&b,(sint*)el,&e,r,&rr,d2,&dd,x[0],&xx,x[1],&xx,x[2],&xx,sess,&s,&match,&n);
        else F(findpts)(&f->fh,(sint*)code,&a,(sint*)proc,&b,(sint*)el,&e,r,&rr,d2,&dd,x[0],&xx,x[1],&xx,x[2],&xx,&n); }
      { /* packed result per point: code,proc,el (uint) r[3] d2 */
        double *res=usr_malloc(sizeof(double)*8*(size_t)npt); uint j2; for(j2=0;j2<npt;++j2) { double *q=res+8*(size_t)j2; q[0]=AT(uint,code,cs,j2); q[1]=AT(uint,proc,ps,j2); q[2]=AT(uint,el,es,j2); for(i=0;i<3;++i) q[3+i]= i<D?(&AT(double,r,rs,j2))[i]:0; q[6]=AT(double,d2,ds,j2); q[7]=0; for(i=0;i<D;++i) if(AT(double,x[i],xs[i],j2)!=((const double*)k->p[0])[(size_t)j2*D+i]) q[7]=1; }
        wl_out(op,0,res,sizeof(double)*8*(size_t)npt); free(res); }
    } else { /* EVAL: p[0] = points as found (packed doubles, supplied by host), p[1]= field */
      const double *pt=(const double*)k->p[0]; uint j; double *in=dupmem(k->p[1],sizeof(double)*(size_t)f->nel*f->n[0]*f->n[1]*f->n[2]);
      for(j=0;j<npt;++j) { const double *q=pt+8*(size_t)j; AT(uint,code,cs,j)=(uint)q[0]; AT(uint,proc,ps,j)=(uint)q[1]; AT(uint,el,es,j)=(uint)q[2]; for(i=0;i<D;++i) (&AT(double,r,rs,j))[i]=q[3+i]; AT(double,out,os,j)=-12345.5; }
      if(o->a[2]) { /* local */ sint e=es/4,rr=rs/8,oo=os/8,n=npt; if(f->ms) F(findptsms_eval_local)(&f->fh,out,&oo,(sint*)el,&e,r,&rr,&n,in); else F(findpts_eval_local)(&f->fh,out,&oo,(sint*)el,&e,r,&rr,&n,in); }
      else if(!f->fortran) {
        if(D==2) { if(f->ms) findptsms_eval_2(out,os,code,cs,proc,ps,el,es,r,rs,npt,in,f->fd); else findpts_eval_2(out,os,code,cs,proc,ps,el,es,r,rs,npt,in,f->fd); }
        else { if(f->ms) findptsms_eval_3(out,os,code,cs,proc,ps,el,es,r,rs,npt,in,f->fd); else findpts_eval_3(out,os,code,cs,proc,ps,el,es,r,rs,npt,in,f->fd); }
      } else { sint a=cs/4,b=ps/4,e=es/4,rr=rs/8,oo=os/8,n=npt; if(f->ms) F(findptsms_eval)(&f->fh,out,&oo,(sint*)code,&a,(sint*)proc,&b,(sint*)el,&e,r,&rr,&n,in); else F(findpts_eval)(&f->fh,out,&oo,(sint*)code,&a,(sint*)proc,&b,(sint*)el,&e,r,&rr,&n,in); }
      { double *res=usr_malloc(sizeof(double)*(size_t)npt); for(j=0;j<npt;++j) res[j]=AT(double,out,os,j); wl_out(op,0,res,sizeof(double)*(size_t)npt); free(res); }
      free(in);
    }
    if(aos) free(blk); else { free(code); free(proc); free(el); free(sess); free(r); free(d2); for(i=0;i<3;++i) free(x[i]); free(out); }
  }
}

void wl_rank(const struct wprog *P, int rank)
{
  int op; uint i;
  comm_init(&C[0],MPI_COMM_WORLD);
  for(op=0;op<P->nops;++op) run_op(P,op,rank);
  for(i=0;i<NBUF;++i) buffer_free(&B[i]);
  wl_begin(P->nops);
  comm_free(&C[0]);
}
