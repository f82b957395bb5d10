/* Linear algebra the library expects from outside: CBLAS in the nbc build, the application's mxm in the serial one. */
#include <stddef.h>
#include <stdlib.h>
#include <limits.h>
#include "c99.h"
#include "name.h"
#include "types.h"
#include "cblas.h"
#define AT(p,ld,t,i,j) ((t)==CblasNoTrans?(p)[(i)+(size_t)(j)*(ld)]:(p)[(j)+(size_t)(i)*(ld)])
double cblas_ddot(int n,const double *x,int ix,const double *y,int iy){ double s=0; int i; for(i=0;i<n;++i) s+=x[(size_t)i*ix]*y[(size_t)i*iy]; return s; }
void cblas_dgemv(CBLAS_ORDER o,CBLAS_TRANSPOSE t,int m,int n,double al,const double *a,int lda,const double *x,int ix,double be,double *y,int iy)
{ int i,j, rows=t==CblasNoTrans?m:n, cols=t==CblasNoTrans?n:m; if(o!=CblasColMajor||lda<(m>1?m:1)||m<0||n<0||!ix||!iy) abort();
  for(i=0;i<rows;++i) { double s=0; for(j=0;j<cols;++j) s+=AT(a,lda,t,i,j)*x[(size_t)j*ix]; y[(size_t)i*iy]= be==0 ? al*s : al*s+be*y[(size_t)i*iy]; } }
void cblas_dgemm(CBLAS_ORDER o,CBLAS_TRANSPOSE ta,CBLAS_TRANSPOSE tb,int m,int n,int k,double al,const double *a,int lda,const double *b,int ldb,double be,double *c,int ldc)
{ int i,j,l; if(o!=CblasColMajor||m<0||n<0||k<0||lda<(ta==CblasNoTrans?m:k)||ldb<(tb==CblasNoTrans?k:n)||ldc<m) abort();
  for(j=0;j<n;++j) for(i=0;i<m;++i) { double s=0; for(l=0;l<k;++l) s+=AT(a,lda,ta,i,l)*AT(b,ldb,tb,l,j); c[i+(size_t)j*ldc]= be==0 ? al*s : al*s+be*c[i+(size_t)j*ldc]; } }
/* C (na x nc) = A (na x nb) * B (nb x nc) */
void GS_FORTRAN_NAME(mxm,MXM)(const double *A,const uint *na,const double *B,const uint *nb,double *C,const uint *nc)
{ uint i,j,k; for(j=0;j<*nc;++j) for(i=0;i<*na;++i) { double s=0; for(k=0;k<*nb;++k) s+=A[i+*na*k]*B[k+*nb*j]; C[i+*na*j]=s; } }
