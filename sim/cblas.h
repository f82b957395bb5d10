/* Stand-in for the system's BLAS: column-major, unit stride, checked like library code. */
#ifndef SIM_CBLAS_H
#define SIM_CBLAS_H
typedef enum { CblasRowMajor=101, CblasColMajor=102 } CBLAS_ORDER;
typedef CBLAS_ORDER CBLAS_LAYOUT;
typedef enum { CblasNoTrans=111, CblasTrans=112, CblasConjTrans=113 } CBLAS_TRANSPOSE;
double cblas_ddot(int n,const double *x,int incx,const double *y,int incy);
void cblas_dgemv(CBLAS_ORDER o,CBLAS_TRANSPOSE t,int m,int n,double alpha,const double *a,int lda,const double *x,int incx,double beta,double *y,int incy);
void cblas_dgemm(CBLAS_ORDER o,CBLAS_TRANSPOSE ta,CBLAS_TRANSPOSE tb,int m,int n,int k,double alpha,const double *a,int lda,const double *b,int ldb,double beta,double *c,int ldc);
#endif
