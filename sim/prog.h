/* Workload programs: one op stream executed by every rank (see wl.c), built and judged by gen.cpp. */
#ifndef PROG_H
#define PROG_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
enum optype { OP_NOP, OP_COMM_SPLIT, OP_COMM_DUP, OP_COMM_FREE, OP_BARRIER, OP_ALLREDUCE, OP_SCAN, OP_REDUCE, OP_DOT,
  OP_BCAST, OP_GATHER, OP_GS_SETUP, OP_GS, OP_GS_WAIT, OP_GS_FREE, OP_GS_UNIQUE, OP_PW_DATA,
  OP_CR_INIT, OP_CR_FREE, OP_CR_ROUTE, OP_SARRAY, OP_F_ITUPLE, OP_F_TUPLE,
  OP_NOISE_POST, OP_NOISE_SEND, OP_NOISE_WAIT, OP_YIELD, OP_MARK, OP_MISUSE,
  OP_FP_SETUP, OP_FP_FIND, OP_FP_EVAL, OP_FP_FREE, OP_SENDRECV, OP_IALLREDUCE, OP_IAR_WAIT, OP_BURST, OP_COUNT };
struct wop { int type, comm, slot; int a[16]; double d[4]; };
struct wrk { int member; long n, n2, n3; const void *p[8]; };
struct wprog { int np, nops; const struct wop *ops; const struct wrk *rk; /* rk[op*np+rank] */ };
/* host callbacks */
void wl_begin(int op);
void wl_out(int op, int which, const void *p, size_t bytes);
void wl_mark(int op, int k);
void wl_yield(void);
void wl_fail(int op, const char *what);
/* entry point in each library copy */
typedef void wl_rank_fun(const struct wprog *, int rank);
/* comm slots, gs slots, ... */
enum { NCOMM=10, NGS=14, NCR=8, NWAIT=20, NNOISE=6, NFP=4, NBUF=4, NIAR=4 };
#ifdef __cplusplus
}
#endif
#endif
