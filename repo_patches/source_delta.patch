From 8a6b601ced01005ab9322dc385fea91dc2e6937d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 01/21] fix: set the nonblocking entry points of crystal-router
 gs handles

cr_setup left exec_irecv, exec_isend and exec_wait uninitialised, so igs on
such a handle (also when gs_auto picked it) called a garbage pointer.
---
 src/gs.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/gs.c b/src/gs.c
index e3a7b70..4f63f3f 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -938,6 +938,10 @@ static void cr_setup(struct gs_remote *r, struct gs_topology *top,
   r->buffer_size = crd->buffer_size;
   r->data = crd;
   r->exec = (exec_fun*)&cr_exec;
+  /* the staged exchange cannot be split; igs performs all of it */
+  r->exec_irecv = (exec_fun*)&cr_exec;
+  r->exec_isend = NULL;
+  r->exec_wait = NULL;
   r->fin = (fin_fun*)&cr_free;
 }
 
-- 
2.43.0


From 4410ffa9d85c91995d1134929ac2b92cacd5b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 02/21] fix: complete comm_iallreduce when it does not post
 MPI_Iallreduce

For an empty vector, and for operations reduced by hand, the request stayed
uninitialised although callers wait on it, and the by-hand result was left in
v while callers read it from buf.
---
 src/comm.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/comm.c b/src/comm.c
index 19507c0..0c0dacf 100644
--- a/src/comm.c
+++ b/src/comm.c
@@ -143,6 +143,9 @@ comm_allreduce_byhand:
 void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op,
                           void *v, uint vn, void *buf)
 {
+#ifdef GSLIB_USE_MPI
+  *req = MPI_REQUEST_NULL; /* for the paths that leave nothing outstanding */
+#endif
   if(vn==0) return;
 #ifdef GSLIB_USE_MPI
   {
@@ -177,6 +180,7 @@ void comm_iallreduce(comm_req *req, const struct comm *com, gs_dom dom, gs_op op
 #ifdef GSLIB_USE_MPI
 comm_allreduce_byhand:
   allreduce_imp(com,dom,op, v,vn, buf);
+  memcpy(buf,v,vn*gs_dom_size[dom]); /* the result is expected in buf */
 #endif
 }
 
-- 
2.43.0


From 5efaa0120a79b56294036bb763f7f08e5af9fb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 03/21] fix: release the request of all-reduce gs handles

Each gs_free of such a handle leaked it, as did every gs_auto setup.
---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 4f63f3f..958a309 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1072,6 +1072,7 @@ static void allreduce_free(struct allreduce_data *ard)
   free((uint*)ard->map_to_buf[1]);
   free((uint*)ard->map_from_buf[0]);
   free((uint*)ard->map_from_buf[1]);
+  free(ard->req);
   free(ard);
 }
 
-- 
2.43.0


From eb427b15071460e11070f48eb8c439fccc9929ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 04/21] fix: free the communicator duplicated by the Fortran
 gs_unique

Each call leaked one MPI communicator.
---
 src/gs.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/gs.c b/src/gs.c
index 958a309..0202f4d 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1667,5 +1667,6 @@ void fgs_unique(slong id[], const sint *n, const MPI_Fint *c, const sint *np)
   comm = tmalloc(struct comm, 1);
   comm_init_check(comm, *c, *np);
   cgs_unique(id, un, comm);
+  comm_free(comm);
   free(comm);
 }
-- 
2.43.0


From 5b0dedc510838c4e703c5c12762733171bbdf7b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 05/21] fix: stride of gs_op_fields for integer*8 fields

The element size was looked up with the Fortran datatype number, which is not
the index of gs_dom_size for datatype 3 (integer*8).
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 0202f4d..4d30ff8 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1645,7 +1645,7 @@ void fgs_fields(const sint *handle,
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-  offset = *stride * gs_dom_size[*dom-1];
+  offset = *stride * gs_dom_size[fgs_dom[*dom]];
   for(i=*n;i;--i) *p++ = u, u = (char*)u + offset;
 
   cgs_many((void *const*)fgs_fields_array.ptr,*n,
-- 
2.43.0


From 7fec797b45823faba3b53b88c2b451ba544bdc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 06/21] fix: keep the list of arrays of an outstanding igs_many

gs_wait read it through the caller's pointer, which the Fortran igs_op_many
takes from its own, by then dead, stack frame.
---
 src/gs.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 4d30ff8..90763a0 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1304,6 +1304,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->transpose,
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
+    if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1365,7 +1366,8 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
 
   nblkng_dict[nblkng_n] = tmalloc(struct nonblocking_private, 1);
 
-  nblkng_dict[nblkng_n]->u = (void *)u;
+  /* the caller's list of arrays need not outlive this call */
+  nblkng_dict[nblkng_n]->u = memcpy(tmalloc(void*,vn),u,vn*sizeof(void*));
   nblkng_dict[nblkng_n]->dom = dom;
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
-- 
2.43.0


From 6ab9ab18d48633d3a24b1b6050824111b98b51a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 07/21] fix: give each igs without a buffer one of its own
 until gs_wait

Overlapping operations (every Fortran igs_op*) all used the static buffer, so
the second overwrote, or reallocated, the message buffers of the first, and a
blocking gs in between did the same.
---
 src/gs.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 90763a0..f7e44ed 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1252,7 +1252,7 @@ struct nonblocking_private {
   gs_op op;
   unsigned transpose;
   struct gs_data *gsh;
-  buffer *buf;
+  buffer *buf, own;
   unsigned vn;
 };
 
@@ -1263,6 +1263,14 @@ static int nblkng_max = 0;
 static int nblkng_n = 0;
 static int nblkng_count = 0;
 
+/* the static buffer cannot be shared by operations that overlap in time */
+static void nblkng_own_buffer(nblkng p, buffer **buf)
+{
+  const buffer none = null_buffer;
+  p->own = none;
+  if(!*buf) *buf = &p->own;
+}
+
 void gs(void *u, gs_dom dom, gs_op op, unsigned transpose,
         struct gs_data *gsh, buffer *buf)
 {
@@ -1282,6 +1290,7 @@ void igs(void *u, gs_dom dom, gs_op op, unsigned transpose,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  nblkng_own_buffer(nblkng_dict[nblkng_n],&buf);
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->mode = mode_plain;
   nblkng_dict[nblkng_n]->vn = 1;
@@ -1305,6 +1314,7 @@ void gs_wait(int handle)
 	        nblkng_dict[handle]->gsh,
 	        nblkng_dict[handle]->buf);
     if(nblkng_dict[handle]->mode==mode_many) free(nblkng_dict[handle]->u);
+    buffer_free(&nblkng_dict[handle]->own);
     free(nblkng_dict[handle]);
     nblkng_dict[handle] = 0;
     nblkng_count--;
@@ -1339,6 +1349,7 @@ void igs_vec(void *u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  nblkng_own_buffer(nblkng_dict[nblkng_n],&buf);
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_vec;
@@ -1372,6 +1383,7 @@ void igs_many(void *const*u, unsigned vn, gs_dom dom, gs_op op,
   nblkng_dict[nblkng_n]->op = op;
   nblkng_dict[nblkng_n]->transpose = transpose;
   nblkng_dict[nblkng_n]->gsh = gsh;
+  nblkng_own_buffer(nblkng_dict[nblkng_n],&buf);
   nblkng_dict[nblkng_n]->buf = buf;
   nblkng_dict[nblkng_n]->vn = vn;
   nblkng_dict[nblkng_n]->mode = mode_many;
-- 
2.43.0


From 25377af96763005207231afef6759aee0e4b86bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 08/21] fix: sign when sarray_transfer_many cuts off rows that
 do not fit

The last message was lengthened where it had to be shortened, so the rows were
unpacked beyond the end of the caller's fixed-size arrays.
---
 src/sarray_transfer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 5f94192..771982a 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -125,7 +125,7 @@ static uint cap_rows(buffer *const data, const unsigned row_size,const uint max)
     uint len=buf[2]; n+=len;
     if(n<maxn) buf+=len+3;
     else {
-      buf[2]-=(maxn-n); data->n = (buf-(uint*)data->ptr)+3+buf[2];
+      buf[2]-=(n-maxn); data->n = (buf-(uint*)data->ptr)+3+buf[2];
       buf+=len+3;
       while(buf!=buf_end) { uint len=buf[2]; n+=len, buf+=len+3; }
       break;
-- 
2.43.0


From a1bc91af36ffe1386adffb350c7130c23bcde25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:28 +0000
Subject: [PATCH 09/21] fix: transfer rows that consist of the destination only

With nothing else in the row its packed size was zero, and counting the rows
received divided by it.
---
 src/sarray_transfer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sarray_transfer.c b/src/sarray_transfer.c
index 771982a..ef3da1c 100644
--- a/src/sarray_transfer.c
+++ b/src/sarray_transfer.c
@@ -148,6 +148,7 @@ uint sarray_transfer_many(
   if(!ext) off1 -= sizeof(uint);
   row_size=off1; for(i=1;i<An;++i) row_size += size[i];
   row_size = (row_size+sizeof(uint)-1)/sizeof(uint);
+  if(row_size==0) row_size=1; /* rows are counted even when they are empty */
   
   perm = sortp(&cr->work,0, proc,A[0]->n,proc_stride);
 
-- 
2.43.0


From 62ea44394b1a2b72cd50fda8a326005277b2926e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 10/21] fix: leave flagged entries alone in transposed gs when
 they repeat locally

With transpose=1 the flagged members of a group are not to be set on output.
A flagged primary with further flagged entries of the same id on the process
(always the case for the duplicates of a unique handle whose owner is
elsewhere) came back holding the partial sum. Save and restore those.
---
 src/gs.c | 56 ++++++++++++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 54 insertions(+), 2 deletions(-)

diff --git a/src/gs.c b/src/gs.c
index f7e44ed..65a7f71 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -375,6 +375,30 @@ static const uint *flagged_primaries_map(const struct array *nz, uint *mem_size)
   return map;
 }
 
+/* flagged primaries that stand for further (flagged) local entries; in the
+   transpose mode these hold a partial result, but are not to be set on output.
+   map[0] copies them to a buffer, map[1] copies them back */
+static uint flagged_saves_map(const uint *map[2], const struct array *nz,
+                              uint *mem_size)
+{
+  uint *p, *q, n=0;
+  const struct nonzero_id *row, *end;
+#define FOR_EACH_SAVE(stmt) do \
+    for(row=nz->ptr,end=row+nz->n;row!=end;++row)                    \
+      if(row->i==row->primary && row->flag==1 &&                     \
+         row+1!=end && row[1].id==row->id) stmt;                     \
+  while(0)
+  FOR_EACH_SAVE(++n);
+  map[0] = p = tmalloc(uint,2*(3*n+1)), map[1] = q = p+3*n+1;
+  *mem_size += 2*(3*n+1)*sizeof(uint);
+  n=0;
+  FOR_EACH_SAVE(( *p++ = row->i, *p++ = n     , *p++ = UINT_MAX,
+                  *q++ = n     , *q++ = row->i, *q++ = UINT_MAX, ++n ));
+#undef FOR_EACH_SAVE
+  *p = *q = UINT_MAX;
+  return n;
+}
+
 /*------------------------------------------------------------------------------
   Remote execution and setup
 ------------------------------------------------------------------------------*/
@@ -1162,6 +1186,7 @@ struct gs_data {
   struct comm comm;
   const uint *map_local[2]; /* 0=unflagged, 1=all */
   const uint *flagged_primaries;
+  const uint *flagged_saves[2]; uint flagged_saves_n;
   struct gs_remote r;
   uint handle_size;
 };
@@ -1169,6 +1194,25 @@ struct gs_data {
 /*------------------------------------------------------------------------------
   GS_AUX - blocking and non-blocking
 ------------------------------------------------------------------------------*/
+/* saved values are kept in the buffer after the part used for communication */
+static void flagged_save(const void *u, gs_mode mode, unsigned vn, gs_dom dom,
+                         const struct gs_data *gsh, buffer *buf)
+{
+  static gs_scatter_fun *const save[] =
+    { &gs_scatter, &gs_scatter_vec, &gs_scatter_many_to_vec, &scatter_noop };
+  save[mode]((char*)buf->ptr+vn*gs_dom_size[dom]*gsh->r.buffer_size,u,
+             vn,gsh->flagged_saves[0],dom);
+}
+
+static void flagged_restore(void *u, gs_mode mode, unsigned vn, gs_dom dom,
+                            const struct gs_data *gsh, buffer *buf)
+{
+  static gs_scatter_fun *const restore[] =
+    { &gs_scatter, &gs_scatter_vec, &gs_scatter_vec_to_many, &scatter_noop };
+  restore[mode](u,(char*)buf->ptr+vn*gs_dom_size[dom]*gsh->r.buffer_size,
+                vn,gsh->flagged_saves[1],dom);
+}
+
 static void gs_aux(
   void *u, gs_mode mode, unsigned vn, gs_dom dom, gs_op op, unsigned transpose,
   struct gs_data *gsh, buffer *buf)
@@ -1180,11 +1224,14 @@ static void gs_aux(
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
   if(!buf) buf = &static_buffer;
-  buffer_reserve(buf,vn*gs_dom_size[dom]*gsh->r.buffer_size);
+  buffer_reserve(buf,vn*gs_dom_size[dom]
+                     *(gsh->r.buffer_size+gsh->flagged_saves_n));
+  if(transpose) flagged_save(u,mode,vn,dom,gsh,buf);
   local_gather [mode](u,u,vn,gsh->map_local[0^transpose],dom,op);
   if(transpose==0) init[mode](u,vn,gsh->flagged_primaries,dom,op);
   gsh->r.exec(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,buf->ptr);
   local_scatter[mode](u,u,vn,gsh->map_local[1^transpose],dom);
+  if(transpose) flagged_restore(u,mode,vn,dom,gsh,buf);
 }
 
 static void gs_aux_irecv(
@@ -1198,7 +1245,9 @@ static void gs_aux_irecv(
   static gs_init_fun *const init[] =
     { &gs_init, &gs_init_vec, &gs_init_many, &init_noop };
   if(!buf) buf = &static_buffer;
-  buffer_reserve(buf,vn*gs_dom_size[dom]*gsh->r.buffer_size);
+  buffer_reserve(buf,vn*gs_dom_size[dom]
+                     *(gsh->r.buffer_size+gsh->flagged_saves_n));
+  if(transpose) flagged_save(u,mode,vn,dom,gsh,buf);
   local_gather [mode](u,u,vn,gsh->map_local[0^transpose],dom,op);
   if(transpose==0) init[mode](u,vn,gsh->flagged_primaries,dom,op);
 
@@ -1240,6 +1289,7 @@ static void gs_aux_wait(
     gsh->r.exec_wait(u,mode,vn,dom,op,transpose,gsh->r.data,&gsh->comm,buf->ptr);
 
   local_scatter[mode](u,u,vn,gsh->map_local[1^transpose],dom);
+  if(transpose) flagged_restore(u,mode,vn,dom,gsh,buf);
 }
 
 /*------------------------------------------------------------------------------
@@ -1406,6 +1456,7 @@ static uint local_setup(struct gs_data *gsh, const struct array *nz)
   gsh->map_local[0] = local_map(nz,1, &mem_size);
   gsh->map_local[1] = local_map(nz,0, &mem_size);
   gsh->flagged_primaries = flagged_primaries_map(nz, &mem_size);
+  gsh->flagged_saves_n = flagged_saves_map(gsh->flagged_saves,nz, &mem_size);
   return mem_size;
 }
 
@@ -1468,6 +1519,7 @@ void gs_free(struct gs_data *gsh)
   comm_free(&gsh->comm);
   free((uint*)gsh->map_local[0]), free((uint*)gsh->map_local[1]);
   free((uint*)gsh->flagged_primaries);
+  free((uint*)gsh->flagged_saves[0]);
   gsh->r.fin(gsh->r.data);
   free(gsh);
 }
-- 
2.43.0


From 5c9e53dd0611ffeb5d88635bcc94fc262dac3ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:38 +0000
Subject: [PATCH 11/21] fix: keep the primary first in its group for unique gs
 handles

Sorting by index and primary put a flagged entry with a lower index before the
unflagged primary, which the local maps take to be the first of its group, so
a handle set up with unique=1 was not equivalent to calling gs_unique first.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 65a7f71..2bf8a9d 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -275,7 +275,7 @@ static void make_topology_unique(struct gs_topology *top, slong *id,
     for(p=nz->ptr,e=p+nz->n;p!=e;++p)
       if(p->i != p->primary) p->flag=1;
   }
-  sarray_sort(struct nonzero_id,nz->ptr,nz->n, primary,0, buf);
+  sarray_sort_2(struct nonzero_id,nz->ptr,nz->n, primary,0, flag,0, buf);
 
   /* assign owner among shared primaries */
 
-- 
2.43.0


From b62aaaa85859afe6ac45575f55498c36f31283c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:27 +0000
Subject: [PATCH 12/21] fix: make gs_op_fields of no fields a no-op

The vector kernels run until their pointers meet and never stop for n=0.
---
 src/gs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gs.c b/src/gs.c
index 2bf8a9d..0bab3dc 100644
--- a/src/gs.c
+++ b/src/gs.c
@@ -1707,7 +1707,7 @@ void fgs_fields(const sint *handle,
   uint i;
 
   fgs_check_parms(*handle,*dom,*op,"gs_op_fields",__LINE__);
-  if(*n<0) return;
+  if(*n<=0) return;
 
   array_reserve(void*,&fgs_fields_array,*n);
   p = fgs_fields_array.ptr;
-- 
2.43.0


From 8c7a0ddc5efd3ecfd802c98b040ad6435a5ebd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 13/21] fix: let point search leave a corner or edge of the
 starting guess

A constraint that was active from the start has dr[d]==0, so the product
dr[d]*y[d] never asked for it to be relaxed and the search converged on a
corner although a point nearer by lay on the adjoining edge or face.
---
 src/findpts_el_2.c | 2 +-
 src/findpts_el_3.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index aad9aad..f5e246d 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -455,7 +455,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     for(d=0;d<2;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(c==1 ? y[d]>0 : y[d]<0) flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index 62561ff..d48dfc0 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -693,7 +693,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     for(d=0;d<3;++d) {
       unsigned c = flags>>(2*d) & 3u;
       if(c==0) continue;
-      else if(dr[d]*y[d]<0) flags &= ~(3u<<(2*d));
+      else if(c==1 ? y[d]>0 : y[d]<0) flags &= ~(3u<<(2*d));
 #ifdef DIAGNOSTICS_1
       if( (c==1&&dr[d]>0) || (c==2&&dr[d]<0) )
         printf("FAIL! c=%u, dr[d]=%g\n",c,dr[d]);
-- 
2.43.0


From 64aeb731129525a57792504308a0b2858947c33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:27 +0000
Subject: [PATCH 14/21] fix: evaluate at the points given, not those of the
 first findpts_eval

findpts_eval saves the points of its first call after a search; later calls
evaluated at the saved points whatever points they were given, and wrote
past the end of a shorter output.
---
 src/findpts_imp.h | 63 ++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 57 insertions(+), 6 deletions(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 8c08479..ea80a2a 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -38,6 +38,8 @@
 #define findpts_free          GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_free_ ),D)
 #define findpts               GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_      ),D)
 #define findpts_eval          GS_TOKEN_PASTE(GS_PREFIXED_NAME(findpts_eval_ ),D)
+#define free_fev_aux          GS_TOKEN_PASTE(free_fev_aux_,D)
+#define same_fev_aux          GS_TOKEN_PASTE(same_fev_aux_,D)
 #define setup_fev_aux         GS_TOKEN_PASTE(setup_fev_aux_,D)
 
 struct hash_data {
@@ -217,7 +219,7 @@ struct findpts_data {
   struct crystal cr;
   struct findpts_local_data local;
   struct hash_data hash;
-  struct array savpt;
+  struct array savpt, savsrc;
   struct findpts_dummy_ms_data fdms;
   uint   fevsetup;
 };
@@ -256,12 +258,22 @@ struct findpts_data *findptsms_setup(
   return fd;
 }
 
+/* forget the points saved by findptsms_eval */
+static void free_fev_aux(struct findpts_data *const fd)
+{
+  if (fd->fevsetup==1) {
+    array_free(&fd->savpt);
+    array_free(&fd->savsrc);
+    fd->fevsetup=0;
+  }
+}
+
 void findptsms_free(struct findpts_data *fd)
 {
   hash_free(&fd->hash);
   findptsms_local_free(&fd->local);
   crystal_free(&fd->cr);
-  if (fd->fevsetup==1) array_free(&fd->savpt);
+  free_fev_aux(fd);
   free(fd);
 }
 
@@ -278,10 +290,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
                  const uint   *const session_id_match, const uint                   npt,
                        struct findpts_data *const fd)
 {
-  if (fd->fevsetup==1) {
-    array_free(&fd->savpt);
-    fd->fevsetup=0;
-  }
+  free_fev_aux(fd);
   const uint np = fd->cr.comm.np, id=fd->cr.comm.id;
   struct array hash_pt, src_pt, out_pt;
   double *distv = tmalloc(double,npt);
@@ -528,6 +537,34 @@ void findptsms(        uint   *const        code_base, const unsigned       code
 struct eval_src_pt { double r[D]; uint index, proc, el; };
 struct eval_out_pt { double out; uint index, proc; };
 
+/* are these the points that were saved? */
+static int same_fev_aux(
+  const uint   *const code_base, const unsigned code_stride,
+  const uint   *const proc_base, const unsigned proc_stride,
+  const uint   *const   el_base, const unsigned   el_stride,
+  const double *const    r_base, const unsigned    r_stride,
+  const uint npt, const struct array *const savsrc)
+{
+  uint index, n=0;
+  const uint *code=code_base, *proc=proc_base, *el=el_base;
+  const double *r=r_base;
+  const struct eval_src_pt *pt=savsrc->ptr;
+  for(index=0;index<npt;++index) {
+    if(*code!=CODE_NOT_FOUND) {
+      unsigned d;
+      if(n==savsrc->n || pt->index!=index || pt->proc!=*proc || pt->el!=*el)
+        return 0;
+      for(d=0;d<D;++d) if(pt->r[d]!=r[d]) return 0;
+      ++pt, ++n;
+    }
+    r    = (const double*)((const char*)r   +   r_stride);
+    code = (const   uint*)((const char*)code+code_stride);
+    proc = (const   uint*)((const char*)proc+proc_stride);
+    el   = (const   uint*)((const char*)el  +  el_stride);
+  }
+  return n==savsrc->n;
+}
+
 static void setup_fev_aux(
   const uint   *const code_base, const unsigned code_stride,
   const uint   *const proc_base, const unsigned proc_stride,
@@ -558,6 +595,8 @@ static void setup_fev_aux(
       el   = (const   uint*)((const char*)el  +  el_stride);
     }
     src.n = pt - (struct eval_src_pt*)src.ptr;
+    array_init(struct eval_src_pt,&fd->savsrc,src.n);
+    array_cat(struct eval_src_pt,&fd->savsrc,src.ptr,src.n);
     sarray_transfer(struct eval_src_pt,&src,proc,1,&fd->cr);
   }
   /* setup space for source points*/
@@ -589,6 +628,16 @@ void findptsms_eval(
   const uint npt,
   const double *const in, struct findpts_data *const fd)
 { 
+  /* the saved points are of use when no process has been given others */
+  if (fd->fevsetup==1) {
+    sint same = same_fev_aux(code_base,code_stride,
+                             proc_base,proc_stride,
+                               el_base,  el_stride,
+                                r_base,   r_stride,
+                                   npt,&fd->savsrc), buf;
+    comm_allreduce(&fd->cr.comm,gs_sint,gs_min,&same,1,&buf);
+    if (!same) free_fev_aux(fd);
+  }
   if (fd->fevsetup==0) {
     setup_fev_aux(code_base,code_stride,
                   proc_base,proc_stride,
@@ -703,6 +752,8 @@ void findpts_eval(
 #undef findpts_setup
 #undef setup_aux
 #undef setup_fev_aux
+#undef same_fev_aux
+#undef free_fev_aux
 #undef eval_out_pt
 #undef eval_src_pt
 #undef out_pt
-- 
2.43.0


From 6dd6bc36175bca1304bd79e17c864c71a462628d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:22 +0000
Subject: [PATCH 15/21] fix: plain findpts_setup from Fortran neither leaks nor
 passes junk pointers

The two scalars allocated for the unused session arguments were never freed
(2D), and the same arguments were uninitialised (3D).
---
 src/findpts.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index c708fda..13f6f68 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -327,10 +327,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    unsigned int *nsid = tmalloc(uint,1);
-    double *distfint = tmalloc(double,1);
-    *nsid = 0;
-    *distfint = 0;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_2(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else if(h->ndim==3) {
@@ -344,8 +342,8 @@ void ffindpts_setup(sint *const handle,
     comm_init_check(&fd->cr.comm, *comm, *np);
     buffer_init(&fd->cr.data,1000);
     buffer_init(&fd->cr.work,1000);
-    const uint *nsid;
-    const double *distfint;
+    const uint *nsid = 0;
+    const double *distfint = 0;
     setupms_aux_3(fd, elx,n,*nel,m,*bbox_tol,
                 *loc_hash_size,*gbl_hash_size, *npt_max, *newt_tol, nsid, distfint,ims);
   } else
-- 
2.43.0


From 4d41d896c56e0af3027882364ac6bd9eb38801b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:02 +0000
Subject: [PATCH 16/21] fix: findpts_local no longer leaks its placeholder
 session arguments

---
 src/findpts_local_imp.h | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/findpts_local_imp.h b/src/findpts_local_imp.h
index 25cf8b0..c609c10 100644
--- a/src/findpts_local_imp.h
+++ b/src/findpts_local_imp.h
@@ -433,16 +433,9 @@ void findpts_local(
   const uint npt, struct findpts_local_data *const fd,
   buffer *buf)
 {
-    unsigned int *sess_base = tmalloc(uint,1);
-    double *disti_base = tmalloc(double,1);
-    unsigned int *elsid_base = tmalloc(uint,1);
-    unsigned int *sess_match = tmalloc(uint,1);
-    *sess_base = 0;
-    *sess_match = 0;
-    *disti_base = 0;
-    *elsid_base = 0;
-    
-
+    /* no sessions: one scalar stands for each array, with stride 0 */
+    uint sess_base=0, sess_match=0, elsid_base=0;
+    double disti_base=0;
     unsigned sess_stride=0;
     unsigned disti_stride=0;
     unsigned elsid_stride=0;
@@ -452,10 +445,10 @@ void findpts_local(
             r_base,    r_stride,
         dist2_base,dist2_stride,
             x_base,    x_stride,
-         sess_base, sess_stride,
-        disti_base,disti_stride,
-        elsid_base,elsid_stride,
-        sess_match,npt,fd,buf);
+        &sess_base, sess_stride,
+       &disti_base,disti_stride,
+       &elsid_base,elsid_stride,
+       &sess_match,npt,fd,buf);
 }
 
 /* assumes points are already grouped by elements */
-- 
2.43.0


From 2f3c97aab9f67b8a968e0a993b4cb8fd74924419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 17/21] fix: comm_split without MPI sets the new communicator's
 rank and size

They were left uninitialised, unlike in comm_dup.
---
 src/comm.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/comm.h b/src/comm.h
index 72a54fe..a384a3f 100644
--- a/src/comm.h
+++ b/src/comm.h
@@ -190,6 +190,7 @@ static void comm_split_(const struct comm *s, int bin, int key, struct comm *d,
   comm_init(d, nc);
   MPI_Comm_free(&nc);
 #else
+  d->id = s->id, d->np = s->np;
   if(s->np!=1) fail(1,file,line,"%s not compiled with -DMPI\n",file);
 #endif
 }
-- 
2.43.0


From b40a7b6c5329930d0d27fa535d25a7dd7f41e9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:56 +0000
Subject: [PATCH 18/21] fix: crystal_router links without MPI

Its overflow check called MPI_Abort in every build, so a serial program
using the router, and with it gs or findpts, did not link.
---
 src/crystal.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crystal.c b/src/crystal.c
index d7eab1f..be8b584 100644
--- a/src/crystal.c
+++ b/src/crystal.c
@@ -141,7 +141,11 @@ void crystal_router(struct crystal *p)
       fprintf(stderr, "Error in crystal_router: rank = %d send_n = %lld (> "
         "INT_MAX)\n", p->comm.id, send_n_long);
       fflush(stderr);
+#ifdef GSLIB_USE_MPI
       MPI_Abort(p->comm.c, EXIT_FAILURE);
+#else
+      die(EXIT_FAILURE);
+#endif
     }
 
     recvn = 1, targ = n-1-(id-bl)+bl;
-- 
2.43.0


From dc7500b499aa567389b0176a093a1e13ca2c63c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:50 +0000
Subject: [PATCH 19/21] fix: findpts no longer loops for ever over constraints
 relaxed by rounding error

---
 src/findpts_el_2.c | 4 +++-
 src/findpts_el_3.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/findpts_el_2.c b/src/findpts_el_2.c
index f5e246d..1b8bb09 100644
--- a/src/findpts_el_2.c
+++ b/src/findpts_el_2.c
@@ -349,7 +349,7 @@ static void newton_area(struct findpts_el_pt_2 *const out,
   double bnd[4] = { -1,1, -1,1 };
   double r0[2];
   double dr[2], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, relaxed = 0;
   
   r0[0] = p->r[0], r0[1] = p->r[1];
   
@@ -469,6 +469,8 @@ static void newton_area(struct findpts_el_pt_2 *const out,
     printf("    relaxed %x -> %x\n",old_flags,flags);
 #endif
     if(flags==old_flags) goto newton_area_fin;
+    /* rounding error can make one of the 8 sets of constraints recur for ever */
+    if(++relaxed>8) { flags=old_flags; goto newton_area_fin; }
     switch(num_constrained(flags)) {
       case 1: goto newton_area_edge;
     }
diff --git a/src/findpts_el_3.c b/src/findpts_el_3.c
index d48dfc0..476f30a 100644
--- a/src/findpts_el_3.c
+++ b/src/findpts_el_3.c
@@ -539,7 +539,7 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
   double bnd[6] = { -1,1, -1,1, -1,1 };
   double r0[3];
   double dr[3], fac;
-  unsigned d, mask, flags;
+  unsigned d, mask, flags, relaxed = 0;
   r0[0]=p->r[0],r0[1]=p->r[1],r0[2]=p->r[2];
 #ifdef DIAGNOSTICS_1
   printf("newton_vol:\n");
@@ -707,6 +707,8 @@ static void newton_vol(struct findpts_el_pt_3 *const out,
     printf("    relaxed %x -> %x\n",old_flags,flags);
 #endif
     if(flags==old_flags) goto newton_vol_fin;
+    /* rounding error can make one of the 26 sets of constraints recur for ever */
+    if(++relaxed>26) { flags=old_flags; goto newton_vol_fin; }
     switch(num_constrained(flags)) {
       case 1: goto newton_vol_face;
       case 2: goto newton_vol_edge;
-- 
2.43.0


From b949aa2a276d4b51928aa886c42bf0b140886856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:31 +0000
Subject: [PATCH 20/21] fix: findpts: keep the global hash index in 64 bits
 when routing points

With more than 2^32 global hash cells (all ranks together) the index was
truncated to 32 bits before the owner was computed from it, so points were
looked up in another cell's list and could be reported not found.
---
 src/findpts_imp.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index ea80a2a..7c14011 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -325,7 +325,7 @@ void findptsms(        uint   *const        code_base, const unsigned       code
       *proc = id;
       if ((*code!=CODE_INTERNAL && fd->local.ims==0) ||
            fd->local.ims==1) {
-        const uint hi = hash_index(&fd->hash,x);
+        const ulong hi = hash_index(&fd->hash,x);
         unsigned d;
         for(d=0;d<D;++d) pt->x[d]=x[d];
         pt->index=index;
-- 
2.43.0


From 5753beee3d06c4bdae9740ef3142717e3dd99abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:21:15 +0000
Subject: [PATCH 21/21] fix: findpts: count the cells of a rank's bounding box
 in size_t

A rank whose elements span more than 2^32 cells of the global hash table
allocated a truncated bit mask and registered its elements in wrong cells.
---
 src/findpts.c     | 10 +++++-----
 src/findpts_imp.h |  7 ++++---
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/findpts.c b/src/findpts.c
index 13f6f68..2aa2119 100644
--- a/src/findpts.c
+++ b/src/findpts.c
@@ -41,16 +41,16 @@ static ulong hash_index_aux(double low, double fac, ulong n, double x)
   return i<0 ? 0 : (n-1<(ulong)i ? n-1 : (ulong)i);
 }
 
-static void set_bit(unsigned char *const p, const uint i)
+static void set_bit(unsigned char *const p, const size_t i)
 {
-  const uint byte = i/CHAR_BIT;
+  const size_t byte = i/CHAR_BIT;
   const unsigned bit = i%CHAR_BIT;
   p[byte] |= 1u<<bit;
 }
 
-static unsigned get_bit(const unsigned char *const p, const uint i)
+static unsigned get_bit(const unsigned char *const p, const size_t i)
 {
-  const uint byte = i/CHAR_BIT;
+  const size_t byte = i/CHAR_BIT;
   const unsigned bit = i%CHAR_BIT;
   return p[byte]>>bit & 1u;
 }
@@ -62,7 +62,7 @@ static unsigned byte_bits(const unsigned char x)
   return sum;
 }
 
-static uint count_bits(unsigned char *p, uint n)
+static uint count_bits(unsigned char *p, size_t n)
 {
   uint sum=0;
   for(;n;--n) sum+=byte_bits(*p++);
diff --git a/src/findpts_imp.h b/src/findpts_imp.h
index 7c14011..ef093aa 100644
--- a/src/findpts_imp.h
+++ b/src/findpts_imp.h
@@ -130,7 +130,7 @@ static void fill_hash(struct array *const hash,
                       const ulong hn, const uint np)
 {
   struct proc_index *hp = hash->ptr;
-  #define FOR_LOOP() do { uint bit=0,i,j; WHEN_3D(uint k;) \
+  #define FOR_LOOP() do { size_t bit=0; uint i,j; WHEN_3D(uint k;) \
     WHEN_3D(for(k=0;k<local_n[2];++k)) \
             for(j=0;j<local_n[1];++j) \
             for(i=0;i<local_n[0];++i) { ulong hi; \
@@ -177,7 +177,7 @@ static void hash_build(struct hash_data *const p,
                        const uint hash_size,
                        struct crystal *cr)
 {
-  ulong local_base[D]; uint local_n[D], local_ntot=1;
+  ulong local_base[D]; uint local_n[D]; size_t local_ntot=1;
   unsigned char *local_mask;
   struct array hash; uint nc;
   unsigned d;
@@ -198,7 +198,8 @@ static void hash_build(struct hash_data *const p,
   set_local_mask(local_mask,local_base,local_n,p,obb,nel);
   nc=count_bits(local_mask,(local_ntot+CHAR_BIT-1)/CHAR_BIT);
   #ifdef DIAGNOSTICS
-  printf("findpts_hash(%u): local cells : %u / %u\n",cr->comm.id,nc,local_ntot);
+  printf("findpts_hash(%u): local cells : %u / %lu\n",cr->comm.id,nc,
+         (unsigned long)local_ntot);
   #endif
   array_init(struct proc_index,&hash,nc), hash.n=nc;
   fill_hash(&hash,local_mask,local_base,local_n,p->hash_n,cr->comm.np);
-- 
2.43.0

