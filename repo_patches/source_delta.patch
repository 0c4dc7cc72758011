From aceb0481553a6203e2d45e6dc8ac24c40821a32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:47 +0000
Subject: [PATCH 01/45] fix: new_dt() underestimates the Alfven speed where the
 cell-centered field is negative

b1 = B1c + |B1i - B1c| is the larger field magnitude only for B1c >= 0; for
a negative field it can be as small as zero, so the time step exceeds the CFL
limit. Use |B1c|, so that the limit does not depend on the sign of B.
---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 595fe3b..361125d 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -95,11 +95,11 @@ void new_dt(MeshS *pM)
 #ifdef MHD
 
 /* Use maximum of face-centered fields (always larger than cell-centered B) */
-        b1 = pGrid->U[k][j][i].B1c 
+        b1 = fabs((double)(pGrid->U[k][j][i].B1c))
           + fabs((double)(pGrid->B1i[k][j][i] - pGrid->U[k][j][i].B1c));
-        b2 = pGrid->U[k][j][i].B2c 
+        b2 = fabs((double)(pGrid->U[k][j][i].B2c))
           + fabs((double)(pGrid->B2i[k][j][i] - pGrid->U[k][j][i].B2c));
-        b3 = pGrid->U[k][j][i].B3c 
+        b3 = fabs((double)(pGrid->U[k][j][i].B3c))
           + fabs((double)(pGrid->B3i[k][j][i] - pGrid->U[k][j][i].B3c));
         bsq = b1*b1 + b2*b2 + b3*b3;
 /* compute sound speed squared */
-- 
2.43.0


From d7e73c5afe6d40c440434bac77530edf4a4bfc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:47 +0000
Subject: [PATCH 02/45] fix: new_dt() ignores particles moving in the negative
 direction

The particle CFL limit took the signed velocity, so that a fast particle with
v < 0 did not limit the time step. Use the magnitude.
---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 361125d..4e729fe 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -157,11 +157,11 @@ void new_dt(MeshS *pM)
 #ifdef PARTICLES
     for (q=0; q<pGrid->nparticle; q++) {
       if (pGrid->Nx[0] > 1)
-        max_v1 = MAX(max_v1, pGrid->particle[q].v1);
+        max_v1 = MAX(max_v1, fabs((double)(pGrid->particle[q].v1)));
       if (pGrid->Nx[1] > 1)
-        max_v2 = MAX(max_v2, pGrid->particle[q].v2);
+        max_v2 = MAX(max_v2, fabs((double)(pGrid->particle[q].v2)));
       if (pGrid->Nx[2] > 1)
-        max_v3 = MAX(max_v3, pGrid->particle[q].v3);
+        max_v3 = MAX(max_v3, fabs((double)(pGrid->particle[q].v3)));
     }
 #endif /* PARTICLES */
 
-- 
2.43.0


From 64ab91d8d42d9e9b241679cf097f5822900f1168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:33:47 +0000
Subject: [PATCH 03/45] fix: new_dt() applies the speeds of one Domain to the
 zone size of another

The maximum speeds were carried over from one Grid on this processor to the
next, so that coarse-level speeds were divided by fine-level zone sizes (even
where the fast zone lies outside of the fine level), and the time step depended
on which Grids happen to share a processor. Start afresh on every Grid.
---
 src/new_dt.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/new_dt.c b/src/new_dt.c
index 4e729fe..c0c9b15 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -77,6 +77,7 @@ void new_dt(MeshS *pM)
 
   if (pM->Domain[nl][nd].Grid != NULL) {
     pGrid=(pM->Domain[nl][nd].Grid);
+    max_v1 = max_v2 = max_v3 = 0.0;
 
 /* Maximum velocity is always c with special relativity */
 #ifdef SPECIAL_RELATIVITY
-- 
2.43.0


From fcdebf971ad59cb3ecc08b85c5ff341944190430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:00 +0000
Subject: [PATCH 04/45] fix: a SIGTERM delivered while ath_sig_act() runs is
 lost

The latch was read, then (after a global reduction with MPI) cleared
unconditionally, so that a signal arriving in between was dropped and the run
carried on. Sample the latch once and clear it only when the sample was acted
upon; a later signal stays latched for the next cycle.
---
 src/ath_signal.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/ath_signal.c b/src/ath_signal.c
index 824db28..5fb62c3 100644
--- a/src/ath_signal.c
+++ b/src/ath_signal.c
@@ -49,22 +49,23 @@ void ath_sig_init(void)
  *  At the moment, only response to SIGTERM is implemented.   */
 int ath_sig_act(int *piquit)
 {
+  int caught = sig_caught; /* sample once: the handler may run at any time */
 
 #ifdef MPI_PARALLEL
-  int ierr, sig = sig_caught > *piquit ? sig_caught : *piquit;
+  int ierr, sig = caught > *piquit ? caught : *piquit;
 
   ierr = MPI_Allreduce(&sig, piquit, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
 
 #else /* SERIAL */
 
-  *piquit = sig_caught > *piquit ? sig_caught : *piquit;
+  *piquit = caught > *piquit ? caught : *piquit;
 
 #endif /* MPI_PARALLEL */
 
-  if(sig_caught == SIGTERM)
+  if(caught == SIGTERM)
     ath_pout(0,"Caught SIGTERM: Terminating program execution\n");
 
-  sig_caught = 0; /* Reset the signal */
+  if(caught != 0) sig_caught = 0; /* Reset the signal only if acted upon */
 
   return *piquit;
 }
-- 
2.43.0


From b5bc26a3d6ccc2fdde62f454bc20fa73e7771474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:16 +0000
Subject: [PATCH 05/45] fix: wrong rank of child Grids that share a process
 with another Grid (SMR+MPI)

ID_Comm_Parent is a rank within the Comm_Children/Comm_Parent communicator, i.e.
an index of ranks[], but for a child Grid on a process which already is in the
group it was set to ranks[irank], the rank in MPI_COMM_WORLD. The two differ as
soon as the parent Domain is not updated by processes 0,1,2,... in order.
---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index ed90b88..a28499f 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -784,7 +784,7 @@ void init_mesh(MeshS *pM)
             groupn++;
             Nranks++;
           } else {
-            pCD->GData[n][m][l].ID_Comm_Parent = ranks[irank];
+            pCD->GData[n][m][l].ID_Comm_Parent = irank;
           }
         }}}
       }
-- 
2.43.0


From 0d5f4bbcea3e92173148a79bd11ed6f603c9fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:16 +0000
Subject: [PATCH 06/45] fix: data_output() overruns dump_flag[] with more than
 ten outputs

The number of outputs is limited by maxout in the <job> block, not by
MAXOUT_DEFAULT.
---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 30c419e..4107bb6 100644
--- a/src/output.c
+++ b/src/output.c
@@ -485,7 +485,7 @@ void data_output(MeshS *pM, const int flag)
   PropFun_t mypar_prop = NULL;
 #endif
   int n;
-  int dump_flag[MAXOUT_DEFAULT+1];
+  int dump_flag[out_count+1];
   char block[80];
 
 /* Loop over all elements in output array
-- 
2.43.0


From ff1e667fa338ccaa5d4685b5bd3101219fceeacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:16 +0000
Subject: [PATCH 07/45] fix: next output times do not survive a restart

They are accumulated in double precision but were written to the restart file
with 16 significant digits, so that after a restart an output could be due one
cycle earlier or later. Write 17 digits.
---
 src/output.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output.c b/src/output.c
index 4107bb6..4c96beb 100644
--- a/src/output.c
+++ b/src/output.c
@@ -521,13 +521,13 @@ void data_output(MeshS *pM, const int flag)
           } else {
 	    par_seti(block,"num","%d",OutArray[n].num,"Next Output Number");
           }
-	  par_setd(block,"time","%.15e",OutArray[n].t,"Next Output Time");
+	  par_setd(block,"time","%.16e",OutArray[n].t,"Next Output Time");
 	}
       }
 /* Now do the same for the restart output block */
       sprintf(block,"output%d",rst_out.n);
       par_seti(block,"num","%d",rst_out.num+1,"Next Output Number");
-      par_setd(block,"time","%.15e",rst_out.t,"Next Output Time");
+      par_setd(block,"time","%.16e",rst_out.t,"Next Output Time");
 
 /* Write the restart file */
       (*(rst_out.res_fun))(pM,&(rst_out));
-- 
2.43.0


From e41de933fd6372f3c4ea78ffb29bb86f669014bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:23 +0000
Subject: [PATCH 08/45] fix: par_getd_def() stores a rounded copy of the
 default

The value written to the parameter store (and from there to restart files) had
16 significant digits, so a later par_getd() of the same name, or a restarted
run, could get a different double than the caller of par_getd_def() got. Write
17 digits.
---
 src/par.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/par.c b/src/par.c
index dc3b1b2..b557a0f 100644
--- a/src/par.c
+++ b/src/par.c
@@ -324,7 +324,7 @@ double par_getd_def(char *block, char *name, double def)
     return atof(pp);
   }
 
-  par_setd(block,name,"%.15e",def,"Default Value");
+  par_setd(block,name,"%.16e",def,"Default Value");
   return def;
 }
 
-- 
2.43.0


From 74a93bf4f98e45b119f81256a430efe855b1c279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:37 +0000
Subject: [PATCH 09/45] fix: dumps of the first Domain on a level get the name
 of another Domain

pdom kept pointing at the "dom<n>" string of the last Domain of the previous
level, so that with two or more Domains on one level and Domains on the next
finer level, Domain 0 of the finer level was written as dom<n>: under the wrong
name, and overwritten by the real Domain n of that level.
---
 src/dump_binary.c  | 1 +
 src/dump_history.c | 1 +
 src/dump_tab.c     | 2 ++
 src/dump_vtk.c     | 1 +
 src/output_pdf.c   | 1 +
 src/output_pgm.c   | 1 +
 src/output_ppm.c   | 1 +
 7 files changed, 8 insertions(+)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index b803ed7..1cb2d6b 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -94,6 +94,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_history.c b/src/dump_history.c
index afae5e2..5bb6f7c 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -342,6 +342,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
           }
 #endif
 
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b859e97..4e7843f 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -73,6 +73,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
@@ -323,6 +324,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 210348c..0899632 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -94,6 +94,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pdf.c b/src/output_pdf.c
index 41852c2..4ad2c8f 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -233,6 +233,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           sprintf(pdir,"lev%d",nl);
         }
 #endif
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 1f83a52..1b1b115 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -64,6 +64,7 @@ void output_pgm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/output_ppm.c b/src/output_ppm.c
index b297079..dea1e4a 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -76,6 +76,7 @@ void output_ppm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
-- 
2.43.0


From 4eb707dd6f731f3cea33bee941105283f541b982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:37 +0000
Subject: [PATCH 10/45] fix: missing argument in init_mesh() error message
 (crash instead of the message)

---
 src/init_mesh.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index a28499f..8aa1001 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -184,7 +184,7 @@ void init_mesh(MeshS *pM)
           ath_error("[init_mesh]: Nx%d in %s must be >= 1\n",(i+1),block);
         }
         if(root_xmax[i] < root_xmin[i]) {
-          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),block);
+          ath_error("[init_mesh]: x%dmax < x%dmin in %s\n",(i+1),(i+1),block);
         }
       }
       if (nDim==1 && Nx[0]==1) {
-- 
2.43.0


From 1b5f326eb86b52e163dc498e7d87ccc325654536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:34:37 +0000
Subject: [PATCH 11/45] fix: wrong conversion in parse_slice() error message
 (crash instead of the message)

---
 src/output.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/output.c b/src/output.c
index 4c96beb..8ce5b25 100644
--- a/src/output.c
+++ b/src/output.c
@@ -1398,7 +1398,7 @@ static void parse_slice(char *block, char *axname, Real *l, Real *u, int *flag)
       *l = *u = atof(expr);
     }
     if (*l > *u) {
-      ath_error("[parse_slice]: lower slice limit %d > upper %d in %s\n",
+      ath_error("[parse_slice]: lower slice limit %g > upper %g in %s\n",
       *l,*u,expr);
     }
     free(expr);
-- 
2.43.0


From 711040ac0ecddde32eee2b53684de16a36c5a637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:14 +0000
Subject: [PATCH 12/45] fix: an empty parameter value followed by a comment
 takes the comment as its value

---
 src/par.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/par.c b/src/par.c
index b557a0f..a44c64c 100644
--- a/src/par.c
+++ b/src/par.c
@@ -702,6 +702,7 @@ static void add_par_line(Block *bp, char *line)
     str_term(nul);                  /* Terminate the value string */
   }
   else{
+    if(value == hash) value = nul;  /* Value is empty */
     str_term(hash);                 /* Terminate the value string */
 
     if(*comment == '\0')
-- 
2.43.0


From ba7ecf41b91c9c246eb87f5e53c14442f9a12950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:01 +0000
Subject: [PATCH 13/45] fix: root process adds a history row with its own part
 of Domains it is not the parent of

---
 src/dump_history.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index 5bb6f7c..e7111b2 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -101,7 +101,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
   FILE *pfile;
   char *fname,*plev=NULL,*pdom=NULL,*pdir=NULL,fmt[80];
   char levstr[8],domstr[8],dirstr[20];
-  int n, total_hst_cnt, mhst, myID_Comm_Domain=1;
+  int n, total_hst_cnt, mhst, myID_Comm_Domain=0;
 #ifdef MPI_PARALLEL
   double my_scal[NSCAL + NSCALARS + MAX_USR_H_COUNT]; /* My Volume averages */
   int ierr;
@@ -304,13 +304,13 @@ void dump_history(MeshS *pM, OutputS *pOut)
           MPI_DOUBLE, MPI_SUM, 0, pD->Comm_Domain);
 #endif
 
-/* Only the parent (rank=0) process computes the average and writes output.
- * For single-processor jobs, myID_Comm_world is always zero. */
+/* Only the parent (rank=0 in Comm_Domain) computes the average and writes
+ * output.  For single-processor jobs, myID_Comm_Domain is always zero. */
 
 #ifdef MPI_PARALLEL
         ierr = MPI_Comm_rank(pD->Comm_Domain, &myID_Comm_Domain);
 #endif
-        if((myID_Comm_Domain==0) || (myID_Comm_world==0)){  /* I'm the parent */
+        if(myID_Comm_Domain==0){  /* I'm the parent */
 
 /* Compute volume averages */
 
-- 
2.43.0


From 7f836a0e3ff1bf6d8d8e3e7b5fb781a622402261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:01 +0000
Subject: [PATCH 14/45] fix: processes may write history of refined levels
 before the root process made the directory

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index 01de31d..ae13fdb 100644
--- a/src/main.c
+++ b/src/main.c
@@ -463,6 +463,10 @@ int main(int argc, char *argv[])
     sprintf(level_dir,"lev%d",nl);
     mkdir(level_dir, 0775); /* Create directories for levels > 0 */
   }
+#ifdef MPI_PARALLEL
+/* Other processes write history files in the directories of the root process */
+  MPI_Barrier(MPI_COMM_WORLD);
+#endif
 
   gettimeofday(&tvs,NULL);
   if((have_times = times(&tbuf)) > 0)
-- 
2.43.0


From c0c72cde526ffaa5c6653da2a5b378fd17a53089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:27 +0000
Subject: [PATCH 15/45] fix: init_mesh() accepts refined Domains outside of
 every coarser Domain

---
 src/init_mesh.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 8aa1001..1fe11ff 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -474,6 +474,25 @@ void init_mesh(MeshS *pM)
     }
   }}
 
+/* Every Domain must lie in a Domain at the next coarser level.  Partial overlap
+ * was excluded above, so it is enough to find one that contains its L-edges. */
+
+  for (nl=1; nl<=maxlevel; nl++){
+  for (ncd=0; ncd<pM->DomainsPerLevel[nl]; ncd++){
+    pCD = (DomainS*)&(pM->Domain[nl][ncd]);
+    for (nd=0; nd<pM->DomainsPerLevel[nl-1]; nd++){
+      pD = (DomainS*)&(pM->Domain[nl-1][nd]);
+      for (dim=0; dim<nDim; dim++){
+        if (pCD->Disp[dim] < 2*(pD->Disp[dim]) ||
+            pCD->Disp[dim] >= 2*(pD->Disp[dim] + pD->Nx[dim])) break;
+      }
+      if (dim == nDim) break;
+    }
+    if (nd == pM->DomainsPerLevel[nl-1])
+      ath_error("[init_mesh] Domain D%d at level %d has no parent Domain\n",
+        pCD->InputBlock,nl);
+  }}
+
 /*--- Step 6: Divide each Domain into Grids, and allocate to processor(s)  ---*/
 /* Get the number of Grids in each direction.  These are given either in the
  * <domain?> block in the input file, or by automatic decomposition given the
-- 
2.43.0


From b16fb387265c2d82ab735002c3f5871ae0b22af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:27 +0000
Subject: [PATCH 16/45] fix: crash when a refined Domain is divided into Grids
 with odd numbers of cells

---
 src/init_mesh.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 1fe11ff..6823e08 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -643,6 +643,20 @@ void init_mesh(MeshS *pM)
         }
       }
 
+/* Edges of refined Grids must be edges of cells on the next coarser level */
+
+      if (nl > 0) {
+        for(n=0; n<(pD->NGrid[2]); n++){
+        for(m=0; m<(pD->NGrid[1]); m++){
+        for(l=0; l<(pD->NGrid[0]); l++){
+          for (i=0; i<nDim; i++) {
+            if (pD->GData[n][m][l].Disp[i] % 2 != 0)
+              ath_error("[init_mesh]: %s/NGrid_x%d = %d gives Grids with an odd number of cells\n",
+                block,(i+1),pD->NGrid[i]);
+          }
+        }}}
+      }
+
     }  /* end loop over ndomains */
   }    /* end loop over nlevels */
 
-- 
2.43.0


From 7192f53984f5dfda3203d7ab91e07d65526cd128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:27 +0000
Subject: [PATCH 17/45] fix: wrong ghost zones when a Domain is divided into
 Grids smaller than the ghost zones

---
 src/init_mesh.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/init_mesh.c b/src/init_mesh.c
index 6823e08..594ca00 100644
--- a/src/init_mesh.c
+++ b/src/init_mesh.c
@@ -569,6 +569,14 @@ void init_mesh(MeshS *pM)
         xdiv[i] = div(pD->Nx[i], pD->NGrid[i]);
       }
 
+/* Ghost zones are filled from the active zones of the adjacent Grid only */
+
+      for (i=0; i<3; i++) {
+        if (pD->NGrid[i] > 1 && xdiv[i].quot < nghost)
+          ath_error("[init_mesh]: %s/NGrid_x%d = %d gives Grids with less than nghost=%d cells\n",
+            block,(i+1),pD->NGrid[i],nghost);
+      }
+
 /* Distribute cells in Domain to Grids.  Assign each Grid to a processor ID in
  * the MPI_COMM_WORLD communicator.  For single-processor jobs, there is only
  * one ID=0, and the GData array will have only one element. */
-- 
2.43.0


From 6e8933142fa214ee37e719b2db70706690857573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:30 +0000
Subject: [PATCH 18/45] fix: MPI request arrays too small for Grids with
 several parents (SMR)

---
 src/smr.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/smr.c b/src/smr.c
index 0b3b8f3..82e247c 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -2003,6 +2003,7 @@ void SMR_init(MeshS *pM)
         max2 = MAX(max2,(pG->Nx[1]+1));
         max3 = MAX(max3,(pG->Nx[2]+1));
         maxCG = MAX(maxCG,pG->NCGrid);
+        maxCG = MAX(maxCG,pG->NPGrid);
       }
     }
   }
-- 
2.43.0


From 45ff045d21a13fb188e592c457396d7f1de80cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:30 +0000
Subject: [PATCH 19/45] fix: face fields not restricted where a child overlaps
 a single row of a parent Grid (SMR, MPI)

---
 src/smr.c | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 82e247c..50bf05f 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -242,16 +242,16 @@ void RestrictCorrect(MeshS *pM)
         if (nDim == 2){  /* 2D problem */
 /* Restrict B1i */
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics  ; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[kcs][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[kcs][j][i] = *(pRcv++);
             }
 
-            pG->B1i[kcs][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -263,7 +263,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B2i */
           /* Set B2i at jcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[2] == NULL) {pG->B2i[kcs][jcs][i] = *(pRcv++);}
             else {pRcv++;}
@@ -277,7 +277,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B2i at jce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[3] == NULL) {pG->B2i[kcs][jce+1][i] = *(pRcv++);}
             else {pRcv++;}
@@ -296,16 +296,16 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B1i */
           for (k=kcs  ; k<=kce; k++) {
           for (j=jcs  ; j<=jce; j++) {
-          for (i=ics+1; i<=ice; i++) {
+          for (i=ics  ; i<=ice; i++) {
             /* Set B1i at ics if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
-            if (i==ics+1){
+            if (i==ics){
               if (pCO->myFlx[0] == NULL) {pG->B1i[k][j][ics] = *(pRcv++);}
               else {pRcv++;}
+            } else {
+              pG->B1i[k][j][i] = *(pRcv++);
             }
 
-            pG->B1i[k][j][i] = *(pRcv++);
-
             /* Set B1i at ice+1 if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
             if (i==ice){
@@ -316,7 +316,7 @@ void RestrictCorrect(MeshS *pM)
           }}}
 
 /* Restrict B2i */
-        if(jcs < jce){
+        if(jcs <= jce){
           for (k=kcs  ; k<=kce; k++) {
             /* Set B2i at jcs if no flux correction will be made.  Increment
              * pointer even if value in Rcv pointer is ignored. */
@@ -342,7 +342,7 @@ void RestrictCorrect(MeshS *pM)
 /* Restrict B3i */
           /* Set B3i at kcs if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[4] == NULL) {pG->B3i[kcs][j][i] = *(pRcv++);}
@@ -357,7 +357,7 @@ void RestrictCorrect(MeshS *pM)
 
           /* Set B3i at kce+1 if no flux correction will be made.  Increment
            * pointer even if value in Rcv pointer is ignored. */
-        if(kcs < kce){
+        if(kcs <= kce){
           for (j=jcs; j<=jce; j++) {
           for (i=ics; i<=ice; i++) {
             if (pCO->myFlx[5] == NULL) {pG->B3i[kce+1][j][i] = *(pRcv++);}
-- 
2.43.0


From 01852d047b8f4a648cd0bb1aff7c6d20dd179281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:30 +0000
Subject: [PATCH 20/45] fix: EMF corrections applied twice between child Grids
 that touch the edge of a parent Grid (SMR, MPI)

---
 src/smr.c | 73 ++++++++++++++++++++++++++++++++++++++++---------------
 1 file changed, 54 insertions(+), 19 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 50bf05f..c45c07e 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -88,7 +88,7 @@ void RestrictCorrect(MeshS *pM)
   int n;
 #endif
 #ifdef MHD
-  int ib,jb,kb,nFld=0;
+  int ib,jb,kb,nFld=0,atEdge[6];
 #endif
 #ifdef MPI_PARALLEL
   int ierr,mAddress,mIndex,mCount;
@@ -476,6 +476,20 @@ void RestrictCorrect(MeshS *pM)
 #ifdef MHD
       if (nDim > 1) {
 
+/* Check which edges of the overlap region are edges of the child Domain.  Other
+ * edges are between MPI Grids on the child or on this Domain */
+
+      {
+        DomainS *pCD = (DomainS*)&(pM->Domain[nl+1][pCO->DomN]);
+        int ijks[3] = {pG->is,pG->js,pG->ks};
+        for (dim=0; dim<3; dim++) {
+          atEdge[2*dim  ] = (2*(pCO->ijks[dim]-ijks[dim]+pG->Disp[dim]) ==
+                             pCD->Disp[dim]);
+          atEdge[2*dim+1] = (2*(pCO->ijke[dim]-ijks[dim]+pG->Disp[dim]+1) ==
+                             pCD->Disp[dim] + pCD->Nx[dim]);
+        }
+      }
+
 /* On x1-faces; correct B1i, B2i, B3i */
 
       for (dim=0; dim<2; dim++){
@@ -511,7 +525,7 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             * other child Grid */
             jj = jce-jcs+1;
             SMRemf3[kk][jj] = *(pRcv++);
-            if((pCO->myEMF3[3] != NULL) || (jce==pG->je) || (ice<ics)){
+            if((pCO->myEMF3[3] != NULL) || (jce==pG->je) || (ice<ics && atEdge[3])){
               pG->B2i[k][jce+1][i] +=
                 q1*(pCO->myEMF3[dim][kk][jj] - SMRemf3[kk][jj]);
             }
@@ -528,9 +542,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B1i[jce+1].  Normally this is done as correction at x2-boundary */
           if (ice < ics) {
             for (k=kcs, kk=0; k<=kce; k++, kk++) {
-              pG->B1i[k][jcs-1][ib] -=
+              if (atEdge[2]) pG->B1i[k][jcs-1][ib] -=
                 q2*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
-              pG->B1i[k][jce+1][ib] +=
+              if (atEdge[3]) pG->B1i[k][jce+1][ib] +=
                 q2*(pCO->myEMF3[dim][kk][jce-jcs+1] - SMRemf3[kk][jce-jcs+1]);
             }
           }
@@ -550,7 +564,7 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             kk = kce-kcs+1;
             for (j=jcs, jj=0; j<=jce  ; j++, jj++) {
               SMRemf2[kk][jj] = *(pRcv++); 
-              if((pCO->myEMF2[5] != NULL) || (kce==pG->ke) || (ice<ics)){
+              if((pCO->myEMF2[5] != NULL) || (kce==pG->ke) || (ice<ics && atEdge[5])){
                 pG->B3i[kce+1][j][i] -= 
                   q1*(pCO->myEMF2[dim][kk][jj] - SMRemf2[kk][jj]);
               }
@@ -567,9 +581,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B1i[kce+1].  Normally this is done as correction at x3-boundary */
             if (ice < ics) {
               for (j=jcs, jj=0; j<=jce; j++, jj++) {
-                pG->B1i[kcs-1][j][ib] +=
+                if (atEdge[4]) pG->B1i[kcs-1][j][ib] +=
                   q3*(pCO->myEMF2[dim][0][jj] - SMRemf2[0][jj]);
-                pG->B1i[kce+1][j][ib] -=
+                if (atEdge[5]) pG->B1i[kce+1][j][ib] -=
                   q3*(pCO->myEMF2[dim][kce-kcs+1][jj] - SMRemf2[kce-kcs+1][jj]);
               }
             }
@@ -590,6 +604,13 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
               pG->U[k][j][i].B2c = 0.5*(pG->B2i[k][j][i] + pG->B2i[k][j+1][i]);
             }
           }
+          if (ice < ics) {
+            for (k=kcs-(nDim==3); k<=kce+(nDim==3); k++) {
+            for (j=jcs-1; j<=jce+1; j++) {
+              pG->U[k][j][ib  ].B1c=0.5*(pG->B1i[k][j][ib]+pG->B1i[k][j][ib+1]);
+              pG->U[k][j][ib-1].B1c=0.5*(pG->B1i[k][j][ib-1]+pG->B1i[k][j][ib]);
+            }}
+          }
         }
       }
 
@@ -622,7 +643,7 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             * other child Grid */
             ii = ice-ics+1;
             SMRemf3[kk][ii] = *(pRcv++);
-            if ((pCO->myEMF3[1] != NULL) || (ice==pG->ie) || (jce<jcs)){
+            if ((pCO->myEMF3[1] != NULL) || (ice==pG->ie) || (jce<jcs && atEdge[1])){
               pG->B1i[k][j][ice+1] -=
                 q2*(pCO->myEMF3[dim][kk][ii] - SMRemf3[kk][ii]);
             }
@@ -638,9 +659,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B2i[ice+1].  Normally this is done as correction at x1-boundary */
           if (jce < jcs) {
             for (k=kcs, kk=0; k<=kce; k++, kk++) {
-              pG->B2i[k][jb][ics-1] += 
+              if (atEdge[0]) pG->B2i[k][jb][ics-1] += 
                 q1*(pCO->myEMF3[dim][kk][0] - SMRemf3[kk][0]);
-              pG->B2i[k][jb][ice+1] -= 
+              if (atEdge[1]) pG->B2i[k][jb][ice+1] -= 
                 q1*(pCO->myEMF3[dim][kk][ice-ics+1] - SMRemf3[kk][ice-ics+1]);
             }
           }
@@ -660,7 +681,7 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             kk = kce-kcs+1;
             for (i=ics, ii=0; i<=ice  ; i++, ii++) {
               SMRemf1[kk][ii] = *(pRcv++);
-              if((pCO->myEMF1[5] != NULL) || (kce==pG->ke) || (jce<jcs)){
+              if((pCO->myEMF1[5] != NULL) || (kce==pG->ke) || (jce<jcs && atEdge[5])){
                 pG->B3i[kce+1][j][i] +=
                   q2*(pCO->myEMF1[dim][kk][ii] - SMRemf1[kk][ii]);
               }
@@ -677,9 +698,9 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * B2i[kce+1].  Normally this is done as correction at x3-boundary */
             if (jce < jcs) {
               for (i=ics, ii=0; i<=ice; i++, ii++) {
-                pG->B2i[kcs-1][jb][i] -= 
+                if (atEdge[4]) pG->B2i[kcs-1][jb][i] -= 
                   q3*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
-                pG->B2i[kce+1][jb][i] += 
+                if (atEdge[5]) pG->B2i[kce+1][jb][i] += 
                   q3*(pCO->myEMF1[dim][kce-kcs+1][ii] - SMRemf1[kce-kcs+1][ii]);
               }
             }
@@ -700,6 +721,13 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
               pG->U[k][jb-1][i].B2c=0.5*(pG->B2i[k][jb-1][i]+pG->B2i[k][jb][i]);
             }
           }
+          if (jce < jcs) {
+            for (k=kcs-(nDim==3); k<=kce+(nDim==3); k++) {
+            for (i=ics-1; i<=ice+1; i++) {
+              pG->U[k][jb  ][i].B2c=0.5*(pG->B2i[k][jb][i]+pG->B2i[k][jb+1][i]);
+              pG->U[k][jb-1][i].B2c=0.5*(pG->B2i[k][jb-1][i]+pG->B2i[k][jb][i]);
+            }}
+          }
         }
       }
 
@@ -733,7 +761,7 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
           jj = jce-jcs+1;
           for (i=ics, ii=0; i<=ice  ; i++, ii++) {
             SMRemf1[jj][ii] = *(pRcv++);
-            if((pCO->myEMF1[3] != NULL) || (jce==pG->je) || (kce<kcs)){
+            if((pCO->myEMF1[3] != NULL) || (jce==pG->je) || (kce<kcs && atEdge[3])){
               pG->B2i[k][jce+1][i] -=
                 q3*(pCO->myEMF1[dim][jj][ii] - SMRemf1[jj][ii]);
             }
@@ -751,7 +779,7 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             * other child Grid */
             ii = ice-ics+1;
             SMRemf2[jj][ii] = *(pRcv++);
-            if ((pCO->myEMF2[1] != NULL) || (ice==pG->ie) || (kce<kcs)){
+            if ((pCO->myEMF2[1] != NULL) || (ice==pG->ie) || (kce<kcs && atEdge[1])){
               pG->B1i[k][j][ice+1] +=
                 q3*(pCO->myEMF2[dim][jj][ii] -SMRemf2[jj][ii]);
             }
@@ -771,15 +799,15 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
  * x1- and x2-boundaries */
           if (kce < kcs) {
             for (j=jcs, jj=0; j<=jce; j++, jj++) {
-              pG->B3i[kb][j][ics-1] -=
+              if (atEdge[0]) pG->B3i[kb][j][ics-1] -=
                 q1*(pCO->myEMF2[dim][jj][0] - SMRemf2[jj][0]);
-              pG->B3i[kb][j][ice+1] +=
+              if (atEdge[1]) pG->B3i[kb][j][ice+1] +=
                 q1*(pCO->myEMF2[dim][jj][ice-ics+1] - SMRemf2[jj][ice-ics+1]);
             }
             for (i=ics, ii=0; i<=ice; i++, ii++) {
-              pG->B3i[kb][jcs-1][i] +=
+              if (atEdge[2]) pG->B3i[kb][jcs-1][i] +=
                 q2*(pCO->myEMF1[dim][0][ii] - SMRemf1[0][ii]);
-              pG->B3i[kb][jce+1][i] -=
+              if (atEdge[3]) pG->B3i[kb][jce+1][i] -=
                 q2*(pCO->myEMF1[dim][jce-jcs+1][ii] - SMRemf1[jce-jcs+1][ii]);
             }
           }
@@ -799,6 +827,13 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
             pG->U[kb  ][j][i].B3c=0.5*(pG->B3i[kb][j][i] + pG->B3i[kb+1][j][i]);
             pG->U[kb-1][j][i].B3c=0.5*(pG->B3i[kb-1][j][i] + pG->B3i[kb][j][i]);
           }}
+          if (kce < kcs) {
+            for (j=jcs-1; j<=jce+1; j++) {
+            for (i=ics-1; i<=ice+1; i++) {
+              pG->U[kb  ][j][i].B3c=0.5*(pG->B3i[kb][j][i]+pG->B3i[kb+1][j][i]);
+              pG->U[kb-1][j][i].B3c=0.5*(pG->B3i[kb-1][j][i]+pG->B3i[kb][j][i]);
+            }}
+          }
         }
       }
 
-- 
2.43.0


From 9b8bcd97edf1f7823469a92340c64290aeee7a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 21/45] fix: diffusivities are zero in the first step after a
 restart (resistivity)

---
 src/main.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main.c b/src/main.c
index ae13fdb..f8994d7 100644
--- a/src/main.c
+++ b/src/main.c
@@ -429,6 +429,10 @@ int main(int argc, char *argv[])
 /* For new runs, set initial timestep */
 
   if(ires == 0) new_dt(&Mesh);
+#ifdef RESISTIVITY
+/* Restart files do not store the diffusivities set along with the timestep */
+  else new_dt_diff(&Mesh);
+#endif
 
 /*--- Step 7. ----------------------------------------------------------------*/
 /* Set function pointers for integrator; self-gravity (based on dimensions)
-- 
2.43.0


From d5b1a78616d520f78e7b5973c267979d415fb29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 22/45] fix: flux correction leaves interface copies of
 transverse fields stale in 1D and 2D (SMR, MHD)

---
 src/smr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index c45c07e..6bc702d 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -403,6 +403,9 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q1*(pCO->myFlx[dim][kk][jj].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q1*(pCO->myFlx[dim][kk][jj].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q1*(pCO->myFlx[dim][kk][jj].B3c - *(pRcv++));
+            /* in 1D/2D, transverse interface fields are cell-centered */
+            if (nDim == 1) pG->B2i[k][j][i] = pG->U[k][j][i].B2c;
+            if (nDim < 3)  pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
@@ -431,6 +434,7 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q2*(pCO->myFlx[dim][kk][ii].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q2*(pCO->myFlx[dim][kk][ii].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q2*(pCO->myFlx[dim][kk][ii].B3c - *(pRcv++));
+            if (nDim == 2) pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
-- 
2.43.0


From 05d6afb49456afd191ea7706f45722133958e34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 23/45] fix: ghost zones of a child prolongated from stale
 ghost zones of its parent (SMR, more than two levels)

---
 src/smr.c | 198 +++++++++++++++++++++++++++---------------------------
 1 file changed, 99 insertions(+), 99 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 6bc702d..41cb860 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -1468,105 +1468,6 @@ void Prolongate(MeshS *pM)
   }
 #endif /* MPI_PARALLEL */
 
-/*=== Step 1. Send step ======================================================*/
-/* Loop over all Domains, and send ghost zones to all child Grids. */
-
-  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
-
-  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
-    pG=pM->Domain[nl][nd].Grid;
-    for(i=0; i<maxND; i++) start_addrP[i] = 0;
-    nZeroP = 0;
-
-    for (ncg=0; ncg<(pG->NCGrid); ncg++){
-
-/* Skip if no prolongation needed for this child (only flux correction) */
-    if (pG->CGrid[ncg].nWordsP == 0) { 
-        if(ncg >= pG->NmyCGrid)
-              nZeroP += 1;
-    } else {
-
-      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
-
-/* index send_buf with DomN of child, since could be multiple child Domains on
- * same processor.  Start address must be different for each DomN */
-      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
-
-      for (dim=0; dim<(2*nDim); dim++){
-        if (pCO->myFlx[dim] != NULL) {
-
-/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
-
-          ics = pCO->ijks[0] - (nghost/2) - 1;
-          ice = pCO->ijke[0] + (nghost/2) + 1;
-          if (pG->Nx[1] > 1) {
-            jcs = pCO->ijks[1] - (nghost/2) - 1;
-            jce = pCO->ijke[1] + (nghost/2) + 1;
-          } else {
-            jcs = pCO->ijks[1];
-            jce = pCO->ijke[1];
-          }
-          if (pG->Nx[2] > 1) {
-            kcs = pCO->ijks[2] - (nghost/2) - 1;
-            kce = pCO->ijke[2] + (nghost/2) + 1;
-          } else {
-            kcs = pCO->ijks[2];
-            kce = pCO->ijke[2];
-          }
-          if (dim == 0) ice = pCO->ijks[0];
-          if (dim == 1) ics = pCO->ijke[0];
-          if (dim == 2) jce = pCO->ijks[1];
-          if (dim == 3) jcs = pCO->ijke[1];
-          if (dim == 4) kce = pCO->ijks[2];
-          if (dim == 5) kcs = pCO->ijke[2];
-
-/*--- Step 1a. ---------------------------------------------------------------*/
-/* Load send buffer with values in zones that overlap child ghost zones */
-
-          for (k=kcs; k<=kce; k++) {
-          for (j=jcs; j<=jce; j++) {
-          for (i=ics; i<=ice; i++) {
-            *(pSnd++) = pG->U[k][j][i].d;
-            *(pSnd++) = pG->U[k][j][i].M1;
-            *(pSnd++) = pG->U[k][j][i].M2;
-            *(pSnd++) = pG->U[k][j][i].M3;
-#ifndef BAROTROPIC
-            *(pSnd++) = pG->U[k][j][i].E;
-#endif
-#ifdef MHD
-            *(pSnd++) = pG->U[k][j][i].B1c;
-            *(pSnd++) = pG->U[k][j][i].B2c;
-            *(pSnd++) = pG->U[k][j][i].B3c;
-            *(pSnd++) = pG->B1i[k][j][i];
-            *(pSnd++) = pG->B2i[k][j][i];
-            *(pSnd++) = pG->B3i[k][j][i];
-#endif
-#if (NSCALARS > 0)
-            for (ns=0; ns<NSCALARS; ns++) {
-               *(pSnd++) = pG->U[k][j][i].s[ns];
-            }
-#endif
-          }}}
-        }
-      }
-
-/*--- Step 1b. ---------------------------------------------------------------*/
-/* non-blocking send of data to child, using Domain number as tag. */
-#ifdef MPI_PARALLEL
-      if (ncg >= pG->NmyCGrid) {
-        mIndex = ncg - pG->NmyCGrid - nZeroP;
-        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
-          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
-          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
-      }
-#endif /* MPI_PARALLEL */
-
-      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
-
-    } /* end if/else on nWordsP */ 
-    } /* end loop over child grids */
-  }} /* end loop over Domains */
-
 /*=== Step 2. Get step =======================================================*/
 /* Loop over all Domains, get data sent by parent Grids, and prolongate solution
  * into ghost zones. */
@@ -1947,6 +1848,105 @@ void Prolongate(MeshS *pM)
     } /* end loop over parent grids */
   }} /* end loop over Domains */
 
+/*=== Step 1. Send step ======================================================*/
+/* Loop over all Domains, and send ghost zones to all child Grids. */
+
+  for (nd=0; nd<(pM->DomainsPerLevel[nl]); nd++){
+
+  if (pM->Domain[nl][nd].Grid != NULL) { /* there is a Grid on this processor */
+    pG=pM->Domain[nl][nd].Grid;
+    for(i=0; i<maxND; i++) start_addrP[i] = 0;
+    nZeroP = 0;
+
+    for (ncg=0; ncg<(pG->NCGrid); ncg++){
+
+/* Skip if no prolongation needed for this child (only flux correction) */
+    if (pG->CGrid[ncg].nWordsP == 0) { 
+        if(ncg >= pG->NmyCGrid)
+              nZeroP += 1;
+    } else {
+
+      pCO=(GridOvrlpS*)&(pG->CGrid[ncg]);    /* ptr to child Grid overlap */
+
+/* index send_buf with DomN of child, since could be multiple child Domains on
+ * same processor.  Start address must be different for each DomN */
+      pSnd = (double*)&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]); 
+
+      for (dim=0; dim<(2*nDim); dim++){
+        if (pCO->myFlx[dim] != NULL) {
+
+/* Get coordinates ON THIS GRID of zones that overlap child Grid ghost zones */
+
+          ics = pCO->ijks[0] - (nghost/2) - 1;
+          ice = pCO->ijke[0] + (nghost/2) + 1;
+          if (pG->Nx[1] > 1) {
+            jcs = pCO->ijks[1] - (nghost/2) - 1;
+            jce = pCO->ijke[1] + (nghost/2) + 1;
+          } else {
+            jcs = pCO->ijks[1];
+            jce = pCO->ijke[1];
+          }
+          if (pG->Nx[2] > 1) {
+            kcs = pCO->ijks[2] - (nghost/2) - 1;
+            kce = pCO->ijke[2] + (nghost/2) + 1;
+          } else {
+            kcs = pCO->ijks[2];
+            kce = pCO->ijke[2];
+          }
+          if (dim == 0) ice = pCO->ijks[0];
+          if (dim == 1) ics = pCO->ijke[0];
+          if (dim == 2) jce = pCO->ijks[1];
+          if (dim == 3) jcs = pCO->ijke[1];
+          if (dim == 4) kce = pCO->ijks[2];
+          if (dim == 5) kcs = pCO->ijke[2];
+
+/*--- Step 1a. ---------------------------------------------------------------*/
+/* Load send buffer with values in zones that overlap child ghost zones */
+
+          for (k=kcs; k<=kce; k++) {
+          for (j=jcs; j<=jce; j++) {
+          for (i=ics; i<=ice; i++) {
+            *(pSnd++) = pG->U[k][j][i].d;
+            *(pSnd++) = pG->U[k][j][i].M1;
+            *(pSnd++) = pG->U[k][j][i].M2;
+            *(pSnd++) = pG->U[k][j][i].M3;
+#ifndef BAROTROPIC
+            *(pSnd++) = pG->U[k][j][i].E;
+#endif
+#ifdef MHD
+            *(pSnd++) = pG->U[k][j][i].B1c;
+            *(pSnd++) = pG->U[k][j][i].B2c;
+            *(pSnd++) = pG->U[k][j][i].B3c;
+            *(pSnd++) = pG->B1i[k][j][i];
+            *(pSnd++) = pG->B2i[k][j][i];
+            *(pSnd++) = pG->B3i[k][j][i];
+#endif
+#if (NSCALARS > 0)
+            for (ns=0; ns<NSCALARS; ns++) {
+               *(pSnd++) = pG->U[k][j][i].s[ns];
+            }
+#endif
+          }}}
+        }
+      }
+
+/*--- Step 1b. ---------------------------------------------------------------*/
+/* non-blocking send of data to child, using Domain number as tag. */
+#ifdef MPI_PARALLEL
+      if (ncg >= pG->NmyCGrid) {
+        mIndex = ncg - pG->NmyCGrid - nZeroP;
+        ierr = MPI_Isend(&(send_bufP[pCO->DomN][start_addrP[pCO->DomN]]),
+          pG->CGrid[ncg].nWordsP, MPI_DOUBLE, pG->CGrid[ncg].ID, nd,
+          pM->Domain[nl][nd].Comm_Children, &(send_rq[nd][mIndex]));
+      }
+#endif /* MPI_PARALLEL */
+
+      start_addrP[pCO->DomN] += pG->CGrid[ncg].nWordsP;
+
+    } /* end if/else on nWordsP */ 
+    } /* end loop over child grids */
+  }} /* end loop over Domains */
+
 /*=== Step 4. Clear send_bufP ================================================*/
 /* For child/parent Grids on same processor, copy send_bufP into recv_bufP to
  * prevent "send" in Step 1 above from over-writing data in buffer on the next
-- 
2.43.0


From 144e69a73e12fe2ebb0598c26e1fdb6cff112fa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:53:05 +0000
Subject: [PATCH 24/45] fix: orbital advection of B3 lost in 2D (FARGO, MHD)

---
 src/bvals_shear.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index af9ff34..2e29480 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5386,6 +5386,8 @@ void Fargo(DomainS *pD)
         pG->U[k][j][i].B2c = 0.5*(    pG->B2i[k][j][i] +     pG->B2i[k][j+1][i]);
         if (pG->Nx[2]>1) {
           pG->U[k][j][i].B3c = 0.5*(    pG->B3i[k][j][i] +     pG->B3i[k+1][j][i]);
+        } else {
+          pG->U[k][j][i].B3c = pG->B3i[k][j][i];
         }
       }
     }
-- 
2.43.0


From 3fd5370dedf8451ce048a367d74a594d7d3cbd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:55:45 +0000
Subject: [PATCH 25/45] fix: prolongation ignores fine interface fields that
 are exactly zero (SMR, MHD)

---
 src/smr.c | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/smr.c b/src/smr.c
index 41cb860..2d1ac80 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -1699,12 +1699,13 @@ void Prolongate(MeshS *pM)
                 pG->B3i[k][j][i+l] = pG->U[k][j][i+l].B3c;
               }
             } else {
+/* HUGE_NUMBER marks values not set yet (zero is a legal field) */
               for (n=0; n<3; n++) {
               for (m=0; m<3; m++) {
               for (l=0; l<3; l++) {
-                ProlongedF[n][m][l].x1 = 0.0;
-                ProlongedF[n][m][l].x2 = 0.0;
-                ProlongedF[n][m][l].x3 = 0.0;
+                ProlongedF[n][m][l].x1 = HUGE_NUMBER;
+                ProlongedF[n][m][l].x2 = HUGE_NUMBER;
+                ProlongedF[n][m][l].x3 = HUGE_NUMBER;
               }}}
             }
 
@@ -2395,7 +2396,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
   dBdx=dBdy=dBdz=0.0;
 
-  if (PFld[0][0][0].x1 == 0.0) {
+  if (PFld[0][0][0].x1 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdy = mcd_slope(BGZ[1][0][1].x1, BGZ[1][1][1].x1, BGZ[1][2][1].x1);
     dBdz = mcd_slope(BGZ[0][1][1].x1, BGZ[1][1][1].x1, BGZ[2][1][1].x1);
@@ -2409,7 +2410,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize Bx on right-x1 boundry, if not set already */
 
-  if (PFld[0][0][2].x1 == 0.0) {
+  if (PFld[0][0][2].x1 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdy = mcd_slope(BGZ[1][0][2].x1, BGZ[1][1][2].x1, BGZ[1][2][2].x1);
     dBdz = mcd_slope(BGZ[0][1][2].x1, BGZ[1][1][2].x1, BGZ[2][1][2].x1);
@@ -2423,7 +2424,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize By on left-x2 boundry, if not set already */
 
-  if (PFld[0][0][0].x2 == 0.0) {
+  if (PFld[0][0][0].x2 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[1][1][0].x2, BGZ[1][1][1].x2, BGZ[1][1][2].x2);
     dBdz = mcd_slope(BGZ[0][1][1].x2, BGZ[1][1][1].x2, BGZ[2][1][1].x2);
@@ -2437,7 +2438,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize By on right-x2 boundry, if not set already */
 
-  if (PFld[0][2][0].x2 == 0.0) {
+  if (PFld[0][2][0].x2 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[1][2][0].x2, BGZ[1][2][1].x2, BGZ[1][2][2].x2);
     dBdz = mcd_slope(BGZ[0][2][1].x2, BGZ[1][2][1].x2, BGZ[2][2][1].x2);
@@ -2451,7 +2452,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize Bz on left-x3 boundry, if not set already */
 
-  if (PFld[0][0][0].x3 == 0.0) {
+  if (PFld[0][0][0].x3 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[1][1][0].x3, BGZ[1][1][1].x3, BGZ[1][1][2].x3);
     dBdy = mcd_slope(BGZ[1][0][1].x3, BGZ[1][1][1].x3, BGZ[1][2][1].x3);
@@ -2465,7 +2466,7 @@ void ProFld(Real3Vect BGZ[][3][3], Real3Vect PFld[][3][3],
 
 /* initialize Bz on right-x3 boundry, if not set already */
 
-  if (PFld[2][0][0].x3 == 0.0) {
+  if (PFld[2][0][0].x3 == HUGE_NUMBER) {
 #ifndef FIRST_ORDER
     dBdx = mcd_slope(BGZ[2][1][0].x3, BGZ[2][1][1].x3, BGZ[2][1][2].x3);
     dBdy = mcd_slope(BGZ[2][0][1].x3, BGZ[2][1][1].x3, BGZ[2][2][1].x3);
-- 
2.43.0


From a45604108bd4c71692bda02c457daeeeb68dd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:51:13 +0000
Subject: [PATCH 26/45] fix: interface copy of B3 never updated in 2D (special
 relativistic MHD)

A restart takes the cell-centred field from it (see integrate_2d_vl.c, Step 13c).
---
 src/integrators/integrate_2d_vl_sr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index da1f143..ec75f36 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -899,6 +899,17 @@ void integrate_2d_vl(DomainS *pD)
     }
   }  
 
+/*--- Step 14c -----------------------------------------------------------------
+ * Update interface centered B3 (used in restarts)
+ */
+#ifdef MHD
+  for (j=js; j<=je; j++) {
+    for (i=is; i<=ie; i++) {
+      pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
+    }
+  }
+#endif /* MHD */
+
 #ifdef FIRST_ORDER_FLUX_CORRECTION
 /*=== STEP 15: First-order flux correction ===================================*/
 
@@ -1644,6 +1655,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
   for (i=(ix.i-1); i<=(ix.i+1); i++) {
     pG->U[ks][j][i].B1c = 0.5*(pG->B1i[ks][j][i] + pG->B1i[ks][j][i+1]);
     pG->U[ks][j][i].B2c = 0.5*(pG->B2i[ks][j][i] + pG->B2i[ks][j+1][i]);
+    pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
   }}
 #endif /* MHD */
 
-- 
2.43.0


From f2f0b35324e95c0adf3484f3aa5ca66e97d1c5ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:17 +0000
Subject: [PATCH 27/45] fix: wrong signal speeds for negative normal field
 (special relativistic MHD)

---
 src/rsolvers/hllc_sr.c | 2 +-
 src/rsolvers/hlld_sr.c | 2 +-
 src/rsolvers/hlle_sr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsolvers/hllc_sr.c b/src/rsolvers/hllc_sr.c
index bdc3d51..f6f5305 100644
--- a/src/rsolvers/hllc_sr.c
+++ b/src/rsolvers/hllc_sr.c
@@ -844,7 +844,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlld_sr.c b/src/rsolvers/hlld_sr.c
index a35afc5..bc14918 100644
--- a/src/rsolvers/hlld_sr.c
+++ b/src/rsolvers/hlld_sr.c
@@ -958,7 +958,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlle_sr.c b/src/rsolvers/hlle_sr.c
index 1310989..6325bdd 100644
--- a/src/rsolvers/hlle_sr.c
+++ b/src/rsolvers/hlle_sr.c
@@ -445,7 +445,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
-- 
2.43.0


From 332d2a92494ed96f1a0237a48c8b7de72e3fd270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:17 +0000
Subject: [PATCH 28/45] fix: outer outflow boundaries copy the wrong face of
 the normal field

---
 src/bvals_mhd.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bvals_mhd.c b/src/bvals_mhd.c
index f1218d4..00ffac0 100644
--- a/src/bvals_mhd.c
+++ b/src/bvals_mhd.c
@@ -1391,7 +1391,7 @@ static void outflow_ox1(GridS *pGrid)
   for (k=ks; k<=ke; k++) {
     for (j=js; j<=je; j++) {
       for (i=2; i<=nghost; i++) {
-        pGrid->B1i[k][j][ie+i] = pGrid->B1i[k][j][ie];
+        pGrid->B1i[k][j][ie+i] = pGrid->B1i[k][j][ie+1];
       }
     }
   }
@@ -1508,7 +1508,7 @@ static void outflow_ox2(GridS *pGrid)
   for (k=ks; k<=ke; k++) {
     for (j=2; j<=nghost; j++) {
       for (i=is-nghost; i<=ie+nghost; i++) {
-        pGrid->B2i[k][je+j][i] = pGrid->B2i[k][je][i];
+        pGrid->B2i[k][je+j][i] = pGrid->B2i[k][je+1][i];
       }
     }
   }
@@ -1619,7 +1619,7 @@ static void outflow_ox3(GridS *pGrid)
   for (k=2; k<=nghost; k++) {
     for (j=js-nghost; j<=je+nghost; j++) {
       for (i=is-nghost; i<=ie+nghost; i++) {
-        pGrid->B3i[ke+k][j][i] = pGrid->B3i[ke][j][i];
+        pGrid->B3i[ke+k][j][i] = pGrid->B3i[ke+1][j][i];
       }
     }
   }
-- 
2.43.0


From 297b73fe7be42e899e2059555f2c29d5f6dbaa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:17 +0000
Subject: [PATCH 29/45] fix: anisotropic conduction in 2D ignores B3 in the
 field's magnitude

---
 src/microphysics/conduction.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microphysics/conduction.c b/src/microphysics/conduction.c
index 1e78ffe..a26f6bd 100644
--- a/src/microphysics/conduction.c
+++ b/src/microphysics/conduction.c
@@ -249,7 +249,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         By = 0.5*(pG->U[k][j][i-1].B2c + pG->U[k][j][i].B2c);
-        B02 = SQR(pG->B1i[k][j][i]) + SQR(By);
+        Bz = 0.5*(pG->U[k][j][i-1].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(pG->B1i[k][j][i]) + SQR(By) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
         bDotGradT = pG->B1i[k][j][i]*(Temp[k][j][i]-Temp[k][j][i-1])/pG->dx1
            + By*dTdy;
@@ -297,7 +298,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         Bx = 0.5*(pG->U[k][j-1][i].B1c + pG->U[k][j][i].B1c);
-        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]);
+        Bz = 0.5*(pG->U[k][j-1][i].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
 
         bDotGradT = pG->B2i[k][j][i]*(Temp[k][j][i]-Temp[k][j-1][i])/pG->dx2
-- 
2.43.0


From 23ee92aca1ca4eb3626577768b465f7c5cbe4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:40 +0000
Subject: [PATCH 30/45] fix: 1D self-gravity on several processes solves every
 Grid on its own

---
 src/gravity/selfg_fft.c | 55 ++++++++++++++++++++++++++++-------------
 1 file changed, 38 insertions(+), 17 deletions(-)

diff --git a/src/gravity/selfg_fft.c b/src/gravity/selfg_fft.c
index c28d043..31bb4e7 100644
--- a/src/gravity/selfg_fft.c
+++ b/src/gravity/selfg_fft.c
@@ -60,7 +60,12 @@ void selfg_fft_1d(DomainS *pD)
   int i, is = pG->is, ie = pG->ie;
   int js = pG->js;
   int ks = pG->ks;
-  Real total_Phi=0.0,drho,dx_sq = (pG->dx1*pG->dx1);
+  int n, nx1 = pD->Nx[0], off = pG->Disp[0] - pD->Disp[0];
+  Real total_Phi=0.0,dx_sq = (pG->dx1*pG->dx1);
+  Real *drho=NULL,*Phi=NULL;
+#ifdef MPI_PARALLEL
+  int ierr;
+#endif
 
 /* Copy current potential into old */
 
@@ -68,33 +73,49 @@ void selfg_fft_1d(DomainS *pD)
     pG->Phi_old[ks][js][i] = pG->Phi[ks][js][i];
   }
 
-/* Compute new potential */
+/* The solution depends on the density in the whole Domain, so (with MPI) every
+ * Grid collects it and keeps its own part of the potential */
+
+  if ((drho=(Real*)calloc_1d_array(nx1,sizeof(Real))) == NULL)
+    ath_error("[selfg_fft_1d]: malloc returned a NULL pointer\n");
+  if ((Phi=(Real*)calloc_1d_array(nx1,sizeof(Real))) == NULL)
+    ath_error("[selfg_fft_1d]: malloc returned a NULL pointer\n");
 
-  pG->Phi[ks][js][is] = 0.0;
   for (i=is; i<=ie; i++) {
-    drho = (pG->U[ks][js][i].d - grav_mean_rho);
-    pG->Phi[ks][js][is] += ((float)(i-is+1))*four_pi_G*dx_sq*drho;
+    drho[i-is+off] = (pG->U[ks][js][i].d - grav_mean_rho);
   }
-  pG->Phi[ks][js][is] /= (float)(pG->Nx[0]);
-
-  drho = (pG->U[ks][js][is].d - grav_mean_rho);
-  pG->Phi[ks][js][is+1] = 2.0*pG->Phi[ks][js][is] + four_pi_G*dx_sq*drho;
-  for (i=is+2; i<=ie; i++) {
-    drho = (pG->U[ks][js][i-1].d - grav_mean_rho);
-    pG->Phi[ks][js][i] = four_pi_G*dx_sq*drho 
-      + 2.0*pG->Phi[ks][js][i-1] - pG->Phi[ks][js][i-2];
+#ifdef MPI_PARALLEL
+  for (n=0; n<nx1; n++) Phi[n] = drho[n];
+  ierr = MPI_Allreduce(Phi,drho,nx1,MPI_DOUBLE,MPI_SUM,pD->Comm_Domain);
+  if (ierr) ath_error("[selfg_fft_1d]: MPI_Allreduce returned err = %d\n",ierr);
+#endif
+
+/* Compute new potential */
+
+  Phi[0] = 0.0;
+  for (n=0; n<nx1; n++) {
+    Phi[0] += ((float)(n+1))*four_pi_G*dx_sq*drho[n];
+  }
+  Phi[0] /= (float)(nx1);
+
+  Phi[1] = 2.0*Phi[0] + four_pi_G*dx_sq*drho[0];
+  for (n=2; n<nx1; n++) {
+    Phi[n] = four_pi_G*dx_sq*drho[n-1] + 2.0*Phi[n-1] - Phi[n-2];
   }
 
 /* Normalize so mean Phi is zero */
 
-  for (i=is; i<=ie; i++) {
-    total_Phi += pG->Phi[ks][js][i];
+  for (n=0; n<nx1; n++) {
+    total_Phi += Phi[n];
   }
-  total_Phi /= (float)(pG->Nx[0]);
+  total_Phi /= (float)(nx1);
 
   for (i=is; i<=ie; i++) {
-    pG->Phi[ks][js][i] -= total_Phi;
+    pG->Phi[ks][js][i] = Phi[i-is+off] - total_Phi;
   }
+
+  free_1d_array(drho);
+  free_1d_array(Phi);
 }
 
 /*----------------------------------------------------------------------------*/
-- 
2.43.0


From 810f01e226424b3c19578afc1397d84beb898b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:03 +0000
Subject: [PATCH 31/45] fix: FFT plans for equal lengths but different numbers
 of rows are shared

The block FFTs reuse the plan of one axis for another of the same length even
when a process owns a different number of rows, so rows are left untransformed
or memory beyond the array is overwritten (e.g. 12x9x12 zones on 2x1x3 Grids).
---
 src/fftsrc/fft_2d.c | 2 +-
 src/fftsrc/fft_3d.c | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fftsrc/fft_2d.c b/src/fftsrc/fft_2d.c
index 22ecb69..982a3cd 100644
--- a/src/fftsrc/fft_2d.c
+++ b/src/fftsrc/fft_2d.c
@@ -327,7 +327,7 @@ struct fft_plan_2d *fft_2d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
diff --git a/src/fftsrc/fft_3d.c b/src/fftsrc/fft_3d.c
index 5c64698..ecfd7fb 100644
--- a/src/fftsrc/fft_3d.c
+++ b/src/fftsrc/fft_3d.c
@@ -411,7 +411,7 @@ struct fft_plan_3d *fft_3d_create_plan(
                        plan->scratch,NULL,1,plan->length1,plan->scratch,
                        NULL,1,plan->length1,FFTW_BACKWARD,FFTW_ESTIMATE);
 
-  if (plan->length2 == plan->length1) {
+  if (plan->length2 == plan->length1 && plan->total2 == plan->total1) {
     plan->plan_mid_forward = plan->plan_fast_forward;
     plan->plan_mid_backward = plan->plan_fast_backward;
   }
@@ -426,11 +426,11 @@ struct fft_plan_3d *fft_3d_create_plan(
                          NULL,1,plan->length2,FFTW_BACKWARD,FFTW_ESTIMATE);
   }
 
-  if (plan->length3 == plan->length1) {
+  if (plan->length3 == plan->length1 && plan->total3 == plan->total1) {
     plan->plan_slow_forward = plan->plan_fast_forward;
     plan->plan_slow_backward = plan->plan_fast_backward;
   }
-  else if (plan->length3 == plan->length2) {
+  else if (plan->length3 == plan->length2 && plan->total3 == plan->total2) {
     plan->plan_slow_forward = plan->plan_mid_forward;
     plan->plan_slow_backward = plan->plan_mid_backward;
   }
-- 
2.43.0


From 437c9c50cdcf3509c0c97b99a1ca60c123213adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 32/45] fix: index columns of tab dumps run together when the
 ghost offset adds a digit

---
 src/dump_tab.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dump_tab.c b/src/dump_tab.c
index 4e7843f..6b81044 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -112,6 +112,8 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           kl = pG->ks - nghost;
         }
         nmax += 2*nghost;
+#else
+        nmax += nghost;  /* zone indices start at nghost */
 #endif
         sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
 
@@ -364,6 +366,8 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
           kl = pG->ks - nghost;
         }
         nmax += 2*nghost;
+#else
+        nmax += nghost;  /* zone indices start at nghost */
 #endif
         sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
 
-- 
2.43.0


From eec733975c57264edcd32deceed3b77789458a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:41 +0000
Subject: [PATCH 33/45] fix: history averages in 1D and 2D are multiplied by
 the extent of the inactive directions

---
 src/dump_history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index e7111b2..d5b65c2 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -174,8 +174,8 @@ void dump_history(MeshS *pM, OutputS *pOut)
             for (i=is; i<=ie; i++) {
               dVol = 1.0; 
               if (pG->dx1 > 0.0) dVol *= pG->dx1;
-              if (pG->dx2 > 0.0) dVol *= pG->dx2;
-              if (pG->dx3 > 0.0) dVol *= pG->dx3;
+              if (pG->Nx[1] > 1) dVol *= pG->dx2;
+              if (pG->Nx[2] > 1) dVol *= pG->dx3;
 #ifndef SPECIAL_RELATIVITY
 #ifdef CYLINDRICAL
               cc_pos(pG,i,j,k,&x1,&x2,&x3);
-- 
2.43.0


From 268916693ebecd63c5a3fa9e1f7efc6ba6027963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:07 +0000
Subject: [PATCH 34/45] fix: VTK slices normal to x1 or x2 have their cells
 along the wrong axes

The header of a 2D slice of a 3D Grid put the numbers of cells of the two
remaining directions into the first two DIMENSIONS whatever direction was
reduced, in contradiction to its ORIGIN and SPACING.
---
 src/output_vtk.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/output_vtk.c b/src/output_vtk.c
index eee6d5c..0ad390f 100644
--- a/src/output_vtk.c
+++ b/src/output_vtk.c
@@ -145,7 +145,14 @@ static void output_vtk_2d(MeshS *pM, OutputS *pOut, int nl, int nd)
   dx3 = (pOut->reduce_x3 == 1 ? pGrid->dx3 * pGrid->Nx[2] : pGrid->dx3);
 
   fprintf(pfile,"DATASET STRUCTURED_POINTS\n");
-  fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,nx2+1,1);
+/* the reduced direction (in 3D) is the one with a single corner */
+  if (pGrid->Nx[2] > 1 && pOut->reduce_x1 == 1) {
+    fprintf(pfile,"DIMENSIONS %d %d %d\n",1,nx1+1,nx2+1);
+  } else if (pGrid->Nx[2] > 1 && pOut->reduce_x2 == 1) {
+    fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,1,nx2+1);
+  } else {
+    fprintf(pfile,"DIMENSIONS %d %d %d\n",nx1+1,nx2+1,1);
+  }
   fprintf(pfile,"ORIGIN %e %e %e \n",x1,x2,x3);
   fprintf(pfile,"SPACING %e %e %e \n",dx1,dx2,dx3);
 
-- 
2.43.0


From 50cfaf0841cd3b86f00e79c444e2f5a1d535ebde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:21 +0000
Subject: [PATCH 35/45] fix: join_vtk joins files that do not hold the same
 variables

A file that ended before the others stopped the join with a truncated
output and exit status 0; if it was the first one, its missing variables were
left out without a word.
---
 vis/vtk/join_vtk.c | 37 +++++++++++++++++++++++++++++++++----
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/vis/vtk/join_vtk.c b/vis/vtk/join_vtk.c
index 2397fc6..dd9aa4f 100644
--- a/vis/vtk/join_vtk.c
+++ b/vis/vtk/join_vtk.c
@@ -509,6 +509,34 @@ static void read_write_vector(FILE *fp_out){
 /* ========================================================================== */
 
 
+/* Every input file must have been read to its end: a variable that is not in
+   all of the files cannot be joined. */
+static void check_all_read(void){
+  FILE *fp;
+  char word[128];
+  int i, j, k;
+
+  for(k=0; k<NGrid_z; k++){
+    for(j=0; j<NGrid_y; j++){
+      for(i=0; i<NGrid_x; i++){
+        if((fp = fopen(domain_3d[k][j][i].fname,"r")) == NULL)
+          join_error("Error opening file \"%s\"\n",domain_3d[k][j][i].fname);
+        fseek(fp, domain_3d[k][j][i].pos, SEEK_SET);
+        if(fscanf(fp,"%127s",word) != EOF)
+          join_error("\"%s\" has more variables than the other files\n",
+                     domain_3d[k][j][i].fname);
+        fclose(fp);
+      }
+    }
+  }
+
+  return;
+}
+
+
+/* ========================================================================== */
+
+
 static void write_joined_vtk(const char *out_name){
   FILE *fp_out;
   int nxt, nyt, nzt; /* Total number of grid cells in each dir. */
@@ -579,8 +607,10 @@ static void write_joined_vtk(const char *out_name){
 	    retval = fscanf(domain_3d[k][j][i].fp,"%s %s %s\n",
 			    type, variable, format);
 
-	    if(retval == EOF){ /* Assuming no errors, we are done... */
+	    if(retval == EOF){ /* No more variables: we are done... */
 	      fclose(fp_out);
+	      fclose(domain_3d[k][j][i].fp);
+	      check_all_read(); /* ...provided that holds for every file */
 	      return;
 	    }
 
@@ -595,9 +625,8 @@ static void write_joined_vtk(const char *out_name){
 
 	    if(retval == EOF){ /* This shouldn't occur... */
 	      fclose(fp_out);
-	      fprintf(stderr,"[join_vtk_dump]: EOF returned for file \"%s\"\n",
-		      domain_3d[k][j][i].fname);
-	      return;
+	      join_error("[join_vtk_dump]: EOF returned for file \"%s\"\n",
+			 domain_3d[k][j][i].fname);
 	    }
 
 	    if(strcmp(type, t_type) != 0 ||
-- 
2.43.0


From bda7d2d2d595905bed351df434edfea5398b39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 36/45] fix: particle limits of the grid in x3 are wrong at
 outflow boundaries

grid_limit() moved the lower x3 limit of particles into the grid (plus instead of minus), so
particles within nghost-1 zones of an x3 outflow boundary were removed, and scaled the upper limit by
the x2 flag.
---
 src/particles/init_particle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles/init_particle.c b/src/particles/init_particle.c
index 0ea55fa..56cf48a 100644
--- a/src/particles/init_particle.c
+++ b/src/particles/init_particle.c
@@ -282,12 +282,12 @@ void grid_limit(MeshS *pM)
     x2upar = pG->MaxX[1];
 
   if ((pM->BCFlag_ix3 == 2) && (my_kproc == 0))
-    x3lpar = pG->MinX[2] + (nghost-1)*m3*pG->dx3;
+    x3lpar = pG->MinX[2] - (nghost-1)*m3*pG->dx3;
   else
     x3lpar = pG->MinX[2];
 
   if ((pM->BCFlag_ox3 == 2) && (my_kproc == pD->NGrid[2]-1))
-    x3upar = pG->MaxX[2] + (nghost-1)*m2*pG->dx3;
+    x3upar = pG->MaxX[2] + (nghost-1)*m3*pG->dx3;
   else
     x3upar = pG->MaxX[2];
 
-- 
2.43.0


From 7927080a75f136fde229f59fd5e08d8b34143ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 37/45] fix: reflecting inner x1 exchange of feedback fills
 ghost zones from the x2 index

reflect_ix1_exchange() computed the mirror zone of i from js: wrong zones, and a negative index in 1D.
---
 src/particles/exchange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index aa598ef..8b6b6dd 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -1876,7 +1876,7 @@ static void reflect_ix1_exchange(GridS *pG)
   for (k=kb; k<=kt; k++) {
     for (j=jb; j<=jt; j++) {
       for (i=ib; i<pG->is; i++) {
-        ir = 2*pG->js-i-1;
+        ir = 2*pG->is-i-1;
         myCoup[k][j][i].U[0] = -myCoup[k][j][ir].U[0];
         for (n=1;n<NVar; n++)
           myCoup[k][j][i].U[n] = myCoup[k][j][ir].U[n];
-- 
2.43.0


From 568f624efd084d6baba1fa40f4d075913591e631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 38/45] fix: particles reflected at the inner x3 wall are put
 at the wrong place

reflect_ix3_particle() used MinX - x3 instead of 2*MinX - x3.
---
 src/particles/bvals_particle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 32553ad..6a36514 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -1532,7 +1532,7 @@ static void reflect_ix3_particle(GridS *pG)
   /* apply reflection boundary condition */
   for (p=n0; p<pG->nparticle; p++)
   {
-    pG->particle[p].x3 = pG->MinX[2] - pG->particle[p].x3;
+    pG->particle[p].x3 = 2.0*pG->MinX[2] - pG->particle[p].x3;
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
-- 
2.43.0


From 5e2fbd1aa865749c1f71c4b25072a5277097ee2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:05 +0000
Subject: [PATCH 39/45] fix: particles on a wall or rounded onto the edge of
 the grid they enter are lost

A particle exactly on a reflecting upper wall is mirrored onto the wall, which is outside the grid, and a
particle shifted by a period may be rounded off to just outside the grid it enters; both were deleted.
Put them on the inner side of the edge.
---
 src/particles/bvals_particle.c | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 6a36514..b0a3d51 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -122,6 +122,7 @@ static long packing_ox3_particle(GridS *pG, int nlayer);
 static void packing_one_particle(GrainS *gr, long n, short pos);
 static void shift_packed_particle(double *buf, long n, int index, double shift);
 static void unpack_particle(GridS *pG, double *buf, long n);
+static Real just_below(Real x);
 
 #ifdef SHEARING_BOX
 static void shearingbox_ix1_particle(GridS *pG, DomainS *pD, long numpar);
@@ -1452,6 +1453,8 @@ static void reflect_ox1_particle(GridS *pG)
   for (p=n0; p<pG->nparticle; p++)
   {
     pG->particle[p].x1 = 2.0*pG->MaxX[0] - pG->particle[p].x1;
+    if (pG->particle[p].x1 == pG->MaxX[0]) /* exactly on the wall */
+      pG->particle[p].x1 = just_below(pG->MaxX[0]);
     pG->particle[p].v1 = -pG->particle[p].v1;
   }
 
@@ -1506,6 +1509,8 @@ static void reflect_ox2_particle(GridS *pG)
   for (p=n0; p<pG->nparticle; p++)
   {
     pG->particle[p].x2 = 2.0*pG->MaxX[1] - pG->particle[p].x2;
+    if (pG->particle[p].x2 == pG->MaxX[1]) /* exactly on the wall */
+      pG->particle[p].x2 = just_below(pG->MaxX[1]);
     pG->particle[p].v2 = -pG->particle[p].v2;
   }
 
@@ -1561,6 +1566,8 @@ static void reflect_ox3_particle(GridS *pG)
   for (p=n0; p<pG->nparticle; p++)
   {
     pG->particle[p].x3 = 2.0*pG->MaxX[2] - pG->particle[p].x3;
+    if (pG->particle[p].x3 == pG->MaxX[2]) /* exactly on the wall */
+      pG->particle[p].x3 = just_below(pG->MaxX[2]);
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
@@ -2107,11 +2114,36 @@ static void unpack_particle(GridS *pG, double *buf, long n)
 #ifdef MPI_PARALLEL
     gr->init_id = (int)(*(pd++));
 #endif
+
+    /* a crossing particle has left its grid over the side given by pos, so it
+     * must lie within the opposite side of the grid it enters: shifting it by
+     * the size of the domain may round it off to just outside */
+    if (nbc == 0) switch (gr->pos) {
+      case 11: if (gr->x1 >= x1upar) gr->x1 = just_below(x1upar); break;
+      case 21: if (gr->x1 <  x1lpar) gr->x1 = x1lpar;             break;
+      case 12: if (gr->x2 >= x2upar) gr->x2 = just_below(x2upar); break;
+      case 22: if (gr->x2 <  x2lpar) gr->x2 = x2lpar;             break;
+      case 13: if (gr->x3 >= x3upar) gr->x3 = just_below(x3upar); break;
+      case 23: if (gr->x3 <  x3lpar) gr->x3 = x3lpar;             break;
+    }
   }
 
   return;
 }
 
+/*----------------------------------------------------------------------------*/
+/*! \fn static Real just_below(Real x)
+ *  \brief The largest number smaller than x
+ */
+static Real just_below(Real x)
+{
+#ifdef SINGLE_PREC
+  return nextafterf(x, -HUGE_NUMBER);
+#else
+  return nextafter(x, -HUGE_NUMBER);
+#endif
+}
+
 #ifdef SHEARING_BOX
 /*----------------------------------------------------------------------------*/
 /*! \fn static void shearingbox_ix1_particle(GridS *pG, DomainS *pD,long numpar)
-- 
2.43.0


From 5cc0386909bcd1cf7bd9cd0f36af60e5cb8cf563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:38 +0000
Subject: [PATCH 40/45] fix: buffers of the shearing-sheet exchanges too small
 on Grids with few zones along x2

---
 src/bvals_shear.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index 2e29480..0a1f219 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -5503,6 +5503,10 @@ void bvals_shear_init(MeshS *pM)
 
 #ifdef MPI_PARALLEL
   size1 = nghost*pG->Nx[1]*(pG->Nx[2]+1)*(NREMAP+NSCALARS);
+  size1 = MAX(size1,(nghost*nghost*(pG->Nx[2]+1)*NVAR_SHARE));
+#if defined(SELF_GRAVITY) || defined(FFT_ENABLED)
+  size1 = MAX(size1,(nghost*(pG->Nx[0]+1)*(pG->Nx[2]+1)));
+#endif
 #ifdef FARGO
   size2 = nfghost*(pG->Nx[0]+1)*(pG->Nx[2]+1)*(NFARGO+NSCALARS);
 #endif
-- 
2.43.0


From c8cd60f1205dfeedb8cf7139ac801bc65e5b0459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:50 +0000
Subject: [PATCH 41/45] fix: B3c not displaced in the sheared ghost zones of
 two-dimensional boxes

---
 src/bvals_shear.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index 0a1f219..d43bcb2 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -496,6 +496,12 @@ void ShearingSheet_ix1(DomainS *pD)
         }
       }
     }
+  } else {
+    for (j=js; j<=je; j++) {
+      for(i=is-nghost; i<is; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
@@ -1092,6 +1098,12 @@ void ShearingSheet_ox1(DomainS *pD)
         }
       }
     }
+  } else {
+    for (j=js; j<=je; j++) {
+      for(i=ie+1; i<=ie+nghost; i++){
+        pG->U[ks][j][i].B3c = pG->B3i[ks][j][i];
+      }
+    }
   }
 #endif /* MHD */
 
-- 
2.43.0


From 5a5d1a523450ae83bebfa3f7b5e32c9b9f6ab3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:44:22 +0000
Subject: [PATCH 42/45] fix: whole and fractional parts of the shear
 displacement disagree when the quotient rounds up to a whole zone

---
 src/bvals_shear.c        | 26 +++++++++++++-------------
 src/particles/exchange.c |  4 ++--
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index d43bcb2..395f97a 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -183,7 +183,7 @@ void ShearingSheet_ix1(DomainS *pD)
  * then it is possible that:  pD->Nx2 > joffset > pG->Nx2   */
 
   joffset = (int)(deltay/pG->dx2);
-  epsi = (fmod(deltay,pG->dx2))/pG->dx2;
+  epsi = deltay/pG->dx2 - (Real)joffset;
 
 /*--- Step 2. ------------------------------------------------------------------
  * Copy data into GhstZns array.  Note i and j indices are switched.
@@ -783,7 +783,7 @@ void ShearingSheet_ox1(DomainS *pD)
  * then it is possible that:  pD->Nx2 > joffset > pG->Nx2   */
 
   joffset = (int)(deltay/pG->dx2);
-  epso = -(fmod(deltay,pG->dx2))/pG->dx2;
+  epso = (Real)joffset - deltay/pG->dx2;
 
 /*--- Step 2. ------------------------------------------------------------------
  * Copy data into GhstZns array.  Note i and j indices are switched.
@@ -1384,7 +1384,7 @@ void ShearingSheet_grav_ix1(DomainS *pD)
  * then it is possible that:  pD->Nx2 > joffset > pG->Nx2   */
 
   joffset = (int)(deltay/pG->dx2);
-  epsi = (fmod(deltay,pG->dx2))/pG->dx2;
+  epsi = deltay/pG->dx2 - (Real)joffset;
 
 /*--- Step 2. ------------------------------------------------------------------
  * Copy data into GhstZns array.  Note i and j indices are switched.
@@ -1727,7 +1727,7 @@ void ShearingSheet_grav_ox1(DomainS *pD)
  * then it is possible that:  pD->Nx2 > joffset > pG->Nx2   */
 
   joffset = (int)(deltay/pG->dx2);
-  epso = -(fmod(deltay,pG->dx2))/pG->dx2;
+  epso = (Real)joffset - deltay/pG->dx2;
 
 /*--- Step 2. ------------------------------------------------------------------
  * Copy data into GhstZns array.  Note i and j indices are switched.
@@ -2065,7 +2065,7 @@ void RemapFlx_ix1(DomainS *pD, ConsS **Flxiib, ConsS **Flxoib, ConsS **rFlxiib)
   yshear = qomL*pG->time;
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epsi = (fmod(deltay,pG->dx2))/pG->dx2;
+  epsi = deltay/pG->dx2 - (Real)joffset;
 
 /* If not MHD, we ignore B2c and the cnt variable will be changed.  numvar accounts for this
    If numvar = 4, then code is in hydro mode and B2c is not counted in the buffers */
@@ -2583,7 +2583,7 @@ void RemapFlx_ox1(DomainS *pD, ConsS **Flxiib, ConsS **Flxoib, ConsS **rFlxoib)
   yshear = qomL*pG->time;
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epso = -(fmod(deltay,pG->dx2))/pG->dx2;
+  epso = (Real)joffset - deltay/pG->dx2;
 
 /* If not MHD, we ignore B2c and the cnt variable will be changed.  numvar accounts for this
    If numvar = 4, then code is in hydro mode and B2c is not counted in the buffers */
@@ -3101,7 +3101,7 @@ void RemapEy_ix1(DomainS *pD, Real ***emfy, Real **tEy)
   yshear = qomL*pG->time;
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epsi = (fmod(deltay,pG->dx2))/pG->dx2;
+  epsi = deltay/pG->dx2 - (Real)joffset;
   if (epsi < 0.0) printf("EPSI < 0\n");
 
 /*--- Step 1. ------------------------------------------------------------------
@@ -3431,7 +3431,7 @@ void RemapEy_ox1(DomainS *pD, Real ***emfy, Real **tEy)
   yshear = qomL*pG->time;
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epso = -(fmod(deltay,pG->dx2))/pG->dx2;
+  epso = (Real)joffset - deltay/pG->dx2;
   if (epso > 0.0) printf("EPSO > 0\n");
 
 /*--- Step 1. ------------------------------------------------------------------
@@ -3757,7 +3757,7 @@ void RemapJy_ix1(DomainS *pD, Real ***J2, Real ***tJy, int nlayer)
   yshear = qomL*pG->time;
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epsi = (fmod(deltay,pG->dx2))/pG->dx2;
+  epsi = deltay/pG->dx2 - (Real)joffset;
 
 /*--- Step 1. ------------------------------------------------------------------
  * Copy Jy in the right-x1 boundary into temporary array, using periodic BC in x1.
@@ -4154,7 +4154,7 @@ void RemapJy_ox1(DomainS *pD, Real ***J2, Real ***tJy, int nlayer)
   yshear = qomL*pG->time;
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epso = -(fmod(deltay,pG->dx2))/pG->dx2;
+  epso = (Real)joffset - deltay/pG->dx2;
 
 /*--- Step 1. ------------------------------------------------------------------
  * Copy Jy from inner boundary into temporary array, using periodic BC in x1.
@@ -4651,7 +4651,7 @@ void RemapVar(DomainS *pD, Real ***RemapVar, Real dt)
       cc_pos(pG, i, js, ks, &x1,&x2,&x3);
 /* Find the nearest periodic point */
       yshear = -qshear*Omega_0*x1*dt;
-      eps = (fmod(yshear,pG->dx2))/pG->dx2;
+      eps = yshear/pG->dx2 - (Real)((int)(yshear/pG->dx2));
 
 /* Compute fluxes of hydro variables  */
       for (j=js-nghost; j<=je+nghost; j++) U[j] = RemapVar[k][i][j];
@@ -5172,7 +5172,7 @@ void Fargo(DomainS *pD)
       joffset = (int)(yshear/pG->dx2);
       if (abs(joffset) > (jfs-js))
         ath_error("[bvals_shear]: FARGO offset exceeded # of gh zns joffset=%d jfs-js=%d\n",joffset,jfs-js);
-      eps = (fmod(yshear,pG->dx2))/pG->dx2;
+      eps = yshear/pG->dx2 - (Real)joffset;
 
 /* Compute fluxes of hydro variables  */
 #ifdef MHD
@@ -5244,7 +5244,7 @@ void Fargo(DomainS *pD)
       joffset = (int)(yshear/pG->dx2);
       if (abs(joffset) > (jfs-js))
         ath_error("[bvals_shear]: FARGO offset exceeded # of gh zns\n");
-      eps = (fmod(yshear,pG->dx2))/pG->dx2;
+      eps = yshear/pG->dx2 - (Real)joffset;
 
       for (j=jfs-nfghost; j<=jfe+nfghost; j++) {
         U[j] = FargoVars[k][i][j].U[NFARGO-1];
diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index 8b6b6dd..0b94b86 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -725,7 +725,7 @@ void Remap_exchange_ix1(DomainS *pD)
   yshear = qomL*(pG->time+Delta*pG->dt);
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epso = -(fmod(deltay,pG->dx2))/pG->dx2;
+  epso = (Real)joffset - deltay/pG->dx2;
   
 #ifdef MPI_PARALLEL
   if (pG->Nx[2] > 1) {
@@ -1054,7 +1054,7 @@ void Remap_exchange_ox1(DomainS *pD)
   yshear = qomL*(pG->time+Delta*pG->dt);
   deltay = fmod(yshear, Ly);
   joffset = (int)(deltay/pG->dx2);
-  epsi = (fmod(deltay,pG->dx2))/pG->dx2;
+  epsi = deltay/pG->dx2 - (Real)joffset;
 
 #ifdef MPI_PARALLEL
   if (pG->Nx[2] > 1) {
-- 
2.43.0


From fbaf039f8ddeb554055af2ad01c52f5030636b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:29 +0000
Subject: [PATCH 43/45] fix: FARGO takes zones beyond the neighbouring Grid
 along x2 without noticing

---
 src/bvals_shear.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/bvals_shear.c b/src/bvals_shear.c
index 395f97a..1af997c 100644
--- a/src/bvals_shear.c
+++ b/src/bvals_shear.c
@@ -4974,7 +4974,7 @@ void Fargo(DomainS *pD)
   int js = pG->js, je = pG->je;
   int ks = pG->ks, ke = pG->ke;
   int jfs = nfghost, jfe = pG->Nx[1] + nfghost - 1;
-  int i,j,k,ku,jj,n,joffset;
+  int i,j,k,ku,jj,n,joffset,joffmax;
   Real x1,x2,x3,yshear,eps;
 #if defined(ADIABATIC) && defined(SHEARING_BOX)
   Real qom_dt = qshear*Omega_0*pG->dt;
@@ -5051,6 +5051,11 @@ void Fargo(DomainS *pD)
       }
     }
   }
+/* Largest offset for which zones are available.  With MPI decomposition in Y
+ * these only come from the neighboring Grids */
+  joffmax = jfs-js;
+  if (pD->NGrid[1] > 1) joffmax = MIN(joffmax,pG->Nx[1]-nghost);
+
 /*--- Step 2. ------------------------------------------------------------------
  * With no MPI decomposition in Y, apply periodic BCs in Y to FargoVars array
  * (method is similar to periodic_ix2() and periodic_ox2() in bvals_mhd).
@@ -5170,8 +5175,8 @@ void Fargo(DomainS *pD)
       yshear = ((*OrbitalProfile)(x1))*pG->dt;
 #endif
       joffset = (int)(yshear/pG->dx2);
-      if (abs(joffset) > (jfs-js))
-        ath_error("[bvals_shear]: FARGO offset exceeded # of gh zns joffset=%d jfs-js=%d\n",joffset,jfs-js);
+      if (abs(joffset) > joffmax)
+        ath_error("[bvals_shear]: FARGO offset exceeded # of gh zns joffset=%d max=%d\n",joffset,joffmax);
       eps = yshear/pG->dx2 - (Real)joffset;
 
 /* Compute fluxes of hydro variables  */
@@ -5242,7 +5247,7 @@ void Fargo(DomainS *pD)
       yshear = ((*OrbitalProfile)(ri[i]))*pG->dt;
 #endif
       joffset = (int)(yshear/pG->dx2);
-      if (abs(joffset) > (jfs-js))
+      if (abs(joffset) > joffmax)
         ath_error("[bvals_shear]: FARGO offset exceeded # of gh zns\n");
       eps = yshear/pG->dx2 - (Real)joffset;
 
-- 
2.43.0


From ccd622094fcce358d7212c0b3b6d48182b15be55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:40 +0000
Subject: [PATCH 44/45] fix: sign of the emf corrections to the faces around a
 cell in the SR first-order flux correction

---
 src/integrators/integrate_2d_vl_sr.c | 16 +++++-----
 src/integrators/integrate_3d_vl_sr.c | 48 ++++++++++++++--------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index ec75f36..9b62c0b 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -1633,21 +1633,21 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
 /* Use emf3 difference to correct face-centered fields around bad cell */
   if (ix.j > pG->js) {
-    pG->B1i[ks][ix.j-1][ix.i  ] -= dtodx2*(emf3D_ji);
-    pG->B1i[ks][ix.j-1][ix.i+1] -= dtodx2*(emf3D_jip1);
+    pG->B1i[ks][ix.j-1][ix.i  ] += dtodx2*(emf3D_ji);
+    pG->B1i[ks][ix.j-1][ix.i+1] += dtodx2*(emf3D_jip1);
   }
   if (ix.j < pG->je) {
-    pG->B1i[ks][ix.j+1][ix.i  ] += dtodx2*(emf3D_jp1i);
-    pG->B1i[ks][ix.j+1][ix.i+1] += dtodx2*(emf3D_jp1ip1);
+    pG->B1i[ks][ix.j+1][ix.i  ] -= dtodx2*(emf3D_jp1i);
+    pG->B1i[ks][ix.j+1][ix.i+1] -= dtodx2*(emf3D_jp1ip1);
   }
 
   if (ix.i > pG->is) {
-    pG->B2i[ks][ix.j  ][ix.i-1] += dtodx1*(emf3D_ji);
-    pG->B2i[ks][ix.j+1][ix.i-1] += dtodx1*(emf3D_jp1i);
+    pG->B2i[ks][ix.j  ][ix.i-1] -= dtodx1*(emf3D_ji);
+    pG->B2i[ks][ix.j+1][ix.i-1] -= dtodx1*(emf3D_jp1i);
   }
   if (ix.i < pG->ie) {
-    pG->B2i[ks][ix.j  ][ix.i+1] -= dtodx1*(emf3D_jip1);
-    pG->B2i[ks][ix.j+1][ix.i+1] -= dtodx1*(emf3D_jp1ip1);
+    pG->B2i[ks][ix.j  ][ix.i+1] += dtodx1*(emf3D_jip1);
+    pG->B2i[ks][ix.j+1][ix.i+1] += dtodx1*(emf3D_jp1ip1);
   }
 
 /* compute new cell-centered fields */
diff --git a/src/integrators/integrate_3d_vl_sr.c b/src/integrators/integrate_3d_vl_sr.c
index 7ca20ce..92bbed5 100644
--- a/src/integrators/integrate_3d_vl_sr.c
+++ b/src/integrators/integrate_3d_vl_sr.c
@@ -2375,42 +2375,42 @@ static void FixCell(GridS *pG, Int3Vect ix)
   
 /* Use emf differences to correct face-centered fields around bad cell */
   if (ix.i > pG->is) {
-    pG->B2i[ix.k  ][ix.j  ][ix.i-1] += dtodx1*(emf3D_ji);
-    pG->B2i[ix.k  ][ix.j+1][ix.i-1] += dtodx1*(emf3D_jp1i);
-    pG->B3i[ix.k  ][ix.j  ][ix.i-1] -= dtodx1*(emf2D_ki);
-    pG->B3i[ix.k+1][ix.j  ][ix.i-1] -= dtodx1*(emf2D_kp1i);
+    pG->B2i[ix.k  ][ix.j  ][ix.i-1] -= dtodx1*(emf3D_ji);
+    pG->B2i[ix.k  ][ix.j+1][ix.i-1] -= dtodx1*(emf3D_jp1i);
+    pG->B3i[ix.k  ][ix.j  ][ix.i-1] += dtodx1*(emf2D_ki);
+    pG->B3i[ix.k+1][ix.j  ][ix.i-1] += dtodx1*(emf2D_kp1i);
   }
   if (ix.i < pG->ie) {
-    pG->B2i[ix.k  ][ix.j  ][ix.i+1] -= dtodx1*(emf3D_jip1);
-    pG->B2i[ix.k  ][ix.j+1][ix.i+1] -= dtodx1*(emf3D_jp1ip1);
-    pG->B3i[ix.k  ][ix.j  ][ix.i+1] += dtodx1*(emf2D_kip1);
-    pG->B3i[ix.k+1][ix.j  ][ix.i+1] += dtodx1*(emf2D_kp1ip1);
+    pG->B2i[ix.k  ][ix.j  ][ix.i+1] += dtodx1*(emf3D_jip1);
+    pG->B2i[ix.k  ][ix.j+1][ix.i+1] += dtodx1*(emf3D_jp1ip1);
+    pG->B3i[ix.k  ][ix.j  ][ix.i+1] -= dtodx1*(emf2D_kip1);
+    pG->B3i[ix.k+1][ix.j  ][ix.i+1] -= dtodx1*(emf2D_kp1ip1);
   }
   
   if (ix.j > pG->js) {
-    pG->B3i[ix.k  ][ix.j-1][ix.i  ] += dtodx2*(emf1D_kj);
-    pG->B3i[ix.k+1][ix.j-1][ix.i  ] += dtodx2*(emf1D_kp1j);
-    pG->B1i[ix.k  ][ix.j-1][ix.i  ] -= dtodx2*(emf3D_ji);
-    pG->B1i[ix.k  ][ix.j-1][ix.i+1] -= dtodx2*(emf3D_jip1);
+    pG->B3i[ix.k  ][ix.j-1][ix.i  ] -= dtodx2*(emf1D_kj);
+    pG->B3i[ix.k+1][ix.j-1][ix.i  ] -= dtodx2*(emf1D_kp1j);
+    pG->B1i[ix.k  ][ix.j-1][ix.i  ] += dtodx2*(emf3D_ji);
+    pG->B1i[ix.k  ][ix.j-1][ix.i+1] += dtodx2*(emf3D_jip1);
   }
   if (ix.j < pG->je) {
-    pG->B3i[ix.k  ][ix.j+1][ix.i  ] -= dtodx2*(emf1D_kjp1);
-    pG->B3i[ix.k+1][ix.j+1][ix.i  ] -= dtodx2*(emf1D_kp1jp1);
-    pG->B1i[ix.k  ][ix.j+1][ix.i  ] += dtodx2*(emf3D_jp1i);
-    pG->B1i[ix.k  ][ix.j+1][ix.i+1] += dtodx2*(emf3D_jp1ip1);
+    pG->B3i[ix.k  ][ix.j+1][ix.i  ] += dtodx2*(emf1D_kjp1);
+    pG->B3i[ix.k+1][ix.j+1][ix.i  ] += dtodx2*(emf1D_kp1jp1);
+    pG->B1i[ix.k  ][ix.j+1][ix.i  ] -= dtodx2*(emf3D_jp1i);
+    pG->B1i[ix.k  ][ix.j+1][ix.i+1] -= dtodx2*(emf3D_jp1ip1);
   }
   
   if (ix.k > pG->ks) {
-    pG->B1i[ix.k-1][ix.j  ][ix.i  ] += dtodx3*(emf2D_ki);
-    pG->B1i[ix.k-1][ix.j  ][ix.i+1] += dtodx3*(emf2D_kip1);
-    pG->B2i[ix.k-1][ix.j  ][ix.i  ] -= dtodx3*(emf1D_kj);
-    pG->B2i[ix.k-1][ix.j+1][ix.i  ] -= dtodx3*(emf1D_kjp1);
+    pG->B1i[ix.k-1][ix.j  ][ix.i  ] -= dtodx3*(emf2D_ki);
+    pG->B1i[ix.k-1][ix.j  ][ix.i+1] -= dtodx3*(emf2D_kip1);
+    pG->B2i[ix.k-1][ix.j  ][ix.i  ] += dtodx3*(emf1D_kj);
+    pG->B2i[ix.k-1][ix.j+1][ix.i  ] += dtodx3*(emf1D_kjp1);
   }
   if (ix.k < pG->ke) {
-    pG->B1i[ix.k+1][ix.j  ][ix.i  ] -= dtodx3*(emf2D_kp1i);
-    pG->B1i[ix.k+1][ix.j  ][ix.i+1] -= dtodx3*(emf2D_kp1ip1);
-    pG->B2i[ix.k+1][ix.j  ][ix.i  ] += dtodx3*(emf1D_kp1j);
-    pG->B2i[ix.k+1][ix.j+1][ix.i  ] += dtodx3*(emf1D_kp1jp1);
+    pG->B1i[ix.k+1][ix.j  ][ix.i  ] += dtodx3*(emf2D_kp1i);
+    pG->B1i[ix.k+1][ix.j  ][ix.i+1] += dtodx3*(emf2D_kp1ip1);
+    pG->B2i[ix.k+1][ix.j  ][ix.i  ] -= dtodx3*(emf1D_kp1j);
+    pG->B2i[ix.k+1][ix.j+1][ix.i  ] -= dtodx3*(emf1D_kp1jp1);
   }
   
 /* Compute new cell-centered fields */
-- 
2.43.0


From 85310e1426edf8b905a95741acd1750520819d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:56 +0000
Subject: [PATCH 45/45] fix: x3-fluxes and their momentum components in the 3D
 SR first-order flux correction

---
 src/integrators/integrate_3d_vl_sr.c | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/integrators/integrate_3d_vl_sr.c b/src/integrators/integrate_3d_vl_sr.c
index 92bbed5..29e40d1 100644
--- a/src/integrators/integrate_3d_vl_sr.c
+++ b/src/integrators/integrate_3d_vl_sr.c
@@ -2213,7 +2213,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.d = x1Flux[ix.k][ix.j][ix.i+1].d - x1FluxP[ix.k][ix.j][ix.i+1].d;
   x2FD_jp1.d = x2Flux[ix.k][ix.j+1][ix.i].d - x2FluxP[ix.k][ix.j+1][ix.i].d;
-  x3FD_kp1.d = x2Flux[ix.k+1][ix.j][ix.i].d - x3FluxP[ix.k+1][ix.j][ix.i].d;
+  x3FD_kp1.d = x3Flux[ix.k+1][ix.j][ix.i].d - x3FluxP[ix.k+1][ix.j][ix.i].d;
 
   x1FD_i.Mx = x1Flux[ix.k][ix.j][ix.i].Mx - x1FluxP[ix.k][ix.j][ix.i].Mx;
   x2FD_j.Mx = x2Flux[ix.k][ix.j][ix.i].Mx - x2FluxP[ix.k][ix.j][ix.i].Mx;
@@ -2221,7 +2221,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.Mx = x1Flux[ix.k][ix.j][ix.i+1].Mx - x1FluxP[ix.k][ix.j][ix.i+1].Mx;
   x2FD_jp1.Mx = x2Flux[ix.k][ix.j+1][ix.i].Mx - x2FluxP[ix.k][ix.j+1][ix.i].Mx;
-  x3FD_kp1.Mx = x2Flux[ix.k+1][ix.j][ix.i].Mx - x3FluxP[ix.k+1][ix.j][ix.i].Mx;
+  x3FD_kp1.Mx = x3Flux[ix.k+1][ix.j][ix.i].Mx - x3FluxP[ix.k+1][ix.j][ix.i].Mx;
 
   x1FD_i.My = x1Flux[ix.k][ix.j][ix.i].My - x1FluxP[ix.k][ix.j][ix.i].My;
   x2FD_j.My = x2Flux[ix.k][ix.j][ix.i].My - x2FluxP[ix.k][ix.j][ix.i].My;
@@ -2229,7 +2229,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.My = x1Flux[ix.k][ix.j][ix.i+1].My - x1FluxP[ix.k][ix.j][ix.i+1].My;
   x2FD_jp1.My = x2Flux[ix.k][ix.j+1][ix.i].My - x2FluxP[ix.k][ix.j+1][ix.i].My;
-  x3FD_kp1.My = x2Flux[ix.k+1][ix.j][ix.i].My - x3FluxP[ix.k+1][ix.j][ix.i].My;
+  x3FD_kp1.My = x3Flux[ix.k+1][ix.j][ix.i].My - x3FluxP[ix.k+1][ix.j][ix.i].My;
 
   x1FD_i.Mz = x1Flux[ix.k][ix.j][ix.i].Mz - x1FluxP[ix.k][ix.j][ix.i].Mz;
   x2FD_j.Mz = x2Flux[ix.k][ix.j][ix.i].Mz - x2FluxP[ix.k][ix.j][ix.i].Mz;
@@ -2237,7 +2237,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.Mz = x1Flux[ix.k][ix.j][ix.i+1].Mz - x1FluxP[ix.k][ix.j][ix.i+1].Mz;
   x2FD_jp1.Mz = x2Flux[ix.k][ix.j+1][ix.i].Mz - x2FluxP[ix.k][ix.j+1][ix.i].Mz;
-  x3FD_kp1.Mz = x2Flux[ix.k+1][ix.j][ix.i].Mz - x3FluxP[ix.k+1][ix.j][ix.i].Mz;
+  x3FD_kp1.Mz = x3Flux[ix.k+1][ix.j][ix.i].Mz - x3FluxP[ix.k+1][ix.j][ix.i].Mz;
 
 #ifndef BAROTROPIC
   x1FD_i.E = x1Flux[ix.k][ix.j][ix.i].E - x1FluxP[ix.k][ix.j][ix.i].E;
@@ -2246,7 +2246,7 @@ static void FixCell(GridS *pG, Int3Vect ix)
 
   x1FD_ip1.E = x1Flux[ix.k][ix.j][ix.i+1].E - x1FluxP[ix.k][ix.j][ix.i+1].E;
   x2FD_jp1.E = x2Flux[ix.k][ix.j+1][ix.i].E - x2FluxP[ix.k][ix.j+1][ix.i].E;
-  x3FD_kp1.E = x2Flux[ix.k+1][ix.j][ix.i].E - x3FluxP[ix.k+1][ix.j][ix.i].E;
+  x3FD_kp1.E = x3Flux[ix.k+1][ix.j][ix.i].E - x3FluxP[ix.k+1][ix.j][ix.i].E;
 #endif /* BAROTROPIC */
 
 #ifdef MHD
@@ -2285,9 +2285,9 @@ static void FixCell(GridS *pG, Int3Vect ix)
 #endif /* BAROTROPIC */
 
   pG->U[ix.k][ix.j][ix.i].d  += dtodx3*(x3FD_kp1.d  - x3FD_k.d );
-  pG->U[ix.k][ix.j][ix.i].M1 += dtodx3*(x3FD_kp1.Mz - x3FD_k.Mz);
-  pG->U[ix.k][ix.j][ix.i].M2 += dtodx3*(x3FD_kp1.Mx - x3FD_k.Mx);
-  pG->U[ix.k][ix.j][ix.i].M3 += dtodx3*(x3FD_kp1.My - x3FD_k.My);
+  pG->U[ix.k][ix.j][ix.i].M1 += dtodx3*(x3FD_kp1.My - x3FD_k.My);
+  pG->U[ix.k][ix.j][ix.i].M2 += dtodx3*(x3FD_kp1.Mz - x3FD_k.Mz);
+  pG->U[ix.k][ix.j][ix.i].M3 += dtodx3*(x3FD_kp1.Mx - x3FD_k.Mx);
 #ifndef BAROTROPIC
   pG->U[ix.k][ix.j][ix.i].E  += dtodx3*(x3FD_kp1.E  - x3FD_k.E );
 #endif /* BAROTROPIC */
@@ -2340,9 +2340,9 @@ static void FixCell(GridS *pG, Int3Vect ix)
  
   if (ix.k > pG->ks) {
     pG->U[ix.k-1][ix.j][ix.i].d  += dtodx3*(x3FD_k.d );
-    pG->U[ix.k-1][ix.j][ix.i].M1 += dtodx3*(x3FD_k.Mz);
-    pG->U[ix.k-1][ix.j][ix.i].M2 += dtodx3*(x3FD_k.Mx);
-    pG->U[ix.k-1][ix.j][ix.i].M3 += dtodx3*(x3FD_k.My);
+    pG->U[ix.k-1][ix.j][ix.i].M1 += dtodx3*(x3FD_k.My);
+    pG->U[ix.k-1][ix.j][ix.i].M2 += dtodx3*(x3FD_k.Mz);
+    pG->U[ix.k-1][ix.j][ix.i].M3 += dtodx3*(x3FD_k.Mx);
 #ifndef BAROTROPIC
     pG->U[ix.k-1][ix.j][ix.i].E  += dtodx3*(x3FD_k.E );
 #endif /* BAROTROPIC */
@@ -2350,9 +2350,9 @@ static void FixCell(GridS *pG, Int3Vect ix)
  
   if (ix.k < pG->ke) {
     pG->U[ix.k+1][ix.j][ix.i].d  -= dtodx3*(x3FD_kp1.d );
-    pG->U[ix.k+1][ix.j][ix.i].M1 -= dtodx3*(x3FD_kp1.Mz);
-    pG->U[ix.k+1][ix.j][ix.i].M2 -= dtodx3*(x3FD_kp1.Mx);
-    pG->U[ix.k+1][ix.j][ix.i].M3 -= dtodx3*(x3FD_kp1.My);
+    pG->U[ix.k+1][ix.j][ix.i].M1 -= dtodx3*(x3FD_kp1.My);
+    pG->U[ix.k+1][ix.j][ix.i].M2 -= dtodx3*(x3FD_kp1.Mz);
+    pG->U[ix.k+1][ix.j][ix.i].M3 -= dtodx3*(x3FD_kp1.Mx);
 #ifndef BAROTROPIC
     pG->U[ix.k+1][ix.j][ix.i].E  -= dtodx3*(x3FD_kp1.E );
 #endif /* BAROTROPIC */
-- 
2.43.0

