From 567fb80698b3846248748b9c17149a737237cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 01/80] fix: do not compare a missing answer clause in
 wr_register_answer

A proof without an answer clause is registered with a NULL clause; a second proof
found in the same step then dereferenced it and crashed.
---
 Reasoner/history.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 28ebc46..2f38d8b 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2480,6 +2480,11 @@ int wr_register_answer(glb* g, gptr cl, gint history) {
       wr_print_clause(g,(gptr)(g->answers)[i]);
       printf("\n");
       */
+      // a proof without an answer clause is stored with a NULL clause
+      if ((gptr)(g->answers)[i]==NULL || cl==NULL) {
+        if ((gptr)(g->answers)[i]==cl) return (((g->answers)[1])-2)/2;
+        continue;
+      }
       // old one subsumes new one, do not add
       if (wr_same_answers(g,(gptr)(g->answers)[i],cl,1)) {
         //printf("\nfound subsuming answer\n");
-- 
2.43.0


From bf337ec230c7e6a3518dfa630e4cc1c4b67ee0cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:42 +0000
Subject: [PATCH 02/80] fix: keep the persistent clause, not the given_termbuf
 copy, in the doublehash

given_termbuf is reused for each given clause, so the hashed two-literal clause
was overwritten by later ones: wrong and cyclic proof histories, and a crash.
---
 Reasoner/rgenloop.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 858e380..321b0ef 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -452,7 +452,8 @@ int wr_genloop(glb* g) {
       continue; 
     }    
     if (simplen!=origlen && simplen==2) {
-      wr_add_cl_to_doublehash(g,given_cl);
+      // the cand is persistent, given_cl is in the reused given_termbuf
+      wr_add_cl_to_doublehash(g,given_cl_cand);
     }  
      
     // do factorizations with the given clause
-- 
2.43.0


From ee246d3f03f81a9e7ca0977b5614b8f8037de7d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:04 +0000
Subject: [PATCH 03/80] fix: restore the buffer the discarded resolvent was
 built in

After a partial hyperresolution result is simplified, build_buffer points to
another buffer than the one initial_queue_termbuf_next was taken from.
---
 Reasoner/derive.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Reasoner/derive.c b/Reasoner/derive.c
index 503af69..238cc78 100644
--- a/Reasoner/derive.c
+++ b/Reasoner/derive.c
@@ -100,6 +100,7 @@ void wr_process_resolve_result
   gint resmeta,history, hash;
   int ruleflag;
   gint initial_queue_termbuf_next=0;
+  gptr initial_build_buffer=NULL;
   int weight;
   double avg;
   gint cl_metablock[CLMETABLOCK_ELS];
@@ -255,6 +256,8 @@ void wr_process_resolve_result
     initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer); // to be restored if not actually used
   }  
 
+  initial_build_buffer=g->build_buffer; // simplification below may switch to another buffer
+
   history=wr_build_resolve_history(g,xcl_as_active,ycl,cutpos1,cutpos2,g->cut_clvec);
   res=wr_derived_build_cl_from_initial_cl(g,rptr,rpos,ruleflag,history);
 
@@ -358,7 +361,7 @@ void wr_process_resolve_result
     //printf(" weight %d average %f count %d \n",weight,(g->avg_kept_weight),(g->stat_kept_cl));
     if (!wr_derived_weight_check(g,avg,weight,size,depth,length,xatomnr,yatomnr)) {
       (g->stat_weight_discarded_cl)++;
-      CVEC_NEXT(g->build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
+      CVEC_NEXT(initial_build_buffer)=initial_queue_termbuf_next; // initial next-to-take restored
       if (g->print_derived_cl) wr_printf("\nw discarded overweight");
       return;
     }
-- 
2.43.0


From 1889587d8322b1af553a55d8f3ae675d3079312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:59 +0000
Subject: [PATCH 04/80] fix: a list of exactly ten runs was taken for a
 sequence run

---
 Reasoner/guide.c | 4 ++--
 Reasoner/guide.h | 4 ++++
 Reasoner/rmain.c | 2 +-
 3 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/Reasoner/guide.c b/Reasoner/guide.c
index bcfaaad..e368329 100644
--- a/Reasoner/guide.c
+++ b/Reasoner/guide.c
@@ -165,7 +165,7 @@ int wr_parse_guide_section(glb* g, cJSON *guide, int runnr, char** outstr, int s
     }
     out=cJSON_PrintUnformatted(guide);
     *outstr=out;
-    return 10;
+    return GUIDE_SEQ_RUN;
   } else if (!json_isobject(guide)) {    
     errstr=cJSON_Print(guide);
     wr_warn2(g,"misunderstood section in the strategy:\n ", errstr);
@@ -397,7 +397,7 @@ int wr_parse_guide_section(glb* g, cJSON *guide, int runnr, char** outstr, int s
               if (*outstr) free(*outstr); // free the string set by the recursive call before overwriting
               out=cJSON_PrintUnformatted(run);
               *outstr=out;
-              if (tmp==10) return 10;
+              if (tmp==GUIDE_SEQ_RUN) return GUIDE_SEQ_RUN;
               if (tmp<0) return -1;
             }
           } 
diff --git a/Reasoner/guide.h b/Reasoner/guide.h
index f64d4fb..057f1a4 100644
--- a/Reasoner/guide.h
+++ b/Reasoner/guide.h
@@ -32,6 +32,10 @@
 #include "glb.h"
 #include "../cjson/cjson.h"
 
+// returned by wr_parse_guide_section for a run given as an array of
+// strategies: must differ from any realistic number of runs
+#define GUIDE_SEQ_RUN 1000000
+
 cJSON* wr_parse_guide_file(char* stratfile, char** guidebuf);
 cJSON* wr_parse_guide_str(char* buf);
 int wr_parse_guide_strategy_set(glb* g, char* stratname);
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 23f4c0e..8cb8c53 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -747,7 +747,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
    
 
     if (!(g->proof_found) || !(wr_enough_answers(g))) {   
-      if (guideres==10 && (g->guidetext)) {
+      if (guideres==GUIDE_SEQ_RUN && (g->guidetext)) {
         printf("\nseqstrat\n");
         int seqnr=0, seqguideres;
         //char *out;
-- 
2.43.0


From d83d730d82ebcd7ccf544605c5b4d000380502ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:59 +0000
Subject: [PATCH 05/80] fix: workers without a proof must not stop the other
 workers

A worker without a proof printed a result and ended with status 0, which the
main process took for a proof and killed the others.  Killed workers were
waited for forever, and workers without a run in the list searched on with
default settings.
---
 Main/gkc.c       | 16 ++++++++++++++++
 Reasoner/rmain.c | 16 ++++++++++++++++
 2 files changed, 32 insertions(+)

diff --git a/Main/gkc.c b/Main/gkc.c
index b33b20c..6a10731 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -128,6 +128,7 @@ extern "C" {
 
 int gkc_main(int argc, char **argv);
 void sig_handler(int signum);
+static void worker_exit(long main_pid);
 void usage(char *prog);
 gint parse_shmsize(char *arg);
 gint parse_flag(char *arg);
@@ -235,6 +236,7 @@ int gkc_main(int argc, char **argv) {
   char* strattext=NULL;
   int tmp;
   int retcode=0;
+  long main_pid=0; // process id before any workers are forked
   int informat=0; // 0 if not set, 1 if tptp fof
   int tptp=DEFAULT_TPTP; // 0 if not tptp format output
   int json=0;
@@ -274,6 +276,7 @@ int gkc_main(int argc, char **argv) {
     return 0;
   }
 #if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+  main_pid=(long)getpid();
   if (seconds) {
     signal(SIGALRM,sig_handler);
     alarm(seconds);
@@ -423,6 +426,7 @@ int gkc_main(int argc, char **argv) {
     } else {      
       err = wg_run_reasoner(shmptr,inputname,stratfile,informat,NULL,strattext);
       if (err) {
+        worker_exit(main_pid);
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");
         else if (tptp)  {          
@@ -710,6 +714,7 @@ int gkc_main(int argc, char **argv) {
     } else {
       err = wg_run_reasoner(shmptrlocal,inputname,stratfile,informat,NULL,strattext);
       if (err) {
+        worker_exit(main_pid);
         if (printlevel>11) printf("\n\n");
         if (json) printf("\n{\"result\": \"proof not found\"}\n");        
         else  printf("result: proof not found.\n");
@@ -911,6 +916,17 @@ int gkc_main(int argc, char **argv) {
   return(0);
 }
 
+/* a forked worker which found no proof must not report a result: status 1
+   tells the main process to wait for the other workers */
+static void worker_exit(long main_pid) {
+#if !defined(_WIN32) && !defined(__EMSCRIPTEN__)
+  if ((long)getpid()!=main_pid) {
+    fflush(stdout);
+    _exit(1);
+  }
+#endif
+}
+
 void sig_handler(int signum){
   fflush(stdout);
   printf("\n{\"result\": \"time limit, proof not found\"}\n");
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 8cb8c53..6085d90 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -337,6 +337,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
         }          
       }       
       cpid=waitpid(-1,&stat, 0);
+      if (cpid<0) break; // no workers left to wait for
 
       //printf("\nwaitpid ended for cpid %d\n",cpid);
       //fflush(stdout);
@@ -375,6 +376,15 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
           if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
           exit(0);
         }        
+      } else if (WIFSIGNALED(stat)) {
+        // a worker was killed: the others go on
+        forkslive--;
+        for(i=0;i<forkscreated;i++) {
+          if (forkpids[i]==cpid) {
+            forkpids[i]=0;
+            break;
+          }
+        }
       }
       
       //printf("\nin forkslive loop\n");
@@ -534,6 +544,12 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       sys_free(g);
       if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
       return -1;
+    } else if (guideres>0 && iter>=guideres) {
+      // a worker with no run of its own left in the runs list
+      if (local_db) (dbmemsegh(local_db)->local_g)=NULL;
+      if (guidetext) free(guidetext);
+      sys_free(g);
+      break;
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-- 
2.43.0


From ef8871ba8f7a2f2cf52f3216f8e595ea32cd5109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:59 +0000
Subject: [PATCH 06/80] fix: go on with the next run when sine selects no
 clauses

---
 Reasoner/rmain.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 6085d90..cc8196a 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -744,6 +744,11 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       wr_printf("\nError initializing clause lists.\n");
       wr_glb_free(g);
       break;
+    } else if (!clause_count && (g->sine_strat_used) && (iter+1)<guideres) {
+      // sine selected no clauses for this run: go on with the next run
+      if (local_db) (dbmemsegh(local_db)->local_g)=NULL;
+      wr_glb_free(g);
+      continue;
     } else if (!clause_count) {
       // no clauses found
       wr_printf("\nNo clauses found.\n");
-- 
2.43.0


From f2e0fae8cc05b17026ebf57400e580203b392362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:18 +0000
Subject: [PATCH 07/80] fix: print the source of an unnamed input clause in
 TPTP proofs

---
 Reasoner/history.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 2f38d8b..7ccb8f0 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1912,6 +1912,8 @@ int wr_strprint_one_history
       bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"plain, ");
       bpos=wr_strprint_clause(g,cl,buf,blen,bpos);  
       if (bpos<0) return bpos;
+      if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  input)");
     } else if (name && wg_get_encoded_type(db,name)==WG_INTTYPE) {
       if (!(g->print_proof_tptp)) {
         bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%d",(int)(wg_decode_int(db,name)));
-- 
2.43.0


From 9660536d4f8621b4c8179397829a79430fed4e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:57 +0000
Subject: [PATCH 08/80] fix: close the source list of merge and inst steps
 properly in JSON proofs

---
 Reasoner/history.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 7ccb8f0..f8720ca 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -2161,7 +2161,11 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      } else {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
+      }
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
@@ -2200,7 +2204,11 @@ int wr_strprint_one_history
       bpos=wr_strprint_history_extra(g,buf,blen,bpos,history);
       if (bpos<0) return bpos;
     } else {
-      bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");  
+      if (g->print_json) {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"], ");
+      } else {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"] ");
+      }
     } 
     bpos=wr_strprint_clause(g,cl,buf,blen,bpos);        
     if (bpos<0) return bpos;
-- 
2.43.0


From 19f6d5f3768ce7a68bf31f3a4917f12eae6c91dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 09/80] fix: compute $is_list, $is_distinct, $is_atom and
 $is_map as type predicates

They were dispatched to the code of $first, replacing the atom by the first element of the list.
---
 Reasoner/build.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 0c1bdce..3e1a0b6 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1107,6 +1107,8 @@ gint wr_compute_from_termptr(glb* g, gptr tptr, int comp) {
     case COMP_FUN_IS_MAP:
     case COMP_FUN_IS_ATOM:
     case COMP_FUN_IS_UNIQUE:
+      res=wr_compute_fun_arith1(g,tptr,comp);
+      break;
     case COMP_FUN_FIRST:  
       res=wr_compute_fun_list(g,tptr,1);
       break;
@@ -1707,6 +1709,10 @@ gint wr_compute_fun_arith1(glb* g, gptr tptr, int comp) {
               str[4]=='\0')         
             return ACONST_TRUE; 
           break;                
+        case COMP_FUN_IS_UNIQUE:
+          // the empty list is a list, not a distinct symbol
+          if (wr_uri_is_list(g,a)) return ACONST_FALSE;
+          break;
       }  
     }  
   }
-- 
2.43.0


From 7bc5d96efe8f8106fac2ca56811eb3870c2e721b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 10/80] fix: $lesseq and $greatereq hold between an integer and
 an equal real

---
 Reasoner/build.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 3e1a0b6..8705638 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1294,6 +1294,7 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
     if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
     else bd=wg_decode_double(db,b);
     if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
+    if (ad==bd) return ifequal; // same value, different types
     if (isless) {
       if (ad < bd) return ACONST_TRUE;
       else return ACONST_FALSE; 
-- 
2.43.0


From d857522a209459902715720b06fcba111f99da8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 11/80] fix: $substrat compares the whole string and is false
 outside of it

It compared one character, was left unevaluated when out of range, and
both $substr and $substrat evaluated ordinary symbols as strings.
---
 Reasoner/build.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 8705638..272f641 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1460,6 +1460,8 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
   b=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)];
   btype=wg_get_encoded_type(db,b);
   if (btype!=WG_URITYPE) return encode_record(db,tptr);
+  // ordinary symbols are not strings: their values are not known
+  if (!wr_uri_is_unique(g,a) || !wr_uri_is_unique(g,b)) return encode_record(db,tptr);
   as=wg_decode_uri(db,a);
   bs=wg_decode_uri(db,b);
   if(!as || !bs) return encode_record(db,tptr);
@@ -1470,16 +1472,15 @@ gint wr_compute_fun_str(glb* g, gptr tptr, int comp) {
       else return ACONST_TRUE;
       break;
     case COMP_FUN_IS_SUBSTRAT: 
+      if (len<(g->unify_firstuseterm)+4) return encode_record(db,tptr);
       c=tptr[RECORD_HEADER_GINTS+(g->unify_funarg2pos)+1];
       ctype=wg_get_encoded_type(db,c);
       if (ctype!=WG_INTTYPE) return encode_record(db,tptr);
       ci=wg_decode_int(db,c);
-      if (ci<0) return encode_record(db,tptr);
       len=strlen(bs);
-      if (ci>len) return encode_record(db,tptr);      
       len2=strlen(as);
-      if (len2+ci>len) return encode_record(db,tptr);
-      itmp=memcmp(bs+ci,as,1);
+      if (ci<0 || ci>len || len2>len-ci) return ACONST_FALSE;
+      itmp=memcmp(bs+ci,as,len2);
       if (!itmp) return ACONST_TRUE;  
       else return ACONST_FALSE;     
       break;
-- 
2.43.0


From 8711fb5362847024f2033c7c506932bc675d9b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:12 +0000
Subject: [PATCH 12/80] fix: round quotients and remainders as the TPTP
 suffixes e, t and f say

$quotient_e rounded in the opposite direction, all remainders were truncating,
and integer quotients lost precision over 2^53.
---
 Reasoner/build.c | 62 ++++++++++++++++++++++++++++++++++++------------
 1 file changed, 47 insertions(+), 15 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 272f641..dda3e4e 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -89,6 +89,42 @@ static int wr_gint_mul_checked(gint a,gint b,gint* result) {
   return 1;
 }
 
+/* 
+  The quotient and the remainder of a and a nonzero b, rounded by the _e, _t or _f 
+  suffix of the TPTP function comp: the quotient_e has a nonnegative remainder.
+  Returns 0 if the quotient does not fit. Both result pointers may be NULL.
+*/
+
+static int wr_gint_divide(gint a,gint b,int comp,gint* quotient,gint* remainder) {
+  gint q,r;
+
+  if (b==-1) {
+    if (remainder) *remainder=0;
+    if (a==(gint)INTPTR_MIN) return 0;
+    if (quotient) *quotient=0-a;
+    return 1;
+  }
+  q=a/b;
+  r=a%b;
+  if (r && (comp==COMP_FUN_QUOTIENT_F || comp==COMP_FUN_REMAINDER_F)) {
+    if ((r<0)!=(b<0)) { 
+      q=q-1;
+      r=r+b;
+    }
+  } else if (r<0 && (comp==COMP_FUN_QUOTIENT_E || comp==COMP_FUN_REMAINDER_E)) {
+    if (b>0) {
+      q=q-1;
+      r=r+b;
+    } else {
+      q=q+1;
+      r=r-b;
+    }
+  }
+  if (quotient) *quotient=q;
+  if (remainder) *remainder=r;
+  return 1;
+}
+
 static int wr_double_to_gint_checked(double value,gint* result) {
   if (!isfinite(value) ||
       (long double)value<(long double)INTPTR_MIN ||
@@ -1343,31 +1379,27 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break;  
       case COMP_FUN_QUOTIENT_E:
         if (!bi) return encode_record(db,tptr);
-        if (bi<0) rd=floor((double)ai / (double)bi);
-        else rd=ceil((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (!wr_gint_divide(ai,bi,comp,&ri,NULL)) return encode_record(db,tptr);
         break;  
       case COMP_FUN_QUOTIENT_T:
         if (!bi) return encode_record(db,tptr);
-        rd=trunc((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (!wr_gint_divide(ai,bi,comp,&ri,NULL)) return encode_record(db,tptr);
         break;   
       case COMP_FUN_QUOTIENT_F:
         if (!bi) return encode_record(db,tptr);
-        rd=floor((double)ai / (double)bi);
-        if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
+        if (!wr_gint_divide(ai,bi,comp,&ri,NULL)) return encode_record(db,tptr);
         break;   
       case COMP_FUN_REMAINDER_E:
         if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        wr_gint_divide(ai,bi,comp,NULL,&ri);
         break;  
       case COMP_FUN_REMAINDER_T:
         if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        wr_gint_divide(ai,bi,comp,NULL,&ri);
         break;   
       case COMP_FUN_REMAINDER_F:
         if (!bi) return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        wr_gint_divide(ai,bi,comp,NULL,&ri);
         break;      
       default:
         return encode_record(db,tptr);
@@ -1396,8 +1428,8 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         break; 
       case COMP_FUN_QUOTIENT_E:       
         if (bd==0.0) return encode_record(db,tptr);        
-        if (bd<0) rd=floor(ad/bd);
-        else rd=ceil(ad/bd);
+        if (bd<0) rd=ceil(ad/bd);
+        else rd=floor(ad/bd);
         if (!wr_double_to_gint_checked(rd,&ri)) return encode_record(db,tptr);
         return wg_encode_int(g->local_db,ri);        
         break;  
@@ -1417,21 +1449,21 @@ gint wr_compute_fun_arith2(glb* g, gptr tptr, int comp) {
         if (!wr_double_to_gint_checked(ad,&ai) ||
             !wr_double_to_gint_checked(bd,&bi) || !bi)
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        wr_gint_divide(ai,bi,comp,NULL,&ri);
         return wg_encode_int(g->local_db,ri);        
         break;  
       case COMP_FUN_REMAINDER_T:        
         if (!wr_double_to_gint_checked(ad,&ai) ||
             !wr_double_to_gint_checked(bd,&bi) || !bi)
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        wr_gint_divide(ai,bi,comp,NULL,&ri);
         return wg_encode_int(g->local_db,ri);
         break;   
       case COMP_FUN_REMAINDER_F:
         if (!wr_double_to_gint_checked(ad,&ai) ||
             !wr_double_to_gint_checked(bd,&bi) || !bi)
           return encode_record(db,tptr);
-        ri=(ai==(gint)INTPTR_MIN && bi==-1) ? 0 : (gint)(ai % bi);
+        wr_gint_divide(ai,bi,comp,NULL,&ri);
         return wg_encode_int(g->local_db,ri);
         break;      
       default: 
-- 
2.43.0


From 9bfa8b2c218ff79bf62d8e26ee318bc35dffce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:20 +0000
Subject: [PATCH 13/80] fix: read and print integers over 32 bits without
 wrapping them around

---
 Builtparser/dbparse.c  | 2 +-
 Parser/dbparse.c       | 2 +-
 Printer/dbotterprint.c | 6 ++----
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 91d05ea..bba3250 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 91d05ea..bba3250 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1650,7 +1650,7 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
   int type;
   char* str1;
   char* str2;
-  int intdata;
+  gint intdata;
   double doubledata;
   int i; 
 
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 664986f..16fea05 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -328,8 +328,7 @@ void wr_print_simpleterm_otter(glb* g, gint enc,int printlevel) {
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:
-      intdata = wg_decode_int(db, enc);
-      printf("%d", intdata);
+      printf("%ld", (long)wg_decode_int(db, enc));
       break;
     case WG_DOUBLETYPE:
       doubledata = wg_decode_double(db, enc);
@@ -845,8 +844,7 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
     //  wg_print_subrecord_otter(db,(gint*)ptrdata);
     //  break;    
     case WG_INTTYPE:            
-      intdata = wg_decode_int(db, enc);     
-      return pos+snprintf((*buf)+pos,(*len)-pos,"%d", intdata);
+      return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
       return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
-- 
2.43.0


From 6132bea492d4818252b693c4af3d243a031c73f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:43 +0000
Subject: [PATCH 14/80] fix: keep the value of JSON reals that are very large
 or small

---
 Db/dbmpool.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 57ce946..f9fa0f2 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -728,7 +728,7 @@ void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* str1;
 
   //printf("\ndouble2c %lf\n",num);  
-  len1=snprintf(buf,38,"%f",num)+1;
+  len1=snprintf(buf,38,"%.17g",num)+1;
   str1=buf;
   size=size+len1;
   size++;  
-- 
2.43.0


From 998665c602c21f74e5470a85a5551cfab422231d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:04 +0000
Subject: [PATCH 15/80] fix: quoted symbols longer than 1023 bytes overflowed
 the lexer's buffer

---
 Builtparser/dbotter.yy.c | 186 ++++++++++++++++++++++-----------------
 Parser/dbotter.l         |  54 ++++++++----
 2 files changed, 142 insertions(+), 98 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index b69708c..f60b2bc 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -834,10 +834,32 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
 
-#line 841 "Parser/dbotter.yy.c"
+/* the text of a quoted token: grows as needed. An outgrown buffer is not freed,
+   since the value of the previous token may still point to it. */
+static char *elmparsestrbuf=NULL;
+static size_t elmparsestrlen=0;
+static size_t elmparsestrsize=0;
+
+static void elmparsestr_add(char c) {
+  char *tmp;
+  size_t newsize;
+
+  if (elmparsestrlen>=elmparsestrsize) {
+    newsize=elmparsestrsize ? elmparsestrsize*2 : 1024;
+    tmp=(char*)malloc(newsize);
+    if (tmp==NULL) {
+      fprintf(stderr,"cannot allocate memory for a quoted symbol\n");
+      exit(1);
+    }
+    if (elmparsestrlen) memcpy(tmp,elmparsestrbuf,elmparsestrlen);
+    elmparsestrbuf=tmp;
+    elmparsestrsize=newsize;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+}
+
+#line 863 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
  
 /* utf-8: a byte >= 0x80 is part of a utf-8 character and is a word
@@ -845,7 +867,7 @@ static char *s;
    caps-as-var test in dbparse.c only accepts ASCII uppercase).
    See /opt/gk/Doc/MEMO_input_robustness.md I1/M2 and the same policy in
    gk Converter/convcommon.c. */
-#line 849 "Parser/dbotter.yy.c"
+#line 871 "Parser/dbotter.yy.c"
 
 #define INITIAL 0
 #define STRSTATE 1
@@ -1120,10 +1142,10 @@ YY_DECL
 		}
 
 	{
-#line 127 "Parser/dbotter.l"
+#line 149 "Parser/dbotter.l"
 
 
-#line 1127 "Parser/dbotter.yy.c"
+#line 1149 "Parser/dbotter.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1194,7 +1216,7 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 129 "Parser/dbotter.l"
+#line 151 "Parser/dbotter.l"
 {
               parseprintf( "an op: %s", yytext);
               *yylval=yytext;	      
@@ -1203,7 +1225,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 135 "Parser/dbotter.l"
+#line 157 "Parser/dbotter.l"
 {
               parseprintf( "an neq: %s", yytext);
               *yylval=yytext;	      
@@ -1212,7 +1234,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 142 "Parser/dbotter.l"
+#line 164 "Parser/dbotter.l"
 {
               parseprintf( "an eq: %s", yytext);
               *yylval=yytext;	      
@@ -1221,7 +1243,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 148 "Parser/dbotter.l"
+#line 170 "Parser/dbotter.l"
 {
               parseprintf( "an rimp: %s", yytext);
               *yylval=yytext;	      
@@ -1230,7 +1252,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 154 "Parser/dbotter.l"
+#line 176 "Parser/dbotter.l"
 {
               parseprintf( "an limp: %s", yytext);
               *yylval=yytext;	      
@@ -1239,7 +1261,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 160 "Parser/dbotter.l"
+#line 182 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1248,7 +1270,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 166 "Parser/dbotter.l"
+#line 188 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1257,7 +1279,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 172 "Parser/dbotter.l"
+#line 194 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1266,7 +1288,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 178 "Parser/dbotter.l"
+#line 200 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1275,7 +1297,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 184 "Parser/dbotter.l"
+#line 206 "Parser/dbotter.l"
 {
               parseprintf( "an @: %s", yytext);
               *yylval=yytext;	      
@@ -1284,7 +1306,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 190 "Parser/dbotter.l"
+#line 212 "Parser/dbotter.l"
 {
               parseprintf( "an emptystring: %s", yytext);
               *yylval="$emptystr";	      
@@ -1293,7 +1315,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 196 "Parser/dbotter.l"
+#line 218 "Parser/dbotter.l"
 { parseprintf( "An integer: %s (%d)\n",yytext,atoi(yytext));	           
               *yylval=yytext;              
               return TINT; 
@@ -1301,7 +1323,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 200 "Parser/dbotter.l"
+#line 222 "Parser/dbotter.l"
 {
               parseprintf( "A float: %s", yytext);
               *yylval=yytext;	      
@@ -1310,7 +1332,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 206 "Parser/dbotter.l"
+#line 228 "Parser/dbotter.l"
 {
               parseprintf( "A date: %s\n", yytext);
               *yylval=yytext;	      
@@ -1319,7 +1341,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 212 "Parser/dbotter.l"
+#line 234 "Parser/dbotter.l"
 {
               parseprintf( "A time: %s\n", yytext);			  
 	            *yylval=yytext; 
@@ -1328,28 +1350,28 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 218 "Parser/dbotter.l"
-{ BEGIN STRSTATE; s = elmparsestrbuf; } 
+#line 240 "Parser/dbotter.l"
+{ BEGIN STRSTATE; elmparsestrlen=0; } 
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 219 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+#line 241 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 220 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+#line 242 "Parser/dbotter.l"
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 221 "Parser/dbotter.l"
-{ *s++ = '\"'; } 
+#line 243 "Parser/dbotter.l"
+{ elmparsestr_add('\"'); } 
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 222 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+#line 244 "Parser/dbotter.l"
+{ elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
@@ -1358,8 +1380,8 @@ YY_RULE_SETUP
 case 21:
 /* rule 21 can match eol */
 YY_RULE_SETUP
-#line 227 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+#line 249 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
@@ -1367,33 +1389,33 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 232 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+#line 254 "Parser/dbotter.l"
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 23:
 YY_RULE_SETUP
-#line 235 "Parser/dbotter.l"
-{ BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
+#line 257 "Parser/dbotter.l"
+{ BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 236 "Parser/dbotter.l"
-{ *s++ = '\n'; } 
+#line 258 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); } 
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 237 "Parser/dbotter.l"
-{ *s++ = '\t'; } 
+#line 259 "Parser/dbotter.l"
+{ elmparsestr_add('\t'); } 
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 238 "Parser/dbotter.l"
-{ *s++ = '\''; } 
+#line 260 "Parser/dbotter.l"
+{ elmparsestr_add('\''); } 
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 239 "Parser/dbotter.l"
-{ *s = 0; BEGIN 0; 
+#line 261 "Parser/dbotter.l"
+{ elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
@@ -1402,8 +1424,8 @@ YY_RULE_SETUP
 case 28:
 /* rule 28 can match eol */
 YY_RULE_SETUP
-#line 244 "Parser/dbotter.l"
-{ *s++ = '\n'; 
+#line 266 "Parser/dbotter.l"
+{ elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
@@ -1411,38 +1433,38 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 249 "Parser/dbotter.l"
-{ *s++ = *yytext; }
+#line 271 "Parser/dbotter.l"
+{ elmparsestr_add(*yytext); }
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 252 "Parser/dbotter.l"
+#line 274 "Parser/dbotter.l"
 BEGIN(COMMENT);  
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 254 "Parser/dbotter.l"
+#line 276 "Parser/dbotter.l"
 /* eat anything that's not a '*' */
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 255 "Parser/dbotter.l"
+#line 277 "Parser/dbotter.l"
 /* eat up '*'s not followed by '/'s */
 	YY_BREAK
 case 33:
 /* rule 33 can match eol */
 YY_RULE_SETUP
-#line 256 "Parser/dbotter.l"
+#line 278 "Parser/dbotter.l"
 ;
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 257 "Parser/dbotter.l"
+#line 279 "Parser/dbotter.l"
 BEGIN(INITIAL);
 	YY_BREAK
 case 35:
 YY_RULE_SETUP
-#line 259 "Parser/dbotter.l"
+#line 281 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
@@ -1451,7 +1473,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 265 "Parser/dbotter.l"
+#line 287 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
@@ -1460,7 +1482,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 271 "Parser/dbotter.l"
+#line 293 "Parser/dbotter.l"
 {
 	        parseprintf( "A variable: %s\n", yytext );
 	        *yylval=yytext;
@@ -1470,106 +1492,106 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 277 "Parser/dbotter.l"
+#line 299 "Parser/dbotter.l"
 { strncpy(linebuf, yytext+1, sizeof(linebuf)-1);
        yyless(1);      
      }
 	YY_BREAK
 case 39:
 YY_RULE_SETUP
-#line 281 "Parser/dbotter.l"
+#line 303 "Parser/dbotter.l"
 { } /* eat up line comment until end of line */
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 283 "Parser/dbotter.l"
+#line 305 "Parser/dbotter.l"
 return '-';
 	YY_BREAK
 case 41:
 YY_RULE_SETUP
-#line 284 "Parser/dbotter.l"
+#line 306 "Parser/dbotter.l"
 return '~';
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 285 "Parser/dbotter.l"
+#line 307 "Parser/dbotter.l"
 return '|';
 	YY_BREAK
 case 43:
 YY_RULE_SETUP
-#line 286 "Parser/dbotter.l"
+#line 308 "Parser/dbotter.l"
 return ')';
 	YY_BREAK
 case 44:
 YY_RULE_SETUP
-#line 287 "Parser/dbotter.l"
+#line 309 "Parser/dbotter.l"
 return '(';
 	YY_BREAK
 case 45:
 YY_RULE_SETUP
-#line 288 "Parser/dbotter.l"
+#line 310 "Parser/dbotter.l"
 return '}';
 	YY_BREAK
 case 46:
 YY_RULE_SETUP
-#line 289 "Parser/dbotter.l"
+#line 311 "Parser/dbotter.l"
 return '{';
 	YY_BREAK
 case 47:
 YY_RULE_SETUP
-#line 290 "Parser/dbotter.l"
+#line 312 "Parser/dbotter.l"
 return ',';
 	YY_BREAK
 case 48:
 YY_RULE_SETUP
-#line 291 "Parser/dbotter.l"
+#line 313 "Parser/dbotter.l"
 return '.';
 	YY_BREAK
 case 49:
 YY_RULE_SETUP
-#line 293 "Parser/dbotter.l"
+#line 315 "Parser/dbotter.l"
 return ']';
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 294 "Parser/dbotter.l"
+#line 316 "Parser/dbotter.l"
 return '[';
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 295 "Parser/dbotter.l"
+#line 317 "Parser/dbotter.l"
 return '!';
 	YY_BREAK
 case 52:
 YY_RULE_SETUP
-#line 296 "Parser/dbotter.l"
+#line 318 "Parser/dbotter.l"
 return '?';
 	YY_BREAK
 case 53:
 YY_RULE_SETUP
-#line 297 "Parser/dbotter.l"
+#line 319 "Parser/dbotter.l"
 return ':';
 	YY_BREAK
 case 54:
 YY_RULE_SETUP
-#line 298 "Parser/dbotter.l"
+#line 320 "Parser/dbotter.l"
 return '&';
 	YY_BREAK
 case 55:
 YY_RULE_SETUP
-#line 300 "Parser/dbotter.l"
+#line 322 "Parser/dbotter.l"
 return '*';
 	YY_BREAK
 case 56:
 YY_RULE_SETUP
-#line 301 "Parser/dbotter.l"
+#line 323 "Parser/dbotter.l"
 return '+';
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(STRSTATE):
 case YY_STATE_EOF(QUOTESTATE):
 case YY_STATE_EOF(COMMENT):
-#line 303 "Parser/dbotter.l"
+#line 325 "Parser/dbotter.l"
 { parseprintf("file end\n"); 
               //return FILEEND; 
 	            yyterminate();
@@ -1577,20 +1599,20 @@ case YY_STATE_EOF(COMMENT):
 	YY_BREAK
 case 57:
 YY_RULE_SETUP
-#line 308 "Parser/dbotter.l"
+#line 330 "Parser/dbotter.l"
 /* eat up whitespace */
 	YY_BREAK
 case 58:
 YY_RULE_SETUP
-#line 310 "Parser/dbotter.l"
+#line 332 "Parser/dbotter.l"
 { parseprintf( "Unrecognized character: %s\n", yytext ); }
 	YY_BREAK
 case 59:
 YY_RULE_SETUP
-#line 313 "Parser/dbotter.l"
+#line 335 "Parser/dbotter.l"
 ECHO;
 	YY_BREAK
-#line 1594 "Parser/dbotter.yy.c"
+#line 1616 "Parser/dbotter.yy.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -2738,7 +2760,7 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 313 "Parser/dbotter.l"
+#line 335 "Parser/dbotter.l"
 
 
 
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index e78046b..89db5e6 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -97,8 +97,30 @@ lex_parsestr(const char *s)
 /* static: dbprolog.l used to declare identical copies, which linked only via
    pre-gcc-10 common-symbol merging; keep these lexer-local */
 static char linebuf[1024];
-static char elmparsestrbuf[1024];
-static char *s;
+
+/* the text of a quoted token: grows as needed. An outgrown buffer is not freed,
+   since the value of the previous token may still point to it. */
+static char *elmparsestrbuf=NULL;
+static size_t elmparsestrlen=0;
+static size_t elmparsestrsize=0;
+
+static void elmparsestr_add(char c) {
+  char *tmp;
+  size_t newsize;
+
+  if (elmparsestrlen>=elmparsestrsize) {
+    newsize=elmparsestrsize ? elmparsestrsize*2 : 1024;
+    tmp=(char*)malloc(newsize);
+    if (tmp==NULL) {
+      fprintf(stderr,"cannot allocate memory for a quoted symbol\n");
+      exit(1);
+    }
+    if (elmparsestrlen) memcpy(tmp,elmparsestrbuf,elmparsestrlen);
+    elmparsestrbuf=tmp;
+    elmparsestrsize=newsize;
+  }
+  elmparsestrbuf[elmparsestrlen++]=c;
+}
 
 %}
 
@@ -215,38 +237,38 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               return TIME; 
 	    }  	    
 
-\"              { BEGIN STRSTATE; s = elmparsestrbuf; } 
-<STRSTATE>\\n   { *s++ = '\n'; } 
-<STRSTATE>\\t   { *s++ = '\t'; } 
-<STRSTATE>\\\"  { *s++ = '\"'; } 
-<STRSTATE>\"    { *s = 0; BEGIN 0; 
+\"              { BEGIN STRSTATE; elmparsestrlen=0; } 
+<STRSTATE>\\n   { elmparsestr_add('\n'); } 
+<STRSTATE>\\t   { elmparsestr_add('\t'); } 
+<STRSTATE>\\\"  { elmparsestr_add('\"'); } 
+<STRSTATE>\"    { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
                 } 
-<STRSTATE>\n    { *s++ = '\n'; 
+<STRSTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
-<STRSTATE>.     { *s++ = *yytext; }
+<STRSTATE>.     { elmparsestr_add(*yytext); }
 
 
-\'              { BEGIN QUOTESTATE; s = elmparsestrbuf; } /* *s++ = '#';}  */
-<QUOTESTATE>\\n   { *s++ = '\n'; } 
-<QUOTESTATE>\\t   { *s++ = '\t'; } 
-<QUOTESTATE>\\\'  { *s++ = '\''; } 
-<QUOTESTATE>\'    { *s = 0; BEGIN 0; 
+\'              { BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
+<QUOTESTATE>\\n   { elmparsestr_add('\n'); } 
+<QUOTESTATE>\\t   { elmparsestr_add('\t'); } 
+<QUOTESTATE>\\\'  { elmparsestr_add('\''); } 
+<QUOTESTATE>\'    { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
                 } 
-<QUOTESTATE>\n    { *s++ = '\n'; 
+<QUOTESTATE>\n    { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
-<QUOTESTATE>.     { *s++ = *yytext; }
+<QUOTESTATE>.     { elmparsestr_add(*yytext); }
 
 
 "/*"         BEGIN(COMMENT);  
-- 
2.43.0


From e2d04eabf02b88dbaafa4a1a03bd5690c50000f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:25 +0000
Subject: [PATCH 16/80] fix: hashing a real over the int range was undefined

---
 Reasoner/hash.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Reasoner/hash.c b/Reasoner/hash.c
index 81d4754..7fdf341 100644
--- a/Reasoner/hash.c
+++ b/Reasoner/hash.c
@@ -32,6 +32,7 @@
 extern "C" {
 #endif
 
+#include <limits.h>
 #include "rincludes.h"  
  
 
@@ -461,7 +462,9 @@ static int int_hash(int x) {
 
 static int double_hash(double x) {
   if (x==(double)0) return 20;
-  return int_hash((int)(x*1000));  
+  x=x*1000;
+  if (!(x>(double)INT_MIN && x<(double)INT_MAX)) return 21; // does not fit into int
+  return int_hash((int)x);  
 } 
 
 // see also http://www.stdlib.net/~colmmacc/strlen.c.html for speedup ideas
-- 
2.43.0


From e654616eee0bab0758a50fbdfa74a34f0ab73062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:38 +0000
Subject: [PATCH 17/80] fix: long reals were cut off in the printed output at
 the end of the print buffer

---
 Printer/dbotterprint.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 16fea05..6c52fd4 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -847,6 +847,8 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       return pos+snprintf((*buf)+pos,(*len)-pos,"%ld", (long)wg_decode_int(db, enc));
     case WG_DOUBLETYPE:     
       doubledata = wg_decode_double(db, enc);
+      // over 300 digits for the largest values
+      if (!wr_str_guarantee_space(g,buf,len,pos+400)) return -1;
       return pos+snprintf((*buf)+pos,(*len)-pos,"%f", doubledata);
     case WG_STRTYPE:
       strdata = wg_decode_str(db, enc);
-- 
2.43.0


From 8728d045ed58d527d5dc92f031a8ced826e075a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:42 +0000
Subject: [PATCH 18/80] fix: read the name of a negated JSON atom like the name
 of a positive one

---
 Builtparser/jsparse.c | 4 +++-
 Parser/jsparse.c      | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 7aa3619..2a222d9 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -2316,7 +2316,9 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      // the name without the negation sign is read like the name of a positive atom
+      if (tmp && *(wg_atomstr1(db,head)+1)) tmp=wr_process_json_term(g,pp,tmp,0,0);
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 7aa3619..2a222d9 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -2316,7 +2316,9 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);      
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      // the name without the negation sign is read like the name of a positive atom
+      if (tmp && *(wg_atomstr1(db,head)+1)) tmp=wr_process_json_term(g,pp,tmp,0,0);
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
-- 
2.43.0


From a706142df62fd330570f64b25d96c40ed6bfee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:02 +0000
Subject: [PATCH 19/80] fix: print long names in full and escape names in JSON
 and quoted TPTP output

---
 Builtparser/dbparse.c  | 41 +++++++++---------
 Parser/dbparse.c       | 41 +++++++++---------
 Printer/dbotterprint.c | 96 ++++++++++++++++++++++++++----------------
 Printer/dbotterprint.h |  2 +
 Reasoner/history.c     | 42 +++++++++++++-----
 Reasoner/rmain.c       | 29 ++++++-------
 6 files changed, 150 insertions(+), 101 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index bba3250..8fd159c 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -466,8 +466,10 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+        bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -478,11 +480,8 @@ void* wr_preprocess_clauselist
               strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos=wg_strprint_json_string(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname),0,0);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));   
         wg_expand_frm_for_print(db,mpool,cl);                              
@@ -533,8 +532,10 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+        bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -545,11 +546,8 @@ void* wr_preprocess_clauselist
               strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos=wg_strprint_json_string(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname),0,0);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                                 
@@ -603,13 +601,17 @@ void* wr_preprocess_clauselist
         */
         wg_expand_frm_for_print(db,mpool,cl);
         if (clauseflag) {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));                                                           
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+          bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+          if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));                                                           
           bpos=wg_print_cnf_tptp(db,cl,&(g->tmp_printbuf),&blen,bpos);          
         } else {
           if (freevars) cl=wg_mklist3(db,mpool,wg_makelogall(db,mpool),freevars,cl); 
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));                                                                     
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+          bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+          if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));                                                                     
           bpos=wg_print_frm_tptp(db,cl,&(g->tmp_printbuf),&blen,bpos);
         } 
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");               
@@ -943,7 +945,8 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
     if (name && wg_isatom(db,name)) {
       namestr=wg_atomstr1(db,name);
       strncpy(namebuf,namestr,900);
-      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,900);
+      namebuf[900]=0;
+      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,90);
       skname=wg_mkatom(db,mpool,WG_URITYPE,namebuf, NULL);
     } else {
       skname=NULL;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index bba3250..8fd159c 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -466,8 +466,10 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0; 
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole)); 
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+        bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole)); 
         wg_expand_frm_for_print(db,mpool,cl);                             
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);  
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -478,11 +480,8 @@ void* wr_preprocess_clauselist
               strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos=wg_strprint_json_string(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname),0,0);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));   
         wg_expand_frm_for_print(db,mpool,cl);                              
@@ -533,8 +532,10 @@ void* wr_preprocess_clauselist
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         bpos=0;
         if (!wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
-        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+        bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+        bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                
         bpos=wg_print_frm_tptp(db,wg_nth(db,cl,3),&(g->tmp_printbuf),&blen,bpos);
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");                       
@@ -545,11 +546,8 @@ void* wr_preprocess_clauselist
               strlen(wg_atomstr1(db,clname))+
               strlen(wg_atomstr1(db,clrole))+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"{\"@name\":");
-        if (wg_contains_dquote(wg_atomstr1(db,clname))) {                   
-          bpos+=wg_print_dquoted(&(g->tmp_printbuf),blen,bpos,wg_atomstr1(db,clname),0,0);        
-        } else {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"\"%s\"",wg_atomstr1(db,clname));         
-        }
+        bpos=wg_strprint_json_string(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname),0,0);
+        if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",
                        wg_atomstr1(db,clrole));
         wg_expand_frm_for_print(db,mpool,cl);                                 
@@ -603,13 +601,17 @@ void* wr_preprocess_clauselist
         */
         wg_expand_frm_for_print(db,mpool,cl);
         if (clauseflag) {
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "cnf('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));                                                           
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"cnf(");
+          bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+          if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));                                                           
           bpos=wg_print_cnf_tptp(db,cl,&(g->tmp_printbuf),&blen,bpos);          
         } else {
           if (freevars) cl=wg_mklist3(db,mpool,wg_makelogall(db,mpool),freevars,cl); 
-          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,
-                       "fof('%s',%s,",wg_atomstr1(db,clname),wg_atomstr1(db,clrole));                                                                     
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+          bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,wg_atomstr1(db,clname));
+          if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+          bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",wg_atomstr1(db,clrole));                                                                     
           bpos=wg_print_frm_tptp(db,cl,&(g->tmp_printbuf),&blen,bpos);
         } 
         bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,").");               
@@ -943,7 +945,8 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
     if (name && wg_isatom(db,name)) {
       namestr=wg_atomstr1(db,name);
       strncpy(namebuf,namestr,900);
-      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,900);
+      namebuf[900]=0;
+      strncat(namebuf,SKOLEM_CLNAME_SUFFIX,90);
       skname=wg_mkatom(db,mpool,WG_URITYPE,namebuf, NULL);
     } else {
       skname=NULL;
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 6c52fd4..bc4bf2e 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -873,26 +873,19 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
       if (strdata) len1=strlen(strdata);
       if (exdata) len2=strlen(exdata);
       //printf("\nstrdata %s exdata %s\n",strdata,exdata);
-      if (!wr_str_guarantee_space(g,buf,len,pos+len1+len2+100)) return -1;
+      // each character may have to be escaped
+      if (!wr_str_guarantee_space(g,buf,len,pos+2*len1+len2+100)) return -1;
       if (exdata==NULL) {        
         if (g->print_clauses_json) {
           if (isneg) {          
-            if (wg_contains_dquote(strdata)) {                        
-              pos+=wg_print_dquoted(buf,*len,pos,strdata,1,0);                
-              return pos;
-            } else {    
-              return pos+snprintf((*buf)+pos,(*len)-pos,"\"-%s\"", strdata);
-            }  
+            return wg_strprint_json_string(db,buf,len,pos,strdata,1,0);
           } else {
             if (!strdata) {
               return pos+snprintf((*buf)+pos,(*len)-pos,"\"\"");
             } else if (!strcmp(strdata,EMPTYSTRING)) {
               return pos+snprintf((*buf)+pos,(*len)-pos,"\"\"");             
-            } else if (wg_contains_dquote(strdata)) {                       
-              pos+=wg_print_dquoted(buf,*len,pos,strdata,0,0);                          
-              return pos;
             } else {  
-              return pos+snprintf((*buf)+pos,(*len)-pos,"\"%s\"", strdata);
+              return wg_strprint_json_string(db,buf,len,pos,strdata,0,0);
             }  
           }          
         } else {          
@@ -928,24 +921,10 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
           if (exdata && *exdata=='#' && *(exdata+1)=='\0') uniqueflag=1;
           else uniqueflag=0;
           if (isneg) {
-            if (wg_contains_dquote(strdata)) {                        
-              pos+=wg_print_dquoted(buf,*len,pos,strdata,1,uniqueflag);                
-              return pos;
-            } else if (uniqueflag) {    
-              return pos+snprintf((*buf)+pos,(*len)-pos,"\"-#:%s\"", strdata);                
-            } else {    
-              return pos+snprintf((*buf)+pos,(*len)-pos,"\"-%s\"", strdata);
-            }  
+            return wg_strprint_json_string(db,buf,len,pos,strdata,1,uniqueflag);
             //return pos+snprintf((*buf)+pos,(*len)-pos,"\"-%s:%s\"", exdata, strdata);
           } else {
-            if (wg_contains_dquote(strdata)) {                       
-              pos+=wg_print_dquoted(buf,*len,pos,strdata,0,uniqueflag);                          
-              return pos;
-            } else if (uniqueflag) {    
-              return pos+snprintf((*buf)+pos,(*len)-pos,"\"#:%s\"", strdata);             
-            } else {  
-              return pos+snprintf((*buf)+pos,(*len)-pos,"\"%s\"", strdata);
-            } 
+            return wg_strprint_json_string(db,buf,len,pos,strdata,0,uniqueflag);
             //return pos+snprintf((*buf)+pos,(*len)-pos,"\"%s:%s\"", exdata, strdata);
           }          
         } else {
@@ -1218,6 +1197,53 @@ int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uni
   else return i+(uniqueflag ? 2 : 0);
 }
 
+/* Prints s as a json string with the escapes json needs, after making space for it.
+   Returns the new position or -1.
+*/
+
+int wg_strprint_json_string(void* db, char** buf, int* len, int pos, char* s, int negflag, int uniqueflag) {
+  unsigned char c;
+
+  if (!s) s="";
+  if (!wg_str_guarantee_space(db,buf,len,pos+6*strlen(s)+20)) return -1;
+  *((*buf)+pos++)='"';
+  if (negflag) *((*buf)+pos++)='-';
+  if (uniqueflag) {
+    *((*buf)+pos++)='#';
+    *((*buf)+pos++)=':';
+  }
+  for(; *s!=0; s++) {
+    c=(unsigned char)*s;
+    if (c=='"' || c=='\\') {
+      *((*buf)+pos++)='\\';
+      *((*buf)+pos++)=c;
+    } else if (c=='\n') {
+      *((*buf)+pos++)='\\';
+      *((*buf)+pos++)='n';
+    } else if (c=='\t') {
+      *((*buf)+pos++)='\\';
+      *((*buf)+pos++)='t';
+    } else if (c<32) {
+      pos+=sprintf((*buf)+pos,"\\u%04x",c);
+    } else {
+      *((*buf)+pos++)=c;
+    }
+  }
+  *((*buf)+pos++)='"';
+  *((*buf)+pos)=0;
+  return pos;
+}
+
+/* Prints s as a tptp quoted name after making space for it. Returns the new position or -1. */
+
+int wg_strprint_quoted(void* db, char** buf, int* len, int pos, char* s) {
+  if (!s) s="";
+  if (!wg_str_guarantee_space(db,buf,len,pos+2*strlen(s)+20)) return -1;
+  pos+=wg_print_quoted(buf,*len,pos,s);
+  *((*buf)+pos)=0;
+  return pos;
+}
+
 /*
 int wg_print_dquoted2(char** buf, int len, int pos, char* s, char* s2, int negflag) {
   char c;
@@ -1496,7 +1522,8 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);   
     //p2=wg_atomstr2(db,ptr); 
-    if (!wg_str_guarantee_space(db,buf,len,pos+1000)) return -1; 
+    // each character may have to be escaped
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
@@ -1769,6 +1796,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);        
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1; 
     switch (type) {    
       case WG_INTTYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
       case WG_DOUBLETYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
@@ -2117,7 +2145,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
     //p2=wg_atomstr2(db,ptr);  
-    if (!wg_str_guarantee_space(db,buf,len,pos+strlen(p)+1000)) return -1; 
+    if (!wg_str_guarantee_space(db,buf,len,pos+(p ? strlen(p) : 0)+1000)) return -1; 
     switch (type) {
       /*
       case 0: printf("_:"); break;
@@ -2147,10 +2175,10 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
           pos+=snprintf((*buf)+pos,(*len)-pos,"\"\"" );  
         } else if (!strcmp(p,EMPTYSTRING)) {
           pos+=snprintf((*buf)+pos,(*len)-pos,"\"\"");                
-        } else if (!strncmp(p,"$true",5)) {
+        } else if (!strcmp(p,"$true")) {
           if (negflag) pos+=snprintf((*buf)+pos,(*len)-pos,"false");
           else pos+=snprintf((*buf)+pos,(*len)-pos,"true");
-        } else if (!strncmp(p,"$false",6)) {
+        } else if (!strcmp(p,"$false")) {
           if (negflag) pos+=snprintf((*buf)+pos,(*len)-pos,"true");
           else pos+=snprintf((*buf)+pos,(*len)-pos,"false");
          } else if (WG_URITYPE) {
@@ -2175,11 +2203,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
                 }  
                 */                
               if (1) { //(wg_contains_dquote(p)) { 
-                if (negflag) {                  
-                  pos+=wg_print_dquoted(buf,*len,pos,p,1,unique);        
-                } else {
-                  pos+=wg_print_dquoted(buf,*len,pos,p,0,unique); 
-                }  
+                pos=wg_strprint_json_string(db,buf,len,pos,p,(negflag ? 1 : 0),unique);
               }/* else {
                 if (negflag) {
                   pos+=snprintf((*buf)+pos,(*len)-pos,"\"~%s\"",p);
diff --git a/Printer/dbotterprint.h b/Printer/dbotterprint.h
index 729edb8..60af6a6 100644
--- a/Printer/dbotterprint.h
+++ b/Printer/dbotterprint.h
@@ -70,6 +70,8 @@ int wg_contains_dquote(char* s);
 int wg_print_quoted(char** buf, int len, int pos, char* s);
 int wg_print_quoted2(char** buf, int len, int pos, char* es, char* s);
 int wg_print_dquoted(char** buf, int len, int pos, char* s, int negflag, int uniqueflag);
+int wg_strprint_json_string(void* db, char** buf, int* len, int pos, char* s, int negflag, int uniqueflag);
+int wg_strprint_quoted(void* db, char** buf, int* len, int pos, char* s);
 int wg_nice_strprint_var(glb* g, gint i, char** buf, int *len, int pos);
 
 void wg_tptp_print(void* db, void* ptr);
diff --git a/Reasoner/history.c b/Reasoner/history.c
index f8720ca..2cb8aa0 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1722,15 +1722,20 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', axiom, ",inputstr);
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ",wg_atomstr1(child_db,tmpptr)); 
 
-                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', %s, ",
-                  inputstr,wg_atomstr1(child_db,tmpptr));
+                if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof(");
+                bpos=wg_strprint_quoted(db,buf,blen,bpos,inputstr);
+                if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", %s, ",wg_atomstr1(child_db,tmpptr));
               } else {
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ","input");
               } 
               //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\ncnf('%s', axiom, ",inputstr);  
               bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
+              if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  input). ");    
             } else {
+              if (!wr_str_guarantee_space(g,buf,blen,bpos+strlen(inputstr)+100)) return -1;
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n %s:",inputstr);    
               if (bpos<0) return bpos;
               if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
@@ -1763,7 +1768,11 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
               // print
               if (g->print_proof_tptp) {
                 if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {
-                  bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', plain, ",atomstr);
+                  if (!wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+                  bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof(");
+                  bpos=wg_strprint_quoted(db,buf,blen,bpos,atomstr);
+                  if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+                  bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", plain, ");
                   //bpos+=snprintf((*buf)+bpos,(*blen)-bpos," [%s] ",wg_atomstr1(child_db,tmpptr)); 
 
                   //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\nfof('%s', %s, ",
@@ -1773,9 +1782,13 @@ int wr_strprint_inputs(glb* g, int inputcount, char** inputs,
                 } 
                 //bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\ncnf('%s', axiom, ",inputstr);  
                 bpos=wg_print_frm_tptp(child_db,wg_nth(child_db,frm,3),buf,blen,bpos);
-                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
-                  ",\n  inference(negpush_and_skolemize,[],['%s'])).",inputstr);    
+                if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  inference(negpush_and_skolemize,[],[");
+                bpos=wg_strprint_quoted(db,buf,blen,bpos,inputstr);
+                if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+                bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"])).");    
               } else {
+                if (!wr_str_guarantee_space(g,buf,blen,bpos+strlen(atomstr)+strlen(inputstr)+100)) return -1;
                 bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"\n %s:",atomstr);    
                 if (bpos<0) return bpos;
                 if (tmpptr && wg_isatom(child_db,tmpptr) && wg_atomstr1(child_db,tmpptr)) {                                           
@@ -1876,8 +1889,11 @@ int wr_strprint_one_history
       }
       namestr=wg_decode_str(db,name);
       if (!wr_str_guarantee_space(g,buf,blen,bpos+100+strlen(namestr))) return -1;
-      if (g->print_json) bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", \"%s\"",namestr);
-      else {
+      if (g->print_json) {
+        bpos+=snprintf((*buf)+bpos,(*blen)-bpos,", ");
+        bpos=wg_strprint_json_string(db,buf,blen,bpos,namestr,0,0);
+        if (bpos<0) return bpos;
+      } else {
         if ((g->print_fof_conversion_proof) && (g->store_fof_skolem_steps) &&
             namestr) {
           skfound=0;
@@ -1891,15 +1907,19 @@ int wr_strprint_one_history
           }
           if (skfound) {
             if (g->print_proof_tptp) {
-              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
-                ",\n  inference(cnf_transformation,[],['%s%s']))",namestr,SKOLEM_CLNAME_SUFFIX);
+              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  inference(cnf_transformation,[],[");
+              bpos=wg_strprint_quoted(db,buf,blen,bpos,skinputs[j]);
+              if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"]))");
             } else {
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s%s",namestr,SKOLEM_CLNAME_SUFFIX);
             }
           } else {
             if (g->print_proof_tptp) {
-              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,
-                ",\n  inference(cnf_transformation,[],['%s']))",namestr);
+              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  inference(cnf_transformation,[],[");
+              bpos=wg_strprint_quoted(db,buf,blen,bpos,namestr);
+              if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+              bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"]))");
             } else {
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
             }  
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index cc8196a..eb840e9 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1746,25 +1746,18 @@ int wr_print_all_clauses(glb* g, void* child_db) {
     objflag=0;
     if (g->print_json) {
       if ((nameflag && namestr[0]) && (decprior && decprior!=WR_HISTORY_AXIOM_ROLENR)) {        
-        if (wg_contains_dquote(namestr)) {
-          bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"@name\":");
-          bpos+=wg_print_dquoted(&buf,blen,bpos,namestr,0,0);
-          bpos+=snprintf(buf+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",priorstr);
-        } else {
-          bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"@name\":\"%s\",\"@role\":\"%s\",\"@logic\":",
-                        namestr,priorstr);
-        }  
+        bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"@name\":");
+        bpos=wg_strprint_json_string(g->db,&buf,&blen,bpos,namestr,0,0);
+        if (bpos<0 || !wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+        bpos+=snprintf(buf+bpos,blen-bpos,",\"@role\":\"%s\",\"@logic\":",priorstr);
         objflag=1;
         //bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"name\":\"%s\",\"role\":\"%s\",\"logic\":",namestr,priorstr);
         //objflag=1;
       } else if (nameflag && namestr[0]) {
-         if (wg_contains_dquote(namestr)) {
-          bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"@name\":");
-          bpos+=wg_print_dquoted(&buf,blen,bpos,namestr,0,0);
-          bpos+=snprintf(buf+bpos,blen-bpos,",\"@logic\":");
-        } else {
-          bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"@name\":\"%s\",\"@logic\":",namestr);
-        }  
+        bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"@name\":");
+        bpos=wg_strprint_json_string(g->db,&buf,&blen,bpos,namestr,0,0);
+        if (bpos<0 || !wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+        bpos+=snprintf(buf+bpos,blen-bpos,",\"@logic\":");
         objflag=1;
         //bpos+=snprintf(buf+bpos,blen-bpos,"\n{\"name\":\"%s\",\"logic\":",namestr);
         //objflag=1;
@@ -1798,8 +1791,12 @@ int wr_print_all_clauses(glb* g, void* child_db) {
         bpos+=snprintf(buf+bpos,blen-bpos,"\n");
       } 
       if (nameflag && wg_should_quote(namestr)) {
-        bpos+=snprintf(buf+bpos,blen-bpos,"cnf('%s',%s,",namestr,priorstr);
+        bpos+=snprintf(buf+bpos,blen-bpos,"cnf(");
+        bpos=wg_strprint_quoted(g->db,&buf,&blen,bpos,namestr);
+        if (bpos<0 || !wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+        bpos+=snprintf(buf+bpos,blen-bpos,",%s,",priorstr);
       } else {
+        if (!wr_str_guarantee_space(g,&buf,&blen,bpos+strlen(namestr)+100)) return -1;
         bpos+=snprintf(buf+bpos,blen-bpos,"cnf(%s,%s,",namestr,priorstr);
       }
       bpos=wr_strprint_clause(g,rec,&buf,&blen,bpos);
-- 
2.43.0


From b7183255caafb12960a9b8a1dae541f837e858c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:03 +0000
Subject: [PATCH 20/80] fix: keep a partial hyperresolution result that
 simplification has finished

---
 Reasoner/rgenloop.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Reasoner/rgenloop.c b/Reasoner/rgenloop.c
index 321b0ef..aee8263 100644
--- a/Reasoner/rgenloop.c
+++ b/Reasoner/rgenloop.c
@@ -383,6 +383,10 @@ int wr_genloop(glb* g) {
     }
 
     // -- check part 2 ends ---
+    if (given_from_hyperqueue_flag && wr_hyperres_satellite_cl(g,given_cl)) {
+      // simplification finished the partial hyperresolution result: an ordinary clause now
+      given_from_hyperqueue_flag=0;
+    }
 #ifdef RECORD_HISTORY_ORDER
     wr_set_history_record_given_order(g,
       rotp(g,wr_get_history(g,given_cl)));  
-- 
2.43.0


From 57bc2aaf0ab04635c372697030efbd565eee1c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:17 +0000
Subject: [PATCH 21/80] fix: decide list inequality by later elements when
 earlier ones are undecided

---
 Reasoner/build.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index dda3e4e..8bda4c8 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -1231,7 +1231,7 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
   if (btype==WG_VARTYPE) return encode_record(db,tptr);
   // here we have not equal a and b with non-var types
 #ifdef LISTPROCESSING
-  gint tmp, ael, bel;
+  gint tmp, tmp2, ael, bel;
   gptr aptr, bptr;  
   aptr=rotp(g,a);
   bptr=rotp(g,b);
@@ -1264,13 +1264,13 @@ gint wr_compute_fun_equal_terms(glb* g, gint a, gint b, gptr tptr) {
     bel=wg_get_field(db,bptr,2);    
     tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
     if (tmp==ACONST_FALSE) return ACONST_FALSE;
-    if (tmp!=ACONST_TRUE) return tmp;
+    // undecided first elements do not matter if the rests are known to differ
     ael=wg_get_field(db,aptr,3);
     bel=wg_get_field(db,bptr,3);     
-    tmp=wr_compute_fun_equal_terms(g,ael,bel,tptr);
-    if (tmp==ACONST_FALSE) return ACONST_FALSE;
+    tmp2=wr_compute_fun_equal_terms(g,ael,bel,tptr);
+    if (tmp2==ACONST_FALSE) return ACONST_FALSE;
     if (tmp!=ACONST_TRUE) return tmp;
-    return ACONST_TRUE;
+    return tmp2;
   } else if (atype==WG_URITYPE && btype==WG_URITYPE &&
             (wr_uri_is_unique(g,a) || wr_uri_is_list(g,a)) && 
             (wr_uri_is_unique(g,b) || wr_uri_is_list(g,b)) ) { 
-- 
2.43.0


From 0dc51140c9af8466f7ab1086c730a4df7274d229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:11 +0000
Subject: [PATCH 22/80] fix: read "" as the empty distinct symbol

---
 Builtparser/dbparse.c | 5 ++++-
 Parser/dbparse.c      | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 8fd159c..30f84fe 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1718,7 +1718,10 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
-        if (!pos || !str1 || str2) {         
+        if (!str1 && str2) {
+          // an empty distinct symbol ""
+          ret=wg_encode_uri(db,"",str2);
+        } else if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
                    (g->parse_question_as_var && str1[0]=='?') ) {
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 8fd159c..30f84fe 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1718,7 +1718,10 @@ gint wr_parse_primitive(glb* g,void* mpool,void* atomptr, char** vardata, int po
         break; 
       case WG_URITYPE: 
         str2=wg_atomstr2(db,atomptr);
-        if (!pos || !str1 || str2) {         
+        if (!str1 && str2) {
+          // an empty distinct symbol ""
+          ret=wg_encode_uri(db,"",str2);
+        } else if (!pos || !str1 || str2) {         
           ret=wg_encode_uri(db,str1,str2); 
         } else if ((g->parse_caps_as_var && isupper((unsigned char)(str1[0]))) ||
                    (g->parse_question_as_var && str1[0]=='?') ) {
-- 
2.43.0


From 44f8930767fe5863f5f9d986944fe8101f8475eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:36 +0000
Subject: [PATCH 23/80] fix: print the empty distinct symbol in converted
 output

---
 Printer/dbotterprint.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index bc4bf2e..322e9b5 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -1521,6 +1521,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);   
+    if (!p && type==WG_URITYPE && wg_atomstr2(db,ptr)) p=""; // an empty distinct symbol
     //p2=wg_atomstr2(db,ptr); 
     // each character may have to be escaped
     if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1; 
@@ -1796,6 +1797,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr);    
     p=wg_atomstr1(db,ptr);        
+    if (!p && type==WG_URITYPE && wg_atomstr2(db,ptr)) p=""; // an empty distinct symbol
     if (!wg_str_guarantee_space(db,buf,len,pos+(p ? 2*strlen(p) : 0)+1000)) return -1; 
     switch (type) {    
       case WG_INTTYPE: pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p); break;
@@ -2144,6 +2146,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
   } else if (wg_isatom(db,ptr)) {
     type=wg_atomtype(db,ptr); 
     p=wg_atomstr1(db,ptr); 
+    if (!p && type==WG_URITYPE && wg_atomstr2(db,ptr)) p=""; // an empty distinct symbol
     //p2=wg_atomstr2(db,ptr);  
     if (!wg_str_guarantee_space(db,buf,len,pos+(p ? strlen(p) : 0)+1000)) return -1; 
     switch (type) {
-- 
2.43.0


From 635a04fd20dda7920d62a322d825d932997e842b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:56 +0000
Subject: [PATCH 24/80] fix: compare large integers with reals exactly

---
 Reasoner/build.c | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index 8bda4c8..b6ab995 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -133,6 +133,17 @@ static int wr_double_to_gint_checked(double value,gint* result) {
   return 1;
 }
 
+// exact comparison of an integer and a finite double: -1, 0 or 1
+
+static int wr_gint_double_compare(gint i, double d) {
+  gint di;
+
+  if (!wr_double_to_gint_checked(d,&di)) return d>0 ? -1 : 1;
+  if (i!=di) return i<di ? -1 : 1;
+  d=d-trunc(d);
+  return (d<0)-(d>0);
+}
+
 
 /* ====== Functions ============== */
 
@@ -1302,6 +1313,7 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
   gint a,b;
   gint atype, btype;
   double ad,bd;
+  int cmp;
 
   len=get_record_len(tptr);
   if (len<(g->unify_firstuseterm)+3) return encode_record(db,tptr);  
@@ -1330,12 +1342,18 @@ gint wr_compute_fun_lesseq_core(glb* g, gptr tptr, gint ifequal, int isless) {
     if (btype==WG_INTTYPE) bd=(double)(wg_decode_int(db,b));
     else bd=wg_decode_double(db,b);
     if (!isfinite(ad) || !isfinite(bd)) return encode_record(db,tptr);
-    if (ad==bd) return ifequal; // same value, different types
+    cmp=(ad>bd)-(ad<bd);
+    if (!cmp && atype!=btype) {
+      // the conversion of a large integer may have rounded it
+      if (atype==WG_INTTYPE) cmp=wr_gint_double_compare(wg_decode_int(db,a),bd);
+      else cmp=0-wr_gint_double_compare(wg_decode_int(db,b),ad);
+    }
+    if (!cmp) return ifequal; // same value, different types
     if (isless) {
-      if (ad < bd) return ACONST_TRUE;
+      if (cmp<0) return ACONST_TRUE;
       else return ACONST_FALSE; 
     } else {
-      if (ad > bd) return ACONST_TRUE;
+      if (cmp>0) return ACONST_TRUE;
       else return ACONST_FALSE; 
     }                  
   }  
-- 
2.43.0


From ebba01da63cfa05bb054b73e0369d70485a1a1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:51 +0000
Subject: [PATCH 25/80] fix: read negative numbers and the documented infix /
 in the text languages

---
 Builtparser/dbgenparse.h  |    1 +
 Builtparser/dbotter.tab.c | 1258 +++++++++++++++++++------------------
 Builtparser/dbotter.tab.h |   74 ++-
 Builtparser/dbotter.yy.c  |  432 +++++++------
 Builtparser/dbparse.c     |    1 +
 Parser/dbgenparse.h       |    1 +
 Parser/dbotter.l          |   35 +-
 Parser/dbotter.y          |    2 +
 Parser/dbparse.c          |    1 +
 9 files changed, 982 insertions(+), 823 deletions(-)

diff --git a/Builtparser/dbgenparse.h b/Builtparser/dbgenparse.h
index 7e5eeb4..7459796 100644
--- a/Builtparser/dbgenparse.h
+++ b/Builtparser/dbgenparse.h
@@ -133,6 +133,7 @@ typedef struct parse_parm_s {
   void* jsonld_graphid;  // an mpool atom for graph id creating $narc
 
   void* nests[PARSE_NESTING_DEPTH]; // stack for pure json parsing
+  int lasttoken; // last token of the otter lexer, 0 at start
   int nesterr; // set when the input nests deeper than PARSE_NESTING_DEPTH
 
 } parse_parm;
diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 6b0c382..21e1c30 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1,8 +1,8 @@
-/* A Bison parser, made by GNU Bison 3.5.1.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison implementation for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2020 Free Software Foundation,
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
    Inc.
 
    This program is free software: you can redistribute it and/or modify
@@ -16,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -34,6 +34,10 @@
 /* C LALR(1) parser skeleton written by Richard Stallman, by
    simplifying the original so-called "semantic" parser.  */
 
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
+
 /* All symbols defined below should begin with yy or YY, to avoid
    infringing on user name space.  This should be done even for local
    variables, as they might otherwise be expanded by user macros.
@@ -41,14 +45,11 @@
    define necessary library symbols; they are noted "INFRINGES ON
    USER NAME SPACE" below.  */
 
-/* Undocumented macros, especially those whose name start with YY_,
-   are private implementation details.  Do not rely on them.  */
-
-/* Identify Bison output.  */
-#define YYBISON 1
+/* Identify Bison output, and Bison version.  */
+#define YYBISON 30802
 
-/* Bison version.  */
-#define YYBISON_VERSION "3.5.1"
+/* Bison version string.  */
+#define YYBISON_VERSION "3.8.2"
 
 /* Skeleton name.  */
 #define YYSKELETON_NAME "yacc.c"
@@ -71,7 +72,7 @@
 #define yynerrs         wg_yyotternerrs
 
 /* First part of user prologue.  */
-#line 25 "Parser/dbotter.y"
+#line 25 "dbotter.y"
 
 
 #include <stdio.h>
@@ -81,7 +82,7 @@
 #define PP (parm)
 
 
-#line 85 "Parser/dbotter.tab.c"
+#line 86 "dbotter.tab.c"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -104,70 +105,69 @@
 #  endif
 # endif
 
-/* Enabling verbose error messages.  */
-#ifdef YYERROR_VERBOSE
-# undef YYERROR_VERBOSE
-# define YYERROR_VERBOSE 1
-#else
-# define YYERROR_VERBOSE 1
-#endif
-
-/* Use api.header.include to #include this header
-   instead of duplicating it here.  */
-#ifndef YY_WG_YYOTTER_PARSER_DBOTTER_TAB_H_INCLUDED
-# define YY_WG_YYOTTER_PARSER_DBOTTER_TAB_H_INCLUDED
-/* Debug traces.  */
-#ifndef YYDEBUG
-# define YYDEBUG 0
-#endif
-#if YYDEBUG
-extern int wg_yyotterdebug;
-#endif
-
-/* Token type.  */
-#ifndef YYTOKENTYPE
-# define YYTOKENTYPE
-  enum yytokentype
-  {
-    VARIABLE = 258,
-    FILEEND = 259,
-    TINT = 260,
-    TFLOAT = 261,
-    TDATE = 262,
-    TIME = 263,
-    STRING = 264,
-    ID = 265,
-    URI = 266,
-    CONSTURI = 267,
-    UNIQUEURI = 268,
-    TCONST = 269,
-    VAR = 270,
-    NEQ = 271,
-    EQ = 272,
-    IMP = 273,
-    AND = 274,
-    EQV = 275,
-    NEQV = 276,
-    RIMP = 277,
-    NOR = 278,
-    NAND = 279,
-    AT = 280,
-    EMPTYSTRING = 281
-  };
-#endif
-
-/* Value type.  */
-#if ! defined YYSTYPE && ! defined YYSTYPE_IS_DECLARED
-typedef int YYSTYPE;
-# define YYSTYPE_IS_TRIVIAL 1
-# define YYSTYPE_IS_DECLARED 1
-#endif
-
-
-
-int wg_yyotterparse (parse_parm *parm, void *scanner);
+#include "dbotter.tab.h"
+/* Symbol kind.  */
+enum yysymbol_kind_t
+{
+  YYSYMBOL_YYEMPTY = -2,
+  YYSYMBOL_YYEOF = 0,                      /* "end of file"  */
+  YYSYMBOL_YYerror = 1,                    /* error  */
+  YYSYMBOL_YYUNDEF = 2,                    /* "invalid token"  */
+  YYSYMBOL_VARIABLE = 3,                   /* VARIABLE  */
+  YYSYMBOL_FILEEND = 4,                    /* FILEEND  */
+  YYSYMBOL_TINT = 5,                       /* TINT  */
+  YYSYMBOL_TFLOAT = 6,                     /* TFLOAT  */
+  YYSYMBOL_TDATE = 7,                      /* TDATE  */
+  YYSYMBOL_TIME = 8,                       /* TIME  */
+  YYSYMBOL_STRING = 9,                     /* STRING  */
+  YYSYMBOL_ID = 10,                        /* ID  */
+  YYSYMBOL_URI = 11,                       /* URI  */
+  YYSYMBOL_CONSTURI = 12,                  /* CONSTURI  */
+  YYSYMBOL_UNIQUEURI = 13,                 /* UNIQUEURI  */
+  YYSYMBOL_TCONST = 14,                    /* TCONST  */
+  YYSYMBOL_VAR = 15,                       /* VAR  */
+  YYSYMBOL_NEQ = 16,                       /* NEQ  */
+  YYSYMBOL_EQ = 17,                        /* EQ  */
+  YYSYMBOL_IMP = 18,                       /* IMP  */
+  YYSYMBOL_AND = 19,                       /* AND  */
+  YYSYMBOL_EQV = 20,                       /* EQV  */
+  YYSYMBOL_NEQV = 21,                      /* NEQV  */
+  YYSYMBOL_RIMP = 22,                      /* RIMP  */
+  YYSYMBOL_NOR = 23,                       /* NOR  */
+  YYSYMBOL_NAND = 24,                      /* NAND  */
+  YYSYMBOL_AT = 25,                        /* AT  */
+  YYSYMBOL_EMPTYSTRING = 26,               /* EMPTYSTRING  */
+  YYSYMBOL_27_ = 27,                       /* '&'  */
+  YYSYMBOL_28_ = 28,                       /* '|'  */
+  YYSYMBOL_29_ = 29,                       /* '?'  */
+  YYSYMBOL_30_ = 30,                       /* '!'  */
+  YYSYMBOL_31_ = 31,                       /* '-'  */
+  YYSYMBOL_32_ = 32,                       /* '~'  */
+  YYSYMBOL_33_ = 33,                       /* '.'  */
+  YYSYMBOL_34_ = 34,                       /* '('  */
+  YYSYMBOL_35_ = 35,                       /* ')'  */
+  YYSYMBOL_36_ = 36,                       /* '+'  */
+  YYSYMBOL_37_ = 37,                       /* '*'  */
+  YYSYMBOL_38_ = 38,                       /* '/'  */
+  YYSYMBOL_39_ = 39,                       /* '['  */
+  YYSYMBOL_40_ = 40,                       /* ']'  */
+  YYSYMBOL_41_ = 41,                       /* ','  */
+  YYSYMBOL_42_ = 42,                       /* ':'  */
+  YYSYMBOL_YYACCEPT = 43,                  /* $accept  */
+  YYSYMBOL_input = 44,                     /* input  */
+  YYSYMBOL_sentence = 45,                  /* sentence  */
+  YYSYMBOL_sentencelist = 46,              /* sentencelist  */
+  YYSYMBOL_assertion = 47,                 /* assertion  */
+  YYSYMBOL_primsentence = 48,              /* primsentence  */
+  YYSYMBOL_term = 49,                      /* term  */
+  YYSYMBOL_termlist = 50,                  /* termlist  */
+  YYSYMBOL_log = 51,                       /* log  */
+  YYSYMBOL_connlog = 52,                   /* connlog  */
+  YYSYMBOL_loglist = 53,                   /* loglist  */
+  YYSYMBOL_prim = 54                       /* prim  */
+};
+typedef enum yysymbol_kind_t yysymbol_kind_t;
 
-#endif /* !YY_WG_YYOTTER_PARSER_DBOTTER_TAB_H_INCLUDED  */
 
 
 
@@ -208,6 +208,18 @@ typedef int_least16_t yytype_int16;
 typedef short yytype_int16;
 #endif
 
+/* Work around bug in HP-UX 11.23, which defines these macros
+   incorrectly for preprocessor constants.  This workaround can likely
+   be removed in 2023, as HPE has promised support for HP-UX 11.23
+   (aka HP-UX 11i v2) only through the end of 2022; see Table 2 of
+   <https://h20195.www2.hpe.com/V2/getpdf.aspx/4AA4-7673ENW.pdf>.  */
+#ifdef __hpux
+# undef UINT_LEAST8_MAX
+# undef UINT_LEAST16_MAX
+# define UINT_LEAST8_MAX 255
+# define UINT_LEAST16_MAX 65535
+#endif
+
 #if defined __UINT_LEAST8_MAX__ && __UINT_LEAST8_MAX__ <= __INT_MAX__
 typedef __UINT_LEAST8_TYPE__ yytype_uint8;
 #elif (!defined __UINT_LEAST8_MAX__ && defined YY_STDINT_H \
@@ -267,6 +279,7 @@ typedef int yytype_uint16;
 
 #define YYSIZEOF(X) YY_CAST (YYPTRDIFF_T, sizeof (X))
 
+
 /* Stored state numbers (used for stacks). */
 typedef yytype_int8 yy_state_t;
 
@@ -285,6 +298,7 @@ typedef int yy_state_fast_t;
 # endif
 #endif
 
+
 #ifndef YY_ATTRIBUTE_PURE
 # if defined __GNUC__ && 2 < __GNUC__ + (96 <= __GNUC_MINOR__)
 #  define YY_ATTRIBUTE_PURE __attribute__ ((__pure__))
@@ -303,17 +317,23 @@ typedef int yy_state_fast_t;
 
 /* Suppress unused-variable warnings by "using" E.  */
 #if ! defined lint || defined __GNUC__
-# define YYUSE(E) ((void) (E))
+# define YY_USE(E) ((void) (E))
 #else
-# define YYUSE(E) /* empty */
+# define YY_USE(E) /* empty */
 #endif
 
-#if defined __GNUC__ && ! defined __ICC && 407 <= __GNUC__ * 100 + __GNUC_MINOR__
 /* Suppress an incorrect diagnostic about yylval being uninitialized.  */
-# define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                            \
+#if defined __GNUC__ && ! defined __ICC && 406 <= __GNUC__ * 100 + __GNUC_MINOR__
+# if __GNUC__ * 100 + __GNUC_MINOR__ < 407
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
+    _Pragma ("GCC diagnostic push")                                     \
+    _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")
+# else
+#  define YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN                           \
     _Pragma ("GCC diagnostic push")                                     \
     _Pragma ("GCC diagnostic ignored \"-Wuninitialized\"")              \
     _Pragma ("GCC diagnostic ignored \"-Wmaybe-uninitialized\"")
+# endif
 # define YY_IGNORE_MAYBE_UNINITIALIZED_END      \
     _Pragma ("GCC diagnostic pop")
 #else
@@ -342,7 +362,7 @@ typedef int yy_state_fast_t;
 
 #define YY_ASSERT(E) ((void) (0 && (E)))
 
-#if ! defined yyoverflow || YYERROR_VERBOSE
+#if 1
 
 /* The parser invokes alloca or malloc; define the necessary symbols.  */
 
@@ -407,8 +427,7 @@ void free (void *); /* INFRINGES ON USER NAME SPACE */
 #   endif
 #  endif
 # endif
-#endif /* ! defined yyoverflow || YYERROR_VERBOSE */
-
+#endif /* 1 */
 
 #if (! defined yyoverflow \
      && (! defined __cplusplus \
@@ -471,27 +490,29 @@ union yyalloc
 #endif /* !YYCOPY_NEEDED */
 
 /* YYFINAL -- State number of the termination state.  */
-#define YYFINAL  46
+#define YYFINAL  47
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   290
+#define YYLAST   307
 
 /* YYNTOKENS -- Number of terminals.  */
-#define YYNTOKENS  42
+#define YYNTOKENS  43
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  12
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  57
+#define YYNRULES  59
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  101
+#define YYNSTATES  104
 
-#define YYUNDEFTOK  2
+/* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   281
 
 
 /* YYTRANSLATE(TOKEN-NUM) -- Symbol number corresponding to TOKEN-NUM
    as returned by yylex, with out-of-bounds checking.  */
-#define YYTRANSLATE(YYX)                                                \
-  (0 <= (YYX) && (YYX) <= YYMAXUTOK ? yytranslate[YYX] : YYUNDEFTOK)
+#define YYTRANSLATE(YYX)                                \
+  (0 <= (YYX) && (YYX) <= YYMAXUTOK                     \
+   ? YY_CAST (yysymbol_kind_t, yytranslate[YYX])        \
+   : YYSYMBOL_YYUNDEF)
 
 /* YYTRANSLATE[TOKEN-NUM] -- Symbol number corresponding to TOKEN-NUM
    as returned by yylex.  */
@@ -501,12 +522,12 @@ static const yytype_int8 yytranslate[] =
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,    30,     2,     2,     2,     2,    27,     2,
-      34,    35,    37,    36,    40,    31,    33,     2,     2,     2,
-       2,     2,     2,     2,     2,     2,     2,     2,    41,     2,
+      34,    35,    37,    36,    41,    31,    33,    38,     2,     2,
+       2,     2,     2,     2,     2,     2,     2,     2,    42,     2,
        2,     2,     2,    29,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
-       2,    38,     2,    39,     2,     2,     2,     2,     2,     2,
+       2,    39,     2,    40,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,     2,     2,     2,     2,     2,     2,
        2,     2,     2,     2,    28,     2,    32,     2,     2,     2,
@@ -529,224 +550,228 @@ static const yytype_int8 yytranslate[] =
 };
 
 #if YYDEBUG
-  /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
+/* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
        0,    90,    90,    91,    96,    99,   100,   104,   108,   109,
      114,   115,   116,   117,   118,   119,   126,   133,   134,   135,
-     136,   137,   138,   139,   140,   141,   142,   145,   146,   149,
-     154,   155,   166,   184,   196,   214,   225,   236,   247,   258,
-     276,   287,   297,   298,   304,   305,   310,   311,   312,   313,
-     314,   315,   316,   317,   318,   319,   320,   321
+     136,   137,   138,   139,   140,   141,   142,   143,   146,   147,
+     150,   155,   156,   167,   185,   197,   215,   226,   237,   248,
+     259,   277,   288,   298,   299,   305,   306,   311,   312,   313,
+     314,   315,   316,   317,   318,   319,   320,   321,   322,   323
 };
 #endif
 
-#if YYDEBUG || YYERROR_VERBOSE || 1
+/** Accessing symbol of state STATE.  */
+#define YY_ACCESSING_SYMBOL(State) YY_CAST (yysymbol_kind_t, yystos[State])
+
+#if 1
+/* The user-facing name of the symbol whose (internal) number is
+   YYSYMBOL.  No bounds checking.  */
+static const char *yysymbol_name (yysymbol_kind_t yysymbol) YY_ATTRIBUTE_UNUSED;
+
 /* YYTNAME[SYMBOL-NUM] -- String name of the symbol SYMBOL-NUM.
    First, the terminals, then, starting at YYNTOKENS, nonterminals.  */
 static const char *const yytname[] =
 {
-  "$end", "error", "$undefined", "VARIABLE", "FILEEND", "TINT", "TFLOAT",
-  "TDATE", "TIME", "STRING", "ID", "URI", "CONSTURI", "UNIQUEURI",
-  "TCONST", "VAR", "NEQ", "EQ", "IMP", "AND", "EQV", "NEQV", "RIMP", "NOR",
-  "NAND", "AT", "EMPTYSTRING", "'&'", "'|'", "'?'", "'!'", "'-'", "'~'",
-  "'.'", "'('", "')'", "'+'", "'*'", "'['", "']'", "','", "':'", "$accept",
-  "input", "sentence", "sentencelist", "assertion", "primsentence", "term",
-  "termlist", "log", "connlog", "loglist", "prim", YY_NULLPTR
+  "\"end of file\"", "error", "\"invalid token\"", "VARIABLE", "FILEEND",
+  "TINT", "TFLOAT", "TDATE", "TIME", "STRING", "ID", "URI", "CONSTURI",
+  "UNIQUEURI", "TCONST", "VAR", "NEQ", "EQ", "IMP", "AND", "EQV", "NEQV",
+  "RIMP", "NOR", "NAND", "AT", "EMPTYSTRING", "'&'", "'|'", "'?'", "'!'",
+  "'-'", "'~'", "'.'", "'('", "')'", "'+'", "'*'", "'/'", "'['", "']'",
+  "','", "':'", "$accept", "input", "sentence", "sentencelist",
+  "assertion", "primsentence", "term", "termlist", "log", "connlog",
+  "loglist", "prim", YY_NULLPTR
 };
-#endif
 
-# ifdef YYPRINT
-/* YYTOKNUM[NUM] -- (External) token number corresponding to the
-   (internal) symbol number NUM (which must be that of a token).  */
-static const yytype_int16 yytoknum[] =
+static const char *
+yysymbol_name (yysymbol_kind_t yysymbol)
 {
-       0,   256,   257,   258,   259,   260,   261,   262,   263,   264,
-     265,   266,   267,   268,   269,   270,   271,   272,   273,   274,
-     275,   276,   277,   278,   279,   280,   281,    38,   124,    63,
-      33,    45,   126,    46,    40,    41,    43,    42,    91,    93,
-      44,    58
-};
-# endif
+  return yytname[yysymbol];
+}
+#endif
 
-#define YYPACT_NINF (-33)
+#define YYPACT_NINF (-31)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
 
-#define YYTABLE_NINF (-28)
+#define YYTABLE_NINF (-29)
 
 #define yytable_value_is_error(Yyn) \
   0
 
-  /* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
-     STATE-NUM.  */
+/* YYPACT[STATE-NUM] -- Index in YYTABLE of the portion describing
+   STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-      94,   -33,   -33,   -33,   -33,   -33,   -33,   -33,   -33,   -33,
-     -33,   -33,   -32,   -23,   -33,   -26,   -25,   232,   232,   232,
-     163,    15,   -33,   129,   -33,   -19,    -7,   251,   -33,   -33,
-       2,   232,   232,   232,   232,     4,   -33,     4,   -33,    -9,
-     251,   -10,   -33,    53,    -2,   262,   -33,   -33,   -33,   232,
-     232,   232,   232,   232,   232,   232,   232,   232,   232,   232,
-     232,   232,   232,   198,     3,     7,    10,    11,   232,   -33,
-     -33,   232,   -33,    -7,    -7,     4,    -7,    -7,   -33,   -33,
-     -33,   -33,   -33,   -33,   -33,   -33,   -33,   -33,   -33,    16,
-     -33,   -33,    12,    30,   -33,   -33,   -33,   232,   232,   -33,
-     -33
+     102,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,
+     -31,   -31,   -26,   -25,   -31,   -29,   -28,   243,   243,   243,
+     -31,   172,    14,   -31,   137,   -31,   -17,   247,   268,   -31,
+     -31,   -19,   243,   243,   243,   243,    -4,   -31,    -4,   -31,
+      58,   268,   -15,   -31,   -10,   -11,   279,   -31,   -31,   -31,
+     243,   243,   243,   243,   243,   243,   243,   243,   243,   243,
+     243,   243,   243,   243,   243,   208,   -13,   -12,    -3,    -2,
+     243,   -31,   -31,   243,   -31,   247,   247,    -4,   247,   247,
+     247,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,
+     -31,   -31,     1,   -31,   -31,    -1,     2,   -31,   -31,   -31,
+     243,   243,   -31,   -31
 };
 
-  /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
-     Performed when YYTABLE does not specify something else to do.  Zero
-     means the default is an error.  */
+/* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
+   Performed when YYTABLE does not specify something else to do.  Zero
+   means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-      30,    46,    47,    48,    49,    50,    55,    52,    53,    54,
-      56,    51,     0,     0,    57,     0,     0,    30,    30,    30,
-      30,     0,     5,    30,     4,     0,    29,     8,    26,     9,
-      10,    30,    30,    30,    30,    21,    42,    22,    43,    29,
-      44,     0,    25,    29,     0,     0,     1,     6,     7,    30,
-      30,    30,    30,    30,    30,    30,    30,    30,    30,    30,
-      30,    30,    30,    30,     0,     0,     0,     0,    30,    13,
-      23,    30,    24,    16,    17,    19,    18,    20,    35,    38,
-      39,    36,    34,    32,    37,    31,    33,    45,    11,     0,
-      15,    14,     0,     0,    33,    28,    12,    30,    30,    40,
-      41
+      31,    47,    48,    49,    50,    51,    56,    53,    54,    55,
+      57,    52,     0,     0,    59,     0,     0,    31,    31,    31,
+      58,    31,     0,     5,    31,     4,     0,    30,     8,    27,
+       9,    10,    31,    31,    31,    31,    22,    43,    23,    44,
+      30,    45,     0,    26,    30,     0,     0,     1,     6,     7,
+      31,    31,    31,    31,    31,    31,    31,    31,    31,    31,
+      31,    31,    31,    31,    31,    31,     0,     0,     0,     0,
+      31,    13,    24,    31,    25,    16,    17,    19,    18,    20,
+      21,    36,    39,    40,    37,    35,    33,    38,    32,    34,
+      46,    11,     0,    15,    14,     0,     0,    34,    29,    12,
+      31,    31,    41,    42
 };
 
-  /* YYPGOTO[NTERM-NUM].  */
+/* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
-     -33,   -33,    29,   -33,   -33,   -33,    14,   -28,     0,   -33,
-     -18,   -33
+     -31,   -31,    15,   -31,   -31,   -31,    33,   -30,     0,   -31,
+     -18,   -31
 };
 
-  /* YYDEFGOTO[NTERM-NUM].  */
+/* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
-      -1,    21,    22,    23,    24,    25,    26,    44,    45,    28,
-      29,    30
+       0,    22,    23,    24,    25,    26,    27,    45,    46,    29,
+      30,    31
 };
 
-  /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
-     positive, shift that token.  If negative, reduce the rule whose
-     number is the opposite.  If YYTABLE_NINF, syntax error.  */
+/* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
+   positive, shift that token.  If negative, reduce the rule whose
+   number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
-      27,    41,    31,    64,    65,    66,    67,    49,    50,    49,
-      50,    32,    33,    34,    48,    46,     0,    36,    38,    40,
-      49,    50,    51,    27,    51,    70,    69,    52,    53,    52,
-      53,    35,    37,    39,    43,    89,    63,    72,    90,     0,
-      52,    53,    91,    95,    87,    43,    43,    43,    43,    92,
-      93,    96,    47,    97,    78,    79,    80,    81,    82,    83,
-      84,    85,    86,    73,    74,    75,    76,    77,    94,    49,
-      50,    98,     0,     0,     0,     0,     0,    43,     0,     0,
-       0,     0,     0,     0,    51,    43,     0,     0,   -27,    52,
-      53,     0,   -27,    71,    -2,     0,     0,    99,   100,     1,
-       2,     3,     4,     5,     6,     7,     8,     9,    10,    11,
-      12,    13,     0,     0,     0,     0,     0,     0,     0,     0,
-      14,     0,     0,    15,    16,    17,    18,     0,    19,    -3,
-       0,     0,    20,     0,     1,     2,     3,     4,     5,     6,
-       7,     8,     9,    10,    11,    12,    13,     0,     0,     0,
-       0,     0,     0,     0,     0,    14,     0,     0,    15,    16,
-      17,    18,     0,    19,     0,     0,     0,    20,     1,     2,
-       3,     4,     5,     6,     7,     8,     9,    10,    11,    12,
-      13,     0,     0,     0,     0,     0,     0,     0,     0,    14,
-       0,     0,    15,    16,    17,    18,     0,    19,     0,     0,
-       0,    20,    42,     1,     2,     3,     4,     5,     6,     7,
-       8,     9,    10,    11,    12,    13,     0,     0,     0,     0,
-       0,     0,     0,     0,    14,     0,     0,    15,    16,    17,
-      18,     0,    19,    88,     0,     0,    20,     1,     2,     3,
+      28,    42,    66,    67,    68,    69,    50,    51,    32,    33,
+      34,    35,    50,    51,    47,    65,    49,    37,    39,    41,
+      72,    52,    93,    94,    28,   -28,    53,    54,    55,    74,
+     -28,    73,    53,    54,    55,    92,    99,    95,    96,    48,
+       0,   100,     0,    98,   101,     0,    90,     0,     0,     0,
+      36,    38,    40,     0,    44,     0,    81,    82,    83,    84,
+      85,    86,    87,    88,    89,    44,    44,    44,    44,     0,
+      97,     0,     0,     0,    50,    51,     0,     0,     0,     0,
+       0,     0,     0,    75,    76,    77,    78,    79,    80,    52,
+       0,     0,     0,    71,    53,    54,    55,     0,    44,     0,
+     102,   103,    -2,     0,     0,     0,    44,     1,     2,     3,
+       4,     5,     6,     7,     8,     9,    10,    11,    12,    13,
+       0,     0,     0,     0,     0,     0,     0,     0,    14,     0,
+       0,    15,    16,    17,    18,     0,    19,    -3,     0,     0,
+      20,    21,     1,     2,     3,     4,     5,     6,     7,     8,
+       9,    10,    11,    12,    13,     0,     0,     0,     0,     0,
+       0,     0,     0,    14,     0,     0,    15,    16,    17,    18,
+       0,    19,     0,     0,     0,    20,    21,     1,     2,     3,
        4,     5,     6,     7,     8,     9,    10,    11,    12,    13,
        0,     0,     0,     0,     0,     0,     0,     0,    14,     0,
-       0,    15,    16,    17,    18,     0,    19,     0,     0,    54,
-      20,    55,    56,    57,    58,    59,    60,     0,    61,    62,
-      54,     0,    55,    56,    57,    58,    59,    60,     0,    61,
-      68
+       0,    15,    16,    17,    18,     0,    19,     0,     0,     0,
+      20,    21,    43,     1,     2,     3,     4,     5,     6,     7,
+       8,     9,    10,    11,    12,    13,     0,     0,     0,     0,
+       0,     0,     0,     0,    14,     0,     0,    15,    16,    17,
+      18,     0,    19,    91,     0,     0,    20,    21,     1,     2,
+       3,     4,     5,     6,     7,     8,     9,    10,    11,    12,
+      13,     0,     0,    50,    51,     0,     0,     0,     0,    14,
+       0,     0,    15,    16,    17,    18,     0,    19,    52,     0,
+       0,    20,    21,    53,    54,    55,    56,     0,    57,    58,
+      59,    60,    61,    62,     0,    63,    64,    56,     0,    57,
+      58,    59,    60,    61,    62,     0,    63,    70
 };
 
 static const yytype_int8 yycheck[] =
 {
-       0,    19,    34,    31,    32,    33,    34,    16,    17,    16,
-      17,    34,    38,    38,    33,     0,    -1,    17,    18,    19,
-      16,    17,    31,    23,    31,    35,    35,    36,    37,    36,
-      37,    17,    18,    19,    20,    63,    34,    39,    35,    -1,
-      36,    37,    35,    71,    62,    31,    32,    33,    34,    39,
-      39,    35,    23,    41,    54,    55,    56,    57,    58,    59,
-      60,    61,    62,    49,    50,    51,    52,    53,    68,    16,
-      17,    41,    -1,    -1,    -1,    -1,    -1,    63,    -1,    -1,
-      -1,    -1,    -1,    -1,    31,    71,    -1,    -1,    35,    36,
-      37,    -1,    39,    40,     0,    -1,    -1,    97,    98,     5,
-       6,     7,     8,     9,    10,    11,    12,    13,    14,    15,
-      16,    17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,
-      26,    -1,    -1,    29,    30,    31,    32,    -1,    34,     0,
-      -1,    -1,    38,    -1,     5,     6,     7,     8,     9,    10,
-      11,    12,    13,    14,    15,    16,    17,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    -1,    26,    -1,    -1,    29,    30,
-      31,    32,    -1,    34,    -1,    -1,    -1,    38,     5,     6,
-       7,     8,     9,    10,    11,    12,    13,    14,    15,    16,
-      17,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,
-      -1,    -1,    29,    30,    31,    32,    -1,    34,    -1,    -1,
-      -1,    38,    39,     5,     6,     7,     8,     9,    10,    11,
-      12,    13,    14,    15,    16,    17,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    -1,    26,    -1,    -1,    29,    30,    31,
-      32,    -1,    34,    35,    -1,    -1,    38,     5,     6,     7,
+       0,    19,    32,    33,    34,    35,    16,    17,    34,    34,
+      39,    39,    16,    17,     0,    34,    33,    17,    18,    19,
+      35,    31,    35,    35,    24,    35,    36,    37,    38,    40,
+      40,    41,    36,    37,    38,    65,    35,    40,    40,    24,
+      -1,    42,    -1,    73,    42,    -1,    64,    -1,    -1,    -1,
+      17,    18,    19,    -1,    21,    -1,    56,    57,    58,    59,
+      60,    61,    62,    63,    64,    32,    33,    34,    35,    -1,
+      70,    -1,    -1,    -1,    16,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    50,    51,    52,    53,    54,    55,    31,
+      -1,    -1,    -1,    35,    36,    37,    38,    -1,    65,    -1,
+     100,   101,     0,    -1,    -1,    -1,    73,     5,     6,     7,
        8,     9,    10,    11,    12,    13,    14,    15,    16,    17,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
-      -1,    29,    30,    31,    32,    -1,    34,    -1,    -1,    18,
-      38,    20,    21,    22,    23,    24,    25,    -1,    27,    28,
-      18,    -1,    20,    21,    22,    23,    24,    25,    -1,    27,
-      28
+      -1,    29,    30,    31,    32,    -1,    34,     0,    -1,    -1,
+      38,    39,     5,     6,     7,     8,     9,    10,    11,    12,
+      13,    14,    15,    16,    17,    -1,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    26,    -1,    -1,    29,    30,    31,    32,
+      -1,    34,    -1,    -1,    -1,    38,    39,     5,     6,     7,
+       8,     9,    10,    11,    12,    13,    14,    15,    16,    17,
+      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
+      -1,    29,    30,    31,    32,    -1,    34,    -1,    -1,    -1,
+      38,    39,    40,     5,     6,     7,     8,     9,    10,    11,
+      12,    13,    14,    15,    16,    17,    -1,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    26,    -1,    -1,    29,    30,    31,
+      32,    -1,    34,    35,    -1,    -1,    38,    39,     5,     6,
+       7,     8,     9,    10,    11,    12,    13,    14,    15,    16,
+      17,    -1,    -1,    16,    17,    -1,    -1,    -1,    -1,    26,
+      -1,    -1,    29,    30,    31,    32,    -1,    34,    31,    -1,
+      -1,    38,    39,    36,    37,    38,    18,    -1,    20,    21,
+      22,    23,    24,    25,    -1,    27,    28,    18,    -1,    20,
+      21,    22,    23,    24,    25,    -1,    27,    28
 };
 
-  /* YYSTOS[STATE-NUM] -- The (internal number of the) accessing
-     symbol of state STATE-NUM.  */
+/* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
+   state STATE-NUM.  */
 static const yytype_int8 yystos[] =
 {
        0,     5,     6,     7,     8,     9,    10,    11,    12,    13,
       14,    15,    16,    17,    26,    29,    30,    31,    32,    34,
-      38,    43,    44,    45,    46,    47,    48,    50,    51,    52,
-      53,    34,    34,    38,    38,    48,    50,    48,    50,    48,
-      50,    52,    39,    48,    49,    50,     0,    44,    33,    16,
-      17,    31,    36,    37,    18,    20,    21,    22,    23,    24,
-      25,    27,    28,    34,    49,    49,    49,    49,    28,    35,
-      35,    40,    39,    48,    48,    48,    48,    48,    50,    50,
-      50,    50,    50,    50,    50,    50,    50,    52,    35,    49,
-      35,    35,    39,    39,    50,    49,    35,    41,    41,    50,
-      50
+      38,    39,    44,    45,    46,    47,    48,    49,    51,    52,
+      53,    54,    34,    34,    39,    39,    49,    51,    49,    51,
+      49,    51,    53,    40,    49,    50,    51,     0,    45,    33,
+      16,    17,    31,    36,    37,    38,    18,    20,    21,    22,
+      23,    24,    25,    27,    28,    34,    50,    50,    50,    50,
+      28,    35,    35,    41,    40,    49,    49,    49,    49,    49,
+      49,    51,    51,    51,    51,    51,    51,    51,    51,    51,
+      53,    35,    50,    35,    35,    40,    40,    51,    50,    35,
+      42,    42,    51,    51
 };
 
-  /* YYR1[YYN] -- Symbol number of symbol that rule YYN derives.  */
+/* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
-       0,    42,    43,    43,    44,    45,    45,    46,    47,    47,
-      48,    48,    48,    48,    48,    48,    48,    48,    48,    48,
-      48,    48,    48,    48,    48,    48,    48,    49,    49,    50,
-      51,    51,    51,    51,    51,    51,    51,    51,    51,    51,
-      51,    51,    51,    51,    52,    52,    53,    53,    53,    53,
-      53,    53,    53,    53,    53,    53,    53,    53
+       0,    43,    44,    44,    45,    46,    46,    47,    48,    48,
+      49,    49,    49,    49,    49,    49,    49,    49,    49,    49,
+      49,    49,    49,    49,    49,    49,    49,    49,    50,    50,
+      51,    52,    52,    52,    52,    52,    52,    52,    52,    52,
+      52,    52,    52,    52,    52,    53,    53,    54,    54,    54,
+      54,    54,    54,    54,    54,    54,    54,    54,    54,    54
 };
 
-  /* YYR2[YYN] -- Number of symbols on the right hand side of rule YYN.  */
+/* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
        0,     2,     0,     1,     1,     1,     2,     2,     1,     1,
        1,     3,     4,     3,     4,     4,     3,     3,     3,     3,
-       3,     2,     2,     3,     3,     2,     1,     1,     3,     1,
-       0,     3,     3,     3,     3,     3,     3,     3,     3,     3,
-       6,     6,     2,     2,     1,     3,     1,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1
+       3,     3,     2,     2,     3,     3,     2,     1,     1,     3,
+       1,     0,     3,     3,     3,     3,     3,     3,     3,     3,
+       3,     6,     6,     2,     2,     1,     3,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     1,     1
 };
 
 
+enum { YYENOMEM = -2 };
+
 #define yyerrok         (yyerrstatus = 0)
 #define yyclearin       (yychar = YYEMPTY)
-#define YYEMPTY         (-2)
-#define YYEOF           0
 
 #define YYACCEPT        goto yyacceptlab
 #define YYABORT         goto yyabortlab
 #define YYERROR         goto yyerrorlab
+#define YYNOMEM         goto yyexhaustedlab
 
 
 #define YYRECOVERING()  (!!yyerrstatus)
@@ -768,10 +793,9 @@ static const yytype_int8 yyr2[] =
       }                                                           \
   while (0)
 
-/* Error token number */
-#define YYTERROR        1
-#define YYERRCODE       256
-
+/* Backward compatibility with an undocumented macro.
+   Use YYerror or YYUNDEF. */
+#define YYERRCODE YYUNDEF
 
 
 /* Enable debugging if requested.  */
@@ -788,19 +812,16 @@ do {                                            \
     YYFPRINTF Args;                             \
 } while (0)
 
-/* This macro is provided for backward compatibility. */
-#ifndef YY_LOCATION_PRINT
-# define YY_LOCATION_PRINT(File, Loc) ((void) 0)
-#endif
 
 
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)                    \
+
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)                    \
 do {                                                                      \
   if (yydebug)                                                            \
     {                                                                     \
       YYFPRINTF (stderr, "%s ", Title);                                   \
       yy_symbol_print (stderr,                                            \
-                  Type, Value, parm, scanner); \
+                  Kind, Value, parm, scanner); \
       YYFPRINTF (stderr, "\n");                                           \
     }                                                                     \
 } while (0)
@@ -811,20 +832,17 @@ do {                                                                      \
 `-----------------------------------*/
 
 static void
-yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, parse_parm *parm, void *scanner)
+yy_symbol_value_print (FILE *yyo,
+                       yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, parse_parm *parm, void *scanner)
 {
   FILE *yyoutput = yyo;
-  YYUSE (yyoutput);
-  YYUSE (parm);
-  YYUSE (scanner);
+  YY_USE (yyoutput);
+  YY_USE (parm);
+  YY_USE (scanner);
   if (!yyvaluep)
     return;
-# ifdef YYPRINT
-  if (yytype < YYNTOKENS)
-    YYPRINT (yyo, yytoknum[yytype], *yyvaluep);
-# endif
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  YY_USE (yykind);
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -834,12 +852,13 @@ yy_symbol_value_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, pa
 `---------------------------*/
 
 static void
-yy_symbol_print (FILE *yyo, int yytype, YYSTYPE const * const yyvaluep, parse_parm *parm, void *scanner)
+yy_symbol_print (FILE *yyo,
+                 yysymbol_kind_t yykind, YYSTYPE const * const yyvaluep, parse_parm *parm, void *scanner)
 {
   YYFPRINTF (yyo, "%s %s (",
-             yytype < YYNTOKENS ? "token" : "nterm", yytname[yytype]);
+             yykind < YYNTOKENS ? "token" : "nterm", yysymbol_name (yykind));
 
-  yy_symbol_value_print (yyo, yytype, yyvaluep, parm, scanner);
+  yy_symbol_value_print (yyo, yykind, yyvaluep, parm, scanner);
   YYFPRINTF (yyo, ")");
 }
 
@@ -872,7 +891,8 @@ do {                                                            \
 `------------------------------------------------*/
 
 static void
-yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, parse_parm *parm, void *scanner)
+yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp,
+                 int yyrule, parse_parm *parm, void *scanner)
 {
   int yylno = yyrline[yyrule];
   int yynrhs = yyr2[yyrule];
@@ -884,9 +904,8 @@ yy_reduce_print (yy_state_t *yyssp, YYSTYPE *yyvsp, int yyrule, parse_parm *parm
     {
       YYFPRINTF (stderr, "   $%d = ", yyi + 1);
       yy_symbol_print (stderr,
-                       yystos[+yyssp[yyi + 1 - yynrhs]],
-                       &yyvsp[(yyi + 1) - (yynrhs)]
-                                              , parm, scanner);
+                       YY_ACCESSING_SYMBOL (+yyssp[yyi + 1 - yynrhs]),
+                       &yyvsp[(yyi + 1) - (yynrhs)], parm, scanner);
       YYFPRINTF (stderr, "\n");
     }
 }
@@ -901,8 +920,8 @@ do {                                    \
    multiple parsers can coexist.  */
 int yydebug;
 #else /* !YYDEBUG */
-# define YYDPRINTF(Args)
-# define YY_SYMBOL_PRINT(Title, Type, Value, Location)
+# define YYDPRINTF(Args) ((void) 0)
+# define YY_SYMBOL_PRINT(Title, Kind, Value, Location)
 # define YY_STACK_PRINT(Bottom, Top)
 # define YY_REDUCE_PRINT(Rule)
 #endif /* !YYDEBUG */
@@ -925,12 +944,60 @@ int yydebug;
 #endif
 
 
-#if YYERROR_VERBOSE
+/* Context of a parse error.  */
+typedef struct
+{
+  yy_state_t *yyssp;
+  yysymbol_kind_t yytoken;
+} yypcontext_t;
+
+/* Put in YYARG at most YYARGN of the expected tokens given the
+   current YYCTX, and return the number of tokens stored in YYARG.  If
+   YYARG is null, return the number of expected tokens (guaranteed to
+   be less than YYNTOKENS).  Return YYENOMEM on memory exhaustion.
+   Return 0 if there are more than YYARGN expected tokens, yet fill
+   YYARG up to YYARGN. */
+static int
+yypcontext_expected_tokens (const yypcontext_t *yyctx,
+                            yysymbol_kind_t yyarg[], int yyargn)
+{
+  /* Actual size of YYARG. */
+  int yycount = 0;
+  int yyn = yypact[+*yyctx->yyssp];
+  if (!yypact_value_is_default (yyn))
+    {
+      /* Start YYX at -YYN if negative to avoid negative indexes in
+         YYCHECK.  In other words, skip the first -YYN actions for
+         this state because they are default actions.  */
+      int yyxbegin = yyn < 0 ? -yyn : 0;
+      /* Stay within bounds of both yycheck and yytname.  */
+      int yychecklim = YYLAST - yyn + 1;
+      int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
+      int yyx;
+      for (yyx = yyxbegin; yyx < yyxend; ++yyx)
+        if (yycheck[yyx + yyn] == yyx && yyx != YYSYMBOL_YYerror
+            && !yytable_value_is_error (yytable[yyx + yyn]))
+          {
+            if (!yyarg)
+              ++yycount;
+            else if (yycount == yyargn)
+              return 0;
+            else
+              yyarg[yycount++] = YY_CAST (yysymbol_kind_t, yyx);
+          }
+    }
+  if (yyarg && yycount == 0 && 0 < yyargn)
+    yyarg[0] = YYSYMBOL_YYEMPTY;
+  return yycount;
+}
+
+
 
-# ifndef yystrlen
-#  if defined __GLIBC__ && defined _STRING_H
-#   define yystrlen(S) (YY_CAST (YYPTRDIFF_T, strlen (S)))
-#  else
+
+#ifndef yystrlen
+# if defined __GLIBC__ && defined _STRING_H
+#  define yystrlen(S) (YY_CAST (YYPTRDIFF_T, strlen (S)))
+# else
 /* Return the length of YYSTR.  */
 static YYPTRDIFF_T
 yystrlen (const char *yystr)
@@ -940,13 +1007,13 @@ yystrlen (const char *yystr)
     continue;
   return yylen;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yystpcpy
-#  if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
-#   define yystpcpy stpcpy
-#  else
+#ifndef yystpcpy
+# if defined __GLIBC__ && defined _STRING_H && defined _GNU_SOURCE
+#  define yystpcpy stpcpy
+# else
 /* Copy YYSRC to YYDEST, returning the address of the terminating '\0' in
    YYDEST.  */
 static char *
@@ -960,10 +1027,10 @@ yystpcpy (char *yydest, const char *yysrc)
 
   return yyd - 1;
 }
-#  endif
 # endif
+#endif
 
-# ifndef yytnamerr
+#ifndef yytnamerr
 /* Copy to YYRES the contents of YYSTR after stripping away unnecessary
    quotes and backslashes, so that it's suitable for yyerror.  The
    heuristic is that double-quoting is unnecessary unless the string
@@ -978,7 +1045,6 @@ yytnamerr (char *yyres, const char *yystr)
     {
       YYPTRDIFF_T yyn = 0;
       char const *yyp = yystr;
-
       for (;;)
         switch (*++yyp)
           {
@@ -1012,31 +1078,15 @@ yytnamerr (char *yyres, const char *yystr)
   else
     return yystrlen (yystr);
 }
-# endif
+#endif
 
-/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
-   about the unexpected token YYTOKEN for the state stack whose top is
-   YYSSP.
 
-   Return 0 if *YYMSG was successfully written.  Return 1 if *YYMSG is
-   not large enough to hold the message.  In that case, also set
-   *YYMSG_ALLOC to the required number of bytes.  Return 2 if the
-   required number of bytes is too large to store.  */
 static int
-yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
-                yy_state_t *yyssp, int yytoken)
+yy_syntax_error_arguments (const yypcontext_t *yyctx,
+                           yysymbol_kind_t yyarg[], int yyargn)
 {
-  enum { YYERROR_VERBOSE_ARGS_MAXIMUM = 5 };
-  /* Internationalized format string. */
-  const char *yyformat = YY_NULLPTR;
-  /* Arguments of yyformat: reported tokens (one for the "unexpected",
-     one per "expected"). */
-  char const *yyarg[YYERROR_VERBOSE_ARGS_MAXIMUM];
   /* Actual size of YYARG. */
   int yycount = 0;
-  /* Cumulated lengths of YYARG.  */
-  YYPTRDIFF_T yysize = 0;
-
   /* There are many possibilities here to consider:
      - If this state is a consistent state with a default action, then
        the only way this function was invoked is if the default action
@@ -1060,52 +1110,54 @@ yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
        one exception: it will still contain any token that will not be
        accepted due to an error action in a later state.
   */
-  if (yytoken != YYEMPTY)
+  if (yyctx->yytoken != YYSYMBOL_YYEMPTY)
     {
-      int yyn = yypact[+*yyssp];
-      YYPTRDIFF_T yysize0 = yytnamerr (YY_NULLPTR, yytname[yytoken]);
-      yysize = yysize0;
-      yyarg[yycount++] = yytname[yytoken];
-      if (!yypact_value_is_default (yyn))
-        {
-          /* Start YYX at -YYN if negative to avoid negative indexes in
-             YYCHECK.  In other words, skip the first -YYN actions for
-             this state because they are default actions.  */
-          int yyxbegin = yyn < 0 ? -yyn : 0;
-          /* Stay within bounds of both yycheck and yytname.  */
-          int yychecklim = YYLAST - yyn + 1;
-          int yyxend = yychecklim < YYNTOKENS ? yychecklim : YYNTOKENS;
-          int yyx;
-
-          for (yyx = yyxbegin; yyx < yyxend; ++yyx)
-            if (yycheck[yyx + yyn] == yyx && yyx != YYTERROR
-                && !yytable_value_is_error (yytable[yyx + yyn]))
-              {
-                if (yycount == YYERROR_VERBOSE_ARGS_MAXIMUM)
-                  {
-                    yycount = 1;
-                    yysize = yysize0;
-                    break;
-                  }
-                yyarg[yycount++] = yytname[yyx];
-                {
-                  YYPTRDIFF_T yysize1
-                    = yysize + yytnamerr (YY_NULLPTR, yytname[yyx]);
-                  if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
-                    yysize = yysize1;
-                  else
-                    return 2;
-                }
-              }
-        }
+      int yyn;
+      if (yyarg)
+        yyarg[yycount] = yyctx->yytoken;
+      ++yycount;
+      yyn = yypcontext_expected_tokens (yyctx,
+                                        yyarg ? yyarg + 1 : yyarg, yyargn - 1);
+      if (yyn == YYENOMEM)
+        return YYENOMEM;
+      else
+        yycount += yyn;
     }
+  return yycount;
+}
+
+/* Copy into *YYMSG, which is of size *YYMSG_ALLOC, an error message
+   about the unexpected token YYTOKEN for the state stack whose top is
+   YYSSP.
+
+   Return 0 if *YYMSG was successfully written.  Return -1 if *YYMSG is
+   not large enough to hold the message.  In that case, also set
+   *YYMSG_ALLOC to the required number of bytes.  Return YYENOMEM if the
+   required number of bytes is too large to store.  */
+static int
+yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
+                const yypcontext_t *yyctx)
+{
+  enum { YYARGS_MAX = 5 };
+  /* Internationalized format string. */
+  const char *yyformat = YY_NULLPTR;
+  /* Arguments of yyformat: reported tokens (one for the "unexpected",
+     one per "expected"). */
+  yysymbol_kind_t yyarg[YYARGS_MAX];
+  /* Cumulated lengths of YYARG.  */
+  YYPTRDIFF_T yysize = 0;
+
+  /* Actual size of YYARG. */
+  int yycount = yy_syntax_error_arguments (yyctx, yyarg, YYARGS_MAX);
+  if (yycount == YYENOMEM)
+    return YYENOMEM;
 
   switch (yycount)
     {
-# define YYCASE_(N, S)                      \
+#define YYCASE_(N, S)                       \
       case N:                               \
         yyformat = S;                       \
-      break
+        break
     default: /* Avoid compiler warnings. */
       YYCASE_(0, YY_("syntax error"));
       YYCASE_(1, YY_("syntax error, unexpected %s"));
@@ -1113,17 +1165,23 @@ yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
       YYCASE_(3, YY_("syntax error, unexpected %s, expecting %s or %s"));
       YYCASE_(4, YY_("syntax error, unexpected %s, expecting %s or %s or %s"));
       YYCASE_(5, YY_("syntax error, unexpected %s, expecting %s or %s or %s or %s"));
-# undef YYCASE_
+#undef YYCASE_
     }
 
+  /* Compute error message size.  Don't count the "%s"s, but reserve
+     room for the terminator.  */
+  yysize = yystrlen (yyformat) - 2 * yycount + 1;
   {
-    /* Don't count the "%s"s in the final size, but reserve room for
-       the terminator.  */
-    YYPTRDIFF_T yysize1 = yysize + (yystrlen (yyformat) - 2 * yycount) + 1;
-    if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
-      yysize = yysize1;
-    else
-      return 2;
+    int yyi;
+    for (yyi = 0; yyi < yycount; ++yyi)
+      {
+        YYPTRDIFF_T yysize1
+          = yysize + yytnamerr (YY_NULLPTR, yytname[yyarg[yyi]]);
+        if (yysize <= yysize1 && yysize1 <= YYSTACK_ALLOC_MAXIMUM)
+          yysize = yysize1;
+        else
+          return YYENOMEM;
+      }
   }
 
   if (*yymsg_alloc < yysize)
@@ -1132,7 +1190,7 @@ yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
       if (! (yysize <= *yymsg_alloc
              && *yymsg_alloc <= YYSTACK_ALLOC_MAXIMUM))
         *yymsg_alloc = YYSTACK_ALLOC_MAXIMUM;
-      return 1;
+      return -1;
     }
 
   /* Avoid sprintf, as that infringes on the user's name space.
@@ -1144,7 +1202,7 @@ yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
     while ((*yyp = *yyformat) != '\0')
       if (*yyp == '%' && yyformat[1] == 's' && yyi < yycount)
         {
-          yyp += yytnamerr (yyp, yyarg[yyi++]);
+          yyp += yytnamerr (yyp, yytname[yyarg[yyi++]]);
           yyformat += 2;
         }
       else
@@ -1155,30 +1213,33 @@ yysyntax_error (YYPTRDIFF_T *yymsg_alloc, char **yymsg,
   }
   return 0;
 }
-#endif /* YYERROR_VERBOSE */
+
 
 /*-----------------------------------------------.
 | Release the memory associated to this symbol.  |
 `-----------------------------------------------*/
 
 static void
-yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, parse_parm *parm, void *scanner)
+yydestruct (const char *yymsg,
+            yysymbol_kind_t yykind, YYSTYPE *yyvaluep, parse_parm *parm, void *scanner)
 {
-  YYUSE (yyvaluep);
-  YYUSE (parm);
-  YYUSE (scanner);
+  YY_USE (yyvaluep);
+  YY_USE (parm);
+  YY_USE (scanner);
   if (!yymsg)
     yymsg = "Deleting";
-  YY_SYMBOL_PRINT (yymsg, yytype, yyvaluep, yylocationp);
+  YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YYUSE (yytype);
+  YY_USE (yykind);
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
 
 
 
+
+
 /*----------.
 | yyparse.  |
 `----------*/
@@ -1186,7 +1247,7 @@ yydestruct (const char *yymsg, int yytype, YYSTYPE *yyvaluep, parse_parm *parm,
 int
 yyparse (parse_parm *parm, void *scanner)
 {
-/* The lookahead symbol.  */
+/* Lookahead token kind.  */
 int yychar;
 
 
@@ -1197,45 +1258,41 @@ YY_INITIAL_VALUE (static YYSTYPE yyval_default;)
 YYSTYPE yylval YY_INITIAL_VALUE (= yyval_default);
 
     /* Number of syntax errors so far.  */
-    int yynerrs;
+    int yynerrs = 0;
 
-    yy_state_fast_t yystate;
+    yy_state_fast_t yystate = 0;
     /* Number of tokens to shift before error messages enabled.  */
-    int yyerrstatus;
-
-    /* The stacks and their tools:
-       'yyss': related to states.
-       'yyvs': related to semantic values.
+    int yyerrstatus = 0;
 
-       Refer to the stacks through separate pointers, to allow yyoverflow
+    /* Refer to the stacks through separate pointers, to allow yyoverflow
        to reallocate them elsewhere.  */
 
-    /* The state stack.  */
+    /* Their size.  */
+    YYPTRDIFF_T yystacksize = YYINITDEPTH;
+
+    /* The state stack: array, bottom, top.  */
     yy_state_t yyssa[YYINITDEPTH];
-    yy_state_t *yyss;
-    yy_state_t *yyssp;
+    yy_state_t *yyss = yyssa;
+    yy_state_t *yyssp = yyss;
 
-    /* The semantic value stack.  */
+    /* The semantic value stack: array, bottom, top.  */
     YYSTYPE yyvsa[YYINITDEPTH];
-    YYSTYPE *yyvs;
-    YYSTYPE *yyvsp;
-
-    YYPTRDIFF_T yystacksize;
+    YYSTYPE *yyvs = yyvsa;
+    YYSTYPE *yyvsp = yyvs;
 
   int yyn;
+  /* The return value of yyparse.  */
   int yyresult;
-  /* Lookahead token as an internal (translated) token number.  */
-  int yytoken = 0;
+  /* Lookahead symbol kind.  */
+  yysymbol_kind_t yytoken = YYSYMBOL_YYEMPTY;
   /* The variables used to return semantic value and location from the
      action routines.  */
   YYSTYPE yyval;
 
-#if YYERROR_VERBOSE
   /* Buffer for error messages, and its allocated size.  */
   char yymsgbuf[128];
   char *yymsg = yymsgbuf;
   YYPTRDIFF_T yymsg_alloc = sizeof yymsgbuf;
-#endif
 
 #define YYPOPSTACK(N)   (yyvsp -= (N), yyssp -= (N))
 
@@ -1243,16 +1300,10 @@ YYSTYPE yylval YY_INITIAL_VALUE (= yyval_default);
      Keep to zero when no symbol should be popped.  */
   int yylen = 0;
 
-  yyssp = yyss = yyssa;
-  yyvsp = yyvs = yyvsa;
-  yystacksize = YYINITDEPTH;
-
   YYDPRINTF ((stderr, "Starting parse\n"));
 
-  yystate = 0;
-  yyerrstatus = 0;
-  yynerrs = 0;
   yychar = YYEMPTY; /* Cause a token to be read.  */
+
   goto yysetstate;
 
 
@@ -1274,10 +1325,11 @@ yysetstate:
   YY_IGNORE_USELESS_CAST_BEGIN
   *yyssp = YY_CAST (yy_state_t, yystate);
   YY_IGNORE_USELESS_CAST_END
+  YY_STACK_PRINT (yyss, yyssp);
 
   if (yyss + yystacksize - 1 <= yyssp)
 #if !defined yyoverflow && !defined YYSTACK_RELOCATE
-    goto yyexhaustedlab;
+    YYNOMEM;
 #else
     {
       /* Get the current used size of the three stacks, in elements.  */
@@ -1305,7 +1357,7 @@ yysetstate:
 # else /* defined YYSTACK_RELOCATE */
       /* Extend the stack our own way.  */
       if (YYMAXDEPTH <= yystacksize)
-        goto yyexhaustedlab;
+        YYNOMEM;
       yystacksize *= 2;
       if (YYMAXDEPTH < yystacksize)
         yystacksize = YYMAXDEPTH;
@@ -1316,10 +1368,10 @@ yysetstate:
           YY_CAST (union yyalloc *,
                    YYSTACK_ALLOC (YY_CAST (YYSIZE_T, YYSTACK_BYTES (yystacksize))));
         if (! yyptr)
-          goto yyexhaustedlab;
+          YYNOMEM;
         YYSTACK_RELOCATE (yyss_alloc, yyss);
         YYSTACK_RELOCATE (yyvs_alloc, yyvs);
-# undef YYSTACK_RELOCATE
+#  undef YYSTACK_RELOCATE
         if (yyss1 != yyssa)
           YYSTACK_FREE (yyss1);
       }
@@ -1338,6 +1390,7 @@ yysetstate:
     }
 #endif /* !defined yyoverflow && !defined YYSTACK_RELOCATE */
 
+
   if (yystate == YYFINAL)
     YYACCEPT;
 
@@ -1358,18 +1411,29 @@ yybackup:
 
   /* Not known => get a lookahead token if don't already have one.  */
 
-  /* YYCHAR is either YYEMPTY or YYEOF or a valid lookahead symbol.  */
+  /* YYCHAR is either empty, or end-of-input, or a valid lookahead.  */
   if (yychar == YYEMPTY)
     {
-      YYDPRINTF ((stderr, "Reading a token: "));
+      YYDPRINTF ((stderr, "Reading a token\n"));
       yychar = yylex (&yylval, scanner);
     }
 
   if (yychar <= YYEOF)
     {
-      yychar = yytoken = YYEOF;
+      yychar = YYEOF;
+      yytoken = YYSYMBOL_YYEOF;
       YYDPRINTF ((stderr, "Now at end of input.\n"));
     }
+  else if (yychar == YYerror)
+    {
+      /* The scanner already issued an error message, process directly
+         to error recovery.  But do not keep the error token as
+         lookahead, it is too special and may lead us to an endless
+         loop in error recovery. */
+      yychar = YYUNDEF;
+      yytoken = YYSYMBOL_YYerror;
+      goto yyerrlab1;
+    }
   else
     {
       yytoken = YYTRANSLATE (yychar);
@@ -1438,82 +1502,82 @@ yyreduce:
   YY_REDUCE_PRINT (yyn);
   switch (yyn)
     {
-  case 3:
-#line 91 "Parser/dbotter.y"
+  case 3: /* input: sentencelist  */
+#line 91 "dbotter.y"
                                { 
 			       (parm->result)=yyvsp[0];             
 			     }
-#line 1447 "Parser/dbotter.tab.c"
+#line 1511 "dbotter.tab.c"
     break;
 
-  case 4:
-#line 96 "Parser/dbotter.y"
+  case 4: /* sentence: assertion  */
+#line 96 "dbotter.y"
                              { yyval = yyvsp[0]; }
-#line 1453 "Parser/dbotter.tab.c"
+#line 1517 "dbotter.tab.c"
     break;
 
-  case 5:
-#line 99 "Parser/dbotter.y"
+  case 5: /* sentencelist: sentence  */
+#line 99 "dbotter.y"
                                     { yyval = MKWGPAIR(PP,yyvsp[0],MKWGNIL); }
-#line 1459 "Parser/dbotter.tab.c"
+#line 1523 "dbotter.tab.c"
     break;
 
-  case 6:
-#line 100 "Parser/dbotter.y"
+  case 6: /* sentencelist: sentencelist sentence  */
+#line 100 "dbotter.y"
                                     { yyval = MKWGPAIR(PP,yyvsp[0],yyvsp[-1]); }
-#line 1465 "Parser/dbotter.tab.c"
+#line 1529 "dbotter.tab.c"
     break;
 
-  case 7:
-#line 104 "Parser/dbotter.y"
+  case 7: /* assertion: primsentence '.'  */
+#line 104 "dbotter.y"
                                  { yyval = yyvsp[-1]; }
-#line 1471 "Parser/dbotter.tab.c"
+#line 1535 "dbotter.tab.c"
     break;
 
-  case 8:
-#line 108 "Parser/dbotter.y"
+  case 8: /* primsentence: log  */
+#line 108 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1477 "Parser/dbotter.tab.c"
+#line 1541 "dbotter.tab.c"
     break;
 
-  case 9:
-#line 109 "Parser/dbotter.y"
+  case 9: /* primsentence: loglist  */
+#line 109 "dbotter.y"
                                  { yyval = yyvsp[0]; }
-#line 1483 "Parser/dbotter.tab.c"
+#line 1547 "dbotter.tab.c"
     break;
 
-  case 10:
-#line 114 "Parser/dbotter.y"
+  case 10: /* term: prim  */
+#line 114 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1489 "Parser/dbotter.tab.c"
+#line 1553 "dbotter.tab.c"
     break;
 
-  case 11:
-#line 115 "Parser/dbotter.y"
+  case 11: /* term: prim '(' ')'  */
+#line 115 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,yyvsp[-2],MKWGNIL); }
-#line 1495 "Parser/dbotter.tab.c"
+#line 1559 "dbotter.tab.c"
     break;
 
-  case 12:
-#line 116 "Parser/dbotter.y"
+  case 12: /* term: prim '(' termlist ')'  */
+#line 116 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,yyvsp[-3],yyvsp[-1]); }
-#line 1501 "Parser/dbotter.tab.c"
+#line 1565 "dbotter.tab.c"
     break;
 
-  case 13:
-#line 117 "Parser/dbotter.y"
+  case 13: /* term: '(' term ')'  */
+#line 117 "dbotter.y"
                                   { yyval = yyvsp[-1]; }
-#line 1507 "Parser/dbotter.tab.c"
+#line 1571 "dbotter.tab.c"
     break;
 
-  case 14:
-#line 118 "Parser/dbotter.y"
+  case 14: /* term: EQ '(' termlist ')'  */
+#line 118 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"="),yyvsp[-1]); }
-#line 1513 "Parser/dbotter.tab.c"
+#line 1577 "dbotter.tab.c"
     break;
 
-  case 15:
-#line 119 "Parser/dbotter.y"
+  case 15: /* term: NEQ '(' termlist ')'  */
+#line 119 "dbotter.y"
                                   { yyval = MKWGPAIR(
                                              PP,
                                              MKWGCONST(PP,"not"),
@@ -1521,11 +1585,11 @@ yyreduce:
                                                PP,
                                                MKWGPAIR(PP,MKWGCONST(PP,"="),yyvsp[-1]),
                                                MKWGNIL)); }
-#line 1525 "Parser/dbotter.tab.c"
+#line 1589 "dbotter.tab.c"
     break;
 
-  case 16:
-#line 126 "Parser/dbotter.y"
+  case 16: /* term: term NEQ term  */
+#line 126 "dbotter.y"
                                   { yyval = MKWGPAIR(
                                              PP,
                                              MKWGCONST(PP,"not"),
@@ -1533,89 +1597,95 @@ yyreduce:
                                                PP,
                                                MKWGPAIR(PP,MKWGCONST(PP,"="),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))),
                                                MKWGNIL)); }
-#line 1537 "Parser/dbotter.tab.c"
+#line 1601 "dbotter.tab.c"
     break;
 
-  case 17:
-#line 133 "Parser/dbotter.y"
+  case 17: /* term: term EQ term  */
+#line 133 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"="),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1543 "Parser/dbotter.tab.c"
+#line 1607 "dbotter.tab.c"
     break;
 
-  case 18:
-#line 134 "Parser/dbotter.y"
+  case 18: /* term: term '+' term  */
+#line 134 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"+"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1549 "Parser/dbotter.tab.c"
+#line 1613 "dbotter.tab.c"
     break;
 
-  case 19:
-#line 135 "Parser/dbotter.y"
+  case 19: /* term: term '-' term  */
+#line 135 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"-"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1555 "Parser/dbotter.tab.c"
+#line 1619 "dbotter.tab.c"
     break;
 
-  case 20:
-#line 136 "Parser/dbotter.y"
+  case 20: /* term: term '*' term  */
+#line 136 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"*"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1561 "Parser/dbotter.tab.c"
+#line 1625 "dbotter.tab.c"
+    break;
+
+  case 21: /* term: term '/' term  */
+#line 137 "dbotter.y"
+                                  { yyval = MKWGPAIR(PP,MKWGCONST(PP,"/"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
+#line 1631 "dbotter.tab.c"
     break;
 
-  case 21:
-#line 137 "Parser/dbotter.y"
+  case 22: /* term: '-' term  */
+#line 138 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1567 "Parser/dbotter.tab.c"
+#line 1637 "dbotter.tab.c"
     break;
 
-  case 22:
-#line 138 "Parser/dbotter.y"
+  case 23: /* term: '~' term  */
+#line 139 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1573 "Parser/dbotter.tab.c"
+#line 1643 "dbotter.tab.c"
     break;
 
-  case 23:
-#line 139 "Parser/dbotter.y"
+  case 24: /* term: '(' loglist ')'  */
+#line 140 "dbotter.y"
                                   { yyval = yyvsp[-1]; }
-#line 1579 "Parser/dbotter.tab.c"
+#line 1649 "dbotter.tab.c"
     break;
 
-  case 24:
-#line 140 "Parser/dbotter.y"
+  case 25: /* term: '[' termlist ']'  */
+#line 141 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGPAIR(PP,yyvsp[-1],MKWGNIL)); }
-#line 1585 "Parser/dbotter.tab.c"
+#line 1655 "dbotter.tab.c"
     break;
 
-  case 25:
-#line 141 "Parser/dbotter.y"
+  case 26: /* term: '[' ']'  */
+#line 142 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGNIL); }
-#line 1591 "Parser/dbotter.tab.c"
+#line 1661 "dbotter.tab.c"
     break;
 
-  case 26:
-#line 142 "Parser/dbotter.y"
+  case 27: /* term: connlog  */
+#line 143 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1597 "Parser/dbotter.tab.c"
+#line 1667 "dbotter.tab.c"
     break;
 
-  case 27:
-#line 145 "Parser/dbotter.y"
+  case 28: /* termlist: term  */
+#line 146 "dbotter.y"
                                  { yyval = MKWGPAIR(PP,yyvsp[0],MKWGNIL); }
-#line 1603 "Parser/dbotter.tab.c"
+#line 1673 "dbotter.tab.c"
     break;
 
-  case 28:
-#line 146 "Parser/dbotter.y"
+  case 29: /* termlist: term ',' termlist  */
+#line 147 "dbotter.y"
                               { yyval = MKWGPAIR(PP,yyvsp[-2],yyvsp[0]); }
-#line 1609 "Parser/dbotter.tab.c"
+#line 1679 "dbotter.tab.c"
     break;
 
-  case 29:
-#line 149 "Parser/dbotter.y"
+  case 30: /* log: term  */
+#line 150 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1615 "Parser/dbotter.tab.c"
+#line 1685 "dbotter.tab.c"
     break;
 
-  case 31:
-#line 155 "Parser/dbotter.y"
+  case 32: /* connlog: log '&' log  */
+#line 156 "dbotter.y"
                                       { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"and"),
@@ -1626,11 +1696,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1630 "Parser/dbotter.tab.c"
+#line 1700 "dbotter.tab.c"
     break;
 
-  case 32:
-#line 166 "Parser/dbotter.y"
+  case 33: /* connlog: log NAND log  */
+#line 167 "dbotter.y"
                                        { yyval = 
                                       MKWGPAIR(
                                         PP,
@@ -1648,11 +1718,11 @@ yyreduce:
                                                 yyvsp[0],
                                                 MKWGNIL))),
                                           MKWGNIL)); }
-#line 1652 "Parser/dbotter.tab.c"
+#line 1722 "dbotter.tab.c"
     break;
 
-  case 33:
-#line 184 "Parser/dbotter.y"
+  case 34: /* connlog: log '|' log  */
+#line 185 "dbotter.y"
                                       { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"or"),
@@ -1663,11 +1733,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1667 "Parser/dbotter.tab.c"
+#line 1737 "dbotter.tab.c"
     break;
 
-  case 34:
-#line 196 "Parser/dbotter.y"
+  case 35: /* connlog: log NOR log  */
+#line 197 "dbotter.y"
                                       { yyval = 
                                       MKWGPAIR(
                                         PP,
@@ -1685,11 +1755,11 @@ yyreduce:
                                                 yyvsp[0],
                                                 MKWGNIL))),
                                           MKWGNIL)); }
-#line 1689 "Parser/dbotter.tab.c"
+#line 1759 "dbotter.tab.c"
     break;
 
-  case 35:
-#line 214 "Parser/dbotter.y"
+  case 36: /* connlog: log IMP log  */
+#line 215 "dbotter.y"
                                       { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"imp"),
@@ -1700,11 +1770,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1704 "Parser/dbotter.tab.c"
+#line 1774 "dbotter.tab.c"
     break;
 
-  case 36:
-#line 225 "Parser/dbotter.y"
+  case 37: /* connlog: log RIMP log  */
+#line 226 "dbotter.y"
                                         { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"imp"),
@@ -1715,11 +1785,11 @@ yyreduce:
                                               PP,
                                               yyvsp[-2],
                                               MKWGNIL))); }
-#line 1719 "Parser/dbotter.tab.c"
+#line 1789 "dbotter.tab.c"
     break;
 
-  case 37:
-#line 236 "Parser/dbotter.y"
+  case 38: /* connlog: log AT log  */
+#line 237 "dbotter.y"
                                     { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"@"),
@@ -1730,11 +1800,11 @@ yyreduce:
                                               PP,
                                               yyvsp[-2],
                                               MKWGNIL))); }
-#line 1734 "Parser/dbotter.tab.c"
+#line 1804 "dbotter.tab.c"
     break;
 
-  case 38:
-#line 247 "Parser/dbotter.y"
+  case 39: /* connlog: log EQV log  */
+#line 248 "dbotter.y"
                                        { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"eqv"),
@@ -1745,11 +1815,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1749 "Parser/dbotter.tab.c"
+#line 1819 "dbotter.tab.c"
     break;
 
-  case 39:
-#line 258 "Parser/dbotter.y"
+  case 40: /* connlog: log NEQV log  */
+#line 259 "dbotter.y"
                                         { yyval =
                                       MKWGPAIR(
                                         PP,
@@ -1767,11 +1837,11 @@ yyreduce:
                                                 yyvsp[0],
                                                 MKWGNIL))),
                                           MKWGNIL) ); }
-#line 1771 "Parser/dbotter.tab.c"
+#line 1841 "dbotter.tab.c"
     break;
 
-  case 40:
-#line 276 "Parser/dbotter.y"
+  case 41: /* connlog: '?' '[' termlist ']' ':' log  */
+#line 277 "dbotter.y"
                                                     { yyval = MKWGPAIR(
                                                    PP,
                                                    MKWGCONST(PP,"exists"),
@@ -1782,11 +1852,11 @@ yyreduce:
                                                        PP,
                                                        yyvsp[0],
                                                        MKWGNIL))); }
-#line 1786 "Parser/dbotter.tab.c"
+#line 1856 "dbotter.tab.c"
     break;
 
-  case 41:
-#line 287 "Parser/dbotter.y"
+  case 42: /* connlog: '!' '[' termlist ']' ':' log  */
+#line 288 "dbotter.y"
                                                    { yyval = MKWGPAIR(
                                                    PP,
                                                    MKWGCONST(PP,"all"),
@@ -1797,107 +1867,113 @@ yyreduce:
                                                        PP,
                                                        yyvsp[0],
                                                        MKWGNIL))); }
-#line 1801 "Parser/dbotter.tab.c"
+#line 1871 "dbotter.tab.c"
     break;
 
-  case 42:
-#line 297 "Parser/dbotter.y"
+  case 43: /* connlog: '-' log  */
+#line 298 "dbotter.y"
                                           { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1807 "Parser/dbotter.tab.c"
+#line 1877 "dbotter.tab.c"
     break;
 
-  case 43:
-#line 298 "Parser/dbotter.y"
+  case 44: /* connlog: '~' log  */
+#line 299 "dbotter.y"
                                           { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1813 "Parser/dbotter.tab.c"
+#line 1883 "dbotter.tab.c"
     break;
 
-  case 44:
-#line 304 "Parser/dbotter.y"
+  case 45: /* loglist: log  */
+#line 305 "dbotter.y"
                                  { yyval = MKWGPAIR(PP,yyvsp[0],MKWGNIL); }
-#line 1819 "Parser/dbotter.tab.c"
+#line 1889 "dbotter.tab.c"
     break;
 
-  case 45:
-#line 305 "Parser/dbotter.y"
+  case 46: /* loglist: log '|' loglist  */
+#line 306 "dbotter.y"
                                  { yyval = MKWGPAIR(PP,yyvsp[-2],yyvsp[0]); }
-#line 1825 "Parser/dbotter.tab.c"
+#line 1895 "dbotter.tab.c"
     break;
 
-  case 46:
-#line 310 "Parser/dbotter.y"
+  case 47: /* prim: TINT  */
+#line 311 "dbotter.y"
                            { yyval = MKWGINT(PP,yyvsp[0]); }
-#line 1831 "Parser/dbotter.tab.c"
+#line 1901 "dbotter.tab.c"
     break;
 
-  case 47:
-#line 311 "Parser/dbotter.y"
+  case 48: /* prim: TFLOAT  */
+#line 312 "dbotter.y"
                            { yyval = MKWGFLOAT(PP,yyvsp[0]); }
-#line 1837 "Parser/dbotter.tab.c"
+#line 1907 "dbotter.tab.c"
     break;
 
-  case 48:
-#line 312 "Parser/dbotter.y"
+  case 49: /* prim: TDATE  */
+#line 313 "dbotter.y"
                            { yyval = MKWGDATE(PP,yyvsp[0]); }
-#line 1843 "Parser/dbotter.tab.c"
+#line 1913 "dbotter.tab.c"
     break;
 
-  case 49:
-#line 313 "Parser/dbotter.y"
+  case 50: /* prim: TIME  */
+#line 314 "dbotter.y"
                                 { yyval = MKWGTIME(PP,yyvsp[0]); }
-#line 1849 "Parser/dbotter.tab.c"
+#line 1919 "dbotter.tab.c"
     break;
 
-  case 50:
-#line 314 "Parser/dbotter.y"
+  case 51: /* prim: STRING  */
+#line 315 "dbotter.y"
                           { yyval = MKWGSTRING(PP,yyvsp[0]); }
-#line 1855 "Parser/dbotter.tab.c"
+#line 1925 "dbotter.tab.c"
     break;
 
-  case 51:
-#line 315 "Parser/dbotter.y"
+  case 52: /* prim: VAR  */
+#line 316 "dbotter.y"
                                 { yyval = MKWGVAR(PP,yyvsp[0]); }
-#line 1861 "Parser/dbotter.tab.c"
+#line 1931 "dbotter.tab.c"
     break;
 
-  case 52:
-#line 316 "Parser/dbotter.y"
+  case 53: /* prim: URI  */
+#line 317 "dbotter.y"
                             { yyval = MKWGURI(PP,yyvsp[0]); }
-#line 1867 "Parser/dbotter.tab.c"
+#line 1937 "dbotter.tab.c"
     break;
 
-  case 53:
-#line 317 "Parser/dbotter.y"
+  case 54: /* prim: CONSTURI  */
+#line 318 "dbotter.y"
                               { yyval = MKWGCONSTURI(PP,yyvsp[0]); }
-#line 1873 "Parser/dbotter.tab.c"
+#line 1943 "dbotter.tab.c"
     break;
 
-  case 54:
-#line 318 "Parser/dbotter.y"
+  case 55: /* prim: UNIQUEURI  */
+#line 319 "dbotter.y"
                               { yyval = MKWGUNIQUEURI(PP,yyvsp[0]); }
-#line 1879 "Parser/dbotter.tab.c"
+#line 1949 "dbotter.tab.c"
     break;
 
-  case 55:
-#line 319 "Parser/dbotter.y"
+  case 56: /* prim: ID  */
+#line 320 "dbotter.y"
                             { yyval = MKWGCONST(PP,yyvsp[0]); }
-#line 1885 "Parser/dbotter.tab.c"
+#line 1955 "dbotter.tab.c"
     break;
 
-  case 56:
-#line 320 "Parser/dbotter.y"
+  case 57: /* prim: TCONST  */
+#line 321 "dbotter.y"
                                    { yyval = MKWGCONST(PP,yyvsp[0]); }
-#line 1891 "Parser/dbotter.tab.c"
+#line 1961 "dbotter.tab.c"
     break;
 
-  case 57:
-#line 321 "Parser/dbotter.y"
+  case 58: /* prim: '/'  */
+#line 322 "dbotter.y"
+                          { yyval = MKWGURI(PP,"/"); }
+#line 1967 "dbotter.tab.c"
+    break;
+
+  case 59: /* prim: EMPTYSTRING  */
+#line 323 "dbotter.y"
                                { yyval = MKWGCONST(PP,yyvsp[0]); }
-#line 1897 "Parser/dbotter.tab.c"
+#line 1973 "dbotter.tab.c"
     break;
 
 
-#line 1901 "Parser/dbotter.tab.c"
+#line 1977 "dbotter.tab.c"
 
       default: break;
     }
@@ -1912,11 +1988,10 @@ yyreduce:
      case of YYERROR or YYBACKUP, subsequent parser actions might lead
      to an incorrect destructor call or verbose syntax error message
      before the lookahead is translated.  */
-  YY_SYMBOL_PRINT ("-> $$ =", yyr1[yyn], &yyval, &yyloc);
+  YY_SYMBOL_PRINT ("-> $$ =", YY_CAST (yysymbol_kind_t, yyr1[yyn]), &yyval, &yyloc);
 
   YYPOPSTACK (yylen);
   yylen = 0;
-  YY_STACK_PRINT (yyss, yyssp);
 
   *++yyvsp = yyval;
 
@@ -1940,50 +2015,44 @@ yyreduce:
 yyerrlab:
   /* Make sure we have latest lookahead translation.  See comments at
      user semantic actions for why this is necessary.  */
-  yytoken = yychar == YYEMPTY ? YYEMPTY : YYTRANSLATE (yychar);
-
+  yytoken = yychar == YYEMPTY ? YYSYMBOL_YYEMPTY : YYTRANSLATE (yychar);
   /* If not already recovering from an error, report this error.  */
   if (!yyerrstatus)
     {
       ++yynerrs;
-#if ! YYERROR_VERBOSE
-      yyerror (parm, scanner, YY_("syntax error"));
-#else
-# define YYSYNTAX_ERROR yysyntax_error (&yymsg_alloc, &yymsg, \
-                                        yyssp, yytoken)
       {
+        yypcontext_t yyctx
+          = {yyssp, yytoken};
         char const *yymsgp = YY_("syntax error");
         int yysyntax_error_status;
-        yysyntax_error_status = YYSYNTAX_ERROR;
+        yysyntax_error_status = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
         if (yysyntax_error_status == 0)
           yymsgp = yymsg;
-        else if (yysyntax_error_status == 1)
+        else if (yysyntax_error_status == -1)
           {
             if (yymsg != yymsgbuf)
               YYSTACK_FREE (yymsg);
-            yymsg = YY_CAST (char *, YYSTACK_ALLOC (YY_CAST (YYSIZE_T, yymsg_alloc)));
-            if (!yymsg)
+            yymsg = YY_CAST (char *,
+                             YYSTACK_ALLOC (YY_CAST (YYSIZE_T, yymsg_alloc)));
+            if (yymsg)
               {
-                yymsg = yymsgbuf;
-                yymsg_alloc = sizeof yymsgbuf;
-                yysyntax_error_status = 2;
+                yysyntax_error_status
+                  = yysyntax_error (&yymsg_alloc, &yymsg, &yyctx);
+                yymsgp = yymsg;
               }
             else
               {
-                yysyntax_error_status = YYSYNTAX_ERROR;
-                yymsgp = yymsg;
+                yymsg = yymsgbuf;
+                yymsg_alloc = sizeof yymsgbuf;
+                yysyntax_error_status = YYENOMEM;
               }
           }
         yyerror (parm, scanner, yymsgp);
-        if (yysyntax_error_status == 2)
-          goto yyexhaustedlab;
+        if (yysyntax_error_status == YYENOMEM)
+          YYNOMEM;
       }
-# undef YYSYNTAX_ERROR
-#endif
     }
 
-
-
   if (yyerrstatus == 3)
     {
       /* If just tried and failed to reuse lookahead token after an
@@ -2016,6 +2085,7 @@ yyerrorlab:
      label yyerrorlab therefore never appears in user code.  */
   if (0)
     YYERROR;
+  ++yynerrs;
 
   /* Do not reclaim the symbols of the rule whose action triggered
      this YYERROR.  */
@@ -2032,13 +2102,14 @@ yyerrorlab:
 yyerrlab1:
   yyerrstatus = 3;      /* Each real token shifted decrements this.  */
 
+  /* Pop stack until we find a state that shifts the error token.  */
   for (;;)
     {
       yyn = yypact[yystate];
       if (!yypact_value_is_default (yyn))
         {
-          yyn += YYTERROR;
-          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYTERROR)
+          yyn += YYSYMBOL_YYerror;
+          if (0 <= yyn && yyn <= YYLAST && yycheck[yyn] == YYSYMBOL_YYerror)
             {
               yyn = yytable[yyn];
               if (0 < yyn)
@@ -2052,7 +2123,7 @@ yyerrlab1:
 
 
       yydestruct ("Error: popping",
-                  yystos[yystate], yyvsp, parm, scanner);
+                  YY_ACCESSING_SYMBOL (yystate), yyvsp, parm, scanner);
       YYPOPSTACK (1);
       yystate = *yyssp;
       YY_STACK_PRINT (yyss, yyssp);
@@ -2064,7 +2135,7 @@ yyerrlab1:
 
 
   /* Shift the error token.  */
-  YY_SYMBOL_PRINT ("Shifting", yystos[yyn], yyvsp, yylsp);
+  YY_SYMBOL_PRINT ("Shifting", YY_ACCESSING_SYMBOL (yyn), yyvsp, yylsp);
 
   yystate = yyn;
   goto yynewstate;
@@ -2075,7 +2146,7 @@ yyerrlab1:
 `-------------------------------------*/
 yyacceptlab:
   yyresult = 0;
-  goto yyreturn;
+  goto yyreturnlab;
 
 
 /*-----------------------------------.
@@ -2083,24 +2154,22 @@ yyacceptlab:
 `-----------------------------------*/
 yyabortlab:
   yyresult = 1;
-  goto yyreturn;
+  goto yyreturnlab;
 
 
-#if !defined yyoverflow || YYERROR_VERBOSE
-/*-------------------------------------------------.
-| yyexhaustedlab -- memory exhaustion comes here.  |
-`-------------------------------------------------*/
+/*-----------------------------------------------------------.
+| yyexhaustedlab -- YYNOMEM (memory exhaustion) comes here.  |
+`-----------------------------------------------------------*/
 yyexhaustedlab:
   yyerror (parm, scanner, YY_("memory exhausted"));
   yyresult = 2;
-  /* Fall through.  */
-#endif
+  goto yyreturnlab;
 
 
-/*-----------------------------------------------------.
-| yyreturn -- parsing is finished, return the result.  |
-`-----------------------------------------------------*/
-yyreturn:
+/*----------------------------------------------------------.
+| yyreturnlab -- parsing is finished, clean up and return.  |
+`----------------------------------------------------------*/
+yyreturnlab:
   if (yychar != YYEMPTY)
     {
       /* Make sure we have latest lookahead translation.  See comments at
@@ -2116,19 +2185,18 @@ yyreturn:
   while (yyssp != yyss)
     {
       yydestruct ("Cleanup: popping",
-                  yystos[+*yyssp], yyvsp, parm, scanner);
+                  YY_ACCESSING_SYMBOL (+*yyssp), yyvsp, parm, scanner);
       YYPOPSTACK (1);
     }
 #ifndef yyoverflow
   if (yyss != yyssa)
     YYSTACK_FREE (yyss);
 #endif
-#if YYERROR_VERBOSE
   if (yymsg != yymsgbuf)
     YYSTACK_FREE (yymsg);
-#endif
   return yyresult;
 }
-#line 326 "Parser/dbotter.y"
+
+#line 328 "dbotter.y"
 
 
diff --git a/Builtparser/dbotter.tab.h b/Builtparser/dbotter.tab.h
index 9c048b1..7a15d61 100644
--- a/Builtparser/dbotter.tab.h
+++ b/Builtparser/dbotter.tab.h
@@ -1,8 +1,8 @@
-/* A Bison parser, made by GNU Bison 3.5.1.  */
+/* A Bison parser, made by GNU Bison 3.8.2.  */
 
 /* Bison interface for Yacc-like parsers in C
 
-   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2020 Free Software Foundation,
+   Copyright (C) 1984, 1989-1990, 2000-2015, 2018-2021 Free Software Foundation,
    Inc.
 
    This program is free software: you can redistribute it and/or modify
@@ -16,7 +16,7 @@
    GNU General Public License for more details.
 
    You should have received a copy of the GNU General Public License
-   along with this program.  If not, see <http://www.gnu.org/licenses/>.  */
+   along with this program.  If not, see <https://www.gnu.org/licenses/>.  */
 
 /* As a special exception, you may create a larger work that contains
    part or all of the Bison parser skeleton and distribute that work
@@ -31,11 +31,12 @@
    This special exception was added by the Free Software Foundation in
    version 2.2 of Bison.  */
 
-/* Undocumented macros, especially those whose name start with YY_,
-   are private implementation details.  Do not rely on them.  */
+/* DO NOT RELY ON FEATURES THAT ARE NOT DOCUMENTED in the manual,
+   especially those whose name start with YY_ or yy_.  They are
+   private implementation details that can be changed or removed.  */
 
-#ifndef YY_WG_YYOTTER_PARSER_DBOTTER_TAB_H_INCLUDED
-# define YY_WG_YYOTTER_PARSER_DBOTTER_TAB_H_INCLUDED
+#ifndef YY_WG_YYOTTER_DBOTTER_TAB_H_INCLUDED
+# define YY_WG_YYOTTER_DBOTTER_TAB_H_INCLUDED
 /* Debug traces.  */
 #ifndef YYDEBUG
 # define YYDEBUG 0
@@ -44,36 +45,41 @@
 extern int wg_yyotterdebug;
 #endif
 
-/* Token type.  */
+/* Token kinds.  */
 #ifndef YYTOKENTYPE
 # define YYTOKENTYPE
   enum yytokentype
   {
-    VARIABLE = 258,
-    FILEEND = 259,
-    TINT = 260,
-    TFLOAT = 261,
-    TDATE = 262,
-    TIME = 263,
-    STRING = 264,
-    ID = 265,
-    URI = 266,
-    CONSTURI = 267,
-    UNIQUEURI = 268,
-    TCONST = 269,
-    VAR = 270,
-    NEQ = 271,
-    EQ = 272,
-    IMP = 273,
-    AND = 274,
-    EQV = 275,
-    NEQV = 276,
-    RIMP = 277,
-    NOR = 278,
-    NAND = 279,
-    AT = 280,
-    EMPTYSTRING = 281
+    YYEMPTY = -2,
+    YYEOF = 0,                     /* "end of file"  */
+    YYerror = 256,                 /* error  */
+    YYUNDEF = 257,                 /* "invalid token"  */
+    VARIABLE = 258,                /* VARIABLE  */
+    FILEEND = 259,                 /* FILEEND  */
+    TINT = 260,                    /* TINT  */
+    TFLOAT = 261,                  /* TFLOAT  */
+    TDATE = 262,                   /* TDATE  */
+    TIME = 263,                    /* TIME  */
+    STRING = 264,                  /* STRING  */
+    ID = 265,                      /* ID  */
+    URI = 266,                     /* URI  */
+    CONSTURI = 267,                /* CONSTURI  */
+    UNIQUEURI = 268,               /* UNIQUEURI  */
+    TCONST = 269,                  /* TCONST  */
+    VAR = 270,                     /* VAR  */
+    NEQ = 271,                     /* NEQ  */
+    EQ = 272,                      /* EQ  */
+    IMP = 273,                     /* IMP  */
+    AND = 274,                     /* AND  */
+    EQV = 275,                     /* EQV  */
+    NEQV = 276,                    /* NEQV  */
+    RIMP = 277,                    /* RIMP  */
+    NOR = 278,                     /* NOR  */
+    NAND = 279,                    /* NAND  */
+    AT = 280,                      /* AT  */
+    EMPTYSTRING = 281              /* EMPTYSTRING  */
   };
+  typedef enum yytokentype yytoken_kind_t;
 #endif
 
 /* Value type.  */
@@ -85,6 +91,8 @@ typedef int YYSTYPE;
 
 
 
+
 int wg_yyotterparse (parse_parm *parm, void *scanner);
 
-#endif /* !YY_WG_YYOTTER_PARSER_DBOTTER_TAB_H_INCLUDED  */
+
+#endif /* !YY_WG_YYOTTER_DBOTTER_TAB_H_INCLUDED  */
diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index f60b2bc..c9ef33a 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -580,8 +580,8 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 59
-#define YY_END_OF_BUFFER 60
+#define YY_NUM_RULES 61
+#define YY_END_OF_BUFFER 62
 /* This struct is not used in this scanner,
    but its presence is necessary. */
 struct yy_trans_info
@@ -589,19 +589,20 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const flex_int16_t yy_accept[100] =
+static const flex_int16_t yy_accept[103] =
     {   0,
-        0,    0,    0,    0,    0,    0,   31,   31,   60,   58,
-       57,   38,   51,   16,   58,   39,   54,   23,   44,   43,
-       55,   56,   47,   40,   48,    1,   12,   53,    1,    3,
-        1,   52,   10,   35,   50,   49,   46,   42,   45,   41,
-       22,   21,   20,   22,   29,   28,   27,   29,   31,   33,
-       32,   57,   38,    1,    2,   36,   39,   11,   30,    0,
-       12,    5,    0,    4,   37,   35,    8,    9,   19,   17,
-       18,   26,   24,   25,   31,   32,   32,   34,   36,   13,
-       12,    0,    6,    7,   37,   12,    0,    0,   12,    0,
-        0,    0,    0,    0,    0,   15,    0,   14,    0
-
+        0,    0,    0,    0,    0,    0,   32,   32,   62,   60,
+       59,   39,   53,   17,   60,   40,   56,   24,   46,   45,
+       57,   58,   49,   41,   50,   42,   12,   55,    1,    3,
+        1,   54,   10,   36,   52,   51,   48,   44,   47,   43,
+       23,   22,   21,   23,   30,   29,   28,   30,   32,   34,
+       33,   59,   39,    1,    2,   37,   40,   11,   13,   31,
+        0,   12,    5,    0,    4,   38,   36,    8,    9,   20,
+       18,   19,   27,   25,   26,   32,   33,   33,   35,   37,
+        0,   14,   12,    0,    6,    7,   38,   13,   12,    0,
+        0,   12,    0,    0,    0,    0,    0,    0,   16,    0,
+
+       15,    0
     } ;
 
 static const YY_CHAR yy_ec[256] =
@@ -644,62 +645,64 @@ static const YY_CHAR yy_meta[36] =
         4,    1,    1,    1,    1
     } ;
 
-static const flex_int16_t yy_base[110] =
+static const flex_int16_t yy_base[113] =
     {   0,
-        0,    0,   33,   34,   37,   38,   39,   40,  137,  138,
-      134,    0,   29,  138,   23,    0,  138,  126,  138,  138,
-      138,  138,  138,  138,  138,  122,   39,  138,   24,  111,
-      111,   37,  138,    0,  138,  138,  138,  138,  138,   41,
-      138,  138,  138,   51,  138,  138,  138,   49,    0,  138,
-       54,  129,    0,  138,  138,    0,    0,  138,  138,  112,
-       54,  107,  106,  138,    0,    0,  138,  138,  138,  138,
-      138,  138,  138,  138,    0,   66,   72,  138,    0,  109,
-       59,  102,  138,  138,    0,   70,   99,   98,   74,   91,
-       88,   73,   72,   58,   51,  138,   45,  138,  138,   92,
-
-       96,  100,  104,  108,  110,  114,  118,  120,  122
+        0,    0,   33,   34,   37,   38,   39,   40,  142,  143,
+      139,    0,   29,  143,   23,    0,  143,  131,  143,  143,
+      143,  143,  143,  121,  143,  126,   39,  143,   24,  115,
+      115,   37,  143,    0,  143,  143,  143,  143,  143,   41,
+      143,  143,  143,   51,  143,  143,  143,   49,    0,  143,
+       54,  133,    0,  143,  143,    0,    0,  143,   54,  143,
+      116,   57,  111,  110,  143,    0,    0,  143,  143,  143,
+      143,  143,  143,  143,  143,    0,   66,   72,  143,    0,
+      113,  112,   69,  111,  143,  143,    0,  110,   75,  103,
+      100,   70,   98,   93,   89,   77,   59,   51,  143,   45,
+
+      143,  143,   93,   97,  101,  105,  109,  111,  115,  119,
+      121,  123
     } ;
 
-static const flex_int16_t yy_def[110] =
+static const flex_int16_t yy_def[113] =
     {   0,
-       99,    1,  100,  100,  101,  101,  102,  102,   99,   99,
-       99,  103,   99,   99,   99,  104,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,  105,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,  106,   99,
-      107,   99,  103,   99,   99,  108,  104,   99,   99,   99,
-       99,   99,   99,   99,  109,  105,   99,   99,   99,   99,
-       99,   99,   99,   99,  106,  107,  107,   99,  108,   99,
-       99,   99,   99,   99,  109,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,    0,   99,
-
-       99,   99,   99,   99,   99,   99,   99,   99,   99
+      102,    1,  103,  103,  104,  104,  105,  105,  102,  102,
+      102,  106,  102,  102,  102,  107,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  108,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102,  109,  102,
+      110,  102,  106,  102,  102,  111,  107,  102,  102,  102,
+      102,  102,  102,  102,  102,  112,  108,  102,  102,  102,
+      102,  102,  102,  102,  102,  109,  110,  110,  102,  111,
+      102,  102,  102,  102,  102,  102,  112,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102,  102,  102,
+
+      102,    0,  102,  102,  102,  102,  102,  102,  102,  102,
+      102,  102
     } ;
 
-static const flex_int16_t yy_nxt[174] =
+static const flex_int16_t yy_nxt[179] =
     {   0,
        10,   11,   12,   13,   14,   15,   16,   17,   18,   19,
        20,   21,   22,   23,   24,   25,   26,   27,   28,   29,
        30,   31,   32,   33,   34,   35,   10,   36,   10,   34,
        34,   37,   38,   39,   40,   42,   42,   43,   43,   46,
-       46,   50,   50,   54,   62,   47,   47,   56,   67,   55,
-       51,   51,   56,   56,   60,   69,   61,   72,   63,   44,
-       44,   65,   98,   48,   48,   77,   65,   65,   97,   60,
-       78,   81,   82,   68,   60,   96,   86,   99,   73,   74,
-       70,   71,   99,   77,   88,   60,   95,   89,   78,   60,
-       94,   89,   41,   41,   41,   41,   45,   45,   45,   45,
-
-       49,   49,   49,   49,   53,   93,   53,   53,   57,   92,
-       57,   57,   66,   66,   75,   91,   90,   75,   76,   87,
-       76,   76,   79,   79,   85,   85,   80,   84,   83,   80,
-       52,   54,   64,   59,   58,   52,   99,    9,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99
+       46,   50,   50,   54,   63,   47,   47,   56,   68,   55,
+       51,   51,   56,   56,   61,   70,   62,   73,   64,   44,
+       44,   66,  101,   48,   48,   78,   66,   66,  100,   81,
+       79,   59,   61,   69,   83,   84,   99,  102,   74,   75,
+       71,   72,  102,   78,   61,   61,   89,   92,   79,   91,
+       61,   98,   92,   41,   41,   41,   41,   45,   45,   45,
+
+       45,   49,   49,   49,   49,   53,   97,   53,   53,   57,
+       96,   57,   57,   67,   67,   76,   95,   94,   76,   77,
+       93,   77,   77,   80,   80,   87,   87,   88,   90,   82,
+       88,   86,   85,   82,   52,   54,   65,   60,   59,   58,
+       52,  102,    9,  102,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102
     } ;
 
-static const flex_int16_t yy_chk[174] =
+static const flex_int16_t yy_chk[179] =
     {   0,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
         1,    1,    1,    1,    1,    1,    1,    1,    1,    1,
@@ -707,28 +710,28 @@ static const flex_int16_t yy_chk[174] =
         1,    1,    1,    1,    1,    3,    4,    3,    4,    5,
         6,    7,    8,   13,   29,    5,    6,   15,   40,   13,
         7,    8,   15,   15,   27,   44,   27,   48,   29,    3,
-        4,   32,   97,    5,    6,   51,   32,   32,   95,   61,
-       51,   61,   61,   40,   81,   94,   81,   76,   48,   48,
-       44,   44,   76,   77,   86,   86,   93,   86,   77,   89,
-       92,   89,  100,  100,  100,  100,  101,  101,  101,  101,
-
-      102,  102,  102,  102,  103,   91,  103,  103,  104,   90,
-      104,  104,  105,  105,  106,   88,   87,  106,  107,   82,
-      107,  107,  108,  108,  109,  109,   80,   63,   62,   60,
-       52,   31,   30,   26,   18,   11,    9,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99,   99,   99,   99,   99,   99,   99,   99,
-       99,   99,   99
+        4,   32,  100,    5,    6,   51,   32,   32,   98,   59,
+       51,   59,   62,   40,   62,   62,   97,   77,   48,   48,
+       44,   44,   77,   78,   83,   92,   83,   92,   78,   89,
+       89,   96,   89,  103,  103,  103,  103,  104,  104,  104,
+
+      104,  105,  105,  105,  105,  106,   95,  106,  106,  107,
+       94,  107,  107,  108,  108,  109,   93,   91,  109,  110,
+       90,  110,  110,  111,  111,  112,  112,   88,   84,   82,
+       81,   64,   63,   61,   52,   31,   30,   26,   24,   18,
+       11,    9,  102,  102,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102,  102,  102,
+      102,  102,  102,  102,  102,  102,  102,  102
     } ;
 
 /* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[60] =
+static const flex_int32_t yy_rule_can_match_eol[62] =
     {   0,
 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-    0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 
+    0, 0, 1, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 
     0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 
-        };
+    0, 0,     };
 
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
@@ -859,7 +862,20 @@ static void elmparsestr_add(char c) {
   elmparsestrbuf[elmparsestrlen++]=c;
 }
 
-#line 863 "Parser/dbotter.yy.c"
+/* the generated lexer is wrapped by wg_yyotterlex, which keeps the last token */
+#define YY_DECL static int wg_yyotterlex_token(YYSTYPE* yylval_param, yyscan_t yyscanner)
+
+static int elmparse_operand(int token) {
+  switch (token) {
+    case TINT: case TFLOAT: case TDATE: case TIME: case STRING: case VAR: case URI: case CONSTURI:
+    case UNIQUEURI: case ID: case TCONST: case EMPTYSTRING: case ')': case ']':
+      return 1;
+    default:
+      return 0;
+  }
+}
+
+#line 879 "Parser/dbotter.yy.c"
 #define YY_NO_INPUT 1
  
 /* utf-8: a byte >= 0x80 is part of a utf-8 character and is a word
@@ -867,7 +883,7 @@ static void elmparsestr_add(char c) {
    caps-as-var test in dbparse.c only accepts ASCII uppercase).
    See /opt/gk/Doc/MEMO_input_robustness.md I1/M2 and the same policy in
    gk Converter/convcommon.c. */
-#line 871 "Parser/dbotter.yy.c"
+#line 887 "Parser/dbotter.yy.c"
 
 #define INITIAL 0
 #define STRSTATE 1
@@ -1142,10 +1158,10 @@ YY_DECL
 		}
 
 	{
-#line 149 "Parser/dbotter.l"
+#line 162 "Parser/dbotter.l"
 
 
-#line 1149 "Parser/dbotter.yy.c"
+#line 1165 "Parser/dbotter.yy.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -1172,13 +1188,13 @@ yy_match:
 			while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 				{
 				yy_current_state = (int) yy_def[yy_current_state];
-				if ( yy_current_state >= 100 )
+				if ( yy_current_state >= 103 )
 					yy_c = yy_meta[yy_c];
 				}
 			yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
 			++yy_cp;
 			}
-		while ( yy_base[yy_current_state] != 138 );
+		while ( yy_base[yy_current_state] != 143 );
 
 yy_find_action:
 		yy_act = yy_accept[yy_current_state];
@@ -1216,7 +1232,7 @@ do_action:	/* This label is used only to access EOF actions. */
 
 case 1:
 YY_RULE_SETUP
-#line 151 "Parser/dbotter.l"
+#line 164 "Parser/dbotter.l"
 {
               parseprintf( "an op: %s", yytext);
               *yylval=yytext;	      
@@ -1225,7 +1241,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 2:
 YY_RULE_SETUP
-#line 157 "Parser/dbotter.l"
+#line 170 "Parser/dbotter.l"
 {
               parseprintf( "an neq: %s", yytext);
               *yylval=yytext;	      
@@ -1234,7 +1250,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 164 "Parser/dbotter.l"
+#line 177 "Parser/dbotter.l"
 {
               parseprintf( "an eq: %s", yytext);
               *yylval=yytext;	      
@@ -1243,7 +1259,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 4:
 YY_RULE_SETUP
-#line 170 "Parser/dbotter.l"
+#line 183 "Parser/dbotter.l"
 {
               parseprintf( "an rimp: %s", yytext);
               *yylval=yytext;	      
@@ -1252,7 +1268,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 176 "Parser/dbotter.l"
+#line 189 "Parser/dbotter.l"
 {
               parseprintf( "an limp: %s", yytext);
               *yylval=yytext;	      
@@ -1261,7 +1277,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 182 "Parser/dbotter.l"
+#line 195 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1270,7 +1286,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 188 "Parser/dbotter.l"
+#line 201 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1279,7 +1295,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 8:
 YY_RULE_SETUP
-#line 194 "Parser/dbotter.l"
+#line 207 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1288,7 +1304,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 200 "Parser/dbotter.l"
+#line 213 "Parser/dbotter.l"
 {
               parseprintf( "an eqv: %s", yytext);
               *yylval=yytext;	      
@@ -1297,7 +1313,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 10:
 YY_RULE_SETUP
-#line 206 "Parser/dbotter.l"
+#line 219 "Parser/dbotter.l"
 {
               parseprintf( "an @: %s", yytext);
               *yylval=yytext;	      
@@ -1306,7 +1322,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 212 "Parser/dbotter.l"
+#line 225 "Parser/dbotter.l"
 {
               parseprintf( "an emptystring: %s", yytext);
               *yylval="$emptystr";	      
@@ -1315,7 +1331,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 12:
 YY_RULE_SETUP
-#line 218 "Parser/dbotter.l"
+#line 231 "Parser/dbotter.l"
 { parseprintf( "An integer: %s (%d)\n",yytext,atoi(yytext));	           
               *yylval=yytext;              
               return TINT; 
@@ -1323,296 +1339,315 @@ YY_RULE_SETUP
 	YY_BREAK
 case 13:
 YY_RULE_SETUP
-#line 222 "Parser/dbotter.l"
+#line 235 "Parser/dbotter.l"
+{
+              // a minus directly before a number is its sign, unless it follows an operand
+              if (elmparse_operand(PARM->lasttoken)) {
+                yyless(1);
+                return '-';
+              }
+              parseprintf( "A negative number: %s\n",yytext);
+              *yylval=yytext;
+              return (strchr(yytext,'.')!=NULL) ? TFLOAT : TINT;
+      }
+	YY_BREAK
+case 14:
+YY_RULE_SETUP
+#line 245 "Parser/dbotter.l"
 {
               parseprintf( "A float: %s", yytext);
               *yylval=yytext;	      
               return TFLOAT; 
 	    }
 	YY_BREAK
-case 14:
+case 15:
 YY_RULE_SETUP
-#line 228 "Parser/dbotter.l"
+#line 251 "Parser/dbotter.l"
 {
               parseprintf( "A date: %s\n", yytext);
               *yylval=yytext;	      
               return TDATE;      
       }
 	YY_BREAK
-case 15:
+case 16:
 YY_RULE_SETUP
-#line 234 "Parser/dbotter.l"
+#line 257 "Parser/dbotter.l"
 {
               parseprintf( "A time: %s\n", yytext);			  
 	            *yylval=yytext; 
               return TIME; 
 	    }  	    
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
-#line 240 "Parser/dbotter.l"
+#line 263 "Parser/dbotter.l"
 { BEGIN STRSTATE; elmparsestrlen=0; } 
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
-#line 241 "Parser/dbotter.l"
+#line 264 "Parser/dbotter.l"
 { elmparsestr_add('\n'); } 
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 242 "Parser/dbotter.l"
+#line 265 "Parser/dbotter.l"
 { elmparsestr_add('\t'); } 
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 243 "Parser/dbotter.l"
+#line 266 "Parser/dbotter.l"
 { elmparsestr_add('\"'); } 
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 244 "Parser/dbotter.l"
+#line 267 "Parser/dbotter.l"
 { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return UNIQUEURI;
                 } 
 	YY_BREAK
-case 21:
-/* rule 21 can match eol */
+case 22:
+/* rule 22 can match eol */
 YY_RULE_SETUP
-#line 249 "Parser/dbotter.l"
+#line 272 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in string)"); 
                     exit(1); 
 		             */   
 	        } 
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
-#line 254 "Parser/dbotter.l"
+#line 277 "Parser/dbotter.l"
 { elmparsestr_add(*yytext); }
 	YY_BREAK
-case 23:
+case 24:
 YY_RULE_SETUP
-#line 257 "Parser/dbotter.l"
+#line 280 "Parser/dbotter.l"
 { BEGIN QUOTESTATE; elmparsestrlen=0; } /* *s++ = '#';}  */
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
-#line 258 "Parser/dbotter.l"
+#line 281 "Parser/dbotter.l"
 { elmparsestr_add('\n'); } 
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
-#line 259 "Parser/dbotter.l"
+#line 282 "Parser/dbotter.l"
 { elmparsestr_add('\t'); } 
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
-#line 260 "Parser/dbotter.l"
+#line 283 "Parser/dbotter.l"
 { elmparsestr_add('\''); } 
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 261 "Parser/dbotter.l"
+#line 284 "Parser/dbotter.l"
 { elmparsestr_add(0); BEGIN 0; 
                   parseprintf("found '%s'\n", elmparsestrbuf); 
 		              *yylval=elmparsestrbuf;
 		              return CONSTURI;
                 } 
 	YY_BREAK
-case 28:
-/* rule 28 can match eol */
+case 29:
+/* rule 29 can match eol */
 YY_RULE_SETUP
-#line 266 "Parser/dbotter.l"
+#line 289 "Parser/dbotter.l"
 { elmparsestr_add('\n'); 
                  /* parseprintf("elm parser error: invalid string (newline in quote)"); 
                     exit(1); 
 		             */   
 	        } 
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 271 "Parser/dbotter.l"
+#line 294 "Parser/dbotter.l"
 { elmparsestr_add(*yytext); }
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 274 "Parser/dbotter.l"
+#line 297 "Parser/dbotter.l"
 BEGIN(COMMENT);  
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 276 "Parser/dbotter.l"
+#line 299 "Parser/dbotter.l"
 /* eat anything that's not a '*' */
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 277 "Parser/dbotter.l"
+#line 300 "Parser/dbotter.l"
 /* eat up '*'s not followed by '/'s */
 	YY_BREAK
-case 33:
-/* rule 33 can match eol */
+case 34:
+/* rule 34 can match eol */
 YY_RULE_SETUP
-#line 278 "Parser/dbotter.l"
+#line 301 "Parser/dbotter.l"
 ;
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
-#line 279 "Parser/dbotter.l"
+#line 302 "Parser/dbotter.l"
 BEGIN(INITIAL);
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
-#line 281 "Parser/dbotter.l"
+#line 304 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
 	      return URI;
 	    }  
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
-#line 287 "Parser/dbotter.l"
+#line 310 "Parser/dbotter.l"
 {
 	      parseprintf( "An identifier: %s\n", yytext );
 	      *yylval=yytext;
 	      return URI;
 	    }      
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 293 "Parser/dbotter.l"
+#line 316 "Parser/dbotter.l"
 {
 	        parseprintf( "A variable: %s\n", yytext );
 	        *yylval=yytext;
 	        return VAR;
 	      } 
 	YY_BREAK
-case 38:
-/* rule 38 can match eol */
+case 39:
+/* rule 39 can match eol */
 YY_RULE_SETUP
-#line 299 "Parser/dbotter.l"
+#line 322 "Parser/dbotter.l"
 { strncpy(linebuf, yytext+1, sizeof(linebuf)-1);
        yyless(1);      
      }
 	YY_BREAK
-case 39:
+case 40:
 YY_RULE_SETUP
-#line 303 "Parser/dbotter.l"
+#line 326 "Parser/dbotter.l"
 { } /* eat up line comment until end of line */
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
-#line 305 "Parser/dbotter.l"
+#line 328 "Parser/dbotter.l"
 return '-';
 	YY_BREAK
-case 41:
+case 42:
+YY_RULE_SETUP
+#line 329 "Parser/dbotter.l"
+return '/';
+	YY_BREAK
+case 43:
 YY_RULE_SETUP
-#line 306 "Parser/dbotter.l"
+#line 330 "Parser/dbotter.l"
 return '~';
 	YY_BREAK
-case 42:
+case 44:
 YY_RULE_SETUP
-#line 307 "Parser/dbotter.l"
+#line 331 "Parser/dbotter.l"
 return '|';
 	YY_BREAK
-case 43:
+case 45:
 YY_RULE_SETUP
-#line 308 "Parser/dbotter.l"
+#line 332 "Parser/dbotter.l"
 return ')';
 	YY_BREAK
-case 44:
+case 46:
 YY_RULE_SETUP
-#line 309 "Parser/dbotter.l"
+#line 333 "Parser/dbotter.l"
 return '(';
 	YY_BREAK
-case 45:
+case 47:
 YY_RULE_SETUP
-#line 310 "Parser/dbotter.l"
+#line 334 "Parser/dbotter.l"
 return '}';
 	YY_BREAK
-case 46:
+case 48:
 YY_RULE_SETUP
-#line 311 "Parser/dbotter.l"
+#line 335 "Parser/dbotter.l"
 return '{';
 	YY_BREAK
-case 47:
+case 49:
 YY_RULE_SETUP
-#line 312 "Parser/dbotter.l"
+#line 336 "Parser/dbotter.l"
 return ',';
 	YY_BREAK
-case 48:
+case 50:
 YY_RULE_SETUP
-#line 313 "Parser/dbotter.l"
+#line 337 "Parser/dbotter.l"
 return '.';
 	YY_BREAK
-case 49:
+case 51:
 YY_RULE_SETUP
-#line 315 "Parser/dbotter.l"
+#line 339 "Parser/dbotter.l"
 return ']';
 	YY_BREAK
-case 50:
+case 52:
 YY_RULE_SETUP
-#line 316 "Parser/dbotter.l"
+#line 340 "Parser/dbotter.l"
 return '[';
 	YY_BREAK
-case 51:
+case 53:
 YY_RULE_SETUP
-#line 317 "Parser/dbotter.l"
+#line 341 "Parser/dbotter.l"
 return '!';
 	YY_BREAK
-case 52:
+case 54:
 YY_RULE_SETUP
-#line 318 "Parser/dbotter.l"
+#line 342 "Parser/dbotter.l"
 return '?';
 	YY_BREAK
-case 53:
+case 55:
 YY_RULE_SETUP
-#line 319 "Parser/dbotter.l"
+#line 343 "Parser/dbotter.l"
 return ':';
 	YY_BREAK
-case 54:
+case 56:
 YY_RULE_SETUP
-#line 320 "Parser/dbotter.l"
+#line 344 "Parser/dbotter.l"
 return '&';
 	YY_BREAK
-case 55:
+case 57:
 YY_RULE_SETUP
-#line 322 "Parser/dbotter.l"
+#line 346 "Parser/dbotter.l"
 return '*';
 	YY_BREAK
-case 56:
+case 58:
 YY_RULE_SETUP
-#line 323 "Parser/dbotter.l"
+#line 347 "Parser/dbotter.l"
 return '+';
 	YY_BREAK
 case YY_STATE_EOF(INITIAL):
 case YY_STATE_EOF(STRSTATE):
 case YY_STATE_EOF(QUOTESTATE):
 case YY_STATE_EOF(COMMENT):
-#line 325 "Parser/dbotter.l"
+#line 349 "Parser/dbotter.l"
 { parseprintf("file end\n"); 
               //return FILEEND; 
 	            yyterminate();
 	          }
 	YY_BREAK
-case 57:
+case 59:
 YY_RULE_SETUP
-#line 330 "Parser/dbotter.l"
+#line 354 "Parser/dbotter.l"
 /* eat up whitespace */
 	YY_BREAK
-case 58:
+case 60:
 YY_RULE_SETUP
-#line 332 "Parser/dbotter.l"
+#line 356 "Parser/dbotter.l"
 { parseprintf( "Unrecognized character: %s\n", yytext ); }
 	YY_BREAK
-case 59:
+case 61:
 YY_RULE_SETUP
-#line 335 "Parser/dbotter.l"
+#line 359 "Parser/dbotter.l"
 ECHO;
 	YY_BREAK
-#line 1616 "Parser/dbotter.yy.c"
+#line 1651 "Parser/dbotter.yy.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -1909,7 +1944,7 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 		while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 			{
 			yy_current_state = (int) yy_def[yy_current_state];
-			if ( yy_current_state >= 100 )
+			if ( yy_current_state >= 103 )
 				yy_c = yy_meta[yy_c];
 			}
 		yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
@@ -1938,11 +1973,11 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	while ( yy_chk[yy_base[yy_current_state] + yy_c] != yy_current_state )
 		{
 		yy_current_state = (int) yy_def[yy_current_state];
-		if ( yy_current_state >= 100 )
+		if ( yy_current_state >= 103 )
 			yy_c = yy_meta[yy_c];
 		}
 	yy_current_state = yy_nxt[yy_base[yy_current_state] + yy_c];
-	yy_is_jam = (yy_current_state == 99);
+	yy_is_jam = (yy_current_state == 102);
 
 	(void)yyg;
 	return yy_is_jam ? 0 : yy_current_state;
@@ -2760,7 +2795,16 @@ void yyfree (void * ptr , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 335 "Parser/dbotter.l"
+#line 359 "Parser/dbotter.l"
+
+
+int wg_yyotterlex(YYSTYPE* yylval_param, void* yyscanner) {
+  int token;
+
+  token=wg_yyotterlex_token(yylval_param,yyscanner);
+  PARM->lasttoken=token;
+  return token;
+}
 
 
 
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 30f84fe..364c0fe 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -221,6 +221,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   //mpool=wg_create_mpool(db,PARSER_MEMPOOL_SIZE); 
   mpool=(dbmemsegh(db)->infrm_mpool);
   pp.mpool=mpool;  
+  pp.lasttoken=0;
   //printf("otter input:%s\n",(char*)pp.buf);
 #ifdef DEBUG  
   printf("otter input:%s\n",(char*)pp.buf);  
diff --git a/Parser/dbgenparse.h b/Parser/dbgenparse.h
index 7e5eeb4..7459796 100644
--- a/Parser/dbgenparse.h
+++ b/Parser/dbgenparse.h
@@ -133,6 +133,7 @@ typedef struct parse_parm_s {
   void* jsonld_graphid;  // an mpool atom for graph id creating $narc
 
   void* nests[PARSE_NESTING_DEPTH]; // stack for pure json parsing
+  int lasttoken; // last token of the otter lexer, 0 at start
   int nesterr; // set when the input nests deeper than PARSE_NESTING_DEPTH
 
 } parse_parm;
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index 89db5e6..38e62bb 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -122,6 +122,19 @@ static void elmparsestr_add(char c) {
   elmparsestrbuf[elmparsestrlen++]=c;
 }
 
+/* the generated lexer is wrapped by wg_yyotterlex, which keeps the last token */
+#define YY_DECL static int wg_yyotterlex_token(YYSTYPE* yylval_param, yyscan_t yyscanner)
+
+static int elmparse_operand(int token) {
+  switch (token) {
+    case TINT: case TFLOAT: case TDATE: case TIME: case STRING: case VAR: case URI: case CONSTURI:
+    case UNIQUEURI: case ID: case TCONST: case EMPTYSTRING: case ')': case ']':
+      return 1;
+    default:
+      return 0;
+  }
+}
+
 %}
 
 %option reentrant 
@@ -148,7 +161,7 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
 
 %%
 
-"!-"|"/"|"<"|">"|">="  {
+"!-"|"<"|">"|">="  {
               parseprintf( "an op: %s", yytext);
               *yylval=yytext;	      
               return URI; 
@@ -219,6 +232,16 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
               *yylval=yytext;              
               return TINT; 
 	    }
+"-"{DIGIT}+("."{DIGIT}+)? {
+              // a minus directly before a number is its sign, unless it follows an operand
+              if (elmparse_operand(PARM->lasttoken)) {
+                yyless(1);
+                return '-';
+              }
+              parseprintf( "A negative number: %s\n",yytext);
+              *yylval=yytext;
+              return (strchr(yytext,'.')!=NULL) ? TFLOAT : TINT;
+      }
 {DIGIT}+"."{DIGIT}+    {
               parseprintf( "A float: %s", yytext);
               *yylval=yytext;	      
@@ -303,6 +326,7 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
 "%".*  { } /* eat up line comment until end of line */
 
 [-] return '-';
+[/] return '/';
 [~] return '~';
 [|] return '|';
 [)] return ')';
@@ -334,6 +358,15 @@ ID       [a-zA-Z\x80-\xff][a-zA-Z0-9_:+\-*/<>\x80-\xff]*
 
 %%
 
+int wg_yyotterlex(YYSTYPE* yylval_param, void* yyscanner) {
+  int token;
+
+  token=wg_yyotterlex_token(yylval_param,yyscanner);
+  PARM->lasttoken=token;
+  return token;
+}
+
+
 
 void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
   int i;
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index f5d443f..ebbc4c9 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -134,6 +134,7 @@ term:      prim                   { $$ = $1; }
          | term '+' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"+"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
          | term '-' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"-"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
          | term '*' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"*"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
+         | term '/' term          { $$ = MKWGPAIR(PP,MKWGCONST(PP,"/"),MKWGPAIR(PP,$1,MKWGPAIR(PP,$3,MKWGNIL))); }
          | '-' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }	 
          | '~' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }
          | '(' loglist')'         { $$ = $2; }
@@ -318,6 +319,7 @@ prim:     TINT             { $$ = MKWGINT(PP,$1); }
         | UNIQUEURI	      { $$ = MKWGUNIQUEURI(PP,$1); }
         | ID	            { $$ = MKWGCONST(PP,$1); }
         | TCONST	           { $$ = MKWGCONST(PP,$1); }
+        | '/'             { $$ = MKWGURI(PP,"/"); }
         | EMPTYSTRING	       { $$ = MKWGCONST(PP,$1); }
 ;
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 30f84fe..364c0fe 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -221,6 +221,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   //mpool=wg_create_mpool(db,PARSER_MEMPOOL_SIZE); 
   mpool=(dbmemsegh(db)->infrm_mpool);
   pp.mpool=mpool;  
+  pp.lasttoken=0;
   //printf("otter input:%s\n",(char*)pp.buf);
 #ifdef DEBUG  
   printf("otter input:%s\n",(char*)pp.buf);  
-- 
2.43.0


From 7dc63eb33800077fc9b9b53222f150ff56d3d58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:12:58 +0000
Subject: [PATCH 26/80] fix: a constant never matches a compound term

---
 Reasoner/unify.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/unify.c b/Reasoner/unify.c
index 20783ef..22d137a 100644
--- a/Reasoner/unify.c
+++ b/Reasoner/unify.c
@@ -303,6 +303,7 @@ gint wr_match_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // y may be a datarec here
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -378,6 +379,7 @@ gint wr_eqmodvars_term_aux(glb* g, gint x, gint y, int uniquestrflag) {
   // now x is not var
   if (!isdatarec(x)) {
     if (WR_EQUAL_TERM(g,x,y,uniquestrflag)) return 1;  
+    return 0; // y may be a datarec here
   } 
   if (!isdatarec(y)) return 0; // x is datarec but y is not    
   // now x and y are different datarecs
@@ -484,7 +486,7 @@ gint wr_nomatch_term_uniquevars(glb* g, gint x, gint y, int uniquestrflag) {
   }   
   if (isvar(y)) return 1; // x is not var, y is var
   // x and y cannot be vars
-  if (!isdatarec(y)) return 2; // x is datarec but y is a const    
+  if (!isdatarec(x) || !isdatarec(y)) return 2; // at least one is a const, and they are not equal
   // now x and y are different datarecs
   if (1) {  
     db=g->db;
-- 
2.43.0


From 53c390b56ba38fd0e6d3e0cae032b67e3d68a4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:03 +0000
Subject: [PATCH 27/80] fix: print infix operators as quoted names in JSON and
 only where they are operators

---
 Printer/dbotterprint.c | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 322e9b5..3b28482 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -757,6 +757,7 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
   gptr recptr;
   gint  enc;
   int i, clen;
+  char* opname;
 
 #ifdef DEBUG  
   printf("print_term called with enc %d and type %d \n",(int)rec,wg_get_encoded_type(db,rec)); 
@@ -780,25 +781,25 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
       pos=wr_strprint_term_otter(g,enc,printlevel,buf,len,pos);
       if (pos<0) return pos;
     } else {  
-      if (//(g->print_clauses_tptp) && 
-          wg_get_encoded_type(db,enc)==WG_URITYPE &&
+      opname=NULL;
+      if (i==(g->unify_firstuseterm) &&
+          wg_get_encoded_type(db,enc)==WG_URITYPE && wg_decode_uri_prefix(db,enc)==NULL &&
           wg_decode_str(db,enc) && strlen(wg_decode_str(db,enc))==1) {
-        if (!strcmp(wg_decode_str(db,enc),"+")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$sum");
-        } else if (!strcmp(wg_decode_str(db,enc),"*")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$product");
-        } else if (!strcmp(wg_decode_str(db,enc),"-")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$difference");
-        } else if (!strcmp(wg_decode_str(db,enc),"/")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$quotient");
-        } else if (!strcmp(wg_decode_str(db,enc),"<")) {
-          pos+=snprintf((*buf)+pos,(*len)-pos,"$less");  
-        } else {
-          pos=wr_strprint_simpleterm_otter(g, enc,printlevel,buf,len,pos,0);
+        // an infix operator
+        switch ((wg_decode_str(db,enc))[0]) {
+          case '+': opname="$sum"; break;
+          case '*': opname="$product"; break;
+          case '-': opname="$difference"; break;
+          case '/': opname="$quotient"; break;
+          case '<': opname="$less"; break;
         }
+      }
+      if (opname!=NULL) {
+        if (!wr_str_guarantee_space(g,buf,len,pos+30)) return -1;
+        pos+=snprintf((*buf)+pos,(*len)-pos,(g->print_clauses_json) ? "\"%s\"" : "%s",opname);
       } else {
         pos=wr_strprint_simpleterm_otter(g, enc,printlevel,buf,len,pos,0);
-      }      
+      }
       if (pos<0) return pos;
     }           
     if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
-- 
2.43.0


From 8c1284aedaaba1924c28fe0b48e53cbd43395a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:33 +0000
Subject: [PATCH 28/80] fix: leave $is_distinct literals with variables to be
 computed

---
 Reasoner/build.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index b6ab995..d8ceda6 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -875,7 +875,7 @@ int wr_specialcomp_lit(glb* g, gint atom) {
     // distinct
     if (str[4]=='d' && str[5]=='i' 
         && str[6]=='s' && str[7]=='t' && str[8]=='i' && str[9]=='n' && str[10]=='c' 
-        && str[11]=='t' && str[11]=='\0' &&        
+        && str[11]=='t' && str[12]=='\0' &&        
         wg_decode_uri_prefix(g->db,fun)==NULL) return 1;    
     // list    
     if (str[4]=='l' && str[5]=='i' 
-- 
2.43.0


From ad044a8c7fae54275cc1c7014fa8b00ce83cca0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:36 +0000
Subject: [PATCH 29/80] fix: clausify formulas with the empty distinct symbol

---
 Db/dbmpool.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index f9fa0f2..28b8648 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -777,7 +777,8 @@ int wg_atomtype(void* db, void* ptr) {
 
 char* wg_atomstr1(void* db, void* ptr) {
   if (ptr==NULL) return NULL;
-  if (*(((char*)ptr)+1)==(char)0) return NULL;
+  // an empty string with a prefix is an empty string, not a missing one
+  if (*(((char*)ptr)+1)==(char)0 && *(((char*)ptr)+2)==(char)0) return NULL;
   else return ((char*)ptr)+1;
 }
 
-- 
2.43.0


From 09ff5968646b53497c47374161120f239a04b9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:20 +0000
Subject: [PATCH 30/80] fix: scope variables inside lists in the text languages
 like other variables

---
 Builtparser/dbgenparse.h  |  1 +
 Builtparser/dbotter.tab.c |  4 ++--
 Builtparser/dbparse.c     | 21 +++++++++++++++++++++
 Builtparser/dbparse.h     |  1 +
 Parser/dbgenparse.h       |  1 +
 Parser/dbotter.y          |  4 ++--
 Parser/dbparse.c          | 21 +++++++++++++++++++++
 Parser/dbparse.h          |  1 +
 8 files changed, 50 insertions(+), 4 deletions(-)

diff --git a/Builtparser/dbgenparse.h b/Builtparser/dbgenparse.h
index 7459796..22dce93 100644
--- a/Builtparser/dbgenparse.h
+++ b/Builtparser/dbgenparse.h
@@ -37,6 +37,7 @@
 //#define parseprintf printf
 
 #define MKWGPAIR(pp,x,y) (wg_mkpair(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x,y))
+#define MKWGLIST(pp,x) (wr_parse_mklist(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x))
 
 #define MKWGINT(pp,x)   (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_INTTYPE,x,NULL))
 #define MKWGFLOAT(pp,x) (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_DOUBLETYPE,x,NULL))
diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 21e1c30..6ac38e7 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -1650,13 +1650,13 @@ yyreduce:
 
   case 25: /* term: '[' termlist ']'  */
 #line 141 "dbotter.y"
-                                  { yyval = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGPAIR(PP,yyvsp[-1],MKWGNIL)); }
+                                  { yyval = MKWGLIST(PP,yyvsp[-1]); }
 #line 1655 "dbotter.tab.c"
     break;
 
   case 26: /* term: '[' ']'  */
 #line 142 "dbotter.y"
-                                  { yyval = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGNIL); }
+                                  { yyval = MKWGURI(PP,"$nil"); }
 #line 1661 "dbotter.tab.c"
     break;
 
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 364c0fe..dfb1eba 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -816,6 +816,27 @@ int wr_check_fof_cnf_freevars(glb* g, void* mpool, void* cl, void** freevarsptr)
 */
 
 
+/* 
+  build the nested $list term of the elements of [...], destroying the element list:
+  a list is a term like others for the phases after parsing 
+*/
+
+void* wr_parse_mklist(void* db, void* mpool, void* elements) {
+  void* part;
+  void* fun;
+  void* res;
+
+  res=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
+  fun=wg_mkatom(db,mpool,WG_URITYPE,"$list",NULL);
+  if (!res || !fun) return NULL;
+  part=wg_inplace_reverselist(db,mpool,elements);
+  for(;wg_ispair(db,part);part=wg_rest(db,part)) {
+    res=wg_mklist3(db,mpool,fun,wg_first(db,part),res);
+    if (!res) return NULL;
+  }
+  return res;
+}
+
 void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clauseflag) {
   void *db=g->db;
   void *arg2, *arg3;
diff --git a/Builtparser/dbparse.h b/Builtparser/dbparse.h
index 5df14aa..6e67f2d 100644
--- a/Builtparser/dbparse.h
+++ b/Builtparser/dbparse.h
@@ -60,6 +60,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
 //int wg_import_otter_file(void* db, char* filename, int printlevel);
 int wr_import_prolog_file(glb* g, char* filename, char* strasfile, cvec clvec);
 void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clauseflag);
+void* wr_parse_mklist(void* db, void* mpool, void* elements);
 
 void* wr_preprocess_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist,int isincluded);
 void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist);
diff --git a/Parser/dbgenparse.h b/Parser/dbgenparse.h
index 7459796..22dce93 100644
--- a/Parser/dbgenparse.h
+++ b/Parser/dbgenparse.h
@@ -37,6 +37,7 @@
 //#define parseprintf printf
 
 #define MKWGPAIR(pp,x,y) (wg_mkpair(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x,y))
+#define MKWGLIST(pp,x) (wr_parse_mklist(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,x))
 
 #define MKWGINT(pp,x)   (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_INTTYPE,x,NULL))
 #define MKWGFLOAT(pp,x) (wg_mkatom(((parse_parm*)pp)->db,((parse_parm*)pp)->mpool,WG_DOUBLETYPE,x,NULL))
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index ebbc4c9..f6d81b8 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -138,8 +138,8 @@ term:      prim                   { $$ = $1; }
          | '-' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }	 
          | '~' term               { $$ = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,$2,MKWGNIL)); }
          | '(' loglist')'         { $$ = $2; }
-         | '[' termlist ']'       { $$ = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGPAIR(PP,$2,MKWGNIL)); }
-         | '[' ']'                { $$ = MKWGPAIR(PP,MKWGCONST(PP,"$$lst"),MKWGNIL); }
+         | '[' termlist ']'       { $$ = MKWGLIST(PP,$2); }
+         | '[' ']'                { $$ = MKWGURI(PP,"$nil"); }
          | connlog                { $$ = $1; }         
 ;
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 364c0fe..dfb1eba 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -816,6 +816,27 @@ int wr_check_fof_cnf_freevars(glb* g, void* mpool, void* cl, void** freevarsptr)
 */
 
 
+/* 
+  build the nested $list term of the elements of [...], destroying the element list:
+  a list is a term like others for the phases after parsing 
+*/
+
+void* wr_parse_mklist(void* db, void* mpool, void* elements) {
+  void* part;
+  void* fun;
+  void* res;
+
+  res=wg_mkatom(db,mpool,WG_URITYPE,"$nil",NULL);
+  fun=wg_mkatom(db,mpool,WG_URITYPE,"$list",NULL);
+  if (!res || !fun) return NULL;
+  part=wg_inplace_reverselist(db,mpool,elements);
+  for(;wg_ispair(db,part);part=wg_rest(db,part)) {
+    res=wg_mklist3(db,mpool,fun,wg_first(db,part),res);
+    if (!res) return NULL;
+  }
+  return res;
+}
+
 void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clauseflag) {
   void *db=g->db;
   void *arg2, *arg3;
diff --git a/Parser/dbparse.h b/Parser/dbparse.h
index 5df14aa..6e67f2d 100644
--- a/Parser/dbparse.h
+++ b/Parser/dbparse.h
@@ -60,6 +60,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
 //int wg_import_otter_file(void* db, char* filename, int printlevel);
 int wr_import_prolog_file(glb* g, char* filename, char* strasfile, cvec clvec);
 void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clauseflag);
+void* wr_parse_mklist(void* db, void* mpool, void* elements);
 
 void* wr_preprocess_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist,int isincluded);
 void* wr_parse_clauselist(glb* g,void* mpool,cvec clvec,void* clauselist);
-- 
2.43.0


From c8c6a63bad11e165e5812dcb67cda370aaeb76ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 31/80] fix: accept in JSON the roles -convert -json writes

---
 Builtparser/jsparse.c | 6 +++++-
 Parser/jsparse.c      | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 2a222d9..948a377 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1151,7 +1151,11 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
             strcmp(rolestr,"hypothesis") &&
             strcmp(rolestr,"conjecture") && strcmp(rolestr,"negated_conjecture")  &&
-            strcmp(rolestr,"question")) {
+            strcmp(rolestr,"question") &&
+            // the other axiom-like roles of tptp, written by -convert -json
+            strcmp(rolestr,"definition") && strcmp(rolestr,"lemma") &&
+            strcmp(rolestr,"theorem") && strcmp(rolestr,"corollary") &&
+            strcmp(rolestr,"plain")) {
             //strcmp(rolestr,"ask")) {
           wr_show_jsparse_error(g,pp,"unknown role value used");  
         } else if (content) {
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 2a222d9..948a377 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1151,7 +1151,11 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
             strcmp(rolestr,"hypothesis") &&
             strcmp(rolestr,"conjecture") && strcmp(rolestr,"negated_conjecture")  &&
-            strcmp(rolestr,"question")) {
+            strcmp(rolestr,"question") &&
+            // the other axiom-like roles of tptp, written by -convert -json
+            strcmp(rolestr,"definition") && strcmp(rolestr,"lemma") &&
+            strcmp(rolestr,"theorem") && strcmp(rolestr,"corollary") &&
+            strcmp(rolestr,"plain")) {
             //strcmp(rolestr,"ask")) {
           wr_show_jsparse_error(g,pp,"unknown role value used");  
         } else if (content) {
-- 
2.43.0


From 21b46a0baed08f23bda23637d62bc2afad9b8c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 32/80] fix: quote printed names that would not be read back

---
 Builtparser/jsparse.c  |  5 ++++-
 Parser/jsparse.c       |  5 ++++-
 Printer/dbotterprint.c | 44 +++++++++++++++++++++---------------------
 3 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 948a377..4a0c81e 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1305,7 +1305,10 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       rolestr="negated_conjecture";
     }
     if (namestr && wg_should_quote(namestr)) {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+      bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,namestr);
+      if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",rolestr);
     } else {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(%s,%s,",namestr,rolestr);
     }  
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 948a377..4a0c81e 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1305,7 +1305,10 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       rolestr="negated_conjecture";
     }
     if (namestr && wg_should_quote(namestr)) {
-      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof('%s',%s,",namestr,rolestr);
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(");
+      bpos=wg_strprint_quoted(db,&(g->tmp_printbuf),&blen,bpos,namestr);
+      if (bpos<0 || !wg_str_guarantee_space(db,&(g->tmp_printbuf),&blen,bpos+1000)) return NULL;
+      bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,",%s,",rolestr);
     } else {
       bpos+=snprintf((g->tmp_printbuf)+bpos,blen-bpos,"fof(%s,%s,",namestr,rolestr);
     }  
diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 3b28482..5246201 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -891,12 +891,10 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
           }          
         } else {          
           if (isneg) {
-            if (wg_contains_quote(strdata)) {    
+            if (wg_should_quote(strdata)) {    
               pos+=snprintf((*buf)+pos,(*len)-pos,"-");        
               pos+=wg_print_quoted(buf,*len,pos,strdata); 
               return pos;
-            } else if (wg_should_quote(strdata)) {
-              return pos+snprintf((*buf)+pos,(*len)-pos,"-'%s'", strdata);
             } else {
               return pos+snprintf((*buf)+pos,(*len)-pos,"-%s", strdata);
             }            
@@ -905,11 +903,9 @@ int wr_strprint_simpleterm_otter(glb* g, gint enc,int printlevel, char** buf, in
               return pos+snprintf((*buf)+pos,(*len)-pos,"''");
             } else if (!strcmp(strdata,EMPTYSTRING)) {
               return pos+snprintf((*buf)+pos,(*len)-pos,"''");    
-            } else if (wg_contains_quote(strdata)) {           
+            } else if (wg_should_quote(strdata)) {           
               pos+=wg_print_quoted(buf,*len,pos,strdata); 
               return pos;
-            } else if (wg_should_quote(strdata)) {
-              return pos+snprintf((*buf)+pos,(*len)-pos,"'%s'", strdata);             
             } else {
               return pos+snprintf((*buf)+pos,(*len)-pos,"%s", strdata);             
             }             
@@ -1047,7 +1043,7 @@ int wg_should_quote(char* s) {
   char* p;
   char c;
 
-  if (!s) return 0;
+  if (!s || !*s) return 0;
   if (*(s+1)==0) {
     c=*s;
     if (c=='=') return 0;
@@ -1059,11 +1055,13 @@ int wg_should_quote(char* s) {
     if (c=='<') return 0;
   } 
   if (*s=='=' && *(s+1)==0) return 0;
+  // would be read as a variable, a number or not at all
+  if ((*s>='A' && *s<='Z') || (*s>='0' && *s<='9') || *s=='_') return 1;
   for(p=s; *p!=0; p++) {
     c=*p;
-    if (c=='$' || c=='_') continue;
+    if (c=='_' || (c=='$' && p==s)) continue;
     if (c<48) return 1;
-    if (c>57 && c<64) return 1;
+    if (c>57 && c<65) return 1;
     if (c>90 && c<97) return 1;
     if (c>122) return 1;
   }
@@ -1488,7 +1486,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
 #ifdef DEBUG  
   printf("print_term called"); 
 #endif   
-  int type;
+  int type, var;
   char *p, *p2;
   int count;
   int ppflag=0;
@@ -1580,10 +1578,8 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
         } else if (p!=NULL && *p && (*p >= 'A') && (*p <= 'Z')) {
           // must add c: prefix    
           pos+=wg_print_quoted2(buf,*len,pos,"c",p);                        
-        } else if (wg_contains_quote(p)) {            
-          pos+=wg_print_quoted(buf,*len,pos,p); 
         } else if (wg_should_quote(p)) {            
-          pos+=snprintf((*buf)+pos,(*len)-pos,"\'%s\'",p);  
+          pos+=wg_print_quoted(buf,*len,pos,p); 
         } else {
           pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p);
         }
@@ -1597,7 +1593,8 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
             return pos;
           }            
           if (type==WG_URITYPE) p2=wg_atomstr2(db,ptr);
-          else p2=NULL;         
+          else p2=NULL;
+          var=(type==WG_URITYPE && !p2 && isupper((unsigned char)*p)); // parsed as a variable         
           //printf("\n type==WG_URITYPE %d p %s p2 %s\n",type==WG_URITYPE,p,p2);
           if (type==WG_VARTYPE && p && *p!='\0') {            
             pos+=snprintf((*buf)+pos,(*len)-pos,"X%s",p+1);             
@@ -1605,6 +1602,7 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
           } else if  (*p=='?' && *(p+1)==':' && !p2) {                   
             if (*(p+2) >= 'A' && *(p+2) <= 'Z') {
               p=p+2;
+              var=1;
             } else {
               pos+=snprintf((*buf)+pos,(*len)-pos,"X%s",p+2);  
               //pos+=wg_print_quoted2(buf,*len,pos,"V",p+2);             
@@ -1613,10 +1611,10 @@ int wg_print_subfrm_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
           } 
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {            
             pos+=wg_print_dquoted(buf,*len,pos,p,0,0);            
-          } else if (wg_contains_quote(p)) {                       
-            pos+=wg_print_quoted(buf,*len,pos,p); 
+          } else if (var) {
+            pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p);
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {            
-            pos+=snprintf((*buf)+pos,(*len)-pos,"\'%s\'",p);          
+            pos+=wg_print_quoted(buf,*len,pos,p); 
           } else {        
             pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p);
           }
@@ -1773,7 +1771,7 @@ int wg_print_cnf_tptp(void* db, void* ptr, char** buf, int *len, int pos) {
 
 
 int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag, char** buf, int *len, int pos) {
-  int type;
+  int type, var;
   char *p, *p2;
   int count;
   int ppflag=0;
@@ -1823,7 +1821,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
           // must add c: prefix    
           pos+=wg_print_quoted2(buf,*len,pos,"c",p);      
           //pos+=snprintf((*buf)+pos,(*len)-pos,"\'c:%s\'",p);          
-        } else if (wg_contains_quote(p)) {            
+        } else if (wg_should_quote(p)) {            
           pos+=wg_print_quoted(buf,*len,pos,p); 
         } else {
           pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p);
@@ -1839,6 +1837,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
           }            
           if (type==WG_URITYPE) p2=wg_atomstr2(db,ptr);
           else p2=NULL;
+          var=(type==WG_URITYPE && !p2 && isupper((unsigned char)*p)); // parsed as a variable
           //printf("\np %s p2 %s\n",p,p2); 
           if (type==WG_VARTYPE && p && *p!='\0') {           
             pos+=snprintf((*buf)+pos,(*len)-pos,"VAR%s",p+1);             
@@ -1847,6 +1846,7 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
              && !p2) {                    
             if (*(p+2) >= 'A' && *(p+2) <= 'Z') {
               p=p+2;
+              var=1;
             } else {
               pos+=wg_print_quoted2(buf,*len,pos,"V",p+2);             
               return pos;       
@@ -1854,10 +1854,10 @@ int wg_print_subcnf_tptp(void* db, void* ptr,int depth,int pflag, int termflag,
           }           
           if ((p2 && *p2=='#' && *(p2+1)=='\0')) {          
             pos+=wg_print_dquoted(buf,*len,pos,p,0,0);         
-          } else if (wg_contains_quote(p)) {                        
-            pos+=wg_print_quoted(buf,*len,pos,p); 
+          } else if (var) {
+            pos+=snprintf((*buf)+pos,(*len)-pos,"%s",p);
           } else if ((p2 && *p2=='c' && *(p2+1)=='\0') || wg_should_quote(p)) {           
-            pos+=snprintf((*buf)+pos,(*len)-pos,"\'%s\'",p);
+            pos+=wg_print_quoted(buf,*len,pos,p); 
           } else if ((p2 && *p2=='#' && *(p2+1)=='\0')) {            
             pos+=snprintf((*buf)+pos,(*len)-pos,"\"%s\"",p);  
           } else {           
-- 
2.43.0


From b2c93418cd6c42afb37db3f035c92f83eead6339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 33/80] fix: keep quoted constants apart from variables in
 clausification

---
 Builtparser/dbclausify.c | 2 ++
 Parser/dbclausify.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 66d71ad..4c4f332 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -565,6 +565,8 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  if (wg_atomtype(db,frm)!=WG_URITYPE && wg_atomtype(db,frm)!=WG_VARTYPE) return 0;
+  if (wg_atomstr2(db,frm)!=NULL) return 0; // a quoted constant or a distinct symbol
   str=wg_atomstr1(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 66d71ad..4c4f332 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -565,6 +565,8 @@ int wr_freeoccs_invars(glb* g, void* mpool, void* vars, void* frm) {
 
   if (vars==NULL) return 0;
   db=g->db;
+  if (wg_atomtype(db,frm)!=WG_URITYPE && wg_atomtype(db,frm)!=WG_VARTYPE) return 0;
+  if (wg_atomstr2(db,frm)!=NULL) return 0; // a quoted constant or a distinct symbol
   str=wg_atomstr1(db,frm);
   for(boundpart=vars; boundpart!=NULL; boundpart=wg_rest(db,boundpart)) {
     boundvar=wg_first(db,boundpart); 
-- 
2.43.0


From ad14a7e3320800f01a7dd6c3580a5365304cb727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 34/80] fix: do not print a negated disjunction as a clause

---
 Builtparser/dbparse.c | 4 ++++
 Parser/dbparse.c      | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index dfb1eba..1b37b4f 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -890,6 +890,10 @@ void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clausef
     freeoccs=NULL;
     if (wg_islogconnective(db,op)) {
       if (!(wg_islogor(db,op) || wg_islogneg(db,op))) *clauseflag=0;
+      // a negated formula is a literal only if the formula is an atom
+      if (wg_islogneg(db,op) && len>1 && wg_ispair(db,wg_nth(db,frm,1)) &&
+          (wg_ispair(db,wg_first(db,wg_nth(db,frm,1))) ||
+           wg_islogconnective(db,wg_first(db,wg_nth(db,frm,1))))) *clauseflag=0;
       termpart=wg_rest(db,frm);
     } else {
       termpart=wg_rest(db,frm); //frm;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index dfb1eba..1b37b4f 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -890,6 +890,10 @@ void *wr_parse_freeoccs(glb* g, void* mpool, void* vars, void* frm, int* clausef
     freeoccs=NULL;
     if (wg_islogconnective(db,op)) {
       if (!(wg_islogor(db,op) || wg_islogneg(db,op))) *clauseflag=0;
+      // a negated formula is a literal only if the formula is an atom
+      if (wg_islogneg(db,op) && len>1 && wg_ispair(db,wg_nth(db,frm,1)) &&
+          (wg_ispair(db,wg_first(db,wg_nth(db,frm,1))) ||
+           wg_islogconnective(db,wg_first(db,wg_nth(db,frm,1))))) *clauseflag=0;
       termpart=wg_rest(db,frm);
     } else {
       termpart=wg_rest(db,frm); //frm;
-- 
2.43.0


From b128899a0683edec76f32b8349c1e5d41901e074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 35/80] fix: print variables of converted JSON formulas as
 variables

---
 Printer/dbotterprint.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index 5246201..ddbc7e2 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -2188,8 +2188,7 @@ int wg_print_subfrm_json(void* db, void* mpool, void* ptr,int depth,int pflag,
          } else if (WG_URITYPE) {
             p2=wg_atomstr2(db,ptr);
             if (pos && termflag && p2==NULL &&
-                   (isupper(*p) || *p=='?') &&
-                   !wg_list_memberuri(db,boundvars,ptr) ) {                        
+                   (isupper(*p) || *p=='?')) {                        
               // var       
               pos+=snprintf((*buf)+pos,(*len)-pos,"\"?:%s\"",p);
             } else {
-- 
2.43.0


From 6182c8ae802f103dd18a9daad2f6f421f5e062a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:50 +0000
Subject: [PATCH 36/80] fix: convert JSON reals to reals of the text languages

---
 Db/dbmpool.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index 28b8648..a937ecd 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -723,12 +723,23 @@ void* wg_mkatom_double(void* db, void* mpool, double num) {
   char* ptr;
   char* curptr;
   int size=2;
-  char buf[40];
+  char buf[800];
   int len1;
   char* str1;
 
   //printf("\ndouble2c %lf\n",num);  
-  len1=snprintf(buf,38,"%.17g",num)+1;
+  len1=snprintf(buf,38,"%.17g",num);
+  if (strchr(buf,'e')!=NULL) {
+    // the text languages have no exponents
+    len1=snprintf(buf,800,"%.340f",num);
+    while(len1>2 && buf[len1-1]=='0' && buf[len1-2]!='.') len1--;
+    buf[len1]=0;
+  } else if (strchr(buf,'.')==NULL) {
+    // keep it a real
+    strcpy(buf+len1,".0");
+    len1+=2;
+  }
+  len1++;
   str1=buf;
   size=size+len1;
   size++;  
-- 
2.43.0


From 3f6c592355894e58e48e8e0e09706396e3a9323b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:39 +0000
Subject: [PATCH 37/80] fix: report a missing operand as a syntax error

---
 Builtparser/dbotter.tab.c | 308 ++++++++++++++++++--------------------
 Parser/dbotter.y          |   3 +-
 2 files changed, 148 insertions(+), 163 deletions(-)

diff --git a/Builtparser/dbotter.tab.c b/Builtparser/dbotter.tab.c
index 6ac38e7..ec8ae10 100644
--- a/Builtparser/dbotter.tab.c
+++ b/Builtparser/dbotter.tab.c
@@ -492,14 +492,14 @@ union yyalloc
 /* YYFINAL -- State number of the termination state.  */
 #define YYFINAL  47
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   307
+#define YYLAST   237
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  43
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  12
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  59
+#define YYNRULES  58
 /* YYNSTATES -- Number of states.  */
 #define YYNSTATES  104
 
@@ -556,9 +556,9 @@ static const yytype_int16 yyrline[] =
        0,    90,    90,    91,    96,    99,   100,   104,   108,   109,
      114,   115,   116,   117,   118,   119,   126,   133,   134,   135,
      136,   137,   138,   139,   140,   141,   142,   143,   146,   147,
-     150,   155,   156,   167,   185,   197,   215,   226,   237,   248,
-     259,   277,   288,   298,   299,   305,   306,   311,   312,   313,
-     314,   315,   316,   317,   318,   319,   320,   321,   322,   323
+     150,   155,   166,   184,   196,   214,   225,   236,   247,   258,
+     276,   287,   297,   298,   304,   305,   310,   311,   312,   313,
+     314,   315,   316,   317,   318,   319,   320,   321,   322
 };
 #endif
 
@@ -605,17 +605,17 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     102,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,
-     -31,   -31,   -26,   -25,   -31,   -29,   -28,   243,   243,   243,
-     -31,   172,    14,   -31,   137,   -31,   -17,   247,   268,   -31,
-     -31,   -19,   243,   243,   243,   243,    -4,   -31,    -4,   -31,
-      58,   268,   -15,   -31,   -10,   -11,   279,   -31,   -31,   -31,
-     243,   243,   243,   243,   243,   243,   243,   243,   243,   243,
-     243,   243,   243,   243,   243,   208,   -13,   -12,    -3,    -2,
-     243,   -31,   -31,   243,   -31,   247,   247,    -4,   247,   247,
-     247,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,
+     173,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,
+     -31,   -31,   -26,   -25,   -31,   -29,   -28,   173,   173,   173,
+     -31,   102,    14,   -31,   173,   -31,   -17,   177,   198,   -31,
+     -31,   -19,   173,   173,   173,   173,    -4,   -31,    -4,   -31,
+      58,   198,   -15,   -31,   -10,   -11,   209,   -31,   -31,   -31,
+     173,   173,   173,   173,   173,   173,   173,   173,   173,   173,
+     173,   173,   173,   173,   173,   138,   -13,   -12,    -3,    -2,
+     173,   -31,   -31,   173,   -31,   177,   177,    -4,   177,   177,
+     177,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,   -31,
      -31,   -31,     1,   -31,   -31,    -1,     2,   -31,   -31,   -31,
-     243,   243,   -31,   -31
+     173,   173,   -31,   -31
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -623,17 +623,17 @@ static const yytype_int16 yypact[] =
    means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-      31,    47,    48,    49,    50,    51,    56,    53,    54,    55,
-      57,    52,     0,     0,    59,     0,     0,    31,    31,    31,
-      58,    31,     0,     5,    31,     4,     0,    30,     8,    27,
-       9,    10,    31,    31,    31,    31,    22,    43,    23,    44,
-      30,    45,     0,    26,    30,     0,     0,     1,     6,     7,
-      31,    31,    31,    31,    31,    31,    31,    31,    31,    31,
-      31,    31,    31,    31,    31,    31,     0,     0,     0,     0,
-      31,    13,    24,    31,    25,    16,    17,    19,    18,    20,
-      21,    36,    39,    40,    37,    35,    33,    38,    32,    34,
-      46,    11,     0,    15,    14,     0,     0,    34,    29,    12,
-      31,    31,    41,    42
+       2,    46,    47,    48,    49,    50,    55,    52,    53,    54,
+      56,    51,     0,     0,    58,     0,     0,     0,     0,     0,
+      57,     0,     0,     5,     3,     4,     0,    30,     8,    27,
+       9,    10,     0,     0,     0,     0,    22,    42,    23,    43,
+      30,    44,     0,    26,    30,     0,     0,     1,     6,     7,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,     0,     0,     0,     0,
+       0,    13,    24,     0,    25,    16,    17,    19,    18,    20,
+      21,    35,    38,    39,    36,    34,    32,    37,    31,    33,
+      45,    11,     0,    15,    14,     0,     0,    33,    29,    12,
+       0,     0,    40,    41
 };
 
 /* YYPGOTO[NTERM-NUM].  */
@@ -665,14 +665,7 @@ static const yytype_int8 yytable[] =
       97,     0,     0,     0,    50,    51,     0,     0,     0,     0,
        0,     0,     0,    75,    76,    77,    78,    79,    80,    52,
        0,     0,     0,    71,    53,    54,    55,     0,    44,     0,
-     102,   103,    -2,     0,     0,     0,    44,     1,     2,     3,
-       4,     5,     6,     7,     8,     9,    10,    11,    12,    13,
-       0,     0,     0,     0,     0,     0,     0,     0,    14,     0,
-       0,    15,    16,    17,    18,     0,    19,    -3,     0,     0,
-      20,    21,     1,     2,     3,     4,     5,     6,     7,     8,
-       9,    10,    11,    12,    13,     0,     0,     0,     0,     0,
-       0,     0,     0,    14,     0,     0,    15,    16,    17,    18,
-       0,    19,     0,     0,     0,    20,    21,     1,     2,     3,
+     102,   103,     0,     0,     0,     0,    44,     1,     2,     3,
        4,     5,     6,     7,     8,     9,    10,    11,    12,    13,
        0,     0,     0,     0,     0,     0,     0,     0,    14,     0,
        0,    15,    16,    17,    18,     0,    19,     0,     0,     0,
@@ -700,14 +693,7 @@ static const yytype_int8 yycheck[] =
       70,    -1,    -1,    -1,    16,    17,    -1,    -1,    -1,    -1,
       -1,    -1,    -1,    50,    51,    52,    53,    54,    55,    31,
       -1,    -1,    -1,    35,    36,    37,    38,    -1,    65,    -1,
-     100,   101,     0,    -1,    -1,    -1,    73,     5,     6,     7,
-       8,     9,    10,    11,    12,    13,    14,    15,    16,    17,
-      -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
-      -1,    29,    30,    31,    32,    -1,    34,     0,    -1,    -1,
-      38,    39,     5,     6,     7,     8,     9,    10,    11,    12,
-      13,    14,    15,    16,    17,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    -1,    26,    -1,    -1,    29,    30,    31,    32,
-      -1,    34,    -1,    -1,    -1,    38,    39,     5,     6,     7,
+     100,   101,    -1,    -1,    -1,    -1,    73,     5,     6,     7,
        8,     9,    10,    11,    12,    13,    14,    15,    16,    17,
       -1,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,
       -1,    29,    30,    31,    32,    -1,    34,    -1,    -1,    -1,
@@ -747,8 +733,8 @@ static const yytype_int8 yyr1[] =
       49,    49,    49,    49,    49,    49,    49,    49,    49,    49,
       49,    49,    49,    49,    49,    49,    49,    49,    50,    50,
       51,    52,    52,    52,    52,    52,    52,    52,    52,    52,
-      52,    52,    52,    52,    52,    53,    53,    54,    54,    54,
-      54,    54,    54,    54,    54,    54,    54,    54,    54,    54
+      52,    52,    52,    52,    53,    53,    54,    54,    54,    54,
+      54,    54,    54,    54,    54,    54,    54,    54,    54
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
@@ -757,9 +743,9 @@ static const yytype_int8 yyr2[] =
        0,     2,     0,     1,     1,     1,     2,     2,     1,     1,
        1,     3,     4,     3,     4,     4,     3,     3,     3,     3,
        3,     3,     2,     2,     3,     3,     2,     1,     1,     3,
-       1,     0,     3,     3,     3,     3,     3,     3,     3,     3,
-       3,     6,     6,     2,     2,     1,     3,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     1,     1,     1
+       1,     3,     3,     3,     3,     3,     3,     3,     3,     3,
+       6,     6,     2,     2,     1,     3,     1,     1,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     1
 };
 
 
@@ -1507,73 +1493,73 @@ yyreduce:
                                { 
 			       (parm->result)=yyvsp[0];             
 			     }
-#line 1511 "dbotter.tab.c"
+#line 1497 "dbotter.tab.c"
     break;
 
   case 4: /* sentence: assertion  */
 #line 96 "dbotter.y"
                              { yyval = yyvsp[0]; }
-#line 1517 "dbotter.tab.c"
+#line 1503 "dbotter.tab.c"
     break;
 
   case 5: /* sentencelist: sentence  */
 #line 99 "dbotter.y"
                                     { yyval = MKWGPAIR(PP,yyvsp[0],MKWGNIL); }
-#line 1523 "dbotter.tab.c"
+#line 1509 "dbotter.tab.c"
     break;
 
   case 6: /* sentencelist: sentencelist sentence  */
 #line 100 "dbotter.y"
                                     { yyval = MKWGPAIR(PP,yyvsp[0],yyvsp[-1]); }
-#line 1529 "dbotter.tab.c"
+#line 1515 "dbotter.tab.c"
     break;
 
   case 7: /* assertion: primsentence '.'  */
 #line 104 "dbotter.y"
                                  { yyval = yyvsp[-1]; }
-#line 1535 "dbotter.tab.c"
+#line 1521 "dbotter.tab.c"
     break;
 
   case 8: /* primsentence: log  */
 #line 108 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1541 "dbotter.tab.c"
+#line 1527 "dbotter.tab.c"
     break;
 
   case 9: /* primsentence: loglist  */
 #line 109 "dbotter.y"
                                  { yyval = yyvsp[0]; }
-#line 1547 "dbotter.tab.c"
+#line 1533 "dbotter.tab.c"
     break;
 
   case 10: /* term: prim  */
 #line 114 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1553 "dbotter.tab.c"
+#line 1539 "dbotter.tab.c"
     break;
 
   case 11: /* term: prim '(' ')'  */
 #line 115 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,yyvsp[-2],MKWGNIL); }
-#line 1559 "dbotter.tab.c"
+#line 1545 "dbotter.tab.c"
     break;
 
   case 12: /* term: prim '(' termlist ')'  */
 #line 116 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,yyvsp[-3],yyvsp[-1]); }
-#line 1565 "dbotter.tab.c"
+#line 1551 "dbotter.tab.c"
     break;
 
   case 13: /* term: '(' term ')'  */
 #line 117 "dbotter.y"
                                   { yyval = yyvsp[-1]; }
-#line 1571 "dbotter.tab.c"
+#line 1557 "dbotter.tab.c"
     break;
 
   case 14: /* term: EQ '(' termlist ')'  */
 #line 118 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"="),yyvsp[-1]); }
-#line 1577 "dbotter.tab.c"
+#line 1563 "dbotter.tab.c"
     break;
 
   case 15: /* term: NEQ '(' termlist ')'  */
@@ -1585,7 +1571,7 @@ yyreduce:
                                                PP,
                                                MKWGPAIR(PP,MKWGCONST(PP,"="),yyvsp[-1]),
                                                MKWGNIL)); }
-#line 1589 "dbotter.tab.c"
+#line 1575 "dbotter.tab.c"
     break;
 
   case 16: /* term: term NEQ term  */
@@ -1597,95 +1583,95 @@ yyreduce:
                                                PP,
                                                MKWGPAIR(PP,MKWGCONST(PP,"="),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))),
                                                MKWGNIL)); }
-#line 1601 "dbotter.tab.c"
+#line 1587 "dbotter.tab.c"
     break;
 
   case 17: /* term: term EQ term  */
 #line 133 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"="),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1607 "dbotter.tab.c"
+#line 1593 "dbotter.tab.c"
     break;
 
   case 18: /* term: term '+' term  */
 #line 134 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"+"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1613 "dbotter.tab.c"
+#line 1599 "dbotter.tab.c"
     break;
 
   case 19: /* term: term '-' term  */
 #line 135 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"-"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1619 "dbotter.tab.c"
+#line 1605 "dbotter.tab.c"
     break;
 
   case 20: /* term: term '*' term  */
 #line 136 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"*"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1625 "dbotter.tab.c"
+#line 1611 "dbotter.tab.c"
     break;
 
   case 21: /* term: term '/' term  */
 #line 137 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"/"),MKWGPAIR(PP,yyvsp[-2],MKWGPAIR(PP,yyvsp[0],MKWGNIL))); }
-#line 1631 "dbotter.tab.c"
+#line 1617 "dbotter.tab.c"
     break;
 
   case 22: /* term: '-' term  */
 #line 138 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1637 "dbotter.tab.c"
+#line 1623 "dbotter.tab.c"
     break;
 
   case 23: /* term: '~' term  */
 #line 139 "dbotter.y"
                                   { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1643 "dbotter.tab.c"
+#line 1629 "dbotter.tab.c"
     break;
 
   case 24: /* term: '(' loglist ')'  */
 #line 140 "dbotter.y"
                                   { yyval = yyvsp[-1]; }
-#line 1649 "dbotter.tab.c"
+#line 1635 "dbotter.tab.c"
     break;
 
   case 25: /* term: '[' termlist ']'  */
 #line 141 "dbotter.y"
                                   { yyval = MKWGLIST(PP,yyvsp[-1]); }
-#line 1655 "dbotter.tab.c"
+#line 1641 "dbotter.tab.c"
     break;
 
   case 26: /* term: '[' ']'  */
 #line 142 "dbotter.y"
                                   { yyval = MKWGURI(PP,"$nil"); }
-#line 1661 "dbotter.tab.c"
+#line 1647 "dbotter.tab.c"
     break;
 
   case 27: /* term: connlog  */
 #line 143 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1667 "dbotter.tab.c"
+#line 1653 "dbotter.tab.c"
     break;
 
   case 28: /* termlist: term  */
 #line 146 "dbotter.y"
                                  { yyval = MKWGPAIR(PP,yyvsp[0],MKWGNIL); }
-#line 1673 "dbotter.tab.c"
+#line 1659 "dbotter.tab.c"
     break;
 
   case 29: /* termlist: term ',' termlist  */
 #line 147 "dbotter.y"
                               { yyval = MKWGPAIR(PP,yyvsp[-2],yyvsp[0]); }
-#line 1679 "dbotter.tab.c"
+#line 1665 "dbotter.tab.c"
     break;
 
   case 30: /* log: term  */
 #line 150 "dbotter.y"
                                   { yyval = yyvsp[0]; }
-#line 1685 "dbotter.tab.c"
+#line 1671 "dbotter.tab.c"
     break;
 
-  case 32: /* connlog: log '&' log  */
-#line 156 "dbotter.y"
+  case 31: /* connlog: log '&' log  */
+#line 155 "dbotter.y"
                                       { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"and"),
@@ -1696,11 +1682,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1700 "dbotter.tab.c"
+#line 1686 "dbotter.tab.c"
     break;
 
-  case 33: /* connlog: log NAND log  */
-#line 167 "dbotter.y"
+  case 32: /* connlog: log NAND log  */
+#line 166 "dbotter.y"
                                        { yyval = 
                                       MKWGPAIR(
                                         PP,
@@ -1718,11 +1704,11 @@ yyreduce:
                                                 yyvsp[0],
                                                 MKWGNIL))),
                                           MKWGNIL)); }
-#line 1722 "dbotter.tab.c"
+#line 1708 "dbotter.tab.c"
     break;
 
-  case 34: /* connlog: log '|' log  */
-#line 185 "dbotter.y"
+  case 33: /* connlog: log '|' log  */
+#line 184 "dbotter.y"
                                       { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"or"),
@@ -1733,11 +1719,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1737 "dbotter.tab.c"
+#line 1723 "dbotter.tab.c"
     break;
 
-  case 35: /* connlog: log NOR log  */
-#line 197 "dbotter.y"
+  case 34: /* connlog: log NOR log  */
+#line 196 "dbotter.y"
                                       { yyval = 
                                       MKWGPAIR(
                                         PP,
@@ -1755,11 +1741,11 @@ yyreduce:
                                                 yyvsp[0],
                                                 MKWGNIL))),
                                           MKWGNIL)); }
-#line 1759 "dbotter.tab.c"
+#line 1745 "dbotter.tab.c"
     break;
 
-  case 36: /* connlog: log IMP log  */
-#line 215 "dbotter.y"
+  case 35: /* connlog: log IMP log  */
+#line 214 "dbotter.y"
                                       { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"imp"),
@@ -1770,11 +1756,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1774 "dbotter.tab.c"
+#line 1760 "dbotter.tab.c"
     break;
 
-  case 37: /* connlog: log RIMP log  */
-#line 226 "dbotter.y"
+  case 36: /* connlog: log RIMP log  */
+#line 225 "dbotter.y"
                                         { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"imp"),
@@ -1785,11 +1771,11 @@ yyreduce:
                                               PP,
                                               yyvsp[-2],
                                               MKWGNIL))); }
-#line 1789 "dbotter.tab.c"
+#line 1775 "dbotter.tab.c"
     break;
 
-  case 38: /* connlog: log AT log  */
-#line 237 "dbotter.y"
+  case 37: /* connlog: log AT log  */
+#line 236 "dbotter.y"
                                     { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"@"),
@@ -1800,11 +1786,11 @@ yyreduce:
                                               PP,
                                               yyvsp[-2],
                                               MKWGNIL))); }
-#line 1804 "dbotter.tab.c"
+#line 1790 "dbotter.tab.c"
     break;
 
-  case 39: /* connlog: log EQV log  */
-#line 248 "dbotter.y"
+  case 38: /* connlog: log EQV log  */
+#line 247 "dbotter.y"
                                        { yyval = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"eqv"),
@@ -1815,11 +1801,11 @@ yyreduce:
                                               PP,
                                               yyvsp[0],
                                               MKWGNIL))); }
-#line 1819 "dbotter.tab.c"
+#line 1805 "dbotter.tab.c"
     break;
 
-  case 40: /* connlog: log NEQV log  */
-#line 259 "dbotter.y"
+  case 39: /* connlog: log NEQV log  */
+#line 258 "dbotter.y"
                                         { yyval =
                                       MKWGPAIR(
                                         PP,
@@ -1837,11 +1823,11 @@ yyreduce:
                                                 yyvsp[0],
                                                 MKWGNIL))),
                                           MKWGNIL) ); }
-#line 1841 "dbotter.tab.c"
+#line 1827 "dbotter.tab.c"
     break;
 
-  case 41: /* connlog: '?' '[' termlist ']' ':' log  */
-#line 277 "dbotter.y"
+  case 40: /* connlog: '?' '[' termlist ']' ':' log  */
+#line 276 "dbotter.y"
                                                     { yyval = MKWGPAIR(
                                                    PP,
                                                    MKWGCONST(PP,"exists"),
@@ -1852,11 +1838,11 @@ yyreduce:
                                                        PP,
                                                        yyvsp[0],
                                                        MKWGNIL))); }
-#line 1856 "dbotter.tab.c"
+#line 1842 "dbotter.tab.c"
     break;
 
-  case 42: /* connlog: '!' '[' termlist ']' ':' log  */
-#line 288 "dbotter.y"
+  case 41: /* connlog: '!' '[' termlist ']' ':' log  */
+#line 287 "dbotter.y"
                                                    { yyval = MKWGPAIR(
                                                    PP,
                                                    MKWGCONST(PP,"all"),
@@ -1867,113 +1853,113 @@ yyreduce:
                                                        PP,
                                                        yyvsp[0],
                                                        MKWGNIL))); }
-#line 1871 "dbotter.tab.c"
+#line 1857 "dbotter.tab.c"
     break;
 
-  case 43: /* connlog: '-' log  */
-#line 298 "dbotter.y"
+  case 42: /* connlog: '-' log  */
+#line 297 "dbotter.y"
                                           { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1877 "dbotter.tab.c"
+#line 1863 "dbotter.tab.c"
     break;
 
-  case 44: /* connlog: '~' log  */
-#line 299 "dbotter.y"
+  case 43: /* connlog: '~' log  */
+#line 298 "dbotter.y"
                                           { yyval = MKWGPAIR(PP,MKWGCONST(PP,"not"),MKWGPAIR(PP,yyvsp[0],MKWGNIL)); }
-#line 1883 "dbotter.tab.c"
+#line 1869 "dbotter.tab.c"
     break;
 
-  case 45: /* loglist: log  */
-#line 305 "dbotter.y"
+  case 44: /* loglist: log  */
+#line 304 "dbotter.y"
                                  { yyval = MKWGPAIR(PP,yyvsp[0],MKWGNIL); }
-#line 1889 "dbotter.tab.c"
+#line 1875 "dbotter.tab.c"
     break;
 
-  case 46: /* loglist: log '|' loglist  */
-#line 306 "dbotter.y"
+  case 45: /* loglist: log '|' loglist  */
+#line 305 "dbotter.y"
                                  { yyval = MKWGPAIR(PP,yyvsp[-2],yyvsp[0]); }
-#line 1895 "dbotter.tab.c"
+#line 1881 "dbotter.tab.c"
     break;
 
-  case 47: /* prim: TINT  */
-#line 311 "dbotter.y"
+  case 46: /* prim: TINT  */
+#line 310 "dbotter.y"
                            { yyval = MKWGINT(PP,yyvsp[0]); }
-#line 1901 "dbotter.tab.c"
+#line 1887 "dbotter.tab.c"
     break;
 
-  case 48: /* prim: TFLOAT  */
-#line 312 "dbotter.y"
+  case 47: /* prim: TFLOAT  */
+#line 311 "dbotter.y"
                            { yyval = MKWGFLOAT(PP,yyvsp[0]); }
-#line 1907 "dbotter.tab.c"
+#line 1893 "dbotter.tab.c"
     break;
 
-  case 49: /* prim: TDATE  */
-#line 313 "dbotter.y"
+  case 48: /* prim: TDATE  */
+#line 312 "dbotter.y"
                            { yyval = MKWGDATE(PP,yyvsp[0]); }
-#line 1913 "dbotter.tab.c"
+#line 1899 "dbotter.tab.c"
     break;
 
-  case 50: /* prim: TIME  */
-#line 314 "dbotter.y"
+  case 49: /* prim: TIME  */
+#line 313 "dbotter.y"
                                 { yyval = MKWGTIME(PP,yyvsp[0]); }
-#line 1919 "dbotter.tab.c"
+#line 1905 "dbotter.tab.c"
     break;
 
-  case 51: /* prim: STRING  */
-#line 315 "dbotter.y"
+  case 50: /* prim: STRING  */
+#line 314 "dbotter.y"
                           { yyval = MKWGSTRING(PP,yyvsp[0]); }
-#line 1925 "dbotter.tab.c"
+#line 1911 "dbotter.tab.c"
     break;
 
-  case 52: /* prim: VAR  */
-#line 316 "dbotter.y"
+  case 51: /* prim: VAR  */
+#line 315 "dbotter.y"
                                 { yyval = MKWGVAR(PP,yyvsp[0]); }
-#line 1931 "dbotter.tab.c"
+#line 1917 "dbotter.tab.c"
     break;
 
-  case 53: /* prim: URI  */
-#line 317 "dbotter.y"
+  case 52: /* prim: URI  */
+#line 316 "dbotter.y"
                             { yyval = MKWGURI(PP,yyvsp[0]); }
-#line 1937 "dbotter.tab.c"
+#line 1923 "dbotter.tab.c"
     break;
 
-  case 54: /* prim: CONSTURI  */
-#line 318 "dbotter.y"
+  case 53: /* prim: CONSTURI  */
+#line 317 "dbotter.y"
                               { yyval = MKWGCONSTURI(PP,yyvsp[0]); }
-#line 1943 "dbotter.tab.c"
+#line 1929 "dbotter.tab.c"
     break;
 
-  case 55: /* prim: UNIQUEURI  */
-#line 319 "dbotter.y"
+  case 54: /* prim: UNIQUEURI  */
+#line 318 "dbotter.y"
                               { yyval = MKWGUNIQUEURI(PP,yyvsp[0]); }
-#line 1949 "dbotter.tab.c"
+#line 1935 "dbotter.tab.c"
     break;
 
-  case 56: /* prim: ID  */
-#line 320 "dbotter.y"
+  case 55: /* prim: ID  */
+#line 319 "dbotter.y"
                             { yyval = MKWGCONST(PP,yyvsp[0]); }
-#line 1955 "dbotter.tab.c"
+#line 1941 "dbotter.tab.c"
     break;
 
-  case 57: /* prim: TCONST  */
-#line 321 "dbotter.y"
+  case 56: /* prim: TCONST  */
+#line 320 "dbotter.y"
                                    { yyval = MKWGCONST(PP,yyvsp[0]); }
-#line 1961 "dbotter.tab.c"
+#line 1947 "dbotter.tab.c"
     break;
 
-  case 58: /* prim: '/'  */
-#line 322 "dbotter.y"
+  case 57: /* prim: '/'  */
+#line 321 "dbotter.y"
                           { yyval = MKWGURI(PP,"/"); }
-#line 1967 "dbotter.tab.c"
+#line 1953 "dbotter.tab.c"
     break;
 
-  case 59: /* prim: EMPTYSTRING  */
-#line 323 "dbotter.y"
+  case 58: /* prim: EMPTYSTRING  */
+#line 322 "dbotter.y"
                                { yyval = MKWGCONST(PP,yyvsp[0]); }
-#line 1973 "dbotter.tab.c"
+#line 1959 "dbotter.tab.c"
     break;
 
 
-#line 1977 "dbotter.tab.c"
+#line 1963 "dbotter.tab.c"
 
       default: break;
     }
@@ -2197,6 +2183,6 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 328 "dbotter.y"
+#line 327 "dbotter.y"
 
 
diff --git a/Parser/dbotter.y b/Parser/dbotter.y
index f6d81b8..bcb74d2 100644
--- a/Parser/dbotter.y
+++ b/Parser/dbotter.y
@@ -152,8 +152,7 @@ log:       term                   { $$ = $1; }
 ;
 
 
-connlog:           
-         | log '&' log    %prec '&'   { $$ = MKWGPAIR(
+connlog:   log '&' log    %prec '&'   { $$ = MKWGPAIR(
                                           PP,
                                           MKWGCONST(PP,"and"),
                                           MKWGPAIR(
-- 
2.43.0


From 855b1b88415ce3cdd30e085d1abf93476756583d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:44 +0000
Subject: [PATCH 38/80] fix: end each TPTP proof with its own SZS output end

---
 Reasoner/history.c | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 2cb8aa0..ec93b7f 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1508,6 +1508,17 @@ int wr_show_result(glb* g, gint history) {
       }  
     } else {
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");
+#ifdef TPTP
+      if (g->print_tptp) {
+        if (!wr_str_guarantee_space(g,&buf,&blen,bpos+strlen(g->filename)+100)) {
+          if (buf) wr_free(g,buf);
+          if (mpool) wg_free_mpool(db,mpool);
+          return -1;
+        }
+        bpos+=snprintf(buf+bpos,blen-bpos,
+          "\n%% SZS output end CNFRefutation for %s\n",g->filename);
+      }
+#endif
     }
 
     if (mpool) wg_free_mpool(db,mpool); 
@@ -1519,14 +1530,8 @@ int wr_show_result(glb* g, gint history) {
     }  
   } else {
 #ifdef TPTP      
-    if (!(g->print_tptp)) {
-      //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
-    } else {
-      bpos+=snprintf(buf+bpos,blen-bpos,
-        "\n%% SZS output end CNFRefutation for %s\n",g->filename);
-    }    
-#endif        
     //bpos+=snprintf(buf+bpos,blen-bpos,"\n");
+#endif        
   }  
   if (g->outfilename) {
     outfile=fopen(g->outfilename, "w");
-- 
2.43.0


From 8384b78a0931dee254051d3c00c159d5b412775e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:28 +0000
Subject: [PATCH 39/80] fix: keep long file names inside their buffers

---
 Reasoner/glb.h     |  2 +-
 Reasoner/history.c | 12 ++++++++++--
 Reasoner/rmain.c   |  6 +++---
 3 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/Reasoner/glb.h b/Reasoner/glb.h
index c4651e3..f660031 100644
--- a/Reasoner/glb.h
+++ b/Reasoner/glb.h
@@ -128,7 +128,7 @@
 #define DEFAULT_PROP_FILE_NAME "/tmp/gkc_prop_inXXXXXX"
 #define DEFAULT_PROP_SOLVER_OUTFILE_NAME "/tmp/gkc_prop_outXXXXXX"
 
-#define MAX_FILENAME_LEN 80
+#define MAX_FILENAME_LEN 1000
 
 #define MAX_GUIDETEXT_LEN 500
 
diff --git a/Reasoner/history.c b/Reasoner/history.c
index ec93b7f..a15eec1 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1308,7 +1308,10 @@ int wr_show_result(glb* g, gint history) {
   if (buf==NULL) {   
     return -1;
   }   
-  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+  // the result lines contain the file name and the strategy text
+  if (!wr_str_guarantee_space(g,&buf,&blen,bpos+1000
+        +((g->filename) ? 2*strlen(g->filename) : 0)
+        +((g->guidetext) ? strlen(g->guidetext) : 0))) {
     if (buf) wr_free(g,buf);
     return -1;
   }  
@@ -1438,6 +1441,10 @@ int wr_show_result(glb* g, gint history) {
       if (buf) wr_free(g,buf);
       return -1;
     }      
+    if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) {
+      if (buf) wr_free(g,buf);
+      return -1;
+    }
     if (!(g->print_json)) {
       bpos+=snprintf(buf+bpos,blen-bpos,"\n");
     }  
@@ -1456,7 +1463,8 @@ int wr_show_result(glb* g, gint history) {
     }  
     assoc=wg_reverselist(db,mpool,assoc); 
     if (!(g->print_json)) {
-      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100)) return -1;
+      if (!wr_str_guarantee_space(g,&buf,&blen,bpos+100
+            +((g->filename) ? strlen(g->filename) : 0))) return -1;
 #ifdef TPTP  
       if (!(g->print_tptp)) {
         bpos+=snprintf(buf+bpos,blen-bpos,"proof:");
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index eb840e9..e9f3e7b 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -609,7 +609,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       return -1; 
     }   
     if (filename) {
-      strncpy((g->filename),filename,MAX_FILENAME_LEN);
+      strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
     } else {
       strcpy((g->filename),"input_text");
     }  
@@ -1085,9 +1085,9 @@ int wg_run_converter(void *db, char* inputname, char* stratfile, int informat,
     return -1; 
   }   
   if (filename)
-    strncpy((g->filename),filename,MAX_FILENAME_LEN);
+    strncpy((g->filename),filename,MAX_FILENAME_LEN-1);
   else
-    strncpy((g->filename),"input_text",MAX_FILENAME_LEN); 
+    strncpy((g->filename),"input_text",MAX_FILENAME_LEN-1); 
   if (outfilename) (g->outfilename)=outfilename;    
   (g->print_fof_conversion_proof)=0;
   (g->store_fof_skolem_steps)=0;   
-- 
2.43.0


From abb187c2cb607360424203e03b55fb75f1353d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:26:22 +0000
Subject: [PATCH 40/80] fix: print syntax errors as well formed JSON

---
 Builtparser/dbotter.yy.c | 7 ++++++-
 Parser/dbotter.l         | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbotter.yy.c b/Builtparser/dbotter.yy.c
index c9ef33a..49aefd4 100644
--- a/Builtparser/dbotter.yy.c
+++ b/Builtparser/dbotter.yy.c
@@ -2820,19 +2820,24 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
     }
   }
   */
+  // the texts become parts of a json string
   for(i=0;linebuf[i]!=0;i++) {
     if (linebuf[i]=='"') linebuf[i]='\'';
+    else if (linebuf[i]=='\\') linebuf[i]='/';
+    else if ((unsigned char)(linebuf[i])<' ') linebuf[i]=' ';
   }
   s=yyget_text(scanner);
   if (s!=NULL) {
     for(i=0;s[i]!=0;i++) {
       if (s[i]=='"') s[i]='\'';
+      else if (s[i]=='\\') s[i]='/';
+      else if ((unsigned char)(s[i])<' ') s[i]=' ';
     }
   }
   if (parm->errmsg) return;
   parm->errmsg=malloc(2000);
   if (1) { //(parm->json) {
-    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
+    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %.400s place '%.400s' in line %d:\\n%.900s\"}", 
           msg,parm->filename,s,yyget_lineno(scanner),linebuf);
   } else {
     snprintf(parm->errmsg,2000,"error: %s: file %s place '%s' in line %d:\n%s", 
diff --git a/Parser/dbotter.l b/Parser/dbotter.l
index 38e62bb..2ca3b9c 100644
--- a/Parser/dbotter.l
+++ b/Parser/dbotter.l
@@ -380,19 +380,24 @@ void wg_yyottererror (parse_parm* parm, void* scanner, const char* msg) {
     }
   }
   */
+  // the texts become parts of a json string
   for(i=0;linebuf[i]!=0;i++) {
     if (linebuf[i]=='"') linebuf[i]='\'';
+    else if (linebuf[i]=='\\') linebuf[i]='/';
+    else if ((unsigned char)(linebuf[i])<' ') linebuf[i]=' ';
   }
   s=yyget_text(scanner);
   if (s!=NULL) {
     for(i=0;s[i]!=0;i++) {
       if (s[i]=='"') s[i]='\'';
+      else if (s[i]=='\\') s[i]='/';
+      else if ((unsigned char)(s[i])<' ') s[i]=' ';
     }
   }
   if (parm->errmsg) return;
   parm->errmsg=malloc(2000);
   if (1) { //(parm->json) {
-    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %s place '%s' in line %d:\n%s\"}", 
+    snprintf(parm->errmsg,2000,"{\"error\": \"%s: file %.400s place '%.400s' in line %d:\\n%.900s\"}", 
           msg,parm->filename,s,yyget_lineno(scanner),linebuf);
   } else {
     snprintf(parm->errmsg,2000,"error: %s: file %s place '%s' in line %d:\n%s", 
-- 
2.43.0


From ae44c4465e1ed5478d93c6609406934ec6d94264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 41/80] fix: report only the error when the strategy is not
 usable

---
 Main/gkc.c       | 2 ++
 Reasoner/rmain.c | 6 +++---
 Reasoner/rmain.h | 3 +++
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index 6a10731..b228a48 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -425,6 +425,7 @@ int gkc_main(int argc, char **argv) {
       err = wg_run_converter(shmptr,inputname,stratfile,informat,NULL,NULL);
     } else {      
       err = wg_run_reasoner(shmptr,inputname,stratfile,informat,NULL,strattext);
+      if (err==BAD_STRATEGY_ERR) return 1; // error already printed
       if (err) {
         worker_exit(main_pid);
         if (printlevel>11) printf("\n\n");
@@ -713,6 +714,7 @@ int gkc_main(int argc, char **argv) {
       //err = wg_run_converter(shmptrlocal,inputname,stratfile,informat,NULL,NULL);
     } else {
       err = wg_run_reasoner(shmptrlocal,inputname,stratfile,informat,NULL,strattext);
+      if (err==BAD_STRATEGY_ERR) return 1; // error already printed
       if (err) {
         worker_exit(main_pid);
         if (printlevel>11) printf("\n\n");
diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index e9f3e7b..05afe47 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -170,13 +170,13 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
   }
   if (guide==NULL && givenguide) {
     if (guidebuf!=NULL) sys_free(guidebuf);
-    return -1;
+    return BAD_STRATEGY_ERR;
   }
   if (guide && cJSON_IsArray(guide)) {
     wr_errprint("top-level strategy must be an object; put run objects in a runs array");
     if (guidebuf!=NULL) sys_free(guidebuf);
     cJSON_Delete(guide);
-    return -1;
+    return BAD_STRATEGY_ERR;
   }
   filename=inputname;
 #ifdef SHOWTIME
@@ -751,7 +751,7 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
       continue;
     } else if (!clause_count) {
       // no clauses found
-      wr_printf("\nNo clauses found.\n");
+      if (!(g->print_json)) wr_printf("\nNo clauses found.\n");
       wr_glb_free(g);
       if (analyze_g) analyze_g=wr_free_analyze_g(analyze_g);
       break;
diff --git a/Reasoner/rmain.h b/Reasoner/rmain.h
index cfad139..eefd8c3 100644
--- a/Reasoner/rmain.h
+++ b/Reasoner/rmain.h
@@ -39,6 +39,9 @@
 void sig_usr(int signo, siginfo_t *sinfo, void *context);
 */
 
+// wg_run_reasoner result: strategy is not usable, the error is already printed
+#define BAD_STRATEGY_ERR -10
+
 int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,  
                     char* outfilename, char* guidestr);
 int wg_run_converter(void *db, char* inputname, char* stratfile, int informat, 
-- 
2.43.0


From e448eec53fa8313b2a6b7306004f568e78f802df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:32:29 +0000
Subject: [PATCH 42/80] fix: keep warnings and strategy errors out of JSON
 output

---
 Reasoner/guide.c         | 2 ++
 Reasoner/printerrutils.c | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/Reasoner/guide.c b/Reasoner/guide.c
index e368329..a7ca131 100644
--- a/Reasoner/guide.c
+++ b/Reasoner/guide.c
@@ -138,6 +138,8 @@ cJSON* wr_parse_guide_str(char* buf) {
     if (errorptr!=NULL) {
       for(i=0;errorptr[i]!=0;i++) {
         if (errorptr[i]=='"') errorptr[i]='\'';
+        else if (errorptr[i]=='\\') errorptr[i]='/';
+        else if ((unsigned char)(errorptr[i])<' ') errorptr[i]=' ';
       }
     }  
     if (errorptr!=NULL) {      
diff --git a/Reasoner/printerrutils.c b/Reasoner/printerrutils.c
index 0a9feeb..cfca6d8 100644
--- a/Reasoner/printerrutils.c
+++ b/Reasoner/printerrutils.c
@@ -63,7 +63,7 @@ extern "C" {
 
 void* wr_warn(glb* g, char* errstr) {
 #ifdef PRINTERR  
-  if (g->print_flag) printf("Warning: %s.\n",errstr);
+  if (g->print_flag && !(g->print_json)) printf("Warning: %s.\n",errstr);
 #endif  
   return NULL;
 }  
@@ -74,7 +74,7 @@ void* wr_warn(glb* g, char* errstr) {
 
 void* wr_warn2(glb* g, char* errstr1, char* errstr2) {
 #ifdef PRINTERR   
-  if (g->print_flag) printf("Warning: %s %s.\n",errstr1,errstr2);  
+  if (g->print_flag && !(g->print_json)) printf("Warning: %s %s.\n",errstr1,errstr2);  
 #endif  
   return NULL;
 }  
-- 
2.43.0


From 6280b432d9f56e05a591f94f10395389b169aef3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:43 +0000
Subject: [PATCH 43/80] fix: read annotated TPTP formulas as formulas

---
 Builtparser/dbparse.c | 10 ++++++++--
 Parser/dbparse.c      | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 1b37b4f..647a2ad 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -667,22 +667,28 @@ void* wr_preprocess_clauselist
 // ((u:cnf u:clause_2 u:axiom (((u:r2least u:X1) (a:not (u:c u:X1))))))
 
 int wr_is_tptp_cnf_clause(void* db, void* cl) {
+  int len;
   void* fun;
 
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"cnf")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;
+  // the source and useful info annotations may follow the formula
+  len=wg_list_len(db,cl);
+  if (len<4 || len>6) return 0;
   return 1;
 }
 
 int wr_is_tptp_fof_clause(void* db, void* cl) {
+  int len;
   void* fun;
 
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"fof")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;  
+  // the source and useful info annotations may follow the formula
+  len=wg_list_len(db,cl);
+  if (len<4 || len>6) return 0;
   return 1;
 }
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 1b37b4f..647a2ad 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -667,22 +667,28 @@ void* wr_preprocess_clauselist
 // ((u:cnf u:clause_2 u:axiom (((u:r2least u:X1) (a:not (u:c u:X1))))))
 
 int wr_is_tptp_cnf_clause(void* db, void* cl) {
+  int len;
   void* fun;
 
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"cnf")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;
+  // the source and useful info annotations may follow the formula
+  len=wg_list_len(db,cl);
+  if (len<4 || len>6) return 0;
   return 1;
 }
 
 int wr_is_tptp_fof_clause(void* db, void* cl) {
+  int len;
   void* fun;
 
   if (wg_isatom(db,cl)) return 0;
   fun=wg_first(db,cl);
   if (!wg_islog_uri(db,fun,"fof")) return 0;
-  if (wg_list_len(db,cl)!=4) return 0;  
+  // the source and useful info annotations may follow the formula
+  len=wg_list_len(db,cl);
+  if (len<4 || len>6) return 0;
   return 1;
 }
 
-- 
2.43.0


From d709957dfe22459da222a57ec1392dbeefb25db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 44/80] fix: print terms without arguments as well formed JSON

---
 Printer/dbotterprint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Printer/dbotterprint.c b/Printer/dbotterprint.c
index ddbc7e2..7181924 100644
--- a/Printer/dbotterprint.c
+++ b/Printer/dbotterprint.c
@@ -804,7 +804,7 @@ int wr_strprint_term_otter(glb* g, gint rec,int printlevel, char** buf, int *len
     }           
     if (!wr_str_guarantee_space(g,buf,len,pos+10)) return -1;
     if (g->print_clauses_json) {
-      if (i==(g->unify_firstuseterm))  pos+=snprintf((*buf)+pos,(*len)-pos,",");
+      if (i==(g->unify_firstuseterm) && i+1<clen)  pos+=snprintf((*buf)+pos,(*len)-pos,",");
     } else {
       if (i==(g->unify_firstuseterm))  pos+=snprintf((*buf)+pos,(*len)-pos,"(");
     }  
-- 
2.43.0


From 240f4fde010b7389a97e5a320bfb06d8b80caff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:19 +0000
Subject: [PATCH 45/80] fix: bound and escape the texts in error messages

---
 Builtparser/dbclausify.c |  8 ++++----
 Builtparser/dbparse.c    | 39 +++++++++++++++++++++++++++++++--------
 Builtparser/dbparse.h    |  1 +
 Builtparser/jsparse.c    | 34 ++++++++++++++++++++++------------
 Parser/dbclausify.c      |  8 ++++----
 Parser/dbparse.c         | 39 +++++++++++++++++++++++++++++++--------
 Parser/dbparse.h         |  1 +
 Parser/jsparse.c         | 34 ++++++++++++++++++++++------------
 8 files changed, 116 insertions(+), 48 deletions(-)

diff --git a/Builtparser/dbclausify.c b/Builtparser/dbclausify.c
index 4c4f332..45d6b20 100644
--- a/Builtparser/dbclausify.c
+++ b/Builtparser/dbclausify.c
@@ -1641,7 +1641,7 @@ void* show_clausify_error(glb* g, char* format, ...) {
 */
 
 void* show_clausify_warning(glb* g, char* format, ...) {
-  int tmp1,tmp2;
+  char tmp[400],msg[900];
   va_list args;
   va_start (args, format);
 #ifdef PRINTERR  
@@ -1653,9 +1653,9 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (g->parse_errmsg) return NULL;
   (g->parse_errmsg)=wr_malloc(g,1000);
   if (!(g->parse_errmsg)) return NULL;
-  tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
-  tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-  snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
+  vsnprintf(tmp,sizeof(tmp),format,args);
+  wr_escape_errtext(msg,sizeof(msg),tmp);
+  snprintf((g->parse_errmsg),1000,"{\"error\": \"clausification error: %s\"}",msg);
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
   //printf("\n(g->parse_errflag) %d\n",(g->parse_errflag));
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 647a2ad..a7b4ba5 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -2074,9 +2074,30 @@ static int show_parse_error(void* db, char* msg) {
 }
 */
 
+/** Copy src to dest with json string escapes, cutting it if it does not fit in len bytes.
+*/
+
+void wr_escape_errtext(char* dest, int len, char* src) {
+  int i,pos=0;
+  unsigned char c;
+
+  for(i=0; src && src[i] && pos+7<len; i++) {
+    c=(unsigned char)(src[i]);
+    if (c=='"' || c=='\\') {
+      dest[pos++]='\\';
+      dest[pos++]=src[i];
+    } else if (c<' ') {
+      pos+=snprintf(dest+pos,7,"\\u%04x",c);
+    } else {
+      dest[pos++]=src[i];
+    }
+  }
+  dest[pos]=0;
+}
+
 int wr_show_parse_error(glb* g, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  char tmp[400],msg[900];
   va_list args;
   va_start (args, format);
   /*
@@ -2092,13 +2113,12 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   (g->parse_errmsg)=malloc(1000);
   if (!(g->parse_errmsg)) return -1;
   if (1) { //(g->print_json) {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
+    vsnprintf(tmp,sizeof(tmp),format,args);
+    wr_escape_errtext(msg,sizeof(msg),tmp);
+    snprintf((g->parse_errmsg),1000,"{\"error\": \"parser error: %s\"}",msg);
   } else {
-    tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
+    vsnprintf(tmp,sizeof(tmp),format,args);
+    snprintf((g->parse_errmsg),1000,"parser error: %s\n",tmp);
   }  
 
   /*
@@ -2139,6 +2159,9 @@ static int show_parse_warning(void* db, char* format, ...) {
 
 void db_err_printf2(char* s1, char* s2) {
 #ifdef ERRPRINT  
-  printf("{\"error\": \"%s %s\"}\n",s1,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  printf("{\"error\": \"%s %s\"}\n",s1,msg);
 #endif  
 }
\ No newline at end of file
diff --git a/Builtparser/dbparse.h b/Builtparser/dbparse.h
index 6e67f2d..03f9a17 100644
--- a/Builtparser/dbparse.h
+++ b/Builtparser/dbparse.h
@@ -86,5 +86,6 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
 void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl);
 
 int wr_show_parse_error(glb* g, char* format, ...);
+void wr_escape_errtext(char* dest, int len, char* src);
 
 #endif
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 4a0c81e..b15e60f 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -3447,24 +3447,33 @@ int wg_suitable_context_uri_end(void* db, char c) {
 
 
 void json_err_printf2(char* s1, char* s2) {
-  if (s1 && s2) printf("{\"error\": \"%s %s\"}\n",s1,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  if (s1 && s2) printf("{\"error\": \"%s %s\"}\n",s1,msg);
   else if (s1) printf("{\"error\": \"%s\"}\n",s1);
-  else if (s2) printf("{\"error\": \"%s\"}\n",s2);
+  else if (s2) printf("{\"error\": \"%s\"}\n",msg);
   else printf("{\"error\": \"unspecified\"}\n");  
 }
 
 void json_err_printfn2(char* s1, int num, char* s2)  {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  printf("{\"error\": \"%s %d %s\"}\n",s1,num,msg);
 }
 
 void json_err_printf3(char* s1, int num, char* s2) {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  printf("{\"error\": \"%s %d %s\"}\n",s1,num,msg);
 }
 
 
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  char tmp[400],msg[700],name[200];
   va_list args;
   va_start (args, format);
   /*
@@ -3479,19 +3488,20 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   if (g->parse_errmsg) return -1;
   (g->parse_errmsg)=malloc(1000);
   if (!(g->parse_errmsg)) return -1;
+  vsnprintf(tmp,sizeof(tmp),format,args);
+  wr_escape_errtext(msg,sizeof(msg),tmp);
   if (pp && pp->formulanr) {
     if (pp->formulaname) {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d %s: ",pp->formulanr,pp->formulaname);
+      wr_escape_errtext(name,sizeof(name),pp->formulaname);
+      snprintf((g->parse_errmsg),1000,
+            "{\"error\": \"error in formula nr %d %s: %s\"}",pp->formulanr,name,msg);
     } else {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d: ",pp->formulanr);
+      snprintf((g->parse_errmsg),1000,
+            "{\"error\": \"error in formula nr %d: %s\"}",pp->formulanr,msg);
     }  
   } else {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
+    snprintf((g->parse_errmsg),1000,"{\"error\": \"json parser error: %s\"}",msg);
   }  
-  tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-  snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
   printf("{\"error\": \"parser error: ");
diff --git a/Parser/dbclausify.c b/Parser/dbclausify.c
index 4c4f332..45d6b20 100644
--- a/Parser/dbclausify.c
+++ b/Parser/dbclausify.c
@@ -1641,7 +1641,7 @@ void* show_clausify_error(glb* g, char* format, ...) {
 */
 
 void* show_clausify_warning(glb* g, char* format, ...) {
-  int tmp1,tmp2;
+  char tmp[400],msg[900];
   va_list args;
   va_start (args, format);
 #ifdef PRINTERR  
@@ -1653,9 +1653,9 @@ void* show_clausify_warning(glb* g, char* format, ...) {
   if (g->parse_errmsg) return NULL;
   (g->parse_errmsg)=wr_malloc(g,1000);
   if (!(g->parse_errmsg)) return NULL;
-  tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"clausification error: ");
-  tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-  snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
+  vsnprintf(tmp,sizeof(tmp),format,args);
+  wr_escape_errtext(msg,sizeof(msg),tmp);
+  snprintf((g->parse_errmsg),1000,"{\"error\": \"clausification error: %s\"}",msg);
   va_end (args);
   //if (g && format && !strncmp(format,"could",5)) (g->parse_errflag)=1;
   //printf("\n(g->parse_errflag) %d\n",(g->parse_errflag));
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 647a2ad..a7b4ba5 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -2074,9 +2074,30 @@ static int show_parse_error(void* db, char* msg) {
 }
 */
 
+/** Copy src to dest with json string escapes, cutting it if it does not fit in len bytes.
+*/
+
+void wr_escape_errtext(char* dest, int len, char* src) {
+  int i,pos=0;
+  unsigned char c;
+
+  for(i=0; src && src[i] && pos+7<len; i++) {
+    c=(unsigned char)(src[i]);
+    if (c=='"' || c=='\\') {
+      dest[pos++]='\\';
+      dest[pos++]=src[i];
+    } else if (c<' ') {
+      pos+=snprintf(dest+pos,7,"\\u%04x",c);
+    } else {
+      dest[pos++]=src[i];
+    }
+  }
+  dest[pos]=0;
+}
+
 int wr_show_parse_error(glb* g, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  char tmp[400],msg[900];
   va_list args;
   va_start (args, format);
   /*
@@ -2092,13 +2113,12 @@ int wr_show_parse_error(glb* g, char* format, ...) {
   (g->parse_errmsg)=malloc(1000);
   if (!(g->parse_errmsg)) return -1;
   if (1) { //(g->print_json) {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
+    vsnprintf(tmp,sizeof(tmp),format,args);
+    wr_escape_errtext(msg,sizeof(msg),tmp);
+    snprintf((g->parse_errmsg),1000,"{\"error\": \"parser error: %s\"}",msg);
   } else {
-    tmp1=snprintf((g->parse_errmsg),50,"parser error: ");
-    tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-    snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\n");
+    vsnprintf(tmp,sizeof(tmp),format,args);
+    snprintf((g->parse_errmsg),1000,"parser error: %s\n",tmp);
   }  
 
   /*
@@ -2139,6 +2159,9 @@ static int show_parse_warning(void* db, char* format, ...) {
 
 void db_err_printf2(char* s1, char* s2) {
 #ifdef ERRPRINT  
-  printf("{\"error\": \"%s %s\"}\n",s1,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  printf("{\"error\": \"%s %s\"}\n",s1,msg);
 #endif  
 }
\ No newline at end of file
diff --git a/Parser/dbparse.h b/Parser/dbparse.h
index 6e67f2d..03f9a17 100644
--- a/Parser/dbparse.h
+++ b/Parser/dbparse.h
@@ -86,5 +86,6 @@ void* wr_preprocess_tptp_fof_clause(glb* g, void* mpool, void* cl, void* clname)
 void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl);
 
 int wr_show_parse_error(glb* g, char* format, ...);
+void wr_escape_errtext(char* dest, int len, char* src);
 
 #endif
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 4a0c81e..b15e60f 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -3447,24 +3447,33 @@ int wg_suitable_context_uri_end(void* db, char c) {
 
 
 void json_err_printf2(char* s1, char* s2) {
-  if (s1 && s2) printf("{\"error\": \"%s %s\"}\n",s1,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  if (s1 && s2) printf("{\"error\": \"%s %s\"}\n",s1,msg);
   else if (s1) printf("{\"error\": \"%s\"}\n",s1);
-  else if (s2) printf("{\"error\": \"%s\"}\n",s2);
+  else if (s2) printf("{\"error\": \"%s\"}\n",msg);
   else printf("{\"error\": \"unspecified\"}\n");  
 }
 
 void json_err_printfn2(char* s1, int num, char* s2)  {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  printf("{\"error\": \"%s %d %s\"}\n",s1,num,msg);
 }
 
 void json_err_printf3(char* s1, int num, char* s2) {
-  printf("{\"error\": \"%s %d %s\"}\n",s1,num,s2);
+  char msg[2000];
+
+  wr_escape_errtext(msg,sizeof(msg),s2);
+  printf("{\"error\": \"%s %d %s\"}\n",s1,num,msg);
 }
 
 
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
-  int tmp1,tmp2;
+  char tmp[400],msg[700],name[200];
   va_list args;
   va_start (args, format);
   /*
@@ -3479,19 +3488,20 @@ static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   if (g->parse_errmsg) return -1;
   (g->parse_errmsg)=malloc(1000);
   if (!(g->parse_errmsg)) return -1;
+  vsnprintf(tmp,sizeof(tmp),format,args);
+  wr_escape_errtext(msg,sizeof(msg),tmp);
   if (pp && pp->formulanr) {
     if (pp->formulaname) {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d %s: ",pp->formulanr,pp->formulaname);
+      wr_escape_errtext(name,sizeof(name),pp->formulaname);
+      snprintf((g->parse_errmsg),1000,
+            "{\"error\": \"error in formula nr %d %s: %s\"}",pp->formulanr,name,msg);
     } else {
-      tmp1=snprintf((g->parse_errmsg),50,
-            "{\"error\": \"error in formula nr %d: ",pp->formulanr);
+      snprintf((g->parse_errmsg),1000,
+            "{\"error\": \"error in formula nr %d: %s\"}",pp->formulanr,msg);
     }  
   } else {
-    tmp1=snprintf((g->parse_errmsg),50,"{\"error\": \"json parser error: ");
+    snprintf((g->parse_errmsg),1000,"{\"error\": \"json parser error: %s\"}",msg);
   }  
-  tmp2=vsnprintf((g->parse_errmsg)+tmp1,800,format,args);
-  snprintf((g->parse_errmsg)+tmp1+tmp2,50,"\"}");
 
   /*
   printf("{\"error\": \"parser error: ");
-- 
2.43.0


From 7ebc34aea36c5ad2cf14455d630a1d7ca28fe647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:48 +0000
Subject: [PATCH 46/80] fix: do not run on the part of a JSON input before a
 syntax error

---
 Builtparser/jsparse.c | 9 +++++----
 Parser/jsparse.c      | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index b15e60f..d688d50 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -297,9 +297,10 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
-      clvec, isincluded,
-      askpolarity, askinfo, mpool, streaming);   
+    // a syntax error is already reported: do not use the part read before it
+    if (wr_yajl_parse_file(g,&pp,filename, 
+          clvec, isincluded,
+          askpolarity, askinfo, mpool, streaming)<0) pp.result=NULL;
   } else {
     // input from string      
     pp.filename="string";
@@ -309,7 +310,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    if (wr_yajl_parse_string(g,&pp,strasfile)<0) pp.result=NULL;
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index b15e60f..d688d50 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -297,9 +297,10 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #ifdef DEBUG
     printf("\nreading from file %s\n",filename);
 #endif          
-    wr_yajl_parse_file(g,&pp,filename, 
-      clvec, isincluded,
-      askpolarity, askinfo, mpool, streaming);   
+    // a syntax error is already reported: do not use the part read before it
+    if (wr_yajl_parse_file(g,&pp,filename, 
+          clvec, isincluded,
+          askpolarity, askinfo, mpool, streaming)<0) pp.result=NULL;
   } else {
     // input from string      
     pp.filename="string";
@@ -309,7 +310,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    wr_yajl_parse_string(g,&pp,strasfile);       
+    if (wr_yajl_parse_string(g,&pp,strasfile)<0) pp.result=NULL;
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
-- 
2.43.0


From b07c89336be09fe382608f78f8170f96faa23f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:52 +0000
Subject: [PATCH 47/80] fix: do not rewrite predicate and function symbols

---
 Reasoner/build.c | 20 ++++++++++++++++++--
 Reasoner/build.h |  1 +
 Reasoner/simp.c  |  4 ++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/Reasoner/build.c b/Reasoner/build.c
index d8ceda6..4438134 100644
--- a/Reasoner/build.c
+++ b/Reasoner/build.c
@@ -52,6 +52,8 @@ extern "C" {
 
 /* ======= Private protos ================ */
 
+static gint wr_build_calc_term_aux(glb* g, gint x, int isatom);
+
 static int wr_gint_add_checked(gint a,gint b,gint* result) {
   if ((b>0 && a>(gint)INTPTR_MAX-b) ||
       (b<0 && a<(gint)INTPTR_MIN-b)) return 0;
@@ -333,6 +335,17 @@ gptr wr_build_calc_cl(glb* g, gptr xptr) {
 
 
 gint wr_build_calc_term(glb* g, gint x) {
+  return wr_build_calc_term_aux(g,x,0);
+}
+
+/* as wr_build_calc_term, but x is an atom: it is not a term itself,
+   hence only its arguments can be rewritten */
+
+gint wr_build_calc_atom(glb* g, gint x) {
+  return wr_build_calc_term_aux(g,x,1);
+}
+
+static gint wr_build_calc_term_aux(glb* g, gint x, int isatom) {
   void* db;
   gptr xptr,yptr;
   gint xlen,uselen;
@@ -436,7 +449,10 @@ gint wr_build_calc_term(glb* g, gint x) {
     substflag=(g->build_subst || g->build_rename);
     for(;i<uselen;i++) {
       if (!substflag && !isdatarec(xptr[i]) && !(g->build_rewrite)) yptr[i]=xptr[i];       
-      else {
+      else if (i==RECORD_HEADER_GINTS+(g->unify_funpos) && 
+               !isdatarec(xptr[i]) && !isvar(xptr[i])) {
+        yptr[i]=xptr[i]; // a function or predicate symbol is not a term, do not rewrite
+      } else {
 
         //tmp=wr_build_calc_term_copyground(g,xptr[i]);
         tmp=wr_build_calc_term(g,xptr[i]);
@@ -483,7 +499,7 @@ gint wr_build_calc_term(glb* g, gint x) {
       //wr_print_term(g,rpto(g,yptr));      
     }
     res=encode_record(db,yptr);
-    if (g->build_rewrite) {  
+    if ((g->build_rewrite) && !isatom) {  
       if ((g->print_level_flag)==50) {
         printf("\nto  rewrite ");
         wr_print_term(g,res);         
diff --git a/Reasoner/build.h b/Reasoner/build.h
index b4fa48c..3544260 100644
--- a/Reasoner/build.h
+++ b/Reasoner/build.h
@@ -38,6 +38,7 @@
 
 gptr wr_build_calc_cl(glb* g, gptr x);
 gint wr_build_calc_term(glb* g, gint x);
+gint wr_build_calc_atom(glb* g, gint x);
 gint wr_build_calc_term_copyground(glb* g, gint x);
 gint wr_build_calc_term_replace(glb* g, gint x, int replpos, gint replterm, int* path);
 
diff --git a/Reasoner/simp.c b/Reasoner/simp.c
index c92f80d..0b22005 100644
--- a/Reasoner/simp.c
+++ b/Reasoner/simp.c
@@ -101,7 +101,7 @@ gptr wr_simplify_cl(glb* g, gptr cl, gptr cl_metablock) {
       (g->rewrite_clvec)[1]=2; // first free elem 
       initial_queue_termbuf_next=CVEC_NEXT(g->build_buffer);
       prev_rewrites=(g->tmp_rewrites); // to check later if rewrites were done
-      yatom=wr_build_calc_term(g,rpto(g,cl));      
+      yatom=wr_build_calc_atom(g,rpto(g,cl));      
       (g->build_rewrite)=0;
       if (g->print_litterm_selection) {                
         wr_printf("\nrewritten to: ");
@@ -188,7 +188,7 @@ gptr wr_simplify_cl(glb* g, gptr cl, gptr cl_metablock) {
     if ((g->build_rewrite) ||
         ((g->use_comp_funs) && wr_computable_termptr(g,rotp(g,xatom))) ) {
       prev_rewrites=(g->tmp_rewrites); // to check later if rewrites were done
-      yatom=wr_build_calc_term(g,xatom);
+      yatom=wr_build_calc_atom(g,xatom);
 
       //printf("\nyatom after rewrite/compute %ld\n",yatom);
       //if (yatom) wr_print_term(g,yatom);
-- 
2.43.0


From 70982888c255079c1c197bccf9fca1b2e50b8ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:37 +0000
Subject: [PATCH 48/80] fix: order numbers and strings below other constants

---
 Reasoner/strat.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/Reasoner/strat.c b/Reasoner/strat.c
index ce036a3..36ec5e4 100644
--- a/Reasoner/strat.c
+++ b/Reasoner/strat.c
@@ -69,6 +69,7 @@ static int wr_order_eqterms_const_weight(glb* g, gint a);
 static int wr_order_eqterms_weight_vars(glb* g, gint x, gptr vars, gptr vb);
 static int wr_order_eqterms_lex_order(glb* g, gint x, gint y, gptr vb);
 static int wr_order_eqterms_const_lex_smaller(glb* g, gint x, gint y);
+static int wr_order_eqterms_const_isvalue(glb* g, gint x);
 
 /* ====== Functions ============== */
 
@@ -1459,11 +1460,27 @@ static int wr_order_eqterms_lex_order2(glb* g, gint x, gint y, gptr vb) {
 */
 
 static int wr_order_eqterms_const_lex_smaller(glb* g, gint x, gint y) {
+  int xval, yval;
+
+  // numbers, strings and other values are smaller than any other constant:
+  // otherwise rewriting would replace them by a constant, and two different values
+  // equal to the same constant would not be compared
+  xval=wr_order_eqterms_const_isvalue(g,x);
+  yval=wr_order_eqterms_const_isvalue(g,y);
+  if (xval!=yval) return xval;
   //if (x<y) return 1;  // TESTING
   if (x>y) return 1; // Normal in may 2020
   else return 0; 
 }
 
+static int wr_order_eqterms_const_isvalue(glb* g, gint x) {
+  gint type=wg_get_encoded_type(g->db,x);
+
+  if (type==WG_ANONCONSTTYPE) return 0;
+  if (type==WG_URITYPE) return wr_uri_is_unique(g,x) || wr_uri_is_list(g,x);
+  return 1;
+}
+
 
 /*
  
-- 
2.43.0


From 94f8af92d2e28b8f8174cf5ab6497d70a80c5e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:46:20 +0000
Subject: [PATCH 49/80] fix: report an answer only once

---
 Reasoner/history.c | 129 ++++++++++++++++++++++++++++++---------------
 1 file changed, 87 insertions(+), 42 deletions(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index a15eec1..9c9586c 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -51,6 +51,13 @@ extern "C" {
   
 /* ====== Private headers and defs ======== */
 
+#define MAX_ANSWER_VARS 100 // in one answer, for comparing answers
+
+static int wr_same_answers_aux(glb* g, gptr cl1, gptr cl2, int i1, int cllen1, int cllen2,
+                               gint* map, int uniquestrflag);
+static gint wr_answer_literal(glb* g, gptr cl, int i, gint* neg);
+static int wr_match_answer_term(glb* g, gint x, gint y, gint* map, int uniquestrflag);
+
 // #define HISTORY_MEMPOOL_SIZE 1000000
 //static int show_history_error(glb* g, char* errmsg);
 //static int show_history_error_nr(glb* g, char* errmsg, int nr); 
@@ -2577,12 +2584,15 @@ int wr_have_answers(glb* g) {
    ------------------------------------------------------
 */   
 
+/*
+  1 iff the answer cl2 says nothing new after the answer cl1: it is the same up to the
+  names of variables and the order of literals, or an instance or extension of it
+*/
+
 int wr_same_answers(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   void* db=g->db;
   int cllen1,cllen2;
-  int i1;
-  gint meta1,meta2;
-  gint atom1,atom2;
+  gint map[1+2*MAX_ANSWER_VARS];
 
 #ifdef DEBUG  
   wr_printf("\nwr_same_answers called on clauses %d %d :\n",(int)cl1,(int)cl2);
@@ -2596,47 +2606,82 @@ int wr_same_answers(glb* g, gptr cl1, gptr cl2, int uniquestrflag) {
   wg_print_record(db,cl2);
   wr_printf("\n");
 #endif
-  // check fact clause cases first
-  if (!wg_rec_is_rule_clause(db,cl1)) {
-    if (!wg_rec_is_rule_clause(db,cl2)) {
-#ifdef DEBUG  
-       wr_printf("both clauses are facts \n");
-#endif                         
-      if (wr_equal_term(g,encode_record(db,cl1),encode_record(db,cl2),uniquestrflag))
-        return 1;
-      else
-        return 0;
-    } else {      
-      return 0;
-    }      
-  } 
-  // now cl1 is a rule clause  
-  if (!wg_rec_is_rule_clause(db,cl2)) {
-    return 0;
-  } 
-  // now both clauses are rule clauses 
-  cllen1=wg_count_clause_atoms(db,cl1);
-  cllen2=wg_count_clause_atoms(db,cl2);  
-  if (cllen1!=cllen2) return 0;
-  for(i1=0;i1<cllen1;i1++) {
-    meta1=wg_get_rule_clause_atom_meta(db,cl1,i1);
-    atom1=wg_get_rule_clause_atom(db,cl1,i1);    
-    meta2=wg_get_rule_clause_atom_meta(db,cl2,i1);
-    atom2=wg_get_rule_clause_atom(db,cl2,i1);  
-    /*
-    printf("\n i1 %d meta1 %ld meta2 %ld\n",i1,meta1,meta2);  
-    wr_print_term(g,atom1);
-    printf("\n");
-    wr_print_term(g,atom2);
-    printf("\n");
-    */
-    if (wg_atom_meta_is_neg(db,meta1)!=wg_atom_meta_is_neg(db,meta2) || 
-        !wr_equal_term(g,atom1,atom2,uniquestrflag)) {
-      //printf("\nunequal\n");    
-      return 0;
+  if (!wg_rec_is_rule_clause(db,cl1)) cllen1=1;
+  else cllen1=wg_count_clause_atoms(db,cl1);
+  if (!wg_rec_is_rule_clause(db,cl2)) cllen2=1;
+  else cllen2=wg_count_clause_atoms(db,cl2);
+  if (cllen1>cllen2) return 0;
+  map[0]=0;
+  return wr_same_answers_aux(g,cl1,cl2,0,cllen1,cllen2,map,uniquestrflag);
+}
+
+// map the literals of the answer cl1 from i1 on to literals of the answer cl2
+
+static int wr_same_answers_aux(glb* g, gptr cl1, gptr cl2, int i1, int cllen1, int cllen2,
+                               gint* map, int uniquestrflag) {
+  gint neg1,neg2,oldmap;
+  gint atom1,atom2;
+  int i2;
+
+  if (i1>=cllen1) return 1;
+  atom1=wr_answer_literal(g,cl1,i1,&neg1);
+  for(i2=0;i2<cllen2;i2++) {
+    atom2=wr_answer_literal(g,cl2,i2,&neg2);
+    if (!neg1!=!neg2) continue;
+    oldmap=map[0];
+    if (wr_match_answer_term(g,atom1,atom2,map,uniquestrflag) &&
+        wr_same_answers_aux(g,cl1,cl2,i1+1,cllen1,cllen2,map,uniquestrflag)) return 1;
+    map[0]=oldmap;
+  }
+  return 0;
+}
+
+static gint wr_answer_literal(glb* g, gptr cl, int i, gint* neg) {
+  void* db=g->db;
+
+  if (!wg_rec_is_rule_clause(db,cl)) {
+    *neg=0;
+    return encode_record(db,cl);
+  }
+  *neg=wg_atom_meta_is_neg(db,wg_get_rule_clause_atom_meta(db,cl,i));
+  return wg_get_rule_clause_atom(db,cl,i);
+}
+
+/*
+  one-way matching of answer terms without the variable banks (these may be in use
+  when an answer is registered): map[0] is the nr of variables of x seen so far,
+  followed by the variables and their values
+*/
+
+static int wr_match_answer_term(glb* g, gint x, gint y, gint* map, int uniquestrflag) {
+  gptr xptr,yptr;
+  int xlen,ylen,i,ilimit;
+
+  if (isvar(x)) {
+    for(i=0;i<map[0];i++) {
+      if (map[1+2*i]==x) return (int)wr_equal_term(g,map[2+2*i],y,uniquestrflag);
     }
+    if (map[0]>=MAX_ANSWER_VARS) return 0;
+    map[1+2*map[0]]=x;
+    map[2+2*map[0]]=y;
+    map[0]=map[0]+1;
+    return 1;
+  }
+  if (!isdatarec(x) || !isdatarec(y)) return (int)wr_equal_term(g,x,y,uniquestrflag);
+  xptr=decode_record(g->db,x);
+  yptr=decode_record(g->db,y);
+  xlen=get_record_len(xptr);
+  ylen=get_record_len(yptr);
+  if (xlen!=ylen) return 0;
+  if (g->unify_maxuseterms) {
+    if (((g->unify_maxuseterms)+(g->unify_firstuseterm))<xlen)
+      xlen=(g->unify_firstuseterm)+(g->unify_maxuseterms);
   }
-  return 1;  
+  ilimit=RECORD_HEADER_GINTS+xlen;
+  for(i=RECORD_HEADER_GINTS+(g->unify_firstuseterm); i<ilimit; i++) {
+    if (!wr_match_answer_term(g,*(xptr+i),*(yptr+i),map,uniquestrflag)) return 0;
+  }
+  return 1;
 }
 
 /* ============== error handling ==================== */
-- 
2.43.0


From 5dd724571a3a7e456ee4d1a8bdbba3da2df08061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 50/80] fix: accept a free predecessor when freeing an object

---
 Db/dballoc.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index 546e8db..dca9ccb 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1263,7 +1263,7 @@ gint wg_free_object(void* db, void* area_header, gint object) {
     prevobjectsize=getfreeobjectsize(dbfetch(db,(object-sizeof(gint))));
     prevobject=object-prevobjectsize;
     prevobjecthead=dbfetch(db,prevobject);
-    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobject)!=prevobjectsize) {
+    if (!isfreeobject(prevobjecthead) || getfreeobjectsize(prevobjecthead)!=prevobjectsize) {
       show_dballoc_error(db,"wg_free_object notices corruption: previous object is not ok free object");
       return -4; // corruption noticed
     }
-- 
2.43.0


From 07d2e5834a87a3aee1405a844cc007bee3a6d8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 51/80] fix: give no rows for a range with equal exclusive
 bounds

---
 Db/dbquery.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/Db/dbquery.c b/Db/dbquery.c
index 9135abf..eeea2ce 100644
--- a/Db/dbquery.c
+++ b/Db/dbquery.c
@@ -812,14 +812,19 @@ static wg_query *internal_build_query(void *db, void *matchrec, gint reclen,
       }
     }
 
-    /* Simple sanity check. Is start_bound greater than end_bound? */
-    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL &&\
-      WG_COMPARE(db, start_bound, end_bound) == WG_GREATER) {
-      /* return empty query */
-      query->argc = 0;
-      query->arglist = NULL;
-      free(full_arglist);
-      return query;
+    /* Simple sanity check. Is start_bound greater than end_bound, or
+     * equal to it with at least one of them not in the range? */
+    if(start_bound!=WG_ILLEGAL && end_bound!=WG_ILLEGAL) {
+      gint cr = WG_COMPARE(db, start_bound, end_bound);
+      if(cr == WG_GREATER ||\
+        (cr == WG_EQUAL && !(start_inclusive && end_inclusive))) {
+        /* return empty query */
+        query->argc = 0;
+        query->arglist = NULL;
+        query->res_count = 0;
+        free(full_arglist);
+        return query;
+      }
     }
 
     /* Now find the bounding nodes for the query */
-- 
2.43.0


From 8aa33260b5065a299f8e002168ba164179c38a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:31 +0000
Subject: [PATCH 52/80] fix: mark the object after a reused free object

---
 Db/dballoc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Db/dballoc.c b/Db/dballoc.c
index dca9ccb..7d1ec49 100644
--- a/Db/dballoc.c
+++ b/Db/dballoc.c
@@ -1015,6 +1015,10 @@ gint wg_alloc_gints(void* db, void* area_header, gint nr) {
         if (nextel!=0) dbstore(db,nextel+2*sizeof(gint),dbaddr(db,&freebuckets[i]));
         // prev elem cannot be free (no consecutive free elems)
         dbstore(db,res,makeusedobjectsizeprevused(wantedbytes)); // store wanted size to the returned object
+        // next object should be marked as "prev used"
+        nextobject=res+usedbytes;
+        tmp=dbfetch(db,nextobject);
+        if (isnormalusedobject(tmp)) dbstore(db,nextobject,makeusedobjectsizeprevused(tmp));
         return res;
       } else if (size>=usedbytes+MIN_VARLENOBJ_SIZE) {
         // found one somewhat larger: now split and store the rest
-- 
2.43.0


From 1d3aeb0783dc734d9f551511f657690c79da0421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:56 +0000
Subject: [PATCH 53/80] fix: store units with variables as rule clauses in the
 simple syntax

The test for variables in wr_parse_clause asked for a prefix that variables
do not have, hence p(X). was stored as a ground fact and never subsumed its
instances. The JSON parser and Test/rtest.c expect a rule clause.
---
 Builtparser/dbparse.c | 2 +-
 Parser/dbparse.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index a7b4ba5..2c1991e 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1288,7 +1288,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       if (subterm!=NULL && wg_ispair(db,subterm)) { issimple=0; break; }     
       if (wg_atomtype(db,subterm)==WG_VARTYPE) { issimple=0; break; } 
       if (wg_atomtype(db,subterm)==WG_URITYPE && wg_atomstr1(db,subterm) && 
-          wg_atomstr2(db,subterm)!=NULL &&
+          wg_atomstr2(db,subterm)==NULL &&
           ( (g->parse_caps_as_var && isupper((unsigned char)(wg_atomstr1(db,subterm)[0]))) ||
             (g->parse_question_as_var && wg_atomstr1(db,subterm)[0]=='?') )) {issimple=0; break;} 
     }      
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index a7b4ba5..2c1991e 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1288,7 +1288,7 @@ void* wr_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       if (subterm!=NULL && wg_ispair(db,subterm)) { issimple=0; break; }     
       if (wg_atomtype(db,subterm)==WG_VARTYPE) { issimple=0; break; } 
       if (wg_atomtype(db,subterm)==WG_URITYPE && wg_atomstr1(db,subterm) && 
-          wg_atomstr2(db,subterm)!=NULL &&
+          wg_atomstr2(db,subterm)==NULL &&
           ( (g->parse_caps_as_var && isupper((unsigned char)(wg_atomstr1(db,subterm)[0]))) ||
             (g->parse_question_as_var && wg_atomstr1(db,subterm)[0]=='?') )) {issimple=0; break;} 
     }      
-- 
2.43.0


From ed058bc076022bdc9225fb06faf50835731ff502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:28 +0000
Subject: [PATCH 54/80] fix: cap sizes of exactly 255 in the clause information

limit_byte gave 0 for 255, hence a clause of size 255 was never found to be
subsumed by a smaller one.
---
 Reasoner/clmeta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Reasoner/clmeta.c b/Reasoner/clmeta.c
index a4e473d..1e3885f 100644
--- a/Reasoner/clmeta.c
+++ b/Reasoner/clmeta.c
@@ -564,7 +564,7 @@ gint wr_calc_clause_meta(glb* g, gptr xptr, gptr cl_metablock) {
 
 static int limit_byte(int nr) {
   if (nr<255 && nr>=0) return nr;
-  if (nr>255) return 255;
+  if (nr>=255) return 255;
   return 0;
 }
 
-- 
2.43.0


From bc8b28a91b2924e94ed1955ab7d28d05e57e0184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:21 +0000
Subject: [PATCH 55/80] fix: use the clause hash in arithmetic instantiation
 only where it exists

---
 Reasoner/arithinst.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Reasoner/arithinst.c b/Reasoner/arithinst.c
index d7b9cee..633d434 100644
--- a/Reasoner/arithinst.c
+++ b/Reasoner/arithinst.c
@@ -716,7 +716,8 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
     ++(g->stat_arithinst_proofs);
     return 1;
   }
-  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,&clhash);
+  // the clause hash exists only for instgen and propgen strategies
+  tmp=wr_derived_cl_cut_and_subsume(g,rptr,rpos,(g->prop_hash_clauses) ? &clhash : NULL);
   if (tmp<0) return 0;
   if (tmp>0) {
     cuts=g->cut_clvec;
@@ -764,7 +765,7 @@ static int wr_arith_store_result(glb* g,gptr parent,gptr rptr,int rpos,
   g->avg_kept_weight=avg;
   resmeta=wr_calc_clause_meta(g,res,cl_metablock);
   hash=wr_add_cl_to_unithash(g,res,resmeta);
-  if (hash<0) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
+  if (hash<0 && g->prop_hash_clauses) wr_push_prop_clausehash(g,rotp(g,g->prop_hash_clauses),clhash,res);
   if (g->propagate) {
     if (hash>=0) {
       wr_propagate_unit(g,res,resmeta,hash,parent);
-- 
2.43.0


From 4786d86b9fa37c2757ed8d7c8661c5d1a2c5f74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:21 +0000
Subject: [PATCH 56/80] fix: terminate the strategy text

---
 Reasoner/rmain.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 05afe47..33f63a4 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -553,7 +553,10 @@ int wg_run_reasoner(void *db, char* inputname, char* stratfile, int informat,
     } else if (guidetext) {
       tmp=strlen(guidetext);
       if (tmp>=MAX_GUIDETEXT_LEN) tmp=MAX_GUIDETEXT_LEN-2;
-      memcpy(g->guidetext,guidetext,tmp+1);
+      memcpy(g->guidetext,guidetext,tmp);
+      (g->guidetext)[tmp]=0;
+    } else {
+      (g->guidetext)[0]=0;
     }
     if (!(g->print_flag)) (g->print_level_flag)=0;
     if ((g->print_level_flag)<0) (g->print_level_flag)=default_print_level;
-- 
2.43.0


From 91a23262fb3048cecff7e229488c42718199de96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:21 +0000
Subject: [PATCH 57/80] fix: limit the depth of includes, give no result after
 a failed include

---
 Builtparser/dbgenparse.h |  1 +
 Builtparser/dbparse.c    | 11 +++++++++--
 Builtparser/jsparse.c    | 13 +++++++++++--
 Parser/dbgenparse.h      |  1 +
 Parser/dbparse.c         | 11 +++++++++--
 Parser/jsparse.c         | 13 +++++++++++--
 6 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/Builtparser/dbgenparse.h b/Builtparser/dbgenparse.h
index 22dce93..8ee2a06 100644
--- a/Builtparser/dbgenparse.h
+++ b/Builtparser/dbgenparse.h
@@ -66,6 +66,7 @@
    nests[] array (4096*8 = 32KB). Exceeding it is a clean load error now,
    never a crash. */
 #define PARSE_NESTING_DEPTH 4096
+#define MAX_INCLUDE_DEPTH 100
 
 // ---- reeentrant ----
 
diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 2c1991e..980142f 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -279,7 +279,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
-  if (!pres && pres2==NULL && !(g->parse_errmsg)) {
+  if (!pres && pres2==NULL && !(g->parse_errmsg) && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
   }
@@ -1110,7 +1110,14 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
-  wr_import_otter_file(g,filename,NULL,NULL,1);  
+  if (tmp>=MAX_INCLUDE_DEPTH) {
+    wr_show_parse_error(g,"include files are nested too deeply");
+    return NULL;
+  }
+  if (wr_import_otter_file(g,filename,NULL,NULL,tmp+1)) {
+    // already reported: do not go on without the included formulas
+    (g->parse_errflag)=1;
+  }
   (g->parse_is_included_file)=tmp;
   return NULL;
 }
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index d688d50..b1adf25 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -962,6 +962,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   char* p2;
   char* str2;
   int askinfo=0;
+  int depth,res;
   //int tmp;
  
 #ifdef IDEBUG
@@ -1047,8 +1048,13 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+  depth=(g->parse_is_included_file);
+  if (depth>=MAX_INCLUDE_DEPTH) {
+    wr_show_jsparse_error(g,NULL,"include files are nested too deeply");
+    return NULL;
+  }
   if (wg_is_jsfile(db,filename)) {
-    wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
+    res=wr_import_js_file(g,filename,NULL,clvec,depth+1,0, &askinfo, 0);
   } else {
     //(g->parser_print_level)=0;
     //(g->print_initial_parser_result)=0;
@@ -1063,8 +1069,11 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
       wg_show_db_error(db);
       return NULL;
     }
-    wr_import_otter_file(g,filename,NULL,clvec,1);
+    res=wr_import_otter_file(g,filename,NULL,clvec,depth+1);
   }
+  (g->parse_is_included_file)=depth;
+  // already reported: do not go on without the included formulas
+  if (res) (g->parse_errflag)=1;
   return NULL;
 }
 
diff --git a/Parser/dbgenparse.h b/Parser/dbgenparse.h
index 22dce93..8ee2a06 100644
--- a/Parser/dbgenparse.h
+++ b/Parser/dbgenparse.h
@@ -66,6 +66,7 @@
    nests[] array (4096*8 = 32KB). Exceeding it is a clean load error now,
    never a crash. */
 #define PARSE_NESTING_DEPTH 4096
+#define MAX_INCLUDE_DEPTH 100
 
 // ---- reeentrant ----
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 2c1991e..980142f 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -279,7 +279,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
-  if (!pres && pres2==NULL && !(g->parse_errmsg)) {
+  if (!pres && pres2==NULL && !(g->parse_errmsg) && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
   }
@@ -1110,7 +1110,14 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
-  wr_import_otter_file(g,filename,NULL,NULL,1);  
+  if (tmp>=MAX_INCLUDE_DEPTH) {
+    wr_show_parse_error(g,"include files are nested too deeply");
+    return NULL;
+  }
+  if (wr_import_otter_file(g,filename,NULL,NULL,tmp+1)) {
+    // already reported: do not go on without the included formulas
+    (g->parse_errflag)=1;
+  }
   (g->parse_is_included_file)=tmp;
   return NULL;
 }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index d688d50..b1adf25 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -962,6 +962,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   char* p2;
   char* str2;
   int askinfo=0;
+  int depth,res;
   //int tmp;
  
 #ifdef IDEBUG
@@ -1047,8 +1048,13 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
 #ifdef IDEBUG
   printf("\nfilename %s\n",filename);
 #endif   
+  depth=(g->parse_is_included_file);
+  if (depth>=MAX_INCLUDE_DEPTH) {
+    wr_show_jsparse_error(g,NULL,"include files are nested too deeply");
+    return NULL;
+  }
   if (wg_is_jsfile(db,filename)) {
-    wr_import_js_file(g,filename,NULL,clvec,1,0, &askinfo, 0);
+    res=wr_import_js_file(g,filename,NULL,clvec,depth+1,0, &askinfo, 0);
   } else {
     //(g->parser_print_level)=0;
     //(g->print_initial_parser_result)=0;
@@ -1063,8 +1069,11 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
       wg_show_db_error(db);
       return NULL;
     }
-    wr_import_otter_file(g,filename,NULL,clvec,1);
+    res=wr_import_otter_file(g,filename,NULL,clvec,depth+1);
   }
+  (g->parse_is_included_file)=depth;
+  // already reported: do not go on without the included formulas
+  if (res) (g->parse_errflag)=1;
   return NULL;
 }
 
-- 
2.43.0


From bbf68e4dc1b2de95997cd6454fc5fc65787bf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:21 +0000
Subject: [PATCH 58/80] fix: report JSON input without statements, converting
 JSON is not an error

---
 Builtparser/jsparse.c | 7 +++++++
 Parser/jsparse.c      | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index b1adf25..f3ef485 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -326,6 +326,13 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
     }  
   }
   *askinfo=pp.askinfo;
+  if (!(g->parse_errflag) && !(dbmemsegh(db)->errflag)) {
+    if (dbmemsegh(db)->convert) pres2=mpool; // already printed
+    else if (pres2==NULL && !isincluded) {
+      pp.formulanr=0;
+      wr_show_jsparse_error(g,&pp,"no clauses found in %.200s",pp.filename);
+    }  
+  }  
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index b1adf25..f3ef485 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -326,6 +326,13 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
     }  
   }
   *askinfo=pp.askinfo;
+  if (!(g->parse_errflag) && !(dbmemsegh(db)->errflag)) {
+    if (dbmemsegh(db)->convert) pres2=mpool; // already printed
+    else if (pres2==NULL && !isincluded) {
+      pp.formulanr=0;
+      wr_show_jsparse_error(g,&pp,"no clauses found in %.200s",pp.filename);
+    }  
+  }  
   wg_free_mpool(db,mpool);
   (g->use_comp_funs)=tmp_comp_funs; 
   //if (pres || pres2==NULL) return 1;
-- 
2.43.0


From ed53f4ec6cd873fa16ec3a12221d5b43b3a46f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:45:21 +0000
Subject: [PATCH 59/80] fix: empty strings in JSON input used as NULL pointers

---
 Builtparser/jsparse.c | 172 ++++++++++++++++++++++--------------------
 Db/dbmpool.c          |   6 +-
 Parser/jsparse.c      | 172 ++++++++++++++++++++++--------------------
 3 files changed, 188 insertions(+), 162 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index f3ef485..b977315 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -69,6 +69,7 @@ void json_err_printfn2(char* s1, int num, char* s2);
 void json_err_printf3(char* s1, int num, char* s2);
 
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...);
+static char* wr_json_atomstr(void* db, void* atom);
 
 
 
@@ -874,7 +875,7 @@ void* wr_preprocess_json_clauselist
 #endif         
     /*
     if (!clnr && wg_isatom(db,cl) && wg_atomtype(db,cl)==WG_URITYPE &&
-          !strcmp("formulas",wg_atomstr1(db,cl)) ) {
+          !strcmp("formulas",wr_json_atomstr(db,cl)) ) {
       clnr--;      
       continue;
     }
@@ -903,7 +904,7 @@ void* wr_preprocess_json_clauselist
       // tptp import clause 
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         // do not import when converting
-        printf("\ninclude('%s').\n",wg_atomstr1(db,wg_nth(db,cl,2)));        
+        printf("\ninclude('%s').\n",wr_json_atomstr(db,wg_nth(db,cl,2)));        
       } else {
         wr_process_json_import_clause(g,mpool,cl,clvec);
       }  
@@ -994,7 +995,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   //printf("\n");
 #endif  
   if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
-  str=wg_atomstr1(db,pathatom); 
+  str=wr_json_atomstr(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
@@ -1158,11 +1159,11 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       } else {
         // ok case
         if (name) {    
-          namestr=wg_atomstr1(db,name);        
+          namestr=wr_json_atomstr(db,name);        
           pp->formulaname=namestr;
         }  
         if (role) {
-          rolestr=wg_atomstr1(db,role);          
+          rolestr=wr_json_atomstr(db,role);          
           pp->formularole=rolestr;                         
         }  
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
@@ -1425,15 +1426,15 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     }   
     // negated atom?        
     if ((wg_atomtype(db,cl)==WG_URITYPE && cl!=pp->logfalse && cl!=pp->logtrue) &&
-        wg_atomstr1(db,cl) &&
-        ((wg_atomstr1(db,cl))[0]=='-' ||
-         (wg_atomstr1(db,cl))[0]=='~')) {                      
-      if (wg_atomstr1(db,cl)[1]=='-' || (wg_atomstr1(db,cl))[0]=='~') {
+        wr_json_atomstr(db,cl) &&
+        ((wr_json_atomstr(db,cl))[0]=='-' ||
+         (wr_json_atomstr(db,cl))[0]=='~')) {                      
+      if (wr_json_atomstr(db,cl)[1]=='-' || (wr_json_atomstr(db,cl))[0]=='~') {
         wr_show_jsparse_error(g,pp,
           "double negation character like -- or ~~ prohibited in logical symbols");
         return NULL;
       }
-      r1=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,cl)+1),NULL);            
+      r1=wg_mkatom(db,mpool,WG_URITYPE,(wr_json_atomstr(db,cl)+1),NULL);            
       cl=wg_mklist2(db,mpool,pp->logneg,r1);
       if (!r1 || !cl) {
         wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
@@ -1459,12 +1460,12 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     if (head==NULL) {
       wr_show_jsparse_error(g,pp,"null value at the head of a logical list");
       return NULL;
-    } else if (wg_isatom(db,head) && !strcmp("and",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("and",wr_json_atomstr(db,head)) && !r1) {
       preres=wg_makelogfalse(db,mpool);          
-    } else if (wg_isatom(db,head) && !strcmp("or",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("or",wr_json_atomstr(db,head)) && !r1) {
       preres=wg_makelogtrue(db,mpool); 
     } else if (wr_json_is_eq_op(g,r1el) && head && wg_ispair(db,r2)) {      
-      str=wg_atomstr1(db,r1el);
+      str=wr_json_atomstr(db,r1el);
       if (*str!='=') {
         // not a positive equality, hence negative
         head=wr_process_json_term(g,pp,head,0,1);
@@ -1482,9 +1483,9 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
         preres=wg_mklist3(db,mpool,r1el,head,r2el);
       }  
     } else if (wg_isatom(db,head) &&
-               (!strcmp("not",wg_atomstr1(db,head)) ||
-                !strcmp("-",wg_atomstr1(db,head)) ||
-                !strcmp("~",wg_atomstr1(db,head)) )) {  
+               (!strcmp("not",wr_json_atomstr(db,head)) ||
+                !strcmp("-",wr_json_atomstr(db,head)) ||
+                !strcmp("~",wr_json_atomstr(db,head)) )) {  
       // negation               
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for not connective");
@@ -1499,7 +1500,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logneg);
       *((gint*)r1)=(gint)r1proc;
       preres=cl;      
-    } else if (wg_isatom(db,head) && !strcmp("exists",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("exists",wr_json_atomstr(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for exists connective");
         return NULL;
@@ -1523,7 +1524,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logexists);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("forall",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("forall",wr_json_atomstr(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for forall connective");
         return NULL;
@@ -1547,7 +1548,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logall);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("if",wg_atomstr1(db,head))) {
+    } else if (wg_isatom(db,head) && !strcmp("if",wr_json_atomstr(db,head))) {
       preres=wr_json_process_if_then(g,pp,cl);   
     } else if (logconn!=NULL) {
       // contains logical stuff at top
@@ -1559,7 +1560,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
 #endif      
       newlogconn=wr_json_translate_connective(g,pp,logconn);
       isneg=wr_json_negtype_connective(g,pp,logconn);
-      if (wg_isatom(db,logconn) && !strcmp("<=",wg_atomstr1(db,logconn))) isreverse=1;
+      if (wg_isatom(db,logconn) && !strcmp("<=",wr_json_atomstr(db,logconn))) isreverse=1;
       else isreverse=0;
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux before unflatten  is\n");
@@ -1643,7 +1644,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     // detect if there are keys    
     for (part=wg_rest(db,cl); part!=NULL; part=wg_rest(db,part)) {
       key=wg_first(db,part);
-      keystr=wg_atomstr1(db,key);
+      keystr=wr_json_atomstr(db,key);
       if (key && !(wr_json_special_keystr(g, keystr))) {
         foundkey=1;
         break;
@@ -1660,13 +1661,17 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       continue;
     }  
     tmp=wg_rest(db,part);
-    keystr=wg_atomstr1(db,key);
+    keystr=wr_json_atomstr(db,key);
     if (wg_ispair(db,tmp)) {
       keyval=wg_first(db,tmp);
     } else {
       keyval=NULL;
     }
     // here we have keystr and keyval
+    if (!keystr[0]) {
+      wr_show_jsparse_error(g,pp,"a key must not be an empty string");
+      return NULL;
+    }
     if (!(wr_json_special_keystr(g, keystr))) {
       // normal key, not a special @-prefixed key
 #ifdef EXPAND_JSONLD_KEYS      
@@ -1688,14 +1693,14 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       keyval=wr_json_expand_list_prefixes(g,mpool,pp,keyval,0);      
 #endif      
       extended=wr_add_struct_key_atoms(g,pp,id,
-          wg_atomstr1(db,pp->jsonld_typerepl),keyval,extended);
+          wr_json_atomstr(db,pp->jsonld_typerepl),keyval,extended);
     } else if (!strcmp("@graph",keystr)) {
       if (origid || foundkey) {
         if (!id) {               
           id=wr_json_mkid(g,mpool,pp,origid,NULL);      
         }         
       }        
-      for (part=keyval; part!=NULL; part=wg_rest(db,part)) {
+      for (part=keyval; wg_ispair(db,part); part=wg_rest(db,part)) {
         graphel=wg_first(db,part);
         //tmpval=(pp->parse_top_level);
         wr_json_push_context(g,pp,array);
@@ -1729,8 +1734,8 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     //extended=wr_process_json_formula_aux(g,pp,extended); //,0,1);  
     if (logic) {     
       // both extended and logic part present        
-      if (role && (!strcmp(wg_atomstr1(db,role),"question") ||
-         !strcmp(wg_atomstr1(db,role),"conjecture"))) {
+      if (role && (!strcmp(wr_json_atomstr(db,role),"question") ||
+         !strcmp(wr_json_atomstr(db,role),"conjecture"))) {
         logic=wr_json_add_with_negated_or(g,pp,logic,extended);
       } else {         
         logic=wr_json_add_with_and(g,pp,logic,extended);       
@@ -1796,7 +1801,7 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
       if (wr_json_isvar(g,pp,values)) {
         modvalue=values;
       } else {
-        valstr=wg_atomstr1(db,values);
+        valstr=wr_json_atomstr(db,values);
         modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
       }  
     } else {
@@ -1813,14 +1818,14 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
     if (!list) list=wg_get_keystrval(db, "@set", values);
     value=wg_get_keystrval(db, "@value", values);
     if (value && wg_atomtype(db,value)==WG_URITYPE) {
-      valstr=wg_atomstr1(db,value);
+      valstr=wr_json_atomstr(db,value);
       modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
     } else {
       modvalue=value;
     } 
     if (list) {
       // list structure case
-      if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+      if (wg_isatom(db,list) && !strcmp("$nil",wr_json_atomstr(db,list)))
         res1=list;
       else
         res1=wr_process_json_list(g,pp,list);
@@ -1930,7 +1935,7 @@ void* wr_json_expand_list_prefixes(glb* g, void* mpool, parse_parm* pp, void* ls
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;
 #ifdef EXPAND_JSONLD_LISTKEYS      
-      valstr=wg_atomstr1(db,lst);
+      valstr=wr_json_atomstr(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
@@ -1969,7 +1974,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   printf("\n");
   */
   if (givenid) {    
-    str=wg_atomstr1(g->db,givenid);
+    str=wr_json_atomstr(g->db,givenid);
     if (!str) return NULL;
     if (*str=='_' && *(str+1)==':') {
       // blank node
@@ -1995,7 +2000,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
           wg_atomtype(db,base)==WG_URITYPE &&
           wg_atomstr1(db,base)) {
         // try to use base    
-        basestr=wg_atomstr1(db,base);    
+        basestr=wr_json_atomstr(db,base);    
         len=strlen(basestr);
         if (wr_json_is_expandable_uristr(g,str) &&
             len &&  wg_suitable_context_uri_end(db,*(basestr+len-1))) {               
@@ -2017,7 +2022,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   } else {    
     // NULL givenid, make a new one   
     sprintf(buf,"_:crtd_%d",
-      //wg_atomstr1(db,pp->jsonld_blankprefatom),
+      //wr_json_atomstr(db,pp->jsonld_blankprefatom),
       (dbmemsegh(db)->parse_json_blankseed));
     (dbmemsegh(db)->parse_json_blankseed)++;
     res=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,buf,NULL);                 
@@ -2083,7 +2088,7 @@ int wr_json_isvar(glb* g, parse_parm* pp, void* atom) {
 
   if (!wg_isatom(db,atom)) return 0;  
   if (wg_atomtype(db,atom)!=WG_URITYPE) return 0;
-  str=wg_atomstr1(db,atom);    
+  str=wr_json_atomstr(db,atom);    
   if (*str=='?' && *(str+1)==':') return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->boundvars),atom)) return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->freevars),atom)) return 1; 
@@ -2133,7 +2138,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         wr_show_jsparse_error(g,pp,"json object has neither @logic nor @list key value");
         return NULL;
       } else {
-        if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+        if (wg_isatom(db,list) && !strcmp("$nil",wr_json_atomstr(db,list)))
           cl=list;
         else
           cl=wr_process_json_list(g,pp,list);
@@ -2157,7 +2162,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       if (!a1) return NULL;
       pp->nullvars=wg_mkpair(db,mpool,a1,pp->nullvars);
       return a1;
-    } else if (!wg_atomstr1(db,cl) || !(wg_atomstr1(db,cl)[0])) {      
+    } else if (!wr_json_atomstr(db,cl) || !(wr_json_atomstr(db,cl)[0])) {      
       preres=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,"$emptystr",NULL);
     } else if (wg_atomtype(db,cl)!=WG_URITYPE && wg_atomtype(db,cl)!=WG_ANONCONSTTYPE && 
               cl!=pp->logfalse && cl!=pp->logtrue) {
@@ -2185,12 +2190,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
                wg_list_memberuri_in_sublist(db,(pp->boundvars),cl)) {
       // bound variable case           
       preres=cl;     
-    } else if (!strcmp(wg_atomstr1(db,cl),wg_atomstr1(db,pp->jsonld_typekey))) {
+    } else if (!strcmp(wr_json_atomstr(db,cl),wr_json_atomstr(db,pp->jsonld_typekey))) {
       preres=pp->jsonld_typerepl;
     } else if (wg_atomtype(db,cl)==WG_URITYPE) { 
         
       
-      valstr=wg_atomstr1(db,cl);
+      valstr=wr_json_atomstr(db,cl);
       modified=0;
 #ifdef EXPAND_JSONLD_TERMS      
       // use context to change uri string valstr as necessary        
@@ -2237,8 +2242,8 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       r2=NULL;
     }   
     if (atomlevel && wg_isatom(db,r1el) && r1el &&
-        (!strcmp("=",wg_atomstr1(db,r1el)) | 
-         !strcmp("!=",wg_atomstr1(db,r1el)) )) {  
+        (!strcmp("=",wr_json_atomstr(db,r1el)) | 
+         !strcmp("!=",wr_json_atomstr(db,r1el)) )) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2250,7 +2255,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,head,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,r1el)))  {
+      if (!strcmp("=",wr_json_atomstr(db,r1el)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1; 
         *((gint*)r2)=(gint)a2; 
@@ -2267,11 +2272,11 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       }
       //return preres;
     } else if (!atomlevel && wg_isatom(db,r1el) && r1el &&
-        wg_atomstr1(db,r1el) &&  
-        (!strcmp("+",wg_atomstr1(db,r1el)) | 
-         !strcmp("*",wg_atomstr1(db,r1el)) |
-         !strcmp("-",wg_atomstr1(db,r1el)) |
-         !strcmp("/",wg_atomstr1(db,r1el)))) {  
+        wr_json_atomstr(db,r1el) &&  
+        (!strcmp("+",wr_json_atomstr(db,r1el)) | 
+         !strcmp("*",wr_json_atomstr(db,r1el)) |
+         !strcmp("-",wr_json_atomstr(db,r1el)) |
+         !strcmp("/",wr_json_atomstr(db,r1el)))) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for arithmetic operation");
         return NULL;
@@ -2290,10 +2295,10 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       preres=cl;
 
     } else if (atomlevel &&  wg_isatom(db,head) && 
-        (!strcmp("=",wg_atomstr1(db,head)) | 
-         !strcmp("!=",wg_atomstr1(db,head)) |
-         !strcmp("-=",wg_atomstr1(db,head)) |
-         !strcmp("~=",wg_atomstr1(db,head)) )) { 
+        (!strcmp("=",wr_json_atomstr(db,head)) | 
+         !strcmp("!=",wr_json_atomstr(db,head)) |
+         !strcmp("-=",wr_json_atomstr(db,head)) |
+         !strcmp("~=",wr_json_atomstr(db,head)) )) { 
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2305,7 +2310,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,r1el,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,head)))  {
+      if (!strcmp("=",wr_json_atomstr(db,head)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1;
         *((gint*)r2)=(gint)a2;
@@ -2327,12 +2332,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
     } else if (wg_atomtype(db,head)!=WG_URITYPE && wg_atomtype(db,head)!=WG_ANONCONSTTYPE) {   
       wr_show_jsparse_error(g,pp,"atom must start with a constant");
       return NULL;
-    } else if ((wg_atomstr1(db,head))[0]=='\0') {
+    } else if ((wr_json_atomstr(db,head))[0]=='\0') {
       wr_show_jsparse_error(g,pp,"atom must not start with an empty string");
       return NULL;
     } else if (atomlevel && 
-                ( (wg_atomstr1(db,head))[0]=='-' ||
-                  (wg_atomstr1(db,head))[0]=='~' )) {  
+                ( (wr_json_atomstr(db,head))[0]=='-' ||
+                  (wr_json_atomstr(db,head))[0]=='~' )) {  
       //tmpres=NULL;
       for(n=0,part=cl; part!=NULL; part=wg_rest(db,part),n++) {
         tmp=wr_process_json_term(g,pp,wg_first(db,part),0,n);
@@ -2340,9 +2345,9 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wr_json_atomstr(db,head)+1),NULL);
       // the name without the negation sign is read like the name of a positive atom
-      if (tmp && *(wg_atomstr1(db,head)+1)) tmp=wr_process_json_term(g,pp,tmp,0,0);
+      if (tmp && *(wr_json_atomstr(db,head)+1)) tmp=wr_process_json_term(g,pp,tmp,0,0);
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
@@ -2350,7 +2355,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         return NULL;
       }
     } else if (wg_isatom(db,head) &&
-              (!strcmp("exists",wg_atomstr1(db,head)) || !strcmp("all",wg_atomstr1(db,head))) ) {
+              (!strcmp("exists",wr_json_atomstr(db,head)) || !strcmp("all",wr_json_atomstr(db,head))) ) {
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for quantifier");
         return NULL;
@@ -2444,7 +2449,7 @@ void* wr_json_list_logconn(glb* g, parse_parm* pp, void* cl) {
   if (wg_isatom(db,cl)) return NULL;
   for(part=cl,nr=0; wg_ispair(db,part); part=wg_rest(db,part),nr++) {   
     el=wg_first(db,part);
-    if (wg_isatom(db,el) && (!wg_atomstr1(db,el) || !(wg_atomstr1(db,el)[0])))
+    if (wg_isatom(db,el) && (!wr_json_atomstr(db,el) || !(wr_json_atomstr(db,el)[0])))
       continue;
     if (wr_json_is_connective(g,el)) {
       if (foundconn==NULL) {
@@ -2479,7 +2484,7 @@ int wr_json_is_varlist(glb* g, parse_parm* pp, void* ptr) {
     if (!wr_is_json_freevar(g,pp,el)) {
       char* vs;
       if (!wg_isatom(db,el) || wg_atomtype(db,el)!=WG_URITYPE) return 0;
-      vs=wg_atomstr1(db,el);
+      vs=wr_json_atomstr(db,el);
       if (!vs || vs[0]<'A' || vs[0]>'Z') return 0;
     }
     ptr=wg_rest(db,ptr);
@@ -2512,7 +2517,7 @@ int wr_json_is_connective(glb* g,void* ptr) {
   if (!wg_isatom(db,ptr) || 
       (wg_atomtype(db,ptr)!=WG_URITYPE &&
        wg_atomtype(db,ptr)!=WG_ANONCONSTTYPE)) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   if (!strcmp("not",str)) return 1;
   if (!strcmp("~",str)) return 1;
   if (!strcmp("-",str)) return 1;
@@ -2547,7 +2552,7 @@ int wr_json_is_eq_op(glb* g,void* ptr) {
   char* str;
 
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   if (!strcmp("=",str)) return 1;
   if (!strcmp("~=",str)) return 1;
   if (!strcmp("-=",str)) return 1;
@@ -2564,7 +2569,7 @@ void* wr_json_translate_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   if (!strcmp("not",str)) return pp->logneg;
   if (!strcmp("~",str)) return  pp->logneg;
   if (!strcmp("-",str)) return  pp->logneg;
@@ -2597,7 +2602,7 @@ int wr_json_negtype_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   
   if (!strcmp("<~>",str)) return 1;
   if (!strcmp("~|",str)) return 1;
@@ -2610,7 +2615,7 @@ int wr_is_json_freevar(glb* g,parse_parm* pp,void* ptr) {
   void* db=g->db;
   char *s;
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0;
-  s=wg_atomstr1(db,ptr);
+  s=wr_json_atomstr(db,ptr);
   if ((*s)=='\0') return 0;
   if ((*s)!='?') return 0;
   s++;
@@ -2633,8 +2638,8 @@ int wr_json_equal_atoms(glb* g,void* a1, void* a2) {
 
   if (!wg_isatom(db,a1) || wg_atomtype(db,a1)!=WG_URITYPE) return 0;
   if (!wg_isatom(db,a2) || wg_atomtype(db,a2)!=WG_URITYPE) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wr_json_atomstr(db,a1);
+  str2=wr_json_atomstr(db,a2);
   if (!strcmp(str1,str2)) return 1;
   return 0;
 }
@@ -2652,8 +2657,8 @@ int wr_json_really_equal_atoms(glb* g,void* a1, void* a2) {
   */
   if (!wg_isatom(db,a1)) return 0;
   if (!wg_isatom(db,a2)) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wr_json_atomstr(db,a1);
+  str2=wr_json_atomstr(db,a2);
   if (!strcmp(str1,str2)) {
     //printf("\nequal\n");
     return 1;
@@ -2673,7 +2678,7 @@ void* wr_json_process_if_then(glb* g, parse_parm* pp, void* ptr) {
   for(part=wg_rest(db,ptr); part!=NULL;  part=wg_rest(db,part)) {
     el=wg_first(db,part);
     if (wg_isatom(db,el) && wg_atomtype(db,el)==WG_URITYPE &&
-        !strcmp(wg_atomstr1(db,el),"then")) {
+        !strcmp(wr_json_atomstr(db,el),"then")) {
       incond=0;
       continue;
     }
@@ -3008,7 +3013,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
 #endif      
     if (!wg_ispair(db,lit)) { issimple=0; continue; }
     fun=wg_first(db,lit);
-    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wg_atomstr1(db,fun),"not")) { issimple=0; continue; }
+    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wr_json_atomstr(db,fun),"not")) { issimple=0; continue; }
     for(termpart=lit;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
       subterm=wg_first(db,termpart);
 #ifdef DEBUG        
@@ -3019,8 +3024,8 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       if (subterm!=NULL && wg_ispair(db,subterm)) { issimple=0; break; }     
       if (wg_atomtype(db,subterm)==WG_VARTYPE) { issimple=0; break; } 
       if (wg_atomtype(db,subterm)==WG_URITYPE &&  
-          ( (g->parse_caps_as_var && isupper(wg_atomstr1(db,subterm)[0])) ||
-            (g->parse_question_as_var && wg_atomstr1(db,subterm)[0]=='?') )) {issimple=0; break;} 
+          ( (g->parse_caps_as_var && isupper(wr_json_atomstr(db,subterm)[0])) ||
+            (g->parse_question_as_var && wr_json_atomstr(db,subterm)[0]=='?') )) {issimple=0; break;} 
     }      
   }        
   if (litnr>1) issimple=0;   
@@ -3076,7 +3081,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
     }     
     isneg=0;
     if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && 
-        !strcmp(wg_atomstr1(db,fun),"not") &&
+        !strcmp(wr_json_atomstr(db,fun),"not") &&
         wg_atomstr2(db,fun)==NULL) {
       //DPRINTF("detected negation");
       isneg=1;            
@@ -3160,13 +3165,13 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   } // end one clause processing loop
   // set history 
   if (name && wg_isatom(db,name) && wg_atomtype(db,name)==WG_URITYPE) {
-    namestr=wg_atomstr1(db,name);
+    namestr=wr_json_atomstr(db,name);
     if (!(namestr[0])) namestr=NULL;    
   } else {
     namestr=NULL;
   }  
   if (role && wg_isatom(db,role) && wg_atomtype(db,role)==WG_URITYPE) {
-    rolestr=wg_atomstr1(db,role);        
+    rolestr=wr_json_atomstr(db,role);        
     if (!strcmp("conjecture",rolestr) || !strcmp("negated_conjecture",rolestr)) {       
       rolenr=PARSER_GOAL_ROLENR;          
     } else if (!strcmp("hypothesis",rolestr) || !strcmp("assumption",rolestr)) {     
@@ -3300,7 +3305,7 @@ int wr_json_extend_context(glb* g, parse_parm* pp, void* ctxt) {
         if (!part) break;
         continue;
       }
-      keystr=wg_atomstr1(db,key);
+      keystr=wr_json_atomstr(db,key);
       value=wg_first(db,wg_rest(db,part));
       if (!keystr || !keystr[0] || (keystr && !strcmp(keystr,"@vocab"))) {
         part=wg_rest(db,part);
@@ -3356,7 +3361,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
     // do not prefix with vocab if keystr contains colon at non-first place:
     if (ctxtkey==(pp->jsonld_vocabkey) && (!colptr || colptr==keystr)) {         
       // use vocab as a prefix  
-      vocabstr=wg_atomstr1(db,wg_rest(db,el));
+      vocabstr=wr_json_atomstr(db,wg_rest(db,el));
       if ((keylen+strlen(vocabstr)+10)>buflen) {
         wr_show_parse_error(g,"@vocab value + key is too long"); 
         return keystr;
@@ -3365,7 +3370,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
       strcat(buf,keystr);     
       return buf;
     }     
-    ctxtkeystr=wg_atomstr1(db,ctxtkey);    
+    ctxtkeystr=wr_json_atomstr(db,ctxtkey);    
     ctxtkeylen=strlen(ctxtkeystr);
     if (!ctxtkeylen) continue;   
     val=wg_rest(db,el);
@@ -3389,7 +3394,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
         return keystr;
       }            
     }
-    valstr=wg_atomstr1(db,val);
+    valstr=wr_json_atomstr(db,val);
     if (!valstr) continue;
     valstrlen=strlen(valstr);
     if (!valstrlen) continue;    
@@ -3430,7 +3435,7 @@ void* wr_json_expand_atom(glb* g, void* mpool, parse_parm* pp, void* lst, int de
     // lst is an atom, not a real list
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;     
-      valstr=wg_atomstr1(db,lst);
+      valstr=wr_json_atomstr(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
@@ -3488,6 +3493,13 @@ void json_err_printf3(char* s1, int num, char* s2) {
 }
 
 
+/* the string of an atom: an empty string instead of NULL for an empty atom */
+
+static char* wr_json_atomstr(void* db, void* atom) {
+  char* str=wg_atomstr1(db,atom);
+  return (str) ? str : "";
+}
+
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
   char tmp[400],msg[700],name[200];
diff --git a/Db/dbmpool.c b/Db/dbmpool.c
index a937ecd..f2d5014 100644
--- a/Db/dbmpool.c
+++ b/Db/dbmpool.c
@@ -471,11 +471,12 @@ void* wg_list_memberuri(void* db, void* list, void* el) {
 
   if (list==NULL) return NULL;
   elstr=wg_atomstr1(db,el);
+  if (elstr==NULL) return NULL;
   for (; list!=NULL; list=wg_rest(db,list)) {
     listel=wg_first(db,list);
     if (!wg_isatom(db,listel)) continue;
     if (wg_atomtype(db,listel)!=WG_URITYPE) continue;
-    if (!strcmp(elstr,wg_atomstr1(db,listel))) return list;
+    if (wg_atomstr1(db,listel) && !strcmp(elstr,wg_atomstr1(db,listel))) return list;
   }
   return NULL;
 }  
@@ -486,11 +487,12 @@ void* wg_list_memberuri_in_sublist(void* db, void* list, void* el) {
 
   if (list==NULL) return NULL;
   elstr=wg_atomstr1(db,el);
+  if (elstr==NULL) return NULL;
   for (; list!=NULL; list=wg_rest(db,list)) {
     listel=wg_first(db,list);
     if (wg_isatom(db,listel)) {
       if (wg_atomtype(db,listel)!=WG_URITYPE) continue;
-      if (!strcmp(elstr,wg_atomstr1(db,listel))) return list;
+      if (wg_atomstr1(db,listel) && !strcmp(elstr,wg_atomstr1(db,listel))) return list;
     } else if (wg_ispair(db,listel)) {
       tmp=wg_list_memberuri(db,listel,el);
       if (tmp) return list;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index f3ef485..b977315 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -69,6 +69,7 @@ void json_err_printfn2(char* s1, int num, char* s2);
 void json_err_printf3(char* s1, int num, char* s2);
 
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...);
+static char* wr_json_atomstr(void* db, void* atom);
 
 
 
@@ -874,7 +875,7 @@ void* wr_preprocess_json_clauselist
 #endif         
     /*
     if (!clnr && wg_isatom(db,cl) && wg_atomtype(db,cl)==WG_URITYPE &&
-          !strcmp("formulas",wg_atomstr1(db,cl)) ) {
+          !strcmp("formulas",wr_json_atomstr(db,cl)) ) {
       clnr--;      
       continue;
     }
@@ -903,7 +904,7 @@ void* wr_preprocess_json_clauselist
       // tptp import clause 
       if ((dbmemsegh(db)->convert) && (dbmemsegh(db)->tptp)) {
         // do not import when converting
-        printf("\ninclude('%s').\n",wg_atomstr1(db,wg_nth(db,cl,2)));        
+        printf("\ninclude('%s').\n",wr_json_atomstr(db,wg_nth(db,cl,2)));        
       } else {
         wr_process_json_import_clause(g,mpool,cl,clvec);
       }  
@@ -994,7 +995,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   //printf("\n");
 #endif  
   if (wg_atomtype(db,pathatom)!=WG_URITYPE) return 0;  
-  str=wg_atomstr1(db,pathatom); 
+  str=wr_json_atomstr(db,pathatom); 
   if (str && str[0]=='#') str=str+1;
   lastslash=strrchr(g->filename,'/');
   if (lastslash!=NULL) {
@@ -1158,11 +1159,11 @@ void* wr_process_json_formula(glb* g,parse_parm* pp, void* cl, int isincluded) {
       } else {
         // ok case
         if (name) {    
-          namestr=wg_atomstr1(db,name);        
+          namestr=wr_json_atomstr(db,name);        
           pp->formulaname=namestr;
         }  
         if (role) {
-          rolestr=wg_atomstr1(db,role);          
+          rolestr=wr_json_atomstr(db,role);          
           pp->formularole=rolestr;                         
         }  
         if (role && strcmp(rolestr,"axiom") && strcmp(rolestr,"assumption") &&
@@ -1425,15 +1426,15 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     }   
     // negated atom?        
     if ((wg_atomtype(db,cl)==WG_URITYPE && cl!=pp->logfalse && cl!=pp->logtrue) &&
-        wg_atomstr1(db,cl) &&
-        ((wg_atomstr1(db,cl))[0]=='-' ||
-         (wg_atomstr1(db,cl))[0]=='~')) {                      
-      if (wg_atomstr1(db,cl)[1]=='-' || (wg_atomstr1(db,cl))[0]=='~') {
+        wr_json_atomstr(db,cl) &&
+        ((wr_json_atomstr(db,cl))[0]=='-' ||
+         (wr_json_atomstr(db,cl))[0]=='~')) {                      
+      if (wr_json_atomstr(db,cl)[1]=='-' || (wr_json_atomstr(db,cl))[0]=='~') {
         wr_show_jsparse_error(g,pp,
           "double negation character like -- or ~~ prohibited in logical symbols");
         return NULL;
       }
-      r1=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,cl)+1),NULL);            
+      r1=wg_mkatom(db,mpool,WG_URITYPE,(wr_json_atomstr(db,cl)+1),NULL);            
       cl=wg_mklist2(db,mpool,pp->logneg,r1);
       if (!r1 || !cl) {
         wr_show_jsparse_error(g,pp,"cannot process neg atom: memory overflow");
@@ -1459,12 +1460,12 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
     if (head==NULL) {
       wr_show_jsparse_error(g,pp,"null value at the head of a logical list");
       return NULL;
-    } else if (wg_isatom(db,head) && !strcmp("and",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("and",wr_json_atomstr(db,head)) && !r1) {
       preres=wg_makelogfalse(db,mpool);          
-    } else if (wg_isatom(db,head) && !strcmp("or",wg_atomstr1(db,head)) && !r1) {
+    } else if (wg_isatom(db,head) && !strcmp("or",wr_json_atomstr(db,head)) && !r1) {
       preres=wg_makelogtrue(db,mpool); 
     } else if (wr_json_is_eq_op(g,r1el) && head && wg_ispair(db,r2)) {      
-      str=wg_atomstr1(db,r1el);
+      str=wr_json_atomstr(db,r1el);
       if (*str!='=') {
         // not a positive equality, hence negative
         head=wr_process_json_term(g,pp,head,0,1);
@@ -1482,9 +1483,9 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
         preres=wg_mklist3(db,mpool,r1el,head,r2el);
       }  
     } else if (wg_isatom(db,head) &&
-               (!strcmp("not",wg_atomstr1(db,head)) ||
-                !strcmp("-",wg_atomstr1(db,head)) ||
-                !strcmp("~",wg_atomstr1(db,head)) )) {  
+               (!strcmp("not",wr_json_atomstr(db,head)) ||
+                !strcmp("-",wr_json_atomstr(db,head)) ||
+                !strcmp("~",wr_json_atomstr(db,head)) )) {  
       // negation               
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for not connective");
@@ -1499,7 +1500,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logneg);
       *((gint*)r1)=(gint)r1proc;
       preres=cl;      
-    } else if (wg_isatom(db,head) && !strcmp("exists",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("exists",wr_json_atomstr(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for exists connective");
         return NULL;
@@ -1523,7 +1524,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logexists);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("forall",wg_atomstr1(db,head))) {      
+    } else if (wg_isatom(db,head) && !strcmp("forall",wr_json_atomstr(db,head))) {      
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for forall connective");
         return NULL;
@@ -1547,7 +1548,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       *((gint*)cl)=(gint)(pp->logall);
       *((gint*)r2)=(gint)r2proc;
       preres=cl;
-    } else if (wg_isatom(db,head) && !strcmp("if",wg_atomstr1(db,head))) {
+    } else if (wg_isatom(db,head) && !strcmp("if",wr_json_atomstr(db,head))) {
       preres=wr_json_process_if_then(g,pp,cl);   
     } else if (logconn!=NULL) {
       // contains logical stuff at top
@@ -1559,7 +1560,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
 #endif      
       newlogconn=wr_json_translate_connective(g,pp,logconn);
       isneg=wr_json_negtype_connective(g,pp,logconn);
-      if (wg_isatom(db,logconn) && !strcmp("<=",wg_atomstr1(db,logconn))) isreverse=1;
+      if (wg_isatom(db,logconn) && !strcmp("<=",wr_json_atomstr(db,logconn))) isreverse=1;
       else isreverse=0;
 #ifdef DEBUG      
       printf("\nwr_process_json_formula_aux before unflatten  is\n");
@@ -1643,7 +1644,7 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     // detect if there are keys    
     for (part=wg_rest(db,cl); part!=NULL; part=wg_rest(db,part)) {
       key=wg_first(db,part);
-      keystr=wg_atomstr1(db,key);
+      keystr=wr_json_atomstr(db,key);
       if (key && !(wr_json_special_keystr(g, keystr))) {
         foundkey=1;
         break;
@@ -1660,13 +1661,17 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       continue;
     }  
     tmp=wg_rest(db,part);
-    keystr=wg_atomstr1(db,key);
+    keystr=wr_json_atomstr(db,key);
     if (wg_ispair(db,tmp)) {
       keyval=wg_first(db,tmp);
     } else {
       keyval=NULL;
     }
     // here we have keystr and keyval
+    if (!keystr[0]) {
+      wr_show_jsparse_error(g,pp,"a key must not be an empty string");
+      return NULL;
+    }
     if (!(wr_json_special_keystr(g, keystr))) {
       // normal key, not a special @-prefixed key
 #ifdef EXPAND_JSONLD_KEYS      
@@ -1688,14 +1693,14 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
       keyval=wr_json_expand_list_prefixes(g,mpool,pp,keyval,0);      
 #endif      
       extended=wr_add_struct_key_atoms(g,pp,id,
-          wg_atomstr1(db,pp->jsonld_typerepl),keyval,extended);
+          wr_json_atomstr(db,pp->jsonld_typerepl),keyval,extended);
     } else if (!strcmp("@graph",keystr)) {
       if (origid || foundkey) {
         if (!id) {               
           id=wr_json_mkid(g,mpool,pp,origid,NULL);      
         }         
       }        
-      for (part=keyval; part!=NULL; part=wg_rest(db,part)) {
+      for (part=keyval; wg_ispair(db,part); part=wg_rest(db,part)) {
         graphel=wg_first(db,part);
         //tmpval=(pp->parse_top_level);
         wr_json_push_context(g,pp,array);
@@ -1729,8 +1734,8 @@ void* wr_process_json_formula_struct(glb* g, parse_parm* pp,
     //extended=wr_process_json_formula_aux(g,pp,extended); //,0,1);  
     if (logic) {     
       // both extended and logic part present        
-      if (role && (!strcmp(wg_atomstr1(db,role),"question") ||
-         !strcmp(wg_atomstr1(db,role),"conjecture"))) {
+      if (role && (!strcmp(wr_json_atomstr(db,role),"question") ||
+         !strcmp(wr_json_atomstr(db,role),"conjecture"))) {
         logic=wr_json_add_with_negated_or(g,pp,logic,extended);
       } else {         
         logic=wr_json_add_with_and(g,pp,logic,extended);       
@@ -1796,7 +1801,7 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
       if (wr_json_isvar(g,pp,values)) {
         modvalue=values;
       } else {
-        valstr=wg_atomstr1(db,values);
+        valstr=wr_json_atomstr(db,values);
         modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
       }  
     } else {
@@ -1813,14 +1818,14 @@ void* wr_add_struct_key_atoms(glb* g, parse_parm* pp,
     if (!list) list=wg_get_keystrval(db, "@set", values);
     value=wg_get_keystrval(db, "@value", values);
     if (value && wg_atomtype(db,value)==WG_URITYPE) {
-      valstr=wg_atomstr1(db,value);
+      valstr=wr_json_atomstr(db,value);
       modvalue=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,valstr,NULL);
     } else {
       modvalue=value;
     } 
     if (list) {
       // list structure case
-      if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+      if (wg_isatom(db,list) && !strcmp("$nil",wr_json_atomstr(db,list)))
         res1=list;
       else
         res1=wr_process_json_list(g,pp,list);
@@ -1930,7 +1935,7 @@ void* wr_json_expand_list_prefixes(glb* g, void* mpool, parse_parm* pp, void* ls
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;
 #ifdef EXPAND_JSONLD_LISTKEYS      
-      valstr=wg_atomstr1(db,lst);
+      valstr=wr_json_atomstr(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
@@ -1969,7 +1974,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   printf("\n");
   */
   if (givenid) {    
-    str=wg_atomstr1(g->db,givenid);
+    str=wr_json_atomstr(g->db,givenid);
     if (!str) return NULL;
     if (*str=='_' && *(str+1)==':') {
       // blank node
@@ -1995,7 +2000,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
           wg_atomtype(db,base)==WG_URITYPE &&
           wg_atomstr1(db,base)) {
         // try to use base    
-        basestr=wg_atomstr1(db,base);    
+        basestr=wr_json_atomstr(db,base);    
         len=strlen(basestr);
         if (wr_json_is_expandable_uristr(g,str) &&
             len &&  wg_suitable_context_uri_end(db,*(basestr+len-1))) {               
@@ -2017,7 +2022,7 @@ void* wr_json_mkid(glb* g, void* mpool, parse_parm* pp, void* givenid, void* map
   } else {    
     // NULL givenid, make a new one   
     sprintf(buf,"_:crtd_%d",
-      //wg_atomstr1(db,pp->jsonld_blankprefatom),
+      //wr_json_atomstr(db,pp->jsonld_blankprefatom),
       (dbmemsegh(db)->parse_json_blankseed));
     (dbmemsegh(db)->parse_json_blankseed)++;
     res=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,buf,NULL);                 
@@ -2083,7 +2088,7 @@ int wr_json_isvar(glb* g, parse_parm* pp, void* atom) {
 
   if (!wg_isatom(db,atom)) return 0;  
   if (wg_atomtype(db,atom)!=WG_URITYPE) return 0;
-  str=wg_atomstr1(db,atom);    
+  str=wr_json_atomstr(db,atom);    
   if (*str=='?' && *(str+1)==':') return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->boundvars),atom)) return 1;
   if (wg_list_memberuri_in_sublist(db,(pp->freevars),atom)) return 1; 
@@ -2133,7 +2138,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         wr_show_jsparse_error(g,pp,"json object has neither @logic nor @list key value");
         return NULL;
       } else {
-        if (wg_isatom(db,list) && !strcmp("$nil",wg_atomstr1(db,list)))
+        if (wg_isatom(db,list) && !strcmp("$nil",wr_json_atomstr(db,list)))
           cl=list;
         else
           cl=wr_process_json_list(g,pp,list);
@@ -2157,7 +2162,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       if (!a1) return NULL;
       pp->nullvars=wg_mkpair(db,mpool,a1,pp->nullvars);
       return a1;
-    } else if (!wg_atomstr1(db,cl) || !(wg_atomstr1(db,cl)[0])) {      
+    } else if (!wr_json_atomstr(db,cl) || !(wr_json_atomstr(db,cl)[0])) {      
       preres=wg_mkatom(db,mpool,WG_ANONCONSTTYPE,"$emptystr",NULL);
     } else if (wg_atomtype(db,cl)!=WG_URITYPE && wg_atomtype(db,cl)!=WG_ANONCONSTTYPE && 
               cl!=pp->logfalse && cl!=pp->logtrue) {
@@ -2185,12 +2190,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
                wg_list_memberuri_in_sublist(db,(pp->boundvars),cl)) {
       // bound variable case           
       preres=cl;     
-    } else if (!strcmp(wg_atomstr1(db,cl),wg_atomstr1(db,pp->jsonld_typekey))) {
+    } else if (!strcmp(wr_json_atomstr(db,cl),wr_json_atomstr(db,pp->jsonld_typekey))) {
       preres=pp->jsonld_typerepl;
     } else if (wg_atomtype(db,cl)==WG_URITYPE) { 
         
       
-      valstr=wg_atomstr1(db,cl);
+      valstr=wr_json_atomstr(db,cl);
       modified=0;
 #ifdef EXPAND_JSONLD_TERMS      
       // use context to change uri string valstr as necessary        
@@ -2237,8 +2242,8 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       r2=NULL;
     }   
     if (atomlevel && wg_isatom(db,r1el) && r1el &&
-        (!strcmp("=",wg_atomstr1(db,r1el)) | 
-         !strcmp("!=",wg_atomstr1(db,r1el)) )) {  
+        (!strcmp("=",wr_json_atomstr(db,r1el)) | 
+         !strcmp("!=",wr_json_atomstr(db,r1el)) )) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2250,7 +2255,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,head,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,r1el)))  {
+      if (!strcmp("=",wr_json_atomstr(db,r1el)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1; 
         *((gint*)r2)=(gint)a2; 
@@ -2267,11 +2272,11 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       }
       //return preres;
     } else if (!atomlevel && wg_isatom(db,r1el) && r1el &&
-        wg_atomstr1(db,r1el) &&  
-        (!strcmp("+",wg_atomstr1(db,r1el)) | 
-         !strcmp("*",wg_atomstr1(db,r1el)) |
-         !strcmp("-",wg_atomstr1(db,r1el)) |
-         !strcmp("/",wg_atomstr1(db,r1el)))) {  
+        wr_json_atomstr(db,r1el) &&  
+        (!strcmp("+",wr_json_atomstr(db,r1el)) | 
+         !strcmp("*",wr_json_atomstr(db,r1el)) |
+         !strcmp("-",wr_json_atomstr(db,r1el)) |
+         !strcmp("/",wr_json_atomstr(db,r1el)))) {  
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for arithmetic operation");
         return NULL;
@@ -2290,10 +2295,10 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       preres=cl;
 
     } else if (atomlevel &&  wg_isatom(db,head) && 
-        (!strcmp("=",wg_atomstr1(db,head)) | 
-         !strcmp("!=",wg_atomstr1(db,head)) |
-         !strcmp("-=",wg_atomstr1(db,head)) |
-         !strcmp("~=",wg_atomstr1(db,head)) )) { 
+        (!strcmp("=",wr_json_atomstr(db,head)) | 
+         !strcmp("!=",wr_json_atomstr(db,head)) |
+         !strcmp("-=",wr_json_atomstr(db,head)) |
+         !strcmp("~=",wr_json_atomstr(db,head)) )) { 
       if (r2==NULL) {
         wr_show_jsparse_error(g,pp,"too few arguments for = or !=");
         return NULL;
@@ -2305,7 +2310,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
       a1=wr_process_json_term(g,pp,r1el,0,1);
       a2=wr_process_json_term(g,pp,wg_first(db,r2),0,2);
       if (!a1 || !a2) return NULL;
-      if (!strcmp("=",wg_atomstr1(db,head)))  {
+      if (!strcmp("=",wr_json_atomstr(db,head)))  {
         *((gint*)cl)=(gint)(pp->atomeq);
         *((gint*)r1)=(gint)a1;
         *((gint*)r2)=(gint)a2;
@@ -2327,12 +2332,12 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
     } else if (wg_atomtype(db,head)!=WG_URITYPE && wg_atomtype(db,head)!=WG_ANONCONSTTYPE) {   
       wr_show_jsparse_error(g,pp,"atom must start with a constant");
       return NULL;
-    } else if ((wg_atomstr1(db,head))[0]=='\0') {
+    } else if ((wr_json_atomstr(db,head))[0]=='\0') {
       wr_show_jsparse_error(g,pp,"atom must not start with an empty string");
       return NULL;
     } else if (atomlevel && 
-                ( (wg_atomstr1(db,head))[0]=='-' ||
-                  (wg_atomstr1(db,head))[0]=='~' )) {  
+                ( (wr_json_atomstr(db,head))[0]=='-' ||
+                  (wr_json_atomstr(db,head))[0]=='~' )) {  
       //tmpres=NULL;
       for(n=0,part=cl; part!=NULL; part=wg_rest(db,part),n++) {
         tmp=wr_process_json_term(g,pp,wg_first(db,part),0,n);
@@ -2340,9 +2345,9 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         *((gint*)part)=(gint)tmp;
         //tmpres=wg_mkpair(db,mpool,tmp,tmpres);
       }                          
-      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wg_atomstr1(db,head)+1),NULL);
+      tmp=wg_mkatom(db,mpool,WG_URITYPE,(wr_json_atomstr(db,head)+1),NULL);
       // the name without the negation sign is read like the name of a positive atom
-      if (tmp && *(wg_atomstr1(db,head)+1)) tmp=wr_process_json_term(g,pp,tmp,0,0);
+      if (tmp && *(wr_json_atomstr(db,head)+1)) tmp=wr_process_json_term(g,pp,tmp,0,0);
       *((gint*)cl)=(gint)tmp;
       preres=wg_mklist2(db,mpool,pp->logneg,cl);
       if (!tmp || !preres) {
@@ -2350,7 +2355,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
         return NULL;
       }
     } else if (wg_isatom(db,head) &&
-              (!strcmp("exists",wg_atomstr1(db,head)) || !strcmp("all",wg_atomstr1(db,head))) ) {
+              (!strcmp("exists",wr_json_atomstr(db,head)) || !strcmp("all",wr_json_atomstr(db,head))) ) {
       if (r1==NULL) {
         wr_show_jsparse_error(g,pp,"not enough arguments for quantifier");
         return NULL;
@@ -2444,7 +2449,7 @@ void* wr_json_list_logconn(glb* g, parse_parm* pp, void* cl) {
   if (wg_isatom(db,cl)) return NULL;
   for(part=cl,nr=0; wg_ispair(db,part); part=wg_rest(db,part),nr++) {   
     el=wg_first(db,part);
-    if (wg_isatom(db,el) && (!wg_atomstr1(db,el) || !(wg_atomstr1(db,el)[0])))
+    if (wg_isatom(db,el) && (!wr_json_atomstr(db,el) || !(wr_json_atomstr(db,el)[0])))
       continue;
     if (wr_json_is_connective(g,el)) {
       if (foundconn==NULL) {
@@ -2479,7 +2484,7 @@ int wr_json_is_varlist(glb* g, parse_parm* pp, void* ptr) {
     if (!wr_is_json_freevar(g,pp,el)) {
       char* vs;
       if (!wg_isatom(db,el) || wg_atomtype(db,el)!=WG_URITYPE) return 0;
-      vs=wg_atomstr1(db,el);
+      vs=wr_json_atomstr(db,el);
       if (!vs || vs[0]<'A' || vs[0]>'Z') return 0;
     }
     ptr=wg_rest(db,ptr);
@@ -2512,7 +2517,7 @@ int wr_json_is_connective(glb* g,void* ptr) {
   if (!wg_isatom(db,ptr) || 
       (wg_atomtype(db,ptr)!=WG_URITYPE &&
        wg_atomtype(db,ptr)!=WG_ANONCONSTTYPE)) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   if (!strcmp("not",str)) return 1;
   if (!strcmp("~",str)) return 1;
   if (!strcmp("-",str)) return 1;
@@ -2547,7 +2552,7 @@ int wr_json_is_eq_op(glb* g,void* ptr) {
   char* str;
 
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   if (!strcmp("=",str)) return 1;
   if (!strcmp("~=",str)) return 1;
   if (!strcmp("-=",str)) return 1;
@@ -2564,7 +2569,7 @@ void* wr_json_translate_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   if (!strcmp("not",str)) return pp->logneg;
   if (!strcmp("~",str)) return  pp->logneg;
   if (!strcmp("-",str)) return  pp->logneg;
@@ -2597,7 +2602,7 @@ int wr_json_negtype_connective(glb* g,parse_parm* pp,void* ptr) {
   char* str;
 
   //if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_STRTYPE) return 0; 
-  str=wg_atomstr1(db,ptr);
+  str=wr_json_atomstr(db,ptr);
   
   if (!strcmp("<~>",str)) return 1;
   if (!strcmp("~|",str)) return 1;
@@ -2610,7 +2615,7 @@ int wr_is_json_freevar(glb* g,parse_parm* pp,void* ptr) {
   void* db=g->db;
   char *s;
   if (!wg_isatom(db,ptr) || wg_atomtype(db,ptr)!=WG_URITYPE) return 0;
-  s=wg_atomstr1(db,ptr);
+  s=wr_json_atomstr(db,ptr);
   if ((*s)=='\0') return 0;
   if ((*s)!='?') return 0;
   s++;
@@ -2633,8 +2638,8 @@ int wr_json_equal_atoms(glb* g,void* a1, void* a2) {
 
   if (!wg_isatom(db,a1) || wg_atomtype(db,a1)!=WG_URITYPE) return 0;
   if (!wg_isatom(db,a2) || wg_atomtype(db,a2)!=WG_URITYPE) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wr_json_atomstr(db,a1);
+  str2=wr_json_atomstr(db,a2);
   if (!strcmp(str1,str2)) return 1;
   return 0;
 }
@@ -2652,8 +2657,8 @@ int wr_json_really_equal_atoms(glb* g,void* a1, void* a2) {
   */
   if (!wg_isatom(db,a1)) return 0;
   if (!wg_isatom(db,a2)) return 0;
-  str1=wg_atomstr1(db,a1);
-  str2=wg_atomstr1(db,a2);
+  str1=wr_json_atomstr(db,a1);
+  str2=wr_json_atomstr(db,a2);
   if (!strcmp(str1,str2)) {
     //printf("\nequal\n");
     return 1;
@@ -2673,7 +2678,7 @@ void* wr_json_process_if_then(glb* g, parse_parm* pp, void* ptr) {
   for(part=wg_rest(db,ptr); part!=NULL;  part=wg_rest(db,part)) {
     el=wg_first(db,part);
     if (wg_isatom(db,el) && wg_atomtype(db,el)==WG_URITYPE &&
-        !strcmp(wg_atomstr1(db,el),"then")) {
+        !strcmp(wr_json_atomstr(db,el),"then")) {
       incond=0;
       continue;
     }
@@ -3008,7 +3013,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
 #endif      
     if (!wg_ispair(db,lit)) { issimple=0; continue; }
     fun=wg_first(db,lit);
-    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wg_atomstr1(db,fun),"not")) { issimple=0; continue; }
+    if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && !strcmp(wr_json_atomstr(db,fun),"not")) { issimple=0; continue; }
     for(termpart=lit;wg_ispair(db,termpart);termpart=wg_rest(db,termpart)) {
       subterm=wg_first(db,termpart);
 #ifdef DEBUG        
@@ -3019,8 +3024,8 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
       if (subterm!=NULL && wg_ispair(db,subterm)) { issimple=0; break; }     
       if (wg_atomtype(db,subterm)==WG_VARTYPE) { issimple=0; break; } 
       if (wg_atomtype(db,subterm)==WG_URITYPE &&  
-          ( (g->parse_caps_as_var && isupper(wg_atomstr1(db,subterm)[0])) ||
-            (g->parse_question_as_var && wg_atomstr1(db,subterm)[0]=='?') )) {issimple=0; break;} 
+          ( (g->parse_caps_as_var && isupper(wr_json_atomstr(db,subterm)[0])) ||
+            (g->parse_question_as_var && wr_json_atomstr(db,subterm)[0]=='?') )) {issimple=0; break;} 
     }      
   }        
   if (litnr>1) issimple=0;   
@@ -3076,7 +3081,7 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
     }     
     isneg=0;
     if (wg_atomtype(db,fun)==WG_ANONCONSTTYPE && 
-        !strcmp(wg_atomstr1(db,fun),"not") &&
+        !strcmp(wr_json_atomstr(db,fun),"not") &&
         wg_atomstr2(db,fun)==NULL) {
       //DPRINTF("detected negation");
       isneg=1;            
@@ -3160,13 +3165,13 @@ void* wr_js_parse_clause(glb* g,void* mpool,void* cl,cvec clvec,
   } // end one clause processing loop
   // set history 
   if (name && wg_isatom(db,name) && wg_atomtype(db,name)==WG_URITYPE) {
-    namestr=wg_atomstr1(db,name);
+    namestr=wr_json_atomstr(db,name);
     if (!(namestr[0])) namestr=NULL;    
   } else {
     namestr=NULL;
   }  
   if (role && wg_isatom(db,role) && wg_atomtype(db,role)==WG_URITYPE) {
-    rolestr=wg_atomstr1(db,role);        
+    rolestr=wr_json_atomstr(db,role);        
     if (!strcmp("conjecture",rolestr) || !strcmp("negated_conjecture",rolestr)) {       
       rolenr=PARSER_GOAL_ROLENR;          
     } else if (!strcmp("hypothesis",rolestr) || !strcmp("assumption",rolestr)) {     
@@ -3300,7 +3305,7 @@ int wr_json_extend_context(glb* g, parse_parm* pp, void* ctxt) {
         if (!part) break;
         continue;
       }
-      keystr=wg_atomstr1(db,key);
+      keystr=wr_json_atomstr(db,key);
       value=wg_first(db,wg_rest(db,part));
       if (!keystr || !keystr[0] || (keystr && !strcmp(keystr,"@vocab"))) {
         part=wg_rest(db,part);
@@ -3356,7 +3361,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
     // do not prefix with vocab if keystr contains colon at non-first place:
     if (ctxtkey==(pp->jsonld_vocabkey) && (!colptr || colptr==keystr)) {         
       // use vocab as a prefix  
-      vocabstr=wg_atomstr1(db,wg_rest(db,el));
+      vocabstr=wr_json_atomstr(db,wg_rest(db,el));
       if ((keylen+strlen(vocabstr)+10)>buflen) {
         wr_show_parse_error(g,"@vocab value + key is too long"); 
         return keystr;
@@ -3365,7 +3370,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
       strcat(buf,keystr);     
       return buf;
     }     
-    ctxtkeystr=wg_atomstr1(db,ctxtkey);    
+    ctxtkeystr=wr_json_atomstr(db,ctxtkey);    
     ctxtkeylen=strlen(ctxtkeystr);
     if (!ctxtkeylen) continue;   
     val=wg_rest(db,el);
@@ -3389,7 +3394,7 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
         return keystr;
       }            
     }
-    valstr=wg_atomstr1(db,val);
+    valstr=wr_json_atomstr(db,val);
     if (!valstr) continue;
     valstrlen=strlen(valstr);
     if (!valstrlen) continue;    
@@ -3430,7 +3435,7 @@ void* wr_json_expand_atom(glb* g, void* mpool, parse_parm* pp, void* lst, int de
     // lst is an atom, not a real list
     if (wg_atomtype(db,lst)==WG_URITYPE) {
       keyval=lst;     
-      valstr=wg_atomstr1(db,lst);
+      valstr=wr_json_atomstr(db,lst);
       modvalstr=wg_modify_keystr_by_ctxt(g,pp,keybuf,buflen,valstr);
       if (modvalstr!=valstr) {
         if (!modvalstr) valstr=keybuf;
@@ -3488,6 +3493,13 @@ void json_err_printf3(char* s1, int num, char* s2) {
 }
 
 
+/* the string of an atom: an empty string instead of NULL for an empty atom */
+
+static char* wr_json_atomstr(void* db, void* atom) {
+  char* str=wg_atomstr1(db,atom);
+  return (str) ? str : "";
+}
+
 static int wr_show_jsparse_error(glb* g, parse_parm* pp, char* format, ...) {
   //void* db=g->db;
   char tmp[400],msg[700],name[200];
-- 
2.43.0


From 805eb4adbc965a6361f8c9b0b69ded47aec782cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:55 +0000
Subject: [PATCH 60/80] fix: later includes are relative to the including file,
 not to the last included one

---
 Builtparser/dbparse.c | 3 +++
 Builtparser/jsparse.c | 3 +++
 Parser/dbparse.c      | 3 +++
 Parser/jsparse.c      | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 980142f..343bc8d 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -1023,6 +1023,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   char* p1;
   char* p2;
   char* str2;
+  char* curfilename;
   int tmp;
  
 #ifdef IDEBUG
@@ -1110,6 +1111,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
+  curfilename=(g->filename); // later includes are relative to this file
   if (tmp>=MAX_INCLUDE_DEPTH) {
     wr_show_parse_error(g,"include files are nested too deeply");
     return NULL;
@@ -1119,6 +1121,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
     (g->parse_errflag)=1;
   }
   (g->parse_is_included_file)=tmp;
+  (g->filename)=curfilename;
   return NULL;
 }
 
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index b977315..4b489df 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -971,6 +971,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   char* str2;
   int askinfo=0;
   int depth,res;
+  char* curfilename;
   //int tmp;
  
 #ifdef IDEBUG
@@ -1057,6 +1058,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   printf("\nfilename %s\n",filename);
 #endif   
   depth=(g->parse_is_included_file);
+  curfilename=(g->filename); // later includes are relative to this file
   if (depth>=MAX_INCLUDE_DEPTH) {
     wr_show_jsparse_error(g,NULL,"include files are nested too deeply");
     return NULL;
@@ -1080,6 +1082,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
     res=wr_import_otter_file(g,filename,NULL,clvec,depth+1);
   }
   (g->parse_is_included_file)=depth;
+  (g->filename)=curfilename;
   // already reported: do not go on without the included formulas
   if (res) (g->parse_errflag)=1;
   return NULL;
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 980142f..343bc8d 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -1023,6 +1023,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   char* p1;
   char* p2;
   char* str2;
+  char* curfilename;
   int tmp;
  
 #ifdef IDEBUG
@@ -1110,6 +1111,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   printf("\nfilename %s\n",filename);
 #endif   
   tmp=(g->parse_is_included_file);
+  curfilename=(g->filename); // later includes are relative to this file
   if (tmp>=MAX_INCLUDE_DEPTH) {
     wr_show_parse_error(g,"include files are nested too deeply");
     return NULL;
@@ -1119,6 +1121,7 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
     (g->parse_errflag)=1;
   }
   (g->parse_is_included_file)=tmp;
+  (g->filename)=curfilename;
   return NULL;
 }
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index b977315..4b489df 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -971,6 +971,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   char* str2;
   int askinfo=0;
   int depth,res;
+  char* curfilename;
   //int tmp;
  
 #ifdef IDEBUG
@@ -1057,6 +1058,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   printf("\nfilename %s\n",filename);
 #endif   
   depth=(g->parse_is_included_file);
+  curfilename=(g->filename); // later includes are relative to this file
   if (depth>=MAX_INCLUDE_DEPTH) {
     wr_show_jsparse_error(g,NULL,"include files are nested too deeply");
     return NULL;
@@ -1080,6 +1082,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
     res=wr_import_otter_file(g,filename,NULL,clvec,depth+1);
   }
   (g->parse_is_included_file)=depth;
+  (g->filename)=curfilename;
   // already reported: do not go on without the included formulas
   if (res) (g->parse_errflag)=1;
   return NULL;
-- 
2.43.0


From 9325b57301a0c919a298263c35352509f06d8cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:56 +0000
Subject: [PATCH 61/80] fix: report too deeply nested JSON once

---
 Builtparser/jsparse.c | 2 ++
 Parser/jsparse.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 4b489df..e0dac83 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -687,6 +687,7 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed file");
+    (g->parse_errflag)=1;
     if (line!=NULL) wr_free(g,line);
     if (filename) fclose(file);
     yajl_free(hand);
@@ -752,6 +753,7 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed text");
+    (g->parse_errflag)=1;
     yajl_free(hand);
     return -1;
   }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 4b489df..e0dac83 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -687,6 +687,7 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed file");
+    (g->parse_errflag)=1;
     if (line!=NULL) wr_free(g,line);
     if (filename) fclose(file);
     yajl_free(hand);
@@ -752,6 +753,7 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed text");
+    (g->parse_errflag)=1;
     yajl_free(hand);
     return -1;
   }
-- 
2.43.0


From 12a744558431e890ea4bff13d877a6943c589fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:11 +0000
Subject: [PATCH 62/80] fix: stack overflow with deeply nested lists in JSON
 input

---
 Builtparser/jsparse.c | 2 +-
 Parser/jsparse.c      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index e0dac83..218d9cd 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -2112,7 +2112,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
   char *valstr, *modvalstr; 
   int modified;
   int buflen=1000;
-  char keybuf[1000];
+  static char keybuf[1000]; // static: keeps the frames of deep recursions small
 
   //char* str;
 
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index e0dac83..218d9cd 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -2112,7 +2112,7 @@ void* wr_process_json_term(glb* g, parse_parm* pp, void* cl, int atomlevel, int
   char *valstr, *modvalstr; 
   int modified;
   int buflen=1000;
-  char keybuf[1000];
+  static char keybuf[1000]; // static: keeps the frames of deep recursions small
 
   //char* str;
 
-- 
2.43.0


From 2ba61fbd9330e2b3ef7e2d33aa63a24a8a8359a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:49:11 +0000
Subject: [PATCH 63/80] fix: text included from JSON was printed as parsed

---
 Builtparser/jsparse.c | 2 --
 Parser/jsparse.c      | 2 --
 2 files changed, 4 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 218d9cd..1389fba 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -205,8 +205,6 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->print_initial_parser_result)=1;
   (g->print_generic_parser_result)=1;
 #endif        
-  (g->print_initial_parser_result)=1;
-  (g->print_generic_parser_result)=1;
   // set globals for parsing
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 218d9cd..1389fba 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -205,8 +205,6 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   (g->print_initial_parser_result)=1;
   (g->print_generic_parser_result)=1;
 #endif        
-  (g->print_initial_parser_result)=1;
-  (g->print_generic_parser_result)=1;
   // set globals for parsing
   (g->filename)=filename;
   (g->parse_is_included_file)=isincluded;
-- 
2.43.0


From 12ee8912c421c5f11c198e8deae632495c5163da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:40 +0000
Subject: [PATCH 64/80] fix: clausify formulas in included text files

---
 Builtparser/dbparse.c | 1 +
 Parser/dbparse.c      | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 343bc8d..9e04818 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -630,6 +630,7 @@ void* wr_preprocess_clauselist
         }  
       }  
       if (g->parse_is_included_file) {
+        resultclause=wr_clausify_formula(g,mpool,cl,NULL,NULL);
         resultclause=wg_mklist3(db,mpool,clname,clrole,resultclause);
       } else {
         // new version for full logic for otter-style input
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 343bc8d..9e04818 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -630,6 +630,7 @@ void* wr_preprocess_clauselist
         }  
       }  
       if (g->parse_is_included_file) {
+        resultclause=wr_clausify_formula(g,mpool,cl,NULL,NULL);
         resultclause=wg_mklist3(db,mpool,clname,clrole,resultclause);
       } else {
         // new version for full logic for otter-style input
-- 
2.43.0


From 3110ecbf4976f9fa5a828526e9312d008ddf50e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:40 +0000
Subject: [PATCH 65/80] fix: accept files which only include other files

---
 Builtparser/dbparse.c | 7 +++++++
 Builtparser/jsparse.c | 3 +++
 Parser/dbparse.c      | 7 +++++++
 Parser/jsparse.c      | 3 +++
 Reasoner/glb.c        | 1 +
 Reasoner/glb.h        | 1 +
 6 files changed, 22 insertions(+)

diff --git a/Builtparser/dbparse.c b/Builtparser/dbparse.c
index 9e04818..6272dc7 100644
--- a/Builtparser/dbparse.c
+++ b/Builtparser/dbparse.c
@@ -151,6 +151,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   void* pres2=NULL;
   void *mpool=NULL;  
   int tmp_comp_funs,tmplen;
+  int included=(g->parse_included_count);
   
   //printf("\nstarting to read file %s \n",filename);
 #ifdef DEBUG
@@ -279,6 +280,10 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
+  if (!pres && !(g->parse_errmsg) && !(g->parse_errflag) &&
+      (g->parse_included_count)>included) {
+    return 0; // all the clauses may come from included files
+  }
   if (!pres && pres2==NULL && !(g->parse_errmsg) && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
@@ -1120,6 +1125,8 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   if (wr_import_otter_file(g,filename,NULL,NULL,tmp+1)) {
     // already reported: do not go on without the included formulas
     (g->parse_errflag)=1;
+  } else {
+    ++(g->parse_included_count);
   }
   (g->parse_is_included_file)=tmp;
   (g->filename)=curfilename;
diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 1389fba..3910e88 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -196,6 +196,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* pres2=NULL;
   void *mpool;
   int i,tmp_comp_funs;
+  int included=(g->parse_included_count);
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -327,6 +328,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   *askinfo=pp.askinfo;
   if (!(g->parse_errflag) && !(dbmemsegh(db)->errflag)) {
     if (dbmemsegh(db)->convert) pres2=mpool; // already printed
+    else if ((g->parse_included_count)>included) pres2=mpool; // clauses from included files
     else if (pres2==NULL && !isincluded) {
       pp.formulanr=0;
       wr_show_jsparse_error(g,&pp,"no clauses found in %.200s",pp.filename);
@@ -1085,6 +1087,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   (g->filename)=curfilename;
   // already reported: do not go on without the included formulas
   if (res) (g->parse_errflag)=1;
+  else ++(g->parse_included_count);
   return NULL;
 }
 
diff --git a/Parser/dbparse.c b/Parser/dbparse.c
index 9e04818..6272dc7 100644
--- a/Parser/dbparse.c
+++ b/Parser/dbparse.c
@@ -151,6 +151,7 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
   void* pres2=NULL;
   void *mpool=NULL;  
   int tmp_comp_funs,tmplen;
+  int included=(g->parse_included_count);
   
   //printf("\nstarting to read file %s \n",filename);
 #ifdef DEBUG
@@ -279,6 +280,10 @@ int wr_import_otter_file(glb* g, char* filename, char* strasfile, cvec clvec, in
      clause all exited 1 with no output at all
      (/opt/gk/Doc/MEMO_input_robustness.md S1/S2). Say what happened when
      nothing else has. */
+  if (!pres && !(g->parse_errmsg) && !(g->parse_errflag) &&
+      (g->parse_included_count)>included) {
+    return 0; // all the clauses may come from included files
+  }
   if (!pres && pres2==NULL && !(g->parse_errmsg) && !(g->parse_errflag)) {
     db_err_printf2("no clauses found in",
                    (filename)?filename:(char*)"the input text");
@@ -1120,6 +1125,8 @@ void* wr_process_tptp_import_clause(glb* g, void* mpool, void* cl) {
   if (wr_import_otter_file(g,filename,NULL,NULL,tmp+1)) {
     // already reported: do not go on without the included formulas
     (g->parse_errflag)=1;
+  } else {
+    ++(g->parse_included_count);
   }
   (g->parse_is_included_file)=tmp;
   (g->filename)=curfilename;
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 1389fba..3910e88 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -196,6 +196,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   void* pres2=NULL;
   void *mpool;
   int i,tmp_comp_funs;
+  int included=(g->parse_included_count);
   
 #ifdef DEBUG
   //DPRINTF("wr_import_otter_file called\n");
@@ -327,6 +328,7 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
   *askinfo=pp.askinfo;
   if (!(g->parse_errflag) && !(dbmemsegh(db)->errflag)) {
     if (dbmemsegh(db)->convert) pres2=mpool; // already printed
+    else if ((g->parse_included_count)>included) pres2=mpool; // clauses from included files
     else if (pres2==NULL && !isincluded) {
       pp.formulanr=0;
       wr_show_jsparse_error(g,&pp,"no clauses found in %.200s",pp.filename);
@@ -1085,6 +1087,7 @@ void* wr_process_json_import_clause(glb* g, void* mpool, void* cl, cvec clvec) {
   (g->filename)=curfilename;
   // already reported: do not go on without the included formulas
   if (res) (g->parse_errflag)=1;
+  else ++(g->parse_included_count);
   return NULL;
 }
 
diff --git a/Reasoner/glb.c b/Reasoner/glb.c
index 68dda1b..53e8fca 100644
--- a/Reasoner/glb.c
+++ b/Reasoner/glb.c
@@ -143,6 +143,7 @@ int wr_glb_init_simple(glb* g) {
   /* parser temporary */
 
   (g->parse_is_included_file)=0;
+  (g->parse_included_count)=0;
   (g->parse_skolem_prefix)=NULL; 
   // (g->parse_skolem_nr)=0; // moved to dballoc.h
   (g->parse_newpred_prefix)=NULL; 
diff --git a/Reasoner/glb.h b/Reasoner/glb.h
index f660031..b37e201 100644
--- a/Reasoner/glb.h
+++ b/Reasoner/glb.h
@@ -281,6 +281,7 @@ typedef struct glb {
   /* parser temporary vars set by parser */
 
   int parse_is_included_file;
+  int parse_included_count; // nr of files successfully included
   char* parse_skolem_prefix;  
   //int parse_skolem_nr; // moved to dballoc.h
   char* parse_newpred_prefix; 
-- 
2.43.0


From 8fa8c19d9b1a17e1562771f3cfeca07ed44a960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:21 +0000
Subject: [PATCH 66/80] fix: report JSON syntax errors once

---
 Builtparser/jsparse.c | 12 ++++++++----
 Parser/jsparse.c      | 12 ++++++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index 3910e88..ca00946 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -300,7 +300,10 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
     // a syntax error is already reported: do not use the part read before it
     if (wr_yajl_parse_file(g,&pp,filename, 
           clvec, isincluded,
-          askpolarity, askinfo, mpool, streaming)<0) pp.result=NULL;
+          askpolarity, askinfo, mpool, streaming)<0) {
+      pp.result=NULL;
+      (g->parse_errflag)=1;
+    }  
   } else {
     // input from string      
     pp.filename="string";
@@ -310,7 +313,10 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    if (wr_yajl_parse_string(g,&pp,strasfile)<0) pp.result=NULL;
+    if (wr_yajl_parse_string(g,&pp,strasfile)<0) {
+      pp.result=NULL;
+      (g->parse_errflag)=1;
+    }  
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
@@ -687,7 +693,6 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed file");
-    (g->parse_errflag)=1;
     if (line!=NULL) wr_free(g,line);
     if (filename) fclose(file);
     yajl_free(hand);
@@ -753,7 +758,6 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed text");
-    (g->parse_errflag)=1;
     yajl_free(hand);
     return -1;
   }
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index 3910e88..ca00946 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -300,7 +300,10 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
     // a syntax error is already reported: do not use the part read before it
     if (wr_yajl_parse_file(g,&pp,filename, 
           clvec, isincluded,
-          askpolarity, askinfo, mpool, streaming)<0) pp.result=NULL;
+          askpolarity, askinfo, mpool, streaming)<0) {
+      pp.result=NULL;
+      (g->parse_errflag)=1;
+    }  
   } else {
     // input from string      
     pp.filename="string";
@@ -310,7 +313,10 @@ int wr_import_js_file(glb* g, char* filename, char* strasfile, cvec clvec, int i
 #endif    
     pp.length = strlen(strasfile);
     pp.pos = 0;
-    if (wr_yajl_parse_string(g,&pp,strasfile)<0) pp.result=NULL;
+    if (wr_yajl_parse_string(g,&pp,strasfile)<0) {
+      pp.result=NULL;
+      (g->parse_errflag)=1;
+    }  
   }   
 #ifdef DEBUG
   printf("\njson parser result:\n");    
@@ -687,7 +693,6 @@ int wr_yajl_parse_file(glb* g, parse_parm* pp, char* filename,
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed file");
-    (g->parse_errflag)=1;
     if (line!=NULL) wr_free(g,line);
     if (filename) fclose(file);
     yajl_free(hand);
@@ -753,7 +758,6 @@ int wr_yajl_parse_string(glb* g, parse_parm* pp, char* strasfile) {
     json_err_printfn2("json nesting deeper than the limit of ",
                       PARSE_NESTING_DEPTH-1, "levels: check for a runaway "
                       "list or a malformed text");
-    (g->parse_errflag)=1;
     yajl_free(hand);
     return -1;
   }
-- 
2.43.0


From 8fa056179f904bb5c83e0f41345895ab1233aa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:58:18 +0000
Subject: [PATCH 67/80] fix: crash when printing derived clauses as database
 records at print level 51

---
 Reasoner/hash.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Reasoner/hash.c b/Reasoner/hash.c
index 7fdf341..c8fcc1c 100644
--- a/Reasoner/hash.c
+++ b/Reasoner/hash.c
@@ -1076,6 +1076,7 @@ void wr_print_termhash(glb* g, gint* hasharr) {
 void wr_print_offset_termhash(glb* g, gint* hasharr) {
   int i,j;
   cvec bucket;
+  char* rec;
  
   //printf("\nhashvec len %ld ptr %lx and els:\n",hasharr[0],(unsigned long int)hasharr);  
   wr_printf("\nhashvec len %ld els:\n",hasharr[0]);  
@@ -1095,8 +1096,12 @@ void wr_print_offset_termhash(glb* g, gint* hasharr) {
           //CP2          
           wr_printf(" in clause ");
           wr_print_clause(g,rotp(g,bucket[j+1]));          
-          wr_printf(" as rec ");
-          wg_print_record(g->db,rotp(g,bucket[j+1]));
+          rec=(char*)rotp(g,bucket[j+1]);
+          if (rec>(char*)dbmemsegh(g->db) && rec<((char*)dbmemsegh(g->db))+dbmemsegh(g->db)->size) {
+            // derived clauses in clause buffers are not database records
+            wr_printf(" as rec ");
+            wg_print_record(g->db,rotp(g,bucket[j+1]));
+          }
           wr_printf("\n");
         }
       }  
-- 
2.43.0


From f5a2fd95d73a78920233969f1757ebce5944db25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:53 +0000
Subject: [PATCH 68/80] fix: -writekb crashed trying to lock the read-only
 attached knowledge base

---
 Main/gkc.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index b228a48..1e6364a 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -737,7 +737,6 @@ int gkc_main(int argc, char **argv) {
 
   if (!(strncmp(cmdstr,"-writekb",15))) {
      wg_int err;
-     int flags = 0;
 
     if (cmdfileslen<2) {
       err_printf(json,"-writekb needs a file as an argument");
@@ -749,11 +748,9 @@ int gkc_main(int argc, char **argv) {
       return(1);
     }
 
-    /* Locking is handled internally by the dbdump.c functions */
-    if(flags & FLAGS_FORCE)
-      err = wg_dump_internal(shmptr,cmdfiles[1], 0);
-    else
-      err = wg_dump(shmptr,cmdfiles[1]);
+    /* an existing segment is attached read-only: locks cannot be taken,
+       and are not needed either, since a ready kb is never written to */
+    err = wg_dump_internal(shmptr,cmdfiles[1], 0);
 
     if(err<-1) {
       err_printf(json,"cannot write to file, kb may have"\
-- 
2.43.0


From 3f80dda08880395e24f68b7ae89f5c1838ed72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:53 +0000
Subject: [PATCH 69/80] fix: -loadkb failed when the number had a base already,
 and left a partly loaded base

---
 Main/gkc.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index 1e6364a..e3f9d41 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -775,10 +775,13 @@ int gkc_main(int argc, char **argv) {
     }  
     err = wg_check_dump(NULL, cmdfiles[1], &minsize, &maxsize);
     if(err) {
-      err_printf2(json,"loading failed, problem with %s",cmdfiles[1]);
+      err_printf2(json,"loading failed, problem with",cmdfiles[1]);
       return(1);
     }
 
+    // a previous memory database is replaced
+    wg_delete_database(shmname);
+
     shmptr=wg_attach_memsegment(shmname, minsize, maxsize, 1,
       (flags & FLAGS_LOGGING), 0);
     if(!shmptr) {
@@ -793,9 +796,11 @@ int gkc_main(int argc, char **argv) {
     else if(err<-1) {
       err_printf(json,"failed to load, db may have"\
         " become corrupt");
+      wg_delete_database(shmname);
       return(1);  
     } else {
       err_printf(json,"loading failed");
+      wg_delete_database(shmname);
       return(1);
     }
 #ifdef _WIN32    
-- 
2.43.0


From b156101118c4e9cce9c4e38316fb15a8452a42c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:06:57 +0000
Subject: [PATCH 70/80] fix: TPTP proofs of shared knowledge base queries were
 malformed at named input clauses

---
 Reasoner/history.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 9c9586c..83cd3b9 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1944,6 +1944,12 @@ int wr_strprint_one_history
               bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
             }  
           }  
+        } else if (g->print_proof_tptp) {
+          // the source formula is not printed, e.g. when using a shared kb
+          bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",\n  file(unknown,");
+          bpos=wg_strprint_quoted(db,buf,blen,bpos,namestr);
+          if (bpos<0 || !wr_str_guarantee_space(g,buf,blen,bpos+100)) return -1;
+          bpos+=snprintf((*buf)+bpos,(*blen)-bpos,"))");
         } else {
           bpos+=snprintf((*buf)+bpos,(*blen)-bpos,",%s",namestr);
         }  
-- 
2.43.0


From bba76d5ffddd98327c3b454227b2f2e8cdf7568a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:42 +0000
Subject: [PATCH 71/80] fix: debug output among the results of shared knowledge
 base queries

---
 Reasoner/resolve.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/Reasoner/resolve.c b/Reasoner/resolve.c
index 2533c05..e8016e3 100644
--- a/Reasoner/resolve.c
+++ b/Reasoner/resolve.c
@@ -180,8 +180,6 @@ void wr_resolve_binary_all_active(glb* g, gptr cl, gptr cl_as_active, cvec resol
 #endif
           if (r_kb_g(g)) {
             //printf("\nr_kb_g(g) used\n");
-            printf("\ng is %lx db is %lx, r_kb_g(g) used: %lx with r_kb_g(g)->db %lx\n",
-              (unsigned long int)g,(unsigned long int)db,(unsigned long int)r_kb_g(g),(unsigned long int)(r_kb_g(g)->db));
             if (negflag) hashvec=rotp(g,r_kb_g(g)->hash_pos_atoms);
             else hashvec=rotp(g,r_kb_g(g)->hash_neg_atoms); 
 #ifdef DEBUG            
-- 
2.43.0


From 1ef5af100aadb2b30f3593498bdc2f550585bd33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:17:12 +0000
Subject: [PATCH 72/80] fix: crash following symbol occurrences stored in a
 shared knowledge base

---
 Reasoner/rmain.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Reasoner/rmain.c b/Reasoner/rmain.c
index 33f63a4..73465d3 100644
--- a/Reasoner/rmain.c
+++ b/Reasoner/rmain.c
@@ -1241,6 +1241,12 @@ int wr_init_active_passive_lists_from_one(glb* g, void* db, void* child_db) {
     }
   }  
   //printf("\n (g->sine_strat): %d  (g->sine_order_strat) %d\n",(g->sine_strat), (g->sine_order_strat));
+  if ((g->child_db)!=(g->db)) {
+    // symbol occurrences are not known when an external knowledge base is used:
+    // the ones stored in it are pointers of the process which built it
+    (g->sine_strat)=0;
+    (g->sine_order_strat)=0;
+  }
 
   if (g->sine_strat) {
     (g->sine_strat_used)=1;
-- 
2.43.0


From 1dd8f05c7e3e9088676aa44cc037b47798000af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:01 +0000
Subject: [PATCH 73/80] fix: queries of a shared knowledge base not built to
 the end crashed

---
 Main/gkc.c      | 8 ++++++++
 Reasoner/init.c | 5 +++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index e3f9d41..a4df2da 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -552,6 +552,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach to database");
       return(1);
     }
+    if(!(dbmemsegh(shmptr)->rglb)) {
+      err_printf(json,"shared memory database is not complete");
+      return(1);
+    }
     if (tptp && !(clausify) && !(convert)) {
       printf("Using the existing shared memory kb %s.\n",shmname);
     }  
@@ -747,6 +751,10 @@ int gkc_main(int argc, char **argv) {
       err_printf(json,"failed to attach local database");
       return(1);
     }
+    if(!(dbmemsegh(shmptr)->rglb)) {
+      err_printf(json,"shared memory database is not complete");
+      return(1);
+    }
 
     /* an existing segment is attached read-only: locks cannot be taken,
        and are not needed either, since a ready kb is never written to */
diff --git a/Reasoner/init.c b/Reasoner/init.c
index 9413093..4cc7e21 100644
--- a/Reasoner/init.c
+++ b/Reasoner/init.c
@@ -82,8 +82,6 @@ int init_shared_database(void* db, char* guidefilename) {
     wr_errprint("cannot allocate enough memory during reasoner structures initialization");    
     return -1;
   } 
-  // store database pointer to glb structure created
-  (dbh->rglb)=ptrtooffset(db,g);
   // store pointer to whole shared db into the glb structure 
   (g->db)=db;       
   (g->kb_db)=db;
@@ -182,6 +180,9 @@ int init_shared_database(void* db, char* guidefilename) {
 
   //printf("\n (g->in_chain_clause_count) %d \n",(g->in_chain_clause_count));
   if (tmp<0) return -1;
+  // store the pointer to the glb structure created: a zero pointer tells 
+  // that building the database was not completed
+  (dbh->rglb)=ptrtooffset(db,g);
   return 0;
 }
 
-- 
2.43.0


From dd079461a58f0ca24ef9a4858eac16472c54003a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:01 +0000
Subject: [PATCH 74/80] fix: a knowledge base whose loading was interrupted
 crashed queries

---
 Db/dbdump.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index 5cc740c..aa54058 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -325,8 +325,14 @@ gint wg_import_dump(void * db,char fileName[]) {
   } else if(dbsize > 0) {
     /* We have a compatible dump file. */
     newsize = dbh->size;
-    fseek(f, 0, SEEK_SET);
-    if(fread(dbmemseg(db), dbsize, 1, f) != 1) {
+    /* The header is read last: if this process is ended while reading, the
+     * database is still marked as incomplete. */
+    if(dbsize <= (gint) sizeof(db_memsegment_header) ||
+      fseek(f, sizeof(db_memsegment_header), SEEK_SET) ||
+      fread(dbmemsegbytes(db) + sizeof(db_memsegment_header),
+        dbsize - sizeof(db_memsegment_header), 1, f) != 1 ||
+      fseek(f, 0, SEEK_SET) ||
+      fread(dbmemseg(db), sizeof(db_memsegment_header), 1, f) != 1) {
       show_dump_error(db, "Error reading dump file");
       err = -2; /* database is in undetermined state now */
     } else {
-- 
2.43.0


From 77cb07b405ba1bac6607e81259dd1109aba7b694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:19:29 +0000
Subject: [PATCH 75/80] fix: a dump whose last bytes could not be written was
 reported as written

---
 Db/dbdump.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Db/dbdump.c b/Db/dbdump.c
index aa54058..521f3a6 100644
--- a/Db/dbdump.c
+++ b/Db/dbdump.c
@@ -140,8 +140,8 @@ gint wg_dump_internal(void * db, char fileName[], int locking) {
   /* Now, write the memory area to file */
   if(fwrite(dbmemseg(db), dbsize, 1, f) == 1) {
     /* Overwrite checksum field */
-    fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET);
-    if(fwrite(&crc, sizeof(gint32), 1, f) == 1) {
+    if(!fseek(f, ptrtooffset(db, &(dbh->checksum)), SEEK_SET) &&
+      fwrite(&crc, sizeof(gint32), 1, f) == 1 && !fflush(f)) {
       err = 0;
     }
   }
-- 
2.43.0


From be8afe0e39390fcd110daaa28880bb5f95b9a136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:15 +0000
Subject: [PATCH 76/80] fix: workers finishing near the border of time slots
 printed two results

---
 Reasoner/history.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reasoner/history.c b/Reasoner/history.c
index 83cd3b9..1c20856 100644
--- a/Reasoner/history.c
+++ b/Reasoner/history.c
@@ -1291,7 +1291,9 @@ int wr_show_result(glb* g, gint history) {
     coeff=(gint)(1000000.0/((dbmemsegh(g->local_db)->max_forks))); 
     sleept=1000;
     limit_low=(g->current_fork_nr)*coeff;
-    limit_high=((g->current_fork_nr)+1)*coeff;
+    // do not start at the end of the slot: the next worker would print as well
+    // before this one has ended and the others have been stopped
+    limit_high=((g->current_fork_nr)+1)*coeff-coeff/3;
     //printf("\ng->current_fork_nr %d coeff %ld limit_low  %ld limit_high %ld\n",
     //         g->current_fork_nr,coeff,limit_low,limit_high);
     for(sleepi=0;sleepi<2000;sleepi++) {
-- 
2.43.0


From 5eb3b7a9e60e2cdb451c83f9261e807f12057371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:30 +0000
Subject: [PATCH 77/80] fix: words beginning with an option's name were taken
 for this option

---
 Main/gkc.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index a4df2da..9768010 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -1316,7 +1316,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
           printf("Error: missing parameter to keyword %s\n",arg);
           exit(1);
         }   
-      } else if (!(strncmp(arg,"-print",6))) {
+      } else if (!(strncmp(arg,"-print",7))) {
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
@@ -1338,15 +1338,15 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
           printf("Error: missing parameter to keyword %s\n",arg);
           exit(1);
         }   
-      } else if (!(strncmp(arg,"-derived",8))) {
+      } else if (!(strncmp(arg,"-derived",9))) {
         *printderived=1;    
-      } else if (!(strncmp(arg,"-tptp",5))) {
+      } else if (!(strncmp(arg,"-tptp",6))) {
         *tptp=1;       
-      } else if (!(strncmp(arg,"-json",5))) {
+      } else if (!(strncmp(arg,"-json",6))) {
         *json=1;       
-      } else if (!(strncmp(arg,"-convert",8))) {
+      } else if (!(strncmp(arg,"-convert",9))) {
         *convert=1;               
-      } else if (!(strncmp(arg,"-clausify",9))) {
+      } else if (!(strncmp(arg,"-clausify",10))) {
         *clausify=1;  
       } else if (!(strncmp(arg,"-prove",10)) || 
                 !(strncmp(arg,"-readkb",10)) ||
@@ -1361,7 +1361,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
                 !(strncmp(arg,"--version",10)) ) {
         //printf("\n cmd %s",arg);
         *cmdstr=argv[i];
-      } else if (!(strncmp(arg,"-text",5))) {
+      } else if (!(strncmp(arg,"-text",6))) {
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);          
           if ((lstringscount+1)<maxlstrings) {
@@ -1376,7 +1376,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
           printf("Error: missing parameter to keyword %s\n",arg);
           exit(1);
         }      
-      } else if (!(strncmp(arg,"-jstext",5))) {
+      } else if (!(strncmp(arg,"-jstext",8))) {
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);          
           if ((ljstringscount+1)<maxljstrings) {
@@ -1391,7 +1391,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
           printf("Error: missing parameter to keyword %s\n",arg);
           exit(1);
         }    
-       } else if (!(strncmp(arg,"-strategytext",13))) {        
+       } else if (!(strncmp(arg,"-strategytext",14))) {        
         if ((i+1)<argc) {
           *strattext=argv[i+1];
           i++;          
@@ -1399,7 +1399,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
           printf("Error: missing parameter to keyword %s\n",arg);
           exit(1);
         }    
-      } else if (!(strncmp(arg,"-strategy",9))) {
+      } else if (!(strncmp(arg,"-strategy",10))) {
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);          
           *stratfile=argv[i+1];          
-- 
2.43.0


From 88a5684a1ef35e1655cc3871e702cf712b73a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:43 +0000
Subject: [PATCH 78/80] fix: numbers with trailing characters, empty or too big
 were accepted as option values

---
 Main/gkc.c | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/Main/gkc.c b/Main/gkc.c
index 9768010..6235590 100644
--- a/Main/gkc.c
+++ b/Main/gkc.c
@@ -1173,6 +1173,21 @@ int parse_memmode(char *arg) {
   return 0;
 }
 
+/** parse a whole string as a number fitting int
+ *  returns 1 if ok, 0 if not
+ */
+
+static int parse_number(char* s, int* nr) {
+  char* end;
+  long val;
+
+  errno=0;
+  val=strtol(s,&end,10);
+  if (end==s || *end!='\0' || errno || val<INT_MIN || val>INT_MAX) return 0;
+  *nr=(int)val;
+  return 1;
+}
+
 /** Parse command line args prior to detecting actual command
  *  
  *  cmdstr: command string
@@ -1221,7 +1236,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (!parse_number(argv[i],&nr)) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                    arg,argv[i]);
             *retcode=1;       
@@ -1244,7 +1259,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (!parse_number(argv[i],&nr)) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
@@ -1271,7 +1286,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (!parse_number(argv[i],&nr)) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
@@ -1298,7 +1313,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (!parse_number(argv[i],&nr)) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
@@ -1320,7 +1335,7 @@ char** parse_cmdline(int argc, char **argv, char** cmdstr, int* mbnr, int* mbsiz
         if ((i+1)<argc) {
           //printf("\n cmd %s param %s",arg,argv[i+1]);
           i++;
-          if (!(sscanf(argv[i], "%d", &nr))) {
+          if (!parse_number(argv[i],&nr)) {
             printf("Error: keyword %s argument must be a number, not %s\n",
                     arg,argv[i]);
             *retcode=1;       
-- 
2.43.0


From 057eff3fd36a1884ba74b05fc84f80cc491d7eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:24:17 +0000
Subject: [PATCH 79/80] fix: json words like "if" or "not" in objects or inside
 lists made wrong formulas or crashed

---
 Builtparser/jsparse.c | 21 +++++++++++++++++++--
 Builtparser/jsparse.h |  1 +
 Parser/jsparse.c      | 21 +++++++++++++++++++--
 Parser/jsparse.h      |  1 +
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index ca00946..b4697cd 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -1393,7 +1393,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
   void *r1proc, *r2proc;
   void *content=NULL; // *name,
   char* str; 
-  int isneg,isreverse;
+  int isneg,isreverse,isarc;
 
 #ifdef DEBUG
   printf("\nwr_process_json_formula_aux called\n");
@@ -1466,7 +1466,11 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       r2=NULL;
     }  
     // process logical structure
-    logconn=wr_json_list_logconn(g,pp,cl);
+    // keys and values like "and" or "if" of an object are not connectives
+    isarc=(wg_isatom(db,head) && wr_json_atomstr(db,head) && wg_ispair(db,r2) &&
+           (!strcmp(MPOOL_JSON_ARC,wr_json_atomstr(db,head)) ||
+            !strcmp(MPOOL_JSON_NARC,wr_json_atomstr(db,head))));
+    logconn=(isarc) ? NULL : wr_json_list_logconn(g,pp,cl);
     if (head==NULL) {
       wr_show_jsparse_error(g,pp,"null value at the head of a logical list");
       return NULL;
@@ -1560,6 +1564,11 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       preres=cl;
     } else if (wg_isatom(db,head) && !strcmp("if",wr_json_atomstr(db,head))) {
       preres=wr_json_process_if_then(g,pp,cl);   
+    } else if (isarc) {
+      preres=wr_process_json_term(g,pp,cl,1,0);
+    } else if (logconn!=NULL && wr_json_is_prefix_connective(g,logconn)) {
+      wr_show_jsparse_error(g,pp,"prefix connective not at the beginning of a list: %s",wr_json_atomstr(db,logconn));
+      return NULL;
     } else if (logconn!=NULL) {
       // contains logical stuff at top
       preres=wg_inplace_reverselist(db,mpool,cl);
@@ -2557,6 +2566,14 @@ int wr_json_is_connective(glb* g,void* ptr) {
 }
 
 
+int wr_json_is_prefix_connective(glb* g,void* ptr) {
+  char* str=wr_json_atomstr(g->db,ptr);
+
+  return (!strcmp("not",str) || !strcmp("~",str) || !strcmp("-",str) ||
+          !strcmp("if",str) || !strcmp("forall",str) || !strcmp("exists",str));
+}
+
+
 int wr_json_is_eq_op(glb* g,void* ptr) {
   void* db=g->db;
   char* str;
diff --git a/Builtparser/jsparse.h b/Builtparser/jsparse.h
index 01ccf36..cb76afd 100644
--- a/Builtparser/jsparse.h
+++ b/Builtparser/jsparse.h
@@ -97,6 +97,7 @@ void* wr_json_make_nullvar(glb* g, parse_parm* pp);
 int wr_json_is_atomlist(void* db,void* ptr);
 int wr_json_is_varlist(glb* g, parse_parm* pp, void* ptr);
 int wr_json_is_connective(glb* g,void* ptr);
+int wr_json_is_prefix_connective(glb* g,void* ptr);
 int wr_json_is_eq_op(glb* g,void* ptr);
 int wr_json_equal_atoms(glb* g,void* a1, void* a2);
 int wr_json_really_equal_atoms(glb* g,void* a1, void* a2);
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index ca00946..b4697cd 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -1393,7 +1393,7 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
   void *r1proc, *r2proc;
   void *content=NULL; // *name,
   char* str; 
-  int isneg,isreverse;
+  int isneg,isreverse,isarc;
 
 #ifdef DEBUG
   printf("\nwr_process_json_formula_aux called\n");
@@ -1466,7 +1466,11 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       r2=NULL;
     }  
     // process logical structure
-    logconn=wr_json_list_logconn(g,pp,cl);
+    // keys and values like "and" or "if" of an object are not connectives
+    isarc=(wg_isatom(db,head) && wr_json_atomstr(db,head) && wg_ispair(db,r2) &&
+           (!strcmp(MPOOL_JSON_ARC,wr_json_atomstr(db,head)) ||
+            !strcmp(MPOOL_JSON_NARC,wr_json_atomstr(db,head))));
+    logconn=(isarc) ? NULL : wr_json_list_logconn(g,pp,cl);
     if (head==NULL) {
       wr_show_jsparse_error(g,pp,"null value at the head of a logical list");
       return NULL;
@@ -1560,6 +1564,11 @@ void* wr_process_json_formula_aux(glb* g, parse_parm* pp, void* cl) {
       preres=cl;
     } else if (wg_isatom(db,head) && !strcmp("if",wr_json_atomstr(db,head))) {
       preres=wr_json_process_if_then(g,pp,cl);   
+    } else if (isarc) {
+      preres=wr_process_json_term(g,pp,cl,1,0);
+    } else if (logconn!=NULL && wr_json_is_prefix_connective(g,logconn)) {
+      wr_show_jsparse_error(g,pp,"prefix connective not at the beginning of a list: %s",wr_json_atomstr(db,logconn));
+      return NULL;
     } else if (logconn!=NULL) {
       // contains logical stuff at top
       preres=wg_inplace_reverselist(db,mpool,cl);
@@ -2557,6 +2566,14 @@ int wr_json_is_connective(glb* g,void* ptr) {
 }
 
 
+int wr_json_is_prefix_connective(glb* g,void* ptr) {
+  char* str=wr_json_atomstr(g->db,ptr);
+
+  return (!strcmp("not",str) || !strcmp("~",str) || !strcmp("-",str) ||
+          !strcmp("if",str) || !strcmp("forall",str) || !strcmp("exists",str));
+}
+
+
 int wr_json_is_eq_op(glb* g,void* ptr) {
   void* db=g->db;
   char* str;
diff --git a/Parser/jsparse.h b/Parser/jsparse.h
index 01ccf36..cb76afd 100644
--- a/Parser/jsparse.h
+++ b/Parser/jsparse.h
@@ -97,6 +97,7 @@ void* wr_json_make_nullvar(glb* g, parse_parm* pp);
 int wr_json_is_atomlist(void* db,void* ptr);
 int wr_json_is_varlist(glb* g, parse_parm* pp, void* ptr);
 int wr_json_is_connective(glb* g,void* ptr);
+int wr_json_is_prefix_connective(glb* g,void* ptr);
 int wr_json_is_eq_op(glb* g,void* ptr);
 int wr_json_equal_atoms(glb* g,void* a1, void* a2);
 int wr_json_really_equal_atoms(glb* g,void* a1, void* a2);
-- 
2.43.0


From 20509a92a880d77256afb404dc8b0aecfe7dd543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:31:32 +0000
Subject: [PATCH 80/80] fix: @vocab was prepended to built-in names, also to
 the end of lists

---
 Builtparser/jsparse.c | 2 ++
 Parser/jsparse.c      | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Builtparser/jsparse.c b/Builtparser/jsparse.c
index b4697cd..7c6e90e 100644
--- a/Builtparser/jsparse.c
+++ b/Builtparser/jsparse.c
@@ -3374,6 +3374,8 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
   int keylen, ctxtkeylen, valstrlen;
   
   if (!(pp->jsonld_ctxt) || !keystr) return keystr;  
+  // built-in names like $less and the $nil at the end of lists, and equality
+  if (*keystr=='$' || !strcmp(keystr,"=") || !strcmp(keystr,"!=")) return keystr;
   keylen=strlen(keystr);
   colptr=strchr(keystr,':');
   if (colptr) {
diff --git a/Parser/jsparse.c b/Parser/jsparse.c
index b4697cd..7c6e90e 100644
--- a/Parser/jsparse.c
+++ b/Parser/jsparse.c
@@ -3374,6 +3374,8 @@ char* wg_modify_keystr_by_ctxt(glb* g, parse_parm* pp, char* buf, int buflen, ch
   int keylen, ctxtkeylen, valstrlen;
   
   if (!(pp->jsonld_ctxt) || !keystr) return keystr;  
+  // built-in names like $less and the $nil at the end of lists, and equality
+  if (*keystr=='$' || !strcmp(keystr,"=") || !strcmp(keystr,"!=")) return keystr;
   keylen=strlen(keystr);
   colptr=strchr(keystr,':');
   if (colptr) {
-- 
2.43.0

