/* Unification, matching, term equality and subsumption of the reasoner on given clauses.
   Used by the C16 check.  usage: termops SCRIPT OUTPUT

   Each script line is  OP FLAGS TEXT  where TEXT is clauses in the simple syntax:
     N              a fresh database and reasoner
     U f TEXT       one clause, its first two atoms are unified
     M f TEXT       one clause, does the first atom match the second as its instance
     E f TEXT       one clause, are the first two atoms equal terms
     S f TEXT       two clauses, does the first subsume the second
     L f TEXT       several clauses, is the last subsumed by an earlier, stored one
   flag m calculates the clause information (sizes, ground flags) before the operation.
   Each outcome is one line: what was parsed, the verdict and, for U, the built instances. */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include "config.h"
#include "Db/dballoc.h"
#include "Db/dbmem.h"
#include "Db/dbdata.h"
#include "Db/dbutil.h"
#include "Db/dbmpool.h"
#include "Parser/dbparse.h"
#include "Reasoner/rincludes.h"
#include "Reasoner/rmain.h"

void wg_show_database(void *d) { (void)d; } /* lives in Main/gkc.c */

static void *thedb;
static glb *g;
static cvec clvec;
static long dumped;
static char verdicts[10000];

static void fresh(void) {
  if (g) { wr_glb_free(g); }
  if (thedb) wg_delete_local_database(thedb);
  thedb = wg_attach_local_database(4000000);
  if (!thedb) { printf("error no database\n"); exit(3); }
  dbmemsegh(thedb)->infrm_mpool = wg_create_mpool(thedb, 500000);
  g = wr_glb_new_full(thedb);
  if (!g) { printf("error no reasoner\n"); exit(3); }
  g->print_initial_parser_result = 0;
  g->print_generic_parser_result = 0;
  g->use_comp_funs = 0; g->use_comp_funs_strat = 0;
  clvec = wr_cvec_new(g, 1000);
}

static void text(const char *s) {
  putchar('"');
  for (; s && *s; s++) {
    if ((unsigned char)*s < 33 || *s == '"' || *s == '%' || (unsigned char)*s > 126 || *s == '(' || *s == ')') printf("%%%02x", (unsigned char)*s);
    else putchar(*s);
  }
  putchar('"');
}

/* a term with the bindings applied */
static void dump(gint x, int subst) {
  gint tmp; void *db = g->db; int i, n; gptr p;
  if (++dumped > 50000) { if (dumped == 50001) printf(" ... "); return; }
  if (isvar(x) && subst) x = VARVAL_F(x, (g->varbanks));
  if (isvar(x)) { printf("?%ld", (long)decode_var(x)); return; }
  if (isdatarec(x)) {
    p = decode_record(db, x); n = (int)get_record_len(p);
    putchar('(');
    for (i = g->unify_firstuseterm; i < n; i++) { if (i > g->unify_firstuseterm) putchar(' '); dump(*(p + RECORD_HEADER_GINTS + i), subst); }
    putchar(')');
    return;
  }
  switch (wg_get_encoded_type(db, x)) {
    case WG_INTTYPE: printf("i%ld", (long)wg_decode_int(db, x)); break;
    case WG_DOUBLETYPE: printf("d%a", wg_decode_double(db, x)); break;
    case WG_STRTYPE: putchar('s'); text(wg_decode_str(db, x)); if (wg_decode_str_lang(db, x)) { putchar('@'); text(wg_decode_str_lang(db, x)); } break;
    case WG_URITYPE: putchar('u'); text(wg_decode_uri(db, x)); if (wg_decode_uri_prefix(db, x)) { putchar('@'); text(wg_decode_uri_prefix(db, x)); } break;
    case WG_ANONCONSTTYPE: putchar('a'); text(wg_decode_anonconst(db, x)); break;
    default: printf("x%ld", (long)x);
  }
}

static void dumpcl(gptr cl) {
  void *db = g->db; int i, n;
  putchar('[');
  if (!wg_rec_is_rule_clause(db, cl)) { printf("fact +"); dump(rpto(g, cl), 0); }
  else {
    n = (int)wg_count_clause_atoms(db, cl);
    for (i = 0; i < n; i++) {
      if (i) putchar(' ');
      putchar(wg_atom_meta_is_neg(db, wg_get_rule_clause_atom_meta(db, cl, i)) ? '-' : '+');
      dump(wg_get_rule_clause_atom(db, cl, i), 0);
    }
  }
  putchar(']');
}

static gint atom(gptr cl, int i) { return wg_get_rule_clause_atom(g->db, cl, i); }

static void clean(void) {
  if (!wr_varbanks_are_clear(g, g->varbanks)) { printf(" DIRTY"); wr_clear_all_varbanks(g); }
}

int main(int argc, char **argv) {
  FILE *f; size_t cap = 0; char *line = NULL, op, *flags, *txt; long n, i, k; gptr cls[300], cl; gint t1, t2, b1, b2;
  static gint mb[300][CLMETABLOCK_ELS + 5]; int r, r2; 
  if (argc < 3 || !(f = fopen(argv[1], "r")) || !freopen(argv[2], "w", stdout)) return 2;
  fresh();
  while (getline(&line, &cap, f) > 0) {
    op = line[0]; dumped = 0;
    if (op == 'N') { fresh(); printf("N\n"); continue; }
    flags = strtok(line + 1, " "); txt = strtok(NULL, "\n");
    r = wr_import_otter_file(g, NULL, txt, clvec, 0);
    n = clvec[1] - 2;
    printf("%c ", op);
    if (r) { printf("unread %d\n", r); fresh(); continue; }
    if (n > 300) n = 300;
    for (i = 0; i < n; i++) cls[i] = (gptr)(clvec[2 + i]);
    for (i = 0; i < n; i++) { dumpcl(cls[i]); putchar(' '); }
    wr_clear_all_varbanks(g);
    g->tmp_unify_vc = ((gptr)(g->varstack)) + 1; *(g->tmp_unify_vc) = 2;
    if (strchr(flags, 'm')) for (i = 0; i < n; i++) { wr_calc_clause_meta(g, cls[i], mb[i]); wr_sort_cl(g, cls[i]); }
    switch (op) {
      case 'U': case 'M': case 'E':
        if (n != 1 || !wg_rec_is_rule_clause(g->db, cls[0]) || wg_count_clause_atoms(g->db, cls[0]) != 2) { printf("shape\n"); break; }
        t1 = atom(cls[0], 0); t2 = atom(cls[0], 1);
        if (op == 'M') { r = (int)wr_match_term(g, t1, t2, 1); }
        else if (op == 'E') { r = (int)wr_equal_term(g, t1, t2, 1); r2 = (int)wr_equal_term(g, t2, t1, 1); if (r != r2) printf("ASYM "); }
        else r = (int)wr_unify_term(g, t1, t2, 1);
        /* the information may have reordered the atoms */
        printf("= "); dump(t1, 0); putchar(' '); dump(t2, 0); printf(" = %d", r);
        if (r && op == 'U') {
          putchar(' '); dumped = 0; dump(t1, 1); putchar(' '); dump(t2, 1);
          wr_process_resolve_result_setupsubst(g);
          g->use_comp_funs = 0;
          b1 = wr_build_calc_term(g, t1); b2 = wr_build_calc_term(g, t2);
          putchar(' '); dumped = 0;
          if (b1 == WG_ILLEGAL || b2 == WG_ILLEGAL) printf("nobuild"); else { dump(b1, 0); putchar(' '); dump(b2, 0); }
          wr_process_resolve_result_cleanupsubst(g);
          g->build_buffer = NULL;
        }
        wr_clear_varstack(g, g->varstack); clean();
        putchar('\n');
        break;
      case 'S':
        if (n != 2) { printf("shape\n"); break; }
        printf("= ");
        if (strchr(flags, 'm')) printf("%d", wr_clmetablock_can_subsume(g, mb[0], mb[1])); else printf("-");
        for (k = 1; k <= (g->tmp_litinf_vec)[0] - 1; k++) (g->tmp_litinf_vec)[k] = 0;
        r = (int)wr_subsume_cl(g, cls[0], cls[1], 1);
        printf(" %d", r); clean(); putchar('\n');
        break;
      case 'L':
        verdicts[0] = 0; g->use_equality_strat = 0;
        for (i = 0; i < n; i++) {
          g->build_buffer = NULL;
          cl = wr_process_given_cl(g, cls[i], NULL);
          if (!cl || (gint)cl == ACONST_TRUE || (gint)cl == ACONST_FALSE) { strcat(verdicts, "simplified "); continue; }
          wr_sort_cl(g, cl);
          wr_calc_clause_meta(g, cl, mb[i]);
          if (i > 0) strcat(verdicts, wr_given_cl_subsumed(g, cl, mb[i]) ? "1 " : "0 ");
          wr_calc_clause_resolvability(g, cl, 1, 0);
          if (!wr_add_given_cl_active_list(g, cl, mb[i], 1, NULL, g->tmp_resolvability_vec)) strcat(verdicts, "nostore ");
        }
        printf("= %s", verdicts); clean(); putchar('\n');
        break;
      default: printf("?\n");
    }
    fflush(stdout);
  }
  printf("END\n");
  return 0;
}
