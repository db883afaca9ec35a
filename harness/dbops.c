/* Executes a script of database operations on a local database and prints the outcome of
   each.  Used by the C14 and C15 checks.  usage: dbops SCRIPT OUTPUT */
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include "config.h"
#include "Db/dbapi.h"
#include "Db/indexapi.h"
#include "Db/dballoc.h"
#include "Db/dbcompare.h"

void wg_show_database(void *d) { (void)d; } /* lives in Main/gkc.c */
#define MAXREC 500000
static void *db, *rec[MAXREC];
static char *tok[100000];
static int nt, pos;

static char *next(void) { if (pos >= nt) { printf("script error\n"); exit(3); } return tok[pos++]; }
static long num(void) { return strtol(next(), NULL, 10); }

static int hexv(int c) { return c <= '9' ? c - '0' : c - 'a' + 10; }
static char *unhex(char *s, long *len) { /* "-" is a missing string, "." the empty one, "*N:XX" N times the byte XX */
  long n, i; char *r;
  if (!strcmp(s, "-")) { *len = 0; return NULL; }
  if (s[0] == '*') {
    n = strtol(s + 1, &s, 10);
    r = malloc(n + 1);
    memset(r, hexv(s[1]) * 16 + hexv(s[2]), n);
    r[n] = 0; *len = n; return r;
  }
  n = !strcmp(s, ".") ? 0 : (long)strlen(s) / 2;
  r = malloc(n + 1);
  for (i = 0; i < n; i++) r[i] = (char)(hexv(s[2 * i]) * 16 + hexv(s[2 * i + 1]));
  r[n] = 0; *len = n;
  return r;
}
static void hex(const char *s, long n) {
  long i;
  if (!s) { printf("-"); return; }
  if (n < 0) n = (long)strlen(s);
  if (!n) printf(".");
  if (n > 200) { unsigned long h = 5381; for (i = 0; i < n; i++) h = h * 33 + (unsigned char)s[i]; printf("#%ld:%lu", n, h); return; }
  for (i = 0; i < n; i++) printf("%02x", (unsigned char)s[i]);
}

/* value: n | i N | d HEXFLOAT | f X | c N | D N | T N | v N | r REC | s STR LANG | u STR PREFIX | x STR TYPE | a STR | b STR TYPE */
static wg_int value(int param) {
  char *k = next(), *a, *b; long n, m; wg_int e;
  switch (k[0]) {
    case 'n': return param ? wg_encode_query_param_null(db, NULL) : wg_encode_null(db, 0);
    case 'i': n = num(); return param ? wg_encode_query_param_int(db, n) : wg_encode_int(db, n);
    case 'd': { double d = strtod(next(), NULL); return param ? wg_encode_query_param_double(db, d) : wg_encode_double(db, d); }
    case 'f': { double d = strtod(next(), NULL); return param ? wg_encode_query_param_fixpoint(db, d) : wg_encode_fixpoint(db, d); }
    case 'c': n = num(); return param ? wg_encode_query_param_char(db, (char)n) : wg_encode_char(db, (char)n);
    case 'D': n = num(); return param ? wg_encode_query_param_date(db, (int)n) : wg_encode_date(db, (int)n);
    case 'T': n = num(); return param ? wg_encode_query_param_time(db, (int)n) : wg_encode_time(db, (int)n);
    case 'v': n = num(); return param ? wg_encode_query_param_var(db, n) : wg_encode_var(db, n);
    case 'r': n = num(); return param ? wg_encode_query_param_record(db, rec[n]) : wg_encode_record(db, rec[n]);
    case 's': a = unhex(next(), &n); b = unhex(next(), &m);
      e = param ? wg_encode_query_param_str(db, a, b) : wg_encode_str(db, a, b); free(a); free(b); return e;
    case 'u': a = unhex(next(), &n); b = unhex(next(), &m);
      e = param ? wg_encode_query_param_uri(db, a, b) : wg_encode_uri(db, a, b); free(a); free(b); return e;
    case 'x': a = unhex(next(), &n); b = unhex(next(), &m);
      e = param ? wg_encode_query_param_xmlliteral(db, a, b) : wg_encode_xmlliteral(db, a, b); free(a); free(b); return e;
    case 'a': a = unhex(next(), &n); e = wg_encode_anonconst(db, a); free(a); return e;
    case 'b': a = unhex(next(), &n); b = unhex(next(), &m); e = wg_encode_blob(db, a, b, n); free(a); free(b); return e;
  }
  printf("script error %s\n", k);
  exit(3);
}

static int handle(void *r) {
  int i;
  for (i = 0; i < MAXREC; i++) if (rec[i] == r) return i;
  return -1;
}

static void show(wg_int e) {
  char buf[300];
  switch (wg_get_encoded_type(db, e)) {
    case WG_NULLTYPE: printf("n"); return;
    case WG_INTTYPE: printf("i %ld", (long)wg_decode_int(db, e)); return;
    case WG_DOUBLETYPE: printf("d %a", wg_decode_double(db, e)); return;
    case WG_FIXPOINTTYPE: printf("f %.4f", wg_decode_fixpoint(db, e)); return;
    case WG_CHARTYPE: printf("c %d", wg_decode_char(db, e) & 255); return;
    case WG_DATETYPE: printf("D %d", wg_decode_date(db, e)); return;
    case WG_TIMETYPE: printf("T %d", wg_decode_time(db, e)); return;
    case WG_VARTYPE: printf("v %ld", (long)wg_decode_var(db, e)); return;
    case WG_RECORDTYPE: printf("r %d", handle(wg_decode_record(db, e))); return;
    case WG_STRTYPE: printf("s "); hex(wg_decode_str(db, e), -1); printf(" "); hex(wg_decode_str_lang(db, e), -1);
      if (wg_decode_str_len(db, e) != (wg_int)strlen(wg_decode_str(db, e))) printf(" LEN %ld", (long)wg_decode_str_len(db, e));
      if (wg_decode_str_len(db, e) < 290 && (wg_decode_str_copy(db, e, buf, 300) < 0 || strcmp(buf, wg_decode_str(db, e)))) printf(" COPY");
      return;
    case WG_URITYPE: printf("u "); hex(wg_decode_uri(db, e), -1); printf(" "); hex(wg_decode_uri_prefix(db, e), -1);
      if (wg_decode_uri_len(db, e) != (wg_int)strlen(wg_decode_uri(db, e))) printf(" LEN");
      return;
    case WG_XMLLITERALTYPE: printf("x "); hex(wg_decode_xmlliteral(db, e), -1); printf(" "); hex(wg_decode_xmlliteral_xsdtype(db, e), -1);
      if (wg_decode_xmlliteral_len(db, e) != (wg_int)strlen(wg_decode_xmlliteral(db, e))) printf(" LEN");
      return;
    case WG_BLOBTYPE: printf("b "); hex(wg_decode_blob(db, e), wg_decode_blob_len(db, e)); printf(" "); hex(wg_decode_blob_type(db, e), -1); return;
    case WG_ANONCONSTTYPE: printf("a "); hex(wg_decode_anonconst(db, e), -1); return;
  }
  printf("? %ld", (long)wg_get_encoded_type(db, e));
}

static int icmp(const void *a, const void *b) { return *(const int *)a - *(const int *)b; }
static void showset(int *h, int n) { int i; qsort(h, n, sizeof(int), icmp); for (i = 0; i < n; i++) printf(" %d", h[i]); printf("\n"); }

int main(int argc, char **argv) {
  static char line[4000000];
  static int hs[MAXREC];
  static wg_int cols[32];
  FILE *f = fopen(argv[1], "r");
  (void)argc;
  if (!freopen(argv[2], "w", stdout)) return 4;
  setvbuf(stdout, NULL, _IOLBF, 1 << 16);
  while (fgets(line, sizeof line, f)) {
    char *s, *c; int n, i;
    nt = pos = 0;
    for (s = strtok(line, " \n"); s; s = strtok(NULL, " \n")) tok[nt++] = s;
    if (!nt) continue;
    c = next();
    if (!strcmp(c, "db")) { db = wg_attach_local_database(num()); printf("%s\n", db ? "ok" : "null"); if (!db) return 0; }
    else if (!strcmp(c, "new") || !strcmp(c, "raw")) {
      int r = (int)num(); long len = num();
      void *p = c[0] == 'n' ? wg_create_record(db, len) : wg_create_raw_record(db, len);
      if (p) { rec[r] = p; printf("rec %ld\n", (long)((char *)p - (char *)dbmemseg(db))); } else printf("null\n");
    }
    else if (!strcmp(c, "fill")) { /* records of LEN until none can be had, from handle R on; fields get VALUE */
      int r = (int)num(), k = 0; long len = num(), max = num(); int p0 = pos; 
      while (k < max) {
        void *p = wg_create_record(db, len);
        if (!p) break;
        rec[r + k] = p; k++;
        if (tok[p0][0] != 'n') {
          wg_int e, x;
          pos = p0; e = value(0);
          if (e == WG_ILLEGAL) { printf("illegal "); break; }
          x = wg_set_new_field(db, p, 0, e);
          if (x) { printf("set %ld ", (long)x); break; }
        }
      }
      printf("%d\n", k);
    }
    else if (!strcmp(c, "del")) { int r = (int)num(); wg_int x = wg_delete_record(db, rec[r]); if (!x) rec[r] = NULL; printf("%ld\n", (long)x); }
    else if (!strcmp(c, "set") || !strcmp(c, "setnew")) {
      int r = (int)num(); long fn = num(); wg_int e = value(0);
      if (e == WG_ILLEGAL) printf("illegal\n");
      else printf("%ld\n", (long)(c[3] ? wg_set_new_field(db, rec[r], fn, e) : wg_set_field(db, rec[r], fn, e)));
    }
    else if (!strcmp(c, "seti")) { int r = (int)num(); long fn = num(); long v = num(); printf("%ld\n", (long)wg_set_int_field(db, rec[r], fn, v)); }
    else if (!strcmp(c, "setd")) { int r = (int)num(); long fn = num(); double v = strtod(next(), NULL); printf("%ld\n", (long)wg_set_double_field(db, rec[r], fn, v)); }
    else if (!strcmp(c, "sets")) { int r = (int)num(); long fn = num(); long l; char *v = unhex(next(), &l); printf("%ld\n", (long)wg_set_str_field(db, rec[r], fn, v)); free(v); }
    else if (!strcmp(c, "get")) {
      int r = (int)num(); long len = wg_get_record_len(db, rec[r]), k;
      printf("%ld", len);
      for (k = 0; k < len; k++) { printf(" | "); show(wg_get_field(db, rec[r], k)); }
      printf("\n");
    }
    else if (!strcmp(c, "list")) {
      void *p; n = 0;
      for (p = wg_get_first_record(db); p && n < MAXREC; p = wg_get_next_record(db, p)) hs[n++] = handle(p);
      printf("list"); showset(hs, n);
    }
    else if (!strcmp(c, "par")) {
      void *p, *r0 = rec[num()]; n = 0;
      for (p = wg_get_first_parent(db, r0); p && n < 1000; p = wg_get_next_parent(db, r0, p)) hs[n++] = handle(p);
      printf("par"); showset(hs, n);
    }
    else if (!strcmp(c, "idx")) {
      long type = next()[0] == 't' ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH;
      for (i = 0; pos < nt; i++) cols[i] = num();
      printf("%ld\n", (long)(i == 1 ? wg_create_index(db, cols[0], type, NULL, 0) : wg_create_multi_index(db, cols, i, type, NULL, 0)));
    }
    else if (!strcmp(c, "drop")) {
      long type = next()[0] == 't' ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH; wg_int id;
      for (i = 0; pos < nt; i++) cols[i] = num();
      id = i == 1 ? wg_column_to_index_id(db, cols[0], type, NULL, 0) : wg_multi_column_to_index_id(db, cols, i, type, NULL, 0);
      if (id <= 0) printf("none\n"); else printf("%ld\n", (long)wg_drop_index(db, id));
    }
    else if (!strcmp(c, "qry")) {
      wg_query_arg a[20]; wg_query *q; void *p; int na = 0; long rc = num();
      while (pos < nt) { a[na].column = num(); a[na].cond = num(); a[na].value = value(1); na++; }
      q = rc < 0 ? wg_make_query(db, NULL, 0, na ? a : NULL, na) : wg_make_query_rc(db, NULL, 0, na ? a : NULL, na, (wg_uint)rc);
      if (!q) printf("query null\n");
      else {
        wg_uint cnt = q->res_count;
        for (n = 0; (p = wg_fetch(db, q)) && n < MAXREC; n++) hs[n] = handle(p);
        printf("qry %ld", (long)cnt); showset(hs, n);
        wg_free_query(db, q);
      }
      for (i = 0; i < na; i++) wg_free_query_param(db, a[i].value);
    }
    else if (!strcmp(c, "mqry")) { /* query by a template given as values, v is free */
      wg_int m[20]; wg_query *q; void *p; int na = 0;
      while (pos < nt) m[na++] = value(1);
      q = wg_make_query(db, m, na, NULL, 0);
      if (!q) printf("query null\n");
      else {
        for (n = 0; (p = wg_fetch(db, q)) && n < MAXREC; n++) hs[n] = handle(p);
        printf("mqry"); showset(hs, n);
        wg_free_query(db, q);
      }
      for (i = 0; i < na; i++) wg_free_query_param(db, m[i]);
    }
    else if (!strcmp(c, "find")) {
      long fn = num(), cond = num(); wg_int v = value(1); void *p = NULL;
      for (n = 0; (p = wg_find_record(db, fn, cond, v, p)) && n < MAXREC; n++) hs[n] = handle(p);
      printf("find"); showset(hs, n);
      wg_free_query_param(db, v);
    }
    else if (!strcmp(c, "cmp")) { wg_int a = value(0), b = value(0); printf("%ld %ld\n", (long)WG_COMPARE(db, a, b), (long)WG_COMPARE(db, b, a)); }
    else if (!strcmp(c, "enc")) { wg_int a = value(0); if (a == WG_ILLEGAL) printf("illegal\n"); else { show(a); printf("\n"); } }
    else if (!strcmp(c, "share")) { int r = (int)num(); long f1 = num(); int r2 = (int)num(); long f2 = num();
      printf("%d\n", wg_get_field(db, rec[r], f1) == wg_get_field(db, rec[r2], f2)); }
    else if (!strcmp(c, "free")) printf("%ld\n", (long)wg_database_freesize(db));
    else if (!strcmp(c, "dump")) { /* into a file, and from it into a new database of the given size; then the new one is used */
      char *fn = next(); long size = num(); wg_int x = wg_dump(db, fn), y; void *d2; long k; char *o = (char *)dbmemseg(db);
      d2 = wg_attach_local_database(size);
      y = wg_import_dump(d2, fn);
      printf("%ld %ld\n", (long)x, (long)y);
      if (!x && !y) { for (k = 0; k < MAXREC; k++) if (rec[k]) rec[k] = (char *)dbmemseg(d2) + ((char *)rec[k] - o); wg_delete_local_database(db); db = d2; }
      else wg_delete_local_database(d2);
    }
    else if (!strcmp(c, "ymd")) { int y = (int)num(), m = (int)num(), d = (int)num(), y2, m2, d2; int e = wg_ymd_to_date(db, y, m, d);
      char b[100]; wg_date_to_ymd(db, e, &y2, &m2, &d2); b[0] = 0; wg_strf_iso_datetime(db, e, 0, b); printf("%d %d %d %d %s\n", e, y2, m2, d2, b); }
    else if (!strcmp(c, "hms")) { int h = (int)num(), m = (int)num(), s2 = (int)num(), p = (int)num(), a, b2, c2, d; int e = wg_hms_to_time(db, h, m, s2, p);
      char b[100]; wg_time_to_hms(db, e, &a, &b2, &c2, &d); b[0] = 0; wg_strf_iso_datetime(db, 1, e, b); printf("%d %d %d %d %d %s\n", e, a, b2, c2, d, b); }
    else if (!strcmp(c, "isod")) { int d = wg_strp_iso_date(db, next()); printf("%d\n", d); }
    else if (!strcmp(c, "isot")) { int d = wg_strp_iso_time(db, next()); printf("%d\n", d); }
    else { printf("script error %s\n", c); return 3; }
  }
  printf("end\n");
  return 0;
}
