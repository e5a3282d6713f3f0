/* Process groups, reductions, broadcasts. */
#include "gadrv.h"

static int grp_of(vline_t *l, const char *k)
{
  int g = (int)v_int(l, k, -1);
  return g < 0 ? GA_Pgroup_get_world() : G[g];
}

static void answers(vline_t *l, int h)
{
  int n = v_int(l, "api", 0) ? NGA_Pgroup_nnodes(h) : GA_Pgroup_nnodes(h), i;
  long long *a = malloc((n + 1) * sizeof *a);
  v_rec(l);
  v_put_int("h", h);
  v_put_int("n", n);
  v_put_int("me", v_int(l, "api", 0) ? NGA_Pgroup_nodeid(h) : GA_Pgroup_nodeid(h));
  for (i = 0; i < n && i < 64; i++) a[i] = v_int(l, "api", 0) ? NGA_Pgroup_absolute_id(h, i) : GA_Pgroup_absolute_id(h, i);
  v_put_list("abs", a, i);
  v_end();
  free(a);
}

static size_t cell(int t, long long v, long long S, long long S2, void *p)
{
  switch (t) {
  case C_INT: *(int *)p = (int)(v * S); return sizeof(int);
  case C_LONG: *(long *)p = (long)(v * S); return sizeof(long);
  case C_LONGLONG: *(long long *)p = v * S; return sizeof(long long);
  case C_FLOAT: *(float *)p = (float)(v * S); return sizeof(float);
  case C_DBL: *(double *)p = (double)(v * S); return sizeof(double);
  case C_SCPL: ((float *)p)[0] = (float)(v * S); ((float *)p)[1] = (float)(v * S2); return 2 * sizeof(float);
  default: ((double *)p)[0] = (double)(v * S); ((double *)p)[1] = (double)(v * S2); return 2 * sizeof(double);
  }
}
static long long uncell(int t, long long S, long long S2, const void *p)
{
  long long r;
  double d, i = 0;
  switch (t) {
  case C_INT: r = *(int *)p; return r % S ? BADVAL : r / S;
  case C_LONG: r = *(long *)p; return r % S ? BADVAL : r / S;
  case C_LONGLONG: r = *(long long *)p; return r % S ? BADVAL : r / S;
  case C_FLOAT: d = *(float *)p; break;
  case C_DBL: d = *(double *)p; break;
  case C_SCPL: d = ((float *)p)[0]; i = ((float *)p)[1]; break;
  default: d = ((double *)p)[0]; i = ((double *)p)[1]; break;
  }
  if (!(d > -1e15 && d < 1e15)) return BADVAL;
  r = (long long)(d / S);
  if ((double)(r * S) != d) return BADVAL;
  if ((t == C_SCPL || t == C_DCPL) && (double)(r * S2) != i) return BADVAL;
  return r;
}

/* component j of a vector of n uses cell (j + j/k) mod k */
static void gop(vline_t *l)
{
  int k = (int)v_int(l, "k", 1), n = (int)v_int(l, "n", 1), t = type_of(v_str(l, "t", "dbl")), nl, i, j, m, my = 0, api = (int)v_int(l, "api", 0);
  int eg = v_int(l, "explicit", 0) != 0, h = grp_of(l, "grp");
  long long S = v_int(l, "S", 1), S2 = v_int(l, "S2", 1), *list = v_newlist(l, "list", &m), *x = v_newlist(l, "x", &nl), *out;
  char *o = (char *)v_str(l, "o", "+"), op[16];
  size_t es = type_size(t);
  char *raw, *b;
  int changed = 0;
  snprintf(op, sizeof op, "%s", o);
  for (i = 0; i < m; i++) if (list[i] == me) my = i;
  raw = malloc((n + 8) * es); memset(raw, 0x5a, (n + 8) * es);
  b = raw + 4 * es;
  for (j = 0; j < n; j++) cell(t, x[my * k + (j + j / k) % k], S, S2, b + j * es);
  if (v_int(l, "us", 0)) v_delay(v_int(l, "us", 0));
  if (api == 2 && !eg) GA_Gop(t, b, n, op);
#define D(T, X, C) else if (t == T) { if (eg) { if (api) NGA_Pgroup_##X##gop(h, (C *)b, n, op); else GA_Pgroup_##X##gop(h, (C *)b, n, op); } \
                                     else { if (api) NGA_##X##gop((C *)b, n, op); else GA_##X##gop((C *)b, n, op); } }
#define NGA_igop NGA_Igop
#define GA_igop GA_Igop
#define NGA_lgop NGA_Lgop
#define GA_lgop GA_Lgop
#define NGA_llgop NGA_Llgop
#define GA_llgop GA_Llgop
#define NGA_fgop NGA_Fgop
#define GA_fgop GA_Fgop
#define NGA_dgop NGA_Dgop
#define GA_dgop GA_Dgop
#define NGA_cgop NGA_Cgop
#define GA_cgop GA_Cgop
#define NGA_zgop NGA_Zgop
#define GA_zgop GA_Zgop
  D(C_INT, i, int) D(C_LONG, l, long) D(C_LONGLONG, ll, long long) D(C_FLOAT, f, float) D(C_DBL, d, double)
  D(C_SCPL, c, SingleComplex) D(C_DCPL, z, DoubleComplex)
  out = malloc((k + 1) * sizeof *out);
  for (i = 0; i < k; i++) out[i] = BADVAL - 1;
  for (j = 0; j < n; j++) {
    int c = (int)((j + j / k) % k);
    long long v = uncell(t, S, S2, b + j * es);
    if (out[c] == BADVAL - 1) out[c] = v;
    else if (out[c] != v) out[c] = BADVAL;
  }
  for (i = 0; i < (int)(4 * es); i++) if (raw[i] != 0x5a || b[n * es + i] != 0x5a) changed++;
  v_rec(l);
  v_put_list("out", out, k);
  v_put_int("pad", changed);
  v_end();
  free(raw); free(list); free(x); free(out);
}

static void bcast(vline_t *l)
{
  int n = (int)v_int(l, "n", 1), k, j, i, root = (int)v_int(l, "root", 0), am = v_int(l, "rootabs", 0) == me, changed = 0;
  long long *x = v_newlist(l, "x", &k), *out = malloc((k + 1) * sizeof *out);
  unsigned char *raw = malloc(n + 64), *b = raw + 32;
  memset(raw, 0x5a, n + 64);
  for (j = 0; j < n; j++) b[j] = am ? (unsigned char)x[(j + j / k) % k] : 0xee;
  if (v_int(l, "us", 0)) v_delay(v_int(l, "us", 0));
  if (v_int(l, "explicit", 0)) GA_Pgroup_brdcst(grp_of(l, "grp"), b, n, root);
    else GA_Brdcst(b, n, root);
  for (i = 0; i < k; i++) out[i] = -1;
  for (j = 0; j < n; j++) {
    int c = (int)((j + j / k) % k);
    if (out[c] == -1) out[c] = b[j]; else if (out[c] != b[j]) out[c] = 999;
  }
  for (i = 0; i < 32; i++) if (raw[i] != 0x5a || b[n + i] != 0x5a) changed++;
  v_rec(l);
  v_put_list("out", out, k);
  v_put_int("pad", changed);
  v_end();
  free(raw); free(x); free(out);
}

int grp_op(vline_t *l)
{
  const char *op = l->op, *how;
  int i, h = 0, g;
  if (!strcmp(op, "gmake")) {
    int n, ti[64];
    long long t[64];
    how = v_str(l, "how", "list");
    n = v_list(l, "nums", t, 64);    /* the number of the group in the script, by absolute rank */
    g = n ? (int)t[me] : (int)v_int(l, "g", 0);
    if (!strcmp(how, "list")) {
      n = v_list(l, "list", t, 64);
      for (i = 0; i < n; i++) ti[i] = (int)t[i];
      h = v_int(l, "api", 0) ? NGA_Pgroup_create(ti, n) : GA_Pgroup_create(ti, n);
    }
    else if (!strcmp(how, "split")) h = v_int(l, "api", 0) ? NGA_Pgroup_split(grp_of(l, "parent"), (int)v_int(l, "k", 1)) : GA_Pgroup_split(grp_of(l, "parent"), (int)v_int(l, "k", 1));
    else if (!strcmp(how, "irreg")) {
      n = v_list(l, "colors", t, 64);
      i = GA_Pgroup_nodeid(grp_of(l, "parent"));
      h = v_int(l, "api", 0) ? NGA_Pgroup_split_irreg(grp_of(l, "parent"), (int)t[i]) : GA_Pgroup_split_irreg(grp_of(l, "parent"), (int)t[i]);
    }
    else if (!strcmp(how, "dup")) h = v_int(l, "api", 0) ? NGA_Pgroup_duplicate(grp_of(l, "parent")) : GA_Pgroup_duplicate(grp_of(l, "parent"));
    else if (!strcmp(how, "self")) h = v_int(l, "api", 0) ? NGA_Pgroup_self() : GA_Pgroup_self();
    G[g] = h;
    answers(l, h);
    return 1;
  }
  if (!strcmp(op, "gask")) { answers(l, grp_of(l, "g")); return 1; }
  if (!strcmp(op, "gdef")) {
    /* after setting it, the queries without a group are about it */
    int n, j;
    long long a[64];
    h = grp_of(l, "g");
    if (v_int(l, "api", 0)) NGA_Pgroup_set_default(h); else GA_Pgroup_set_default(h);
    v_rec(l);
    n = GA_Nnodes();
    v_put_int("n", n);
    v_put_int("me", v_int(l, "api", 0) ? NGA_Nodeid() : GA_Nodeid());
    h = v_int(l, "api", 0) ? NGA_Pgroup_get_default() : GA_Pgroup_get_default();
    for (j = 0; j < n && j < 64; j++) a[j] = GA_Pgroup_absolute_id(h, j);
    v_put_list("abs", a, j);
    v_end();
    return 1;
  }
  if (!strcmp(op, "gfree")) {
    h = grp_of(l, "g");
    i = v_int(l, "api", 0) ? NGA_Pgroup_destroy(h) : GA_Pgroup_destroy(h);
    v_rec(l); v_put_int("ok", i != 0); v_end();
    return 1;
  }
  if (!strcmp(op, "gop")) { gop(l); return 1; }
  if (!strcmp(op, "bcast")) { bcast(l); return 1; }
  return 0;
}
