/* Life cycle of arrays: every operation reports handle, validity and memory. */
#include "gadrv.h"

static int oldh[MAXA], agrp[MAXA];

static long long own_bytes(arr_t *a)
{
  int gp = GA_Get_pgroup(a->g), my = gp >= 0 ? GA_Pgroup_nodeid(gp) : me, i, k, nb = GA_Total_blocks(a->g);
  int np_ = gp >= 0 ? GA_Pgroup_nnodes(gp) : GA_Nnodes();
  long long t = 1, s = 0;
  int64_t lo[7], hi[7];
  if (nb < 0) {
    NGA_Distribution64(a->g, my, lo, hi);
    for (i = 0; i < a->ndim; i++) { if (hi[i] < lo[i]) return 0; t *= hi[i] - lo[i] + 1 + 2 * a->gw[i]; }
    return t * (long long)a->esz;
  }
  if (GA_Uses_proc_grid(a->g)) return 0;
  for (k = my; k < nb; k += np_) {
    NGA_Distribution64(a->g, k, lo, hi);
    for (t = 1, i = 0; i < a->ndim; i++) t *= hi[i] - lo[i] + 1;
    s += t;
  }
  return s * (long long)a->esz;
}

static void rec(vline_t *l, int a, int ok, int describe)
{
  arr_t *x = &A[a];
  int h = x->g ? x->g : oldh[a];
  v_rec(l);
  v_put_int("ok", ok);
  v_put_int("h", h);
  v_put_int("vh", h ? GA_Valid_handle(h) != 0 : 0);
  v_put_int("m", (long long)GA_Inquire_memory());
  v_put_int("av", GA_Memory_limited() ? (long long)GA_Memory_avail() : -1);
  if (describe) {
    int type, nd, d[7], i, g = GA_Get_pgroup(x->g), q = -9;
    long long o[7];
    v_put_str("name", GA_Inquire_name(x->g));
    NGA_Inquire(x->g, &type, &nd, d);
    v_put_str("typ", type == C_INT ? "int" : type == C_LONG ? "long" : type == C_LONGLONG ? "llong" : type == C_FLOAT ? "flt" :
              type == C_DBL ? "dbl" : type == C_SCPL ? "scpl" : type == C_DCPL ? "dcpl" : "?");
    for (i = 0; i < nd && i < 7; i++) o[i] = d[i];
    v_put_list("dims", o, nd);
    if (agrp[a] >= 0 ? g == G[agrp[a]] : g == GA_Pgroup_get_world()) q = agrp[a];
    v_put_int("grp", q);
    v_put_int("nb", GA_Valid_handle(x->g) ? own_bytes(x) : 0);
  }
  v_end();
}

static int cmpp(const void *a, const void *b) { char *x = *(char **)a, *y = *(char **)b; return x < y ? -1 : x > y; }

int life_op(vline_t *l)
{
  const char *op = l->op;
  int a = (int)v_int(l, "a", 0), ok;
  if (!strcmp(op, "lcreate")) {
    agrp[a] = (int)v_int(l, "grp", -1);
    ok = create_array(l);
    if (!ok) { oldh[a] = 0; A[a].g = 0; rec(l, a, 0, 0); }
    else rec(l, a, 1, 1);
    return 1;
  }
  if (!strcmp(op, "ldup")) {
    int b = (int)v_int(l, "from", 0);
    char name[64];
    snprintf(name, sizeof name, "%s", v_str(l, "name", "D"));
    A[a] = A[b];
    agrp[a] = agrp[b];
    A[a].g = GA_Duplicate(A[b].g, name);
    ok = A[a].g != 0;
    rec(l, a, ok, ok);
    return 1;
  }
  if (!strcmp(op, "ldestroy")) {
    oldh[a] = A[a].g;
    if (v_int(l, "api", 0)) NGA_Destroy(A[a].g); else GA_Destroy(A[a].g);
    A[a].g = 0;
    rec(l, a, 1, 0);
    return 1;
  }
  if (!strcmp(op, "ldealloc")) { ok = GA_Deallocate(A[a].g); rec(l, a, ok, 0); return 1; }
  if (!strcmp(op, "lalloc")) { ok = GA_Allocate(A[a].g); rec(l, a, ok, ok); return 1; }
  if (!strcmp(op, "lq")) { rec(l, a, 1, 1); return 1; }
  if (!strcmp(op, "lold")) { rec(l, a, 1, 0); return 1; }
  if (!strcmp(op, "llimit")) {
    GA_Set_memory_limit((size_t)v_int(l, "x", 0));
    v_rec(l); v_put_int("av", GA_Memory_limited() ? (long long)GA_Memory_avail() : -1); v_end();
    return 1;
  }
  if (!strcmp(op, "lptr")) {
    /* first and last byte of this process's own block of the listed arrays, as ranks among all of them */
    int n, i, j, m = 0, k;
    long long *L = v_newlist(l, "arrs", &n), *lo = malloc((n + 1) * sizeof *lo), *hi = malloc((n + 1) * sizeof *hi);
    char **p = malloc((2 * n + 1) * sizeof *p), **q = malloc((2 * n + 1) * sizeof *q);
    for (i = 0; i < n; i++) {
      arr_t *x = &A[L[i]];
      int gp = GA_Get_pgroup(x->g), my = gp >= 0 ? GA_Pgroup_nodeid(gp) : me, l4[7], h4[7], ld[7], e = 0;
      long long sz;
      void *v;
      if (GA_Total_blocks(x->g) > 0) {
        int len;
        NGA_Access_block_segment(x->g, my, &v, &len);
        if (len <= 0) continue;
        sz = (long long)len * x->esz;
        NGA_Release_block_segment(x->g, my);
      } else {
        NGA_Distribution(x->g, my, l4, h4);
        for (k = 0; k < x->ndim; k++) if (h4[k] < l4[k]) e = 1;
        if (e) continue;
        NGA_Access(x->g, l4, h4, &v, ld);
        /* from the first to the last element of the block */
        for (sz = 0, k = 0; k < x->ndim; k++) sz = k == 0 ? h4[0] - l4[0] : sz * ld[k - 1] + h4[k] - l4[k];
        sz = (sz + 1) * (long long)x->esz;
        NGA_Release(x->g, l4, h4);
      }
      p[2 * m] = v; p[2 * m + 1] = (char *)v + sz - 1; m++;
    }
    memcpy(q, p, 2 * m * sizeof *p);
    qsort(q, 2 * m, sizeof *q, cmpp);
    for (i = 0; i < m; i++) {
      for (j = 0; j < 2 * m && q[j] != p[2 * i]; j++);
      lo[i] = j;
      for (j = 2 * m - 1; j >= 0 && q[j] != p[2 * i + 1]; j--);
      hi[i] = j;
    }
    v_rec(l); v_put_list("lo", lo, m); v_put_list("hi", hi, m); v_end();
    free(L); free(lo); free(hi); free(p); free(q);
    return 1;
  }
  return 0;
}
