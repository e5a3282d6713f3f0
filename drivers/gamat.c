/* Matrix operations. */
#include "gapat.h"
#include <math.h>

typedef void fmm_t(char *, char *, void *, void *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *,
                   Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, int, int);
extern fmm_t ga_matmul_patch_;
extern void nga_matmul_patch_alt_(char *, char *, void *, void *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *,
                                  Integer *, Integer *, Integer *, int, int);
extern void ga_transpose_(Integer *, Integer *);
extern void ga_lu_solve_(char *, Integer *, Integer *, int);
extern void ga_symmetrize_(Integer *);

/* the two dimensions longer than one (the first two when there are fewer) */
static void two(pat_t *p, int *i, int *j)
{
  int k, n = 0, d[7];
  for (k = 0; k < p->n; k++) if (p->h64[k] > p->l64[k]) d[n++] = k;
  if (n == 2) { *i = d[0]; *j = d[1]; } else { *i = 0; *j = 1; }
}
static void swap2(pat_t *p)
{
  int i, j, t;
  int64_t u;
  two(p, &i, &j);
  t = p->il[i]; p->il[i] = p->il[j]; p->il[j] = t;
  t = p->ih[i]; p->ih[i] = p->ih[j]; p->ih[j] = t;
  u = p->l64[i]; p->l64[i] = p->l64[j]; p->l64[j] = u;
  u = p->h64[i]; p->h64[i] = p->h64[j]; p->h64[j] = u;
}

static void gemm(vline_t *l)
{
  pat_t a, b, c;
  int api = (int)v_int(l, "api", 0), ta = (int)v_int(l, "ta", 0), tb = (int)v_int(l, "tb", 0);
  char cta = ta ? (api & 1 ? 't' : 'T') : (api & 1 ? 'n' : 'N'), ctb = tb ? (api & 1 ? 'T' : 't') : (api & 1 ? 'N' : 'n');
  long long t[2] = {0, 0};
  char al[32], be[32];
  Integer ga, gb, gc;
  int i, j;
  patch(l, "a", &a); patch(l, "b", &b); patch(l, "c", &c);
  ga = a.a->g; gb = b.a->g; gc = c.a->g;
  v_list(l, "al", t, 2); enc_alpha(c.a, t, al);
  t[0] = t[1] = 0;
  v_list(l, "be", t, 2); enc_alpha(c.a, t, be);
  if (api < 2) {
    int64_t m = c.h64[0] - c.l64[0] + 1, n = c.h64[1] - c.l64[1] + 1, k = ta ? a.h64[0] - a.l64[0] + 1 : a.h64[1] - a.l64[1] + 1;
#define GEMM(L, T) if (api) GA_##L##gemm64(cta, ctb, m, n, k, *(T *)al, a.a->g, b.a->g, *(T *)be, c.a->g); \
      else GA_##L##gemm(cta, ctb, (int)m, (int)n, (int)k, *(T *)al, a.a->g, b.a->g, *(T *)be, c.a->g); break;
    switch (c.a->type) {
      case C_FLOAT: GEMM(S, float)
      case C_DBL: GEMM(D, double)
      case C_SCPL: GEMM(C, SingleComplex)
      case C_DCPL: GEMM(Z, DoubleComplex)
    }
  } else if (api < 4) {
    if (ta) swap2(&a);
    if (tb) swap2(&b);
    if (api == 2) NGA_Matmul_patch(cta, ctb, al, be, IP(a), IP(b), IP(c));
    else NGA_Matmul_patch64(cta, ctb, al, be, LP(a), LP(b), LP(c));
  } else if (api == 4) {
    if (ta) swap2(&a);
    if (tb) swap2(&b);
    for (i = 0, j = 1; i < 2; i++, j--) {
      a.fl[i] = a.l64[j] + 1; a.fh[i] = a.h64[j] + 1;
      b.fl[i] = b.l64[j] + 1; b.fh[i] = b.h64[j] + 1;
    }
    /* first index fastest: the factors change places */
    ga_matmul_patch_(&ctb, &cta, al, be, &gb, &b.fl[0], &b.fh[0], &b.fl[1], &b.fh[1],
                     &ga, &a.fl[0], &a.fh[0], &a.fl[1], &a.fh[1], &gc, &c.fl[0], &c.fh[0], &c.fl[1], &c.fh[1], 1, 1);
  } else
    /* patches as they are stored */
    nga_matmul_patch_alt_(&ctb, &cta, al, be, FP(b, gb), FP(a, ga), FP(c, gc), 1, 1);
}

/* makes the computed numbers exact when they are very near */
static void roundoff(arr_t *a)
{
  int lo[2], hi[2], ld[2], i, j;
  double *p;
  GA_Sync();
  NGA_Distribution(a->g, GA_Nodeid(), lo, hi);
  if (lo[0] >= 0 && hi[0] >= lo[0] && hi[1] >= lo[1]) {
    NGA_Access(a->g, lo, hi, &p, ld);
    for (i = 0; i <= hi[0] - lo[0]; i++) for (j = 0; j <= hi[1] - lo[1]; j++) {
      double *x = p + (size_t)i * ld[0] + j, r = floor(*x + 0.5);
      if (fabs(*x - r) < 1e-6) *x = r;
    }
    NGA_Release_update(a->g, lo, hi);
  }
  GA_Sync();
}

static void mat(vline_t *l)
{
  const char *f = v_str(l, "f", "");
  int api = (int)v_int(l, "api", 0), ga = 0, gv = 0, gc = 0;
  Integer fa, fc;
  long long t[2] = {0, 0};
  char x[32];
  arr_t *c;
  if (!strcmp(f, "gemm")) { gemm(l); return; }
  c = &A[v_int(l, "c", 0)];
  if (v_str(l, "a", NULL)) ga = A[v_int(l, "a", 0)].g;
  if (v_str(l, "v", NULL)) gv = A[v_int(l, "v", 0)].g;
  fc = gc = c->g; fa = ga;
  if (v_list(l, "x", t, 2)) enc_v(c, t, 0, x);
#define IS(s) (!strcmp(f, s))
  if (IS("transpose")) { if (api) ga_transpose_(&fa, &fc); else GA_Transpose(ga, gc); }
  else if (IS("symmetrize")) { if (api) ga_symmetrize_(&fc); else GA_Symmetrize(gc); }
  else if (IS("setdiag")) GA_Set_diagonal(gc, gv);
  else if (IS("adddiag")) GA_Add_diagonal(gc, gv);
  else if (IS("shiftdiag")) GA_Shift_diagonal(gc, x);
  else if (IS("zerodiag")) GA_Zero_diagonal(gc);
  else if (IS("scalerows")) GA_Scale_rows(gc, gv);
  else if (IS("scalecols")) GA_Scale_cols(gc, gv);
  else if (IS("getdiag")) GA_Get_diag(gv, gc);
  else if (IS("solve")) {
    char tr = v_int(l, "ta", 0) ? 'n' : 't';     /* the stored matrix is seen transposed */
    ga_lu_solve_(&tr, &fa, &fc, 1);
    roundoff(c);
  } else { fprintf(stderr, "mat %s?\n", f); exit(3); }
}

static void norm(vline_t *l)
{
  arr_t *a = &A[v_int(l, "a", 0)];
  double x = -1;
  long long v;
  if (!strcmp(v_str(l, "f", ""), "norm1")) GA_Norm1(a->g, &x); else GA_Norm_infinity(a->g, &x);
  v = dec_real(x, a->S, 1);
  v_rec(l); v_put_list("v", &v, 1); v_end();
}

int mat_op(vline_t *l)
{
  if (!strcmp(l->op, "mat")) { mat(l); return 1; }
  if (!strcmp(l->op, "norm")) { norm(l); return 1; }
  return 0;
}
