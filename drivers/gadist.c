/* Queries of distributions. */
#include "gadrv.h"

static int arr_procs(arr_t *a) { int g = GA_Get_pgroup(a->g); return g >= 0 ? GA_Pgroup_nnodes(g) : GA_Nnodes(); }
extern void nga_distribution_(Integer *, Integer *, Integer *, Integer *);
extern logical nga_locate_(Integer *, Integer *, Integer *);
extern logical nga_locate_region_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);

static void one_distr(arr_t *a, int p, int api, long long *o)
{
  int n = a->ndim, i, empty = 0;
  if (api == 2) {
    Integer g = a->g, q = p, lo[7], hi[7];
    if (GA_Total_blocks(a->g) > 0) q = p;
    nga_distribution_(&g, &q, lo, hi);
    for (i = 0; i < n; i++) { o[i] = lo[n - 1 - i] - 1; o[n + i] = hi[n - 1 - i] - 1; }
  } else if (api == 1) {
    int64_t lo[7], hi[7];
    NGA_Distribution64(a->g, p, lo, hi);
    for (i = 0; i < n; i++) { o[i] = lo[i]; o[n + i] = hi[i]; }
  } else {
    int lo[7], hi[7];
    NGA_Distribution(a->g, p, lo, hi);
    for (i = 0; i < n; i++) { o[i] = lo[i]; o[n + i] = hi[i]; }
  }
  for (i = 0; i < n; i++) if (o[n + i] < o[i]) empty = 1;
  if (empty) for (i = 0; i < n; i++) { o[i] = 0; o[n + i] = -1; }
}

static void dist(vline_t *l)
{
  arr_t *a = &A[v_int(l, "a", 0)];
  int n = a->ndim, api = (int)v_int(l, "api", 0), nb = GA_Total_blocks(a->g), np_ = arr_procs(a), i, j, k;
  int m = nb < 0 ? np_ : nb, npts, nbox, cnt;
  long long *D = malloc(sizeof *D * 2 * n * (m + 1)), *pts = v_newlist(l, "pts", &npts), *box = v_newlist(l, "boxes", &nbox), *L, *R;
  npts /= n; nbox /= 2 * n;
  for (i = 0; i < m; i++) one_distr(a, i, api, D + 2 * n * i);
  v_rec(l);
  v_put_int("nb", nb);
  v_put_list("D", D, 2 * n * m);
  L = malloc(sizeof *L * (npts + 1));
  for (i = 0; i < npts; i++) {
    if (api == 2) {
      Integer g = a->g, s[7], ow;
      for (k = 0; k < n; k++) s[k] = pts[i * n + n - 1 - k] + 1;
      nga_locate_(&g, s, &ow);
      L[i] = ow;
    } else if (api == 1) {
      int64_t s[7];
      for (k = 0; k < n; k++) s[k] = pts[i * n + k];
      L[i] = NGA_Locate64(a->g, s);
    } else {
      int s[7];
      for (k = 0; k < n; k++) s[k] = (int)pts[i * n + k];
      L[i] = NGA_Locate(a->g, s);
    }
  }
  v_put_list("L", L, npts);
  /* for each box: how many pieces, and the pieces */
  R = malloc(sizeof *R * (nbox * ((m + np_) * (2 * n + 1) + 4) + 4));
  cnt = 0;
  for (i = 0; i < nbox; i++) {
    int q, *map = malloc(sizeof(int) * 2 * n * (m + np_ + 1)), *pr = malloc(sizeof(int) * (m + np_ + 1));
    int lo[7], hi[7];
    for (k = 0; k < n; k++) { lo[k] = (int)box[i * 2 * n + k]; hi[k] = (int)box[i * 2 * n + n + k]; }
    if (api == 1) {
      int64_t l64[7], h64[7], *m64 = malloc(sizeof(int64_t) * 2 * n * (m + np_ + 1));
      for (k = 0; k < n; k++) { l64[k] = lo[k]; h64[k] = hi[k]; }
      q = NGA_Locate_region64(a->g, l64, h64, m64, pr);
      for (j = 0; j < q * 2 * n; j++) map[j] = (int)m64[j];
      free(m64);
    } else if (api == 2) {
      Integer g = a->g, fl[7], fh[7], *fm = malloc(sizeof(Integer) * 2 * n * (m + np_ + 1)), *fp = malloc(sizeof(Integer) * (m + np_ + 1)), nq;
      for (k = 0; k < n; k++) { fl[k] = lo[n - 1 - k] + 1; fh[k] = hi[n - 1 - k] + 1; }
      nga_locate_region_(&g, fl, fh, fm, fp, &nq);
      q = (int)nq;
      for (j = 0; j < q; j++) {
        pr[j] = (int)fp[j];
        /* Fortran: map(2*ndim, nproc): the lower limits, then the upper ones */
        for (k = 0; k < n; k++) { map[j * 2 * n + k] = (int)fm[j * 2 * n + n - 1 - k] - 1; map[j * 2 * n + n + k] = (int)fm[j * 2 * n + 2 * n - 1 - k] - 1; }
      }
      free(fm); free(fp);
    } else q = NGA_Locate_region(a->g, lo, hi, map, pr);
    R[cnt++] = q;
    for (j = 0; j < q; j++) {
      R[cnt++] = pr[j];
      for (k = 0; k < 2 * n; k++) R[cnt++] = map[j * 2 * n + k];
    }
    {
      int64_t l64[7], h64[7];
      for (k = 0; k < n; k++) { l64[k] = lo[k]; h64[k] = hi[k]; }
      R[cnt++] = api == 1 ? NGA_Locate_nnodes64(a->g, l64, h64) : NGA_Locate_nnodes(a->g, lo, hi);
    }
    R[cnt++] = NGA_Locate_num_blocks(a->g, lo, hi);
    free(map); free(pr);
  }
  v_put_list("R", R, cnt);
  {
    int t[7], u[7], gr = GA_Uses_proc_grid(a->g);
    long long o[7], *P = malloc(sizeof *P * n * (np_ + 1));
    GA_Nblock(a->g, t);
    for (k = 0; k < n; k++) o[k] = t[k];
    v_put_list("nblk", o, n);
    v_put_int("grid", gr);
    if (gr) {
      NGA_Get_proc_grid(a->g, t);
      for (k = 0; k < n; k++) o[k] = t[k];
      v_put_list("pg", o, n);
      for (i = 0; i < np_; i++) { NGA_Get_proc_index(a->g, i, t); for (k = 0; k < n; k++) P[i * n + k] = t[k]; }
      v_put_list("pi", P, n * np_);
    } else { v_put_list("pg", o, 0); v_put_list("pi", o, 0); }
    if (nb > 0 && !a->nb[0]) {
      NGA_Get_block_info(a->g, t, u);
      for (k = 0; k < n; k++) o[k] = t[k];
      v_put_list("bn", o, n);
      for (k = 0; k < n; k++) o[k] = u[k];
      v_put_list("bd", o, n);
    } else { v_put_list("bn", o, 0); v_put_list("bd", o, 0); }
    /* coordinates of the owners in the grid of a regular array  */
    if (nb < 0) {
      for (i = 0; i < np_; i++) { NGA_Proc_topology(a->g, i, t); for (k = 0; k < n; k++) P[i * n + k] = t[n - 1 - k]; }   /* (in Fortran order) */
      v_put_list("topo", P, n * np_);
    } else v_put_list("topo", P, 0);
    free(P);
  }
  {
    int type, nd, d[7];
    long long o[7];
    NGA_Inquire(a->g, &type, &nd, d);
    for (k = 0; k < n; k++) o[k] = d[k];
    v_put_list("dims", o, n);
    v_put_int("meta", type == a->type && nd == n && GA_Ndim(a->g) == n && GA_Get_dimension(a->g) == n);
  }
  v_end();
  free(D); free(L); free(R); free(pts); free(box);
}

int dist_op(vline_t *l)
{
  if (!strcmp(l->op, "dist")) { dist(l); return 1; }
  if (!strcmp(l->op, "compare")) {
    int c = GA_Compare_distr(A[v_int(l, "a", 0)].g, A[v_int(l, "b", 0)].g);
    v_rec(l); v_put_int("ce", c); v_end();
    return 1;
  }
  return 0;
}
