/* Ghost cells. */
#include "gapat.h"

extern logical ga_update2_ghosts_(Integer *), ga_update3_ghosts_(Integer *), ga_update4_ghosts_(Integer *),
  ga_update44_ghosts_(Integer *), ga_update55_ghosts_(Integer *), wnga_update6_ghosts(Integer), wnga_update7_ghosts(Integer);
extern void ga_update1_ghosts_(Integer *);

/* the padded block of this process: shape and where it starts in memory */
static char *padded(arr_t *a, int api, int64_t *sh, int64_t *ld)
{
  int n = a->ndim, i;
  char *p = NULL;
  if (api == 0) {
    int d[7], l[7];
    NGA_Access_ghosts(a->g, d, &p, l);
    for (i = 0; i < n; i++) sh[i] = d[i];
    for (i = 0; i < n - 1; i++) ld[i] = l[i];
  } else
    NGA_Access_ghosts64(a->g, sh, &p, ld);
  return p;
}
static void release(arr_t *a, int api, int wrote)
{
  if (wrote) NGA_Release_update_ghosts(a->g); else NGA_Release_ghosts(a->g);
}
static char *element(arr_t *a, char *base, int64_t *sh, int64_t *ld, int64_t j, int single)
{
  int64_t c[7], idx = 0;
  int n = a->ndim, i;
  for (i = n - 1; i >= 0; i--) { c[i] = j % sh[i]; j /= sh[i]; }
  if (single == 1) {
    int s[7], l[7];
    char *q;
    for (i = 0; i < n; i++) s[i] = (int)c[i];
    NGA_Access_ghost_element(a->g, &q, s, l);
    return q;
  }
  if (single == 2) {
    int64_t l[7];
    char *q;
    NGA_Access_ghost_element64(a->g, &q, c, l);
    return q;
  }
  for (i = 0; i < n; i++) idx = i == 0 ? c[0] : idx * ld[i - 1] + c[i];
  return base + idx * a->esz;
}

static void must(int ok, const char *what)
{
  if (!ok) { fprintf(stderr, "%s reported failure\n", what); fflush(stderr); MPI_Abort(MPI_COMM_WORLD, 9); }
}

static void update(vline_t *l)
{
  arr_t *a = &A[v_int(l, "a", 0)];
  int how = (int)v_int(l, "how", 0), i;
  Integer g = a->g;
  const char *f = v_str(l, "f", "full");
  if (!strcmp(f, "dir")) {
    /* the dimension is the specification's (from 1); the flag: corners as well */
    must(NGA_Update_ghost_dir(a->g, (int)v_int(l, "d", 1) - 1, (int)v_int(l, "s", 1), (int)v_int(l, "flag", 0)), "update_ghost_dir");
    return;
  }
  if (!strcmp(f, "mask")) {
    long long m[8];
    int im[7];
    int64_t m64[7];
    ga_nbhdl_t h;
    v_list(l, "mask", m, 8);
    for (i = 0; i < a->ndim; i++) { im[i] = (int)m[i]; m64[i] = m[i]; }
    if (how) NGA_NbGet_ghost_dir64(a->g, m64, &h); else NGA_NbGet_ghost_dir(a->g, im, &h);
    NGA_NbWait(&h);
    return;
  }
  switch (how) {
    case 0: GA_Update_ghosts(a->g); break;
    case 8: NGA_Update_ghosts(a->g); break;
    case 9: { ga_nbhdl_t h; NGA_Update_ghosts_nb(a->g, &h); NGA_NbWait(&h); break; }
    case 1: ga_update1_ghosts_(&g); break;
    case 2: must((int)ga_update2_ghosts_(&g), "update2"); break;
    case 3: must((int)ga_update3_ghosts_(&g), "update3"); break;
    case 4: must((int)ga_update4_ghosts_(&g), "update4"); break;
    case 44: must((int)ga_update44_ghosts_(&g), "update44"); break;
    case 55: must((int)ga_update55_ghosts_(&g), "update55"); break;
    case 6: must((int)wnga_update6_ghosts(g), "update6"); break;
    case 7: must((int)wnga_update7_ghosts(g), "update7"); break;
    default: fprintf(stderr, "update %d?\n", how); exit(3);
  }
}

int ghost_op(vline_t *l)
{
  arr_t *a;
  int i, n, api;
  if (strcmp(l->op, "gblk") && strcmp(l->op, "gup") && strcmp(l->op, "gread") && strcmp(l->op, "gwrite") && strcmp(l->op, "gget") && strcmp(l->op, "gcorner")) return 0;
  a = &A[v_int(l, "a", 0)];
  n = a->ndim;
  api = (int)v_int(l, "api", 0);
  if (!strcmp(l->op, "gup")) { update(l); return 1; }
  if (!strcmp(l->op, "gcorner")) { GA_Set_ghost_corner_flag(a->g, (int)v_int(l, "flag", 1)); return 1; }
  if (!strcmp(l->op, "gblk")) {
    int lo[7], hi[7], p = GA_Get_pgroup(a->g);
    long long t[8];
    int64_t sh[7], ld[7];
    NGA_Distribution(a->g, p >= 0 ? GA_Pgroup_nodeid(p) : me, lo, hi);
    v_rec(l);
    for (i = 0; i < n; i++) t[i] = lo[i];
    t[n] = 0;
    v_put_list("lo", t, n + a->cx);
    for (i = 0; i < n; i++) t[i] = hi[i];
    t[n] = 1;
    v_put_list("hi", t, n + a->cx);
    padded(a, api, sh, ld);
    for (i = 0; i < n; i++) t[i] = sh[i];
    t[n] = 2;
    v_put_list("pd", t, n + a->cx);
    v_end();
    release(a, api, 0);
    return 1;
  }
  if (!strcmp(l->op, "gread")) {
    int64_t sh[7], ld[7], tot = 1, j;
    char *p = padded(a, api & 1, sh, ld);
    long long *v;
    for (i = 0; i < n; i++) tot *= sh[i];
    v = malloc((tot * a->cw + 1) * sizeof *v);
    for (j = 0; j < tot; j++) dec_v(a, element(a, p, sh, ld, j, api / 2), 0, 0, v + j * a->cw);
    release(a, api & 1, 0);
    v_rec(l); v_put_list("v", v, (int)(tot * a->cw)); v_end();
    free(v);
    return 1;
  }
  if (!strcmp(l->op, "gwrite")) {   /* n numbers at random places, distinct; values made from the seed */
    int64_t sh[7], ld[7], tot = 1, j;
    char *p = padded(a, api & 1, sh, ld);
    int k = (int)v_int(l, "n", 1), w, c = 0;
    unsigned long long rs = v_int(l, "seed", 1) * 1000003ULL + me;
    long long *at, *v;
    char *used;
    for (i = 0; i < n; i++) tot *= sh[i];
    used = calloc(tot + 1, 1);
    at = malloc((k * 2 + 1) * sizeof *at); v = malloc((k * 2 + 1) * sizeof *v);
    while (k-- > 0 && tot > 0) {
      rs = rs * 6364136223846793005ULL + 1442695040888963407ULL;
      j = (int64_t)((rs >> 33) % (unsigned long long)tot);
      if (used[j]) continue;
      used[j] = 1;
      for (w = 0; w < a->cw; w++) { at[c] = j * a->cw + w; v[c++] = (long long)((rs >> (20 + 7 * w)) % 1801) - 900; }
      enc_v(a, v + c - a->cw, 0, element(a, p, sh, ld, j, api / 2));
    }
    release(a, api & 1, 1);
    v_rec(l); v_put_list("at", at, c); v_put_list("v", v, c); v_end();
    free(used); free(at); free(v);
    return 1;
  }
  if (!strcmp(l->op, "gget")) {
    buf_t b;
    int64_t lo[7], hi[7], sh[7];
    int il[7], ih[7], ild[7];
    long long *v, pad[8] = {0};
    v_list(l, "pad", pad, 8);
    get_dims(l, "lo", lo); get_dims(l, "hi", hi);
    for (i = 0; i < n; i++) { sh[i] = hi[i] - lo[i] + 1; il[i] = (int)lo[i]; ih[i] = (int)hi[i]; }
    buf_make(&b, a, sh, a->e, pad);
    for (i = 1; i < n; i++) ild[i - 1] = (int)b.ld[i];
    if (api) NGA_Get_ghost_block64(a->g, lo, hi, b.buf, b.ld + 1); else NGA_Get_ghost_block(a->g, il, ih, b.buf, ild);
    v = malloc((b.nspec * a->cw + 1) * sizeof *v);
    i = (int)buf_read(&b, v, 0);
    v_rec(l); v_put_list("v", v, (int)(b.nspec * a->cw)); v_put_int("pad", i); v_end();
    free(v); buf_free(&b);
    return 1;
  }
  return 0;
}
