#include "gadrv.h"

arr_t A[MAXA];
int G[MAXA];
int me, np;
#define GUARD 5

size_t type_size(int t)
{
  switch (t) {
    case C_INT: return sizeof(int);
    case C_LONG: return sizeof(long);
    case C_LONGLONG: return sizeof(long long);
    case C_FLOAT: return sizeof(float);
    case C_DBL: return sizeof(double);
    case C_SCPL: return 2 * sizeof(float);
    case C_DCPL: return 2 * sizeof(double);
  }
  return 0;
}
int type_of(const char *s)
{
  if (!strcmp(s, "int")) return C_INT;
  if (!strcmp(s, "long")) return C_LONG;
  if (!strcmp(s, "llong")) return C_LONGLONG;
  if (!strcmp(s, "flt")) return C_FLOAT;
  if (!strcmp(s, "dbl")) return C_DBL;
  if (!strcmp(s, "scpl")) return C_SCPL;
  if (!strcmp(s, "dcpl")) return C_DCPL;
  fprintf(stderr, "type %s?\n", s);
  exit(3);
}
/* the concrete element for specification value v at offset off of its block */
void enc_scalar(arr_t *a, long long v, long long off, void *p)
{
  long long x = v * a->S + off, y = v * a->S2 - off;
  double D = a->D ? (double)a->D : 1.0;
  switch (a->type) {
    case C_INT: { int t = (int)x; memcpy(p, &t, sizeof t); break; }
    case C_LONG: { long t = x; memcpy(p, &t, sizeof t); break; }
    case C_LONGLONG: { long long t = x; memcpy(p, &t, sizeof t); break; }
    case C_FLOAT: { float t = (float)(x / D); memcpy(p, &t, sizeof t); break; }
    case C_DBL: { double t = x / D; memcpy(p, &t, sizeof t); break; }
    case C_SCPL: { float t[2]; t[0] = (float)x; t[1] = (float)y; memcpy(p, t, sizeof t); break; }
    case C_DCPL: { double t[2]; t[0] = (double)x; t[1] = (double)y; memcpy(p, t, sizeof t); break; }
  }
}
static long long dquot(double x, long long S)
{
  double q = x / (double)S;
  if (!(q > -1.5e9 && q < 1.5e9)) return BADVAL;
  if (q != (double)(long long)q || (double)(long long)q * (double)S != x) return BADVAL;
  return (long long)q;
}
long long dec_real(double x, long long S, long long D) { return dquot(x * D, S); }
static long long iquot(long long x, long long S)
{
  if (x % S) return BADVAL;
  x /= S;
  if (x > 1500000000LL || x < -1500000000LL) return BADVAL;
  return x;
}
long long dec_scalar(arr_t *a, const void *p, long long off, int pos)
{
  long long o = pos ? off : 0;
  switch (a->type) {
    case C_INT: { int t; memcpy(&t, p, sizeof t); return iquot((long long)t - o, a->S); }
    case C_LONG: { long t; memcpy(&t, p, sizeof t); return iquot(t - o, a->S); }
    case C_LONGLONG: { long long t; memcpy(&t, p, sizeof t); return iquot(t - o, a->S); }
    case C_FLOAT: { float t; memcpy(&t, p, sizeof t); return dquot((double)t * (a->D ? a->D : 1) - o, a->S); }
    case C_DBL: { double t; memcpy(&t, p, sizeof t); return dquot(t * (a->D ? a->D : 1) - o, a->S); }
    case C_SCPL: {
      float t[2]; long long q;
      memcpy(t, p, sizeof t);
      q = dquot((double)t[0] - o, a->S);
      return q == dquot((double)t[1] + o, a->S2) ? q : BADVAL;
    }
    case C_DCPL: {
      double t[2]; long long q;
      memcpy(t, p, sizeof t);
      q = dquot(t[0] - o, a->S);
      return q == dquot(t[1] + o, a->S2) ? q : BADVAL;
    }
  }
  return BADVAL;
}

void enc_v(arr_t *a, const long long *v, long long off, void *p)
{
  if (!a->cx) { enc_scalar(a, v[0], off, p); return; }
  double D = a->D ? (double)a->D : 1.0;
  if (a->type == C_SCPL) { float t[2] = {(float)(v[0] * a->S / D), (float)(v[1] * a->S / D)}; memcpy(p, t, sizeof t); }
  else { double t[2] = {v[0] * a->S / D, v[1] * a->S / D}; memcpy(p, t, sizeof t); }
}
void dec_v(arr_t *a, const void *p, long long off, int pos, long long *v)
{
  if (!a->cx) { v[0] = dec_scalar(a, p, off, pos); return; }
  double D = a->D ? (double)a->D : 1.0;
  if (a->type == C_SCPL) { float t[2]; memcpy(t, p, sizeof t); v[0] = dquot(t[0] * D, a->S); v[1] = dquot(t[1] * D, a->S); }
  else { double t[2]; memcpy(t, p, sizeof t); v[0] = dquot(t[0] * D, a->S); v[1] = dquot(t[1] * D, a->S); }
}

void buf_make(buf_t *b, arr_t *a, const int64_t *sh, const int64_t *e, const long long *pad)
{
  int i;
  b->a = a;
  b->ndim = a->ndim;
  b->ncell = b->nspec = 1;
  for (i = 0; i < a->ndim; i++) {
    b->sh[i] = sh[i];
    b->e[i] = e ? e[i] : 1;
    b->csh[i] = b->sh[i] * b->e[i];
    b->ld[i] = b->csh[i] + (pad && i > 0 ? pad[i] : 0);
    b->ncell *= b->ld[i];
    b->nspec *= b->sh[i];
  }
  b->bytes = (b->ncell + 2 * GUARD) * a->esz;
  b->goff = GUARD * a->esz;
  b->raw = malloc(b->bytes);
  b->shadow = malloc(b->bytes);
  memset(b->raw, 0xA5, b->bytes);
  memset(b->shadow, 0xA5, b->bytes);
  b->buf = b->raw + b->goff;
}
/* calls fn for each addressed concrete cell with its address, specification index and block offset */
#define EACH(b, CODE) do { \
  int64_t c_[7]; int d_; int64_t k_, tot_ = 1; \
  for (d_ = 0; d_ < (b)->ndim; d_++) { c_[d_] = 0; tot_ *= (b)->csh[d_]; } \
  for (k_ = 0; k_ < tot_; k_++) { \
    int64_t idx = 0, spec = 0, off = 0; \
    for (d_ = 0; d_ < (b)->ndim; d_++) { \
      idx = idx * (b)->ld[d_] + c_[d_]; \
      spec = spec * (b)->sh[d_] + c_[d_] / (b)->e[d_]; \
      off = off * (b)->e[d_] + c_[d_] % (b)->e[d_]; } \
    { CODE } \
    for (d_ = (b)->ndim - 1; d_ >= 0; d_--) { if (++c_[d_] < (b)->csh[d_]) break; c_[d_] = 0; } \
  } } while (0)

void buf_fill(buf_t *b, const long long *v, int pos)
{
  EACH(b, enc_v(b->a, v + spec * b->a->cw, pos ? off : 0, b->buf + idx * b->a->esz););
  memcpy(b->shadow, b->raw, b->bytes);
}
void buf_scribble(buf_t *b)
{
  memset(b->raw, 0x5B, b->bytes);
}
long long buf_read(buf_t *b, long long *v, int pos)
{
  long long bad = 0;
  size_t i;
  char *seen = calloc(b->nspec, 1), *used = calloc(b->bytes, 1);
  EACH(b, {
    long long x[2];
    dec_v(b->a, b->buf + idx * b->a->esz, off, pos, x);
    memset(used + b->goff + idx * b->a->esz, 1, b->a->esz);
    if (b->a->cw == 2) { v[2 * spec] = x[0]; v[2 * spec + 1] = x[1]; }
    else if (!seen[spec]) { seen[spec] = 1; v[spec] = x[0]; }
    else if (v[spec] != x[0]) v[spec] = BADVAL;
  });
  for (i = 0; i < b->bytes; i++) if (!used[i] && b->raw[i] != (char)0xA5) bad++;
  free(seen);
  free(used);
  return bad;
}
long long buf_changed(buf_t *b)
{
  long long bad = 0;
  size_t i;
  for (i = 0; i < b->bytes; i++) if (b->raw[i] != b->shadow[i]) bad++;
  return bad;
}
void buf_free(buf_t *b) { free(b->raw); free(b->shadow); }

int get_dims(vline_t *l, const char *k, int64_t *o)
{
  long long t[32];
  int i, n = v_list(l, k, t, 32);
  for (i = 0; i < n; i++) o[i] = t[i];
  return n;
}
static void to_int(const int64_t *s, int *d, int n) { int i; for (i = 0; i < n; i++) d[i] = (int)s[i]; }

/* Fortran interface of the same operations: reversed order, from one */
extern void nga_put_(Integer *, Integer *, Integer *, void *, Integer *);
extern void nga_get_(Integer *, Integer *, Integer *, void *, Integer *);
extern void nga_acc_(Integer *, Integer *, Integer *, void *, Integer *, void *);
extern void nga_nbput_(Integer *, Integer *, Integer *, void *, Integer *, Integer *);
extern void nga_nbget_(Integer *, Integer *, Integer *, void *, Integer *, Integer *);
extern void nga_nbacc_(Integer *, Integer *, Integer *, void *, Integer *, void *, Integer *);
extern void nga_nbwait_(Integer *);
extern Integer nga_nbtest_(Integer *);
extern void nga_periodic_put_(Integer *, Integer *, Integer *, void *, Integer *);
extern void nga_periodic_get_(Integer *, Integer *, Integer *, void *, Integer *);
extern void nga_periodic_acc_(Integer *, Integer *, Integer *, void *, Integer *, void *);
extern void nga_strided_put_(Integer *, Integer *, Integer *, Integer *, void *, Integer *);
extern void nga_strided_get_(Integer *, Integer *, Integer *, Integer *, void *, Integer *);
extern void nga_strided_acc_(Integer *, Integer *, Integer *, Integer *, void *, Integer *, void *);
extern void nga_scatter_(Integer *, void *, Integer *, Integer *);
extern void nga_scatter_acc_(Integer *, void *, Integer *, Integer *, void *);
extern void nga_gather_(Integer *, void *, Integer *, Integer *);
extern void ga_scatter_(Integer *, void *, Integer *, Integer *, Integer *);
extern void ga_scatter_acc_(Integer *, void *, Integer *, Integer *, Integer *, void *);
extern void ga_gather_(Integer *, void *, Integer *, Integer *, Integer *);
extern Integer nga_read_inc_(Integer *, Integer *, Integer *);
extern void ga_put_(Integer *, Integer *, Integer *, Integer *, Integer *, void *, Integer *);
extern void ga_get_(Integer *, Integer *, Integer *, Integer *, Integer *, void *, Integer *);
extern void ga_acc_(Integer *, Integer *, Integer *, Integer *, Integer *, void *, Integer *, void *);

enum { PUT, GET, ACC, NBPUT, NBGET, NBACC, PPUT, PGET, PACC, SPUT, SGET, SACC };

/* api: 0 C with int, 1 C with int64_t, 2 Fortran, 3 two-dimensional Fortran */
static void xfer(int kind, int api, arr_t *a, int64_t *lo, int64_t *hi, int64_t *skip, void *buf,
                 int64_t *ld /* ld[0..ndim-1], row-major, ld[0] unused */, void *alpha, ga_nbhdl_t *h)
{
  int n = a->ndim, i, g = a->g;
  int ilo[7], ihi[7], ild[7], isk[7];
  int64_t lld[7];
  for (i = 0; i < n - 1; i++) lld[i] = ld[i + 1];
  if (n == 1) lld[0] = ld[0];
  to_int(lo, ilo, n); to_int(hi, ihi, n); to_int(lld, ild, n > 1 ? n - 1 : 1);
  if (skip) to_int(skip, isk, n);
  if (api == 2 || api == 3) {
    Integer G_ = g, flo[7], fhi[7], fld[7], fsk[7];
    for (i = 0; i < n; i++) { flo[i] = lo[n - 1 - i] + 1; fhi[i] = hi[n - 1 - i] + 1; }
    for (i = 0; i < n - 1; i++) fld[i] = ld[n - 1 - i];
    if (n == 1) fld[0] = ld[0];
    if (skip) for (i = 0; i < n; i++) fsk[i] = skip[n - 1 - i];
    if (api == 3) switch (kind) {
      case PUT: ga_put_(&G_, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fld[0]); return;
      case GET: ga_get_(&G_, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fld[0]); return;
      case ACC: ga_acc_(&G_, &flo[0], &fhi[0], &flo[1], &fhi[1], buf, &fld[0], alpha); return;
    }
    switch (kind) {
      case PUT: nga_put_(&G_, flo, fhi, buf, fld); break;
      case GET: nga_get_(&G_, flo, fhi, buf, fld); break;
      case ACC: nga_acc_(&G_, flo, fhi, buf, fld, alpha); break;
      case NBPUT: nga_nbput_(&G_, flo, fhi, buf, fld, (Integer *)h); break;
      case NBGET: nga_nbget_(&G_, flo, fhi, buf, fld, (Integer *)h); break;
      case NBACC: nga_nbacc_(&G_, flo, fhi, buf, fld, alpha, (Integer *)h); break;
      case PPUT: nga_periodic_put_(&G_, flo, fhi, buf, fld); break;
      case PGET: nga_periodic_get_(&G_, flo, fhi, buf, fld); break;
      case PACC: nga_periodic_acc_(&G_, flo, fhi, buf, fld, alpha); break;
      case SPUT: nga_strided_put_(&G_, flo, fhi, fsk, buf, fld); break;
      case SGET: nga_strided_get_(&G_, flo, fhi, fsk, buf, fld); break;
      case SACC: nga_strided_acc_(&G_, flo, fhi, fsk, buf, fld, alpha); break;
    }
    return;
  }
#define BOTH(NAME, ...) 
  switch (kind) {
    case PUT: if (api) NGA_Put64(g, lo, hi, buf, lld); else NGA_Put(g, ilo, ihi, buf, ild); break;
    case GET: if (api) NGA_Get64(g, lo, hi, buf, lld); else NGA_Get(g, ilo, ihi, buf, ild); break;
    case ACC: if (api) NGA_Acc64(g, lo, hi, buf, lld, alpha); else NGA_Acc(g, ilo, ihi, buf, ild, alpha); break;
    case NBPUT: if (api) NGA_NbPut64(g, lo, hi, buf, lld, h); else NGA_NbPut(g, ilo, ihi, buf, ild, h); break;
    case NBGET: if (api) NGA_NbGet64(g, lo, hi, buf, lld, h); else NGA_NbGet(g, ilo, ihi, buf, ild, h); break;
    case NBACC: if (api) NGA_NbAcc64(g, lo, hi, buf, lld, alpha, h); else NGA_NbAcc(g, ilo, ihi, buf, ild, alpha, h); break;
    case PPUT: if (api) NGA_Periodic_put64(g, lo, hi, buf, lld); else NGA_Periodic_put(g, ilo, ihi, buf, ild); break;
    case PGET: if (api) NGA_Periodic_get64(g, lo, hi, buf, lld); else NGA_Periodic_get(g, ilo, ihi, buf, ild); break;
    case PACC: if (api) NGA_Periodic_acc64(g, lo, hi, buf, lld, alpha); else NGA_Periodic_acc(g, ilo, ihi, buf, ild, alpha); break;
    case SPUT: if (api) NGA_Strided_put64(g, lo, hi, skip, buf, lld); else NGA_Strided_put(g, ilo, ihi, isk, buf, ild); break;
    case SGET: if (api) NGA_Strided_get64(g, lo, hi, skip, buf, lld); else NGA_Strided_get(g, ilo, ihi, isk, buf, ild); break;
    case SACC: if (api) NGA_Strided_acc64(g, lo, hi, skip, buf, lld, alpha); else NGA_Strided_acc(g, ilo, ihi, isk, buf, ild, alpha); break;
  }
}

/* outstanding non-blocking operations */
typedef struct { int used, kind; ga_nbhdl_t h; buf_t b; int pos; } nb_t;
#define MAXNB 4096
static nb_t NB[MAXNB];

/* acc: alpha as a plain number (real), applied to every type */
void enc_alpha(arr_t *a, const long long *v, void *p)
{
  arr_t t = *a;
  t.S = 1;
  t.S2 = 0;
  t.D = 1;
  enc_v(&t, v, 0, p);
}

int create_array(vline_t *l)
{
  int a = (int)v_int(l, "a", 0), i, n, api = (int)v_int(l, "api", 0);
  arr_t *x = &A[a];
  int64_t cd[7], chunk[7], blk[7], w[7];
  long long nb[7], grp, t[8];
  const char *kind = v_str(l, "kind", "reg");
  char name[64];
  long long *map; int nm;
  memset(x, 0, sizeof *x);
  x->type = type_of(v_str(l, "t", "dbl"));
  x->esz = type_size(x->type);
  x->ndim = n = get_dims(l, "dims", x->dims);
  for (i = 0; i < n; i++) x->e[i] = 1;
  get_dims(l, "e", x->e);
  x->S = v_int(l, "S", 1);
  x->D = v_int(l, "D", 1);
  x->S2 = v_int(l, "S2", 1);
  x->pos = (int)v_int(l, "pos", 0);
  x->cx = (int)v_int(l, "cx", 0);
  x->cw = x->cx ? 2 : 1;
  x->blk = 1;
  for (i = 0; i < n; i++) { cd[i] = x->dims[i] * x->e[i]; x->blk *= x->e[i]; }
  grp = v_int(l, "grp", -1);
  if (api == 4) {  /* through the one-call interface */
    int icd[7], ich[7], iw[7];
    int hasg, p = grp >= 0 ? G[grp] : GA_Pgroup_get_default();
    snprintf(name, sizeof name, "%s", v_str(l, "name", "A"));
    to_int(cd, icd, n);
    for (i = 0; i < n; i++) chunk[i] = -1;
    get_dims(l, "chunk", chunk);
    to_int(chunk, ich, n);
    for (i = 0; i < n; i++) w[i] = 0;
    hasg = get_dims(l, "ghost", w);
    to_int(w, iw, n);
    for (i = 0; i < n; i++) x->gw[i] = w[i];
    if (v_str(l, "map", NULL)) {
      int inb[7], imap[512];
      int k = v_list(l, "nblock", t, 8);
      for (i = 0; i < k; i++) inb[i] = (int)t[i];
      map = v_newlist(l, "map", &nm);
      for (i = 0; i < nm; i++) imap[i] = (int)map[i];
      free(map);
      if (hasg) x->g = grp >= 0 ? NGA_Create_ghosts_irreg_config(x->type, n, icd, iw, name, inb, imap, p) : NGA_Create_ghosts_irreg(x->type, n, icd, iw, name, inb, imap);
      else x->g = grp >= 0 ? NGA_Create_irreg_config(x->type, n, icd, name, inb, imap, p) : NGA_Create_irreg(x->type, n, icd, name, inb, imap);
    } else if (hasg) {
      x->g = grp >= 0 ? NGA_Create_ghosts_config(x->type, n, icd, iw, name, ich, p) : NGA_Create_ghosts(x->type, n, icd, iw, name, ich);
    } else
      x->g = grp >= 0 ? NGA_Create_config(x->type, n, icd, name, ich, p) : NGA_Create(x->type, n, icd, name, ich);
    return x->g != 0;
  }
  x->g = GA_Create_handle();
  {
    int icd[7];
    to_int(cd, icd, n);
    if (api) GA_Set_data64(x->g, n, cd, x->type); else GA_Set_data(x->g, n, icd, x->type);
  }
  snprintf(name, sizeof name, "%s", v_str(l, "name", "A"));
  GA_Set_array_name(x->g, name);
  if (grp >= 0) GA_Set_pgroup(x->g, G[grp]);
  if (grp == -2) GA_Set_pgroup(x->g, GA_Pgroup_get_mirror());
  if (get_dims(l, "ghost", w)) {
    int iw[7];
    to_int(w, iw, n);
    for (i = 0; i < n; i++) x->gw[i] = w[i];
    if (api) GA_Set_ghosts64(x->g, w); else GA_Set_ghosts(x->g, iw);
  }
  if (get_dims(l, "chunk", chunk)) {
    int ich[7];
    to_int(chunk, ich, n);
    if (api) GA_Set_chunk64(x->g, chunk); else GA_Set_chunk(x->g, ich);
  }
  if (get_dims(l, "block", blk)) {
    int ib[7], ig[7];
    int64_t pg[7];
    to_int(blk, ib, n);
    if (get_dims(l, "grid", pg)) {
      to_int(pg, ig, n);
      if (!strcmp(kind, "scalapack")) {
        if (api) GA_Set_block_cyclic_proc_grid64(x->g, blk, pg); else GA_Set_block_cyclic_proc_grid(x->g, ib, ig);
      } else {
        if (api) GA_Set_tiled_proc_grid64(x->g, blk, pg); else GA_Set_tiled_proc_grid(x->g, ib, ig);
      }
    } else if (api) GA_Set_block_cyclic64(x->g, blk); else GA_Set_block_cyclic(x->g, ib);
  }
  if (v_str(l, "map", NULL)) {
    int64_t m64[512], n64[7], pg[7];
    int mi[512], ni[7], ig[7];
    int k = v_list(l, "nblock", nb, 7);
    map = v_newlist(l, "map", &nm);
    for (i = 0; i < nm; i++) { m64[i] = map[i]; mi[i] = (int)map[i]; }
    for (i = 0; i < k; i++) { n64[i] = nb[i]; ni[i] = (int)nb[i]; }
    free(map);
    if (!strcmp(kind, "tiledirreg")) {
      for (i = 0; i < n; i++) x->nb[i] = ni[i];
      get_dims(l, "grid", pg);
      to_int(pg, ig, n);
      if (api) GA_Set_tiled_irreg_proc_grid64(x->g, m64, n64, pg); else GA_Set_tiled_irreg_proc_grid(x->g, mi, ni, ig);
    } else if (api) GA_Set_irreg_distr64(x->g, m64, n64); else GA_Set_irreg_distr(x->g, mi, ni);
  }
  if (v_str(l, "restrict", NULL)) {
    long long r[64];
    int ri[64], k = v_list(l, "restrict", r, 64);
    for (i = 0; i < k; i++) ri[i] = (int)r[i];
    if (v_int(l, "range", 0)) GA_Set_restricted_range(x->g, ri[0], ri[k - 1]);
    else GA_Set_restricted(x->g, ri, k);
  }
  if (v_str(l, "prop", NULL)) { snprintf(name, sizeof name, "%s", v_str(l, "prop", "")); GA_Set_property(x->g, name); }
  return GA_Allocate(x->g);
}

static void transfer(vline_t *l, int kind)
{
  arr_t *a = &A[v_int(l, "a", 0)];
  int64_t lo[7], hi[7], clo[7], chi[7], sh[7], skip[7], eu[7];
  long long pad[7] = {0}, *v = NULL, al[2] = {1, 0};
  int i, nv, api = (int)v_int(l, "api", 0), nb = (kind == NBPUT || kind == NBGET || kind == NBACC);
  int strided = (kind == SPUT || kind == SGET || kind == SACC);
  int isget = (kind == GET || kind == NBGET || kind == PGET || kind == SGET);
  int isacc = (kind == ACC || kind == NBACC || kind == PACC || kind == SACC);
  char alpha[32];
  buf_t b;
  get_dims(l, "lo", lo);
  get_dims(l, "hi", hi);
  v_list(l, "pad", pad, 7);
  v_list(l, "alpha", al, 2);
  for (i = 0; i < a->ndim; i++) {
    clo[i] = lo[i] * a->e[i];
    chi[i] = hi[i] * a->e[i] + a->e[i] - 1;
    sh[i] = hi[i] - lo[i] + 1;
    eu[i] = a->e[i];
  }
  if (strided) {
    get_dims(l, "skip", skip);
    for (i = 0; i < a->ndim; i++) sh[i] = (hi[i] - lo[i]) / skip[i] + 1;
  }
  buf_make(&b, a, sh, eu, pad);
  if (isget) v = malloc((b.nspec + 1) * 2 * sizeof *v);
  else {
    v = v_newlist(l, "v", &nv);
    if (nv != b.nspec * a->cw) { fprintf(stderr, "line %ld: %d values for %ld cells\n", l->id, nv, (long)b.nspec); exit(3); }
    buf_fill(&b, v, a->pos && !isacc);
  }
  if (isacc) enc_alpha(a, al, alpha);
  if (nb) {
    nb_t *h = &NB[v_int(l, "h", 0)];
    if (h->used) { fprintf(stderr, "handle in use, line %ld\n", l->id); exit(3); }
    h->used = 1;
    h->kind = kind;
    h->b = b;
    h->pos = a->pos;
    xfer(kind, api, a, clo, chi, NULL, b.buf, b.ld, alpha, &h->h);
    free(v);
    return;
  }
  for (i = (int)v_int(l, "rep", 1); i > 0; i--)
    xfer(kind, api, a, clo, chi, strided ? skip : NULL, b.buf, b.ld, alpha, NULL);
  v_rec(l);
  if (isget) {
    long long pd = buf_read(&b, v, a->pos);
    v_put_list("v", v, (int)b.nspec * a->cw);
    v_put_int("pad", pd);
  } else {
    v_put_int("pad", buf_changed(&b));
    buf_scribble(&b);
  }
  v_end();
  free(v);
  buf_free(&b);
}

static void nbdone(vline_t *l, nb_t *h)
{
  v_rec(l);
  if (h->kind == NBGET) {
    long long *v = malloc((h->b.nspec + 1) * 2 * sizeof *v);
    long long pd = buf_read(&h->b, v, h->pos);
    v_put_list("v", v, (int)h->b.nspec * h->b.a->cw);
    v_put_int("pad", pd);
    free(v);
  } else {
    v_put_int("pad", buf_changed(&h->b));
    buf_scribble(&h->b);
  }
  v_end();
  buf_free(&h->b);
  h->used = 0;
}

/* scatter, scatter_acc, gather with a list of subscripts (ndim numbers each) */
static void lists(vline_t *l, int kind)
{
  arr_t *a = &A[v_int(l, "a", 0)];
  int n = a->ndim, ns, i, k, nv, api = (int)v_int(l, "api", 0);
  long long *s = v_newlist(l, "s", &ns), *v = NULL;
  int64_t cnt, j, tot;
  char *buf, alpha[32], *shadow;
  size_t bytes;
  ns /= n;
  tot = (int64_t)ns * a->blk;
  if (kind != 2) v = v_newlist(l, "v", &nv);
  bytes = (tot + 2 * GUARD) * a->esz;
  buf = malloc(bytes);
  shadow = malloc(bytes);
  memset(buf, 0xA5, bytes);
  {
    int64_t *sub = malloc(sizeof(int64_t) * n * tot);
    int *isub = malloc(sizeof(int) * n * tot);
    int64_t **p64 = malloc(sizeof(void *) * tot);
    int **p32 = malloc(sizeof(void *) * tot);
    for (cnt = 0, i = 0; i < ns; i++)
      for (j = 0; j < a->blk; j++, cnt++) {
        int64_t r = j;
        for (k = n - 1; k >= 0; k--) {
          sub[cnt * n + k] = s[i * n + k] * a->e[k] + r % a->e[k];
          r /= a->e[k];
        }
        for (k = 0; k < n; k++) isub[cnt * n + k] = (int)sub[cnt * n + k];
        p64[cnt] = &sub[cnt * n];
        p32[cnt] = &isub[cnt * n];
        if (kind != 2) enc_v(a, v + i * a->cw, a->pos && kind == 0 ? j : 0, buf + (GUARD + cnt) * a->esz);
      }
    memcpy(shadow, buf, bytes);
    { long long al[2] = {1, 0}; v_list(l, "alpha", al, 2); enc_alpha(a, al, alpha); }
    if (api == 4 || api == 5) NGA_Alloc_gatscat_buf((int)tot);
    int rep;
    for (rep = (int)v_int(l, "rep", 1); rep > 0; rep--) {
      void *b = buf + GUARD * a->esz;
      if (api == 2) {
        Integer g = a->g, nn = tot, *f = malloc(sizeof(Integer) * n * tot);
        for (j = 0; j < tot; j++) for (k = 0; k < n; k++) f[j * n + k] = sub[j * n + (n - 1 - k)] + 1;
        if (kind == 0) nga_scatter_(&g, b, f, &nn);
        else if (kind == 1) nga_scatter_acc_(&g, b, f, &nn, alpha);
        else nga_gather_(&g, b, f, &nn);
        free(f);
      } else if (api == 7 && n == 2) {   /* the two-dimensional Fortran interface */
        Integer g = a->g, nn = tot, *fi = malloc(sizeof(Integer) * tot), *fj = malloc(sizeof(Integer) * tot);
        for (j = 0; j < tot; j++) { fi[j] = sub[j * 2 + 1] + 1; fj[j] = sub[j * 2] + 1; }
        /* these may reorder the values together with the lists */
        void *c = malloc(tot * a->esz + 1);
        memcpy(c, b, tot * a->esz);
        if (kind == 0) ga_scatter_(&g, c, fi, fj, &nn);
        else if (kind == 1) ga_scatter_acc_(&g, c, fi, fj, &nn, alpha);
        else ga_gather_(&g, b, fi, fj, &nn);
        free(c);
        free(fi); free(fj);
      } else if (api == 3) {
        if (kind == 0) NGA_Scatter_flat64(a->g, b, sub, tot);
        else if (kind == 1) NGA_Scatter_acc_flat64(a->g, b, sub, tot, alpha);
        else NGA_Gather_flat64(a->g, b, sub, tot);
      } else if (api == 1 || api == 5) {
        if (kind == 0) NGA_Scatter64(a->g, b, p64, tot);
        else if (kind == 1) NGA_Scatter_acc64(a->g, b, p64, tot, alpha);
        else NGA_Gather64(a->g, b, p64, tot);
      } else if (api == 6) {
        if (kind == 0) NGA_Scatter_flat(a->g, b, isub, (int)tot);
        else if (kind == 1) NGA_Scatter_acc_flat(a->g, b, isub, (int)tot, alpha);
        else NGA_Gather_flat(a->g, b, isub, (int)tot);
      } else {
        if (kind == 0) NGA_Scatter(a->g, b, p32, (int)tot);
        else if (kind == 1) NGA_Scatter_acc(a->g, b, p32, (int)tot, alpha);
        else NGA_Gather(a->g, b, p32, (int)tot);
      }
    }
    if (api == 4 || api == 5) NGA_Free_gatscat_buf();
    /* the caller's subscripts are inputs */
    k = 0;
    for (cnt = 0, i = 0; i < ns; i++)
      for (j = 0; j < a->blk; j++, cnt++) {
        int64_t r = j, q;
        int d;
        for (d = n - 1; d >= 0; d--) {
          q = s[i * n + d] * a->e[d] + r % a->e[d];
          r /= a->e[d];
          if (sub[cnt * n + d] != q || isub[cnt * n + d] != (int)q) k++;
        }
      }
    free(sub); free(isub); free(p64); free(p32);
  }
  v_rec(l);
  {
    long long changed = 0;
    size_t q;
    if (kind == 2) {
      long long *o = malloc(sizeof *o * 2 * (ns + 1));
      for (cnt = 0, i = 0; i < ns; i++)
        for (j = 0; j < a->blk; j++, cnt++) {
          long long x[2];
          dec_v(a, buf + (GUARD + cnt) * a->esz, j, a->pos, x);
          if (a->cw == 2) { o[2 * i] = x[0]; o[2 * i + 1] = x[1]; }
          else if (j == 0) o[i] = x[0]; else if (o[i] != x[0]) o[i] = BADVAL;
        }
      for (q = 0; q < bytes; q++)
        if ((q < GUARD * a->esz || q >= (GUARD + tot) * a->esz) && buf[q] != (char)0xA5) changed++;
      v_put_list("v", o, ns * a->cw);
      free(o);
    } else
      for (q = 0; q < bytes; q++) if (buf[q] != shadow[q]) changed++;
    v_put_int("pad", changed + k);
  }
  v_end();
  free(buf); free(shadow); free(s); free(v);
}

/* the local blocks of this process as direct access shows them: flat list of (cell index, value) */
static void dump_local(vline_t *l)
{
  arr_t *a = &A[v_int(l, "a", 0)];
  int n = a->ndim, i, k, lo[7], hi[7], ld[7], nblk;
  int store = v_str(l, "add", NULL) != NULL;
  long long add = v_int(l, "add", 0);
  int64_t ntot = 1;
  long long *o;
  int cnt = 0;
  for (i = 0; i < n; i++) ntot *= a->dims[i];
  ntot *= a->cw;
  o = malloc(sizeof *o * (2 * ntot + 16));
  nblk = GA_Total_blocks(a->g);
  for (k = 0; k < (nblk < 0 ? 1 : nblk); k++) {
    char *p;
    int64_t tot = 1, j;
    if (nblk < 0) {
      NGA_Distribution(a->g, GA_Get_pgroup(a->g) >= 0 ? GA_Pgroup_nodeid(GA_Get_pgroup(a->g)) : me, lo, hi);
      if (lo[0] < 0 || hi[0] < lo[0]) continue;
      NGA_Access(a->g, lo, hi, &p, ld);
    } else {
      int gp = GA_Get_pgroup(a->g), my = gp >= 0 ? GA_Pgroup_nodeid(gp) : me, np = gp >= 0 ? GA_Pgroup_nnodes(gp) : GA_Nnodes();
      int idx[7], nb[7], bd[7], grid[7], pidx[7], r = k, mine = 1;
      if (GA_Uses_proc_grid(a->g)) {
        /* a block belongs to the process whose grid coordinates are the block's modulo the grid */
        if (a->nb[0]) memcpy(nb, a->nb, sizeof nb); else NGA_Get_block_info(a->g, nb, bd);
        NGA_Get_proc_grid(a->g, grid);
        NGA_Get_proc_index(a->g, my, pidx);
        for (i = n - 1; i >= 0; i--) { idx[i] = r % nb[i]; r /= nb[i]; }
        for (i = 0; i < n; i++) if (idx[i] % grid[i] != pidx[i]) mine = 0;
      } else mine = k % np == my;
      if (!mine) continue;
      NGA_Distribution(a->g, k, lo, hi);
      if (hi[0] < lo[0]) continue;
      if (GA_Uses_proc_grid(a->g) && (k & 1)) NGA_Access_block_grid(a->g, idx, &p, ld);
      else NGA_Access_block(a->g, k, &p, ld);
    }
    for (i = 0; i < n; i++) tot *= hi[i] - lo[i] + 1;
    for (j = 0; j < tot; j++) {
      int64_t r = j, c[7], idx = 0, spec = 0, off = 0;
      char *q;
      for (i = n - 1; i >= 0; i--) { c[i] = r % (hi[i] - lo[i] + 1); r /= hi[i] - lo[i] + 1; }
      for (i = 0; i < n; i++) {
        idx = i == 0 ? c[0] : idx * ld[i - 1] + c[i];
        c[i] += lo[i];
        spec = spec * a->dims[i] + c[i] / a->e[i];
        off = off * a->e[i] + c[i] % a->e[i];
      }
      q = p + idx * a->esz;
      if (store) {
        long long v[2];
        dec_v(a, q, off, a->pos, v);
        v[0] += add; v[1] += add;
        enc_v(a, v, a->pos ? off : 0, q);
      }
      if (a->blk == 1 || off == 0) {
        long long v[2];
        int w;
        dec_v(a, q, off, a->pos, v);
        for (w = 0; w < a->cw; w++) { o[cnt++] = spec * a->cw + w; o[cnt++] = v[w]; }
        if (cnt > 2 * ntot + 8) { cnt -= 2 * a->cw; o[cnt - 1] = BADVAL; }
      }
    }
    if (nblk < 0) { if (store) NGA_Release_update(a->g, lo, hi); else NGA_Release(a->g, lo, hi); }
    else if (store) NGA_Release_update_block(a->g, k); else NGA_Release_block(a->g, k);
  }
  v_rec(l);
  v_put_list("o", o, cnt);
  v_end();
  free(o);
}

int run_line(vline_t *l)
{
  const char *op = l->op;
  int i;
  if (!strcmp(op, "sync")) { GA_Sync(); return 1; }
  if (!strcmp(op, "gsync")) { GA_Pgroup_sync(G[v_int(l, "grp", 0)]); return 1; }
  if (!strcmp(op, "create")) { if (!create_array(l)) GA_Error("array creation failed", (int)v_int(l, "a", 0)); return 1; }
  if (!strcmp(op, "destroy")) { GA_Destroy(A[v_int(l, "a", 0)].g); A[v_int(l, "a", 0)].g = 0; return 1; }
  if (!strcmp(op, "delay")) { v_delay(v_int(l, "us", 0)); return 1; }
  if (!strcmp(op, "group")) {
    long long t[64];
    int ti[64], n = v_list(l, "list", t, 64);
    for (i = 0; i < n; i++) ti[i] = (int)t[i];
    G[v_int(l, "grp", 0)] = GA_Pgroup_create(ti, n);
    return 1;
  }
  if (!strcmp(op, "defgrp")) {
    int g = (int)v_int(l, "grp", -1);
    GA_Pgroup_set_default(g < 0 ? GA_Pgroup_get_world() : G[g]);
    return 1;
  }
  if (!strcmp(op, "grpfree")) { GA_Pgroup_destroy(G[v_int(l, "grp", 0)]); return 1; }
  if (!strcmp(op, "put")) { transfer(l, PUT); return 1; }
  if (!strcmp(op, "get")) { transfer(l, GET); return 1; }
  if (!strcmp(op, "acc")) { transfer(l, ACC); return 1; }
  if (!strcmp(op, "nbput")) { transfer(l, NBPUT); return 1; }
  if (!strcmp(op, "nbget")) { transfer(l, NBGET); return 1; }
  if (!strcmp(op, "nbacc")) { transfer(l, NBACC); return 1; }
  if (!strcmp(op, "pput")) { transfer(l, PPUT); return 1; }
  if (!strcmp(op, "pget")) { transfer(l, PGET); return 1; }
  if (!strcmp(op, "pacc")) { transfer(l, PACC); return 1; }
  if (!strcmp(op, "sput")) { transfer(l, SPUT); return 1; }
  if (!strcmp(op, "sget")) { transfer(l, SGET); return 1; }
  if (!strcmp(op, "sacc")) { transfer(l, SACC); return 1; }
  if (!strcmp(op, "scatter")) { lists(l, 0); return 1; }
  if (!strcmp(op, "scatacc")) { lists(l, 1); return 1; }
  if (!strcmp(op, "gather")) { lists(l, 2); return 1; }
  if (!strcmp(op, "nbwait")) {
    nb_t *h = &NB[v_int(l, "h", 0)];
    if (v_int(l, "api", 0) == 2) nga_nbwait_((Integer *)&h->h); else NGA_NbWait(&h->h);
    nbdone(l, h);
    return 1;
  }
  if (!strcmp(op, "nbtest")) {   /* tests until complete */
    nb_t *h = &NB[v_int(l, "h", 0)];
    long k = 0;
    while (!NGA_NbTest(&h->h)) if (++k > 1000000) { NGA_NbWait(&h->h); break; }
    nbdone(l, h);
    return 1;
  }
  if (!strcmp(op, "readinc")) {
    arr_t *a = &A[v_int(l, "a", 0)];
    int64_t lo[7];
    int il[7];
    long r;
    get_dims(l, "lo", lo);
    to_int(lo, il, a->ndim);
    if (v_int(l, "api", 0) == 2) {
      Integer f[7], g = a->g, inc = v_int(l, "inc", 1);
      for (i = 0; i < a->ndim; i++) f[i] = lo[a->ndim - 1 - i] + 1;
      r = nga_read_inc_(&g, f, &inc);
    } else
    r = v_int(l, "api", 0) ? NGA_Read_inc64(a->g, lo, v_int(l, "inc", 1)) : NGA_Read_inc(a->g, il, v_int(l, "inc", 1));
    v_rec(l);
    v_put_int("v", r);
    v_end();
    return 1;
  }
  if (!strcmp(op, "local")) { dump_local(l); return 1; }
  if (!strcmp(op, "fill")) { char v[32]; arr_t *a = &A[v_int(l, "a", 0)]; long long x[2] = {0, 0}; v_list(l, "x", x, 2); enc_v(a, x, 0, v); GA_Fill(a->g, v); return 1; }
  if (!strcmp(op, "zero")) { GA_Zero(A[v_int(l, "a", 0)].g); return 1; }
  if (!strcmp(op, "fence")) { GA_Fence(); return 1; }
  if (!strcmp(op, "initfence")) { GA_Init_fence(); return 1; }
  return other_op(l);
}

int main(int argc, char **argv)
{
  int th, i;
  vscript_t *s;
  long long heap = 4000000;
  if (getenv("VERIF_THREADS")) MPI_Init(&argc, &argv);
  else MPI_Init_thread(&argc, &argv, MPI_THREAD_MULTIPLE, &th);
  s = v_read_script(argv[1]);
  v_clock_open();
  if (getenv("VERIF_MA")) heap = atoll(getenv("VERIF_MA"));
  if (getenv("VERIF_GALIMIT")) GA_Initialize_ltd((size_t)atoll(getenv("VERIF_GALIMIT")));
  else GA_Initialize();
  me = GA_Nodeid();
  np = GA_Nnodes();
  v_open_trace(me);
  MA_init(C_DBL, heap, heap);
  for (i = 0; i < s->n; i++)
    if (v_mine(&s->l[i], me)) {
      if (getenv("VERIF_TRACE_LINES")) fprintf(stderr, "[%d] line %ld %s\n", me, s->l[i].id, s->l[i].op);
      if (!run_line(&s->l[i])) { fprintf(stderr, "unknown operation %s\n", s->l[i].op); MPI_Abort(MPI_COMM_WORLD, 3); }
    }
  GA_Sync();
  { vline_t e; memset(&e, 0, sizeof e); e.id = 1000000000L; v_rec(&e); v_put_int("end", np); v_end(); }
  v_flush();
  GA_Terminate();
  MPI_Finalize();
  return 0;
}
