/* Enumeration, segmented scans, packing, binning, selection. */
#include "gadrv.h"

extern void ga_bin_sorter_(Integer *, Integer *, Integer *);
extern void ga_bin_index_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
extern void ga_scan_copy_(Integer *, Integer *, Integer *, Integer *, Integer *);
extern void ga_scan_add_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
extern void ga_patch_enum_(Integer *, Integer *, Integer *, void *, void *);
extern void ga_pack_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
extern void ga_unpack_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);

static void bins(vline_t *l)
{
  char k[16];
  int n, m, i, b = A[v_int(l, "b", 0)].g, lo = 0, hi, ld = 1, srt = (int)v_int(l, "sort", 0), how = (int)v_int(l, "how", 0);
  Integer gb = b, gc = A[v_int(l, "c", 0)].g, go = A[v_int(l, "o", 0)].g, cnt, *val, *sub, s = srt && !how;
  long long *v, *w;
  sprintf(k, "v%d", me); v = v_newlist(l, k, &n);
  sprintf(k, "s%d", me); w = v_newlist(l, k, &m);
  val = malloc((n + 1) * sizeof *val); sub = malloc((n + 1) * sizeof *sub);
  for (i = 0; i < n; i++) { val[i] = v[i]; sub[i] = w[i]; }
  cnt = n;
  ga_bin_index_(&gb, &gc, &go, val, sub, &cnt, &s);
  if (srt && how) ga_bin_sorter_(&gb, &gc, &go);
  free(v); free(w); free(val); free(sub);
  GA_Sync();
  hi = (int)A[v_int(l, "b", 0)].dims[0] - 1;
  { long *buf = malloc((hi + 1) * sizeof *buf);
    v = malloc((hi + 1) * sizeof *v);
    NGA_Get(b, &lo, &hi, buf, &ld);
    for (i = 0; i <= hi; i++) v[i] = buf[i] > 1500000000L || buf[i] < -1500000000L ? BADVAL : buf[i];
    v_rec(l); v_put_list("v", v, hi + 1); v_end();
    free(buf); free(v);
  }
}

int scan_op(vline_t *l)
{
  int api = (int)v_int(l, "api", 0);
  int64_t lo = v_int(l, "lo", 0), hi = v_int(l, "hi", 0);
  Integer flo = lo + 1, fhi = hi + 1;
  if (!strcmp(l->op, "enum")) {
    arr_t *a = &A[v_int(l, "a", 0)];
    char x[32], y[32];
    Integer g = a->g;
    enc_scalar(a, v_int(l, "start", 0), 0, x); enc_scalar(a, v_int(l, "inc", 0), 0, y);
    if (api == 0) GA_Patch_enum(a->g, (int)lo, (int)hi, x, y);
    else if (api == 1) GA_Patch_enum64(a->g, lo, hi, x, y);
    else ga_patch_enum_(&g, &flo, &fhi, x, y);
    return 1;
  }
  if (!strcmp(l->op, "scan") || !strcmp(l->op, "pack")) {
    const char *f = v_str(l, "f", "");
    int s = A[v_int(l, "s", 0)].g, d = A[v_int(l, "d", 0)].g, m = A[v_int(l, "m", 0)].g, ex = (int)v_int(l, "excl", 0), n = -77;
    Integer fs = s, fd = d, fm = m, fe = ex, fn = -77;
    int64_t n64 = -77;
    if (!strcmp(f, "copy")) {
      if (api == 0) GA_Scan_copy(s, d, m, (int)lo, (int)hi);
      else if (api == 1) GA_Scan_copy64(s, d, m, lo, hi);
      else ga_scan_copy_(&fs, &fd, &fm, &flo, &fhi);
    } else if (!strcmp(f, "add")) {
      if (api == 0) GA_Scan_add(s, d, m, (int)lo, (int)hi, ex);
      else if (api == 1) GA_Scan_add64(s, d, m, lo, hi, ex);
      else ga_scan_add_(&fs, &fd, &fm, &flo, &fhi, &fe);
    } else {
      int pk = !strcmp(f, "pack");
      if (api == 0) { if (pk) GA_Pack(s, d, m, (int)lo, (int)hi, &n); else GA_Unpack(s, d, m, (int)lo, (int)hi, &n); n64 = n; }
      else if (api == 1) { if (pk) GA_Pack64(s, d, m, lo, hi, &n64); else GA_Unpack64(s, d, m, lo, hi, &n64); }
      else { if (pk) ga_pack_(&fs, &fd, &fm, &flo, &fhi, &fn); else ga_unpack_(&fs, &fd, &fm, &flo, &fhi, &fn); n64 = fn; }
      v_rec(l); v_put_int("n", n64); v_end();
    }
    return 1;
  }
  if (!strcmp(l->op, "select")) {
    arr_t *a = &A[v_int(l, "a", 0)];
    char val[32], op[4];
    int ix[7], i;
    int64_t ix64[7];
    long long v, t[7];
    memset(val, 0, sizeof val);
    strcpy(op, v_str(l, "f", "min"));
    if (api) NGA_Select_elem64(a->g, op, val, ix64); else NGA_Select_elem(a->g, op, val, ix);
    v = dec_scalar(a, val, 0, 0);
    for (i = 0; i < a->ndim; i++) t[i] = api ? ix64[i] : ix[i];
    v_rec(l); v_put_int("v", v); v_put_list("idx", t, a->ndim); v_end();
    return 1;
  }
  if (!strcmp(l->op, "bins")) { bins(l); return 1; }
  return 0;
}
