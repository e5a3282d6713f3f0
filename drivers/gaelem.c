/* Whole-array and patch operations. */
#include "gapat.h"


/* the patch named by k: arrays k, klo, khi in specification cells */
int patch(vline_t *l, const char *k, pat_t *p)
{
  char key[16];
  int64_t lo[7], hi[7];
  int i, n;
  if (!v_str(l, k, NULL)) { p->a = NULL; return 0; }
  p->a = &A[v_int(l, k, 0)];
  p->n = n = p->a->ndim;
  for (i = 0; i < n; i++) { lo[i] = 0; hi[i] = p->a->dims[i] - 1; }
  snprintf(key, sizeof key, "%slo", k); get_dims(l, key, lo);
  snprintf(key, sizeof key, "%shi", k); get_dims(l, key, hi);
  for (i = 0; i < n; i++) {
    p->l64[i] = lo[i] * p->a->e[i];
    p->h64[i] = (hi[i] + 1) * p->a->e[i] - 1;
    p->il[i] = (int)p->l64[i];
    p->ih[i] = (int)p->h64[i];
  }
  for (i = 0; i < n; i++) { p->fl[i] = p->l64[n - 1 - i] + 1; p->fh[i] = p->h64[n - 1 - i] + 1; }
  return 1;
}
extern void nga_fill_patch_(Integer *, Integer *, Integer *, void *);
extern void nga_scale_patch_(Integer *, Integer *, Integer *, void *);
extern void nga_zero_patch_(Integer *, Integer *, Integer *);
extern void nga_abs_value_patch_(Integer *, Integer *, Integer *);
extern void nga_recip_patch_(Integer *, Integer *, Integer *);
extern void nga_add_constant_patch_(Integer *, Integer *, Integer *, void *);
extern void nga_add_patch_(void *, Integer *, Integer *, Integer *, void *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
typedef void elem3_t(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
extern elem3_t nga_elem_multiply_patch_, nga_elem_divide_patch_, nga_elem_maximum_patch_, nga_elem_minimum_patch_;
extern void nga_median_patch_(Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *, Integer *);
extern void ga_fill_(Integer *, void *);
extern void ga_zero_(Integer *);
extern void ga_scale_(Integer *, void *);
extern void ga_copy_(Integer *, Integer *);
extern void ga_add_(void *, Integer *, void *, Integer *, Integer *);

static void elem(vline_t *l)
{
  const char *f = v_str(l, "f", "");
  pat_t a, b, c, m;
  int api = (int)v_int(l, "api", 0), w = (int)v_int(l, "w", 0);
  long long t[2] = {0, 0};
  char x[32], al[32], be[32];
  Integer ga = 0, gb = 0, gc, gm = 0;
  char tr = v_int(l, "tr", 0) ? (api == 1 ? 't' : 'T') : (api == 1 ? 'n' : 'N');
  patch(l, "c", &c);
  gc = c.a->g;
  if (patch(l, "a", &a)) ga = a.a->g;
  if (patch(l, "b", &b)) gb = b.a->g;
  if (patch(l, "m", &m)) gm = m.a->g;
  if (v_list(l, "x", t, 2)) enc_v(c.a, t, 0, x);
  if (v_list(l, "al", t, 2)) enc_alpha(c.a, t, al);
  if (v_list(l, "be", t, 2)) enc_alpha(c.a, t, be);
#define IS(s) (!strcmp(f, s))
  if (IS("fill")) {
    if (w) { if (api == 2) ga_fill_(&gc, x); else if (api) NGA_Fill(c.a->g, x); else GA_Fill(c.a->g, x); }
    else if (api == 2) nga_fill_patch_(FP(c, gc), x); else if (api) NGA_Fill_patch64(LP(c), x); else NGA_Fill_patch(IP(c), x);
  } else if (IS("zero")) {
    if (w) { if (api == 2) ga_zero_(&gc); else if (api) NGA_Zero(c.a->g); else GA_Zero(c.a->g); }
    else if (api == 2) nga_zero_patch_(FP(c, gc)); else if (api) NGA_Zero_patch64(LP(c)); else NGA_Zero_patch(IP(c));
  } else if (IS("addc")) {
    if (w) GA_Add_constant(c.a->g, x);
    else if (api == 2) nga_add_constant_patch_(FP(c, gc), x); else if (api) GA_Add_constant_patch64(LP(c), x); else GA_Add_constant_patch(IP(c), x);
  } else if (IS("scale")) {
    if (w) { if (api == 2) ga_scale_(&gc, al); else GA_Scale(c.a->g, al); }
    else if (api == 2) nga_scale_patch_(FP(c, gc), al); else if (api) NGA_Scale_patch64(LP(c), al); else NGA_Scale_patch(IP(c), al);
  } else if (IS("abs")) {
    if (w) GA_Abs_value(c.a->g);
    else if (api == 2) nga_abs_value_patch_(FP(c, gc)); else if (api) GA_Abs_value_patch64(LP(c)); else GA_Abs_value_patch(IP(c));
  } else if (IS("recip")) {
    if (w) GA_Recip(c.a->g);
    else if (api == 2) nga_recip_patch_(FP(c, gc)); else if (api) GA_Recip_patch64(LP(c)); else GA_Recip_patch(IP(c));
  } else if (IS("copy")) {
    if (w) { if (api == 2) ga_copy_(&ga, &gc); else GA_Copy(a.a->g, c.a->g); }
    else if (api) NGA_Copy_patch64(tr, LP(a), LP(c)); else NGA_Copy_patch(tr, IP(a), IP(c));
  } else if (IS("add")) {
    if (w) { if (api == 2) ga_add_(al, &ga, be, &gb, &gc); else GA_Add(al, a.a->g, be, b.a->g, c.a->g); }
    else if (api == 2) nga_add_patch_(al, FP(a, ga), be, FP(b, gb), FP(c, gc));
    else if (api) NGA_Add_patch64(al, LP(a), be, LP(b), LP(c)); else NGA_Add_patch(al, IP(a), be, IP(b), IP(c));
  }
#define THREE(NAME, CN, FN) else if (IS(NAME)) { \
    if (w) GA_Elem_##CN(a.a->g, b.a->g, c.a->g); \
    else if (api == 2) nga_elem_##CN##_patch_(FP(a, ga), FP(b, gb), FP(c, gc)); \
    else if (api) GA_Elem_##CN##_patch64(LP(a), LP(b), LP(c)); else GA_Elem_##CN##_patch(IP(a), IP(b), IP(c)); }
  THREE("mul", multiply,) THREE("div", divide,) THREE("max", maximum,) THREE("min", minimum,)
  else if (IS("median")) {
    if (w) GA_Median(a.a->g, b.a->g, m.a->g, c.a->g);
    else if (api == 2) nga_median_patch_(FP(a, ga), FP(b, gb), FP(m, gm), FP(c, gc));
    else if (api) GA_Median_patch64(LP(a), LP(b), LP(m), LP(c)); else GA_Median_patch(IP(a), IP(b), IP(m), IP(c));
  } else { fprintf(stderr, "elem %s?\n", f); exit(3); }
}

static void dot(vline_t *l)
{
  pat_t a, b;
  int api = (int)v_int(l, "api", 0), w = (int)v_int(l, "w", 0);
  char ta = v_int(l, "ta", 0) ? 't' : 'n', tb = v_int(l, "tb", 0) ? 'T' : 'N';
  long long v[2] = {0, 0}, S, D;
  patch(l, "a", &a);
  patch(l, "b", &b);
  S = a.a->S * a.a->S;
  D = a.a->D * a.a->D;
#define DOTS(L, T, V) { T r = w ? GA_##L##dot(a.a->g, b.a->g) : api ? NGA_##L##dot_patch64(a.a->g, ta, a.l64, a.h64, b.a->g, tb, b.l64, b.h64) \
      : NGA_##L##dot_patch(a.a->g, ta, a.il, a.ih, b.a->g, tb, b.il, b.ih); V; break; }
  switch (a.a->type) {
    case C_INT: DOTS(I, int, v[0] = r)
    case C_LONG: DOTS(L, long, v[0] = r > 1500000000L || r < -1500000000L ? BADVAL : r)
    case C_LONGLONG: DOTS(Ll, long long, v[0] = r > 1500000000L || r < -1500000000L ? BADVAL : r)
    case C_FLOAT: DOTS(F, float, v[0] = dec_real(r, S, D))
    case C_DBL: DOTS(D, double, v[0] = dec_real(r, S, D))
    case C_SCPL: DOTS(C, SingleComplex, (v[0] = dec_real(r.real, S, D), v[1] = dec_real(r.imag, S, D)))
    case C_DCPL: DOTS(Z, DoubleComplex, (v[0] = dec_real(r.real, S, D), v[1] = dec_real(r.imag, S, D)))
  }
  v_rec(l); v_put_list("v", v, a.a->cw); v_end();
}

/* a number of the array's type; infinity is -1 */
static long long number(arr_t *a, void *p)
{
  switch (a->type) {
    case C_INT: { int x = *(int *)p; return x >= 2000000000 ? -1 : x; }
    case C_LONG: { long x = *(long *)p; return x >= 4000000000000000000L ? -1 : x > 1500000000L ? BADVAL : x; }
    case C_FLOAT: { float x = *(float *)p; return x >= 1e36 ? -1 : dec_real(x, 1, a->D); }
    case C_DBL: { double x = *(double *)p; return x >= 1e300 ? -1 : dec_real(x, 1, a->D); }
  }
  return BADVAL;
}
static void step(vline_t *l, int bounds)
{
  pat_t a, b, m, u;
  int api = (int)v_int(l, "api", 0), w = (int)v_int(l, "w", 0);
  long long v[3];
  char r[3][32];
  patch(l, "a", &a); patch(l, "b", &b); patch(l, "m", &m); patch(l, "u", &u);
  if (!bounds) {
    if (w) GA_Step_max(a.a->g, b.a->g, r[0]);
    else if (api) GA_Step_max_patch64(LP(a), LP(b), r[0]); else GA_Step_max_patch(IP(a), IP(b), r[0]);
  } else {
    if (w) GA_Step_bound_info(a.a->g, b.a->g, m.a->g, u.a->g, r[0], r[1], r[2]);
    else if (api) GA_Step_bound_info_patch64(LP(a), LP(b), LP(m), LP(u), r[0], r[1], r[2]);
    else GA_Step_bound_info_patch(IP(a), IP(b), IP(m), IP(u), r[0], r[1], r[2]);
  }
  v[0] = number(a.a, r[0]);
  if (bounds) { v[1] = number(a.a, r[1]); v[2] = number(a.a, r[2]); }
  v_rec(l); v_put_list("v", v, bounds ? 3 : 1); v_end();
}

int elem_op(vline_t *l)
{
  if (!strcmp(l->op, "elem")) { elem(l); return 1; }
  if (!strcmp(l->op, "dot")) { dot(l); return 1; }
  if (!strcmp(l->op, "stepmax")) { step(l, 0); return 1; }
  if (!strcmp(l->op, "bounds")) { step(l, 1); return 1; }
  return 0;
}
