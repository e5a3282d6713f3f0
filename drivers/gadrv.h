/* Script interpreter for Global Arrays: arrays known by small script numbers. */
#ifndef GADRV_H
#define GADRV_H
#include "vdrv.h"
#include "ga.h"
#include "macdecls.h"
#include "typesf2c.h"

#define MAXA 64
#define BADVAL 1999999999LL  /* a cell that is no image of a specification value */

typedef struct {
  int g;              /* GA handle */
  int ndim, type;     /* C_INT ... */
  int64_t dims[7], e[7], blk;   /* specification dims, expansion, elements per block */
  long long S, S2;    /* specification v is v*S (complex: v*S + i*v*S2) */
  long long D;        /* denominator of floating-point types: v is v*S/D */
  int cx;             /* complex: a specification cell is a pair (re, im), scaled by S */
  int cw;             /* numbers per element: 1, or 2 with cx */
  int pos;            /* within an expanded block the offset is added, so cells differ */
  size_t esz;
  int nb[7];          /* number of blocks, for irregular tiles */
  int64_t gw[7];      /* ghost widths (concrete elements) */
} arr_t;

extern arr_t A[MAXA];
extern int G[MAXA];    /* process groups */
extern int me, np;

size_t type_size(int t);
int type_of(const char *s);
void enc_scalar(arr_t *a, long long v, long long off, void *out);
void enc_v(arr_t *a, const long long *v, long long off, void *out);      /* v[0..cw-1] */
void dec_v(arr_t *a, const void *p, long long off, int pos, long long *v);
void enc_alpha(arr_t *a, const long long *v, void *p);   /* unscaled; v[0..cw-1] */
long long dec_scalar(arr_t *a, const void *p, long long off, int pos);
/* concrete buffer for a section of specification shape sh[] with pad[] elements added to each
 * leading dimension (row-major), guard elements around */
typedef struct {
  arr_t *a;
  int ndim;
  int64_t sh[7], e[7];     /* spec shape and expansion */
  int64_t csh[7], ld[7];   /* concrete shape; ld[0] unused, ld[i] allocated length of dim i */
  int64_t ncell, nspec;    /* cells of the box; cells of the specification */
  char *raw, *buf, *shadow;
  size_t bytes, goff;
} buf_t;
void buf_make(buf_t *b, arr_t *a, const int64_t *sh, const int64_t *e, const long long *pad);
void buf_fill(buf_t *b, const long long *v, int pos);
void buf_scribble(buf_t *b);
/* decodes the addressed part into v (nspec*cw values) and returns the number of guard/pad bytes changed */
long long buf_read(buf_t *b, long long *v, int pos);
long long buf_changed(buf_t *b);
void buf_free(buf_t *b);
int get_dims(vline_t *l, const char *k, int64_t *o);
int other_op(vline_t *l);   /* gaops.c */
int dist_op(vline_t *l);    /* gadist.c */
int life_op(vline_t *l);    /* galife.c */
int grp_op(vline_t *l);     /* gagrp.c */
int elem_op(vline_t *l);    /* gaelem.c */
int mat_op(vline_t *l);     /* gamat.c */
int ghost_op(vline_t *l);  /* gaghost.c */
int scan_op(vline_t *l);   /* gascan.c */
int prop_op(vline_t *l);   /* gaprop.c */
long long dec_real(double x, long long S, long long D);
int create_array(vline_t *l);
int cptr(long long *src, int n, int *dst);
#endif
