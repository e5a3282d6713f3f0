/* Patches of arrays. */
#ifndef GAPAT_H
#define GAPAT_H
#include "gadrv.h"

typedef struct { arr_t *a; int n; int il[7], ih[7]; int64_t l64[7], h64[7]; Integer fl[7], fh[7]; } pat_t;
int patch(vline_t *l, const char *k, pat_t *p);
#define IP(p) (p).a->g, (p).il, (p).ih
#define LP(p) (p).a->g, (p).l64, (p).h64
#define FP(p, G_) &G_, (p).fl, (p).fh

#endif
