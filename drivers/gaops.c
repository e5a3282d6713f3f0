#include "gadrv.h"
#include <mpi.h>
#include "armci.h"
#include "message.h"

static unsigned long long rs;
static unsigned rnd(unsigned n) { rs = rs * 6364136223846793005ULL + 1442695040888963407ULL; return (unsigned)(rs >> 33) % n; }

/* ---- words for the runtime's own read-modify-write ---- */
#define MAXSEG 4
static void **seg[MAXSEG];
static int segn[MAXSEG], seglong[MAXSEG];
static long long segB[MAXSEG];
static long long arrB[MAXA];       /* contents of a word: this much more than the specification's */

static void cell_coord(arr_t *a, long long c, int64_t *lo)
{
  int i;
  for (i = a->ndim - 1; i >= 0; i--) { lo[i] = c % a->dims[i]; c /= a->dims[i]; }
}

static long long small(long long x) { return x > 1500000000LL || x < -1500000000LL ? BADVAL : x; }

/* n calls of read-modify-write on the listed cells, with times before and after each
 * a=array: NGA_Read_inc; seg=segment: ARMCI_Rmw */
static void do_rmw(vline_t *l)
{
  int n = (int)v_int(l, "n", 1), nc, ni, j, k, i, api = (int)v_int(l, "api", 0), sg = (int)v_int(l, "seg", -1);
  long long *cells = v_newlist(l, "cells", &nc), *incs = v_newlist(l, "incs", &ni);
  long long *c = malloc(n * sizeof *c), *kk = malloc(n * sizeof *c), *ii = malloc(n * sizeof *c), *v = malloc(n * sizeof *c),
            *s = malloc(n * sizeof *c), *e = malloc(n * sizeof *c);
  int swaps = (int)v_int(l, "swaps", 0), dly = (int)v_int(l, "delay", 0);
  rs = v_int(l, "seed", 1) * 1000003ULL + me;
  for (j = 0; j < n; j++) {
    c[j] = cells[rnd(nc)];
    ii[j] = incs[rnd(ni)];
    kk[j] = 0;
    if (dly && rnd(4) == 0) v_delay(1 + rnd(dly));
    if (sg >= 0) {
      int p = (int)(c[j] / segn[sg]), w = (int)(c[j] % segn[sg]);
      if (swaps && rnd(3) == 0) { kk[j] = 1; ii[j] = 1 + me + 16 * j; }
      if (seglong[sg]) {
        long r = 0, x = ii[j];
        if (kk[j]) r = x + segB[sg];
        s[j] = v_tick();
        ARMCI_Rmw(kk[j] ? ARMCI_SWAP_LONG : ARMCI_FETCH_AND_ADD_LONG, &r, (long *)seg[sg][p] + w, (int)x, p);
        e[j] = v_tick();
        v[j] = small((long)r - segB[sg]);
      } else {
        int r = 0, x = (int)ii[j];
        if (kk[j]) r = x + (int)segB[sg];
        s[j] = v_tick();
        ARMCI_Rmw(kk[j] ? ARMCI_SWAP : ARMCI_FETCH_AND_ADD, &r, (int *)seg[sg][p] + w, x, p);
        e[j] = v_tick();
        v[j] = small((long)r - segB[sg]);
      }
    } else {
      arr_t *a = &A[v_int(l, "a", 0)];
      int64_t lo[7];
      int il[7];
      long r, x = ii[j], mul = (long)v_int(l, "mul", 1);
      cell_coord(a, c[j], lo);
      for (i = 0; i < a->ndim; i++) il[i] = (int)lo[i];
      x *= mul;
      k = api == 9 ? (int)rnd(3) : api;
      s[j] = v_tick();
      if (k == 2) {
        extern Integer nga_read_inc_(Integer *, Integer *, Integer *);
        Integer f[7], g = a->g, inc = x;
        for (i = 0; i < a->ndim; i++) f[i] = lo[a->ndim - 1 - i] + 1;
        r = nga_read_inc_(&g, f, &inc);
      } else r = k ? NGA_Read_inc64(a->g, lo, x) : NGA_Read_inc(a->g, il, x);
      e[j] = v_tick();
      r -= arrB[v_int(l, "a", 0)];
      v[j] = r % mul ? BADVAL : small(r / mul);
    }
  }
  v_rec(l);
  v_put_list("c", c, n); v_put_list("k", kk, n); v_put_list("i", ii, n);
  v_put_list("v", v, n); v_put_list("s", s, n); v_put_list("e", e, n);
  v_end();
  free(c); free(kk); free(ii); free(v); free(s); free(e); free(cells); free(incs);
}
static void do_segalloc(vline_t *l)
{
  int k = (int)v_int(l, "seg", 0), n = (int)v_int(l, "n", 1), i;
  seglong[k] = (int)v_int(l, "long", 0);
  segB[k] = v_int(l, "base", 0);
  segn[k] = n;
  seg[k] = malloc(np * sizeof(void *));
  ARMCI_Malloc(seg[k], n * (seglong[k] ? sizeof(long) : sizeof(int)));
  for (i = 0; i < n; i++) if (seglong[k]) ((long *)seg[k][me])[i] = segB[k]; else ((int *)seg[k][me])[i] = (int)segB[k];
  ARMCI_Barrier();
}
static void do_segread(vline_t *l)
{
  int k = (int)v_int(l, "seg", 0), n = segn[k], i, p;
  size_t sz = seglong[k] ? sizeof(long) : sizeof(int);
  long long *v = malloc(n * np * sizeof *v);
  char *b = malloc(n * sz);
  for (p = 0; p < np; p++) {
    ARMCI_Get(seg[k][p], b, (int)(n * sz), p);
    for (i = 0; i < n; i++) {
      long long x = seglong[k] ? ((long *)b)[i] : ((int *)b)[i];
      v[p * n + i] = small(x - segB[k]);
    }
  }
  v_rec(l); v_put_list("v", v, n * np); v_end();
  free(v); free(b);
}

/* ---- mutexes ---- */
static int amutex;                    /* the runtime's own mutexes instead of GA's */
static int mowner[256], mnum[256];
static void lock_m(int m) { if (amutex) ARMCI_Lock(mnum[m], mowner[m]); else GA_Lock(m); }
static void unlock_m(int m) { if (amutex) ARMCI_Unlock(mnum[m], mowner[m]); else GA_Unlock(m); }

/* n critical sections; each takes one or two mutexes of the list and increases the cell (or cells) of array a
 * with the mutex's number */
static void do_crit(vline_t *l)
{
  int n = (int)v_int(l, "n", 1), nm, j, t, cnt = 0, dly = (int)v_int(l, "delay", 0), two = (int)v_int(l, "two", 0);
  long long *mx = v_newlist(l, "m", &nm);
  long long *m = malloc(2 * n * sizeof *m), *s = malloc(2 * n * sizeof *m), *e = malloc(2 * n * sizeof *m), *v = malloc(2 * n * sizeof *m);
  arr_t *a = &A[v_int(l, "a", 0)];
  rs = v_int(l, "seed", 1) * 1000003ULL + me;
  for (j = 0; j < n; j++) {
    int k = 1, q[2], one = 1, first = cnt;
    int64_t lo[7];
    int il[7], ld[7];
    q[0] = (int)rnd(nm);
    if (two && nm > 1 && rnd(2)) { do q[1] = (int)rnd(nm); while (q[1] == q[0]); k = 2; }
    if (k == 2 && q[0] > q[1]) { t = q[0]; q[0] = q[1]; q[1] = t; }
    for (t = 0; t < k; t++) {
      lock_m((int)mx[q[t]]);
      s[cnt] = v_tick();
      m[cnt++] = mx[q[t]];
    }
    for (t = 0; t < k; t++) {
      int x, y, i, how = (int)rnd(3);
      if (getenv("VERIF_HOW")) how = atoi(getenv("VERIF_HOW"));
      long z[1];
      cell_coord(a, m[first + t], lo);
      for (i = 0; i < a->ndim; i++) { il[i] = (int)lo[i]; ld[i] = 1; }
      z[0] = 0;
      NGA_Get(a->g, il, il, z, ld);
      x = a->type == C_LONG ? (int)z[0] : *(int *)z;
      v[first + t] = x;
      if (dly && rnd(3) == 0) v_delay(1 + rnd(dly));
      y = x + 1;
      GA_Init_fence();
      if (how == 0) { long w = y; int w4 = y; NGA_Put(a->g, il, il, a->type == C_LONG ? (void *)&w : (void *)&w4, ld); }
      else if (how == 1) { long w = 1, al = 1; int w4 = 1; NGA_Acc(a->g, il, il, a->type == C_LONG ? (void *)&w : (void *)&w4, ld, a->type == C_LONG ? (void *)&al : (void *)&one); }
      else { long w = y; int w4 = y, *sub[1]; sub[0] = il; NGA_Scatter(a->g, a->type == C_LONG ? (void *)&w : (void *)&w4, sub, 1); }
      GA_Fence();
    }
    for (t = 0; t < k; t++) {
      int z = k == 2 && (j & 1) ? k - 1 - t : t;
      e[first + z] = v_tick();
      unlock_m((int)m[first + z]);
    }
    if (dly && rnd(3) == 0) v_delay(1 + rnd(dly));
  }
  v_rec(l);
  v_put_list("m", m, cnt); v_put_list("s", s, cnt); v_put_list("e", e, cnt); v_put_list("v", v, cnt);
  v_end();
  free(m); free(s); free(e); free(v); free(mx);
}

static void **prog;
/* waits for a flag another process sets, serving the communication of the others meanwhile */
static void flagwait(int i, long val)
{
  long k = 0;
  while (*v_shared(i) < val) {
    /* mutexes of port mpi3 are passive windows, which the MPI library serves within its own calls */
    if (getenv("VERIF_THREADS")) { int fl; MPI_Iprobe(MPI_ANY_SOURCE, 32000, MPI_COMM_WORLD, &fl, MPI_STATUS_IGNORE); }
    if (prog && (k++ & 1) == 0) { long x = 0; ARMCI_Rmw(ARMCI_FETCH_AND_ADD_LONG, &x, prog[me], 0, me); }
    usleep(20);
  }
  __sync_synchronize();
}

int other_op(vline_t *l)
{
  const char *op = l->op;
  if (!strcmp(op, "rmw")) { do_rmw(l); return 1; }
  if (!strcmp(op, "wbase")) {   /* all words of the array get the contents x */
    arr_t *a = &A[v_int(l, "a", 0)];
    long long x = arrB[v_int(l, "a", 0)] = v_int(l, "x", 0);
    int xi = (int)x;
    long xl = (long)x;
    GA_Fill(a->g, a->type == C_INT ? (void *)&xi : (void *)&xl);
    return 1;
  }
  if (!strcmp(op, "wread")) {   /* all words */
    arr_t *a = &A[v_int(l, "a", 0)];
    long long n = 1, *v, b = arrB[v_int(l, "a", 0)];
    int lo[7], hi[7], ld[7], i;
    char *buf;
    for (i = 0; i < a->ndim; i++) { n *= a->dims[i]; lo[i] = 0; hi[i] = (int)a->dims[i] - 1; if (i) ld[i - 1] = (int)a->dims[i]; }
    if (a->ndim == 1) ld[0] = hi[0] + 1;
    v = malloc(n * sizeof *v);
    buf = malloc(n * 8);
    NGA_Get(a->g, lo, hi, buf, ld);
    for (i = 0; i < n; i++) v[i] = small((a->type == C_INT ? ((int *)buf)[i] : ((long *)buf)[i]) - b);
    v_rec(l); v_put_list("v", v, (int)n); v_end();
    free(v); free(buf);
    return 1;
  }
  if (!strcmp(op, "segalloc")) { do_segalloc(l); return 1; }
  if (!strcmp(op, "segread")) { do_segread(l); return 1; }
  if (!strcmp(op, "segfree")) { int k = (int)v_int(l, "seg", 0); ARMCI_Free(seg[k][me]); free(seg[k]); return 1; }
  if (!strcmp(op, "mutexes")) { amutex = 0; if (!GA_Create_mutexes((int)v_int(l, "n", 1))) GA_Error("mutexes", 0); return 1; }
  if (!strcmp(op, "mutfree")) { if (amutex) ARMCI_Destroy_mutexes(); else GA_Destroy_mutexes(); return 1; }
  if (!strcmp(op, "amutexes")) {   /* n=number on each process */
    long long k[64];
    int n = v_list(l, "n", k, 64), i, j, c = 0;
    for (i = 0; i < n; i++) for (j = 0; j < k[i]; j++) { mowner[c] = i; mnum[c++] = j; }
    amutex = 1;
    ARMCI_Create_mutexes((int)k[me]);
    return 1;
  }
  if (!strcmp(op, "crit")) { do_crit(l); return 1; }
  if (!strcmp(op, "lock")) { lock_m((int)v_int(l, "m", 0)); return 1; }
  if (!strcmp(op, "unlock")) { unlock_m((int)v_int(l, "m", 0)); return 1; }
  if (!strcmp(op, "flaginit")) {
    prog = malloc(np * sizeof(void *));
    ARMCI_Malloc(prog, sizeof(long));
    *(long *)prog[me] = 0;
    ARMCI_Barrier();
    return 1;
  }
  if (!strcmp(op, "flagset")) { __sync_synchronize(); *v_shared((int)v_int(l, "f", 0)) = v_int(l, "x", 1); return 1; }
  if (!strcmp(op, "flagwait")) { flagwait((int)v_int(l, "f", 0), v_int(l, "x", 1)); return 1; }
  /* the processes of the line meet, serving communication meanwhile */
  if (!strcmp(op, "meet")) { __sync_fetch_and_add(v_shared((int)v_int(l, "f", 0)), 1); flagwait((int)v_int(l, "f", 0), v_int(l, "x", 1)); return 1; }
  if (!strcmp(op, "bsync")) {   /* a synchronization with the times of entering and leaving */
    long s, e;
    int g = (int)v_int(l, "grp", -1), how = (int)v_int(l, "how", 0);
    if (v_int(l, "us", 0)) v_delay(v_int(l, "us", 0));
    s = v_tick();
    if (g >= 0) GA_Pgroup_sync(G[g]);
    else if (how == 1) GA_Pgroup_sync(GA_Pgroup_get_world());
    else if (how == 2) ARMCI_Barrier();
    else GA_Sync();
    e = v_tick();
    v_rec(l); v_put_int("s", s); v_put_int("e", e); v_end();
    return 1;
  }
  return dist_op(l) || life_op(l) || grp_op(l) || elem_op(l) || mat_op(l) || ghost_op(l) || scan_op(l) || prop_op(l);
}
