/* Common part of the drivers: script reading, trace writing, a shared clock, fake hosts. */
#ifndef VDRV_H
#define VDRV_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <unistd.h>
#include <mpi.h>

typedef struct {
  long id;          /* number of the script line */
  char *who, *op;
  int nk;
  char **key, **val;
} vline_t;

typedef struct { int n; vline_t *l; } vscript_t;

vscript_t *v_read_script(const char *path);
const char *v_str(vline_t *, const char *key, const char *dflt);
long long v_int(vline_t *, const char *key, long long dflt);
double v_dbl(vline_t *, const char *key, double dflt);
/* comma separated integers; returns how many (0 when absent) */
int v_list(vline_t *, const char *key, long long *out, int max);
long long *v_newlist(vline_t *, const char *key, int *n);
int v_mine(vline_t *, int rank);

/* trace: one JSON object per line in VERIF_OUT.<rank> */
void v_open_trace(int rank);
void v_rec(vline_t *l);                       /* starts a record {"id":..,"r":..} */
void v_put_int(const char *key, long long v);
void v_put_str(const char *key, const char *s);
void v_put_list(const char *key, const long long *v, int n);
void v_end(void);
void v_flush(void);

/* a counter shared by all processes of this run: v_tick() is atomic */
void v_clock_open(void);
long v_tick(void);
long v_now(void);
volatile long *v_shared(int i);               /* words shared by all processes */
void v_delay(long us);
extern int v_rank;
#endif
