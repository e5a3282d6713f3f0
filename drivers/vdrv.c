#include "vdrv.h"
#include <fcntl.h>
#include <sys/mman.h>
#include <time.h>

int v_rank = -1;
static FILE *out;

vscript_t *v_read_script(const char *path)
{
  FILE *f = fopen(path, "r");
  size_t cap = 0;
  char *buf = NULL;
  vscript_t *s = calloc(1, sizeof *s);
  int max = 0;
  if (!f) { perror(path); exit(3); }
  while (getline(&buf, &cap, f) > 0) {
    char *p = strdup(buf), *tok, *save;
    vline_t l;
    memset(&l, 0, sizeof l);
    tok = strtok_r(p, " \t\n", &save);
    if (!tok || tok[0] == '#') { free(p); continue; }
    l.id = atol(tok);
    l.who = strtok_r(NULL, " \t\n", &save);
    l.op = strtok_r(NULL, " \t\n", &save);
    if (!l.op) { fprintf(stderr, "bad script line: %s", buf); exit(3); }
    while ((tok = strtok_r(NULL, " \t\n", &save))) {
      char *eq = strchr(tok, '=');
      if (!eq) { fprintf(stderr, "bad script token: %s\n", tok); exit(3); }
      *eq = 0;
      l.key = realloc(l.key, (l.nk + 1) * sizeof(char *));
      l.val = realloc(l.val, (l.nk + 1) * sizeof(char *));
      l.key[l.nk] = tok;
      l.val[l.nk++] = eq + 1;
    }
    if (s->n == max) { max = max ? 2 * max : 256; s->l = realloc(s->l, max * sizeof(vline_t)); }
    s->l[s->n++] = l;
  }
  free(buf);
  fclose(f);
  return s;
}

const char *v_str(vline_t *l, const char *key, const char *dflt)
{
  int i;
  for (i = 0; i < l->nk; i++) if (!strcmp(l->key[i], key)) return l->val[i];
  return dflt;
}
long long v_int(vline_t *l, const char *key, long long dflt)
{
  const char *s = v_str(l, key, NULL);
  return s ? atoll(s) : dflt;
}
double v_dbl(vline_t *l, const char *key, double dflt)
{
  const char *s = v_str(l, key, NULL);
  return s ? atof(s) : dflt;
}
int v_list(vline_t *l, const char *key, long long *o, int max)
{
  const char *s = v_str(l, key, NULL);
  int n = 0;
  if (!s) return 0;
  while (*s) {
    char *e;
    if (n == max) { fprintf(stderr, "list too long: %s\n", key); exit(3); }
    o[n++] = strtoll(s, &e, 10);
    s = (*e == ',') ? e + 1 : e;
    if (*e && *e != ',') { fprintf(stderr, "bad list %s\n", key); exit(3); }
  }
  return n;
}
long long *v_newlist(vline_t *l, const char *key, int *n)
{
  const char *s = v_str(l, key, NULL), *p;
  int m = 1;
  long long *o;
  if (s) for (p = s; *p; p++) if (*p == ',') m++;
  o = malloc((m + 1) * sizeof *o);
  *n = s ? v_list(l, key, o, m) : 0;
  return o;
}
int v_mine(vline_t *l, int rank)
{
  const char *s = l->who;
  if (*s == '*') return 1;
  while (*s) {
    char *e;
    if (strtol(s, &e, 10) == rank) return 1;
    s = *e ? e + 1 : e;
  }
  return 0;
}

void v_open_trace(int rank)
{
  char path[4096];
  const char *base = getenv("VERIF_OUT");
  v_rank = rank;
  if (!base) base = "trace";
  snprintf(path, sizeof path, "%s.%d", base, rank);
  out = fopen(path, "w");
  if (!out) { perror(path); exit(3); }
  setvbuf(out, NULL, _IOFBF, 1 << 16);
}
static vline_t *cur;
void v_rec(vline_t *l)
{
  cur = l;
  fprintf(out, "{\"id\":%ld,\"r\":%d", l->id, v_rank);
}
void v_put_int(const char *key, long long v) { fprintf(out, ",\"%s\":%lld", key, v); }
void v_put_str(const char *key, const char *s) { fprintf(out, ",\"%s\":\"%s\"", key, s); }
void v_put_list(const char *key, const long long *v, int n)
{
  int i;
  fprintf(out, ",\"%s\":[", key);
  for (i = 0; i < n; i++) fprintf(out, i ? ",%lld" : "%lld", v[i]);
  fprintf(out, "]");
}
void v_end(void)
{
  fprintf(out, "}\n");
  fflush(out); /* a run that is aborted keeps what it wrote */
}
void v_flush(void) { if (out) { fflush(out); fclose(out); out = NULL; } }

static volatile long *shm;
void v_clock_open(void)
{
  const char *p = getenv("VERIF_CLOCK");
  int fd;
  if (!p) { fprintf(stderr, "VERIF_CLOCK is not set\n"); exit(3); }
  fd = open(p, O_RDWR);
  if (fd < 0) { perror(p); exit(3); }
  shm = mmap(NULL, 65536, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (shm == MAP_FAILED) { perror("mmap"); exit(3); }
  close(fd);
}
long v_tick(void) { return __sync_add_and_fetch(&shm[0], 1); }
long v_now(void) { __sync_synchronize(); return shm[0]; }
volatile long *v_shared(int i) { return &shm[8 + i]; }
void v_delay(long us)
{
  struct timespec t;
  t.tv_sec = us / 1000000;
  t.tv_nsec = (us % 1000000) * 1000;
  nanosleep(&t, NULL);
}

/* ---- several nodes on one machine: VERIF_NODES=k gives rank r the host r*k/n (or r%k with
 * VERIF_NODES_CYCLIC) ---- */
int __real_gethostname(char *, size_t);
long __real_gethostid(void);
static int fake_node(void)
{
  const char *s = getenv("VERIF_NODES"), *r = getenv("OMPI_COMM_WORLD_RANK"),
             *z = getenv("OMPI_COMM_WORLD_SIZE");
  int k, rank, n;
  if (!s || !r || !z) return -1;
  k = atoi(s); rank = atoi(r); n = atoi(z);
  if (k <= 0) return -1;
  if (getenv("VERIF_NODES_CYCLIC")) return rank % k;
  return (int)((long)rank * k / n);
}
int __wrap_gethostname(char *name, size_t len)
{
  int f = fake_node();
  if (f < 0) return __real_gethostname(name, len);
  snprintf(name, len, "node%03d", f);
  return 0;
}
int __wrap___gethostname_chk(char *name, size_t len, size_t size)
{
  return __wrap_gethostname(name, len < size ? len : size);
}
long __wrap_gethostid(void)
{
  int f = fake_node();
  return f < 0 ? __real_gethostid() : 1000 + f;
}

/* with VERIF_DOMAINS the nodes GA itself sees are those too */
int MPI_Get_processor_name(char *name, int *len)
{
  int f = fake_node();
  if (f < 0 || !getenv("VERIF_DOMAINS")) return PMPI_Get_processor_name(name, len);
  *len = sprintf(name, "node%03d", f);
  return 0;
}

/* ---- schedule perturbation: VERIF_JITTER=<permille>,<max us>,<seed> delays some MPI calls ---- */
static int j_init, j_pm, j_us;
static unsigned long long j_s;
static void jitter(void)
{
  if (!j_init) {
    const char *s = getenv("VERIF_JITTER"), *r = getenv("OMPI_COMM_WORLD_RANK");
    long seed = 1;
    j_init = 1;
    if (s) sscanf(s, "%d,%d,%ld", &j_pm, &j_us, &seed);
    j_s = (seed * 2654435761ULL + (r ? atoi(r) : 0) + 1) * 6364136223846793005ULL + 1442695040888963407ULL;
  }
  if (!j_pm) return;
  j_s = j_s * 6364136223846793005ULL + 1442695040888963407ULL;
  if ((int)((j_s >> 33) % 1000) < j_pm) {
    j_s = j_s * 6364136223846793005ULL + 1442695040888963407ULL;
    v_delay(1 + (long)((j_s >> 33) % (j_us > 0 ? j_us : 1)));
  }
}
int MPI_Isend(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c, MPI_Request *r)
{ jitter(); return PMPI_Isend(b, n, t, d, tag, c, r); }
int MPI_Send(const void *b, int n, MPI_Datatype t, int d, int tag, MPI_Comm c)
{ jitter(); return PMPI_Send(b, n, t, d, tag, c); }
int MPI_Recv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Status *st)
{ int rc = PMPI_Recv(b, n, t, s, tag, c, st); jitter(); return rc; }
int MPI_Irecv(void *b, int n, MPI_Datatype t, int s, int tag, MPI_Comm c, MPI_Request *r)
{ jitter(); return PMPI_Irecv(b, n, t, s, tag, c, r); }
int MPI_Barrier(MPI_Comm c)
{ int rc; jitter(); rc = PMPI_Barrier(c); jitter(); return rc; }
int MPI_Put(const void *o, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w)
{ jitter(); return PMPI_Put(o, on, ot, t, d, tn, tt, w); }
int MPI_Get(void *o, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Win w)
{ jitter(); return PMPI_Get(o, on, ot, t, d, tn, tt, w); }
int MPI_Accumulate(const void *o, int on, MPI_Datatype ot, int t, MPI_Aint d, int tn, MPI_Datatype tt, MPI_Op op, MPI_Win w)
{ jitter(); return PMPI_Accumulate(o, on, ot, t, d, tn, tt, op, w); }
