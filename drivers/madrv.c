/* The memory allocator under test, one arena per case (a child process each).
 * The arena is caught from malloc during MA_init and surrounded by bytes that must not change. */
#include "vdrv.h"
#include <sys/wait.h>
#include "macdecls.h"

#define ZONE 8192
#define SLOTS 256
static char *arena, *zone;
static size_t asize;
static int grab, shift;
void *__real_malloc(size_t);
void *__wrap_malloc(size_t n)
{
  char *p;
  if (!grab || n < 256) return __real_malloc(n);
  grab = 0;
  p = aligned_alloc(4096, ((n + shift + 2 * ZONE) / 4096 + 1) * 4096);
  zone = p;
  memset(p, 0x5a, n + shift + 2 * ZONE);
  arena = p + ZONE + shift;
  asize = n;
  return arena;
}

typedef struct { int live, kind; Integer h; char *p; long n, size; unsigned seed; } blk;
static blk B[4096];
static int nb;
static Integer slot[SLOTS];
static int numbers[1 << 16];

static unsigned char pat(unsigned s, long i) { return (unsigned char)(s * 131 + i * 7 + (i >> 8) * 13 + 1); }
static void fill(blk *b) { long i; for (i = 0; i < b->n * b->size; i++) b->p[i] = pat(b->seed, i); }
/* handles whose contents changed; -1: bytes outside the arena */
static void damage(void)
{
  long long d[64];
  int n = 0, k;
  long i;
  for (i = 0; i < ZONE + shift; i++) if (zone[i] != 0x5a) { d[n++] = -1; break; }
  for (i = 0; i < ZONE; i++) if (arena[asize + i] != 0x5a) { d[n++] = -2; break; }
  for (k = 0; k < nb && n < 60; k++)
    if (B[k].live)
      for (i = 0; i < B[k].n * B[k].size; i++)
        if ((unsigned char)B[k].p[i] != pat(B[k].seed, i)) { d[n++] = B[k].h; fill(&B[k]); break; }
  v_put_list("dam", d, n);
}
static blk *find(Integer h) { int k; for (k = 0; k < nb; k++) if (B[k].live && B[k].h == h) return &B[k]; return NULL; }
static int tsize(int t) { return (int)MA_sizeof(MT_BASE + t, 1, MT_CHAR); }
static Integer inquire(int q, int t)
{
  Integer d = MT_BASE + t;
  switch (q) {
  case 0: return MA_inquire_avail(d);
  case 1: return MA_inquire_heap(d);
  case 2: return MA_inquire_heap_check_stack(d);
  case 3: return MA_inquire_heap_no_partition(d);
  case 4: return MA_inquire_stack(d);
  case 5: return MA_inquire_stack_check_heap(d);
  default: return MA_inquire_stack_no_partition(d);
  }
}
/* numbers too large for the specification are cut */
static long long cut(long long v) { return v > 1000000000 ? 1000000000 : v < -1000000000 ? -1000000000 : v; }

static void do_line(vline_t *l)
{
  const char *op = l->op;
  int t = (int)v_int(l, "t", 0), s = (int)v_int(l, "s", 0);
  if (!strcmp(op, "minit")) {
    long long v[17];
    int k;
    Boolean ok;
    shift = (int)v_int(l, "shift", 0);
    MA_set_error_print(0);
    MA_set_hard_fail(0);
    for (k = 0; k < SLOTS; k++) slot[k] = -1;
    MA_sizeof(MT_CHAR, 1, MT_CHAR);
    grab = 1;
    ok = MA_init(MT_BASE + t, v_int(l, "st", 0), v_int(l, "hp", 0));
    grab = 0;
    MA_set_auto_verify(v_int(l, "auto", 0));
    v_rec(l);
    v_put_int("res", ok && MA_initialized() && arena);
    v_put_int("size", asize);
    for (k = 0; k < 17; k++) v[k] = tsize(k);
    v_put_list("sz", v, 17);
    for (k = 0; k < 17; k++) v[k] = MA_sizeof_overhead(MT_BASE + k) * tsize(k);
    v_put_list("ov", v, 17);
    for (k = 0; k < 17; k++) v[k] = (long)MA_get_mbase(MT_BASE + k) % (1 << 20);
    v_put_list("base", v, 17);
    v_end();
  } else if (!strcmp(op, "malloc")) {
    int q = (int)v_int(l, "q", -1), stack = !strcmp(v_str(l, "kind", "heap"), "stack"), get = (int)v_int(l, "get", 0);
    const char *hs = v_str(l, "hn", NULL);
    Integer n = v_int(l, "n", 0), d = MT_BASE + t, h = -1;
    MA_AccessIndex ix = -1;
    Boolean ok;
    char *p = NULL;
    if (hs) n = strtoll(hs, NULL, 10);
    if (q >= 0) n = inquire(q, t);
    if (get) ok = stack ? MA_push_get(d, n, "block", &h, &ix) : MA_alloc_get(d, n, "block", &h, &ix);
    else ok = stack ? MA_push_stack(d, n, "block", &h) : MA_allocate_heap(d, n, "block", &h);
    v_rec(l);
    v_put_int("res", ok ? 1 : 0);
    v_put_int("n", cut(n));
    if (ok) {
      Integer na = 0;
      long long bytes = n * tsize(t);
      int good = MA_get_pointer(h, &p);
      if (!get) good = good && MA_get_index(h, &ix);
      MA_get_numalign(&na);
      v_put_int("h", h);
      v_put_int("off", cut(p - arena));
      v_put_int("diff", good ? cut((MA_get_mbase(d) + ix * tsize(t)) - p) : 1);
      v_put_int("tmod", (p - MA_get_mbase(d)) % tsize(t));
      v_put_int("amod", (long)p % (1L << na));
      slot[s] = h;
      if (nb == 4096) { fprintf(stderr, "too many blocks\n"); exit(3); }
      if (p >= arena && bytes >= 0 && p + bytes <= arena + asize) {
        blk *b = &B[nb];
        damage();
        nb++;
        b->live = 1; b->kind = stack; b->h = h; b->p = p; b->n = n; b->size = tsize(t); b->seed = (unsigned)(l->id * 37 + 11);
        fill(b);
      } else damage();
    } else damage();
    v_end();
  } else if (!strcmp(op, "mfree") || !strcmp(op, "mpop") || !strcmp(op, "mchop") || !strcmp(op, "mpiece")) {
    Integer h = v_str(l, "raw", NULL) ? v_int(l, "raw", 0) : slot[s], n = v_int(l, "n", 0);
    blk *b = find(h);
    Boolean ok;
    int k;
    if (op[1] == 'f') ok = MA_free_heap(h);
    else if (op[1] == 'c') ok = MA_chop_stack(h);
    else if (!strcmp(op, "mpop")) ok = MA_pop_stack(h);
    else ok = MA_free_heap_piece(h, n);
    if (ok && b) {
      if (op[1] == 'c') {
        int from = (int)(b - B);
        for (k = from; k < nb; k++) if (B[k].kind == 1) B[k].live = 0;
      } else if (!strcmp(op, "mpiece") && n < b->n) b->n -= n > 0 ? n : 0;
      else b->live = 0;
    }
    v_rec(l);
    v_put_int("res", ok ? 1 : 0);
    v_put_int("h", h);
    damage();
    v_end();
  } else if (!strcmp(op, "mget")) {
    Integer h = slot[s];
    char *p = NULL;
    MA_AccessIndex ix = 0;
    long long o[4];
    blk *b = find(h);
    o[0] = MA_get_pointer(h, &p) ? 1 : 0;
    o[1] = MA_get_index(h, &ix) ? 1 : 0;
    o[2] = o[0] ? cut(p - arena) : 0;
    o[3] = o[1] && b ? cut((MA_get_mbase(v_int(l, "t", 0) + MT_BASE) + ix * tsize(t)) - p) : 0;
    v_rec(l);
    v_put_int("h", h);
    v_put_list("o", o, 4);
    damage();
    v_end();
  } else if (!strcmp(op, "mverify")) {
    long long o[1];
    o[0] = MA_verify_allocator_stuff() ? 1 : 0;
    v_rec(l);
    v_put_list("o", o, 1);
    damage();
    v_end();
  } else if (!strcmp(op, "msmash")) {
    Integer h = slot[s];
    blk *b = find(h);
    long long o[4] = {0, 0, 0, 0};
    if (b) {
      char *c = v_int(l, "side", 0) ? b->p + b->n * b->size + v_int(l, "d", 0) : b->p - 1 - v_int(l, "d", 0), old = *c, *p;
      MA_set_auto_verify(0);
      o[0] = MA_verify_allocator_stuff() ? 1 : 0;
      *c ^= (char)v_int(l, "x", 1);
      o[1] = MA_verify_allocator_stuff() ? 1 : 0;
      o[2] = MA_get_pointer(h, &p) ? 1 : 0;
      *c = old;
      o[3] = MA_verify_allocator_stuff() ? 1 : 0;
    }
    v_rec(l);
    v_put_int("h", h);
    v_put_list("o", o, 4);
    damage();
    v_end();
  } else if (!strcmp(op, "malign")) {
    long long o[2];
    Integer v = -1;
    o[0] = MA_set_numalign(v_int(l, "n", 0)) ? 1 : 0;
    MA_get_numalign(&v);
    o[1] = v;
    v_rec(l);
    v_put_list("o", o, 2);
    v_end();
  } else if (!strcmp(op, "minq")) {
    long long o[7];
    int k;
    for (k = 0; k < 7; k++) o[k] = cut(inquire(k, t));
    v_rec(l);
    v_put_list("o", o, 7);
    damage();
    v_end();
  } else if (!strcmp(op, "msizeof")) {
    long long o[1];
    o[0] = MA_sizeof(MT_BASE + t, v_int(l, "n", 0), MT_BASE + v_int(l, "u", 0));
    v_rec(l);
    v_put_list("o", o, 1);
    v_end();
  } else { fprintf(stderr, "unknown operation %s\n", op); exit(3); }
}

int main(int argc, char **argv)
{
  vscript_t *s = v_read_script(argv[1]);
  int k, j, st;
  v_open_trace(0);
  freopen("/dev/null", "w", stdout);
  for (k = 0; k < s->n; k = j) {
    for (j = k + 1; j < s->n && strcmp(s->l[j].op, "minit"); j++) ;
    st = fork();
    if (st == 0) {
      int i;
      for (i = k; i < j; i++) do_line(&s->l[i]);
      v_flush();
      _exit(0);
    }
    if (st < 0 || waitpid(st, &st, 0) < 0 || st) { fprintf(stderr, "case at line %ld ended with status %d\n", s->l[k].id, st);
      if (WIFEXITED(st) && WEXITSTATUS(st) == 3) return 3; v_flush(); return 1; }
  }
  { vline_t e; memset(&e, 0, sizeof e); e.id = 1000000000; v_rec(&e); v_end(); }
  v_flush();
  return 0;
}
