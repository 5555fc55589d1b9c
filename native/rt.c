// Script interpreter over the native runtime library. Runs a script of runtime calls on
// several threads and logs every call's result; the log is checked offline. In guard mode
// every allocation of the runtime sits against an inaccessible page and is never reused,
// and standard-stream system calls follow a fault plan given by the script.
#define _GNU_SOURCE
#include <errno.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>

void __tribute_init(void);
void __asan_init(void);
int32_t __tribute_next_tag(void);
uint8_t *__tribute_alloc(uint64_t);
void __tribute_dealloc(uint8_t *, uint64_t);
void *__tribute_evidence_empty(void);
void *__tribute_evidence_extend(const void *, int32_t, int32_t, const uint8_t *, const uint8_t *);
int32_t __tribute_evidence_lookup(const void *, int32_t);
const uint8_t *__tribute_evidence_lookup_tr(const void *, int32_t);
const uint8_t *__tribute_evidence_lookup_handler(const void *, int32_t);
struct bytes { const uint8_t *ptr; uint64_t len; };
struct line { uint32_t tag; int32_t code; struct bytes *bytes, *message; };
void __tribute_print_int(int32_t);
void __tribute_print_nat(uint32_t);
void __tribute_print_float(double);
void __tribute_print_bytes(const uint8_t *, uint64_t);
void __tribute_print_newline(void);
void __tribute_bytes_print(const struct bytes *);
void __tribute_io_write(const struct bytes *, uint32_t);
struct line *__tribute_io_read_line(void);
void __tribute_io_read_line_result_dealloc(struct line *);
uint32_t __tribute_bytes_len(const struct bytes *);
uint32_t __tribute_bytes_get_or_panic(const struct bytes *, uint32_t);
uint32_t __tribute_bytes_range_equal(const struct bytes *, uint32_t, const struct bytes *, uint32_t, uint32_t);
struct bytes *__tribute_bytes_concat(const struct bytes *, const struct bytes *);
struct bytes *__tribute_bytes_slice_or_panic(const struct bytes *, uint32_t, uint32_t);

extern ssize_t __real_write(int, const void *, size_t);
extern ssize_t __real_read(int, void *, size_t);
extern int __real_posix_memalign(void **, size_t, size_t);
extern void __real_free(void *);

#define MAXT 17
#define SLOTS 8192
struct thr { int id; char **ops; int n, cap; char *log; size_t len, lcap; };
static struct thr thr[MAXT + 1];
static void *slot[SLOTS];
static uint64_t ssize[SLOTS];
static int log_fd, guard;
static __thread struct thr *me;
static uint64_t seq;

// the log of a thread is buffered; single-threaded parts flush after every line so that an
// abort leaves the exact position
static int direct = 1;
static void flush_log(struct thr *t) {
  size_t o = 0;
  while (o < t->len) { ssize_t k = __real_write(log_fd, t->log + o, t->len - o); if (k <= 0) break; o += k; }
  t->len = 0;
}
static void logf_(const char *f, ...) {
  char b[256];
  va_list ap;
  va_start(ap, f);
  int n = vsnprintf(b, sizeof b, f, ap);
  va_end(ap);
  struct thr *t = me;
  if (t->len + n > t->lcap) { t->lcap = t->lcap ? t->lcap * 2 + n : 65536; t->log = realloc(t->log, t->lcap); }
  memcpy(t->log + t->len, b, n);
  t->len += n;
}
static void loghex(const uint8_t *p, uint64_t n) {
  static const char d[] = "0123456789abcdef";
  char b[256];
  uint64_t i = 0;
  if (!n) { logf_("."); return; }
  while (i < n) {
    int k = 0;
    for (; i < n && k < 200; i++) { b[k++] = d[p[i] >> 4]; b[k++] = d[p[i] & 15]; }
    b[k] = 0;
    logf_("%s", b);
  }
}
static void endop(void) { logf_("\n"); if (direct) flush_log(me); }

// ---- guarded allocator -------------------------------------------------------
#define PG 4096ul
struct hdr { uint64_t magic, span, size; uint8_t *p; };
static uint64_t n_alloc, n_free, live;
static uint64_t fail_after = ~0ull;
static void die(const char *m) { me = me ? me : &thr[0]; logf_("FAULT %s\n", m); flush_log(me); _exit(70); }
int __wrap_posix_memalign(void **out, size_t al, size_t n) {
  if (fail_after != ~0ull && __atomic_fetch_sub(&fail_after, 1, __ATOMIC_RELAXED) == 0) { fail_after = 0; return ENOMEM; }
  if (!guard) return __real_posix_memalign(out, al, n);
  if (n > (1ul << 33)) return ENOMEM;
  uint64_t rounded = (n + 7) & ~7ull;
  if (al > 8) rounded = (rounded + al - 1) / al * al;
  uint64_t span = (rounded + PG - 1) / PG * PG;
  uint8_t *base = mmap(0, span + 2 * PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) return ENOMEM;
  struct hdr *h = (struct hdr *)base;
  uint8_t *p = base + PG + span - rounded;
  if (span <= (1 << 20)) memset(base + PG, 0xA5, span);
  h->magic = 0x6d6f6e69746f72ull; h->span = span; h->size = n; h->p = p;
  mprotect(base + PG + span, PG, PROT_NONE);
  mprotect(base, PG, PROT_READ);
  __atomic_add_fetch(&n_alloc, 1, __ATOMIC_RELAXED);
  __atomic_add_fetch(&live, 1, __ATOMIC_RELAXED);
  *out = p;
  return 0;
}
void __wrap_free(void *q) {
  if (!guard || !q) { __real_free(q); return; }
  // the header is in the page before the one the object starts in
  uint8_t *base = (uint8_t *)((uintptr_t)q & ~(PG - 1)) - PG;
  unsigned char vec;
  if (mincore(base, PG, &vec)) die("free of a pointer that was never allocated");
  struct hdr *h = (struct hdr *)base;
  if (h->magic == 0xdeadull) die("double free");
  if (h->magic != 0x6d6f6e69746f72ull || h->p != q) die("free of a pointer that was never allocated");
  for (uint8_t *x = h->p + h->size; x < base + PG + h->span; x++) if (*x != 0xA5 && h->span <= (1 << 20)) die("write after an object");
  if (h->span <= (1 << 20)) for (uint8_t *x = base + PG; x < h->p; x++) if (*x != 0xA5) die("write before an object");
  mprotect(base, PG, PROT_READ | PROT_WRITE);
  h->magic = 0xdead;
  mprotect(base + PG, h->span, PROT_NONE);
  __atomic_add_fetch(&n_free, 1, __ATOMIC_RELAXED);
  __atomic_sub_fetch(&live, 1, __ATOMIC_RELAXED);
}

// ---- delays inside the runtime's first-use path --------------------------------
static int delay_us;
#ifndef TSAN
extern int __real_pthread_key_create(pthread_key_t *, void (*)(void *));
int __wrap_pthread_key_create(pthread_key_t *k, void (*d)(void *)) {
  if (delay_us) usleep(delay_us);
  int r = __real_pthread_key_create(k, d);
  if (delay_us) usleep(delay_us / 2);
  return r;
}
#endif

// ---- standard streams with a fault plan --------------------------------------
static char *wplan, *rplan;
static uint8_t *in;
static size_t in_len, in_pos;
// plan items: '-' whole, 'sN' at most N bytes, 'i' interrupted, 'eN' fails with errno N,
// 'E' end of file (reads) or nothing written (writes)
static int step(char **plan, long *arg) {
  char *p = *plan;
  while (p && *p == ' ') p++;
  if (!p || !*p) return '-';
  int k = *p++;
  *arg = (k == 's' || k == 'e') ? strtol(p, &p, 10) : 0;
  *plan = p;
  return k;
}
static unsigned long n_write, n_read;
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (fd == 2) { logf_(" err "); loghex(p, n); flush_log(me); return n; }
  if (fd != 1) return __real_write(fd, p, n);
  long a;
  n_write++;
  switch (step(&wplan, &a)) {
    case 'i': logf_(" wi"); errno = EINTR; return -1;
    case 'e': logf_(" we%ld", a); errno = a; return -1;
    case 'E': logf_(" wz"); return 0;
    case 's': if ((size_t)a < n) n = a; break;
  }
  logf_(" w:");
  loghex(p, n);
  return n;
}
ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (fd != 0) return __real_read(fd, p, n);
  long a = 0;
  n_read++;
  switch (step(&rplan, &a)) {
    case 'i': logf_(" ri"); errno = EINTR; return -1;
    case 'e': logf_(" re%ld", a); errno = a; return -1;
    case 'E': logf_(" r0"); return 0;
    case 's': if ((size_t)a < n) n = a; break;
  }
  if (n > in_len - in_pos) n = in_len - in_pos;
  memcpy(p, in + in_pos, n);
  in_pos += n;
  logf_(" r%zu", n);
  return n;
}

// ---- operations ----------------------------------------------------------------
static uint8_t *unhex(const char *s, uint64_t *n) {
  if (*s == '.') { *n = 0; return 0; }
  *n = strlen(s) / 2;
  // against a guard page, so that reading past the end is a fault
  uint64_t span = (*n + PG - 1) / PG * PG;
  uint8_t *b = mmap(0, span + PG, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  uint8_t *p = b + span - *n;
  for (uint64_t i = 0; i < *n; i++) {
    int c = s[2 * i], d = s[2 * i + 1];
    p[i] = (c <= '9' ? c - '0' : c - 'a' + 10) << 4 | (d <= '9' ? d - '0' : d - 'a' + 10);
  }
  mprotect(b, span, PROT_READ);
  mprotect(b + span, PG, PROT_NONE);
  return p;
}
static struct bytes *mkbytes(const uint8_t *p, uint64_t n) {
  uint32_t *raw = malloc(24);
  raw[0] = 1; raw[1] = 0;
  struct bytes *b = (struct bytes *)(raw + 2);
  b->ptr = p; b->len = n;
  return b;
}
static uint8_t pat(int s, uint64_t i) { return (uint8_t)(s * 37 + i * 11 + 5); }
static void dump(const struct bytes *b) {
  if (!b) { logf_(" -"); return; }
  uint32_t *h = (uint32_t *)b - 2;
  logf_(" rc%u,%u,%llu ", h[0], h[1], (unsigned long long)b->len);
  loghex(b->ptr, b->len);
}

static void run_op(char *line) {
  char *sv, *op = strtok_r(line, " ", &sv);
  char *av[6] = {0};
  int n = 0;
  if (!op) return;
  if (strcmp(op, "wplan") && strcmp(op, "rplan"))
    while (n < 6 && (av[n] = strtok_r(0, " ", &sv))) n++;
#define A(i) strtoll(av[i], 0, 0)
#define S(i) slot[A(i)]
#define IS(s) (!strcmp(op, s))
  logf_("%d %s", me->id, op);
  if (IS("init")) __tribute_init();
  else if (IS("asan")) __asan_init();
  else if (IS("tag")) logf_(" %d", __tribute_next_tag());
  else if (IS("delay")) delay_us = A(0);
  else if (IS("y")) sched_yield();
  else if (IS("spin")) { volatile long x = A(0); while (x-- > 0) {} }
  else if (IS("alloc")) {
    int s = A(0);
    uint64_t z = strtoull(av[1], 0, 0);
    if (direct) flush_log(me);
    uint8_t *p = __tribute_alloc(z);
    uint64_t q = __atomic_add_fetch(&seq, 1, __ATOMIC_RELAXED);
    slot[s] = p; ssize[s] = z;
    if (p) for (uint64_t i = 0; i < z; i++) p[i] = pat(s, i);
    logf_(" %llu %llx %llu", (unsigned long long)q, (unsigned long long)(uintptr_t)p, (unsigned long long)z);
  } else if (IS("free")) {
    int s = A(0), bad = 0;
    uint8_t *p = slot[s];
    for (uint64_t i = 0; p && i < ssize[s]; i++) if (p[i] != pat(s, i)) bad = 1;
    uint64_t q = __atomic_add_fetch(&seq, 1, __ATOMIC_RELAXED);
    logf_(" %llu %llx %s", (unsigned long long)q, (unsigned long long)(uintptr_t)p, bad ? "bad" : "ok");
    if (direct) flush_log(me);
    __tribute_dealloc(p, ssize[s]);
  } else if (IS("free0")) { __tribute_dealloc(S(0), 0); __tribute_dealloc(0, 16); __tribute_dealloc(0, 0); }
  else if (IS("poke")) { if (direct) flush_log(me); ((uint8_t *)S(0))[A(1)] ^= (uint8_t)A(2); }
  else if (IS("freed")) { // contents of a quarantined object
    uint8_t *p = S(0);
    int bad = 0;
    for (uint64_t i = 0; i < ssize[A(0)]; i++) if (p[i] != 0xFD) bad = 1;
    logf_(" %s", bad ? "changed" : "poisoned");
  } else if (IS("oom")) fail_after = A(0);
  else if (IS("empty")) S(0) = __tribute_evidence_empty();
  else if (IS("ext")) S(0) = __tribute_evidence_extend(S(1), A(2), A(3), (uint8_t *)(uintptr_t)A(4), (uint8_t *)(uintptr_t)A(5));
  else if (IS("look")) {
    int32_t ab = A(1);
    logf_(" %d %llx %llx", __tribute_evidence_lookup(S(0), ab), (unsigned long long)(uintptr_t)__tribute_evidence_lookup_tr(S(0), ab),
          (unsigned long long)(uintptr_t)__tribute_evidence_lookup_handler(S(0), ab));
  } else if (IS("bytes")) { uint64_t k; uint8_t *p = unhex(av[1], &k); S(0) = mkbytes(p, k); }
  else if (IS("fill")) { // slot count seed: a long pseudo-random byte string
    uint64_t k = A(1), x = A(2) | 1;
    uint8_t *p = malloc(k);
    for (uint64_t i = 0; i < k; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; p[i] = x >> 56; }
    S(0) = mkbytes(p, k);
  } else if (IS("nilbytes")) S(0) = mkbytes((uint8_t *)(uintptr_t)A(1), 0);
  else if (IS("len")) logf_(" %u", __tribute_bytes_len(S(0)));
  else if (IS("get")) { if (direct) flush_log(me); logf_(" %u", __tribute_bytes_get_or_panic(S(0), (uint32_t)A(1))); }
  else if (IS("eq")) logf_(" %u", __tribute_bytes_range_equal(S(0), (uint32_t)A(1), S(2), (uint32_t)A(3), (uint32_t)A(4)));
  else if (IS("cat")) S(0) = __tribute_bytes_concat(S(1), S(2));
  else if (IS("slice")) {
    struct bytes *o = S(1), *r;
    if (direct) flush_log(me);
    r = __tribute_bytes_slice_or_panic(o, (uint32_t)A(2), (uint32_t)A(3));
    S(0) = r;
    // does the slice share the original's buffer, and how often is the original held?
    logf_(" %d %u", r->len && r->ptr >= o->ptr && r->ptr < o->ptr + o->len, *((uint32_t *)o - 2));
  }
  else if (IS("dump")) dump(S(0));
  else if (IS("hash")) {
    struct bytes *b = S(0);
    uint64_t h = 14695981039346656037ull;
    for (uint64_t i = 0; i < b->len; i++) h = (h ^ b->ptr[i]) * 1099511628211ull;
    logf_(" %llu %llx", (unsigned long long)b->len, (unsigned long long)h);
  }
  else if (IS("wplan")) wplan = strdup(sv ? sv : "");
  else if (IS("rplan")) rplan = strdup(sv ? sv : "");
  else if (IS("stdin")) { uint64_t k; in = unhex(av[0], &k); in_len = k; in_pos = 0; }
  else if (IS("stdinfill")) { // count period: pseudo-random text with newlines
    uint64_t k = A(0), x = A(1) | 1;
    in = malloc(k);
    for (uint64_t i = 0; i < k; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; unsigned v = (x >> 33) % (unsigned)A(2); in[i] = v == 0 ? '\n' : v == 1 ? '\r' : 'a' + v % 26; }
    in_len = k; in_pos = 0;
  }
  else if (IS("pint")) __tribute_print_int(A(0));
  else if (IS("pnat")) __tribute_print_nat((uint32_t)A(0));
  else if (IS("pflt")) { uint64_t b = strtoull(av[0], 0, 16); double f; memcpy(&f, &b, 8); __tribute_print_float(f); }
  else if (IS("pbytes")) { struct bytes *b = S(0); __tribute_print_bytes(b->ptr, b->len); }
  else if (IS("bprint")) __tribute_bytes_print(S(0));
  else if (IS("nl")) __tribute_print_newline();
  else if (IS("iow")) __tribute_io_write(S(0), (uint32_t)A(1));
  else if (IS("line")) {
    struct line *l = __tribute_io_read_line();
    logf_(" = %u %d", l->tag, l->code);
    dump(l->bytes);
    dump(l->message);
    S(0) = l->bytes;
    __tribute_io_read_line_result_dealloc(l);
  } else if (IS("mem")) { logf_(" %llu", (unsigned long long)__atomic_load_n(&live, __ATOMIC_RELAXED)); }
  else { logf_(" ?unknown"); }
  endop();
}

static pthread_barrier_t bar;
static void *body(void *a) {
  struct thr *t = a;
  me = t;
  pthread_barrier_wait(&bar);
  for (int i = 0; i < t->n; i++) run_op(t->ops[i]);
  return 0;
}
static void on_sig(int s) {
  static char m[64];
  int n = snprintf(m, sizeof m, "\nSIGNAL %d\n", s);
  __real_write(log_fd, m, n);
  _exit(64 + (s & 31));
}

int main(int argc, char **argv) {
  if (argc < 3) return 2;
  FILE *f = fopen(argv[1], "r");
  log_fd = 3;
  FILE *lf = fopen(argv[2], "w");
  if (!f || !lf) return 2;
  log_fd = fileno(lf);
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP};
#ifndef TSAN
  for (int i = 0; i < 5; i++) signal(sigs[i], on_sig);
#else
  (void)sigs;
#endif
  char *line = 0;
  size_t cap = 0;
  ssize_t k;
  int cur = 0, nt = 0;
  while ((k = getline(&line, &cap, f)) > 0) {
    while (k && line[k - 1] == '\n') line[--k] = 0;
    if (line[0] == 'T' && line[1] == ' ') { cur = atoi(line + 2); if (cur <= MAXT - 1 && cur > nt) nt = cur; continue; }
    if (line[0] == 'Z') { cur = MAXT; continue; }
    struct thr *t = &thr[cur];
    if (t->n == t->cap) { t->cap = t->cap ? 2 * t->cap : 64; t->ops = realloc(t->ops, t->cap * sizeof *t->ops); }
    t->ops[t->n++] = strdup(line);
  }
  fclose(f);
  for (int i = 0; i <= MAXT; i++) thr[i].id = i;
  guard = getenv("VH_GUARD") != 0;
  me = &thr[0];
  // rounds: the threads' scripts run that many times on fresh threads
  for (int i = 0; i < thr[0].n; i++) run_op(thr[0].ops[i]);
  if (nt) {
    direct = 0;
    pthread_t th[MAXT];
    pthread_barrier_init(&bar, 0, nt);
    for (int i = 1; i <= nt; i++) pthread_create(&th[i], 0, body, &thr[i]);
    for (int i = 1; i <= nt; i++) pthread_join(th[i], 0);
    for (int i = 1; i <= nt; i++) flush_log(&thr[i]);
    direct = 1;
  }
  me = &thr[MAXT];
  for (int i = 0; i < thr[MAXT].n; i++) run_op(thr[MAXT].ops[i]);
  me = &thr[0];
  logf_("END alloc=%llu free=%llu live=%llu writes=%lu reads=%lu\n", (unsigned long long)n_alloc, (unsigned long long)n_free, (unsigned long long)live, n_write, n_read);
  flush_log(me);
  guard = 0;
  _exit(0);
}
