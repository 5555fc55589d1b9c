// Host side of natively compiled test programs: inputs, observable events, and an
// allocation monitor wrapped around the runtime's allocator (--wrap).
#define _GNU_SOURCE
#include <fcntl.h>
#include <dlfcn.h>
#include <errno.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <unistd.h>
#include <math.h>

static uint64_t inputs[16];
static char buf[1 << 22];
static size_t len;
static int out_fd = 1;
static int mem_mode;      // 0 = pass through, 1 = guard pages + accounting
static int keep_mode;
static const char *fault; // monitor verdict, if any
static unsigned long n_alloc, n_free, n_ev;

static void put(const char *s) {
  size_t n = strlen(s);
  if (len + n < sizeof buf) { memcpy(buf + len, s, n); len += n; }
}
extern ssize_t __real_write(int, const void *, size_t);
extern ssize_t __real_read(int, void *, size_t);
static void flush(void) {
  size_t o = 0;
  while (o < len) { ssize_t k = __real_write(out_fd, buf + o, len - o); if (k <= 0) break; o += k; }
  len = 0;
}
static void hex(uint64_t x) { char t[32]; snprintf(t, sizeof t, "%llx\n", (unsigned long long)x); put(t); }

uint64_t v_in_i1(int32_t k) { return inputs[k & 15] & 1; }
uint64_t v_in_i8(int32_t k) { return (uint64_t)(int64_t)(int8_t)inputs[k & 15]; }
uint64_t v_in_i16(int32_t k) { return (uint64_t)(int64_t)(int16_t)inputs[k & 15]; }
uint64_t v_in_i32(int32_t k) { return inputs[k & 15] & 0xffffffffu; }
uint64_t v_in_i64(int32_t k) { return inputs[k & 15]; }
float v_in_f32(int32_t k) { uint32_t b = inputs[k & 15]; float f; memcpy(&f, &b, 4); return f; }
double v_in_f64(int32_t k) { uint64_t b = inputs[k & 15]; double f; memcpy(&f, &b, 8); return f; }
#define REC(T, M) uint64_t v_rec_##T(uint64_t x) { n_ev++; put("v_rec_" #T " " #T ":"); hex(x & (M)); return 0; }
REC(i1, 1) REC(i8, 0xff) REC(i16, 0xffff) REC(i32, 0xffffffffu) REC(i64, ~0ull)
uint64_t v_rec_f32(float f) { uint32_t b; memcpy(&b, &f, 4); if (isnan(f)) b = 0x7fc00000; n_ev++; put("v_rec_f32 f32:"); hex(b); return 0; }
uint64_t v_rec_f64(double f) { uint64_t b; memcpy(&b, &f, 8); if (isnan(f)) b = 0x7ff8000000000000ull; n_ev++; put("v_rec_f64 f64:"); hex(b); return 0; }
uint64_t v_eff_i32(uint64_t x) { x &= 0xffffffffu; n_ev++; put("v_eff_i32 i32:"); hex(x); return (x * 2654435761ull + 12345) & 0xffffffffu; }

// ---- standard streams: recorded, with interruptions and short transfers ----
static uint64_t io_rng = 88172645463325252ull;
static unsigned io_next(unsigned n) { io_rng ^= io_rng << 13; io_rng ^= io_rng >> 7; io_rng ^= io_rng << 17; return (io_rng >> 11) % n; }
ssize_t __wrap_write(int fd, const void *p, size_t n) {
  if (fd != 1) return __real_write(fd, p, n);
  if (io_next(4) == 0) { errno = EINTR; return -1; }
  if (n > 1 && io_next(2)) n = 1 + io_next(n);
  put("out ");
  for (size_t i = 0; i < n; i++) { char t[3]; snprintf(t, 3, "%02x", ((const uint8_t *)p)[i]); put(t); }
  put("\n");
  return n;
}
ssize_t __wrap_read(int fd, void *p, size_t n) {
  if (fd != 0) return __real_read(fd, p, n);
  if (io_next(4) == 0) { errno = EINTR; return -1; }
  if (n > 1 && io_next(2)) n = 1 + io_next(io_next(2) ? 6 : n);
  ssize_t k = __real_read(fd, p, n);
  if (k == 0 && getenv("VH_RERR")) { errno = EIO; return -1; }
  return k;
}

// ---- allocation monitor ----------------------------------------------------
extern uint8_t *__real___tribute_alloc(uint64_t);
extern void __real___tribute_dealloc(uint8_t *, uint64_t);
#define PG 4096ul
#define ARENA (1ul << 34)
static uint8_t *arena;
static uint64_t bump;
struct obj { uint8_t *p; uint64_t size, span; int live; };
static struct obj *objs;
static uint32_t *page_obj; // page index -> object index + 1
static uint64_t nobj, live_now, live_max;
#define MAXOBJ (1ul << 20)

static void report(const char *what, void *p, uint64_t a, uint64_t b) {
  char t[200];
  if (!fault) fault = what;
  snprintf(t, sizeof t, "MEM %s size=%llu other=%llu\n", what, (unsigned long long)a, (unsigned long long)b);
  put(t);
  (void)p;
}

static unsigned long n_unsized;
uint8_t *__wrap___tribute_alloc(uint64_t size) {
  n_alloc++;
  if (!mem_mode || size > (1u << 20)) return __real___tribute_alloc(size);
  if (!arena) {
    arena = mmap(0, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    objs = mmap(0, MAXOBJ * sizeof *objs, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    page_obj = mmap(0, ARENA / PG * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  if (live_now > 25000 || nobj + 1 >= MAXOBJ || bump + (1u << 21) >= ARENA) return __real___tribute_alloc(size);
  uint64_t rounded = (size + 15) & ~15ull;
  uint64_t span = (rounded + PG - 1) / PG * PG;
  if (!span) span = PG;
  uint8_t *base = arena + bump;
  mprotect(base, span, PROT_READ | PROT_WRITE);
  memset(base, 0xA5, span);
  bump += span + PG;
  uint8_t *p = base + span - rounded;
  objs[nobj] = (struct obj){p, size, span, 1};
  for (uint64_t i = 0; i < span / PG; i++) page_obj[(base - arena) / PG + i] = nobj + 1;
  nobj++;
  if (++live_now > live_max) live_max = live_now;
  return p;
}

void __wrap___tribute_dealloc(uint8_t *p, uint64_t size) {
  n_free++;
  if (keep_mode) return;
  if (!mem_mode || !arena || p < arena || p >= arena + ARENA) { __real___tribute_dealloc(p, size); return; }
  uint32_t i = page_obj[(p - arena) / PG];
  if (!i || objs[i - 1].p != p) { report("free of a pointer that was never allocated", p, size, 0); return; }
  struct obj *o = &objs[i - 1];
  if (size == 0) { n_unsized++; return; } /* documented no-op: size unknown, object is not reclaimed */
  if (!o->live) { report("double free", p, size, o->size); return; }
  if (o->size != size) report("free with the wrong size", p, size, o->size);
  uint64_t rounded = (o->size + 15) & ~15ull;
  uint8_t *base = p + rounded - o->span;
  for (uint8_t *q = base; q < p; q++) if (*q != 0xA5) { report("write before an object", p, size, p - q); break; }
  for (uint8_t *q = p + o->size; q < p + rounded; q++) if (*q != 0xA5) { report("write after an object", p, size, q - p); break; }
  o->live = 0;
  live_now--;
  mprotect(base, o->span, PROT_NONE);
  madvise(base, o->span, MADV_DONTNEED);
}

static void epilogue(const char *end) {
  char t[160];
  if (mem_mode && live_now) {
    uint64_t first = 0;
    for (uint64_t i = 0; i < nobj; i++) if (objs[i].live) { first = objs[i].size; break; }
    snprintf(t, sizeof t, "MEM leak objects=%llu first_size=%llu\n", (unsigned long long)live_now, (unsigned long long)first);
    put(t);
  }
  snprintf(t, sizeof t, "STAT alloc=%lu free=%lu unsized=%lu events=%lu maxlive=%llu\n", n_alloc, n_free, n_unsized, n_ev, (unsigned long long)live_max);
  put(t);
  put("END ");
  put(end);
  put("\n");
  flush();
}
static void at_exit(void) { epilogue("return"); }
static void on_sig(int s, siginfo_t *si, void *u) {
  char t[120];
  (void)u;
  if ((s == SIGSEGV || s == SIGBUS) && arena && (uint8_t *)si->si_addr >= arena && (uint8_t *)si->si_addr < arena + ARENA) {
    uint32_t i = page_obj[((uint8_t *)si->si_addr - arena) / PG];
    if (i && !objs[i - 1].live)
      snprintf(t, sizeof t, "MEM use after free size=%llu offset=%lld\n", (unsigned long long)objs[i - 1].size, (long long)((uint8_t *)si->si_addr - objs[i - 1].p));
    else snprintf(t, sizeof t, "MEM out of bounds access\n");
    put(t);
  }
  snprintf(t, sizeof t, "signal %d", s);
  epilogue(t);
  _exit(99);
}
__attribute__((constructor)) static void start(int argc, char **argv) {
  for (int i = 1; i < argc && i <= 16; i++) inputs[i - 1] = strtoull(argv[i], 0, 16);
  mem_mode = getenv("VH_MEM") != 0;
  keep_mode = getenv("VH_KEEP") != 0;
  if (getenv("VH_OUT")) out_fd = open(getenv("VH_OUT"), O_WRONLY | O_CREAT | O_TRUNC, 0600);
  static char alt[65536];
  stack_t ss = {.ss_sp = alt, .ss_size = sizeof alt};
  sigaltstack(&ss, 0);
  struct sigaction sa = {.sa_sigaction = on_sig, .sa_flags = SA_SIGINFO | SA_ONSTACK};
  int sigs[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGABRT};
  for (unsigned i = 0; i < sizeof sigs / sizeof *sigs; i++) sigaction(sigs[i], &sa, 0);
  atexit(at_exit);
}

/* Host mode: the program under test is a shared object. */
int main(int argc, char **argv) {
  (void)argc; (void)argv;
  const char *so = getenv("VH_SO");
  void *h = so ? dlopen(so, RTLD_NOW | RTLD_LOCAL) : 0;
  int (*f)(void) = h ? (int (*)(void))dlsym(h, "main") : 0;
  if (!f) { const char *e = dlerror(); put("LOAD "); put(e ? e : "?"); put("\n"); return 97; }
  return f();
}
