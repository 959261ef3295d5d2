/* Driver for what a call costs: its duration, the stack it uses, allocations, system calls.
 * Linked with ONE implementation; judges nothing.
 *
 *   driver SCRIPT OUTPUT
 *
 *   work id budget k n al xl mask seed   shortest times of an accepting and of a rejecting decryption (tag ^ mask), and
 *                                     of rejecting ones without message with AL2 bytes of associated data (next word)
 *   res id k n al xl mask seed         stack, heap and system calls of encryption, accepted and rejected decryption (hash: H)
 */
#define _GNU_SOURCE
#include <errno.h>
#include <signal.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>
#if defined(__x86_64__)
#include <linux/filter.h>
#include <linux/seccomp.h>
#endif
typedef unsigned char u8;
typedef unsigned long long ull;
int crypto_aead_encrypt(u8 *, ull *, const u8 *, ull, const u8 *, ull, const u8 *, const u8 *, const u8 *);
int crypto_aead_decrypt(u8 *, ull *, u8 *, const u8 *, ull, const u8 *, ull, const u8 *, const u8 *);
#ifdef VD_HASH
int crypto_hash(u8 *, const u8 *, ull);
#endif
volatile uint32_t vd_marker[2];

/* ---------------------------------------------------------------- allocation, counted while a call runs */
static u8 *arena_p, *arena_e;
static volatile int armed;
static volatile unsigned long n_alloc;
static void *grab(size_t n, size_t al) {
  if (armed) n_alloc++;
  if (al < 16) al = 16;
  if (n + al + 32 > (size_t)1 << 28) return 0;
  if (!arena_p || (size_t)(arena_e - arena_p) < n + al + 32) {
    size_t w = (n + al + 32 + (1u << 22)) & ~(size_t)4095;
    u8 *q = mmap(0, w, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (q == MAP_FAILED) return 0;
    arena_p = q, arena_e = q + w;
  }
  u8 *p = (u8 *)(((uintptr_t)arena_p + 16 + al - 1) & ~(uintptr_t)(al - 1));
  ((size_t *)p)[-1] = n;
  arena_p = p + ((n + 15) & ~(size_t)15);
  return p;
}
void *malloc(size_t n) { return grab(n, 16); }
void free(void *p) { (void)p; }
void *calloc(size_t a, size_t b) { void *p = grab(a * b, 16); if (p) memset(p, 0, a * b); return p; }
void *realloc(void *o, size_t n) { void *p = grab(n, 16); if (p && o) { size_t m = ((size_t *)o)[-1]; memcpy(p, o, m < n ? m : n); } return p; }
void *memalign(size_t al, size_t n) { return grab(n, al); }
void *aligned_alloc(size_t al, size_t n) { return grab(n, al); }
int posix_memalign(void **r, size_t al, size_t n) { *r = grab(n, al); return *r ? 0 : ENOMEM; }

/* ---------------------------------------------------------------- */
static FILE *out;
static sigjmp_buf jb;
static volatile int fsig;
static volatile uintptr_t faddr;
static u8 sigstk[65536];
static void on_fault(int s, siginfo_t *si, void *u) {
  (void)u;
  if (!armed) _exit(5);
  armed = 0, fsig = s, faddr = (uintptr_t)si->si_addr;
  siglongjmp(jb, 1);
}
static char *tok(char **sv) { char *p = strtok_r(0, " \t\n", sv); return p ? p : (char *)"-"; }
static void hexb(const char *h, u8 *o, size_t n) {
  memset(o, 0, n);
  for (size_t i = 0; i < n && h[2 * i] && h[2 * i] != '-'; i++) { unsigned v; sscanf(h + 2 * i, "%2x", &v); o[i] = (u8)v; }
}
static void pattern(u8 *p, size_t n, uint64_t s) {
  for (size_t i = 0; i < n; i++) { s = s * 6364136223846793005ull + 1442695040888963407ull; p[i] = (u8)(s >> 33); }
}
static void *page(size_t n) {
  void *p = mmap(0, (n + 8191) & ~(size_t)4095, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  if (p == MAP_FAILED) _exit(6);
  return p;
}
static void unpage(void *p, size_t n) { munmap(p, (n + 8191) & ~(size_t)4095); }
static inline uint64_t now(void) {
#if defined(__x86_64__)
  unsigned a, d;
  __asm__ volatile("lfence\n rdtsc\n lfence" : "=a"(a), "=d"(d) : : "memory");
  return (uint64_t)d << 32 | a;
#else
  struct timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return (uint64_t)t.tv_sec * 1000000000u + (uint64_t)t.tv_nsec;
#endif
}
static uint64_t ns(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t)t.tv_sec * 1000000000u + (uint64_t)t.tv_nsec; }

static void work(const char *id, char **sv) {
  uint64_t budget = strtoull(tok(sv), 0, 0) * 1000;
  u8 k[16], n[16], mask[16], t0[16];
  hexb(tok(sv), k, 16), hexb(tok(sv), n, 16);
  size_t al = strtoul(tok(sv), 0, 0), xl = strtoul(tok(sv), 0, 0);
  char *mt = tok(sv);
  int fixed = *mt == '=';                          /* =hex: this tag */
  hexb(mt + fixed, mask, 16);
  uint64_t seed = strtoull(tok(sv), 0, 0);
  size_t al2 = strtoul(tok(sv), 0, 0), am = al > al2 ? al : al2;
  u8 *a = page(am + 16), *m = page(xl + 32), *c = page(xl + 32), *f = page(xl + 32), *o = page(xl + 32);
  pattern(a, am, seed), pattern(m, xl, seed + 1), pattern(t0, 16, seed + 2);
  ull cl = 0, ml = 0;
  volatile int ra = 9, rr = 9, r2 = 9, bad = 0;
  volatile size_t cl2 = 0;               /* output bytes a rejected call overwrites */
  volatile uint64_t ta = ~(uint64_t)0, tr = ~(uint64_t)0, t2 = ~(uint64_t)0;
  fsig = 0;
  armed = 1;
  if (sigsetjmp(jb, 1) == 0) {
    bad = crypto_aead_encrypt(c, &cl, m, xl, a, al, 0, n, k);
    memcpy(f, c, xl + 16);
    for (int i = 0; i < 16; i++) f[xl + i] = fixed ? mask[i] : f[xl + i] ^ mask[i];
    uint64_t end = ns() + budget;
    for (int q = 0; q < 3 || (ns() < end && q < 64); q++) {
      uint64_t z0 = now();
      ra = crypto_aead_decrypt(o, &ml, 0, c, xl + 16, a, al, n, k);
      uint64_t z1 = now();
      rr = crypto_aead_decrypt(o, &ml, 0, f, xl + 16, a, al, n, k);
      uint64_t z2 = now();
      r2 = crypto_aead_decrypt(o, &ml, 0, t0, 16, a, al2, n, k);
      uint64_t z3 = now();
      if (q && z1 - z0 < ta) ta = z1 - z0;
      if (q && z2 - z1 < tr) tr = z2 - z1;
      if (q && z3 - z2 < t2) t2 = z3 - z2;
    }
    memset(o, 0xa5, xl);
    crypto_aead_decrypt(o, &ml, 0, f, xl + 16, a, al, n, k);
    for (size_t i = 0; i < xl; i++) cl2 += o[i] != 0xa5;
  }
  armed = 0;
  fprintf(out, "{\"id\":\"%s\",\"op\":\"work\",\"fault\":%d,\"re\":%d,\"ra\":%d,\"rr\":%d,\"r2\":%d,\"ta\":%llu,\"tr\":%llu,\"t2\":%llu,\"cl\":%llu}\n", id, fsig, bad, ra, rr, r2, (ull)ta, (ull)tr, (ull)t2, (ull)cl2);
  unpage(a, am + 16), unpage(m, xl + 32), unpage(c, xl + 32), unpage(f, xl + 32), unpage(o, xl + 32);
}

/* ---------------------------------------------------------------- resources */
#define STACK ((size_t)8 << 20)
static u8 *stk;                 /* own stack of the measured call, painted */
static size_t painted;
static ucontext_t c_main, c_call;
static struct { char op; u8 *o; const u8 *x, *a, *n, *k; ull xl, al, len; int ret; } J;
static void body(void) {
  switch (J.op) {
  case 'E': J.ret = crypto_aead_encrypt(J.o, &J.len, J.x, J.xl, J.a, J.al, 0, J.n, J.k); break;
  case 'D': J.ret = crypto_aead_decrypt(J.o, &J.len, 0, J.x, J.xl, J.a, J.al, J.n, J.k); break;
#ifdef VD_HASH
  case 'H': J.ret = crypto_hash(J.o, J.x, J.xl); break;
#endif
  default: J.ret = 0;
  }
}
static volatile int ready;
static void body_x(void) { body(); }
static size_t measure(void) {
  if (!stk) {
    stk = mmap(0, STACK + 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (stk == MAP_FAILED) _exit(6);
    mprotect(stk, 4096, PROT_NONE);
    memset(stk + 4096, 0xC3, STACK);
  }
  fsig = 0;
  if (sigsetjmp(jb, 1) == 0) {
    getcontext(&c_call);
    c_call.uc_stack.ss_sp = stk + 4096, c_call.uc_stack.ss_size = STACK, c_call.uc_link = &c_main;
    makecontext(&c_call, body_x, 0);
    armed = 1;
    swapcontext(&c_main, &c_call);
  }
  armed = 0;
  uint64_t *p = (uint64_t *)(stk + 4096), *e = (uint64_t *)(stk + 4096 + STACK);
  while (p < e && *p == 0xC3C3C3C3C3C3C3C3ull) p++;
  size_t d = (size_t)((u8 *)e - (u8 *)p);
  memset(p, 0xC3, d);
  return d;
}
#if defined(__x86_64__)
/* in a child: only exit is allowed while the call runs */
static int syscalls(void) {
  int fd[2];
  if (pipe(fd)) return -1;
  pid_t p = fork();
  if (p < 0) return -1;
  if (!p) {
    struct sock_filter fl[] = {
        BPF_STMT(BPF_LD | BPF_W | BPF_ABS, offsetof(struct seccomp_data, nr)),
        BPF_JUMP(BPF_JMP | BPF_JEQ | BPF_K, SYS_exit_group, 0, 1),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_ALLOW),
        BPF_STMT(BPF_RET | BPF_K, SECCOMP_RET_KILL_PROCESS)};
    struct sock_fprog pr = {4, fl};
    struct itimerval no = {{0, 0}, {0, 0}};
    setitimer(ITIMER_REAL, &no, 0);
    if (prctl(PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) || prctl(PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &pr)) _exit(9);
    body();
    _exit(0);
  }
  close(fd[0]), close(fd[1]);
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) ;
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  if (WIFSIGNALED(st) && WTERMSIG(st) == SIGSYS) return 1;
  return -1;
}
#else
/* emulated: the calls to the system are in the log of the emulator, between the two that mark the call */
static int syscalls(void) {
  syscall(SYS_getppid);
  body();
  syscall(SYS_getppid);
  return -2;
}
#endif
static void res(const char *id, char **sv) {
  u8 k[16], n[16], mask[16];
  hexb(tok(sv), k, 16), hexb(tok(sv), n, 16);
  size_t al = strtoul(tok(sv), 0, 0), xl = strtoul(tok(sv), 0, 0);
  hexb(tok(sv), mask, 16);
  uint64_t seed = strtoull(tok(sv), 0, 0);
  int sys = atoi(tok(sv));
  static const u8 off[16] = {0, 1, 8, 4, 3, 2, 7, 0, 5, 9, 15, 12, 6, 8, 1, 16};
  u8 *a0 = page(al + 64), *m0 = page(xl + 64), *c0 = page(xl + 96), *o0 = page(xl + 96);
  u8 *a = a0 + off[seed % 16], *m = m0 + off[(seed / 2 + 5) % 16], *c = c0 + off[(seed * 3 + seed / 16) % 16], *o = o0 + off[(seed * 5 + seed / 7) % 16];
  pattern(a, al, seed), pattern(m, xl, seed + 1);
  static const char ops[] =
#ifdef VD_HASH
      "EDRH";
#else
      "EDR";
#endif
  fprintf(out, "{\"id\":\"%s\",\"op\":\"res\",\"al\":%zu,\"xl\":%zu,\"calls\":[", id, al, xl);
  for (int q = 0; ops[q]; q++) {
    J.op = ops[q] == 'R' ? 'D' : ops[q];
    J.a = a, J.al = al, J.n = n, J.k = k, J.len = 0, J.ret = 99;
    J.x = ops[q] == 'D' || ops[q] == 'R' ? c : m, J.xl = ops[q] == 'D' || ops[q] == 'R' ? xl + 16 : xl;
    J.o = ops[q] == 'E' ? c : o;
    if (ops[q] == 'R')
      for (int i = 0; i < 16; i++) c[xl + i] ^= mask[i];
    n_alloc = 0;
    size_t d = measure();
    unsigned long na = n_alloc;
    int ret = J.ret, fs = fsig, sc = -2;
    if (sys && !fs) { sc = syscalls(); }
    fprintf(out, "%s[\"%c\",%d,%d,%zu,%lu,%d]", q ? "," : "", ops[q], fs, ret, d, na, sc);
  }
  fprintf(out, "]}\n");
  unpage(a0, al + 64), unpage(m0, xl + 64), unpage(c0, xl + 96), unpage(o0, xl + 96);
}

int main(int argc, char **argv) {
  if (argc < 3) return 3;
  FILE *in = fopen(argv[1], "r");
  out = fopen(argv[2], "w");
  if (!in || !out) return 3;
  static char obuf[1 << 20];
  setvbuf(out, obuf, _IOFBF, sizeof obuf);
  stack_t ss;
  memset(&ss, 0, sizeof ss);
  ss.ss_sp = sigstk, ss.ss_size = sizeof sigstk;
  sigaltstack(&ss, 0);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fault;
  sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
  int sg[] = {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGABRT, SIGTRAP};
  for (unsigned i = 0; i < sizeof sg / sizeof *sg; i++) sigaction(sg[i], &sa, 0);
  size_t cap = 0;
  static char line[1 << 16];
  (void)cap;
  while (fgets(line, sizeof line, in)) {
    char *sv, *cmd = strtok_r(line, " \n", &sv);
    if (!cmd) continue;
    char id[64];
    snprintf(id, sizeof id, "%s", tok(&sv));
    if (!strcmp(cmd, "work")) work(id, &sv);
    else if (!strcmp(cmd, "res")) res(id, &sv);
    else return 3;
    fflush(out);
  }
  fprintf(out, "{\"id\":\"end\",\"op\":\"end\"}\n");
  fclose(out);
  return 0;
}
