/* Conformance driver.
 *
 * Linked with ONE implementation; talks to it through its public interface only
 * (crypto_aead_encrypt / crypto_aead_decrypt / crypto_hash).  It executes a script of
 * commands and reports what every call did: return value, reported length, bytes written,
 * bytes touched outside the output, faults.  It judges nothing.
 *
 *   driver SCRIPT OUTPUT
 *
 * Script lines (hex strings, "-" for an empty string):
 *   place B MODE      B in k n a x o l ;  MODE: e | s<off> | z   (see buf_addr)
 *   pack ORDER GAP OFF / pack off         all buffers in one region
 *   fill HH | stack HH | stack off | ro 0/1 | outro 0/1 | null 0/1
 *   E id k n a m      encrypt          D id k n a c     decrypt (c includes the tag)
 *   H id m            hash
 *   bulk id seed first count maxa maxx chunk
 *   grid a0 an as x0 xn xs / grid off    lengths of bulk vectors: a0+ia*as, x0+ix*xs
 *   vec id seed index maxa maxx          print one bulk vector in full
 *   thr id seed nthreads iters maxa maxx
 *   storm id seed count                  forgeries        mix id seed count pool maxlen mode poolseed
 *   pre / watch / long / step            see below        save 0/1, nsec 0/1
 */
#define _GNU_SOURCE
#include <errno.h>
#include <pthread.h>
#include <setjmp.h>
#include <signal.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <ucontext.h>
#include <unistd.h>

#ifndef VD_NO_AEAD
int crypto_aead_encrypt(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long,
                        const unsigned char *, unsigned long long, const unsigned char *,
                        const unsigned char *, const unsigned char *);
int crypto_aead_decrypt(unsigned char *, unsigned long long *, unsigned char *, const unsigned char *,
                        unsigned long long, const unsigned char *, unsigned long long,
                        const unsigned char *, const unsigned char *);
#endif
#ifdef VD_HASH
int crypto_hash(unsigned char *, const unsigned char *, unsigned long long);
#endif

typedef uint8_t u8v;
typedef uint64_t u64v;
typedef unsigned long long ullv;

static FILE *vd_out;

/* ------------------------------------------------------------------ buffers */
enum { BK, BN, BA, BX, BO, BL, NB };
static const char vd_names[] = "knaxol";
#define PAGE 4096
#define CAP (2u << 20)           /* data bytes per buffer */
#define CANARY 128               /* bytes watched on both sides of the output */

typedef struct {
  u8v *base;                     /* start of the accessible data */
  char mode;                     /* 'e' end-flush, 's' start-flush, 'z' null when empty */
  unsigned off;
} buf_t;

typedef struct {
  buf_t b[NB];
} arena_t;
static arena_t vd_ar[2];         /* [1] is used by calls that interrupt other calls */

static void buf_init(buf_t *b) {
  size_t tot = CAP + 16 * PAGE;
  u8v *p = mmap(0, tot, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(3); }
  b->base = p + 8 * PAGE;
  if (mprotect(b->base, CAP, PROT_READ | PROT_WRITE)) { perror("mprotect"); exit(3); }
  b->mode = 'e';
}

/* address of a buffer of len bytes */
static u8v *buf_addr(buf_t *b, size_t len) {
  if (b->mode == 'z' && len == 0) return NULL;
  if (b->mode == 's') return b->base + b->off;
  return b->base + CAP - len - (b->mode == 'e' ? b->off : 0);
}

/* ------------------------------------------------------------------ settings */
static int vd_fill = 0xA5, vd_stack = -1, vd_ro = 1, vd_outro = 0;
static char vd_pack[16] = "";
static unsigned vd_gap, vd_packoff;
static u8v *vd_packbase;

/* ------------------------------------------------------------------ faults */
static __thread sigjmp_buf vd_jmp;
static __thread volatile int vd_armed;
static volatile uintptr_t vd_faddr;
static volatile int vd_fsig, vd_fwrite;

typedef void (*hook_t)(int, siginfo_t *, ucontext_t *);
static volatile hook_t vd_hook;          /* returns by setting vd_hook_done */
static volatile int vd_hook_done;

static void on_fault(int sig, siginfo_t *si, void *uc) {
  int e = errno;
  if (vd_hook) {
    vd_hook_done = 0;
    vd_hook(sig, si, (ucontext_t *)uc);
    if (vd_hook_done) { errno = e; return; }
  }
  if (!vd_armed) { signal(sig, SIG_DFL); raise(sig); return; }
  vd_faddr = (uintptr_t)si->si_addr;
  vd_fsig = sig;
#if defined(__x86_64__)
  vd_fwrite = sig == SIGSEGV ? ((((ucontext_t *)uc)->uc_mcontext.gregs[REG_ERR] & 2) ? 1 : 0) : 2;
#elif defined(__arm__)
  vd_fwrite = sig == SIGSEGV ? ((((ucontext_t *)uc)->uc_mcontext.error_code & 0x800) ? 1 : 0) : 2;
#else
  vd_fwrite = 2;
#endif
  vd_armed = 0;
  siglongjmp(vd_jmp, 1);
}

static void install(int sig) {
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_sigaction = on_fault;
  sigaddset(&sa.sa_mask, SIGALRM);
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction(sig, &sa, 0);
}

/* ------------------------------------------------------------------ calls */
typedef struct {
  char op;                       /* E D H */
  const u8v *k, *n, *a, *x;
  size_t alen, xlen;
} call_t;

typedef struct {
  int ret, fault, fsig, fwrite, fbuf, inputs_ok, slack_ok;
  long foff;
  ullv len;
  size_t outcap;
  u8v *out;                      /* copy of the output region */
} res_t;

/* a store to this variable delimits the call in instruction traces */
volatile uint32_t vd_marker[2];

static __attribute__((noinline)) void smear(int v) {
  volatile u8v pad[24 * 1024];
  for (size_t i = 0; i < sizeof pad; i++) pad[i] = (u8v)(v + (v == 0x100 ? (i * 167) >> 3 : 0));
#if defined(__x86_64__)
  __asm__ volatile("" : : "r"(pad) : "memory");
#endif
}

static volatile unsigned long vd_calls;
static unsigned vd_limit = 20;  /* seconds of CPU time one call may take */
static void on_prof(int sig) {
  static unsigned long last;
  static unsigned stuck;
  (void)sig;
  if (vd_calls != last) { last = vd_calls, stuck = 0; return; }
  if (++stuck < vd_limit) return;
  if (!vd_armed) _exit(5);
  stuck = 0;
  vd_faddr = 0, vd_fsig = SIGPROF, vd_fwrite = 2, vd_armed = 0;
  siglongjmp(vd_jmp, 1);
}
static void *vd_nsec;           /* the unused secret nonce argument */
static int raw_call(char op, u8v *o, ullv *l, const u8v *x, ullv xl, const u8v *a, ullv al, const u8v *n,
                    const u8v *k) {
  vd_calls++;
  switch (op) {
#ifndef VD_NO_AEAD
  case 'E': return crypto_aead_encrypt(o, l, x, xl, a, al, vd_nsec, n, k);
  case 'D': return crypto_aead_decrypt(o, l, vd_nsec, x, xl, a, al, n, k);
#endif
#ifdef VD_HASH
  case 'H': return crypto_hash(o, x, xl);
#endif
  }
  return 77;
}

static size_t out_size(char op, size_t xl) {
  return op == 'E' ? xl + 16 : op == 'H' ? 32 : xl >= 16 ? xl - 16 : 0;
}

static uintptr_t page_lo(u8v *p) { return (uintptr_t)p & ~(uintptr_t)(PAGE - 1); }
static uintptr_t page_hi(u8v *p) { return ((uintptr_t)p + PAGE - 1) & ~(uintptr_t)(PAGE - 1); }
static void prot(u8v *p, size_t len, int pr) {
  if (!p) return;
  uintptr_t lo = page_lo(p), hi = page_hi(p + len);
  if (hi > lo) mprotect((void *)lo, hi - lo, pr);
}

/* one call in arena ai */
static void do_call(int ai, const call_t *c, res_t *r) {
  static __thread u8v *img[2];
  arena_t *A = &vd_ar[ai];
  size_t osz = out_size(c->op, c->xlen), sz[NB] = {16, 16, c->alen, c->xlen, osz, sizeof(ullv)};
  u8v *p[NB];
  int packed = vd_pack[0] && ai == 0;
  size_t tot = 0;
  u8v *volatile reg = 0;
  if (packed) {
    tot = vd_packoff;
    for (int i = 0; vd_pack[i]; i++) tot += sz[strchr(vd_names, vd_pack[i]) - vd_names] + vd_gap;
    reg = vd_packbase;
    u8v *q = reg + vd_packoff;
    for (int i = 0; vd_pack[i]; i++) {
      int b = strchr(vd_names, vd_pack[i]) - vd_names;
      p[b] = q;
      q += sz[b] + vd_gap;
    }
    memset(reg, vd_fill, tot);
  } else
    for (int b = 0; b < NB; b++) p[b] = buf_addr(&A->b[b], sz[b]);
  const u8v *src[NB] = {c->k, c->n, c->a, c->x, 0, 0};
  if (c->op == 'H') src[BK] = src[BN] = 0, sz[BA] = 0;
  for (int b = 0; b <= BX; b++)
    if (src[b] && sz[b]) memcpy(p[b], src[b], sz[b]);
  /* slack bytes around the output inside its accessible pages */
  u8v *slo = p[BO], *shi = p[BO] + osz;
  if (!packed && p[BO]) {
    u8v *lo = A->b[BO].base, *hi = lo + CAP;
    slo = p[BO] - lo > CANARY ? p[BO] - CANARY : lo;
    shi = hi - (p[BO] + osz) > CANARY ? p[BO] + osz + CANARY : hi;
    memset(slo, vd_fill, shi - slo);
  }
  ullv lenv = 0xDEADBEEFCAFEF00DULL;
  /* C requires the length word to be a properly aligned object */
  ullv *volatile lp = &lenv;
  u8v *lraw = p[BL];
  if (!packed) {
    lp = (ullv *)(void *)((uintptr_t)p[BL] & ~(uintptr_t)7);
    *lp = lenv;
  } else
    memset(lraw, vd_fill, 8);
  if (packed && !img[ai]) img[ai] = malloc(8 * CAP);
  if (packed) memcpy(img[ai], reg, tot);
  if (vd_ro && !packed)
    for (int b = 0; b <= BX; b++)
      if (src[b]) prot(p[b], sz[b], PROT_READ);
  if (vd_outro && !packed && p[BO] && osz) prot(p[BO], osz, PROT_READ);

  memset(r, 0, sizeof *r);
  r->inputs_ok = r->slack_ok = 1;
  r->outcap = osz;
  if (vd_stack >= 0) smear(vd_stack);
  vd_armed = 1;
  if (sigsetjmp(vd_jmp, 1) == 0) {
    vd_marker[0] = 1;
    r->ret = raw_call(c->op, p[BO], lp, p[BX], c->xlen, p[BA], c->alen, p[BN], p[BK]);
    vd_marker[1] = 1;
    vd_armed = 0;
  } else {
    r->fault = 1;
    r->fsig = vd_fsig;
    r->fwrite = vd_fwrite;
    r->fbuf = -1;
    for (int b = 0; b < NB; b++)
      if (vd_faddr + 16 * PAGE > (uintptr_t)p[b] && vd_faddr < (uintptr_t)p[b] + sz[b] + 16 * PAGE) {
        long off = (long)(vd_faddr - (uintptr_t)p[b]);
        if (r->fbuf < 0 || labs(off) < labs(r->foff)) r->fbuf = b, r->foff = off;
      }
  }
  if (vd_outro && !packed && p[BO] && osz) prot(p[BO], osz, PROT_READ | PROT_WRITE);
  if (vd_ro && !packed)
    for (int b = 0; b <= BX; b++)
      if (src[b]) prot(p[b], sz[b], PROT_READ | PROT_WRITE);
  r->len = packed ? lenv : *lp;
  for (int b = 0; b <= BX; b++)
    if (src[b] && sz[b] && memcmp(p[b], src[b], sz[b])) r->inputs_ok = 0;
  if (packed) {
    memset(img[ai] + (p[BO] - reg), 0, osz);
    r->out = malloc(osz + 1);
    memcpy(r->out, p[BO], osz);
    memset(p[BO], 0, osz);
    if (memcmp(img[ai], reg, tot)) r->slack_ok = 0;
  } else {
    r->out = malloc(osz + 1);
    if (p[BO]) {
      memcpy(r->out, p[BO], osz);
      for (u8v *q = slo; q < p[BO]; q++)
        if (*q != (u8v)vd_fill) r->slack_ok = 0;
      for (u8v *q = p[BO] + osz; q < shi; q++)
        if (*q != (u8v)vd_fill) r->slack_ok = 0;
    }
  }
}

/* ------------------------------------------------------------------ printing */
static void hexout(const u8v *p, size_t n) {
  static const char d[] = "0123456789abcdef";
  char tmp[512];
  while (n) {
    size_t m = n > 256 ? 256 : n;
    for (size_t i = 0; i < m; i++) tmp[2 * i] = d[p[i] >> 4], tmp[2 * i + 1] = d[p[i] & 15];
    fwrite(tmp, 1, 2 * m, vd_out);
    p += m;
    n -= m;
  }
}
/* ------------------------------------------------------------------ parsing */
typedef struct {
  char id[40];
  u8v *p;
  size_t n;
} save_t;
#define NSAVE 20000
static save_t *vd_saves;
static int vd_nsaves, vd_save, vd_refs;
static void save_out(const char *id, const u8v *p, size_t n) {
  if (!vd_save) return;
  if (!vd_saves) vd_saves = calloc(NSAVE, sizeof(save_t));
  save_t *t = &vd_saves[vd_nsaves++ % NSAVE];
  free(t->p);
  snprintf(t->id, sizeof t->id, "%s", id);
  t->p = malloc(n + 1), t->n = n;
  memcpy(t->p, p, n);
}
static u8v *unhex(const char *s, size_t *n);
/* @id[+from][<len][^off:mask]...[>hex] : bytes from.. of the output of call id, cut to len bytes,
 * bytes xored, hex appended; an unknown id or an offset outside gives what is there */
static u8v *unref(const char *s, size_t *n) {
  char id[40];
  int i = 0;
  for (s++; *s && !strchr("+<^>", *s) && i < 39; s++) id[i++] = *s;
  id[i] = 0;
  const save_t *t = 0;
  for (int j = vd_nsaves - 1; j >= 0 && j > vd_nsaves - NSAVE && !t; j--)
    if (!strcmp(vd_saves[j % NSAVE].id, id)) t = &vd_saves[j % NSAVE];
  size_t len = t ? t->n : 0, from = 0;
  u8v *p = calloc(1, len + 4096);
  if (t) memcpy(p, t->p, len);
  while (*s) {
    char c = *s++;
    char *e = (char *)s;
    if (c == '+') {
      from = strtoul(s, &e, 10);
      if (from > len) from = len;
      memmove(p, p + from, len - from);
      len -= from;
    } else if (c == '<') {
      size_t l = strtoul(s, &e, 10);
      if (l < len) len = l;
    } else if (c == '^') {
      size_t o = strtoul(s, &e, 10);
      unsigned m = 0;
      if (*e == ':') m = (unsigned)strtoul(e + 1, &e, 16);
      if (o < len) p[o] ^= (u8v)m;
    } else if (c == '>') {
      size_t l2;
      u8v *q = unhex(s, &l2);
      if (l2 > 4000) l2 = 4000;
      memcpy(p + len, q, l2);
      len += l2;
      free(q);
      e = (char *)s + strlen(s);
    } else
      break;
    s = e;
  }
  *n = len;
  vd_refs = 1;
  return p;
}
static u8v *unhex(const char *s, size_t *n) {
  if (s && s[0] == '@') return unref(s, n);
  if (!s || !strcmp(s, "-")) {
    *n = 0;
    return calloc(1, 1);
  }
  size_t l = strlen(s) / 2;
  u8v *p = malloc(l + 1);
  for (size_t i = 0; i < l; i++) {
    unsigned v = 0;
    for (int j = 0; j < 2; j++) {
      char ch = s[2 * i + j];
      v = v * 16 + (ch <= '9' ? ch - '0' : (ch | 32) - 'a' + 10);
    }
    p[i] = (u8v)v;
  }
  *n = l;
  return p;
}
static char *tok(char **s) { return strtok_r(NULL, " \n", s); }
/* "k n a x" following the operation letter */
static void parse_call(char op, char **sv, call_t *c) {
  size_t n;
  memset(c, 0, sizeof *c);
  c->op = op;
  if (op != 'H') {
    c->k = unhex(tok(sv), &n);
    c->n = unhex(tok(sv), &n);
    c->a = unhex(tok(sv), &c->alen);
  }
  c->x = unhex(tok(sv), &c->xlen);
}
static void free_call(call_t *c) {
  free((void *)c->k), free((void *)c->n), free((void *)c->a), free((void *)c->x);
}

static void print_res(const char *id, const call_t *c, const res_t *r, const char *extra) {
  save_out(id, r->out, r->outcap);
  fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"%c\",\"ret\":%d,\"len\":\"%llx\",\"fault\":%d", id, c->op, r->ret, r->len,
          r->fault);
  if (r->fault)
    fprintf(vd_out, ",\"fsig\":%d,\"fw\":%d,\"fbuf\":\"%c\",\"foff\":%ld", r->fsig, r->fwrite,
            r->fbuf < 0 ? '?' : vd_names[r->fbuf], r->foff);
  if (vd_refs) {
    vd_refs = 0;
    if (c->k) fprintf(vd_out, ",\"k\":\""), hexout(c->k, 16), fprintf(vd_out, "\",\"n\":\""), hexout(c->n, 16);
    if (c->k) fprintf(vd_out, "\",\"a\":\""), hexout(c->a, c->alen), fprintf(vd_out, "\"");
    fprintf(vd_out, ",\"x\":\""), hexout(c->x, c->xlen), fprintf(vd_out, "\"");
  }
  fprintf(vd_out, ",\"inputs\":%d,\"slack\":%d%s,\"out\":\"", r->inputs_ok, r->slack_ok, extra);
  hexout(r->out, r->outcap);
  fprintf(vd_out, "\"}\n");
}

/* ------------------------------------------------------------------ bulk vectors */
static u64v sm(u64v *s) {
  u64v z = (*s += 0x9E3779B97F4A7C15ULL);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
  return z ^ (z >> 31);
}
static size_t gen_len(u64v *s, size_t max) {
  u64v r = sm(s);
  size_t v, rates[] = {8, 16, 18, 32, 36, 64, 72, 144};
  switch (r % 8) {
  case 0: case 1: case 2: v = (r >> 8) % 40; break;
  case 3: case 4: v = rates[(r >> 8) % 8] * ((r >> 16) % 20) + ((r >> 32) % 3); if (v) v--; break;
  case 5: case 6: v = (r >> 8) % 300; break;
  default: v = (r >> 8) % (max + 1); break;
  }
  return v > max ? v % (max + 1) : v;
}
static void gen_bytes(u64v *s, u8v *p, size_t n) {
  u64v r = sm(s);
  static const u8v pat[] = {0x00, 0xff, 0x80, 0x01, 0x7f, 0x55, 0xaa, 0xfe};
  switch (r % 8) {
  case 0: memset(p, pat[(r >> 8) % 8], n); break;
  case 1: /* one bit */
    memset(p, 0, n);
    if (n) p[(r >> 16) % n] = (u8v)(1u << ((r >> 8) % 8));
    break;
  case 2: /* padding-like tail */
    for (size_t i = 0; i < n; i++) p[i] = (u8v)sm(s);
    if (n) {
      size_t z = (r >> 8) % 20;
      for (size_t i = 0; i < z && i < n; i++) p[n - 1 - i] = i + 1 == z ? 0x80 : 0;
    }
    break;
  case 3: /* sparse bytes from a tiny alphabet */
    for (size_t i = 0; i < n; i++) p[i] = pat[sm(s) % 8];
    break;
  default:
    for (size_t i = 0; i < n; i += 8) {
      u64v w = sm(s);
      for (size_t j = 0; j < 8 && i + j < n; j++) p[i + j] = (u8v)(w >> (8 * j));
    }
  }
}
#define BMAX (1u << 21)
typedef struct {
  u8v k[16], n[16], *a, *m;
  size_t alen, mlen;
  u64v s;                        /* generator state after the inputs */
} vec_t;
/* grid mode: the lengths are given, idx = ia + an * ix */
static size_t vd_ga0, vd_gan, vd_gas, vd_gx0, vd_gxn, vd_gxs;
static int vd_grid;
static void gen_vec(vec_t *v, u64v seed, u64v idx, size_t maxa, size_t maxx) {
  v->s = seed * 0x100000001B3ULL + idx;
  sm(&v->s);
  if (vd_grid) {
    v->alen = vd_ga0 + (size_t)(idx % vd_gan) * vd_gas;
    v->mlen = vd_gx0 + (size_t)(idx / vd_gan % vd_gxn) * vd_gxs;
  } else {
    v->alen = gen_len(&v->s, maxa);
    v->mlen = gen_len(&v->s, maxx);
  }
  gen_bytes(&v->s, v->k, 16);
  gen_bytes(&v->s, v->n, 16);
  gen_bytes(&v->s, v->a, v->alen);
  gen_bytes(&v->s, v->m, v->mlen);
}
static u64v fnv(u64v h, const void *p, size_t n) {
  const u8v *q = p;
  for (size_t i = 0; i < n; i++) h = (h ^ q[i]) * 0x100000001B3ULL;
  return h;
}
/* modify an authentic input; returns a code describing the modification */
static const char *tamper(u64v *s, u8v *k, u8v *n, u8v *a, size_t al, u8v *c, size_t cl, char *buf) {
  u64v r = sm(s);
  unsigned i = (r >> 8) % 16, j = (r >> 16) % 16, bit = (r >> 24) % 8;
  u8v m = (u8v)((r >> 32) | 1u), *t = c + cl - 16;
  switch (r % 12) {
  case 0: case 1: t[i] ^= (u8v)(1u << bit); sprintf(buf, "tag[%u]^=%u", i, 1u << bit); break;
  case 2: if (i == j) j = (j + 1) % 16;
    t[i] ^= m, t[j] ^= m; sprintf(buf, "tag[%u],tag[%u]^=%u", i, j, m); break;
  case 3: if (i == j) j = (j + 1) % 16;
    if (t[i] == t[j]) { t[i] ^= m; sprintf(buf, "tag[%u]^=%u", i, m); }
    else { u8v z = t[i]; t[i] = t[j]; t[j] = z; sprintf(buf, "swap tag[%u],tag[%u]", i, j); } break;
  case 4: { u8v z = (u8v)(r >> 40); int ch = 0;
    for (int q = 0; q < 16; q++) ch |= t[q] != z, t[q] = z;
    if (!ch) t[0] ^= 1;
    sprintf(buf, "tag:=%u", z); break; }
  case 5: t[i]++, t[j]--; if (i == j) t[i]++; sprintf(buf, "tag[%u]++,tag[%u]--", i, j); break;
  case 6: if (cl > 16) { size_t q = (r >> 40) % (cl - 16); c[q] ^= (u8v)(1u << bit); sprintf(buf, "c[%zu]^=%u", q, 1u << bit); break; }
    /* fallthrough */
  case 7: if (al) { size_t q = (r >> 40) % al; a[q] ^= (u8v)(1u << bit); sprintf(buf, "a[%zu]^=%u", q, 1u << bit); break; }
    /* fallthrough */
  case 8: n[i] ^= (u8v)(1u << bit); sprintf(buf, "n[%u]^=%u", i, 1u << bit); break;
  case 9: k[i] ^= (u8v)(1u << bit); sprintf(buf, "k[%u]^=%u", i, 1u << bit); break;
  case 10: for (int q = 0; q < 16; q++) t[q] = (u8v)~t[q]; sprintf(buf, "tag:=~tag"); break;
  default: { unsigned q0 = (r >> 40) % 16, w = 1 + (r >> 48) % 8; int any = 0;
    for (unsigned q = q0; q < q0 + w && q < 16; q++) { t[q] ^= (u8v)sm(s); any = 1; }
    t[q0] ^= 0; (void)any; t[q0] = (u8v)(t[q0] + 0);
    sprintf(buf, "tag[%u..+%u]:=random", q0, w); break; }
  }
  return buf;
}

static int vd_ops = 3;           /* bulk: 1 decrypt, 2 decrypt a forgery */
static void bulk(const char *id, u64v seed, u64v first, u64v count, size_t maxa, size_t maxx, u64v chunk) {
  vec_t v;
  v.a = malloc(BMAX), v.m = malloc(BMAX);
  u8v *c2 = malloc(BMAX + 16), *a2 = malloc(BMAX);
  u64v h = 0xcbf29ce484222325ULL;
  ullv rt_bad = 0, rt_first = 0, fa_bad = 0, fa_first = 0, rl_bad = 0, rl_first = 0, mm_bad = 0, mm_first = 0, nforg = 0;
  char what[96], fa_what[96] = "", rl_what[96] = "";
  for (u64v i = 0; i < count; i++) {
    u64v idx = first + i;
    gen_vec(&v, seed, idx, maxa, maxx);
    call_t c = {'E', v.k, v.n, v.a, v.m, v.alen, v.mlen};
    res_t r, d;
    do_call(0, &c, &r);
    h = fnv(h, &r.ret, 4), h = fnv(h, &r.len, 8), h = fnv(h, &r.fault, 4), h = fnv(h, r.out, r.outcap);
    int badm = r.fault || !r.inputs_ok || !r.slack_ok;
    int have = !r.fault && r.ret == 0;
    if (have && vd_ops & 1) {
      call_t dc = {'D', v.k, v.n, v.a, r.out, v.alen, v.mlen + 16};
      do_call(0, &dc, &d);
      if (d.fault || d.ret != 0 || d.len != v.mlen || memcmp(d.out, v.m, v.mlen)) {
        if (!rt_bad++) rt_first = idx;
      }
      badm |= d.fault || !d.inputs_ok || !d.slack_ok;
      free(d.out);
    }
    if (have && vd_ops & 2) {     /* a forgery */
      u8v k2[16], n2[16];
      memcpy(k2, v.k, 16), memcpy(n2, v.n, 16), memcpy(a2, v.a, v.alen), memcpy(c2, r.out, v.mlen + 16);
      tamper(&v.s, k2, n2, a2, v.alen, c2, v.mlen + 16, what);
      if (memcmp(k2, v.k, 16) || memcmp(n2, v.n, 16) || memcmp(a2, v.a, v.alen) || memcmp(c2, r.out, v.mlen + 16)) {
        call_t fc = {'D', k2, n2, a2, c2, v.alen, v.mlen + 16};
        nforg++;
        do_call(0, &fc, &d);
        if (!d.fault && d.ret == 0) {
          if (!fa_bad++) fa_first = idx, strcpy(fa_what, what);
        } else {
          int dirty = 0;
          for (size_t q = 0; q < v.mlen; q++) dirty |= d.out[q] != (u8v)vd_fill && d.out[q] != 0;
          if (dirty && !rl_bad++) rl_first = idx, strcpy(rl_what, what);
        }
        badm |= d.fault || !d.inputs_ok || !d.slack_ok;
        free(d.out);
      }
    }
    if (badm && !mm_bad++) mm_first = idx;
    free(r.out);
    if ((i + 1) % chunk == 0 || i + 1 == count) {
      fprintf(vd_out,
              "{\"id\":\"%s\",\"op\":\"bulk\",\"first\":%llu,\"n\":%llu,\"dg\":\"%016llx\",\"rt\":%llu,\"rt1\":%llu,"
              "\"fa\":%llu,\"fa1\":%llu,\"faw\":\"%s\",\"rl\":%llu,\"rl1\":%llu,\"rlw\":\"%s\",\"mm\":%llu,\"mm1\":%llu,\"forg\":%llu}\n",
              id, (ullv)(idx - (i % chunk)), (ullv)(i % chunk + 1), (ullv)h, rt_bad, rt_first, fa_bad, fa_first, fa_what,
              rl_bad, rl_first, rl_what, mm_bad, mm_first, nforg);
      h = 0xcbf29ce484222325ULL;
      rt_bad = fa_bad = rl_bad = mm_bad = nforg = 0;
      fa_what[0] = rl_what[0] = 0;
    }
  }
  free(v.a), free(v.m), free(c2), free(a2);
}

static void bulkh(const char *id, u64v seed, u64v first, u64v count, size_t maxx, u64v chunk) {
  vec_t v;
  v.a = malloc(BMAX), v.m = malloc(BMAX);
  u64v h = 0xcbf29ce484222325ULL;
  ullv mm_bad = 0, mm_first = 0;
  for (u64v i = 0; i < count; i++) {
    gen_vec(&v, seed, first + i, 0, maxx);
    call_t c = {'H', 0, 0, 0, v.m, 0, v.mlen};
    res_t r;
    do_call(0, &c, &r);
    h = fnv(h, &r.ret, 4), h = fnv(h, &r.fault, 4), h = fnv(h, r.out, r.outcap);
    if ((r.fault || !r.inputs_ok || !r.slack_ok) && !mm_bad++) mm_first = first + i;
    free(r.out);
    if ((i + 1) % chunk == 0 || i + 1 == count) {
      fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"bulkh\",\"first\":%llu,\"n\":%llu,\"dg\":\"%016llx\",\"mm\":%llu,\"mm1\":%llu}\n", id,
              (ullv)(first + i - (i % chunk)), (ullv)(i % chunk + 1), (ullv)h, mm_bad, mm_first);
      h = 0xcbf29ce484222325ULL;
      mm_bad = 0;
    }
  }
  free(v.a), free(v.m);
}

/* storm id seed count : forgeries of short inputs, many per genuine input; no protections */
static void storm(const char *id, u64v seed, u64v count) {
  u8v k[16], n[16], a[32], m[32], c[64], k2[16], n2[16], a2[32], c2[64], p[64];
  char what[96] = "", first[96] = "";
  u64v s = seed * 0x9E3779B1ULL + 77, group = 0, tried = 0, acc = 0, rej_gen = 0, dirty = 0;
  u8v fk[16], fn[16], fa[32], fc[64];
  size_t fal = 0, fcl = 0;
  while (tried < count) {
    size_t al = sm(&s) % 20, ml = sm(&s) % 20;
    if (sm(&s) % 4 == 0) al = 0;
    if (sm(&s) % 4 == 0) ml = 0;
    gen_bytes(&s, k, 16), gen_bytes(&s, n, 16), gen_bytes(&s, a, al), gen_bytes(&s, m, ml);
    ullv len = 0;
    if (raw_call('E', c, &len, m, ml, a, al, n, k)) break;
    memset(p, vd_fill, sizeof p);
    if (raw_call('D', p, &len, c, ml + 16, a, al, n, k) || len != ml || memcmp(p, m, ml)) rej_gen++;
    int lim = group % 24 == 5 ? 1100 : group % 6 == 3 ? 280 : 32;
    group++;
    for (int q = 0; q < lim && tried < count; q++) {
      memcpy(k2, k, 16), memcpy(n2, n, 16), memcpy(a2, a, al), memcpy(c2, c, ml + 16);
      if (q % 3 == 0) {           /* any tag */
        for (int z = 0; z < 16; z++) c2[ml + z] = (u8v)sm(&s);
        strcpy(what, "random tag");
      } else
        tamper(&s, k2, n2, a2, al, c2, ml + 16, what);
      if (!memcmp(k2, k, 16) && !memcmp(n2, n, 16) && !memcmp(a2, a, al) && !memcmp(c2, c, ml + 16)) continue;
      tried++;
      memset(p, vd_fill, ml);
      if (raw_call('D', p, &len, c2, ml + 16, a2, al, n2, k2) == 0) {
        if (!acc++) {
          strcpy(first, what);
          memcpy(fk, k2, 16), memcpy(fn, n2, 16), memcpy(fa, a2, al), memcpy(fc, c2, ml + 16), fal = al, fcl = ml + 16;
        }
      } else
        for (size_t z = 0; z < ml; z++)
          if (p[z] != (u8v)vd_fill && p[z] != 0) { dirty++; break; }
    }
    /* the genuine one again, after all those forgeries */
    memset(p, vd_fill, sizeof p);
    if (raw_call('D', p, &len, c, ml + 16, a, al, n, k) || len != ml || memcmp(p, m, ml)) rej_gen++;
  }
  fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"storm\",\"tried\":%llu,\"acc\":%llu,\"rejgen\":%llu,\"dirty\":%llu,\"what\":\"%s\",\"k\":\"", id, (ullv)tried,
          (ullv)acc, (ullv)rej_gen, (ullv)dirty, first);
  if (acc) {
    hexout(fk, 16), fprintf(vd_out, "\",\"n\":\""), hexout(fn, 16), fprintf(vd_out, "\",\"a\":\""), hexout(fa, fal);
    fprintf(vd_out, "\",\"x\":\""), hexout(fc, fcl);
  }
  fprintf(vd_out, "\"}\n");
}

/* mix id seed count pool maxlen mode : a long history of calls drawn from a pool of calls
 * whose components differ little; per pool entry the set of outcomes seen.
 * mode bit 0: vary stack residue, bit 1: vary output content, bit 2: same addresses for all,
 * bit 3: long runs of one call or of calls of one kind, after each run every entry once */
typedef struct {
  char op;
  u8v k[16], n[16];
  u8v *a, *x;
  size_t alen, xlen;
  u64v seen[4];
  int nseen;
  long first[4], calls;
  int last;
} pool_t;
static void mix(const char *id, u64v seed, u64v count, int np, size_t maxlen, int mode, u64v pseed) {
  pool_t *P = calloc(np, sizeof *P);
  u64v s = pseed * 0x51ED27ULL + 5;
  u8v bk[16], bn[16];
  u8v *ba = malloc(maxlen + 64), *bx = malloc(maxlen + 64), *o = malloc(maxlen + 128);
  u8v *A = malloc(maxlen + 64), *X = malloc(maxlen + 128), K[16], N[16];
  size_t bal = 0, bxl = 0;
  for (int i = 0; i < np; i++) {
    pool_t *q = &P[i];
    if (i % 24 == 0) {
      gen_bytes(&s, bk, 16), gen_bytes(&s, bn, 16);
      bal = sm(&s) % (maxlen + 1), bxl = sm(&s) % (maxlen + 1);
      gen_bytes(&s, ba, bal + 1), gen_bytes(&s, bx, bxl + 1);
    }
    memcpy(q->k, bk, 16), memcpy(q->n, bn, 16);
    q->alen = bal, q->xlen = bxl;
    u64v r = sm(&s);
    switch (i % 24 ? r % 9 : 0) {
    case 1: q->k[(r >> 8) % 16] ^= (u8v)(1 << ((r >> 16) % 8)); break;
    case 2: q->n[(r >> 8) % 16] ^= (u8v)(1 << ((r >> 16) % 8)); break;
    case 3: q->alen = (r >> 8) % (bal + 1); break;
    case 4: q->xlen = (r >> 8) % (bxl + 1); break;
    case 5: q->alen = 0; break;
    case 6: q->xlen = 0; break;
    case 7: q->n[15]++; break;
    default: break;
    }
    q->a = malloc(q->alen + 1), q->x = malloc(q->xlen + 32);
    memcpy(q->a, ba, q->alen), memcpy(q->x, bx, q->xlen);
    if (q->alen && (r >> 24) % 5 == 1) q->a[(r >> 32) % q->alen] ^= 0x10;
    if (q->xlen && (r >> 24) % 5 == 2) q->x[(r >> 32) % q->xlen] ^= 0x10;
    q->op = 'E';
#ifdef VD_HASH
    if ((r >> 40) % 8 == 0) q->op = 'H', q->alen = 0;
#endif
    if (q->op == 'E' && (r >> 40) % 8 >= 4) {   /* a decryption, genuine or not */
      ullv l = 0;
      u8v *c = malloc(q->xlen + 64);
      raw_call('E', c, &l, q->x, q->xlen, q->a, q->alen, q->n, q->k);
      memcpy(q->x, c, q->xlen + 16);
      free(c);
      q->xlen += 16, q->op = 'D';
      if ((r >> 40) % 8 == 7) q->x[(r >> 48) % q->xlen] ^= 4;
      if ((r >> 40) % 8 == 6 && (r >> 56) % 4 == 0) q->xlen = (r >> 48) % 16;
    }
  }
  u64v t = seed * 0x9E3779B97F4A7C15ULL + 1, left = 0, run = 0;
  int sweep = 0, cur = 0, kind = 0;
  clock_t began = clock();
  for (u64v i = 0; i < count; i++) {
    u64v r = sm(&t);
    if (mode & 16 && !(i & 255) && count > i + (u64v)np && (double)(clock() - began) / CLOCKS_PER_SEC > 7) count = i + (u64v)np, left = 0, sweep = 0;
    int qi = (int)(r % (u64v)np);
    if (i < (u64v)np) qi = (int)((i * 7 + seed) % (u64v)np);
    if (mode & 8 && i >= (u64v)np) {
      if (left) {
        left--, qi = cur;
        if (kind) {                 /* another entry of the same kind */
          int z = (int)(r % (u64v)np);
          for (int w = 0; w < np; w++, z = (z + 1) % np)
            if (P[z].op == P[cur].op && P[z].last == P[cur].last) { qi = z; break; }
        }
      } else if (sweep < np) qi = sweep++;
      else {
        static const unsigned runs[] = {300, 40, 1100, 20, 300, 4200, 70, 300, 66000};
        left = mode & 16 ? 66000 : runs[run % 9], sweep = 0, kind = mode & 16 ? 0 : (int)(r >> 60) & 1;
        if (left > (count - i) / 2) left = (count - i) / 2;
        /* kinds in turn: accepted and rejected decryptions, encryptions, hashes; rejections most */
        static const char want[] = "RERDRH";
        char c = mode & 16 ? "ERDH"[run % 4] : want[run % 6];
        run++;
        int z = (int)((r >> 20) % (u64v)np);
        for (int w = 0; w < np; w++, z = (z + 1) % np)
          if (c == 'R' ? P[z].op == 'D' && P[z].last : P[z].op == c && !P[z].last) break;
        qi = cur = z;
      }
    }
    pool_t *q = &P[qi];
    if (mode & 1 && (r >> 20) % 4 == 0) smear((r >> 24) % 3 == 0 ? 0x100 : (int)((r >> 32) & 0xff));
    int f = mode & 2 ? (int)((r >> 40) & 0xff) : 0x3c;
    size_t osz = out_size(q->op, q->xlen);
    memset(o, f, osz + 1);
    ullv l = (r >> 50) & 1 ? 0 : 0x1234567812345678ULL;
    const u8v *k = q->k, *n = q->n, *a = q->a, *x = q->x;
    if (mode & 4) {
      memcpy(K, k, 16), memcpy(N, n, 16), memcpy(A, a, q->alen), memcpy(X, x, q->xlen);
      k = K, n = N, a = A, x = X;
    }
    int ret = raw_call(q->op, o, &l, x, q->xlen, a, q->alen, n, k);
    u64v h = 0xcbf29ce484222325ULL;
    int rc = ret != 0;
    q->last = rc;
    h = fnv(h, &rc, 4);
    if (!ret) {
      h = fnv(h, o, osz);
      if (q->op != 'H') h = fnv(h, &l, 8);
    } else {                      /* unchanged or cleared */
      int d = 0;
      for (size_t z = 0; z < osz; z++) d |= o[z] != (u8v)f && o[z] != 0;
      h = fnv(h, &d, 4);
    }
    q->calls++;
    int z = 0;
    while (z < q->nseen && q->seen[z] != h) z++;
    if (z == q->nseen && z < 4) q->seen[z] = h, q->first[z] = (long)i, q->nseen++;
  }
  fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"mix\",\"calls\":%llu,\"pool\":[", id, (ullv)count);
  for (int i = 0; i < np; i++) {
    fprintf(vd_out, "%s{\"op\":\"%c\",\"calls\":%ld,\"seen\":[", i ? "," : "", P[i].op, P[i].calls);
    for (int z = 0; z < P[i].nseen; z++) fprintf(vd_out, "%s\"%016llx\"", z ? "," : "", (ullv)P[i].seen[z]);
    fprintf(vd_out, "],\"first\":%ld}", P[i].nseen > 1 ? P[i].first[1] : -1);
    free(P[i].a), free(P[i].x);
  }
  fprintf(vd_out, "]}\n");
  free(P), free(ba), free(bx), free(o), free(A), free(X);
}

/* ------------------------------------------------------------------ threads */
typedef struct {
  u64v seed;
  unsigned first, step, n, rounds;
  size_t maxa, maxx;
  int hash;
  u64v *ref;                     /* reference digests (written when computing) */
  int compute;
  volatile int *go;
  long bad;
  ullv calls;
} thr_t;
static u64v thr_one(u64v seed, unsigned i, size_t maxa, size_t maxx, int hash, u8v *A, u8v *M, u8v *C, u8v *P) {
  vec_t v;
  ullv len = 0;
  v.a = A, v.m = M;
  gen_vec(&v, seed, i, maxa, maxx);
  u64v h = 0xcbf29ce484222325ULL;
  int r = raw_call('E', C, &len, v.m, v.mlen, v.a, v.alen, v.n, v.k);
  h = fnv(h, &r, 4), h = fnv(h, &len, 8), h = fnv(h, C, v.mlen + 16);
  memset(P, 0x3c, v.mlen + 1);
  len = 0;
  r = raw_call('D', P, &len, C, v.mlen + 16, v.a, v.alen, v.n, v.k);
  h = fnv(h, &r, 4), h = fnv(h, &len, 8), h = fnv(h, P, v.mlen);
  C[v.mlen + (i % 16)] ^= 1;
  memset(P, 0x3c, v.mlen + 1);
  r = raw_call('D', P, &len, C, v.mlen + 16, v.a, v.alen, v.n, v.k) != 0;
  h = fnv(h, &r, 4), h = fnv(h, P, v.mlen);
  if (hash) {
    r = raw_call('H', P, &len, v.m, v.mlen, 0, 0, 0, 0);
    h = fnv(h, &r, 4), h = fnv(h, P, 32);
  }
  return h;
}
static void *thr_main(void *arg) {
  thr_t *t = arg;
  u8v *A = malloc(t->maxa + 64), *M = malloc(t->maxx + 64), *C = malloc(t->maxx + 64), *P = malloc(t->maxx + 64);
  while (t->go && !*t->go) sched_yield();
  t->bad = -1;
  for (unsigned q = 0; q < t->rounds; q++)
    for (unsigned i = t->first; i < t->n; i += t->step) {
      u64v h = thr_one(t->seed, i, t->maxa, t->maxx, t->hash, A, M, C, P);
      t->calls++;
      if (t->compute) t->ref[i] = h;
      else if (t->ref[i] != h && t->bad < 0) t->bad = i;
    }
  free(A), free(M), free(C), free(P);
  return 0;
}
static void threads(const char *id, u64v seed, int nt, unsigned n, unsigned rounds, size_t maxa, size_t maxx) {
  u64v *ref = calloc(n, 8);
#ifdef VD_HASH
  int hash = 1;
#else
  int hash = 0;
#endif
  thr_t seq = {seed, 0, 1, n, 1, maxa, maxx, hash, ref, 1, 0, -1, 0};
  thr_main(&seq);
  pthread_t th[64];
  thr_t ctx[64];
  volatile int go = 0;
  for (int i = 0; i < nt; i++) {
    thr_t t = {seed, (unsigned)i % 2 ? (unsigned)i % n : 0, 1, n, rounds, maxa, maxx, hash, ref, 0, &go, -1, 0};
    ctx[i] = t;
    pthread_create(&th[i], 0, thr_main, &ctx[i]);
  }
  go = 1;
  long bad = -1;
  ullv calls = 0;
  for (int i = 0; i < nt; i++) {
    pthread_join(th[i], 0);
    calls += ctx[i].calls;
    if (ctx[i].bad >= 0) bad = ctx[i].bad;
  }
  fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"thr\",\"threads\":%d,\"calls\":%llu,\"bad\":%ld}\n", id, nt, calls, bad);
  free(ref);
}

/* ------------------------------------------------------------------ preemption */
static call_t pi_inner;
static volatile long pi_count;          /* opportunities seen */
#define NPOINTS 65536
static long pi_points[NPOINTS];
static volatile int pi_np, pi_ip, pi_ran, pi_busy;
static res_t pi_res;
static volatile int pi_same;            /* all inner outcomes identical to the reference */
static res_t pi_ref;

static int same_res(const res_t *a, const res_t *b) {
  return a->ret == b->ret && a->fault == b->fault && a->len == b->len && a->outcap == b->outcap &&
         a->inputs_ok == b->inputs_ok && a->slack_ok == b->slack_ok && !memcmp(a->out, b->out, a->outcap);
}
static void pi_open(void);
static void run_inner(void) {
  sigjmp_buf save;
  memcpy(save, vd_jmp, sizeof save);
  int armed = vd_armed, st = vd_stack;
  vd_stack = -1;
  pi_busy = 1;
  pi_open();
  do_call(1, &pi_inner, &pi_res);
  pi_busy = 0;
  if (!same_res(&pi_res, &pi_ref)) pi_same = 0;
  free(pi_res.out);
  pi_ran++;
  vd_stack = st;
  vd_armed = armed;
  memcpy(vd_jmp, save, sizeof save);
}
static void opportunity(void) {
  long n = pi_count++;
  if (pi_ip < pi_np && pi_points[pi_ip] == n) {
    pi_ip++;
    run_inner();
  }
}

/* writable static storage of the implementation, when the build moved it to its own section */
extern u8v __start_vdstate __attribute__((weak));
extern u8v __stop_vdstate __attribute__((weak));
#ifdef VD_STATE
__attribute__((section("vdstate"), aligned(PAGE), used)) u8v vd_state_head[PAGE] = {1};
#endif
static u8v *g_lo, *g_hi, *g_first;  /* g_first: the content it has when a process starts */
static void g_prot(int pr) {
  if (g_hi > g_lo) mprotect(g_lo, g_hi - g_lo, pr);
}

static void pi_open(void) { g_prot(PROT_READ | PROT_WRITE); }
#if defined(__x86_64__)
/* single stepping: every instruction of the call is an interruption point */
static volatile int tf_on, tf_glob;
static inline void tf_set(void) {
  __asm__ volatile("pushfq\n\torq $0x100,(%%rsp)\n\tpopfq" ::: "cc", "memory");
}
static inline void tf_clr(void) {
  __asm__ volatile("pushfq\n\tandq $-257,(%%rsp)\n\tpopfq" ::: "cc", "memory");
}
static void step_hook(int sig, siginfo_t *si, ucontext_t *uc) {
  if (sig == SIGTRAP && tf_on && !pi_busy) {
    opportunity();
    vd_hook_done = 1;
  }
}
/* protected static storage: every access of the implementation to its writable
 * static objects is an interruption point (before and after the access) */
static void glob_hook(int sig, siginfo_t *si, ucontext_t *uc) {
  uintptr_t ad = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && ad >= (uintptr_t)g_lo && ad < (uintptr_t)g_hi && !pi_busy) {
    g_prot(PROT_READ | PROT_WRITE);
    opportunity();
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
    tf_glob = 1;
    vd_hook_done = 1;
  } else if (sig == SIGTRAP && tf_glob && !pi_busy) {
    tf_glob = 0;
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    opportunity();
    g_prot(PROT_NONE);
    vd_hook_done = 1;
  }
}
#else
/* one access interruption per arming (the page is opened afterwards) */
static void glob_hook(int sig, siginfo_t *si, ucontext_t *uc) {
  uintptr_t ad = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && ad >= (uintptr_t)g_lo && ad < (uintptr_t)g_hi && !pi_busy) {
    g_prot(PROT_READ | PROT_WRITE);
    opportunity();
    vd_hook_done = 1;
  }
}
#endif
/* pages of a buffer: the first touch of each is an interruption point */
static u8v *pg_lo, *pg_hi;
static int pg_prot;
static void page_hook(int sig, siginfo_t *si, ucontext_t *uc) {
  uintptr_t ad = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && ad >= (uintptr_t)pg_lo && ad < (uintptr_t)pg_hi && !pi_busy) {
    mprotect((void *)(ad & ~(uintptr_t)(PAGE - 1)), PAGE, pg_prot);
    opportunity();
    vd_hook_done = 1;
  }
}
static volatile int tm_on;
static void wt_look(void);
static unsigned tm_usec;
/* one shot: an interval shorter than a look and its delivery would leave the call no time */
static void tm_again(void) {
  struct itimerval it = {{0, 0}, {0, tm_usec}};
  setitimer(ITIMER_REAL, &it, 0);
}
static void on_alarm(int sig) {
  int e = errno;
  if (tm_on == 3 && vd_armed) {
    wt_look();
    tm_again();
    errno = e;
    return;
  }
  if (tm_on && vd_armed && !pi_busy) {
    g_prot(PROT_READ | PROT_WRITE);
    opportunity();
    if (tm_on == 2) g_prot(PROT_NONE);
  }
  errno = e;
}

/* raw outer call on arena 0 without the protections of do_call */
static void outer_call(char mode, const call_t *c, res_t *r, char pbuf, unsigned usec) {
  size_t osz = out_size(c->op, c->xlen), sz[NB] = {16, 16, c->alen, c->xlen, osz, 8};
  u8v *p[NB];
  for (int b = 0; b < NB; b++) p[b] = buf_addr(&vd_ar[0].b[b], sz[b]);
  const u8v *src[NB] = {c->k, c->n, c->a, c->x, 0, 0};
  if (c->op == 'H') src[BK] = src[BN] = src[BA] = 0;
  for (int b = 0; b <= BX; b++)
    if (src[b] && sz[b]) memcpy(p[b], src[b], sz[b]);
  if (osz) memset(p[BO], vd_fill, osz);
  ullv *lp = (ullv *)(void *)((uintptr_t)p[BL] & ~(uintptr_t)7);
  *lp = 0;
  memset(r, 0, sizeof *r);
  r->inputs_ok = r->slack_ok = 1;
  r->outcap = osz;
  pi_count = 0, pi_ip = 0, pi_ran = 0, pi_same = 1;
  struct itimerval it = {{0, usec}, {0, usec}}, off = {{0, 0}, {0, 0}};
  int pb = pbuf ? (int)(strchr(vd_names, pbuf) - vd_names) : -1;
  if (mode == 'p') {
    pg_lo = (u8v *)page_lo(p[pb]), pg_hi = (u8v *)page_hi(p[pb] + sz[pb]);
    pg_prot = pb == BO ? PROT_READ | PROT_WRITE : PROT_READ;
    vd_hook = page_hook;
    if (pg_hi > pg_lo) mprotect(pg_lo, pg_hi - pg_lo, PROT_NONE);
  }
  vd_armed = 1;
  if (sigsetjmp(vd_jmp, 1) == 0) {
    switch (mode) {
#if defined(__x86_64__)
    case 's':
      vd_hook = step_hook, tf_on = 1;
      tf_set();
      r->ret = raw_call(c->op, p[BO], lp, p[BX], c->xlen, p[BA], c->alen, p[BN], p[BK]);
      tf_clr();
      tf_on = 0;
      break;
#endif
    case 'g':
      vd_hook = glob_hook;
      g_prot(PROT_NONE);
      r->ret = raw_call(c->op, p[BO], lp, p[BX], c->xlen, p[BA], c->alen, p[BN], p[BK]);
      g_prot(PROT_READ | PROT_WRITE);
      break;
    case 'u':                     /* timer + protected static storage */
      vd_hook = glob_hook, tm_on = 2;
      g_prot(PROT_NONE);
      setitimer(ITIMER_REAL, &it, 0);
      r->ret = raw_call(c->op, p[BO], lp, p[BX], c->xlen, p[BA], c->alen, p[BN], p[BK]);
      tm_on = 0;
      setitimer(ITIMER_REAL, &off, 0);
      g_prot(PROT_READ | PROT_WRITE);
      break;
    case 't':
      tm_on = 1;
      setitimer(ITIMER_REAL, &it, 0);
      r->ret = raw_call(c->op, p[BO], lp, p[BX], c->xlen, p[BA], c->alen, p[BN], p[BK]);
      tm_on = 0;
      setitimer(ITIMER_REAL, &off, 0);
      break;
    default:
      r->ret = raw_call(c->op, p[BO], lp, p[BX], c->xlen, p[BA], c->alen, p[BN], p[BK]);
    }
    vd_armed = 0;
  } else {
    tm_on = 0;
    setitimer(ITIMER_REAL, &off, 0);
    g_prot(PROT_READ | PROT_WRITE);
#if defined(__x86_64__)
    tf_on = tf_glob = 0;
    tf_clr();
#endif
    r->fault = 1, r->fsig = vd_fsig, r->fbuf = -1, r->fwrite = vd_fwrite;
  }
  vd_hook = 0;
  if (mode == 'p') {
    mprotect(pg_lo, pg_hi - pg_lo, PROT_READ | PROT_WRITE);
  }
  r->len = *lp;
  r->out = malloc(osz + 1);
  if (osz) memcpy(r->out, p[BO], osz);
}

/* pre id MODE arg OUTER... / INNER... / points
 * MODE s (single step) g (static storage) f (the same, static storage as a new process has it) p:<buf> t:<usec> u:<usec> 0 (plain)
 * prints outer result, opportunities, inner runs, whether every inner run was as alone */
static void preempt(const char *id, char **sv) {
  char *m = tok(sv), mode = m[0], pbuf = 0;
  unsigned usec = 0;
  if (mode == 'p') pbuf = m[2];
  if (mode == 't' || mode == 'u') usec = (unsigned)atoi(m + 2);
  call_t o;
  parse_call(tok(sv)[0], sv, &o);
  parse_call(tok(sv)[0], sv, &pi_inner);
  pi_np = 0;
  char *t;
  while ((t = tok(sv)) && pi_np < NPOINTS) {
    char *dash = strchr(t, ':');
    if (dash) {                   /* a:b:step range */
      long a = atol(t), b = atol(dash + 1), s = 1;
      char *d2 = strchr(dash + 1, ':');
      if (d2) s = atol(d2 + 1);
      for (; a < b && pi_np < NPOINTS; a += s) pi_points[pi_np++] = a;
    } else
      pi_points[pi_np++] = atol(t);
  }
  do_call(1, &pi_inner, &pi_ref);
  if (mode == 'f') {              /* the first calls of a process */
    if (g_first) memcpy(g_lo, g_first, g_hi - g_lo);
    mode = 'g';
  }
  res_t r;
  outer_call(mode, &o, &r, pbuf, usec);
  char ex[160];
  sprintf(ex, ",\"opps\":%ld,\"ran\":%d,\"isame\":%d", pi_count, pi_ran, pi_same);
  print_res(id, &o, &r, ex);
  free(r.out), free(pi_ref.out);
  free_call(&o), free_call(&pi_inner);
}

/* ------------------------------------------------------------------ single-step traces */
#if defined(__x86_64__)
static FILE *tr_f;
static u64v tr_h, tr_n;
static int tr_full;
static uintptr_t tr_base;
extern char __executable_start[];
static void trace_hook(int sig, siginfo_t *si, ucontext_t *uc) {
  if (sig != SIGTRAP || !tf_on) return;
  greg_t *g = uc->uc_mcontext.gregs;
  u64v pc = (u64v)g[REG_RIP] - tr_base;
  tr_h = (tr_h ^ pc) * 0x100000001B3ULL;
  tr_n++;
  if (tr_full) {
    static const int order[16] = {REG_RAX, REG_RCX, REG_RDX, REG_RBX, REG_RSP, REG_RBP, REG_RSI, REG_RDI,
                                  REG_R8,  REG_R9,  REG_R10, REG_R11, REG_R12, REG_R13, REG_R14, REG_R15};
    u64v rec[17];
    rec[0] = pc;
    for (int i = 0; i < 16; i++) rec[i + 1] = (u64v)g[order[i]];
    fwrite(rec, 8, 17, tr_f);
  }
  vd_hook_done = 1;
}
/* step id full|pc FILE CALL : instruction trace of one call */
static void steptrace(const char *id, char **sv) {
  char *m = tok(sv), *fn = tok(sv);
  call_t c;
  parse_call(tok(sv)[0], sv, &c);
  size_t osz = out_size(c.op, c.xlen), sz[NB] = {16, 16, c.alen, c.xlen, osz, 8};
  u8v *p[NB];
  for (int b = 0; b < NB; b++) p[b] = buf_addr(&vd_ar[0].b[b], sz[b]);
  const u8v *src[NB] = {c.k, c.n, c.a, c.x, 0, 0};
  if (c.op == 'H') src[BK] = src[BN] = src[BA] = 0;
  for (int b = 0; b <= BX; b++)
    if (src[b] && sz[b]) memcpy(p[b], src[b], sz[b]);
  ullv *lp = (ullv *)(void *)((uintptr_t)p[BL] & ~(uintptr_t)7);
  tr_full = m[0] == 'f';
  tr_f = tr_full ? fopen(fn, "wb") : 0;
  tr_h = 0xcbf29ce484222325ULL, tr_n = 0;
  tr_base = (uintptr_t)__executable_start;
  res_t r;
  memset(&r, 0, sizeof r);
  r.outcap = osz, r.inputs_ok = r.slack_ok = 1;
  vd_armed = 1;
  if (sigsetjmp(vd_jmp, 1) == 0) {
    vd_hook = trace_hook, tf_on = 1;
    tf_set();
    r.ret = raw_call(c.op, p[BO], lp, p[BX], c.xlen, p[BA], c.alen, p[BN], p[BK]);
    tf_clr();
    tf_on = 0;
    vd_armed = 0;
  } else {
    tf_on = 0;
    tf_clr();
    r.fault = 1, r.fsig = vd_fsig, r.fbuf = -1;
  }
  vd_hook = 0;
  if (tr_f) fclose(tr_f);
  r.len = *lp;
  r.out = malloc(osz + 1);
  if (osz) memcpy(r.out, p[BO], osz);
  char ex[200];
  sprintf(ex, ",\"n\":%llu,\"h\":\"%016llx\"", (ullv)tr_n, (ullv)tr_h);
  print_res(id, &c, &r, ex);
  free(r.out);
  free_call(&c);
}
#endif

/* ------------------------------------------------------------------ transient output */
/* watch id CALL : a rejecting decryption with the output pages write protected; every
 * store to them is single stepped and the buffer compared with its initial content.
 * Reports the number of stores and how many left bytes that are neither old nor zero. */
#if defined(__x86_64__)
static u8v *wt_lo, *wt_hi, *wt_out;
static size_t wt_len;
static volatile int wt_step;
static long wt_stores, wt_dirty;
static void watch_hook(int sig, siginfo_t *si, ucontext_t *uc) {
  uintptr_t ad = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && ad >= (uintptr_t)wt_lo && ad < (uintptr_t)wt_hi) {
    mprotect(wt_lo, wt_hi - wt_lo, PROT_READ | PROT_WRITE);
    uc->uc_mcontext.gregs[REG_EFL] |= 0x100;
    wt_step = 1;
    vd_hook_done = 1;
  } else if (sig == SIGTRAP && wt_step) {
    wt_step = 0;
    uc->uc_mcontext.gregs[REG_EFL] &= ~0x100L;
    wt_stores++;
    int d = 0;
    for (size_t i = 0; i < wt_len; i++) d |= wt_out[i] != (u8v)vd_fill && wt_out[i] != 0;
    wt_dirty += d;
    mprotect(wt_lo, wt_hi - wt_lo, PROT_READ);
    vd_hook_done = 1;
  }
}
#else
static u8v *wt_lo, *wt_hi, *wt_out;
static size_t wt_len;
static long wt_stores, wt_dirty;
static void wt_look(void);
/* without single stepping: the first store to each page opens it */
static void watch_hook(int sig, siginfo_t *si, ucontext_t *uc) {
  uintptr_t ad = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV && ad >= (uintptr_t)wt_lo && ad < (uintptr_t)wt_hi) {
    wt_look();
    mprotect((void *)(ad & ~(uintptr_t)(PAGE - 1)), PAGE, PROT_READ | PROT_WRITE);
    wt_stores++;
    vd_hook_done = 1;
  }
}
#endif
static long wt_looks;
static volatile int wt_on;
static void wt_look(void) {
  if (!wt_on) return;
  wt_looks++;
  int d = 0;
  for (size_t i = 0; i < wt_len; i++) d |= wt_out[i] != (u8v)vd_fill && wt_out[i] != 0;
  wt_dirty += d;
}
/* first touch of an input page: look at the output, open the page */
static u8v *wi_lo[4], *wi_hi[4];
static void watch_all(int sig, siginfo_t *si, ucontext_t *uc) {
  uintptr_t ad = (uintptr_t)si->si_addr;
  if (sig == SIGSEGV)
    for (int b = 0; b < 4; b++)
      if (ad >= (uintptr_t)wi_lo[b] && ad < (uintptr_t)wi_hi[b]) {
        wt_look();
        mprotect((void *)(ad & ~(uintptr_t)(PAGE - 1)), PAGE, PROT_READ);
        vd_hook_done = 1;
        return;
      }
  watch_hook(sig, si, uc);
}
static void watch(const char *id, char **sv) {
  unsigned usec = (unsigned)atoi(tok(sv));
  call_t c;
  parse_call(tok(sv)[0], sv, &c);
  size_t osz = out_size(c.op, c.xlen), sz[NB] = {16, 16, c.alen, c.xlen, osz, 8};
  u8v *p[NB];
  for (int b = 0; b < NB; b++) p[b] = buf_addr(&vd_ar[0].b[b], sz[b]);
  const u8v *src[NB] = {c.k, c.n, c.a, c.x, 0, 0};
  for (int b = 0; b <= BX; b++)
    if (src[b] && sz[b]) memcpy(p[b], src[b], sz[b]);
  if (osz) memset(p[BO], vd_fill, osz);
  ullv *lp = (ullv *)(void *)((uintptr_t)p[BL] & ~(uintptr_t)7);
  *lp = 0;
  wt_out = p[BO], wt_len = osz, wt_stores = wt_dirty = 0;
  wt_lo = (u8v *)page_lo(p[BO]), wt_hi = (u8v *)page_hi(p[BO] + osz);
  if (wt_hi > wt_lo) mprotect(wt_lo, wt_hi - wt_lo, PROT_READ);
  res_t r;
  memset(&r, 0, sizeof r);
  r.outcap = osz, r.inputs_ok = r.slack_ok = 1;
  for (int b = 0; b < 4; b++) {
    wi_lo[b] = wi_hi[b] = 0;
    if (p[b] && sz[b]) {
      wi_lo[b] = (u8v *)page_lo(p[b]), wi_hi[b] = (u8v *)page_hi(p[b] + sz[b]);
      mprotect(wi_lo[b], wi_hi[b] - wi_lo[b], PROT_NONE);
    }
  }
  struct itimerval off = {{0, 0}, {0, 0}};
  tm_usec = usec;
  wt_looks = 0;
  vd_hook = watch_all;
  wt_on = 1;
  vd_armed = 1;
  if (sigsetjmp(vd_jmp, 1) == 0) {
    if (usec) tm_on = 3, tm_again();
    r.ret = raw_call(c.op, p[BO], lp, p[BX], c.xlen, p[BA], c.alen, p[BN], p[BK]);
    vd_armed = 0;
  } else
    r.fault = 1, r.fsig = vd_fsig, r.fbuf = -1, r.fwrite = vd_fwrite;
  tm_on = 0;
  wt_on = 0;
  setitimer(ITIMER_REAL, &off, 0);
  vd_hook = 0;
  for (int b = 0; b < 4; b++)
    if (wi_hi[b] > wi_lo[b]) mprotect(wi_lo[b], wi_hi[b] - wi_lo[b], PROT_READ | PROT_WRITE);
  if (wt_hi > wt_lo) mprotect(wt_lo, wt_hi - wt_lo, PROT_READ | PROT_WRITE);
  r.len = *lp;
  r.out = malloc(osz + 1);
  if (osz) memcpy(r.out, p[BO], osz);
  char ex[120];
  sprintf(ex, ",\"stores\":%ld,\"dirty\":%ld,\"looks\":%ld", wt_stores, wt_dirty, wt_looks);
  print_res(id, &c, &r, ex);
  free(r.out);
  free_call(&c);
}

/* ------------------------------------------------------------------ length probes */
static sigjmp_buf lp_jmp;
static volatile int lp_armed;
static void on_lp_alarm(int s) {
  if (lp_armed) { lp_armed = 0; siglongjmp(lp_jmp, 1); }
}
/* a huge buffer: reserve `want` bytes, the first `have` of them backed by one small
 * object mapped again and again */
static u8v *alias_map(u64v want, u64v have, int fd, size_t unit) {
  u8v *base = mmap(0, (size_t)want + unit, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (base == MAP_FAILED) return 0;
  for (u64v o = 0; o < want; o += unit) {
    if (o >= have && o + 2 * unit < want) o = (want / unit - 1) * unit; /* the last pages exist, too */
    if (mmap(base + o, unit, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) return 0;
  }
  return base;
}
static void pattern(u8v *p, size_t n, u64v s) {
  for (size_t i = 0; i + 8 <= n; i += 8) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    u64v z = s ^ (s >> 29);
    memcpy(p + i, &z, 8);
  }
}
/* sens id OP alen xlen k n [a|x]pos ...: does the result depend on these bytes of a long input? */
static void senscall(const char *id, char **sv) {
  char op = tok(sv)[0];
  size_t al = strtoull(tok(sv), 0, 0), xl = strtoull(tok(sv), 0, 0), n0;
  u8v *k = unhex(tok(sv), &n0), *n = unhex(tok(sv), &n0);
  u8v *a = malloc(al + 16), *x = malloc(xl + 16), *c = malloc(xl + 64), *c2 = malloc(xl + 64), *m = malloc(xl + 64);
  ullv cl = 0, ml = 0;
  pattern(a, al + 8, 3), pattern(x, xl + 8, 5);
  volatile int r1 = 99, r2 = 0, good = 1, fault = 0, nf = 0;
  u64v dg = 1469598103934665603ull;
  char *p;
  static char pos[64][32];
  volatile int same[64], acc[64];
  while (nf < 64 && (p = strtok_r(0, " \t\n", sv)) != 0) snprintf(pos[nf], 32, "%s", p), same[nf] = acc[nf] = 0, nf++;
  vd_armed = 1;
  if (sigsetjmp(vd_jmp, 1) == 0) {
    vd_calls++;
    r1 = raw_call(op, c, &cl, x, xl, a, al, n, k);
    size_t ol = op == 'H' ? 32 : xl + 16;
    for (size_t i = 0; i < ol; i++) dg = (dg ^ c[i]) * 1099511628211ull;
    if (op != 'H') {
      memset(m, 0xa5, xl + 64);
      vd_calls++;
      r2 = raw_call('D', m, &ml, c, xl + 16, a, al, n, k);
      good = r2 == 0 && ml == xl && cl == xl + 16 && !memcmp(m, x, xl);
    }
    for (int f = 0; f < nf; f++) {
      u8v *b = pos[f][0] == 'a' ? a : x;
      size_t at = strtoull(pos[f] + 1, 0, 0);
      b[at] ^= 0x10;
      vd_calls++;
      raw_call(op, c2, &cl, x, xl, a, al, n, k);
      same[f] = op == 'H' ? !memcmp(c, c2, 32) : !memcmp(c + xl, c2 + xl, 16);
      if (op != 'H') {
        if (b == x) c[at] ^= 0x10;
        vd_calls++;
        acc[f] = raw_call('D', m, &ml, c, xl + 16, a, al, n, k) == 0;
        if (b == x) c[at] ^= 0x10;
      }
      b[at] ^= 0x10;
    }
  } else
    fault = vd_fsig;
  vd_armed = 0;
  fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"sens\",\"fault\":%d,\"ret\":%d,\"good\":%d,\"dg\":\"%016llx\",\"flips\":[", id, fault, r1, good, (ullv)dg);
  for (int f = 0; f < nf; f++) fprintf(vd_out, "%s[\"%s\",%d,%d]", f ? "," : "", pos[f], same[f], acc[f]);
  fprintf(vd_out, "]}\n");
  free(a), free(x), free(c), free(c2), free(m), free(k), free(n);
}
/* full id xlen k n a: encrypts a long message, then decrypts the result (64-bit only) */
static void fullcall(const char *id, char **sv) {
  u64v xl = strtoull(tok(sv), 0, 0);
  size_t n0, al;
  u8v *k = unhex(tok(sv), &n0), *n = unhex(tok(sv), &n0), *a = unhex(tok(sv), &al);
  size_t unit = (4u << 20) - 3 * PAGE;
  int fd = syscall(SYS_memfd_create, "a", 0), fo = syscall(SYS_memfd_create, "o", 0);
  if (sizeof(void *) < 8 || fd < 0 || fo < 0 || ftruncate(fd, unit) || ftruncate(fo, unit)) { fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"full\",\"skip\":1}\n", id); return; }
  u8v *x = alias_map(xl + 64, ~(u64v)0 >> 1, fd, unit), *o = alias_map(xl + 64, ~(u64v)0 >> 1, fo, unit);
  u8v *c = mmap(0, xl + 16 + PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (!x || !o || c == MAP_FAILED) { fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"full\",\"skip\":1}\n", id); return; }
  pattern(x, unit, 2);
  memset(o, 0xa5, unit);
  ullv cl = 0, ml = 0;
  volatile int re = 99, rd = 99, fault = 0, flip = 99;
  vd_armed = 1;
  if (sigsetjmp(vd_jmp, 1) == 0) {
    re = raw_call('E', c, &cl, x, xl, a, al, n, k);
    rd = raw_call('D', o, &ml, c, xl + 16, a, al, n, k);
  } else
    fault = vd_fsig;
  vd_armed = 0;
  /* the output is aliased, too: it must hold one whole period of the message */
  size_t same = 0;
  while (same < unit && o[same] == x[same]) same++;
  u64v dg = 1469598103934665603ull;
  if (!fault)
    for (u64v i = 0; i + 8 <= xl + 16; i += 8) {
      u64v z;
      memcpy(&z, c + i, 8);
      dg = (dg ^ z) * 1099511628211ull;
    }
  fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"full\",\"skip\":0,\"fault\":%d,\"re\":%d,\"rd\":%d,\"cl\":\"%llx\",\"ml\":\"%llx\",\"same\":%d,\"dg\":\"%016llx\",\"out\":\"", id, fault, re, rd, cl, ml,
          same == unit, (ullv)dg);
  if (!fault) hexout(c + xl - 16, 32);
  fprintf(vd_out, "\"}\n");
  munmap(x, xl + 64 + unit), munmap(o, xl + 64 + unit), munmap(c, xl + 16 + PAGE);
  close(fd), close(fo);
  free(k), free(n), free(a);
}
/* long id OP alen xlen ms k n [first bytes of x hex]: lengths in decimal; everything else zero bytes.
 * Reports whether the call came back within ms milliseconds, or how far it got. */
static void longcall(const char *id, char **sv) {
  char op = tok(sv)[0];
  u64v al = strtoull(tok(sv), 0, 0), xl = strtoull(tok(sv), 0, 0);
  unsigned ms = (unsigned)atoi(tok(sv));
  size_t n0;
  u8v *k = unhex(tok(sv), &n0), *n = unhex(tok(sv), &n0);
  u8v *a0, *x0;
  size_t a0n, x0n;
  a0 = unhex(tok(sv), &a0n), x0 = unhex(tok(sv), &x0n);
  size_t unit = (4u << 20) - 3 * PAGE; /* not a power of two: a wrapped position is a different byte */
  u64v have = sizeof(void *) == 8 ? ((u64v)1 << 32) + (1u << 28) : (u64v)400 << 20;
  int fd = syscall(SYS_memfd_create, "a", 0), fo = syscall(SYS_memfd_create, "o", 0);
  if (fd < 0 || fo < 0 || ftruncate(fd, unit) || ftruncate(fo, unit)) { fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"long\",\"skip\":1}\n", id); return; }
  u64v ol = op == 'E' ? xl + 16 : op == 'D' ? (sizeof(void *) == 8 && xl > 16 ? xl - 16 : 64) : 32;
  u8v *a = alias_map(al + 64, have, fd, unit), *x = alias_map(xl + 64, have, fd, unit), *o = alias_map(ol + 64, have, fo, unit);
  ullv len = 0;
  if (!a || !x || !o) { fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"long\",\"skip\":1}\n", id); goto done; }
  memset(o, vd_fill, ol + 64 < unit ? ol + 64 : unit);
  pattern(a, unit, 1), pattern(x, unit, 2); /* one object: the second pattern stays */
  /* the first bytes of the inputs are private pages with chosen content */
  mmap(a, PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  mmap(x, PAGE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED, -1, 0);
  memcpy(a, a0, a0n), memcpy(x, x0, x0n);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_lp_alarm;
  sigaction(SIGVTALRM, &sa, 0); /* the call's own processor time */
  struct itimerval it = {{0, 0}, {ms / 1000, (ms % 1000) * 1000}}, off = {{0, 0}, {0, 0}};
  volatile int ret = 0, state = 0; /* 0 returned 1 still running 2 fault */
  struct timespec t1, t2;
  clock_gettime(CLOCK_MONOTONIC, &t1);
  if (sigsetjmp(lp_jmp, 1) == 0) {
    vd_armed = 1;
    if (sigsetjmp(vd_jmp, 1) == 0) {
      lp_armed = 1;
      if (ms) setitimer(ITIMER_VIRTUAL, &it, 0);
      ret = raw_call(op, o, &len, x, xl, a, al, n, k);
      lp_armed = 0;
    } else
      lp_armed = 0, state = 2;
  } else
    state = 1;
  vd_armed = 0;
  setitimer(ITIMER_VIRTUAL, &off, 0);
  clock_gettime(CLOCK_MONOTONIC, &t2);
  /* how much of the (aliased) output was written */
  size_t prog = 0, lim = ol < unit ? (size_t)ol : unit;
  for (size_t i = lim; i > 0; i--)
    if (o[i - 1] != (u8v)vd_fill) { prog = i; break; }
  long el = (t2.tv_sec - t1.tv_sec) * 1000 + (t2.tv_nsec - t1.tv_nsec) / 1000000;
  uintptr_t fa = vd_faddr;
  int wild = state == 2 && !(fa - (uintptr_t)a < al + 64 + unit || fa - (uintptr_t)x < xl + 64 + unit || fa - (uintptr_t)o < ol + 64 + unit);
  u64v dg = 1469598103934665603ull; /* everything written, and the last bytes of the output */
  for (size_t i = 0; i < unit; i++) dg = (dg ^ o[i]) * 1099511628211ull;
  fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"long\",\"wild\":%d,\"dg\":\"%016llx\",\"skip\":0,\"lop\":\"%c\",\"state\":%d,\"ret\":%d,\"len\":\"%llx\",\"prog\":%zu,\"ms\":%ld,\"fsig\":%d,\"out\":\"", id, wild, (ullv)dg, op, state, ret, len,
          prog, el, state == 2 ? vd_fsig : 0);
  if (state == 0 && ol >= 64) hexout(o + ol - 32, 32); /* the end of the output */
  else hexout(o, lim < 64 ? lim : 64);
  fprintf(vd_out, "\"}\n");
done:
  if (a) munmap(a, al + 64 + unit);
  if (x) munmap(x, xl + 64 + unit);
  if (o) munmap(o, ol + 64 + unit);
  close(fd), close(fo);
  free(k), free(n), free(a0), free(x0);
}

/* ------------------------------------------------------------------ main */
int main(int argc, char **argv) {
  if (argc < 3) return 3;
  FILE *in = fopen(argv[1], "r");
  vd_out = fopen(argv[2], "w");
  if (!in || !vd_out) { perror("open"); return 3; }
  setvbuf(vd_out, malloc(1 << 20), _IOFBF, 1 << 20);
  for (int a = 0; a < 2; a++)
    for (int b = 0; b < NB; b++) buf_init(&vd_ar[a].b[b]);
  {
    size_t tot = 8 * CAP;
    vd_packbase = mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  }
  install(SIGSEGV), install(SIGBUS), install(SIGILL), install(SIGFPE), install(SIGTRAP), install(SIGABRT);
  struct sigaction sa;
  memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_alarm;
  sa.sa_flags = SA_RESTART;
  sigaction(SIGALRM, &sa, 0);
  sa.sa_handler = on_prof;
  sigaction(SIGPROF, &sa, 0);
  struct itimerval wd = {{1, 0}, {1, 0}};
  setitimer(ITIMER_PROF, &wd, 0);
  if (&__start_vdstate && &__stop_vdstate) {
    g_lo = &__start_vdstate + PAGE;
    g_hi = (u8v *)page_lo(&__stop_vdstate);
    if (g_hi > g_lo) g_first = malloc(g_hi - g_lo), memcpy(g_first, g_lo, g_hi - g_lo);
  }
  fprintf(vd_out, "{\"id\":\"info\",\"op\":\"info\",\"marker\":\"%lx\",\"state_bytes\":%ld}\n", (unsigned long)vd_marker,
          (long)(g_hi - g_lo));
  size_t cap = 0;
  char *line = 0;
  while (getline(&line, &cap, in) > 0) {
    char *sv, *cmd = strtok_r(line, " \n", &sv);
    if (!cmd || cmd[0] == '#') continue;
    if (!strcmp(cmd, "place")) {
      char *b = tok(&sv), *m = tok(&sv);
      for (int i = 0; i < 2; i++) {
        buf_t *q = &vd_ar[i].b[strchr(vd_names, b[0]) - vd_names];
        q->mode = m[0];
        q->off = m[1] ? (unsigned)atoi(m + 1) : 0;
      }
    } else if (!strcmp(cmd, "pack")) {
      char *o = tok(&sv);
      if (!strcmp(o, "off")) vd_pack[0] = 0;
      else strcpy(vd_pack, o), vd_gap = (unsigned)atoi(tok(&sv)), vd_packoff = (unsigned)atoi(tok(&sv));
    } else if (!strcmp(cmd, "grid")) {
      char *m = tok(&sv);
      vd_grid = strcmp(m, "off") != 0;
      if (vd_grid) {
        vd_ga0 = (size_t)atol(m), vd_gan = (size_t)atol(tok(&sv)), vd_gas = (size_t)atol(tok(&sv));
        vd_gx0 = (size_t)atol(tok(&sv)), vd_gxn = (size_t)atol(tok(&sv)), vd_gxs = (size_t)atol(tok(&sv));
      }
    } else if (!strcmp(cmd, "fill")) vd_fill = (int)strtol(tok(&sv), 0, 16);
    else if (!strcmp(cmd, "stack")) {
      char *m = tok(&sv);
      vd_stack = !strcmp(m, "off") ? -1 : (int)strtol(m, 0, 16);
    } else if (!strcmp(cmd, "ops")) vd_ops = atoi(tok(&sv));
    else if (!strcmp(cmd, "limit")) {  /* 0: no watchdog, no signals */
      vd_limit = (unsigned)atoi(tok(&sv));
      if (!vd_limit) {
        struct itimerval no = {{0, 0}, {0, 0}};
        setitimer(ITIMER_PROF, &no, 0);
      }
    }
    else if (!strcmp(cmd, "ro")) vd_ro = atoi(tok(&sv));
    else if (!strcmp(cmd, "outro")) vd_outro = atoi(tok(&sv));
    else if (!strcmp(cmd, "E") || !strcmp(cmd, "D") || !strcmp(cmd, "H")) {
      char *id = tok(&sv);
      call_t c;
      res_t r;
      parse_call(cmd[0], &sv, &c);
      do_call(0, &c, &r);
      print_res(id, &c, &r, "");
      free(r.out);
      free_call(&c);
    } else if (!strcmp(cmd, "bulk")) {
      char *id = tok(&sv);
      u64v s = strtoull(tok(&sv), 0, 0), f = strtoull(tok(&sv), 0, 0), n = strtoull(tok(&sv), 0, 0);
      size_t ma = (size_t)atol(tok(&sv)), mx = (size_t)atol(tok(&sv));
      bulk(id, s, f, n, ma, mx, strtoull(tok(&sv), 0, 0));
    } else if (!strcmp(cmd, "bulkh")) {
      char *id = tok(&sv);
      u64v s = strtoull(tok(&sv), 0, 0), f = strtoull(tok(&sv), 0, 0), n = strtoull(tok(&sv), 0, 0);
      size_t mx = (size_t)atol(tok(&sv));
      bulkh(id, s, f, n, mx, strtoull(tok(&sv), 0, 0));
    } else if (!strcmp(cmd, "vec")) {
      /* vec id seed index maxa maxx: inputs of a bulk vector */
      char *id = tok(&sv);
      vec_t v;
      v.a = malloc(BMAX), v.m = malloc(BMAX);
      u64v s = strtoull(tok(&sv), 0, 0), f = strtoull(tok(&sv), 0, 0);
      size_t ma = (size_t)atol(tok(&sv)), mx = (size_t)atol(tok(&sv));
      gen_vec(&v, s, f, ma, mx);
      fprintf(vd_out, "{\"id\":\"%s\",\"op\":\"vec\",\"k\":\"", id);
      hexout(v.k, 16), fprintf(vd_out, "\",\"n\":\""), hexout(v.n, 16), fprintf(vd_out, "\",\"a\":\"");
      hexout(v.a, v.alen), fprintf(vd_out, "\",\"m\":\""), hexout(v.m, v.mlen);
      fprintf(vd_out, "\"}\n");
      free(v.a), free(v.m);
    } else if (!strcmp(cmd, "storm")) {
      char *id = tok(&sv);
      u64v s = strtoull(tok(&sv), 0, 0);
      storm(id, s, strtoull(tok(&sv), 0, 0));
    } else if (!strcmp(cmd, "mix")) {
      char *id = tok(&sv);
      u64v s = strtoull(tok(&sv), 0, 0), n = strtoull(tok(&sv), 0, 0);
      int np = atoi(tok(&sv));
      size_t ml = (size_t)atol(tok(&sv));
      int md = atoi(tok(&sv));
      mix(id, s, n, np, ml, md, strtoull(tok(&sv), 0, 0));
    } else if (!strcmp(cmd, "save")) {
      vd_save = atoi(tok(&sv));
    } else if (!strcmp(cmd, "nsec")) {
      vd_nsec = atoi(tok(&sv)) ? vd_ar[0].b[BK].base - PAGE : NULL;
    } else if (!strcmp(cmd, "thr")) {
      char *id = tok(&sv);
      u64v s = strtoull(tok(&sv), 0, 0);
      int nt = atoi(tok(&sv));
      unsigned n = (unsigned)atoi(tok(&sv)), rd = (unsigned)atoi(tok(&sv));
      size_t ma = (size_t)atol(tok(&sv)), mx = (size_t)atol(tok(&sv));
      threads(id, s, nt, n, rd, ma, mx);
    } else if (!strcmp(cmd, "pre")) {
      char *id = tok(&sv);
      preempt(id, &sv);
    } else if (!strcmp(cmd, "watch")) {
      char *id = tok(&sv);
      watch(id, &sv);
    } else if (!strcmp(cmd, "sens")) {
      char id[64];
      snprintf(id, sizeof id, "%s", tok(&sv));
      senscall(id, &sv);
    } else if (!strcmp(cmd, "full")) {
      char id[64];
      snprintf(id, sizeof id, "%s", tok(&sv));
      fullcall(id, &sv);
    } else if (!strcmp(cmd, "long")) {
      char *id = tok(&sv);
      longcall(id, &sv);
      struct sigaction sb;
      memset(&sb, 0, sizeof sb);
      sb.sa_handler = on_alarm;
      sb.sa_flags = SA_RESTART;
      sigaction(SIGALRM, &sb, 0);
#if defined(__x86_64__)
    } else if (!strcmp(cmd, "step")) {
      char *id = tok(&sv);
      steptrace(id, &sv);
#endif
    } else {
      fprintf(stderr, "bad command %s\n", cmd);
      return 3;
    }
  }
  fprintf(vd_out, "{\"id\":\"end\",\"op\":\"end\"}\n");
  fclose(vd_out);
  return 0;
}
