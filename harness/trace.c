/* Digests of instruction and address traces.
 *
 *   trace L m0 m1 [dump...]           valgrind lackey output on stdin
 *   trace A m0 m1 TABLE [dump...]     qemu-arm -one-insn-per-tb -d exec,cpu,nochain output on stdin
 *   trace E pc0 pc1 [dump...]         qemu-arm -one-insn-per-tb -d exec,nochain; delimited by the instructions
 *                                     that store the markers; no addresses
 *   trace S base 0 TABLE [dump...]    single-step record of the driver on stdin (17 words per instruction)
 * m0/m1: addresses of the marker words whose stores delimit a call (hex).
 * TABLE: memory operands per instruction, see c_ct.py.
 * dump: SEG FILE pairs; writes the events of those segments as text.
 * Prints "SEG n mem pcdigest addrdigest" for every complete segment. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
typedef uint64_t u64;
typedef struct {
  u64 pc;
  char kind, cond;
  signed char base, index, shift, neg;
  long imm;
} ent_t;
static ent_t *tab[1 << 22];      /* by pc */
static u64 m0, m1, pch, adh, n, nm;
static int on;
static long seg;
static int nd;
static long dseg[8];
static FILE *df[8], *cur;
static u64 lastpc, bpc, epc;
static void begin(void) {
  bpc = lastpc;
  on = 1, pch = adh = 0xcbf29ce484222325ULL, n = nm = 0;
  cur = 0;
  for (int i = 0; i < nd; i++)
    if (dseg[i] == seg) cur = df[i];
}
static void end(void) {
  if (!on) return;
  on = 0, epc = lastpc;
  printf("%ld %llu %llu %016llx %016llx\n", seg, (unsigned long long)n, (unsigned long long)nm, (unsigned long long)pch, (unsigned long long)adh);
  seg++;
}
static void pc(u64 a) {
  lastpc = a;
  if (!on) return;
  n++;
  pch = (pch ^ a) * 0x100000001B3ULL;
  pch ^= pch >> 29;
  if (cur) fprintf(cur, "I %llx\n", (unsigned long long)a);
}
static void mem(char k, u64 a) {
  if (a == m0 && k == 'S') { begin(); return; }
  if (a == m1 && k == 'S') { end(); return; }
  if (!on) return;
  nm++;
  adh = (adh ^ (a * 4 + (k == 'L' ? 0 : k == 'S' ? 1 : 2))) * 0x100000001B3ULL;
  adh ^= adh >> 29;
  if (cur) fprintf(cur, "%c %llx\n", k, (unsigned long long)a);
}
static void load(const char *f) {
  FILE *h = fopen(f, "r");
  if (!h) exit(3);
  unsigned long long p;
  int b, i, s, ng;
  char k, c;
  long im;
  while (fscanf(h, "%llx %c %c %d %d %d %d %ld", &p, &k, &c, &b, &i, &s, &ng, &im) == 8) {
    ent_t *e = malloc(sizeof *e);
    e->pc = p, e->kind = k, e->cond = c, e->base = (signed char)b, e->index = (signed char)i, e->shift = (signed char)s, e->neg = (signed char)ng, e->imm = im;
    if (p < (1u << 22)) tab[p] = e;
  }
  fclose(h);
}
/* condition letters: A always, otherwise index into the ARM condition codes a..p */
static int holds(char c, unsigned psr) {
  int N = psr >> 31 & 1, Z = psr >> 30 & 1, C = psr >> 29 & 1, V = psr >> 28 & 1, r = 1;
  if (c == 'A') return 1;
  switch ((c - 'a') >> 1) {
  case 0: r = Z; break;
  case 1: r = C; break;
  case 2: r = N; break;
  case 3: r = V; break;
  case 4: r = C && !Z; break;
  case 5: r = N == V; break;
  case 6: r = !Z && N == V; break;
  }
  return (c - 'a') & 1 ? !r : r;
}
int main(int argc, char **argv) {
  if (argc < 4) return 3;
  char mode = argv[1][0];
  m0 = strtoull(argv[2], 0, 16), m1 = strtoull(argv[3], 0, 16);
  int a = 4;
  if (mode != 'L' && mode != 'E') load(argv[a++]);
  for (; a + 1 < argc; a += 2) dseg[nd] = atol(argv[a]), df[nd++] = fopen(argv[a + 1], "w");
  static char line[4096];
  if (mode == 'L') {
    while (fgets(line, sizeof line, stdin)) {
      /* "I  addr,size"  " L addr,size"  " S addr,size"  " M addr,size" */
      char k = line[0] == 'I' ? 'I' : line[0] == ' ' ? line[1] : 0;
      if (!k || (line[2] != ' ' && k != 'I')) continue;
      if (k != 'I' && k != 'L' && k != 'S' && k != 'M') continue;
      u64 v = 0;
      char *q = line + 3;
      for (; *q && *q != ','; q++) v = v * 16 + (u64)(*q <= '9' ? *q - '0' : (*q | 32) - 'a' + 10);
      if (k == 'I') pc(v);
      else mem(k, v);
    }
  } else if (mode == 'E') {
    while (fgets(line, sizeof line, stdin)) {
      if (line[0] != 'T' || strncmp(line, "Trace ", 6)) continue;
      char *q = strchr(line, '/');
      u64 p = q ? strtoull(q + 1, 0, 16) : 0;
      if (p == m0) begin();
      else if (p == m1) end();
      else pc(p);
    }
  } else if (mode == 'A') {
    u64 p = 0, r[16];
    int have = 0;
    while (fgets(line, sizeof line, stdin)) {
      if (line[0] == 'T' && !strncmp(line, "Trace ", 6)) {
        char *q = strchr(line, '/');
        p = q ? strtoull(q + 1, 0, 16) : 0;
        have = 1;
      } else if (line[0] == 'R' && have) {
        char *q = line;
        while ((q = strchr(q, 'R')) && q[3] == '=') {
          int i = atoi(q + 1);
          r[i & 15] = strtoull(q + 4, &q, 16);
        }
      } else if (line[0] == 'P' && have && !strncmp(line, "PSR=", 4)) {
        unsigned psr = (unsigned)strtoul(line + 4, 0, 16);
        have = 0;
        pc(p);
        ent_t *e = p < (1u << 22) ? tab[p] : 0;
        if (e && holds(e->cond, psr)) {
          u64 ad = r[e->base & 15] + (u64)e->imm;
          if (e->index >= 0) { u64 x = r[e->index & 15] << e->shift; ad = e->neg ? ad - x : ad + x; }
          mem(e->kind, ad & 0xffffffffu);
        }
      }
    }
  } else {
    u64 rec[17];
    begin();
    while (fread(rec, 8, 17, stdin) == 17) {
      pc(rec[0]);
      u64 p = rec[0] + m0;
      ent_t *e = p < (1u << 22) ? tab[p] : 0;
      if (e) {
        u64 ad = (u64)e->imm;
        if (e->base >= 0) ad += rec[1 + e->base];
        if (e->index >= 0) ad += rec[1 + e->index] << e->shift;
        int o = on;
        mem(e->kind, ad);
        on = o;
      }
    }
    end();
  }
  printf("markers %llx %llx\n", (unsigned long long)bpc, (unsigned long long)epc);
  for (int i = 0; i < nd; i++) fclose(df[i]);
  return 0;
}
