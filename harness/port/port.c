/* Runs calls on any processor: no C library, system calls only.  Input (standard input): records
   op[1] k[16] n[16] al[4] xl[4] a x, lengths little endian, op 'E' 'D' 'H', 'F' (what machine is this?) or '.' (end).
   Output: per record  ret[4] len[8] ol[4] out.  Buffers are aligned to 16 bytes. */
#include <stdint.h>
#include <stddef.h>

#if defined(__i386__)
#define NR_READ 3
#define NR_WRITE 4
#define NR_EXIT 1
static long sys(long n, long a, long b, long c) { long r; __asm__ volatile("int $0x80" : "=a"(r) : "0"(n), "b"(a), "c"(b), "d"(c) : "memory"); return r; }
__asm__(".globl _start\n_start: and $-16,%esp\n call port_main\n hlt\n");
#elif defined(__x86_64__)
#define NR_READ 0
#define NR_WRITE 1
#define NR_EXIT 60
static long sys(long n, long a, long b, long c) { long r; __asm__ volatile("syscall" : "=a"(r) : "0"(n), "D"(a), "S"(b), "d"(c) : "rcx", "r11", "memory"); return r; }
__asm__(".globl _start\n_start: and $-16,%rsp\n call port_main\n hlt\n");
#elif defined(__aarch64__)
#define NR_READ 63
#define NR_WRITE 64
#define NR_EXIT 93
static long sys(long n, long a, long b, long c) { register long x8 __asm__("x8") = n, x0 __asm__("x0") = a, x1 __asm__("x1") = b, x2 __asm__("x2") = c; __asm__ volatile("svc 0" : "+r"(x0) : "r"(x8), "r"(x1), "r"(x2) : "memory"); return x0; }
__asm__(".globl _start\n_start: bl port_main\n brk 1\n");
#elif defined(__arm__)
#define NR_READ 3
#define NR_WRITE 4
#define NR_EXIT 1
#ifdef __thumb__
/* r7 is the frame pointer in Thumb code */
static long sys(long n, long a, long b, long c) { register long r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c, r4 __asm__("r4") = n; __asm__ volatile("push {r7}\n mov r7, r4\n svc 0\n pop {r7}" : "+r"(r0) : "r"(r4), "r"(r1), "r"(r2) : "memory"); return r0; }
__asm__(".globl _start\n.thumb_func\n_start: bl port_main\n udf #1\n");
#else
static long sys(long n, long a, long b, long c) { register long r0 __asm__("r0") = a, r1 __asm__("r1") = b, r2 __asm__("r2") = c, r7 __asm__("r7") = n; __asm__ volatile("svc 0" : "+r"(r0) : "r"(r7), "r"(r1), "r"(r2) : "memory"); return r0; }
__asm__(".globl _start\n_start: bl port_main\n");
#endif
#elif defined(__riscv)
#define NR_READ 63
#define NR_WRITE 64
#define NR_EXIT 93
static long sys(long n, long a, long b, long c) { register long a7 __asm__("a7") = n, a0 __asm__("a0") = a, a1 __asm__("a1") = b, a2 __asm__("a2") = c; __asm__ volatile("ecall" : "+r"(a0) : "r"(a7), "r"(a1), "r"(a2) : "memory"); return a0; }
__asm__(".globl _start\n_start: call port_main\n ebreak\n");
#elif defined(__mips__)
#define NR_READ 4003
#define NR_WRITE 4004
#define NR_EXIT 4001
static long sys(long n, long a, long b, long c) { register long v0 __asm__("$2") = n, a0 __asm__("$4") = a, a1 __asm__("$5") = b, a2 __asm__("$6") = c, a3 __asm__("$7"); __asm__ volatile("syscall" : "+r"(v0), "=r"(a3) : "r"(a0), "r"(a1), "r"(a2) : "$1", "$3", "$8", "$9", "$10", "$11", "$12", "$13", "$14", "$15", "$24", "$25", "memory"); return a3 ? -v0 : v0; }
__asm__(".globl __start\n__start: .set noreorder\n addiu $sp,$sp,-32\n jal port_main\n nop\n break\n .set reorder\n");
#elif defined(__powerpc__)
#define NR_READ 3
#define NR_WRITE 4
#define NR_EXIT 1
static long sys(long n, long a, long b, long c) { register long r0 __asm__("r0") = n, r3 __asm__("r3") = a, r4 __asm__("r4") = b, r5 __asm__("r5") = c; __asm__ volatile("sc\n bns+ 1f\n neg 3,3\n1:" : "+r"(r0), "+r"(r3), "+r"(r4), "+r"(r5) : : "r6", "r7", "r8", "r9", "r10", "r11", "r12", "cr0", "memory"); return r3; }
#ifdef __powerpc64__
__asm__(".globl _start\n_start: addis 2,12,.TOC.-_start@ha\n addi 2,2,.TOC.-_start@l\n stdu 1,-64(1)\n bl port_main\n nop\n trap\n");
#else
__asm__(".globl _start\n_start: stwu 1,-32(1)\n bl port_main\n trap\n");
#endif
#endif

int crypto_aead_encrypt(unsigned char *, unsigned long long *, const unsigned char *, unsigned long long, const unsigned char *, unsigned long long, const unsigned char *, const unsigned char *, const unsigned char *);
int crypto_aead_decrypt(unsigned char *, unsigned long long *, unsigned char *, const unsigned char *, unsigned long long, const unsigned char *, unsigned long long, const unsigned char *, const unsigned char *);
#ifdef VD_HASH
int crypto_hash(unsigned char *, const unsigned char *, unsigned long long);
#endif

#define MAX 8192
static unsigned char ib[65536];
static long in_n, in_p;
static int in1(void)
{
    if (in_p == in_n) {
        in_n = sys(NR_READ, 0, (long)ib, sizeof ib);
        in_p = 0;
        if (in_n <= 0) { sys(NR_EXIT, 3, 0, 0); }
    }
    return ib[in_p++];
}
static uint32_t in4(void) { uint32_t v = in1(); v |= (uint32_t)in1() << 8; v |= (uint32_t)in1() << 16; v |= (uint32_t)in1() << 24; return v; }
static unsigned char ob[65536];
static long out_n;
static void flush(void)
{
    long p = 0;
    while (p < out_n) { long r = sys(NR_WRITE, 1, (long)(ob + p), out_n - p); if (r <= 0) sys(NR_EXIT, 4, 0, 0); p += r; }
    out_n = 0;
}
static void out1(unsigned v) { if (out_n == sizeof ob) flush(); ob[out_n++] = (unsigned char)v; }
static void out4(uint32_t v) { out1(v); out1(v >> 8); out1(v >> 16); out1(v >> 24); }

static union { unsigned char b[MAX + 64]; uint64_t align[1]; } __attribute__((aligned(16))) K, N, A, X, O;

void port_main(void)
{
    for (;;) {
        int op = in1();
        if (op == '.') break;
        for (int i = 0; i < 16; i++) K.b[i] = in1();
        for (int i = 0; i < 16; i++) N.b[i] = in1();
        uint32_t al = in4(), xl = in4();
        if (al > MAX || xl > MAX) sys(NR_EXIT, 5, 0, 0);
        for (uint32_t i = 0; i < al; i++) A.b[i] = in1();
        for (uint32_t i = 0; i < xl; i++) X.b[i] = in1();
        for (uint32_t i = 0; i < xl + 64 && i < sizeof O.b; i++) O.b[i] = 0x5a;
        unsigned long long len = 0x1122334455667788ull;
        int ret = 99;
        uint32_t ol = 0;
        if (op == 'E') { ret = crypto_aead_encrypt(O.b, &len, X.b, xl, A.b, al, 0, N.b, K.b); ol = xl + 16; }
        if (op == 'D') { ret = crypto_aead_decrypt(O.b, &len, 0, X.b, xl, A.b, al, N.b, K.b); ol = ret == 0 && xl >= 16 ? xl - 16 : 0; }
#ifdef VD_HASH
        if (op == 'H') { ret = crypto_hash(O.b, X.b, xl); ol = 32; len = 32; }
#endif
        if (op == 'F') {
            static const uint16_t one = 0x0102;
            ret = 0; len = 4; ol = 4;
            O.b[0] = *(const unsigned char *)&one == 1; O.b[1] = sizeof(long); O.b[2] = sizeof(size_t); O.b[3] = (char)-1 < 0;
        }
        out4((uint32_t)ret);
        out4((uint32_t)len);
        out4((uint32_t)(len >> 32));
        out4(ol);
        for (uint32_t i = 0; i < ol; i++) out1(O.b[i]);
    }
    flush();
    sys(NR_EXIT, 0, 0, 0);
}
