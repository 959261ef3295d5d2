/* What compilers expect from a run-time library, in plain C. Compiled with -fno-builtin. */
#include <stdint.h>
#include <stddef.h>
void *memcpy(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); } return d; }
void *memmove(void *d, const void *s, size_t n) { unsigned char *a = d; const unsigned char *b = s; if (a < b) while (n--) { *a++ = *b++; __asm__ volatile("" ::: "memory"); } else while (n--) { a[n] = b[n]; __asm__ volatile("" ::: "memory"); } return d; }
void *memset(void *d, int v, size_t n) { unsigned char *a = d; while (n--) { *a++ = (unsigned char)v; __asm__ volatile("" ::: "memory"); } return d; }
int memcmp(const void *x, const void *y, size_t n) { const unsigned char *a = x, *b = y; for (; n; n--, a++, b++) if (*a != *b) return *a - *b; return 0; }
int printf(const char *f, ...) { (void)f; return 0; }
int puts(const char *s) { (void)s; return 0; }
int putchar(int c) { return c; }
#ifdef __arm__
void __aeabi_memcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy4(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memcpy8(void *d, const void *s, size_t n) { memcpy(d, s, n); }
void __aeabi_memset(void *d, size_t n, int v) { memset(d, v, n); }
void __aeabi_memset4(void *d, size_t n, int v) { memset(d, v, n); }
void __aeabi_memset8(void *d, size_t n, int v) { memset(d, v, n); }
void __aeabi_memclr(void *d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr4(void *d, size_t n) { memset(d, 0, n); }
void __aeabi_memclr8(void *d, size_t n) { memset(d, 0, n); }
#endif
#if __SIZEOF_POINTER__ == 4
typedef union { uint64_t x; struct {
#if __BYTE_ORDER__ == __ORDER_BIG_ENDIAN__
    uint32_t h, l;
#else
    uint32_t l, h;
#endif
} w; } q_t;
uint64_t __ashldi3(uint64_t v, int n) { q_t a, r; a.x = v; if (n == 0) return v; if (n >= 32) { r.w.h = a.w.l << (n - 32); r.w.l = 0; } else { r.w.h = a.w.h << n | a.w.l >> (32 - n); r.w.l = a.w.l << n; } return r.x; }
uint64_t __lshrdi3(uint64_t v, int n) { q_t a, r; a.x = v; if (n == 0) return v; if (n >= 32) { r.w.l = a.w.h >> (n - 32); r.w.h = 0; } else { r.w.l = a.w.l >> n | a.w.h << (32 - n); r.w.h = a.w.h >> n; } return r.x; }
int64_t __ashrdi3(int64_t v, int n) { q_t a, r; a.x = (uint64_t)v; if (n == 0) return v; int32_t h = (int32_t)a.w.h; if (n >= 32) { r.w.l = (uint32_t)(h >> (n - 32)); r.w.h = (uint32_t)(h >> 31); } else { r.w.l = a.w.l >> n | a.w.h << (32 - n); r.w.h = (uint32_t)(h >> n); } return (int64_t)r.x; }
static uint32_t bit(uint64_t v, int i) { q_t a; a.x = v; return (i >= 32 ? a.w.h >> (i - 32) : a.w.l >> i) & 1; }
static uint64_t divmod(uint64_t a, uint64_t b, uint64_t *rem)
{
    q_t q = {0}, r = {0};
    for (int i = 63; i >= 0; i--) {
        r.w.h = r.w.h << 1 | r.w.l >> 31;
        r.w.l = r.w.l << 1 | bit(a, i);
        if (r.x >= b) { r.x -= b; if (i >= 32) q.w.h |= 1u << (i - 32); else q.w.l |= 1u << i; }
    }
    *rem = r.x;
    return q.x;
}
uint64_t __udivdi3(uint64_t a, uint64_t b) { uint64_t r; return divmod(a, b, &r); }
uint64_t __umoddi3(uint64_t a, uint64_t b) { uint64_t r; divmod(a, b, &r); return r; }
#ifdef __arm__
/* quotient in r0:r1, remainder in r2:r3 */
uint64_t port_uldivmod(uint64_t a, uint64_t b, uint64_t *r) { return divmod(a, b, r); }
__asm__(
#ifdef __thumb__
    ".thumb_func\n"
#endif
    ".globl __aeabi_uldivmod\n__aeabi_uldivmod: push {r4, lr}\n sub sp, sp, #16\n add r4, sp, #8\n str r4, [sp]\n bl port_uldivmod\n ldr r2, [sp, #8]\n ldr r3, [sp, #12]\n add sp, sp, #16\n pop {r4, pc}\n");
static uint32_t udm(uint32_t a, uint32_t b, uint32_t *rem) { uint32_t q = 0, r = 0; for (int i = 31; i >= 0; i--) { r = r << 1 | (a >> i & 1); if (r >= b) { r -= b; q |= 1u << i; } } *rem = r; return q; }
uint32_t __aeabi_uidiv(uint32_t a, uint32_t b) { uint32_t r; return udm(a, b, &r); }
uint32_t __udivsi3(uint32_t a, uint32_t b) { uint32_t r; return udm(a, b, &r); }
uint64_t __aeabi_uidivmod(uint32_t a, uint32_t b) { uint32_t r; uint32_t q = udm(a, b, &r); return (uint64_t)r << 32 | q; }
uint64_t __aeabi_llsl(uint64_t v, int n) { return __ashldi3(v, n); }
uint64_t __aeabi_llsr(uint64_t v, int n) { return __lshrdi3(v, n); }
int64_t __aeabi_lasr(int64_t v, int n) { return __ashrdi3(v, n); }
#endif
#endif
