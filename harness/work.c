/* Linked into the "work" build only: counts what the extension does, so that cost can be judged without a clock.
 * One unit per basic block of the extension, one per 64 bytes moved or (re)allocated. */
#include <stddef.h>
#include <stdint.h>
#include <string.h>
__attribute__((visibility("default"))) uint64_t vwork_units;
__attribute__((visibility("default"))) uint64_t vwork_bytes;
void __sanitizer_cov_trace_pc(void) { vwork_units++; }
#define BYTES(n) do { vwork_units += (n) / 64; vwork_bytes += (n); } while (0)
void *__real_memmove(void *d, const void *s, size_t n);
void *__wrap_memmove(void *d, const void *s, size_t n) { BYTES(n); return __real_memmove(d, s, n); }
void *__real_memcpy(void *d, const void *s, size_t n);
void *__wrap_memcpy(void *d, const void *s, size_t n) { BYTES(n); return __real_memcpy(d, s, n); }
void *__real_memset(void *d, int c, size_t n);
void *__wrap_memset(void *d, int c, size_t n) { BYTES(n); return __real_memset(d, c, n); }
void *__real__emalloc(size_t n);
void *__wrap__emalloc(size_t n) { BYTES(n); return __real__emalloc(n); }
void *__real__erealloc(void *p, size_t n);
void *__wrap__erealloc(void *p, size_t n) { BYTES(n); return __real__erealloc(p, n); }
void *__real__erealloc2(void *p, size_t n, size_t c);
void *__wrap__erealloc2(void *p, size_t n, size_t c) { BYTES(n); return __real__erealloc2(p, n, c); }
void *__real__safe_emalloc(size_t a, size_t b, size_t c);
void *__wrap__safe_emalloc(size_t a, size_t b, size_t c) { BYTES(a * b + c); return __real__safe_emalloc(a, b, c); }
void *__real__safe_erealloc(void *p, size_t a, size_t b, size_t c);
void *__wrap__safe_erealloc(void *p, size_t a, size_t b, size_t c) { BYTES(a * b + c); return __real__safe_erealloc(p, a, b, c); }
void *__real__ecalloc(size_t a, size_t b);
void *__wrap__ecalloc(size_t a, size_t b) { BYTES(a * b); return __real__ecalloc(a, b); }
