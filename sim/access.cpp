// Flavour t: the code under test reports its memory accesses (compiled with
// -fsanitize=thread, but without that run-time library) and its calls of C
// library string functions. Accesses to static data that some operation has
// written are places where the plan may switch sessions.
#ifdef SIM_ACCESS
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <string.h>
#include "sim.h"

extern "C" char __data_start[], _end[];
void access_switch(int pm);
static uint8_t g_written[1 << 16];

static inline bool is_static(const void *p) { return (uintptr_t)p - (uintptr_t)__data_start < (uintptr_t)(_end - __data_start); }
static inline uint8_t &mark(const void *p) { return g_written[((uintptr_t)p >> 2) & 0xffff]; }
static inline bool on() { return g_sched.active && t_ctx && t_ctx->in_lib; }
static void rd(const void *p) { if (is_static(p) && on() && mark(p)) access_switch(g_sched.acc_pm); }
static void wr(const void *p) {
  if (!is_static(p) || !t_ctx || !t_ctx->in_lib) return;
  mark(p) = 1;
  if (on()) access_switch(g_sched.acc_pm);
}
static void call(const void *a, const void *b = nullptr) {
  if (!on()) return;
  bool st = is_static(a) || is_static(b);
  access_switch(st ? g_sched.acc_pm : g_sched.acc_pm / 20);
}

extern "C" {
#define RW(n) \
  void __tsan_read##n(void *p) { rd(p); } \
  void __tsan_write##n(void *p) { wr(p); } \
  void __tsan_volatile_read##n(void *p) { rd(p); } \
  void __tsan_volatile_write##n(void *p) { wr(p); } \
  void __tsan_unaligned_read##n(void *p) { rd(p); } \
  void __tsan_unaligned_write##n(void *p) { wr(p); } \
  void __tsan_unaligned_volatile_read##n(void *p) { rd(p); } \
  void __tsan_unaligned_volatile_write##n(void *p) { wr(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t) { rd(p); }
void __tsan_write_range(void *p, size_t) { wr(p); }
void __tsan_vptr_update(void **p, void *) { wr(p); }
void __tsan_vptr_read(void **p) { rd(p); }
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define AT(n, T) \
  T __tsan_atomic##n##_load(const volatile T *p, int) { rd((const void *)p); return __atomic_load_n(p, __ATOMIC_SEQ_CST); } \
  void __tsan_atomic##n##_store(volatile T *p, T v, int) { wr((const void *)p); __atomic_store_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_exchange(volatile T *p, T v, int) { wr((const void *)p); return __atomic_exchange_n(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_add(volatile T *p, T v, int) { wr((const void *)p); return __atomic_fetch_add(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_sub(volatile T *p, T v, int) { wr((const void *)p); return __atomic_fetch_sub(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_and(volatile T *p, T v, int) { wr((const void *)p); return __atomic_fetch_and(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_or(volatile T *p, T v, int) { wr((const void *)p); return __atomic_fetch_or(p, v, __ATOMIC_SEQ_CST); } \
  T __tsan_atomic##n##_fetch_xor(volatile T *p, T v, int) { wr((const void *)p); return __atomic_fetch_xor(p, v, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { wr((const void *)p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
  int __tsan_atomic##n##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { wr((const void *)p); return __atomic_compare_exchange_n(p, e, v, 0, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
void __tsan_atomic_signal_fence(int) {}

#define W1(R, name, decl, a, b, args) \
  R __real_##name decl; \
  R __wrap_##name decl { call(a, b); return __real_##name args; }
W1(char *, strcpy, (char *d, const char *s), d, s, (d, s))
W1(char *, strncpy, (char *d, const char *s, size_t n), d, s, (d, s, n))
W1(char *, strcat, (char *d, const char *s), d, s, (d, s))
W1(char *, strncat, (char *d, const char *s, size_t n), d, s, (d, s, n))
W1(size_t, strlen, (const char *s), s, nullptr, (s))
W1(int, strcmp, (const char *s, const char *t), s, t, (s, t))
W1(int, strncmp, (const char *s, const char *t, size_t n), s, t, (s, t, n))
W1(int, strcasecmp, (const char *s, const char *t), s, t, (s, t))
W1(char *, strchr, (const char *s, int c), s, nullptr, (s, c))
W1(char *, strrchr, (const char *s, int c), s, nullptr, (s, c))
W1(char *, strtok, (char *s, const char *t), s, t, (s, t))
W1(void *, memcpy, (void *d, const void *s, size_t n), d, s, (d, s, n))
W1(void *, memmove, (void *d, const void *s, size_t n), d, s, (d, s, n))
W1(void *, memset, (void *d, int c, size_t n), d, nullptr, (d, c, n))
W1(int, memcmp, (const void *s, const void *t, size_t n), s, t, (s, t, n))
W1(int, fputs, (const char *s, FILE *f), s, nullptr, (s, f))
W1(int, fputc, (int c, FILE *f), nullptr, nullptr, (c, f))
W1(size_t, fwrite, (const void *p, size_t a, size_t b, FILE *f), p, nullptr, (p, a, b, f))
W1(int, atoi, (const char *s), s, nullptr, (s))
W1(double, atof, (const char *s), s, nullptr, (s))
W1(long, strtol, (const char *s, char **e, int b), s, e, (s, e, b))
W1(double, strtod, (const char *s, char **e), s, e, (s, e))
W1(void, qsort, (void *p, size_t n, size_t z, int (*f)(const void *, const void *)), p, nullptr, (p, n, z, f))
W1(int, vsprintf, (char *d, const char *f, va_list a), d, f, (d, f, a))
W1(int, vsnprintf, (char *d, size_t n, const char *f, va_list a), d, f, (d, n, f, a))
W1(int, vfprintf, (FILE *o, const char *f, va_list a), f, nullptr, (o, f, a))
int __wrap_sprintf(char *d, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vsprintf(d, f, a); va_end(a); return r; }
int __wrap_snprintf(char *d, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vsnprintf(d, n, f, a); va_end(a); return r; }
int __wrap_fprintf(FILE *o, const char *f, ...) { va_list a; va_start(a, f); int r = __wrap_vfprintf(o, f, a); va_end(a); return r; }
int __wrap_sscanf(const char *s, const char *f, ...) { call(s); va_list a; va_start(a, f); int r = vsscanf(s, f, a); va_end(a); return r; }
}
#endif
