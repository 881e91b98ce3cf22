// Run-time part of the thread exploration: lock wrappers; in the thread build (MC_TSAN) sanitizer annotations and control-flow callbacks.
#include <cstdint>
#include <cstdlib>
#include <pthread.h>
#include "env.h"
#ifdef MC_TSAN
extern "C" {
void AnnotateIgnoreReadsBegin(const char *, int); void AnnotateIgnoreReadsEnd(const char *, int); void AnnotateIgnoreWritesBegin(const char *, int); void AnnotateIgnoreWritesEnd(const char *, int); void AnnotateIgnoreSyncBegin(const char *, int); void AnnotateIgnoreSyncEnd(const char *, int);
}
namespace mc {
void codePoint(bool entry);
void tsanIgnore(bool on) {
    if (on) { AnnotateIgnoreReadsBegin("env", 0); AnnotateIgnoreWritesBegin("env", 0); AnnotateIgnoreSyncBegin("env", 0); }
    else { AnnotateIgnoreSyncEnd("env", 0); AnnotateIgnoreWritesEnd("env", 0); AnnotateIgnoreReadsEnd("env", 0); }
}
}
extern "C" {
// control flow of the library: one guard per basic block, the table says which ones are function entries
struct PcEntry { uintptr_t pc, flags; };
static struct Mod { uint32_t *start, *stop; const PcEntry *pcs; } mods[64]; static int nMods = 0; static uint32_t nGuards = 0;
void __sanitizer_cov_trace_pc_guard_init(uint32_t *start, uint32_t *stop) { if (start == stop || *start) return; for (uint32_t *p = start; p < stop; p++) *p = ++nGuards; if (nMods < 64) mods[nMods++] = {start, stop, nullptr}; }
void __sanitizer_cov_pcs_init(const uintptr_t *b, const uintptr_t *e) {   // follows the call above for the same module
    if (!nMods) return; Mod &m = mods[nMods - 1]; if (m.pcs) return; m.pcs = (const PcEntry *)b; for (uint32_t *p = m.start; p < m.stop && (const uintptr_t *)(m.pcs + (p - m.start)) < e; p++) if (m.pcs[p - m.start].flags & 1) *p |= 0x80000000u;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { mc::codePoint(*g & 0x80000000u); }
}
// library functions with a static result, or that change the whole process (linked with --wrap): calls in different threads conflict
extern "C" {
void __tsan_write_range(void *, unsigned long); void __tsan_read_range(void *, unsigned long);
}
namespace mc { void tsanWrite(const void *p, size_t n) { __tsan_write_range((void *)p, n); } void tsanRead(const void *p, size_t n) { __tsan_read_range((void *)p, n); } }
static long sStrtok[2], sTime[2], sInet[2], sEnv[2], sLocale[2];
struct tm; struct in_addr_ { uint32_t a; };
extern "C" {
char *__real_strtok(char *, const char *); char *__wrap_strtok(char *a, const char *b) { mc::tsanWrite(sStrtok, 8); return __real_strtok(a, b); }
struct tm *__real_localtime(const long *); struct tm *__wrap_localtime(const long *t) { mc::tsanWrite(sTime, 8); return __real_localtime(t); }
struct tm *__real_gmtime(const long *); struct tm *__wrap_gmtime(const long *t) { mc::tsanWrite(sTime, 8); return __real_gmtime(t); }
char *__real_asctime(const struct tm *); char *__wrap_asctime(const struct tm *t) { mc::tsanWrite(sTime + 1, 8); return __real_asctime(t); }
char *__real_ctime(const long *); char *__wrap_ctime(const long *t) { mc::tsanWrite(sTime + 1, 8); return __real_ctime(t); }
char *__real_inet_ntoa(in_addr_); char *__wrap_inet_ntoa(in_addr_ a) { mc::tsanWrite(sInet, 8); return __real_inet_ntoa(a); }
int __real_setenv(const char *, const char *, int); int __wrap_setenv(const char *a, const char *b, int c) { mc::tsanWrite(sEnv, 8); return __real_setenv(a, b, c); }
int __real_putenv(char *); int __wrap_putenv(char *a) { mc::tsanWrite(sEnv, 8); return __real_putenv(a); }
char *__real_setlocale(int, const char *); char *__wrap_setlocale(int c, const char *l) { if (l) mc::tsanWrite(sLocale, 8); else mc::tsanRead(sLocale, 8); return __real_setlocale(c, l); }
// the TLS library is not instrumented: its accesses to the caller's buffers
int __real_SSL_read(void *, void *, int); int __wrap_SSL_read(void *s, void *b, int n) { int r = __real_SSL_read(s, b, n); if (r > 0) mc::tsanWrite(b, (size_t)r); return r; }
int __real_SSL_peek(void *, void *, int); int __wrap_SSL_peek(void *s, void *b, int n) { int r = __real_SSL_peek(s, b, n); if (r > 0) mc::tsanWrite(b, (size_t)r); return r; }
int __real_SSL_write(void *, const void *, int); int __wrap_SSL_write(void *s, const void *b, int n) { if (n > 0) mc::tsanRead(b, (size_t)n); return __real_SSL_write(s, b, n); }
int __real_SSL_read_ex(void *, void *, size_t, size_t *); int __wrap_SSL_read_ex(void *s, void *b, size_t n, size_t *d) { int r = __real_SSL_read_ex(s, b, n, d); if (r > 0) mc::tsanWrite(b, *d); return r; }
int __real_SSL_write_ex(void *, const void *, size_t, size_t *); int __wrap_SSL_write_ex(void *s, const void *b, size_t n, size_t *d) { mc::tsanRead(b, n); return __real_SSL_write_ex(s, b, n, d); }
}
#endif
namespace mc { void lockDepth(int d); }
extern "C" {
// locks taken by the library's own code (linked with --wrap); those of shared libraries are not affected
int __real_pthread_mutex_lock(pthread_mutex_t *); int __wrap_pthread_mutex_lock(pthread_mutex_t *m) { int r = __real_pthread_mutex_lock(m); if (!r) mc::lockDepth(1); return r; }
int __real_pthread_mutex_trylock(pthread_mutex_t *); int __wrap_pthread_mutex_trylock(pthread_mutex_t *m) { int r = __real_pthread_mutex_trylock(m); if (!r) mc::lockDepth(1); return r; }
int __real_pthread_mutex_unlock(pthread_mutex_t *); int __wrap_pthread_mutex_unlock(pthread_mutex_t *m) { int r = __real_pthread_mutex_unlock(m); if (!r) mc::lockDepth(-1); return r; }
int __real_pthread_rwlock_rdlock(pthread_rwlock_t *); int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t *m) { int r = __real_pthread_rwlock_rdlock(m); if (!r) mc::lockDepth(1); return r; }
int __real_pthread_rwlock_wrlock(pthread_rwlock_t *); int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t *m) { int r = __real_pthread_rwlock_wrlock(m); if (!r) mc::lockDepth(1); return r; }
int __real_pthread_rwlock_unlock(pthread_rwlock_t *); int __wrap_pthread_rwlock_unlock(pthread_rwlock_t *m) { int r = __real_pthread_rwlock_unlock(m); if (!r) mc::lockDepth(-1); return r; }
int __real_pthread_once(pthread_once_t *, void (*)()); int __wrap_pthread_once(pthread_once_t *o, void (*f)()) { mc::lockDepth(1); int r = __real_pthread_once(o, f); mc::lockDepth(-1); return r; }
int __real___cxa_guard_acquire(long *); int __wrap___cxa_guard_acquire(long *g) { int r = __real___cxa_guard_acquire(g); if (r) mc::lockDepth(1); return r; }
void __real___cxa_guard_release(long *); void __wrap___cxa_guard_release(long *g) { __real___cxa_guard_release(g); mc::lockDepth(-1); }
void __real___cxa_guard_abort(long *); void __wrap___cxa_guard_abort(long *g) { __real___cxa_guard_abort(g); mc::lockDepth(-1); }
}
