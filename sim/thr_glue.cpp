// Part of the module under test that is not instrumented: local statics, locks and byte functions report to the simulator.
#include <cstddef>
#include <cstring>
extern "C" {
	void ptl_thr_read(const void *, std::size_t); void ptl_thr_write(void *, std::size_t); void ptl_thr_acquire(void *); void ptl_thr_release(void *); void ptl_thr_yield();
	int ptl_thr_guard_acquire(unsigned char *); void ptl_thr_guard_release(unsigned char *, int); int ptl_thr_lock(void *, int, int); int ptl_thr_unlock(void *);
	int __cxa_guard_acquire(unsigned char * g) { return ptl_thr_guard_acquire(g); }
	void __cxa_guard_release(unsigned char * g) { ptl_thr_guard_release(g, 1); }
	void __cxa_guard_abort(unsigned char * g) { ptl_thr_guard_release(g, 0); }
	int __real_memcmp(const void *, const void *, std::size_t); void * __real_memchr(const void *, int, std::size_t); std::size_t __real_strlen(const char *); int __real_strcmp(const char *, const char *); int __real_strncmp(const char *, const char *, std::size_t);
	std::size_t __real__ZSt11_Hash_bytesPKvmm(const void *, std::size_t, std::size_t);
	int __wrap_memcmp(const void * a, const void * b, std::size_t n) { ptl_thr_read(a, n); ptl_thr_read(b, n); return __real_memcmp(a, b, n); }
	int __wrap_bcmp(const void * a, const void * b, std::size_t n) { ptl_thr_read(a, n); ptl_thr_read(b, n); return __real_memcmp(a, b, n); }
	void * __wrap_memchr(const void * a, int c, std::size_t n) { void * r{__real_memchr(a, c, n)}; ptl_thr_read(a, r ? static_cast<std::size_t>(static_cast<const char *>(r) - static_cast<const char *>(a)) + 1 : n); return r; }
	std::size_t __wrap_strlen(const char * s) { const std::size_t n{__real_strlen(s)}; ptl_thr_read(s, n + 1); return n; }
	int __wrap_strcmp(const char * a, const char * b) { ptl_thr_read(a, __real_strlen(a) + 1); ptl_thr_read(b, __real_strlen(b) + 1); return __real_strcmp(a, b); }
	int __wrap_strncmp(const char * a, const char * b, std::size_t n) { return __real_strncmp(a, b, n); }
	std::size_t __wrap__ZSt11_Hash_bytesPKvmm(const void * p, std::size_t n, std::size_t s) { ptl_thr_read(p, n); return __real__ZSt11_Hash_bytesPKvmm(p, n, s); }
	int __wrap_pthread_mutex_lock(void * m) { return ptl_thr_lock(m, 0, 0); }
	int __wrap_pthread_mutex_trylock(void * m) { return ptl_thr_lock(m, 0, 1); }
	int __wrap_pthread_mutex_unlock(void * m) { return ptl_thr_unlock(m); }
	int __wrap_pthread_rwlock_rdlock(void * m) { return ptl_thr_lock(m, 1, 0); }
	int __wrap_pthread_rwlock_tryrdlock(void * m) { return ptl_thr_lock(m, 1, 1); }
	int __wrap_pthread_rwlock_wrlock(void * m) { return ptl_thr_lock(m, 0, 0); }
	int __wrap_pthread_rwlock_trywrlock(void * m) { return ptl_thr_lock(m, 0, 1); }
	int __wrap_pthread_rwlock_unlock(void * m) { return ptl_thr_unlock(m); }
	int __wrap_pthread_once(int * o, void (*f)()) { auto g{reinterpret_cast<unsigned char *>(o)}; if(ptl_thr_guard_acquire(g)) { f(); ptl_thr_guard_release(g, 1); } return 0; }
	int __wrap_sched_yield() { ptl_thr_yield(); return 0; }
	int __wrap_nanosleep(const void *, void *) { ptl_thr_yield(); return 0; }
	int __wrap_clock_nanosleep(int, int, const void *, void *) { ptl_thr_yield(); return 0; }
	int __wrap_usleep(unsigned) { ptl_thr_yield(); return 0; }
}
