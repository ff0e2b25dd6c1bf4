// Link-time seams (-Wl,--wrap): every call the library makes to these goes through here.
#include "seams.h"
#include <cerrno>
#include <cstdarg>
#include <fcntl.h>
#include <cstring>
#include <dlfcn.h>

Seams seams;
static void seams_reset() { seams = Seams(); }
static struct SeamInit { SeamInit() { sim::on_reset(seams_reset); } } seam_init;

extern "C" {
int __wrap_usleep(useconds_t us) {
    if (seams.usleep) return seams.usleep(us);
    sim::stat("sim.usleep_us", us); sim::step(); return 0;
}
int __wrap_nanosleep(const struct timespec *r, struct timespec *) {
    if (seams.usleep) return seams.usleep(r->tv_sec * 1000000 + r->tv_nsec / 1000);
    sim::step(); return 0;
}
int __wrap_clock_nanosleep(clockid_t, int, const struct timespec *r, struct timespec *) {
    if (seams.usleep) return seams.usleep(r->tv_sec * 1000000 + r->tv_nsec / 1000);
    sim::step(); return 0;
}
int __real_sched_yield(void);
int __wrap_sched_yield(void) { if (seams.yield) { seams.yield("sched_yield"); return 0; } sim::step(); return 0; }

FILE *__real_fopen(const char *, const char *);
FILE *__wrap_fopen(const char *p, const char *m) { return seams.fopen ? seams.fopen(p, m) : __real_fopen(p, m); }
FILE *__real_fopen64(const char *, const char *);
FILE *__wrap_fopen64(const char *p, const char *m) { return seams.fopen ? seams.fopen(p, m) : __real_fopen64(p, m); }

int __real_fclose(FILE *);
int __wrap_fclose(FILE *f) { if (seams.fclose) seams.fclose(f); return __real_fclose(f); }
int __real_open(const char *, int, ...);
int __wrap_open(const char *p, int fl, ...) {
    va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap);
    if (seams.open) { int e = seams.open(p, fl); if (e) { errno = e; return -1; } }
    return __real_open(p, fl, mode);
}
int __wrap_open64(const char *p, int fl, ...) { va_list ap; va_start(ap, fl); int mode = fl & O_CREAT ? va_arg(ap, int) : 0; va_end(ap); return __wrap_open(p, fl, mode); }
int __real_pthread_spin_lock(pthread_spinlock_t *);
int __wrap_pthread_spin_lock(pthread_spinlock_t *l) { return seams.spin_lock ? seams.spin_lock(l) : __real_pthread_spin_lock(l); }
int __real_pthread_spin_trylock(pthread_spinlock_t *);
int __wrap_pthread_spin_trylock(pthread_spinlock_t *l) { return seams.spin_trylock ? seams.spin_trylock(l) : __real_pthread_spin_trylock(l); }
int __real_pthread_spin_unlock(pthread_spinlock_t *);
int __wrap_pthread_spin_unlock(pthread_spinlock_t *l) { return seams.spin_unlock ? seams.spin_unlock(l) : __real_pthread_spin_unlock(l); }
int __real_pthread_spin_init(pthread_spinlock_t *, int);
int __wrap_pthread_spin_init(pthread_spinlock_t *l, int s) { return __real_pthread_spin_init(l, s); }
int __real_pthread_spin_destroy(pthread_spinlock_t *);
int __wrap_pthread_spin_destroy(pthread_spinlock_t *l) { return __real_pthread_spin_destroy(l); }

int __real_mprotect(void *, size_t, int);
int __wrap_mprotect(void *a, size_t n, int p) { return seams.mprotect ? seams.mprotect(a, n, p) : __real_mprotect(a, n, p); }
void *__real_mmap(void *, size_t, int, int, int, off_t);
void *__wrap_mmap(void *a, size_t n, int p, int f, int fd, off_t o) { return seams.mmap ? seams.mmap(a, n, p, f, fd, o) : __real_mmap(a, n, p, f, fd, o); }
void *__wrap_mmap64(void *a, size_t n, int p, int f, int fd, off_t o) { return seams.mmap ? seams.mmap(a, n, p, f, fd, o) : __real_mmap(a, n, p, f, fd, o); }
int __real_munmap(void *, size_t);
int __wrap_munmap(void *a, size_t n) { return seams.munmap ? seams.munmap(a, n) : __real_munmap(a, n); }

void __real_abort(void) __attribute__((noreturn));
void __wrap_abort(void) {
    if (seams.in_child_process) __real_abort();
    sim::violation("abort", "the library called abort()%s%s", seams.abort_note[0] ? ": " : "", seams.abort_note);
}
void __real_exit(int) __attribute__((noreturn));
void __wrap_exit(int c) { if (seams.exit) seams.exit(c); __real_exit(c); }

ssize_t __real_pwrite(int, const void *, size_t, off_t);
ssize_t __wrap_pwrite(int fd, const void *b, size_t n, off_t o) { if (seams.disk_write) { ssize_t r; if (seams.disk_write(fd, b, n, o, &r)) return r; } return __real_pwrite(fd, b, n, o); }
ssize_t __wrap_pwrite64(int fd, const void *b, size_t n, off_t o) { return __wrap_pwrite(fd, b, n, o); }
ssize_t __real_pwritev(int, const struct iovec *, int, off_t);
ssize_t __wrap_pwritev(int fd, const struct iovec *v, int c, off_t o) { if (seams.disk_write) { ssize_t r; if (seams.disk_write(fd, nullptr, 0, o, &r)) return r; } return __real_pwritev(fd, v, c, o); }
ssize_t __real_write(int, const void *, size_t);
ssize_t __wrap_write(int fd, const void *b, size_t n) { if (seams.disk_write && seams.is_disk(fd)) { ssize_t r; if (seams.disk_write(fd, b, n, -1, &r)) return r; } return __real_write(fd, b, n); }
int __real_fdatasync(int);
int __wrap_fdatasync(int fd) { if (seams.disk_sync) { int r; if (seams.disk_sync(fd, &r)) return r; } return __real_fdatasync(fd); }
int __real_fsync(int);
int __wrap_fsync(int fd) { if (seams.disk_sync) { int r; if (seams.disk_sync(fd, &r)) return r; } return __real_fsync(fd); }
int __real_msync(void *, size_t, int);
int __wrap_msync(void *a, size_t n, int f) { if (seams.disk_sync) { int r; if (seams.disk_sync(-1, &r)) return r; } return __real_msync(a, n, f); }
int __real_ftruncate(int, off_t);
int __wrap_ftruncate(int fd, off_t o) { return __real_ftruncate(fd, o); }
int __wrap_ftruncate64(int fd, off_t o) { return __real_ftruncate(fd, o); }
}
