#pragma once
#include "core.h"
#include <pthread.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <sys/mman.h>
#include <unistd.h>
#include <cstdio>
#include <ctime>
struct Seams {
    int (*usleep)(unsigned long us) = nullptr;
    void (*yield)(const char *where) = nullptr;
    FILE *(*fopen)(const char *, const char *) = nullptr;
    void (*fclose)(FILE *) = nullptr;
    int (*open)(const char *, int) = nullptr;         // 0: go on, else errno
    int (*spin_lock)(pthread_spinlock_t *) = nullptr;
    int (*spin_trylock)(pthread_spinlock_t *) = nullptr;
    int (*spin_unlock)(pthread_spinlock_t *) = nullptr;
    int (*mprotect)(void *, size_t, int) = nullptr;
    void *(*mmap)(void *, size_t, int, int, int, off_t) = nullptr;
    int (*munmap)(void *, size_t) = nullptr;
    void (*exit)(int) = nullptr;
    bool (*disk_write)(int fd, const void *, size_t, off_t, ssize_t *ret) = nullptr;
    bool (*is_disk)(int fd) = nullptr;
    bool (*disk_sync)(int fd, int *ret) = nullptr;
    bool in_child_process = false;
    char abort_note[128] = {0};
};
extern Seams seams;
extern "C" int __real_mprotect(void *, size_t, int);
extern "C" void *__real_mmap(void *, size_t, int, int, int, off_t);
extern "C" int __real_munmap(void *, size_t);
extern "C" void __real_exit(int) __attribute__((noreturn));
extern "C" FILE *__real_fopen(const char *, const char *);
extern "C" int __real_pthread_spin_lock(pthread_spinlock_t *);
extern "C" int __real_pthread_spin_trylock(pthread_spinlock_t *);
extern "C" int __real_pthread_spin_unlock(pthread_spinlock_t *);
