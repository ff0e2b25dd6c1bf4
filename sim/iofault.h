// Streams whose reads, writes and seeks are decided by the run.
#pragma once
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <string>
#include <algorithm>
#include <sys/types.h>
namespace iofault {
enum IO { OPEN_FAILS, READ_FAILS, TRUNCATED, SEEK_FAILS, SHORT_READS, IO_N };
static const char *const ION[] = {"open_fails", "read_fails", "truncated_while_read", "seek_fails", "short_reads"};
struct Cookie { std::string data; size_t size = 0, limit = 0, at = 0; int err = 0; bool seek_fails = false, short_reads = false; bool *reported = nullptr; };
static inline ssize_t c_read(void *v, char *b, size_t n) {
    Cookie *c = (Cookie *)v;
    if (c->at >= c->limit) { if (c->err) { if (c->reported) *c->reported = true; errno = c->err; return -1; } return 0; }
    n = std::min(n, c->limit - c->at);
    if (c->short_reads) n = std::min<size_t>(n, 1 + c->at % 3);
    memcpy(b, c->data.data() + c->at, n); c->at += n; return (ssize_t)n;
}
static inline int c_seek(void *v, off64_t *o, int w) {
    Cookie *c = (Cookie *)v;
    if (c->seek_fails) { errno = ESPIPE; return -1; }
    off64_t p = w == SEEK_SET ? *o : w == SEEK_CUR ? (off64_t)c->at + *o : (off64_t)c->size + *o;
    if (p < 0) { errno = EINVAL; return -1; }
    c->at = (size_t)p; *o = p; return 0;
}
static inline int c_close(void *v) { delete (Cookie *)v; return 0; }
static inline FILE *file(const std::string &text, IO io, size_t off, int e, const char *mode) {
    Cookie *c = new Cookie; c->data = text; c->size = c->limit = text.size(); c->seek_fails = io == SEEK_FAILS; c->short_reads = io == SHORT_READS;
    if (io == READ_FAILS) { c->limit = off % (c->size + 1); c->err = e; if (c->limit == c->size && c->limit) c->limit--; }
    if (io == TRUNCATED) c->limit = c->size ? off % c->size : 0;
    cookie_io_functions_t f = {c_read, nullptr, c_seek, c_close};
    return fopencookie(c, mode, f);
}
}
