#include "core.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <csignal>
#include <unistd.h>
#include <fcntl.h>
#include <sys/time.h>
#include <sys/personality.h>
#include <sys/resource.h>
extern "C" {
#include <talloc.h>
#include <errno.h>
}
#include "hb.h"

namespace sim {

int64_t now = 1000000000;
thread_local Alloc alloc;
bool is_child = false;

struct Rng {
    uint64_t s;
    uint64_t next() { uint64_t z = (s += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
};

struct Choice { uint64_t n, v; const char *label; };
struct SpanRec { size_t b, e; };

static Rng rng;
static bool replaying = false;
static std::vector<uint64_t> replay_list;
static size_t replay_pos = 0;
static FILE *rec = nullptr;          // record choices (written through, survives crashes)
static bool trace = false;
static uint64_t loghash, sighash; static bool havesig, isnontrivial;
static uint64_t steps;
static uint64_t cur_seed;
static size_t nchoices;
static std::map<std::string, uint64_t> counters;
static std::map<std::string, std::string> opts;
static std::vector<void (*)()> resets;
static std::vector<std::pair<std::string, WorldFn>> &worlds() { static std::vector<std::pair<std::string, WorldFn>> w; return w; }
static FILE *out;

WorldReg::WorldReg(const char *name, WorldFn fn, unsigned) { worlds().push_back({name, fn}); }
void on_reset(void (*fn)()) { resets.push_back(fn); }
const char *option(const char *name) { auto it = opts.find(name); return it == opts.end() ? nullptr : it->second.c_str(); }
bool tracing() { return trace; }

uint64_t hash_bytes(const void *p, size_t n, uint64_t h) {
    const unsigned char *c = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ull; }
    return h;
}

uint64_t choose(uint64_t n, const char *label) {
    if (n <= 1) return 0;
    uint64_t v;
    if (replaying) {
        v = replay_pos < replay_list.size() ? replay_list[replay_pos] : 0;
        replay_pos++;
        if (v >= n) v = n - 1;
    } else {
        v = rng.next() % n;
    }
    nchoices++;
    if (nchoices > 2000000) violation("hang", "more than 2000000 choices in one run");
    if (rec) { fprintf(rec, "%llu %llu %s\n", (unsigned long long)v, (unsigned long long)n, label); fflush(rec); }
    return v;
}
bool chance(unsigned num, unsigned den, const char *label) {
    if (num == 0) return false;
    if (num >= den) return true;
    return choose(den, label) >= den - num;
}
Span::Span() { if (rec) { fprintf(rec, "(\n"); fflush(rec); } }
Span::~Span() { if (rec) { fprintf(rec, ")\n"); fflush(rec); } }

// the scratch directory has another name in every process: it must not show in what a run records
std::string scratch_path;
static int mask(char *buf) {
    if (scratch_path.empty()) return (int)strlen(buf);
    for (char *p; (p = strstr(buf, scratch_path.c_str()));) { memcpy(p, "(S)", 3); memmove(p + 3, p + scratch_path.size(), strlen(p + scratch_path.size()) + 1); }
    return (int)strlen(buf);
}
void log(const char *fmt, ...) {
    char buf[6144];
    va_list ap; va_start(ap, fmt);
    int n = vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (n < 0) return;
    n = mask(buf);
    loghash = hash_bytes(buf, n, loghash) * 31 + 7;
    if (trace && !is_child) { fprintf(out, "  %.*s\n", n, buf); fflush(out); }
}
void sig(uint64_t x) { havesig = true; sighash = (sighash ^ x) * 1099511628211ull + 0x9e3779b97f4a7c15ull; }
void nontrivial() { isnontrivial = true; }
void stat(const char *name, uint64_t add) { counters[name] += add; }
void step() { if (++steps > 3000000) violation("hang", "no progress after 3000000 simulator steps"); }

std::string quote(const std::string &s, size_t max) {
    std::string r = "\"";
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        char b[8];
        if (c == '\n') r += "\\n"; else if (c == '"') r += "\\\""; else if (c == '\\') r += "\\\\";
        else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); r += b; } else r += (char)c;
    }
    if (s.size() > max) r += "...";
    return r + "\"";
}

static void flush_counters() {
    for (auto &c : counters) fprintf(out, "C %s %llu\n", c.first.c_str(), (unsigned long long)c.second);
    counters.clear();
    fflush(out);
}

void violation(const char *klass, const char *fmt, ...) {
    char buf[2048];
    va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (char *p = buf; *p; p++) if (*p == '\n') *p = ' ';
    mask(buf);
    alloc.armed = false;
    if (!is_child) flush_counters();
    fprintf(out, "V %llu %016llx %s %s\n", (unsigned long long)cur_seed, (unsigned long long)loghash, klass, buf);
    fflush(out);
    if (rec) fflush(rec);
    _exit(0);
}
void broken(const char *fmt, ...) {
    va_list ap; va_start(ap, fmt); fprintf(stderr, "HARNESS: "); vfprintf(stderr, fmt, ap); fprintf(stderr, "\n"); va_end(ap);
    _exit(3);
}

// ---------------------------------------------------------------- allocation seam
void (*alloc_yield)() = nullptr;
bool fail_now(const char *kind) {
    if (alloc_yield) alloc_yield();
    if (!alloc.armed) return false;
    alloc.count++;
    if (alloc.fail_at > 0 && alloc.count >= alloc.fail_at && alloc.count < alloc.fail_at + alloc.fail_len) {
        alloc.fired++;
        alloc.last_kind = kind;
        std::string s = std::string("fault.alloc.") + kind;
        stat(s.c_str());
        nontrivial();
        return true;
    }
    return false;
}
static void *h_array(const void *ctx, size_t el, unsigned count, const char *name) { return fail_now("array") ? nullptr : _talloc_array(ctx, el, count, name); }
static char *h_asprintf(const void *t, const char *fmt, ...) {
    if (fail_now("asprintf")) return nullptr;
    va_list ap; va_start(ap, fmt); char *r = talloc_vasprintf(t, fmt, ap); va_end(ap); return r;
}
static char *h_asprintf_append(char *s, const char *fmt, ...) {
    if (fail_now("asprintf_append")) return nullptr;
    va_list ap; va_start(ap, fmt); char *r = talloc_vasprintf_append(s, fmt, ap); va_end(ap); return r;
}
static char *h_asprintf_append_buffer(char *s, const char *fmt, ...) {
    if (fail_now("asprintf_append_buffer")) return nullptr;
    va_list ap; va_start(ap, fmt); char *r = talloc_vasprintf_append_buffer(s, fmt, ap); va_end(ap); return r;
}
static void *h_named_const(const void *ctx, size_t size, const char *name) { return fail_now("alloc") ? nullptr : talloc_named_const(ctx, size, name); }
static void *h_realloc_array(const void *ctx, void *ptr, size_t el, unsigned count, const char *name) { return fail_now("realloc") ? nullptr : _talloc_realloc_array(ctx, ptr, el, count, name); }
static char *h_strdup(const void *t, const char *p) { return fail_now("strdup") ? nullptr : talloc_strdup(t, p); }
static char *h_strdup_append(char *s, const char *a) { return fail_now("strdup_append") ? nullptr : talloc_strdup_append(s, a); }
static char *h_strdup_append_buffer(char *s, const char *a) { return fail_now("strdup_append") ? nullptr : talloc_strdup_append_buffer(s, a); }
static char *h_strndup(const void *t, const char *p, size_t n) { return fail_now("strndup") ? nullptr : talloc_strndup(t, p, n); }
static char *h_strndup_append_buffer(char *s, const char *a, size_t n) { return fail_now("strndup_append") ? nullptr : talloc_strndup_append_buffer(s, a, n); }
static void *h_zero(const void *ctx, size_t size, const char *name) { return fail_now("zero") ? nullptr : _talloc_zero(ctx, size, name); }
[[noreturn]] static void h_exit(int code) { violation("exit", "the library called exit(%d)", code); }

long lib_blocks = 0;
void alloc_install() {
    _handlebars_talloc_array = h_array;
    _handlebars_talloc_asprintf = h_asprintf;
    _handlebars_talloc_asprintf_append = h_asprintf_append;
    _handlebars_talloc_asprintf_append_buffer = h_asprintf_append_buffer;
    _handlebars_talloc_named_const = h_named_const;
    _handlebars_talloc_realloc_array = h_realloc_array;
    _handlebars_talloc_strdup = h_strdup;
    _handlebars_talloc_strdup_append = h_strdup_append;
    _handlebars_talloc_strdup_append_buffer = h_strdup_append_buffer;
    _handlebars_talloc_strndup = h_strndup;
    _handlebars_talloc_strndup_append_buffer = h_strndup_append_buffer;
    _handlebars_talloc_zero = h_zero;
    handlebars_exit = h_exit;
}
void alloc_arm(long fail_at, long fail_len) { alloc = Alloc(); alloc.armed = true; alloc.fail_at = fail_at; alloc.fail_len = fail_len; }
void alloc_disarm() { alloc.armed = false; }

void after_fork_child() { is_child = true; rec = nullptr; }

// ---------------------------------------------------------------- runs
#ifdef SIM_COV
extern "C" void __gcov_dump(void);
#define _exit(n) (__gcov_dump(), _exit(n))
#endif
static void run_one(WorldFn fn, uint64_t seed) {
    cur_seed = seed;
    rng.s = seed * 0xd1342543de82ef95ull + 0x2545f4914f6cdd1dull;
    replay_pos = 0; nchoices = 0; steps = 0;
    loghash = 1469598103934665603ull; sighash = 7; havesig = false; isnontrivial = false;
    now = 1000000000;
    alloc = Alloc(); alloc_yield = nullptr;
    for (auto f : resets) f();
    fn();
    alloc.armed = false;
    is_child = false;
}

static void on_vtalrm(int) {
    static const char m[] = "HANG: CPU time limit of one run exceeded\n";
    ssize_t r = write(2, m, sizeof m - 1); (void)r;
    _exit(98);
}
static void arm_cpu(unsigned s) {
    struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = s;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

int main_(int argc, char **argv) {
    int pers = personality(0xffffffff);
    if (!getenv("HBSIM_REEXEC")) {       // fixed addresses, and room for the larger stack frames of checked code (8 MB suffice without)
        setenv("HBSIM_REEXEC", "1", 1);
        struct rlimit rl;
        if (!getrlimit(RLIMIT_STACK, &rl)) { rlim_t want = 64u << 20; if (rl.rlim_max != RLIM_INFINITY && rl.rlim_max < want) want = rl.rlim_max; rl.rlim_cur = want; setrlimit(RLIMIT_STACK, &rl); }
        if (pers != -1) personality(pers | ADDR_NO_RANDOMIZE);
        execv("/proc/self/exe", argv);
    }
    // keep the result channel private: the code under test may write to stdout
    int fd = dup(1);
    out = fdopen(fd, "w");
    int nul = open("/dev/null", O_WRONLY);
    if (nul >= 0) dup2(nul, 1);
    signal(SIGVTALRM, on_vtalrm);
    setenv("TZ", "UTC", 1);
    std::string cmd = argc > 1 ? argv[1] : "";
    std::string world = argc > 2 ? argv[2] : "";
    std::vector<std::string> pos;
    for (int i = 3; i < argc; i++) {
        if (!strcmp(argv[i], "--opt") && i + 1 < argc) {
            std::string kv = argv[++i]; size_t eq = kv.find('=');
            opts[kv.substr(0, eq)] = eq == std::string::npos ? "1" : kv.substr(eq + 1);
        } else pos.push_back(argv[i]);
    }
    if (cmd == "list") { for (auto &w : worlds()) fprintf(out, "%s\n", w.first.c_str()); fflush(out); return 0; }
    WorldFn fn = nullptr;
    for (auto &w : worlds()) if (w.first == world) fn = w.second;
    if (!fn) { fprintf(stderr, "HARNESS: no world %s\n", world.c_str()); return 3; }
    unsigned cpu = option("cpu") ? (unsigned)atoi(option("cpu")) : 20;
    alloc_install();
    if (cmd == "batch") {            // batch WORLD seed0 count stride
        uint64_t s0 = strtoull(pos[0].c_str(), 0, 10); uint64_t n = strtoull(pos[1].c_str(), 0, 10);
        uint64_t mul = pos.size() > 2 ? strtoull(pos[2].c_str(), 0, 10) : 1;
        for (uint64_t i = 0; i < n; i++) {
            uint64_t seed = s0 + i * mul;
            fprintf(out, "S %llu\n", (unsigned long long)seed); fflush(out);
            arm_cpu(cpu);
            run_one(fn, seed);
            fprintf(out, "R %llu %016llx %016llx %d\n", (unsigned long long)seed, (unsigned long long)loghash,
                    (unsigned long long)(havesig ? sighash : loghash), isnontrivial ? 1 : 0);
        }
        flush_counters();
        fprintf(out, "E\n"); fflush(out);
        _exit(0);
    }
    if (cmd == "trace") {            // trace WORLD seed RECFILE  (fresh process, record choices); several seeds: a,b,c
        trace = true;
        if (pos.size() > 1) rec = fopen(pos[1].c_str(), "w");
        uint64_t seed = 0;
        std::string l = pos[0]; size_t p = 0;
        while (p < l.size()) {
            size_t q = l.find(',', p); if (q == std::string::npos) q = l.size();
            seed = strtoull(l.substr(p, q - p).c_str(), 0, 10);
            bool last = q == l.size(); trace = last;
            arm_cpu(cpu); run_one(fn, seed);
            p = q + 1;
        }
        fprintf(out, "R %llu %016llx %016llx %d\n", (unsigned long long)seed, (unsigned long long)loghash, (unsigned long long)sighash, isnontrivial);
        flush_counters(); fprintf(out, "E\n"); fflush(out);
        _exit(0);
    }
    if (cmd == "replay") {           // replay WORLD CHOICEFILE [quiet] [RECFILE]
        replaying = true;
        FILE *f = fopen(pos[0].c_str(), "r");
        if (!f) { fprintf(stderr, "HARNESS: cannot open %s\n", pos[0].c_str()); return 3; }
        unsigned long long v;
        while (fscanf(f, "%llu", &v) == 1) replay_list.push_back(v);
        fclose(f);
        trace = !(pos.size() > 1 && pos[1] == "quiet");
        if (pos.size() > 2) rec = fopen(pos[2].c_str(), "w");
        arm_cpu(cpu);
        run_one(fn, 0);
        fprintf(out, "R 0 %016llx %016llx %d\n", (unsigned long long)loghash, (unsigned long long)sighash, isnontrivial);
        flush_counters(); fprintf(out, "E\n"); fflush(out);
        _exit(0);
    }
    fprintf(stderr, "usage: hbsim list|batch|trace|replay ...\n");
    return 3;
}
}

// ---- allocation inside libyaml, json-c and liblmdb (their calls are renamed when the simulator is linked)
extern "C" {
static void *got(void *p) { if (p) __sync_fetch_and_add(&sim::lib_blocks, 1); return p; }
static bool lib_fails() { if (!sim::fail_now("library")) return false; errno = ENOMEM; return true; }
// json-c drops what it cannot store without saying so, so no failures there beyond the parser itself
void *jlib_malloc(size_t n) { return got(malloc(n)); }
void *jlib_calloc(size_t n, size_t k) { return got(calloc(n, k)); }
void *jlib_realloc(void *o, size_t n) { void *p = realloc(o, n); return o ? p : got(p); }
char *jlib_strdup(const char *s) { return (char *)got(strdup(s)); }
struct json_tokener *__real_json_tokener_new(void);
struct json_tokener *__wrap_json_tokener_new(void) { return lib_fails() ? nullptr : __real_json_tokener_new(); }
void *lib_malloc(size_t n) { return lib_fails() ? nullptr : jlib_malloc(n); }
void *lib_calloc(size_t n, size_t k) { return lib_fails() ? nullptr : jlib_calloc(n, k); }
void *lib_realloc(void *o, size_t n) { return lib_fails() ? nullptr : jlib_realloc(o, n); }
char *lib_strdup(const char *s) { return lib_fails() ? nullptr : jlib_strdup(s); }
int lib_posix_memalign(void **r, size_t a, size_t n) { if (sim::fail_now("library")) return ENOMEM; int e = posix_memalign(r, a, n); if (!e) got(*r); return e; }
void lib_free(void *p) { if (p) __sync_fetch_and_sub(&sim::lib_blocks, 1); free(p); }
}

extern "C" time_t __wrap_time(time_t *t) { if (t) *t = (time_t)sim::now; return (time_t)sim::now; }

int main(int argc, char **argv) { return sim::main_(argc, argv); }
