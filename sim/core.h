// Deterministic simulation core: one integer (or one recorded choice list) decides every run.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>

namespace sim {

// ---- choices: the only source of randomness. 0 is always the "simplest" choice (shrinking goes towards 0).
uint64_t choose(uint64_t n, const char *label = "");                 // 0 .. n-1
bool chance(unsigned num, unsigned den, const char *label = "");     // true with probability num/den; 0 -> false
template <class T> const T &pick(const std::vector<T> &v, const char *label = "") { return v[choose(v.size(), label)]; }
struct Span { Span(); ~Span(); };                                     // a unit the shrinker may delete

// ---- event log (hashed always, printed when tracing). Never draws from the PRNG, never reads a clock.
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void sig(uint64_t x);                                                 // contributes to the distinct-behaviour signature
void nontrivial();                                                    // this run injected a fault / switched a task / ...
void stat(const char *name, uint64_t add = 1);                        // counter (fault fired, probe hit, ...)
void step();                                                          // bounded run: aborts the run as "hang" after the cap
std::string quote(const std::string &s, size_t max = 160);
uint64_t hash_bytes(const void *p, size_t n, uint64_t h = 1469598103934665603ull);

[[noreturn]] void violation(const char *klass, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void broken(const char *fmt, ...) __attribute__((format(printf, 1, 2)));     // harness error, not a verdict
#define SIM_CHECK(cond, klass, ...) do { if (!(cond)) ::sim::violation(klass, __VA_ARGS__); } while (0)

// ---- simulated clock (time() is routed here by the linker)
extern int64_t now;

// ---- allocation seam (function pointers of handlebars_memory.h)
struct Alloc {
    bool armed = false;       // counting/injecting at all
    long count = 0;           // allocations seen since arm()
    long fail_at = -1;        // 1-based index of the first failing allocation, -1: none
    long fail_len = 1;        // how many consecutive allocations fail
    long fired = 0;           // failures injected since arm()
    const char *last_kind = "";
};
extern thread_local Alloc alloc;
extern void (*alloc_yield)();   // called at every allocation
extern long lib_blocks;             // blocks held by libyaml, json-c and liblmdb
void alloc_install();
void alloc_arm(long fail_at, long fail_len = 1);
void alloc_disarm();

// ---- worlds
typedef void (*WorldFn)();
struct WorldReg { WorldReg(const char *name, WorldFn fn, unsigned seconds = 20); };
#define WORLD(name) static void world_##name(); static ::sim::WorldReg reg_##name(#name, world_##name); static void world_##name()

int main_(int argc, char **argv);
const char *option(const char *name);      // --opt name=value
void on_reset(void (*fn)());               // called before every run
void after_fork_child();                   // child processes of a run: do not write results
extern bool is_child;
}
