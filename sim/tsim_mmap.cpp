// World "mmapc": several processes (or threads) share one mmap cache under a seeded scheduler that switches at every
// access to the segment. Histories are checked for linearizability against a model of the slot table.
#include "tpl.h"
#include "seams.h"
#include "tsim.h"
#include <algorithm>
#include <cerrno>
#include <set>
using namespace sim;

namespace tsim { void fail_mprotect(long nth); long mprotect_failures(); }

namespace {
enum Kind { ADD, FIND, RESET, CLOCK, STAT, KN };
static const char *KNAME[] = {"add", "find", "reset", "clock", "stat"};
struct Op { Kind k; int key; int id = -1; handlebars_module *m = nullptr; hstr *ks = nullptr; int hold = 0; long d = 0;
    int task = -1; uint64_t t0 = ~0ull, t1 = ~0ull, rel = ~0ull; bool begun = false, ended = false; int got = -1; int err = 0; int64_t n0 = 0, n1 = 0, ts = 0; };
struct TaskCtx { hctx *ctx; handlebars_cache *cache; std::vector<Op *> ops; };
struct World {
    hctx *ctx; handlebars_cache *cache; std::vector<std::string> keys; std::vector<std::string> bodies; std::vector<TaskCtx> t; std::vector<Op> hist;
    size_t slots; bool small; double max_age = -1; std::vector<int> slot_of; bool killed = false;
};
World *W;
uint64_t tick() { return 1000 + tsim::clock(); }
std::string source(int id, size_t pad) { return "[" + std::to_string(id) + "{{#if a}}{{v}}{{/if}}" + std::string(pad, (char)('a' + id % 26)) + "{{#each l}}{{this}}{{/each}}]"; }
std::string expect(int id, size_t pad) { return "[" + std::to_string(id) + "V" + std::string(pad, (char)('a' + id % 26)) + "pq]"; }
std::string execute(handlebars_module *m) {
    hctx *c = handlebars_context_ctor();
    handlebars_vm *vm = handlebars_vm_ctor(c);
    HANDLEBARS_VALUE_DECL(v);
    std::string r;
    int rc = hb_try(c, [&] { handlebars_value_init_json_string(c, v, "{\"a\":1,\"l\":[\"p\",\"q\"],\"v\":\"V\"}"); r = S(handlebars_vm_execute(vm, m, v)); });
    if (rc) r = std::string("ERROR ") + (handlebars_error_msg(c) ? handlebars_error_msg(c) : "?");
    HANDLEBARS_VALUE_UNDECL(v);
    handlebars_vm_dtor(vm); handlebars_context_dtor(c);
    return r;
}
int body_of(const std::string &s) { for (size_t i = 0; i < W->bodies.size(); i++) if (W->bodies[i] == s) return (int)i; return -1; }
void do_find(TaskCtx &tc, Op &o) {
    World &w = *W;
    handlebars_module *m = handlebars_cache_find(tc.cache, o.ks);
    o.t1 = tick(); o.n1 = now; o.ended = true;
    if (!m) { o.rel = o.t1; log("  find %d -> miss", o.key); return; }
    std::string s = execute(m);
    o.got = body_of(s);
    log("  find %d -> %s", o.key, quote(s, 40).c_str());
    SIM_CHECK(o.got >= 0, "corrupted", "a module obtained for key %d gives %s", o.key, quote(s).c_str());
    for (int i = 0; i < o.hold; i++) tsim::point();
    if (o.hold) {
        std::string s2 = execute(m);
        SIM_CHECK(s2 == s, "changed-in-use", "a module in use changed from giving %s to giving %s", quote(s).c_str(), quote(s2).c_str());
        stat("probe.held_across_switches");
    }
    handlebars_cache_release(tc.cache, o.ks, m);
    o.rel = tick();
    (void)w;
}
void run_op(TaskCtx &tc, Op &o) {
    o.begun = true; o.t0 = tick(); o.n0 = now;
    int rc = hb_try(tc.ctx, [&] {
        switch (o.k) {
        case ADD: o.m->ts = now; o.ts = now; log("  add %d module %d", o.key, o.id); handlebars_cache_add(tc.cache, o.ks, o.m); break;
        case FIND: do_find(tc, o); break;
        case RESET: log("  reset"); handlebars_cache_reset(tc.cache); break;
        case CLOCK: now += o.d; log("  clock +%ld", o.d); stat("sim.seconds", o.d); break;
        case STAT: { struct handlebars_cache_stat st = handlebars_cache_stat(tc.cache); SIM_CHECK(st.current_entries <= W->slots && st.current_data_size <= st.total_data_size, "stat", "%zu entries and %zu bytes are reported in %zu slots and %zu bytes", st.current_entries, st.current_data_size, W->slots, st.total_data_size); break; }
        default: break;
        }
    });
    if (rc) { o.err = rc; log("  %s %d fails: %s", KNAME[o.k], o.key, handlebars_error_msg(tc.ctx)); SIM_CHECK(tsim::mprotect_failures() > 0, "spurious-error", "%s fails: %s", KNAME[o.k], handlebars_error_msg(tc.ctx)); hb_clear(tc.ctx); }
    if (!o.ended) { o.t1 = tick(); o.n1 = now; o.ended = true; o.rel = o.t1; }
    if (o.k == FIND && o.rel == ~0ull) o.rel = tick();
}

// ---- linearizability
struct Lin {
    World &w; std::vector<Op *> ops; std::set<std::pair<uint64_t, std::string>> seen; uint64_t nodes = 0; uint64_t optional = 0;
    Lin(World &w_) : w(w_) {}
    bool reset_capable(const Op &o) { return o.k == RESET || (o.k == ADD && w.small); }
    static bool overlap(const Op &a, uint64_t a1, const Op &b, uint64_t b1) { return a.t0 <= b1 && b.t0 <= a1; }
    bool may_drop(const Op &o) { if (w.killed) return true; for (auto x : ops) if (x != &o && reset_capable(*x) && overlap(o, o.t1, *x, x->t1)) return true; return false; }
    bool may_skip_reset(const Op &o) { if (w.killed) return true; for (auto x : ops) if (x != &o && ((reset_capable(*x) && overlap(o, o.t1, *x, x->t1)) || (x->k == FIND && overlap(o, o.t1, *x, x->rel)))) return true; return false; }
    typedef std::vector<int> State;      // slot -> index of the add stored there, -1: empty
    std::vector<char> drop, skip;
    bool search(uint64_t done, State &s) {
        bool all = true;
        for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && !(optional >> i & 1)) all = false;
        if (all) return true;
        std::string key; for (int x : s) { key += (char)(x + 1); key += (char)((x + 1) >> 8); }
        if (!seen.insert({done, key}).second) return false;
        if (++nodes > 400000) { stat("sim.linearizability_gave_up"); return true; }
        // an operation may go next if no undone operation ended before it began
        uint64_t first_end = ~0ull;
        for (size_t i = 0; i < ops.size(); i++) if (!(done >> i & 1) && !(optional >> i & 1)) first_end = std::min(first_end, ops[i]->t1);
        for (size_t i = 0; i < ops.size(); i++) {
            if (done >> i & 1) continue;
            Op &o = *ops[i];
            if (o.t0 > first_end) continue;
            uint64_t d2 = done | 1ull << i;
            int slot = o.k == RESET ? -1 : w.slot_of[o.key];
            bool exp0 = false, exp1 = false, match = false;
            if (o.k == FIND) {
                int at = s[slot];
                match = at >= 0 && ops[at]->key == o.key;
                if (match && w.max_age >= 0) { exp0 = (double)(o.n0 - ops[at]->ts) >= w.max_age; exp1 = (double)(o.n1 - ops[at]->ts) >= w.max_age; }
                if (o.got >= 0) { if (match && ops[at]->id == o.got && !exp0 && search(d2, s)) return true; continue; }
                if (!match || drop[i] || o.err) { if (search(d2, s)) return true; }
                if (match && exp1) { int keep = s[slot]; s[slot] = -1; if (search(d2, s)) return true; s[slot] = keep; if ((exp1) && w.small && search(d2, s)) return true; }
            } else if (o.k == ADD) {
                if (s[slot] >= 0) { if (search(d2, s)) return true; if (!w.small) continue; }
                else { s[slot] = (int)i; if (search(d2, s)) return true; s[slot] = -1; if ((drop[i] || w.small || o.err) && search(d2, s)) return true; }
                if (w.small) { State z(s.size(), -1); if (search(d2, z)) return true; }
            } else if (o.k == RESET) {
                State z(s.size(), -1); if (search(d2, z)) return true;
                if ((skip[i] || o.err) && search(d2, s)) return true;
            }
        }
        return false;
    }
    bool check() {
        drop.resize(ops.size()); skip.resize(ops.size());
        for (size_t i = 0; i < ops.size(); i++) { drop[i] = may_drop(*ops[i]); skip[i] = may_skip_reset(*ops[i]); if (!ops[i]->ended) { optional |= 1ull << i; ops[i]->n1 = now; } }
        State s(w.slots, -1);
        return search(0, s);
    }
};
void reset_world() { W = nullptr; }
struct Init { Init() { on_reset(reset_world); } } init_;
}

WORLD(mmapc) {
    World w; W = &w;
    w.ctx = handlebars_context_ctor();
    bool processes = chance(2, 3, "processes");
    static const size_t slots[] = {16, 1, 2, 4};
    w.slots = slots[choose(4, "slots")];
    w.small = chance(1, 3, "small segment");
    if (chance(1, 4, "max age")) w.max_age = (double)(1 + choose(3) * 5);
    size_t size = w.small ? 4096 * (3 + choose(4, "segment pages")) : 1 << 20;
    int focus = (int)choose(4, "focus");          // 1: expiry, 2: reset against readers, 3: full segment
    if (focus == 1) { w.max_age = 5; w.small = false; size = 1 << 20; }
    if (focus == 3) { w.small = true; size = 4096 * (3 + choose(2, "segment pages")); }
    int rc = hb_try(w.ctx, [&] { w.cache = handlebars_cache_mmap_ctor(w.ctx, size, w.slots); });
    SIM_CHECK(rc == 0, "open", "the cache cannot be opened: %s", handlebars_error_msg(w.ctx));
    struct handlebars_cache_stat st = handlebars_cache_stat(w.cache);
    char *seg = (char *)w.cache->internal;
    size_t head = st.total_size - st.total_table_size - st.total_data_size;
    static const char *names[] = {"a", "b", "{{c}}", "dd", "e"};
    int nkeys = 1 + (int)choose(focus == 1 ? 2 : 5, "keys");
    for (int i = 0; i < nkeys; i++) { w.keys.push_back(names[i]); w.slot_of.push_back((int)(handlebars_string_hash(names[i], strlen(names[i])) % w.slots)); }
    tsim::start();
    int nt = 2 + (int)choose(3, "tasks");
    std::vector<Op> plan; plan.reserve(64);
    w.t.resize(nt);
    log("%s slots=%zu size=%zu keys=%d max age=%g", processes ? "processes" : "threads", w.slots, size, nkeys, w.max_age);
    bool faults = chance(1, 3, "faults");
    for (int t = 0; t < nt; t++) {
        w.t[t].ctx = handlebars_context_ctor();
        int n = 1 + (int)choose(nt > 3 ? 4 : 6, "operations");
        for (int i = 0; i < n; i++) {
            Span sp;
            Op o; o.task = t; o.key = (int)choose(nkeys, "key");
            uint64_t k = choose(16, "op");
            o.k = k < 7 ? FIND : k < 12 ? ADD : k < 14 ? RESET : k == 14 ? (w.max_age >= 0 ? CLOCK : FIND) : STAT;
            if (focus == 1) o.k = k < 8 ? FIND : k < 14 ? ADD : CLOCK;
            if (focus == 2) o.k = k < 8 ? FIND : k < 11 ? ADD : RESET;
            if (o.k == CLOCK) { static const long ds[] = {1, 4, 10, 100}; o.d = ds[choose(4)]; }
            if (o.k == FIND && chance(1, 2, "hold")) o.hold = 1 + (int)choose(20, "hold for");
            if (o.k == ADD) { o.id = (int)w.bodies.size(); size_t pad = choose(3) ? choose(20) : choose(3000); w.bodies.push_back(expect(o.id, pad)); o.m = tpl::compile(w.ctx, source(o.id, pad), 0); }
            if (o.k == ADD || o.k == FIND) { o.ks = mkstr(w.t[t].ctx, w.keys[o.key]); handlebars_string_addref(o.ks); }
            plan.push_back(o);
        }
    }
    int pre = (int)choose(nkeys + 1, "stored before");
    for (int k = 0; k < pre; k++) {
        Op o; o.k = ADD; o.key = k; o.id = (int)w.bodies.size(); o.begun = o.ended = true; o.t0 = o.t1 = o.rel = 1 + k; o.ts = o.n0 = o.n1 = now;
        w.bodies.push_back(expect(o.id, 5)); o.m = tpl::compile(w.ctx, source(o.id, 5), 0); o.m->ts = now;
        o.ks = mkstr(w.ctx, w.keys[k]); handlebars_string_addref(o.ks);
        handlebars_cache_add(w.cache, o.ks, o.m);
        log("stored before: key %d module %d", k, o.id);
        plan.push_back(o);
    }
    if (w.max_age >= 0 && chance(1, 2, "expire")) { now += 5; log("clock +5"); }
    for (int t = 0; t < nt; t++) {
        TaskCtx &tc = w.t[t];
        tc.cache = (handlebars_cache *)talloc_memdup(tc.ctx, w.cache, sizeof(handlebars_cache));
        HBSCTX(tc.cache)->e = nullptr; handlebars_context_bind(tc.ctx, HBSCTX(tc.cache));
        tc.cache->max_age = w.max_age;
        for (auto &o : plan) if (o.task == t) tc.ops.push_back(&o);
        tsim::spawn(("t" + std::to_string(t)).c_str(), [t] { TaskCtx &tc = W->t[t]; for (auto o : tc.ops) { log("t%d", t); run_op(tc, *o); tsim::point(); } });
    }
    tsim::watch(seg, st.total_size, true);
    if (processes) tsim::protect_per_task(seg + head, st.total_size - head); else tsim::protect_shared(seg + head, st.total_size - head);
    bool locked = option("locked") != nullptr;
    int victim = -1;
    if (locked || (faults && chance(1, 2, "kill"))) { victim = (int)choose(nt, "victim"); tsim::kill_at(victim, 1 + choose(choose(2) ? 60 : 600, "killed at"), locked); }
    if (faults && !locked && chance(1, 3, "mprotect fails")) tsim::fail_mprotect(1 + (long)choose(12, "mprotect"));
    __real_mprotect(seg, st.total_size, PROT_READ | PROT_WRITE);
    tsim::run();
    w.killed = victim >= 0 && tsim::killed(victim);
    if (tsim::any_stuck()) {
        if (tsim::lock_held_by_dead()) violation("stuck-after-crash", "a process was killed while it held the write lock of the cache, and every other process that adds, resets or drops an expired entry waits for ever");
        violation("deadlock", "the tasks wait for each other");
    }
    if (!(w.killed && tsim::lock_held_by_dead())) {
        for (int k = 0; k < nkeys; k++) {      // what is there at the end
            Op o; o.k = FIND; o.key = k; o.task = -1; o.ks = mkstr(w.t[0].ctx, w.keys[k]); handlebars_string_addref(o.ks);
            o.begun = true; o.t0 = tick() + 1 + 2 * k; o.n0 = o.n1 = now;
            handlebars_module *m = handlebars_cache_find(w.t[0].cache, o.ks);
            o.t1 = o.rel = o.t0; o.ended = true;
            if (m) { std::string s = execute(m); o.got = body_of(s); SIM_CHECK(o.got >= 0, "corrupted", "afterwards the module for key %d gives %s", k, quote(s).c_str()); handlebars_cache_release(w.t[0].cache, o.ks, m); }
            log("afterwards key %d -> %d", k, o.got);
            plan.push_back(o);
        }
        Lin lin(w);
        size_t hits = 0, misses = 0;
        for (auto &o : plan) {
            if (!o.begun) continue;
            sig(o.k * 64 + (o.got >= 0) * 8 + o.task + 1);
            if (o.k == ADD || o.k == FIND || o.k == RESET) lin.ops.push_back(&o);
            if (o.k == FIND) (o.got >= 0 ? hits : misses)++;
            if (o.k == FIND && o.got >= 0) SIM_CHECK([&] { for (auto &a : plan) if (a.k == ADD && a.id == o.got && a.key == o.key && a.begun && a.t0 <= o.t1) return true; return false; }(), "wrong-module", "find of key %d returned module %d, which was not added under it before", o.key, o.got);
        }
        sig(tsim::switches());
        SIM_CHECK(lin.check(), "not-linearizable", "the results of %zu operations fit no order of them", lin.ops.size());
        stat("probe.histories_checked"); stat("sim.linearizability_states", lin.nodes);
        struct handlebars_cache_stat e = handlebars_cache_stat(w.t[0].cache);
        if (!w.killed) {
            SIM_CHECK(e.refcount == 0, "refcount", "%zu entries are in use after every task released its own", e.refcount);
            SIM_CHECK(e.hits == hits, "stat", "%zu hits are reported, there were %zu", e.hits, hits);
            SIM_CHECK(e.misses <= misses, "stat", "%zu misses are reported, there were %zu", e.misses, misses);
        }
    }
    for (auto &t : w.t) handlebars_context_dtor(t.ctx);
    handlebars_context_dtor(w.ctx);
    W = nullptr;
}
