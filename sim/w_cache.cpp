// Worlds "cache": one template cache (option kind=simple|mmap|lmdb) against a small reference model, under a simulated
// clock that also jumps, with allocation failures, failing mprotect/msync, readers that hold entries across gc, reset
// and expiry, restarts, processes killed half way through an operation, and damaged records.
#include "tpl.h"
#include "seams.h"
#include "scratch.h"
#include <lmdb.h>
#include <algorithm>
#include <cerrno>
#include <sys/wait.h>
using namespace sim;

namespace {
struct Entry { std::string key; int id; size_t size; int64_t ts; bool damaged = false, must_miss = false, maybe_absent = false; std::vector<std::pair<int, int64_t>> alt; std::string pristine; };
struct Use { handlebars_module *m; int id; hstr *key; };
struct World {
    enum K { SIMPLE, MMAP, LMDB } k;
    hctx *ctx; handlebars_vm *vm; handlebars_cache *cache = nullptr;
    std::vector<Entry> e;                 // the model
    std::vector<Use> used;
    size_t hits = 0, misses = 0, collisions = 0;
    double max_age = -1; size_t max_size = 0, max_entries = 0;
    size_t slots = 0, data_size = 0;
    int ids = 0;
    std::vector<std::string> bodies;      // output expected of module id
    std::string path;
    long fail_mprotect = -1, n_mprotect = 0; bool mprotect_failed = false;
    long n_mdb = 0, fail_mdb = -1, kill_mdb = -1; int mdb_err = 0; bool mdb_failed = false;
    std::vector<void *> txns;
    bool uncertain = false;               // some entry is known only up to alternatives
    bool lossy = false;                   // the statistics are no longer followed
    Entry *find(const std::string &key) { for (auto &x : e) if (x.key == key) return &x; return nullptr; }
    size_t slot(const std::string &key) { return handlebars_string_hash(key.data(), key.size()) % slots; }
    Entry *in_slot(const std::string &key) { for (auto &x : e) if (slot(x.key) == slot(key)) return &x; return nullptr; }
    bool aged(int64_t ts) { return max_age >= 0 && (double)(now - ts) >= max_age; }
    bool expired(const Entry &x) { for (auto &a : x.alt) if (!aged(a.second)) return false; return aged(x.ts); }      // certainly
    bool may_be_expired(const Entry &x) { for (auto &a : x.alt) if (aged(a.second)) return true; return aged(x.ts); }
    void drop(const std::string &key) { for (size_t i = 0; i < e.size(); i++) if (e[i].key == key) { e.erase(e.begin() + i); return; } }
    size_t total() { size_t t = 0; for (auto &x : e) t += x.size; return t; }
};
World *W;

int sim_mprotect(void *a, size_t n, int p) {
    if (++W->n_mprotect == W->fail_mprotect) { stat("fault.mprotect_failed"); W->mprotect_failed = true; errno = ENOMEM; return -1; }
    return __real_mprotect(a, n, p);
}
int sim_usleep(unsigned long us) {
    static unsigned long part; part += us; now += part / 1000000; part %= 1000000;
    stat("sim.usleep_us", us); stat("sim.seconds", 0); step();
    if (!W->used.empty() && chance(1, 20, "other reader releases")) {
        handlebars_cache_release(W->cache, W->used.back().key, W->used.back().m);
        W->used.pop_back(); stat("probe.released_during_reset");
    }
    return 0;
}

// the module for (id): output depends on the id, with strings, a literal array, a block and a helper call in it
std::string source(int id, size_t pad) {
    std::string s = "<" + std::to_string(id) + "{{#if a}}y{{else}}n{{/if}}{{#each l}}{{this}}{{@index}}{{/each}}{{lookup l 1}}{{" + std::string("v") + std::to_string(id % 3) + "}}";
    return s + std::string(pad, (char)('a' + id % 26)) + ">";
}
std::string expect(int id, size_t pad) {
    return "<" + std::to_string(id) + "yp0q1q" + (id % 3 == 0 ? "zero" : id % 3 == 1 ? "one" : "") + std::string(pad, (char)('a' + id % 26)) + ">";
}
std::string execute(handlebars_module *m) {
    hctx *c = handlebars_context_ctor();
    handlebars_vm *vm = handlebars_vm_ctor(c);
    HANDLEBARS_VALUE_DECL(v);
    std::string r;
    int rc = hb_try(c, [&] { handlebars_value_init_json_string(c, v, "{\"a\":1,\"l\":[\"p\",\"q\"],\"v0\":\"zero\",\"v1\":\"one\"}"); handlebars_value_convert(v); r = S(handlebars_vm_execute(vm, m, v)); });
    if (rc) r = std::string("ERROR ") + (handlebars_error_msg(c) ? handlebars_error_msg(c) : "?");
    HANDLEBARS_VALUE_UNDECL(v);
    handlebars_vm_dtor(vm); handlebars_context_dtor(c);
    return r;
}
void check_used(const char *when) {
    for (auto &u : W->used) {
        std::string got = execute(u.m);
        SIM_CHECK(got == W->bodies[u.id], "cache-use-after-free", "module %d, obtained from the cache and not yet released, gives %s instead of %s after %s", u.id, quote(got).c_str(), quote(W->bodies[u.id]).c_str(), when);
    }
}
std::string rnd_key() {
    static const std::vector<std::string> keys = {"a", "b", "{{x}}", "", "qahvjo", "wjyhay", "mbiwgc", "vsgixm", "k1", "k2", "aaaaaafiicqj", "aaaaaassnwjs", "hash:123"};
    uint64_t n = choose(keys.size() + 4, "key");
    if (n < keys.size()) return keys[n];
    if (n == keys.size()) return std::string("a\0b", 3);
    static const size_t lens[] = {509, 510, 511, 512, 513, 600, 2000};
    size_t len = lens[choose(7, "long key")];
    std::string s(len, 'k'); 
    if (choose(2)) s[len - 1] = 'j';
    if (n == keys.size() + 2) { static const char *coll[] = {"qahvjo", "wjyhay"}; s = coll[choose(2)]; }
    return s;
}
void open_cache() {
    World &w = *W;
    handlebars_cache *volatile c = nullptr;
    int rc = hb_try(w.ctx, [&] {
        if (w.k == World::SIMPLE) c = handlebars_cache_simple_ctor(w.ctx);
        else if (w.k == World::MMAP) c = handlebars_cache_mmap_ctor(w.ctx, w.data_size, w.slots);
        else c = handlebars_cache_lmdb_ctor(w.ctx, w.path.c_str());
    });
    SIM_CHECK(rc == 0, "cache-open", "the cache cannot be opened: %s", handlebars_error_msg(w.ctx));
    w.cache = c; w.cache->max_age = w.max_age; w.cache->max_size = w.max_size; w.cache->max_entries = w.max_entries;
    w.hits = w.misses = w.collisions = 0;
}

// one lookup. The model is advanced for every outcome that is allowed.
void do_find(const std::string &key, long failat, bool keep) {
    World &w = *W;
    hstr *k = mkstr(w.ctx, key); handlebars_string_addref(k);
    handlebars_module *volatile m = nullptr;
    alloc_arm(failat);
    int rc = hb_try(w.ctx, [&] { m = handlebars_cache_find(w.cache, k); });
    long fired = alloc.fired; alloc_disarm();
    bool injected = fired || w.mprotect_failed || w.mdb_failed;
    std::string err = rc && handlebars_error_msg(w.ctx) ? handlebars_error_msg(w.ctx) : "";
    if (rc) hb_clear(w.ctx);
    if (fired) w.lossy = true;
    Entry *x = w.k == World::MMAP ? w.in_slot(key) : w.find(key);
    bool match = x && x->key == key, exp = match && w.expired(*x);
    log("find %s -> rc=%d %s %s", quote(key, 20).c_str(), rc, m ? "hit" : "miss", err.c_str());
    sig(1 + (m ? 2 : 0) + (rc ? 4 : 0) + (exp ? 8 : 0) + (match ? 256 : 0));
    if (rc) {
        SIM_CHECK(injected, "cache-spurious-error", "find of %s fails with %d %s although nothing was injected", quote(key).c_str(), rc, err.c_str());
        if (fired) SIM_CHECK(rc == HANDLEBARS_NOMEM || err == "Cannot allocate memory", "cache-wrong-error", "find under allocation failure reports %d %s", rc, err.c_str());
        stat("probe.find_failed_by_fault"); nontrivial(); w.lossy = true;
        if (w.k == World::MMAP && match && exp && handlebars_cache_stat(w.cache).current_entries + 1 == w.e.size()) w.drop(key);
    } else if (!m) {
        SIM_CHECK(!match || exp || w.may_be_expired(*x) || x->damaged || x->maybe_absent || injected, "cache-lost", "find of %s misses although it was stored %ld s ago (max age %g)", quote(key).c_str(), (long)(now - x->ts), w.max_age);
        w.misses++;
        if (exp) { stat("probe.expired_entry_missed"); nontrivial(); }
        if (exp && w.k != World::LMDB) w.drop(key);
        else if (match && x->damaged) { stat("probe.damaged_record_missed"); nontrivial(); }
        else if (match && x->maybe_absent && !w.may_be_expired(*x)) w.drop(key);
    } else {
        std::string got = execute(m);
        SIM_CHECK(match, "cache-phantom", "find of %s hits although it is not stored: it gives %s", quote(key).c_str(), quote(got).c_str());
        SIM_CHECK(!exp, "cache-stale", "find of %s returns an entry of age %ld s with a maximum age of %g", quote(key).c_str(), (long)(now - x->ts), w.max_age);
        SIM_CHECK(!x->must_miss, "cache-damaged-served", "find of %s returns a record that was damaged in the file", quote(key).c_str());
        if (got != w.bodies[x->id]) for (auto &alt : x->alt) if (got == w.bodies[alt.first]) { x->id = alt.first; x->ts = alt.second; }
        x->alt.clear(); x->maybe_absent = false;
        SIM_CHECK(!w.expired(*x), "cache-stale", "find of %s returns an entry of age %ld s with a maximum age of %g", quote(key).c_str(), (long)(now - x->ts), w.max_age);
        SIM_CHECK(got == w.bodies[x->id], "cache-wrong-module", "find of %s returns a module giving %s, stored was the one giving %s", quote(key).c_str(), quote(got).c_str(), quote(w.bodies[x->id]).c_str());
        w.hits++;
        if (w.k == World::SIMPLE) x->ts = now;
        if (keep && w.used.size() < 4) { w.used.push_back({m, x->id, k}); stat("probe.entry_held"); return; }
        handlebars_cache_release(w.cache, k, m);
    }
    handlebars_string_delref(k);
}
// model of the eviction of the simple cache; returns false when equal ages leave the choice open
bool model_gc(int &removed) {
    World &w = *W;
    std::vector<int64_t> ts; for (auto &x : w.e) ts.push_back(x.ts);
    std::sort(ts.begin(), ts.end());
    bool ties = std::adjacent_find(ts.begin(), ts.end()) != ts.end();
    removed = 0;
    while (!w.e.empty()) {
        size_t o = 0;
        for (size_t i = 1; i < w.e.size(); i++) if (w.e[i].ts < w.e[o].ts) o = i;
        bool over = (w.max_size > 0 && w.total() > w.max_size) || (w.max_entries > 0 && w.e.size() > w.max_entries);
        if (!w.expired(w.e[o]) && !over) break;
        w.e.erase(w.e.begin() + o); removed++;
    }
    return !ties;
}
// after an operation whose effect is not determined (allocation failure, equal ages): look at what is there
void reconcile(const std::vector<Entry> &before, const char *what) {
    World &w = *W;
    w.lossy = true;
    double age = w.cache->max_age; w.cache->max_age = -1;
    w.e.clear();
    for (auto &x : before) {
        hstr *k = mkstr(w.ctx, x.key); handlebars_string_addref(k);
        handlebars_module *m = handlebars_cache_find(w.cache, k);
        if (m) {
            std::string got = execute(m);
            SIM_CHECK(got == w.bodies[x.id], "cache-wrong-module", "after %s, %s returns a module giving %s instead of %s", what, quote(x.key).c_str(), quote(got).c_str(), quote(w.bodies[x.id]).c_str());
            Entry y = x; y.ts = now; w.e.push_back(y);
            handlebars_cache_release(w.cache, k, m);
        }
        handlebars_string_delref(k);
    }
    w.cache->max_age = age;
    struct handlebars_cache_stat st = handlebars_cache_stat(w.cache);
    SIM_CHECK(st.current_entries == w.e.size() && st.current_size == w.total(), "cache-stat", "after %s the cache counts %zu entries and %zu bytes but holds %zu and %zu", what, st.current_entries, st.current_size, w.e.size(), w.total());
}
size_t up8(size_t n) { return (n + 7) / 8 * 8; }
void do_add(const std::string &key, size_t pad, long failat) {
    World &w = *W;
    int id = w.ids++;
    w.bodies.push_back(expect(id, pad));
    hctx *c2 = handlebars_context_ctor();               // the caller's memory is gone after the call
    handlebars_module *m = tpl::compile(c2, source(id, pad), 0);
    hstr *k = mkstr(c2, key);
    if (chance(1, 2, "owned key")) handlebars_string_addref(k);
    size_t size = handlebars_module_get_size(m);
    bool dup = w.find(key) != nullptr;
    Entry *occ = w.k == World::MMAP ? w.in_slot(key) : nullptr;
    bool occ_same = occ && occ->key == key;
    struct handlebars_cache_stat st0 = {}; if (w.k == World::MMAP) st0 = handlebars_cache_stat(w.cache);
    size_t used0 = w.used.size();
    alloc_arm(failat);
    int rc = hb_try(w.ctx, [&] { handlebars_cache_add(w.cache, k, m); });
    long fired = alloc.fired; alloc_disarm();
    bool injected = fired || w.mprotect_failed || w.mdb_failed;
    std::string err = rc && handlebars_error_msg(w.ctx) ? handlebars_error_msg(w.ctx) : "";
    if (rc) hb_clear(w.ctx);
    log("add %s module %d size %zu -> rc=%d %s", quote(key, 20).c_str(), id, size, rc, err.c_str());
    sig(32 + (rc ? 1 : 0) + (dup ? 2 : 0) + (occ ? 4 : 0) + (fired ? 8 : 0));
    if (injected) w.lossy = true;
    if (rc && fired) { SIM_CHECK(rc == HANDLEBARS_NOMEM || err == "Cannot allocate memory", "cache-wrong-error", "add under allocation failure reports %d %s", rc, err.c_str()); stat("probe.add_failed_by_alloc"); nontrivial(); }
    bool mine = true;                                     // the module still belongs to the caller
    Entry fresh{key, id, size, now};
    if (w.k == World::SIMPLE) {
        std::vector<Entry> before = w.e;
        int n = 0; bool sure = true;
        if ((w.max_size && w.total() > w.max_size) || (w.max_entries && w.e.size() > w.max_entries)) { sure = model_gc(n); if (n) { stat("probe.evicted", n); nontrivial(); } }
        if (rc && !injected) SIM_CHECK(dup, "cache-spurious-error", "add of a new key %s fails: %s", quote(key).c_str(), err.c_str());
        if (!rc) { mine = false; before.push_back(fresh); SIM_CHECK(!dup || !w.find(key) || !sure, "cache-duplicate", "adding %s twice is accepted", quote(key).c_str()); }
        if (!sure || fired) {
            if (!rc && dup) { before.pop_back(); for (auto &x : before) if (x.key == key) x = fresh; }      // it was evicted first
            reconcile(before, rc ? "a failed add" : "add");
            if (!rc) SIM_CHECK(w.find(key) && w.find(key)->id == id, "cache-lost", "add of %s did not store it", quote(key).c_str());
        } else if (!rc) w.e.push_back(fresh);
    } else if (w.k == World::MMAP) {
        if (rc) SIM_CHECK(injected, "cache-spurious-error", "add of %s fails: %s", quote(key).c_str(), err.c_str());
        struct handlebars_cache_stat st = handlebars_cache_stat(w.cache);
        size_t need = up8(HBS_STR_SIZE(key.size()) + 1) + up8(size + 1) + up8(17);
        bool fits = st0.current_data_size + need + 64 < st0.total_data_size, cannot = st0.current_data_size + need > st0.total_data_size;
        if (occ) {
            if (!occ_same) w.collisions++;
            SIM_CHECK(st.current_entries == w.e.size(), "cache-stat", "adding to an occupied slot changes the number of entries from %zu to %zu", w.e.size(), st.current_entries);
        } else if (st.current_entries == w.e.size() + 1) {
            SIM_CHECK(!cannot, "cache-overflow", "%zu bytes were stored in a segment with %zu left", need, st0.total_data_size - st0.current_data_size);
            w.e.push_back(fresh);
        } else if (st.current_entries == 0 && (!fits || injected)) {
            if (!w.e.empty()) {
                SIM_CHECK(w.used.empty(), "cache-reset-in-use", "the cache was reset while %zu entries are in use", w.used.size());
                stat("probe.mmap_full_reset"); nontrivial();
            }
            w.e.clear();
        } else {
            SIM_CHECK(st.current_entries == w.e.size(), "cache-stat", "adding one entry changes the number of entries from %zu to %zu", w.e.size(), st.current_entries);
            SIM_CHECK(injected || !fits, "cache-not-stored", "add of %s does not store it although there is room", quote(key).c_str());
            SIM_CHECK(injected || used0 > 0, "cache-not-reset", "add of %s to the full cache does not reset it although nothing is in use", quote(key).c_str());
            stat("probe.mmap_full_in_use");
        }
    } else if (rc) {
        bool full = err.find("MDB_MAP_FULL") != std::string::npos;
        SIM_CHECK(injected || full, "cache-spurious-error", "add of %s fails: %s", quote(key).c_str(), err.c_str());
        if (full) { stat("probe.lmdb_map_full"); nontrivial(); }
    } else { w.drop(key); w.e.push_back(fresh); }
    if (mine) { std::string got = execute(m); SIM_CHECK(got == w.bodies[id], "cache-module-damaged", "after adding it, the module of the caller gives %s instead of %s", quote(got).c_str(), quote(w.bodies[id]).c_str()); }
    handlebars_context_dtor(c2);
}
void damage_records() {
    World &w = *W;
    MDB_env *env; MDB_txn *t; MDB_dbi d; MDB_val k, v;
    if (mdb_env_create(&env) || mdb_env_open(env, w.path.c_str(), MDB_WRITEMAP | MDB_MAPASYNC | MDB_NOSUBDIR, 0644)) broken("cannot open the database");
    for (auto &x : w.e) {
        if (x.key.size() >= 511 || !chance(1, 2, "damage")) continue;
        if (mdb_txn_begin(env, NULL, 0, &t) || mdb_dbi_open(t, NULL, MDB_CREATE, &d)) broken("cannot open the database");
        k.mv_data = (void *)x.key.c_str(); k.mv_size = x.key.size() + 1;
        if (mdb_get(t, d, &k, &v)) { mdb_txn_abort(t); continue; }
        const std::string o((char *)v.mv_data, v.mv_size);
        std::string s = o;
        uint64_t kind = choose(7, "damage kind");
        const char *name = "?";
        switch (kind) {
        case 0: s[choose(s.size(), "byte")] ^= (char)(1 << choose(8, "bit")); name = "fault.record_bit_flip"; break;
        case 1: s.resize(choose(s.size(), "cut")); name = "fault.record_truncated"; break;
        case 2: s += std::string(1 + choose(64), '\x55'); name = "fault.record_extended"; break;
        case 3: { size_t a = choose(s.size(), "from"), n = std::min<size_t>(s.size() - a, 1 + choose(512)); std::fill(s.begin() + a, s.begin() + a + n, 0); name = "fault.record_zeroed_block"; break; }
        case 4: { if (s.size() < sizeof(handlebars_module) || ((handlebars_module *)&s[0])->size != s.size()) break; handlebars_module *mm = (handlebars_module *)&s[0]; mm->version = handlebars_version() ^ (1 + (int)choose(255, "version")); handlebars_module_generate_hash(mm); name = "fault.record_other_version"; break; }
        case 5: { if (s.size() < sizeof(handlebars_module)) break; static const size_t sz[] = {0, 1, 8, 1u << 30, (size_t)-1, 16}; ((handlebars_module *)&s[0])->size = sz[choose(6)]; name = "fault.record_bad_size"; break; }
        case 6: s.clear(); name = "fault.record_empty"; break;
        }
        v.mv_data = (void *)s.data(); v.mv_size = s.size();
        if (mdb_put(t, d, &k, &v, 0)) { mdb_txn_abort(t); continue; }
        if (mdb_txn_commit(t)) broken("commit");
        stat(name);
        if (!x.damaged) x.pristine = o;
        x.damaged = true;
        x.must_miss = s.size() != x.pristine.size() || s.compare(8, std::string::npos, x.pristine, 8, std::string::npos) != 0;
        log("damage %s kind %d", quote(x.key, 20).c_str(), (int)kind);
        nontrivial();
    }
    mdb_env_close(env);
}
void close_cache() {
    World &w = *W;
    if (w.k != World::LMDB || chance(1, 2, "release first")) for (auto &u : w.used) { handlebars_cache_release(w.cache, u.key, u.m); handlebars_string_delref(u.key); }
    w.used.clear();
    size_t all = talloc_total_blocks(w.ctx), its = talloc_total_blocks(w.cache);
    handlebars_cache_dtor(w.cache); w.cache = nullptr;
    SIM_CHECK(talloc_total_blocks(w.ctx) + its <= all, "leak", "the context has %zu blocks, %zu of them in the cache, and %zu after the cache is destroyed", all, its, talloc_total_blocks(w.ctx));
}
// another process uses the database and is killed at a chosen call into it
void other_process() {
    World &w = *W;
    int nops = 1 + (int)choose(3, "ops of the process");
    struct Op { std::string key; size_t pad; int kind; };
    std::vector<Op> ops;
    for (int i = 0; i < nops; i++) { std::string key = rnd_key(); size_t pad = choose(3) ? choose(40) : choose(4000); ops.push_back({key, pad, (int)choose(7, "op kind")}); }
    long kill_at = choose(3) ? 1 + (long)choose(choose(2) ? 6 : 30, "killed at") : -1;
    bool silent = chance(1, 2, "ends without closing");
    int base_id = w.ids;
    for (auto &o : ops) { w.bodies.push_back(expect(w.ids, o.pad)); w.ids++; }
    int fds[2]; if (pipe(fds)) broken("pipe");
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0) {
        after_fork_child();
        seams.in_child_process = true;
        close(fds[0]);
        hctx *c = handlebars_context_ctor();
        char done = 0;
        int rc = hb_try(c, [&] {
            std::vector<handlebars_module *> mods;
            for (size_t i = 0; i < ops.size(); i++) mods.push_back(tpl::compile(c, source(base_id + (int)i, ops[i].pad), 0));
            handlebars_cache *cache = handlebars_cache_lmdb_ctor(c, w.path.c_str());
            cache->max_age = w.max_age;
            w.n_mdb = 0; w.kill_mdb = kill_at; w.fail_mdb = -1;
            for (size_t i = 0; i < ops.size(); i++) {
                if (ops[i].kind == 6) handlebars_cache_reset(cache);
                else if (ops[i].kind == 5) { handlebars_module *m = handlebars_cache_find(cache, mkstr(c, ops[i].key)); (void)m; }
                else if (ops[i].kind == 4) handlebars_cache_gc(cache);
                else handlebars_cache_add(cache, mkstr(c, ops[i].key), mods[i]);
                done++; ssize_t x = write(fds[1], &done, 1); (void)x;
            }
            if (silent) _exit(0);
            handlebars_cache_dtor(cache);
        });
        _exit(rc ? 7 : 0);
    }
    close(fds[1]);
    char buf; int done = 0; while (read(fds[0], &buf, 1) == 1) done = buf;
    close(fds[0]);
    int st; waitpid(pid, &st, 0);
    bool killed = WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL;
    if (killed) { stat("fault.process_killed"); nontrivial(); }
    for (auto &o : ops) log("  %s %s", o.kind == 6 ? "reset" : o.kind == 5 ? "find" : o.kind == 4 ? "gc" : "add", quote(o.key, 20).c_str());
    log("other process: %d of %d operations done, %s", done, nops, killed ? "killed" : "ended");
    SIM_CHECK(killed || (WIFEXITED(st) && (WEXITSTATUS(st) == 0 || WEXITSTATUS(st) == 7)), "cache-crash", "a process using the database ended with status %x", st);
    // operations that returned are there to stay (the system did not crash); the one in progress happened or did not
    for (int i = 0; i < nops && i <= done; i++) {
        bool sure = i < done;
        if (ops[i].kind == 5 || (!sure && !killed)) continue;
        if (ops[i].kind == 4) { for (auto it = w.e.begin(); it != w.e.end();) if (w.expired(*it) && sure) it = w.e.erase(it); else { if (w.may_be_expired(*it) || it->damaged) it->maybe_absent = w.uncertain = true; ++it; } continue; }
        if (ops[i].kind == 6) { if (sure) w.e.clear(); else for (auto &x : w.e) x.maybe_absent = w.uncertain = true; continue; }
        if (sure) { w.drop(ops[i].key); w.e.push_back({ops[i].key, base_id + i, 0, now}); continue; }
        w.uncertain = true;
        Entry *x = w.find(ops[i].key);
        if (x) { x->alt.push_back({base_id + i, now}); x->must_miss = false; if (x->damaged) x->maybe_absent = true; }
        else { Entry y{ops[i].key, base_id + i, 0, now}; y.maybe_absent = true; w.e.push_back(y); }
    }
}
void check_stat() {
    World &w = *W;
    struct handlebars_cache_stat st = handlebars_cache_stat(w.cache);
    if (!w.uncertain) SIM_CHECK(st.current_entries == w.e.size(), "cache-stat", "the cache reports %zu entries, %zu are stored", st.current_entries, w.e.size());
    if (w.k == World::SIMPLE) SIM_CHECK(st.current_size == w.total(), "cache-stat", "the cache reports %zu bytes, %zu are stored", st.current_size, w.total());
    if (w.k != World::LMDB) SIM_CHECK(st.refcount == w.used.size(), "cache-stat", "the cache reports %zu entries in use, %zu are", st.refcount, w.used.size());
    if (!w.lossy) {
        SIM_CHECK(st.hits == w.hits && st.misses == w.misses, "cache-stat", "the cache reports %zu hits and %zu misses, there were %zu and %zu", st.hits, st.misses, w.hits, w.misses);
        if (w.k == World::MMAP) SIM_CHECK(st.collisions == w.collisions, "cache-stat", "the cache reports %zu collisions, there were %zu", st.collisions, w.collisions);
    }
}
bool mdb_point(const char *name, int *err) {
    if (!W || W->k != World::LMDB) return false;
    W->n_mdb++;
    if (W->n_mdb == W->kill_mdb) kill(getpid(), SIGKILL);
    if (W->n_mdb == W->fail_mdb) { W->mdb_failed = true; *err = W->mdb_err; stat((std::string("fault.") + name + "_failed").c_str()); return true; }
    return false;
}
void txn_open(void *t) { if (W) W->txns.push_back(t); }
void txn_end(void *t, const char *how) {
    if (!W) return;
    auto it = std::find(W->txns.begin(), W->txns.end(), t);
    if (it == W->txns.end()) violation("cache-transaction", "%s of a transaction that has already ended", how);
    W->txns.erase(it);
}
void reset_world() { W = nullptr; }
struct Init { Init() { on_reset(reset_world); } } init_;
}

extern "C" {
int __real_mdb_txn_begin(MDB_env *, MDB_txn *, unsigned, MDB_txn **);
int __wrap_mdb_txn_begin(MDB_env *e, MDB_txn *p, unsigned f, MDB_txn **t) { int r; if (mdb_point("mdb_txn_begin", &r)) return r; r = __real_mdb_txn_begin(e, p, f, t); if (!r) txn_open(*t); return r; }
void __real_mdb_txn_abort(MDB_txn *);
void __wrap_mdb_txn_abort(MDB_txn *t) { txn_end(t, "abort"); __real_mdb_txn_abort(t); }
int __real_mdb_txn_commit(MDB_txn *);
int __wrap_mdb_txn_commit(MDB_txn *t) { int r; txn_end(t, "commit"); if (mdb_point("mdb_txn_commit", &r)) { __real_mdb_txn_abort(t); return r; } r = __real_mdb_txn_commit(t); int x; if (W && W->kill_mdb >= 0) { W->fail_mdb = -1; mdb_point("", &x); } return r; }
int __real_mdb_put(MDB_txn *, MDB_dbi, MDB_val *, MDB_val *, unsigned);
int __wrap_mdb_put(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v, unsigned f) { int r; if (mdb_point("mdb_put", &r)) return r; return __real_mdb_put(t, d, k, v, f); }
int __real_mdb_get(MDB_txn *, MDB_dbi, MDB_val *, MDB_val *);
int __wrap_mdb_get(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v) { int r; if (mdb_point("mdb_get", &r)) return r; return __real_mdb_get(t, d, k, v); }
int __real_mdb_del(MDB_txn *, MDB_dbi, MDB_val *, MDB_val *);
int __wrap_mdb_del(MDB_txn *t, MDB_dbi d, MDB_val *k, MDB_val *v) { int r; if (mdb_point("mdb_del", &r)) return r; return __real_mdb_del(t, d, k, v); }
int __real_mdb_dbi_open(MDB_txn *, const char *, unsigned, MDB_dbi *);
int __wrap_mdb_dbi_open(MDB_txn *t, const char *n, unsigned f, MDB_dbi *d) { int r; if (mdb_point("mdb_dbi_open", &r)) return r; return __real_mdb_dbi_open(t, n, f, d); }
int __real_mdb_drop(MDB_txn *, MDB_dbi, int);
int __wrap_mdb_drop(MDB_txn *t, MDB_dbi d, int del) { int r; if (mdb_point("mdb_drop", &r)) return r; return __real_mdb_drop(t, d, del); }
int __real_mdb_cursor_open(MDB_txn *, MDB_dbi, MDB_cursor **);
int __wrap_mdb_cursor_open(MDB_txn *t, MDB_dbi d, MDB_cursor **c) { int r; if (mdb_point("mdb_cursor_open", &r)) return r; return __real_mdb_cursor_open(t, d, c); }
int __real_mdb_cursor_get(MDB_cursor *, MDB_val *, MDB_val *, MDB_cursor_op);
int __wrap_mdb_cursor_get(MDB_cursor *c, MDB_val *k, MDB_val *v, MDB_cursor_op o) { int r; if (mdb_point("mdb_cursor_get", &r)) return r; return __real_mdb_cursor_get(c, k, v, o); }
int __real_mdb_cursor_del(MDB_cursor *, unsigned);
int __wrap_mdb_cursor_del(MDB_cursor *c, unsigned f) { int r; if (mdb_point("mdb_cursor_del", &r)) return r; return __real_mdb_cursor_del(c, f); }
int __real_mdb_stat(MDB_txn *, MDB_dbi, MDB_stat *);
int __wrap_mdb_stat(MDB_txn *t, MDB_dbi d, MDB_stat *s) { int r; if (mdb_point("mdb_stat", &r)) return r; return __real_mdb_stat(t, d, s); }
int __real_mdb_env_open(MDB_env *, const char *, unsigned, mdb_mode_t);
int __wrap_mdb_env_open(MDB_env *e, const char *p, unsigned f, mdb_mode_t m) { int r; if (mdb_point("mdb_env_open", &r)) return r; return __real_mdb_env_open(e, p, f, m); }
}

WORLD(cache) {
    World w; W = &w;
    const char *kind = option("kind");
    w.k = !kind || !strcmp(kind, "simple") ? World::SIMPLE : !strcmp(kind, "mmap") ? World::MMAP : World::LMDB;
    bool faults = chance(1, 2, "faults on");
    w.ctx = handlebars_context_ctor();
    if (chance(1, 2, "limits")) { w.max_entries = choose(6, "max entries"); w.max_size = choose(2) ? 0 : choose(20000, "max size"); }
    static const size_t slots[] = {1, 2, 3, 7, 64, 511, 1000};
    w.slots = slots[choose(7, "slots")];
    static const size_t sizes[] = {12288, 16384, 16383, 20000, 40960, 131072};
    w.data_size = sizes[choose(6, "segment size")];
    while ((w.slots * 8 + 4095) / 4096 * 4096 + 4096 >= (w.data_size + 4095) / 4096 * 4096) w.data_size += 4096;
    seams.mprotect = sim_mprotect; seams.usleep = sim_usleep;
    if (w.k == World::LMDB) { scratch_clean(); w.path = scratch_dir() + "/db"; }
    if (w.k == World::MMAP && chance(1, 8, "bad sizes")) {
        static const size_t bad[] = {0, 1, 4096, 8192, (size_t)-1, (size_t)1 << 32, (size_t)1 << 61, ((size_t)1 << 61) + 1, 512, 100000};
        size_t sz = bad[choose(10, "bad size")], en = bad[choose(10, "bad entries")];
        if (sz == (size_t)1 << 32 || sz == (size_t)1 << 61 || sz == ((size_t)1 << 61) + 1) sz = 8192;
        handlebars_cache *volatile c = nullptr;
        int rc = hb_try(w.ctx, [&] { c = handlebars_cache_mmap_ctor(w.ctx, sz, en); });
        log("open size=%zu entries=%zu -> %d", sz, en, rc);
        if (rc) hb_clear(w.ctx);
        else {
            struct handlebars_cache_stat st = handlebars_cache_stat(c);
            SIM_CHECK(en > 0 && st.total_table_size / 8 >= en && st.total_table_size + st.total_data_size < st.total_size, "cache-bad-size", "a cache of %zu bytes and %zu entries is accepted", sz, en);
            handlebars_cache_dtor(c);
        }
    }
    if (w.k == World::LMDB && faults && chance(1, 6, "open fails")) {
        w.fail_mdb = 1; w.mdb_err = EACCES;
        int rc = hb_try(w.ctx, [&] { handlebars_cache *c = handlebars_cache_lmdb_ctor(w.ctx, w.path.c_str()); (void)c; });
        SIM_CHECK(rc == HANDLEBARS_ERROR, "cache-wrong-error", "opening an unreadable database reports %d", rc);
        hb_clear(w.ctx);
    }
    open_cache();
    int big = w.k == World::LMDB ? 4 : 3;
    for (int n = 0; n < 80; n++) {
        Span sp;
        if (!chance(60, 61, "more")) break;
        step();
        if (w.k == World::SIMPLE && chance(9, 10, "tick")) now++;
        w.n_mprotect = w.n_mdb = 0; w.fail_mprotect = w.fail_mdb = -1; w.mprotect_failed = w.mdb_failed = false;
        long failat = -1;
        if (faults && chance(1, 4, "fault?")) {
            failat = 1 + (long)choose(6, "alloc fails at");
            w.fail_mprotect = 1 + (long)choose(4, "mprotect fails at");
            w.fail_mdb = 1 + (long)choose(6, "mdb call fails at");
            static const int errs[] = {EIO, ENOSPC, ENOMEM, MDB_MAP_FULL, MDB_PANIC, MDB_CORRUPTED};
            w.mdb_err = errs[choose(6, "mdb error")];
            if (w.k == World::LMDB) { if (choose(3)) failat = -1; else w.fail_mdb = -1; }
            if (w.k == World::MMAP) failat = -1;
        }
        uint64_t op = choose(20, "op");
        const char *what = "?";
        if (op < 6) { what = "add"; std::string key = rnd_key(); uint64_t b = choose(big + 12, "size class"); size_t pad = b < 12 ? choose(60) : b == 12 ? choose(3000) : b == 15 ? 200000 : choose(12000); do_add(key, pad, failat); }
        else if (op < 12) { what = "find"; do_find(rnd_key(), failat, chance(1, 3, "keep")); }
        else if (op == 12) { what = "release"; if (!w.used.empty()) { size_t i = choose(w.used.size()); Use u = w.used[i]; handlebars_cache_release(w.cache, u.key, u.m); handlebars_string_delref(u.key); w.used.erase(w.used.begin() + i); log("release"); } }
        else if (op == 13 || op == 14) {
            what = "gc";
            std::vector<Entry> before = w.e;
            int want = 0; bool sure = true;
            if (w.k == World::SIMPLE) sure = model_gc(want);
            volatile int got = -1; alloc_arm(failat);
            int rc = hb_try(w.ctx, [&] { got = handlebars_cache_gc(w.cache); });
            long fired = alloc.fired; alloc_disarm();
            log("gc -> rc=%d removed=%d", rc, got); sig(64 + (got > 0) + 2 * (rc != 0));
            if (rc) {
                SIM_CHECK(fired || w.mdb_failed || (w.k == World::LMDB && strstr(handlebars_error_msg(w.ctx), "MDB_MAP_FULL")), "cache-spurious-error", "gc fails: %s", handlebars_error_msg(w.ctx));
                hb_clear(w.ctx); w.lossy = true; stat("probe.gc_failed_by_fault"); nontrivial();
                if (w.k == World::SIMPLE) reconcile(before, "a failed gc");
            } else if (w.k == World::SIMPLE) {
                SIM_CHECK(!sure || got == want, "cache-gc", "gc removes %d entries, %d are due", got, want);
                if (!sure || fired) { reconcile(before, "gc"); SIM_CHECK((int)(before.size() - w.e.size()) == got, "cache-gc", "gc reports %d removed entries, %zu are gone", got, before.size() - w.e.size()); SIM_CHECK(got == want || fired || !sure, "cache-gc", "gc removes %d entries, %d are due", got, want);
                    bool over = (w.max_size > 0 && w.total() > w.max_size) || (w.max_entries > 0 && w.e.size() > w.max_entries); SIM_CHECK(!over, "cache-gc", "gc leaves the cache above its limits"); }
                if (got > 0) { stat("probe.evicted", got); nontrivial(); }
            } else if (w.k == World::LMDB) {
                int lo = 0, hi = 0;
                for (auto it = w.e.begin(); it != w.e.end();) {
                    if (it->damaged) { hi++; it->maybe_absent = true; w.uncertain = true; ++it; }
                    else if (w.expired(*it)) { (it->maybe_absent ? hi : lo)++; it = w.e.erase(it); }
                    else { if (!it->alt.empty()) { hi++; it->maybe_absent = w.uncertain = true; } ++it; }
                }
                SIM_CHECK(got >= lo && got <= lo + hi, "cache-gc", "gc removes %d entries, between %d and %d are due", got, lo, lo + hi);
                if (got > 0) { stat("probe.evicted", got); nontrivial(); }
            } else SIM_CHECK(got == 0, "cache-gc", "gc of the mmap cache reports %d", got);
        } else if (op == 15) {
            what = "reset";
            if (chance(1, 2, "skip")) continue;
            size_t used0 = w.used.size(); std::vector<Entry> before = w.e; alloc_arm(failat);
            int rc = hb_try(w.ctx, [&] { handlebars_cache_reset(w.cache); });
            long fired = alloc.fired; alloc_disarm();
            log("reset -> rc=%d in use %zu", rc, w.used.size()); sig(128 + (rc != 0));
            if (rc) { SIM_CHECK(fired || w.mdb_failed || w.mprotect_failed || (w.k == World::LMDB && strstr(handlebars_error_msg(w.ctx), "MDB_MAP_FULL")), "cache-spurious-error", "reset fails: %s", handlebars_error_msg(w.ctx)); hb_clear(w.ctx); w.lossy = true; stat("probe.reset_failed_by_fault"); nontrivial();
                if (w.k == World::SIMPLE) reconcile(before, "a failed reset");
                if (w.k == World::MMAP && handlebars_cache_stat(w.cache).current_entries == 0) w.e.clear(); }
            else if (w.k == World::MMAP && !w.used.empty()) { stat("probe.reset_gave_up"); nontrivial(); }
            else { if (used0 && w.k == World::MMAP && w.used.empty()) stat("probe.reset_after_wait"); w.e.clear(); if (w.k != World::MMAP) { w.hits = w.misses = 0; if (!w.uncertain) w.lossy = false; } w.uncertain = false; }
        } else if (op == 16) {
            what = "clock"; static const long d[] = {1, 5, 10, 60, 3600, 100000, -3, -100};
            long x = d[choose(8, "clock")]; now += x; if (x > 0) stat("sim.seconds", x); else stat("fault.clock_backwards"); log("clock %+ld", x); if (x > 1000) stat("fault.clock_jump");
        } else if (op == 17) {
            what = "limits"; static const double a[] = {-1, 0, 1, 5, 30, 4000};
            w.max_age = a[choose(6, "max age")]; if (w.k == World::SIMPLE) { w.max_entries = choose(6); w.max_size = choose(2) ? 0 : choose(20000); if (chance(1, 2, "exactly what the youngest need")) { auto x = w.e; std::sort(x.begin(), x.end(), [](const Entry &a, const Entry &b) { return a.ts > b.ts; }); size_t n = choose(x.size() + 1, "how many"), t = 0; for (size_t i = 0; i < n; i++) t += x[i].size; w.max_size = t + choose(3) - (t ? 1 : 0); } }
            w.cache->max_age = w.max_age; w.cache->max_entries = w.max_entries; w.cache->max_size = w.max_size;
            log("max age %g entries %zu size %zu", w.max_age, w.max_entries, w.max_size);
        } else if (op == 18) {
            what = "restart"; if (chance(1, 2, "skip")) continue;
            w.fail_mdb = w.fail_mprotect = -1;
            log("restart"); close_cache();
            if (w.k == World::LMDB) { if (chance(1, 2, "damage?")) { damage_records(); } if (chance(1, 3, "other process while closed")) other_process(); } else w.e.clear();
            open_cache(); w.lossy = w.lossy && w.k == World::MMAP ? false : w.lossy;
            if (w.k != World::MMAP) { w.hits = w.misses = 0; w.lossy = false; }
            stat("fault.restart"); nontrivial();
        } else { what = "other process"; if (w.k == World::LMDB && chance(1, 2, "other process")) other_process(); }
        w.fail_mprotect = w.fail_mdb = -1;
        SIM_CHECK(w.txns.empty(), "cache-transaction", "%s leaves a transaction open", what);
        check_used(what);
        check_stat();
    }
    now += 0;
    close_cache();
    handlebars_context_dtor(w.ctx);
    if (w.k == World::LMDB) scratch_clean();
    W = nullptr;
}

// World "cached": several VMs with different templates, flags and data share one cache for their partials, while gc,
// reset, clock jumps, nested renders and faults happen between and during renders. A render must be what the reference
// interpreter (which knows no cache) gives.
namespace {
using namespace tpl;
struct Rend { Case c; Result base; handlebars_vm *vm = nullptr; handlebars_module *m = nullptr; Rec rec; hval *input = nullptr; bool busy = false; };
std::vector<Rend *> *R;
bool hooks_on; int hook_depth;
Result render(Rend &r) {
    Result g; r.rec.calls.clear(); r.rec.n = 0;
    hstr *volatile out = nullptr;
    r.busy = true;
    g.err = hb_try(W->ctx, [&] { out = handlebars_vm_execute(r.vm, r.m, r.input); });
    r.busy = false;
    if (g.err) { const char *m = handlebars_error_msg(W->ctx); g.msg = m ? m : ""; hb_clear(W->ctx); } else g.out = S(out);
    g.calls = r.rec.calls;
    return g;
}
void clock_op() { static const long d[] = {1, 5, 60, 100000, -3}; long x = d[choose(5, "clock")]; now += x; if (x > 0) stat("sim.seconds", x); else stat("fault.clock_backwards"); if (x > 1000) stat("fault.clock_jump"); log("clock %+ld", x); }
void maintenance() {
    World &w = *W;
    switch (choose(4, "maintenance")) {
    case 0: log("gc"); handlebars_cache_gc(w.cache); stat("probe.gc_during_render", hook_depth ? 1 : 0); break;
    case 1: log("reset"); handlebars_cache_reset(w.cache); stat("probe.reset_during_render", hook_depth ? 1 : 0); break;
    case 2: clock_op(); break;
    case 3: { static const double a[] = {-1, 0, 1, 30}; w.cache->max_age = a[choose(4, "max age")]; w.cache->max_entries = choose(5); w.cache->max_size = choose(2) ? 0 : choose(30000); log("limits %g %zu %zu", w.cache->max_age, w.cache->max_entries, w.cache->max_size); break; }
    }
}
void hook(void *, hctx *ctx) {
    if (!hooks_on || hook_depth || !chance(1, 3, "during a helper")) return;
    hook_depth++;
    nontrivial();
    if (chance(1, 3, "nested render")) {
        Rend &r = *(*R)[choose(R->size(), "nested vm")];
        if (!r.busy) {
            Result got = render(r); std::string why;
            log("nested render: err=%d out=%s", got.err, quote(got.out).c_str());
            stat("probe.nested_render");
            SIM_CHECK(compare(r.base, got, why), "cached-render", "a render inside a helper: %s", why.c_str());
        }
    } else {
        World &w = *W;
        int rc = hb_try(w.ctx, maintenance);
        if (rc) { SIM_CHECK(w.k == World::LMDB && strstr(handlebars_error_msg(w.ctx), "MDB_"), "cache-spurious-error", "cache maintenance fails: %s", handlebars_error_msg(w.ctx)); hb_clear(w.ctx); }
    }
    hook_depth--;
    (void)ctx;
}
void reset_cached() { R = nullptr; hooks_on = false; hook_depth = 0; }
struct Init2 { Init2() { on_reset(reset_cached); } } init2_;
}

WORLD(cached) {
    World w; W = &w;
    const char *kind = option("kind");
    static const World::K ks[] = {World::SIMPLE, World::MMAP, World::LMDB};
    w.k = kind ? (!strcmp(kind, "simple") ? World::SIMPLE : !strcmp(kind, "mmap") ? World::MMAP : World::LMDB) : ks[choose(8, "kind") % 8 == 7 ? 2 : choose(2, "kind2")];
    w.ctx = handlebars_context_ctor();
    static const double ages[] = {-1, -1, 0, 1, 30};
    w.max_age = ages[choose(5, "max age")]; w.max_entries = choose(2) ? 0 : choose(5); w.max_size = choose(2) ? 0 : choose(30000);
    static const size_t slots[] = {64, 1, 2, 7, 300}, sizes[] = {1 << 20, 16384, 20000, 40000, 65536};
    w.slots = slots[choose(5, "slots")]; w.data_size = sizes[choose(5, "segment size")];
    seams.mprotect = sim_mprotect; seams.usleep = sim_usleep;
    if (w.k == World::LMDB) { scratch_clean(); w.path = scratch_dir() + "/db"; }
    open_cache();
    std::vector<Rend *> rs; R = &rs;
    int n = 1 + (int)choose(3, "vms"); bool delims = chance(1, 12, "delimiters");
    for (int i = 0; i < n; i++) {
        Rend *r = new Rend; GenOpt o; o.broken_partials = o.modes = true; o.npartials = 5; o.size = 5; if (delims) o.delims = true; else if (chance(1, 8, "mustache")) o.mlambdas = true;
        bool shared = !rs.empty() && chance(2, 3, "same templates");
        if (shared) {       // the same templates with other flags and other data
            r->c = rs[0]->c; Case other = generate(o); r->c.root = other.root;
            if (chance(1, 2, "other escape flag")) r->c.flags ^= handlebars_compiler_flag_no_escape;
            static const unsigned long modes[] = {handlebars_compiler_flag_compat, handlebars_compiler_flag_strict, handlebars_compiler_flag_assume_objects, handlebars_compiler_flag_prevent_indent, handlebars_compiler_flag_ignore_standalone};
            if (chance(1, 2, "other mode")) r->c.flags ^= modes[delims ? 1 + choose(4) : choose(5, "mode")];
            if (chance(1, 4, "other context flag")) r->c.flags ^= handlebars_compiler_flag_explicit_partial_context;
            if (chance(1, 3, "same data")) r->c.root = rs[0]->c.root;
        } else r->c = generate(o);
        r->base = evaluate(r->c, r->c.root, Fault());
        if (r->base.skipped) { delete r; stat("sim.skipped_too_big"); continue; }
        std::string src = print(*r->c.main);
        log("vm %zu kind %d flags=%lx data=%s", rs.size(), w.k, r->c.flags, dump(r->c.root).c_str());
        log("template=%s", quote(src, 4000).c_str());
        for (auto &pd : r->c.partials) log("partial %s=%s", pd.name.c_str(), quote(source_of(pd), 2000).c_str());
        r->rec.hook = hook;
        r->vm = handlebars_vm_ctor(w.ctx);
        setup_vm(w.ctx, r->vm, r->c, &r->rec);
        handlebars_vm_set_cache(r->vm, w.cache);
        r->input = (hval *)calloc(1, HANDLEBARS_VALUE_SIZE);
        handlebars_value_init(r->input);
        build_value(w.ctx, r->input, r->c.root, P_NATIVE, &r->rec);
        r->m = compile(w.ctx, src, r->c.flags);
        rs.push_back(r);
        if (rs.size() == 1 && r->base.skipped) break;
    }
    if (rs.empty()) { close_cache(); handlebars_context_dtor(w.ctx); W = nullptr; return; }
    bool faults = chance(1, 2, "faults on");
    for (int op = 0; op < 24; op++) {
        Span sp;
        if (!chance(16, 17, "more")) break;
        step();
        w.n_mprotect = w.n_mdb = 0; w.fail_mprotect = w.fail_mdb = -1; w.mprotect_failed = w.mdb_failed = false; hooks_on = false;
        uint64_t k = choose(10, "op");
        if (k == 7) { int rc = hb_try(w.ctx, maintenance); if (rc) { SIM_CHECK(w.k == World::LMDB && strstr(handlebars_error_msg(w.ctx), "MDB_"), "cache-spurious-error", "cache maintenance fails: %s", handlebars_error_msg(w.ctx)); hb_clear(w.ctx); } continue; }
        if (k == 8) { clock_op(); continue; }
        if (k == 9) { if (!chance(1, 3, "reopen")) continue; log("reopen"); close_cache(); open_cache(); for (auto r : rs) handlebars_vm_set_cache(r->vm, w.cache); stat("fault.restart"); continue; }
        Rend &r = *rs[choose(rs.size(), "vm")];
        Fault f; r.rec.fault = -1; long failat = -1, faillen = 1;
        if (w.k == World::SIMPLE) now++;
        uint64_t fk = faults ? choose(5, "fault") : 0;
        if (fk == 1 && !r.base.calls.empty()) { f.call = r.rec.fault = 1 + (long)choose(r.base.calls.size(), "failing call"); nontrivial(); }
        if (fk == 2) { failat = 1 + (long)choose(choose(2) ? 40 : choose(2) ? 400 : 4000, "alloc"); faillen = choose(4) ? 1 : 1000000; }
        if (fk == 3) { w.fail_mprotect = 1 + (long)choose(8, "mprotect"); w.fail_mdb = 1 + (long)choose(20, "mdb call"); static const int errs[] = {EIO, ENOSPC, ENOMEM, MDB_PANIC}; w.mdb_err = errs[choose(4)]; }
        hooks_on = fk < 2;
        Result want = f.call < 0 ? r.base : evaluate(r.c, r.c.root, f);
        if (failat >= 0) alloc_arm(failat, faillen);
        Result got = render(r);
        long fired = failat >= 0 ? alloc.fired : 0; alloc_disarm();
        hooks_on = false; r.rec.fault = -1;
        bool injected = fired > 0 || w.mprotect_failed || w.mdb_failed;
        w.fail_mprotect = w.fail_mdb = -1;
        std::string why;
        struct handlebars_cache_stat st = handlebars_cache_stat(w.cache);
        log("render %d fault %d: err=%d %s out=%s calls=%zu cache hits=%zu misses=%zu", (int)(&r == rs[0] ? 0 : 1), (int)fk, got.err, quote(got.msg).c_str(), quote(got.out).c_str(), got.calls.size(), st.hits, st.misses);
        sig(got.err * 131 + got.calls.size() * 7 + fk + 1000 * std::min<size_t>(st.hits, 50) + 100000 * std::min<size_t>(st.misses, 50));
        if (st.hits) { stat("probe.hits"); nontrivial(); }
        if (injected) nontrivial();
        if (got.err && injected && !compare(want, got, why)) {
            if (fired) SIM_CHECK(got.err == HANDLEBARS_NOMEM || got.msg == "Cannot allocate memory" /* LMDB's own */, "cached-wrong-error", "a render under allocation failure ends with %d %s", got.err, got.msg.c_str());
            stat("probe.render_failed_by_fault");
            for (size_t i = 0; i < got.calls.size(); i++) SIM_CHECK(i < want.calls.size() && got.calls[i] == want.calls[i], "cached-render", "call %zu before the failure was %s", i, got.calls[i].c_str());
        } else SIM_CHECK(compare(want, got, why), "cached-render", "%s", why.c_str());
        if (w.k != World::LMDB) SIM_CHECK(st.refcount == 0, "cache-refcount", "after a render %zu cache entries are still in use", st.refcount);
        SIM_CHECK(w.txns.empty(), "cache-transaction", "a render leaves a transaction open");
    }
    for (auto r : rs) { handlebars_value_dtor(r->input); handlebars_vm_dtor(r->vm); free(r->input); delete r; }
    R = nullptr;
    close_cache();
    handlebars_context_dtor(w.ctx);
    if (w.k == World::LMDB) scratch_clean();
    W = nullptr;
}
