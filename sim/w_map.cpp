// World "map": histories over shared (copy-on-write) maps against an insertion-ordered reference model,
// with allocation failures inside every operation.
#include "hb.h"
#include <algorithm>
using namespace sim;

namespace {
typedef std::vector<std::pair<std::string, long>> Model;
struct Holder { handlebars_map *m; Model model; };

static const char *POOL[] = {"a", "b", "c", "qahvjo", "wjyhay", "", "foo", "bar", "mbiwgc", "vsgixm", "@index", "length",
    "k1", "k2", "k3", "k4", "k5", "k6", "k7", "k8", "k9", "k10", "k11", "k12", "aaaaaafiicqj", "aaaaaassnwjs"};

std::string key_at(uint64_t i) {
    if (i < sizeof POOL / sizeof *POOL) return POOL[i];
    if (i == sizeof POOL / sizeof *POOL) return std::string("x\0y", 3);
    char b[32]; snprintf(b, sizeof b, "key_%u", (unsigned)i); return b;
}
Model::iterator mfind(Model &m, const std::string &k) { return std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; }); }

Model read_map(handlebars_map *m) {
    Model r;
    handlebars_map_foreach(m, i, key, value) {
        r.push_back({S(key), handlebars_value_get_intval(value)});
    } handlebars_map_foreach_end(m);
    return r;
}
std::string show(const Model &m) { std::string r = "{"; for (auto &p : m) r += quote(p.first) + ":" + std::to_string(p.second) + " "; return r + "}"; }

int cmp_key(const handlebars_map_kv_pair *a, const handlebars_map_kv_pair *b) {
    std::string x = S(a->key), y = S(b->key); return x < y ? -1 : x > y;
}
int cmp_val_r(const handlebars_map_kv_pair *a, const handlebars_map_kv_pair *b, const void *arg) {
    long x = handlebars_value_get_intval(a->value), y = handlebars_value_get_intval(b->value);
    long s = *(const long *)arg; return x * s < y * s ? -1 : x * s > y * s;
}
}

WORLD(map) {
    hctx *ctx = handlebars_context_ctor();
    size_t blocks0 = talloc_total_blocks(ctx);
    bool faults = chance(1, 2, "faults on");
    uint64_t nkeys = 1 + choose(chance(1, 4) ? 120 : 27, "key pool");
    unsigned fault_rate = faults ? 1 + choose(4, "rate") : 0;
    uint64_t remove_bias = choose(3, "remove bias");
    long uniq = 0; bool any_fault = false;
    std::vector<Holder> hs;
    {
        size_t cap = choose(40, "capacity");
        handlebars_map *m = handlebars_map_ctor(ctx, cap);
        handlebars_map_addref(m);
        hs.push_back({m, {}});
        log("ctor capacity=%zu", cap);
    }
    HANDLEBARS_VALUE_DECL(val);
    for (int n = 0; n < 160; n++) {
        Span sp;
        if (!chance(150, 151, "more")) break;
        step();
        uint64_t hi = choose(hs.size(), "holder");
        Holder &h = hs[hi];
        uint64_t op = choose(16 + remove_bias * 3, "op");
        std::string key = key_at(choose(nkeys, "key"));
        bool viastr = chance(1, 3, "str api");
        long failat = -1;
        if (fault_rate && chance(fault_rate, 10, "fault?")) failat = 1 + (long)choose(3, "fail at");
        Model before = h.model;
        handlebars_map *m0 = h.m;
        handlebars_map *volatile r = nullptr;
        handlebars_value_integer(val, ++uniq);
        hstr *k = mkstr(ctx, key);
        handlebars_string_addref(k);
        auto it = mfind(h.model, key);
        bool exists = it != h.model.end();
        int rc = 0; bool expect_throw = false; const char *name = "?";
        alloc_arm(failat);
        switch (op) {
        case 0: case 1: case 2: case 3: case 4:
            name = "update";
            rc = hb_try(ctx, [&] { r = viastr ? handlebars_map_str_update(m0, key.data(), key.size(), val) : handlebars_map_update(m0, k, val); });
            if (exists) it->second = uniq; else h.model.push_back({key, uniq});
            break;
        case 5: case 6:
            name = "add"; expect_throw = exists;
            rc = hb_try(ctx, [&] { r = viastr ? handlebars_map_str_add(m0, key.data(), key.size(), val) : handlebars_map_add(m0, k, val); });
            if (!exists) h.model.push_back({key, uniq});
            break;
        case 7: case 8: case 9: {
            name = "find"; r = m0;
            hval *volatile f = nullptr;
            rc = hb_try(ctx, [&] { f = viastr ? handlebars_map_str_find(m0, key.data(), key.size()) : handlebars_map_find(m0, k); });
            alloc_disarm();
            if (rc == 0) {
                SIM_CHECK((f != nullptr) == exists, "map-find", "find(%s) -> %s, but the key is %s the map %s", quote(key).c_str(), f ? "found" : "absent", exists ? "in" : "not in", show(before).c_str());
                if (f) SIM_CHECK(handlebars_value_get_intval(f) == it->second, "map-find", "find(%s) -> %ld, expected %ld", quote(key).c_str(), handlebars_value_get_intval(f), it->second);
            }
            break; }
        case 10:
            name = "copy";
            { handlebars_map *volatile c = nullptr; size_t cap = choose(30, "copy capacity");
              rc = hb_try(ctx, [&] { c = handlebars_map_copy_ctor(m0, cap); });
              r = m0;
              if (rc == 0) {
                  handlebars_map_addref(c);
                  if (hs.size() < 3) { Model mm = h.model; hs.push_back({c, mm}); }
                  else handlebars_map_delref(c);
              } }
            break;
        case 11:
            name = "share"; r = m0;
            if (hs.size() < 3) { handlebars_map_addref(m0); Model mm = h.model; hs.push_back({m0, mm}); }
            break;
        case 12:
            name = "drop"; r = m0;
            if (hs.size() > 1) { handlebars_map_delref(m0); hs.erase(hs.begin() + hi); handlebars_string_delref(k); alloc_disarm(); log("drop %d", (int)hi); continue; }
            break;
        case 13:
            name = "sort";
            if (chance(1, 2, "sort_r")) {
                long s = chance(1, 2, "desc") ? -1 : 1;
                rc = hb_try(ctx, [&] { r = handlebars_map_sort_r(m0, cmp_val_r, &s); });
                std::stable_sort(h.model.begin(), h.model.end(), [&](auto &a, auto &b) { return a.second * s < b.second * s; });
            } else {
                rc = hb_try(ctx, [&] { r = handlebars_map_sort(m0, cmp_key); });
                std::stable_sort(h.model.begin(), h.model.end(), [&](auto &a, auto &b) { return a.first < b.first; });
            }
            break;
        case 14:
            name = "compact"; handlebars_map_sparse_array_compact(m0); r = m0; break;
        case 15:
            name = "rehash"; { bool force = chance(1, 2, "force"); rc = hb_try(ctx, [&] { r = handlebars_map_rehash(m0, force); }); } break;
        default:
            name = "remove";
            rc = hb_try(ctx, [&] { r = viastr ? handlebars_map_str_remove(m0, key.data(), key.size()) : handlebars_map_remove(m0, k); });
            if (exists) h.model.erase(it);
            break;
        }
        long fired = alloc.fired;
        alloc_disarm();
        Holder &hh = hs[hi];
        log("%d:%s(%s)=%ld via=%d fail=%ld -> rc=%d fired=%ld", (int)hi, name, quote(key).c_str(), uniq, viastr, failat, rc, fired);
        sig(op * 31 + exists * 7 + (rc ? 3 : 0) + hs.size());
        if (rc != 0) {
            SIM_CHECK(fired || expect_throw, "map-spurious-error", "%s(%s) failed with %d (%s) although nothing was injected; map was %s", name, quote(key).c_str(), rc, handlebars_error_msg(ctx), show(before).c_str());
            if (fired && !expect_throw) SIM_CHECK(rc == HANDLEBARS_NOMEM, "map-wrong-error", "%s under allocation failure reported %d, not out of memory", name, rc);
            hh.model = before; hb_clear(ctx); any_fault = true;
            stat(fired ? "probe.map_op_failed_by_alloc" : "probe.map_add_existing_rejected");
        } else {
            SIM_CHECK(!expect_throw || fired, "map-dup-add", "add of an existing key %s succeeded", quote(key).c_str());
            if (expect_throw) hh.model = before;
            hh.m = r;
            if (r != m0) stat("probe.map_reallocated_or_separated");
        }
        if (fired) any_fault = true;
        handlebars_string_delref(k);
        // every holder still shows exactly its own history (order included), by iteration, index and lookup
        for (size_t i = 0; i < hs.size(); i++) {
            Model got = read_map(hs[i].m);
            SIM_CHECK(got == hs[i].model, "map-content", "after %s(%s) on holder %d, holder %d shows %s, expected %s", name, quote(key).c_str(), (int)hi, (int)i, show(got).c_str(), show(hs[i].model).c_str());
            SIM_CHECK(handlebars_map_count(hs[i].m) == hs[i].model.size(), "map-count", "count %zu, expected %zu", handlebars_map_count(hs[i].m), hs[i].model.size());
        }
        if (n % 8 == 7 || op >= 14) {
            for (uint64_t i = 0; i < std::min<uint64_t>(nkeys, 40); i++) {
                std::string kk = key_at(i);
                hstr *ks = mkstr(ctx, kk); handlebars_string_addref(ks);
                for (auto &x : hs) {
                    hval *f = handlebars_map_find(x.m, ks); auto e = mfind(x.model, kk);
                    SIM_CHECK((f != nullptr) == (e != x.model.end()), "map-find", "lookup of %s: %s, expected %s in %s", quote(kk).c_str(), f ? "found" : "absent", f ? "absent" : "found", show(x.model).c_str());
                    if (f) SIM_CHECK(handlebars_value_get_intval(f) == e->second, "map-find", "lookup of %s: %ld, expected %ld", quote(kk).c_str(), handlebars_value_get_intval(f), e->second);
                }
                handlebars_string_delref(ks);
            }
        }
        // a walk whose body changes the map: entries that are removed before they are reached are not visited, added ones are, and
        // what would need another map is refused, without any effect
        if (chance(1, 10, "walk")) {
            size_t refs = 0; for (auto &x : hs) refs += x.m == hh.m;
            Model live = hh.model, want, got; size_t pos = 0; bool changed = false; std::string what;
            handlebars_map *wm = hh.m; long errs = 0;
            handlebars_map_foreach(wm, wi, kk, vv) {
                got.push_back({S(kk), handlebars_value_get_intval(vv)});
                // the model: what follows the last entry reached
                if (pos < live.size()) want.push_back(live[pos]);
                pos++;
                if (chance(1, 2, "change")) {
                    std::string ck = key_at(choose(nkeys, "changed key")); uint64_t cop = choose(3, "how"); long u = ++uniq; if (u > 1000000) break;
                    hstr *cs = mkstr(ctx, ck); handlebars_string_addref(cs); handlebars_value_integer(val, u);
                    auto ci = mfind(live, ck); bool there = ci != live.end();
                    int e = hb_try(ctx, [&] { handlebars_map *x = cop == 0 ? handlebars_map_remove(wm, cs) : cop == 1 ? handlebars_map_update(wm, cs, val) : handlebars_map_add(wm, cs, val); SIM_CHECK(x == wm, "map-walk", "the map is replaced while it is walked"); });
                    bool grow = !there && cop != 0;
                    if (e) {
                        SIM_CHECK(e == HANDLEBARS_ERROR && (refs > 1 || grow || (cop == 2 && there)), "map-walk", "changing %s while walking failed: %d %s", quote(ck).c_str(), e, handlebars_error_msg(ctx)); errs++; hb_clear(ctx);
                    } else {
                        SIM_CHECK(refs == 1 && !(cop == 2 && there), "map-walk", "a map of %zu holders was changed in place while it is walked", refs);
                        changed = true;
                        if (cop == 0) { if (there) { if ((size_t)(ci - live.begin()) < pos) pos--; live.erase(ci); } }
                        else if (there) ci->second = u; else live.push_back({ck, u});
                    }
                    what += std::string(e ? "!" : "") + (cop == 0 ? "-" : cop == 1 ? "=" : "+") + ck + " ";
                    handlebars_string_delref(cs);
                }
            } handlebars_map_foreach_end(wm);
            while (pos < live.size()) want.push_back(live[pos++]);
            log("walk (%zu holders): %s", refs, what.c_str());
            hh.model = live;
            SIM_CHECK(got == want, "map-walk", "a walk with the changes %s visited %s, expected %s", what.c_str(), show(got).c_str(), show(want).c_str());
            for (auto &x : hs) { Model g = read_map(x.m); SIM_CHECK(g == x.model, "map-walk", "after a walk with the changes %s a holder shows %s, expected %s", what.c_str(), show(g).c_str(), show(x.model).c_str()); }
            if (changed) stat("probe.map_changed_in_walk"); if (errs) any_fault = true; if (errs) stat("probe.map_change_in_walk_refused");
        }
        // public value iteration over a shared holder gives the same sequence, even nested in itself
        if (chance(1, 12, "iterate")) {
            HANDLEBARS_VALUE_DECL(mv);
            handlebars_value_map(mv, hh.m);
            Model got; size_t inner = 0; bool nest = chance(1, 3, "nested");
            HANDLEBARS_VALUE_FOREACH_KV(mv, kk, vv) {
                got.push_back({S(kk), handlebars_value_get_intval(vv)});
                if (nest) { HANDLEBARS_VALUE_FOREACH(mv, v2) { inner += handlebars_value_get_intval(v2) != 0; } HANDLEBARS_VALUE_FOREACH_END(); }
            } HANDLEBARS_VALUE_FOREACH_END();
            SIM_CHECK(got == hh.model, "map-iterate", "iteration gives %s, expected %s", show(got).c_str(), show(hh.model).c_str());
            if (nest) SIM_CHECK(inner == hh.model.size() * hh.model.size(), "map-iterate", "nested iteration visited %zu entries, expected %zu", inner, hh.model.size() * hh.model.size());
            HANDLEBARS_VALUE_UNDECL(mv);
            stat("probe.map_value_iteration");
        }
        if (hh.model.size() > 30) stat("probe.map_over_30_entries");
    }
    HANDLEBARS_VALUE_UNDECL(val);
    if (hs.size() > 1) nontrivial();
    for (auto &h : hs) handlebars_map_delref(h.m);
    if (!any_fault) {
        size_t blocks = talloc_total_blocks(ctx);
        SIM_CHECK(blocks == blocks0, "map-leak", "%zu blocks remain allocated after every reference was dropped", blocks - blocks0);
    }
    handlebars_context_dtor(ctx);
}
