// World "module": compiled modules as artefacts: moved between addresses and "processes", stored in a simulated store that
// loses, tears, misplaces and flips bytes, executed where they lie while they are mapped read-only, by several VMs,
// while allocations and helpers fail.
#include "tpl.h"
#include "seams.h"
#include <malloc.h>
using namespace sim;
using namespace tpl;

namespace {
struct Tpl { Case c; std::string src; Rec rec; handlebars_vm *vm; hval *input; Result base; };
struct Blob { int tpl = -1; std::string good, bytes; void *base; };          // one slot of the store
struct Live { int tpl; char *map; size_t mapn; handlebars_module *m; std::string image; void *base; };   // loaded
const size_t PG = 4096;
std::string bytes_of(handlebars_module *m) { return std::string((char *)m, handlebars_module_get_size(m)); }
}

WORLD(module) {
    hctx *ctx = handlebars_context_ctor();
    std::vector<Tpl *> ts; std::vector<Live> live; std::vector<Blob> store(3), past;
    int n = 1 + (int)choose(3, "templates");
    for (int i = 0; i < n; i++) {
        Span sp;
        Tpl *t = new Tpl; GenOpt o; o.broken_partials = o.modes = true; o.size = 5; o.lambdas = chance(1, 4, "lambdas"); if (!o.lambdas && chance(1, 6, "mustache")) (choose(2) ? o.delims : o.mlambdas) = true;
        t->c = generate(o);
        t->src = print(*t->c.main);
        log("template %d flags=%lx data=%s src=%s", i, t->c.flags, dump(t->c.root).c_str(), quote(t->src, 2000).c_str());
        t->base = evaluate(t->c, t->c.root, Fault());
        t->vm = handlebars_vm_ctor(ctx); setup_vm(ctx, t->vm, t->c, &t->rec);
        t->input = (hval *)calloc(1, HANDLEBARS_VALUE_SIZE); handlebars_value_init(t->input);
        int rc = hb_try(ctx, [&] { build_value(ctx, t->input, t->c.root, P_NATIVE, &t->rec); });
        if (rc) broken("data");
        ts.push_back(t);
        if (t->base.skipped) { stat("sim.skipped_too_big"); goto done; }
    }
    for (int op = 0; op < 30; op++) {
        Span sp;
        if (!chance(24, 25, "more")) break;
        step();
        uint64_t k = choose(9, "op");
        if (k == 0 || k == 8) {         // compile and store
            int ti = (int)choose(ts.size(), "template"); Tpl &t = *ts[ti]; Blob &b = store[choose(store.size(), "slot")];
            now += choose(3);
            // in a context of its own: nothing of the module may point outside it
            hctx *c2 = handlebars_context_ctor();
            handlebars_module *volatile m = nullptr;
            int rc = hb_try(c2, [&] { m = compile(c2, t.src, t.c.flags); });
            SIM_CHECK(!rc, "compile-error", "a well-formed template is rejected: %s", handlebars_error_msg(c2));
            static const uintptr_t bases[] = {0, 0x1000, 0x7f0012345000ull, ~(uintptr_t)0xfffff};
            b.base = (void *)bases[choose(4, "base")]; b.tpl = ti;
            handlebars_module_normalize_pointers(m, b.base);
            uint64_t h = handlebars_module_generate_hash(m);
            SIM_CHECK(h == handlebars_module_get_hash(m), "module-hash", "the hash that is returned is not the one in the module");
            SIM_CHECK(handlebars_module_verify(m, nullptr), "module-verify", "a module does not verify right after its hash was generated");
            SIM_CHECK(handlebars_module_get_version(m) == handlebars_version() && handlebars_module_get_ts(m) == now && (unsigned long)handlebars_module_get_flags(m) == t.c.flags, "module-fields", "version %d time %ld flags %lx of the module are not those of the compilation (%d %ld %lx)", handlebars_module_get_version(m), (long)handlebars_module_get_ts(m), handlebars_module_get_flags(m), handlebars_version(), (long)now, t.c.flags);
            std::string img = bytes_of(m);
            // the same again, elsewhere, in memory with another history
            if (chance(1, 3, "compile again")) {
            handlebars_module *volatile m2 = nullptr;
            char *junk[16]; for (auto &j : junk) { j = (char *)talloc_size(c2, 100 + choose(400)); memset(j, 0x5a, talloc_get_size(j)); } for (auto &j : junk) talloc_free(j);
            rc = hb_try(c2, [&] { m2 = compile(c2, t.src, t.c.flags); });
            SIM_CHECK(!rc, "compile-error", "a template is rejected the second time");
            handlebars_module_normalize_pointers(m2, b.base); handlebars_module_generate_hash(m2);
            SIM_CHECK(bytes_of(m2) == img, "module-image", "compiling the same template twice gives two different modules");
            }
            uint64_t f = choose(6, "store fault");
            b.good = img; past.push_back(b);
            if (f == 5 && b.bytes.size()) { size_t cut = choose(img.size() + 1, "torn at"); std::string w = img.substr(0, cut); if (b.bytes.size() > cut) w += b.bytes.substr(cut); b.bytes = w; stat("fault.store.torn_write"); nontrivial(); }
            else if (f == 4 && b.bytes.size()) { stat("fault.store.lost_write"); nontrivial(); }
            else b.bytes = img;
            log("store template %d size %zu base %p", ti, img.size(), b.base);
            memset(m, 0xee, img.size());
            handlebars_context_dtor(c2);
        } else if (k == 1) {            // damage
            Blob &b = store[choose(store.size(), "slot")];
            if (b.bytes.empty()) continue;
            uint64_t f = choose(5, "damage");
            size_t at = choose(b.bytes.size(), "at");
            if (f == 0) b.bytes[at] ^= 1 << choose(8);
            else if (f == 1) b.bytes.resize(at + 1 > 120 ? at + 1 : 120);
            else if (f == 2) { size_t e = std::min(b.bytes.size(), at + 1 + choose(600)); for (size_t i = at; i < e; i++) b.bytes[i] = 0; }
            else if (f == 3) { size_t from = choose(b.bytes.size()); size_t len = std::min<size_t>(64, b.bytes.size() - std::max(at, from)); memmove(&b.bytes[at], &b.bytes[from], len); }
            else b.bytes += std::string(1 + choose(64), (char)choose(256));
            static const char *fn[] = {"bit_flip", "truncated", "zeroed", "misplaced", "extended"};
            stat((std::string("fault.store.") + fn[f]).c_str()); nontrivial();
            log("damage %s at %zu", fn[f], at);
        } else if (k == 2 || k == 3) {  // load
            Blob &b = store[choose(store.size(), "slot")];
            if (b.bytes.empty() || live.size() > 3) continue;
            size_t off = choose(2) ? choose(PG / 8) * 8 : 0;
            size_t mapn = (off + std::max(b.bytes.size(), sizeof(handlebars_module)) + PG - 1) / PG * PG;
            char *map = (char *)mmap(nullptr, mapn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (map == MAP_FAILED) broken("mmap");
            handlebars_module *m = (handlebars_module *)(map + off);
            memcpy(m, b.bytes.data(), b.bytes.size());
            // what a reader has to check itself before it can ask the library: that all of it is there
            if (b.bytes.size() < sizeof(handlebars_module) || handlebars_module_get_size(m) != b.bytes.size()) { munmap(map, mapn); stat("probe.size_mismatch"); continue; }
            size_t body = offsetof(handlebars_module, hash);
            bool same = b.bytes.substr(body) == b.good.substr(body) , valid = handlebars_module_verify(m, nullptr);
            SIM_CHECK(bytes_of(m) == b.bytes, "module-verify", "verifying a module changes it");
            if (!same) for (auto &o : past) if (o.good.substr(body) == b.bytes.substr(body)) { b.good = b.bytes; b.tpl = o.tpl; b.base = o.base; same = true; break; }   // a lost write leaves an older module, which is whole
            SIM_CHECK(valid == same, "module-verify", "a %s module %s", same ? "whole" : "damaged", valid ? "verifies" : "does not verify");
            int rc = hb_try(ctx, [&] { bool v = handlebars_module_verify(m, ctx); if (v != same) violation("module-verify", "verifying with a context returns %d", v); });
            SIM_CHECK((rc == 0) == same, "module-verify", "verifying a %s module with a context ends with %d", same ? "whole" : "damaged", rc);
            if (rc) { hb_clear(ctx); munmap(map, mapn); stat("probe.damage_detected"); continue; }
            handlebars_module_patch_pointers(m);
            Live l = {b.tpl, map, mapn, m, bytes_of(m), b.base};
            if (mprotect(map, mapn, PROT_READ)) broken("mprotect");
            live.push_back(l);
            log("load template %d at offset %zu", b.tpl, off);
            stat("probe.loaded");
        } else if (k == 4 || k == 5 || k == 6) {       // execute where it lies
            if (live.empty()) continue;
            Live &l = live[choose(live.size(), "which")]; Tpl &t = *ts[l.tpl];
            t.rec.calls.clear(); t.rec.n = 0; t.rec.fault = -1;
            Fault f; long fail_at = -1;
            uint64_t fk = choose(4, "fault");
            if (fk == 1 && !t.base.calls.empty()) { f.call = t.rec.fault = 1 + (long)choose(t.base.calls.size(), "failing call"); nontrivial(); }
            if (fk == 2) fail_at = 1 + (long)choose(choose(2) ? 40 : 1000, "failing allocation");
            Result got; hstr *volatile out = nullptr;
            if (fail_at > 0) alloc_arm(fail_at, choose(3) ? 1 : 1000000000);
            got.err = hb_try(ctx, [&] { out = handlebars_vm_execute(t.vm, l.m, t.input); });
            long fired = fail_at > 0 ? alloc.fired : 0; alloc_disarm();
            if (got.err) { const char *m = handlebars_error_msg(ctx); got.msg = m ? m : ""; hb_clear(ctx); } else got.out = S(out);
            got.calls = t.rec.calls;
            Result want = f.call > 0 ? evaluate(t.c, t.c.root, f) : t.base;
            std::string why;
            SIM_CHECK(bytes_of(l.m) == l.image, "module-changed", "executing a module changes it");
            log("execute %d: err=%d %s out=%s", l.tpl, got.err, quote(got.msg).c_str(), quote(got.out, 300).c_str());
            sig(got.err * 17 + l.tpl + fk * 5 + live.size());
            if (fired && got.err == HANDLEBARS_NOMEM) { nontrivial(); continue; }
            SIM_CHECK(compare(want, got, why), "module-render", "%s", why.c_str());
            nontrivial();
        } else if (k == 7) {            // move it on, or let it go
            if (live.empty()) continue;
            size_t i = choose(live.size(), "which"); Live l = live[i];
            if (chance(1, 2, "move")) {
                size_t mapn = l.mapn + PG; char *map = (char *)mmap(nullptr, mapn, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); if (map == MAP_FAILED) broken("mmap");
                size_t off = choose(PG / 8) * 8;
                handlebars_module *m = (handlebars_module *)(map + off); memcpy(m, l.m, l.image.size());
                mprotect(l.map, l.mapn, PROT_NONE);       // nothing may refer to the old place
                handlebars_module_patch_pointers(m);
                handlebars_module_normalize_pointers(m, l.base);
                SIM_CHECK(handlebars_module_verify(m, nullptr), "module-moved", "a module that was moved and normalised again does not verify");
                handlebars_module_patch_pointers(m);
                munmap(l.map, l.mapn);
                live[i].map = map; live[i].mapn = mapn; live[i].m = m; live[i].image = bytes_of(m);
                if (mprotect(map, mapn, PROT_READ)) broken("mprotect");
                log("move %d", l.tpl); stat("probe.moved");
            } else { munmap(l.map, l.mapn); live.erase(live.begin() + i); }
        }
    }
done:
    for (auto &l : live) munmap(l.map, l.mapn);
    for (auto t : ts) { handlebars_value_dtor(t->input); handlebars_vm_dtor(t->vm); free(t->input); delete t; }
    handlebars_context_dtor(ctx);
}
