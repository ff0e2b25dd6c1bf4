// World "threads": two to four threads, each with contexts, compilers, VMs and caches of its own, run histories of
// operations at the same time; some of them execute one module together. Every operation must give what it gives alone,
// and no two threads may touch the same variable of the library, or the shared module, without synchronisation.
#include "session.h"
#include "seams.h"
#include "tsim.h"
#include "scratch.h"
#include <memory>

namespace {
struct TOp { Op op; Out want; long allocs = 0; bool shared = false, fresh = false; int fault = 0; long at = -1, len = 1; };
struct TT { std::vector<TOp> ops; Sess s; handlebars_cache *cache = nullptr; int cachek = 0; size_t slots = 16; hctx *cctx = nullptr; };
struct Shared { int cse = -1; std::string src; unsigned long flags; handlebars_module *m = nullptr; Out want; };
struct World { std::vector<std::unique_ptr<TT>> t; Shared sh; hctx *ctx; };
World *W;

Out run_shared(Sess &s, const Shared &sh, handlebars_module *m, Provider prov, long helper_fault, handlebars_cache *cache) {
    Out o; Rec rec; rec.fault = helper_fault;
    Case cc = cases[sh.cse]; cc.flags = sh.flags;
    handlebars_vm *vm = nullptr;
    o.err = hb_try(s.ctx, [&] {
        vm = handlebars_vm_ctor(s.ctx);
        setup_vm(s.ctx, vm, cc, &rec);
        if (cache) handlebars_vm_set_cache(vm, cache);
        HANDLEBARS_VALUE_DECL(in);
        build_value(s.ctx, in, cases[sh.cse].root, prov, &rec);
        o.out = S(handlebars_vm_execute(vm, m, in));
        HANDLEBARS_VALUE_UNDECL(in);
    });
    if (o.err) { const char *x = handlebars_error_msg(s.ctx); o.msg = x ? x : ""; o.out.clear(); }
    s.ctx->e->num = HANDLEBARS_SUCCESS;
    o.calls = rec.calls;
    return o;
}
Out run_own(Sess &s, const Op &op, long at, long len, long helper, long *allocs, long *fired) { return run(s, op, at, len, helper, -1, allocs, fired, nullptr); }

void task(int i) {
    TT &t = *W->t[i];
    make(t.s);
    if (t.cachek) {
        t.cctx = handlebars_context_ctor();
        int rc = hb_try(t.cctx, [&] {
            if (t.cachek == 1) t.cache = handlebars_cache_simple_ctor(t.cctx);
            else if (t.cachek == 2) t.cache = handlebars_cache_mmap_ctor(t.cctx, 1 << 16, t.slots);
            else t.cache = handlebars_cache_lmdb_ctor(t.cctx, (scratch_dir() + "/db" + std::to_string(i)).c_str());
        });
        SIM_CHECK(!rc, "thread-result", "thread %d cannot open its cache: %s", i, handlebars_error_msg(t.cctx));
    }
    for (auto &o : t.ops) {
        std::string why;
        if (o.fresh && t.s.ctx) { done(t.s); make(t.s); }
        if (o.shared) {
            Out got = run_shared(t.s, W->sh, W->sh.m, o.op.prov, o.fault == 2 ? o.at : -1, t.cache);
            log("t%d executes the shared module: err=%d %s out=%s", i, got.err, quote(got.msg).c_str(), quote(got.out).c_str());
            if (o.fault == 2) SIM_CHECK(got.err == HANDLEBARS_ERROR && got.msg.find("injected failure") != std::string::npos && got.calls.size() == (size_t)o.at, "thread-result", "thread %d: helper call %ld failed but the render ended with %d %s", i, o.at, got.err, quote(got.msg).c_str());
            else SIM_CHECK(got.err == W->sh.want.err && got.msg == W->sh.want.msg && got.out == W->sh.want.out && got.calls == W->sh.want.calls, "thread-result", "thread %d: the shared module gives error %d %s out %s, alone it gives error %d %s out %s", i, got.err, quote(got.msg).c_str(), quote(got.out, 300).c_str(), W->sh.want.err, quote(W->sh.want.msg).c_str(), quote(W->sh.want.out, 300).c_str());
            continue;
        }
        long fired = 0;
        Out got = run_own(t.s, o.op, o.fault == 1 ? o.at : -1, o.len, o.fault == 2 ? o.at : -1, nullptr, &fired);
        log("t%d %s: fault %d fired %ld err=%d %s", i, OPN[o.op.k], o.fault, fired, got.err, quote(got.msg).c_str());
        sig(o.op.k * 16 + o.fault * 4 + !!got.err);
        if (o.fault == 2) SIM_CHECK(got.err == HANDLEBARS_ERROR && got.msg.find("injected failure") != std::string::npos && got.calls.size() == (size_t)o.at, "thread-result", "thread %d %s: helper call %ld failed but the operation ended with %d %s", i, OPN[o.op.k], o.at, got.err, quote(got.msg).c_str());
        else if (!(fired && got.err == HANDLEBARS_NOMEM)) SIM_CHECK(same(o.want, got, why), "thread-result", "thread %d %s: %s", i, OPN[o.op.k], why.c_str());
        tsim::point();
    }
    if (t.cache) { handlebars_cache_dtor(t.cache); t.cache = nullptr; handlebars_context_dtor(t.cctx); }
    done(t.s);
}
void reset_world() { W = nullptr; }
struct Init { Init() { on_reset(reset_world); } } init_;
}

WORLD(threads) {
    World w; W = &w;
    cases.clear();
    size_t nc = 1 + choose(2, "cases");
    for (size_t i = 0; i < nc; i++) { Span sp; GenOpt o; o.broken_partials = o.modes = true; o.size = 3; o.depth = 3; o.npartials = 2; cases.push_back(generate(o)); }
    for (auto &c : cases) { log("case data=%s", dump(c.root).c_str()); for (auto &pd : c.partials) log("partial %s=%s", pd.name.c_str(), quote(source_of(pd), 2000).c_str()); }
    for (auto &c : cases) if (evaluate(c, c.root, Fault()).skipped) { stat("sim.skipped_too_big"); return; }
    w.ctx = handlebars_context_ctor();
    if (chance(1, 2, "shared module")) {
        w.sh.cse = (int)choose(nc); w.sh.src = print(*cases[w.sh.cse].main); w.sh.flags = cases[w.sh.cse].flags;
        w.sh.m = compile(w.ctx, w.sh.src, w.sh.flags);
        Sess f; make(f);
        handlebars_module *m = compile(f.ctx, w.sh.src, w.sh.flags);
        w.sh.want = run_shared(f, w.sh, m, P_NATIVE, -1, nullptr); done(f);
        log("shared module: %s -> err=%d %s", quote(w.sh.src, 2000).c_str(), w.sh.want.err, quote(w.sh.want.out).c_str());
    }
    bool lm = chance(1, 12, "lmdb");
    if (lm) scratch_clean();
    int nt = 2 + (int)choose(3, "threads");
    for (int i = 0; i < nt; i++) {
        Span sp;
        w.t.emplace_back(new TT); TT &t = *w.t.back();
        t.cachek = chance(1, 2, "cache") ? 1 + (int)choose(lm ? 3 : 2) : 0; t.slots = 1 + choose(20);
        int n = 1 + (int)choose(4, "operations");
        for (int k = 0; k < n; k++) {
            Span sp2;
            TOp o; o.shared = w.sh.m && chance(1, 2, "shared"); o.fresh = chance(1, 4, "fresh context");
            if (o.shared) { if (chance(1, 4, "fault") && !w.sh.want.calls.empty()) { o.fault = 2; o.at = 1 + (long)choose(w.sh.want.calls.size(), "failing call"); nontrivial(); } log("t%d will execute the shared module", i); t.ops.push_back(o); continue; }
            bool copy = i && !w.t[0]->ops.empty() && chance(1, 2, "the same as another thread");
            if (copy) { o = w.t[0]->ops[choose(w.t[0]->ops.size())]; if (o.shared) { t.ops.push_back(o); continue; } }
            else { o.op = gen_op(); Sess f; make(f); o.want = run_own(f, o.op, -1, 1, -1, &o.allocs, nullptr); done(f); }
            o.fault = 0;
            uint64_t fk = choose(5, "fault");
            if (fk == 1 && o.allocs) { o.fault = 1; o.at = 1 + (long)choose(o.allocs, "failing allocation"); o.len = choose(3) ? 1 : 1000000000; nontrivial(); }
            if (fk == 2 && !o.want.calls.empty()) { o.fault = 2; o.at = 1 + (long)choose(o.want.calls.size(), "failing call"); nontrivial(); }
            log("t%d will %s flags=%lx src=%s fault=%d", i, OPN[o.op.k], o.op.flags, quote(o.op.src, 2000).c_str(), o.fault);
            t.ops.push_back(o);
        }
    }
    tsim::start(16);
    for (int i = 0; i < nt; i++) tsim::spawn(("t" + std::to_string(i)).c_str(), [i] { task(i); });
    tsim::watch_globals(true);
    if (w.sh.m) tsim::watch_race(w.sh.m, w.sh.m->size);
    tsim::reset_library();     // what the library sets up on first use has not been set up yet
    alloc_yield = [] { tsim::point(); };
    tsim::run();
    alloc_yield = nullptr;
    if (tsim::any_stuck()) violation("deadlock", "the threads wait for each other");
    sig(tsim::switches());
    if (lm) scratch_clean();
    handlebars_context_dtor(w.ctx);
    cases.clear();
    W = nullptr;
}
