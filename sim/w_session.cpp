// World "session": one long-lived context, compiler and VM perform a history of operations; any of them may be hit by
// allocation failures, failing helpers, failing data providers or bad input. The oracle of an operation is the same
// operation in a fresh context without faults.
#include "session.h"

WORLD(session) {
    cases.clear();
    bool oom = option("oom") != nullptr;
    static bool tracking = (talloc_enable_null_tracking(), true); (void)tracking;
    size_t blocks0 = talloc_total_blocks(nullptr);
    long lib0 = lib_blocks; bool lib_failed = false;
    size_t nc = 1 + choose(2, "cases");
    for (size_t i = 0; i < nc; i++) { Span sp; GenOpt o; o.broken_partials = o.modes = true; o.size = 4; o.npartials = 2; o.lambdas = o.closures = chance(1, 4, "lambdas"); if (chance(1, 8, "mustache")) { if (chance(1, 2)) o.delims = true; else { o.mlambdas = true; o.lambdas = false; } } cases.push_back(generate(o)); if (!cases.back().lambdas && chance(1, 10)) cases.back().lambdas = true; }
    for (auto &c : cases) { log("case data=%s", dump(c.root).c_str()); for (auto &pd : c.partials) log("partial %s=%s", pd.name.c_str(), quote(source_of(pd), 2000).c_str()); }
    for (auto &c : cases) if (evaluate(c, c.root, Fault()).skipped) { stat("sim.skipped_too_big"); return; }
    vm_flags = chance(1, 2, "vm flags set once") ? (long)choose(handlebars_compiler_flag_all + 1, "flags of the vm") : -1;
    log("flags of the vm: %ld", vm_flags);
    Sess s; make(s);
    size_t ops = 1 + choose(8, "ops");
    for (size_t i = 0; i < ops; i++) {
        Span sp;
        Op op = gen_op();
        log("op %zu %s case=%d flags=%lx provider=%d src=%s", i, OPN[op.k], op.cse, op.flags, op.prov, quote(op.src, 3000).c_str());
        Sess fresh; make(fresh); long allocs = 0; Out want = run(fresh, op, -1, 1, -1, -1, &allocs, nullptr, nullptr); done(fresh);
        log("  reference: err=%d %s allocations=%ld calls=%zu", want.err, quote(want.msg).c_str(), allocs, want.calls.size());
        uint64_t fk = choose(6, "fault"); if (oom && fk) fk = 1 + fk % 3;
        long fired = 0; bool af = false; std::string why;
        int times = 1 + (int)choose(2, "repeat");
        for (int t = 0; t < times && fk; t++) {
            Span sp2;
            if (fk <= 3 && allocs) {
                long at = 1 + (long)choose(allocs, "failing allocation"), len = fk == 1 ? 1 : fk == 2 ? 1000000000 : 1 + (long)choose(4, "burst");
                Out got = run(s, op, at, len, -1, -1, nullptr, &fired, nullptr);
                log("  allocation %ld (+%ld) of %ld fails (%s): fired=%ld err=%d %s", at, len, allocs, alloc.last_kind, fired, got.err, quote(got.msg).c_str());
                lib_failed = lib_failed || (fired && (len > 1 || !strcmp(alloc.last_kind, "library")));
                if (fired) { nontrivial(); stat("probe.op_with_alloc_failure"); sig(op.k * 100 + fk); sig(hash_bytes(got.msg.data(), got.msg.size())); }
                if (!fired) SIM_CHECK(same(want, got, why), "operation", "%s in a used context: %s", OPN[op.k], why.c_str());
                else if (got.err != HANDLEBARS_NOMEM) SIM_CHECK(same(want, got, why), "oom-result", "%s with failing allocation %ld of %ld: %s", OPN[op.k], at, allocs, why.c_str());
                for (size_t k = 0; k < got.calls.size(); k++) SIM_CHECK(k < want.calls.size() && got.calls[k] == want.calls[k], "oom-calls", "%s with a failing allocation made the call %s", OPN[op.k], got.calls[k].c_str());
            } else if (fk == 4 && !want.calls.empty()) {
                long at = 1 + (long)choose(want.calls.size(), "failing call");
                Out got = run(s, op, -1, 1, at, -1, nullptr, nullptr, nullptr);
                log("  helper call %ld fails: err=%d %s", at, got.err, quote(got.msg).c_str()); nontrivial(); sig(op.k * 100 + 4);
                SIM_CHECK(got.err == HANDLEBARS_ERROR && got.msg.find("injected failure") != std::string::npos && got.calls.size() == (size_t)at, "helper-error", "%s: helper call %ld failed but the operation ended with %d %s after %zu calls", OPN[op.k], at, got.err, quote(got.msg).c_str(), got.calls.size());
            } else if (fk == 5 && op.prov == P_OBJ) {
                Out got = run(s, op, -1, 1, -1, 1 + (long)choose(20, "failing access"), nullptr, nullptr, &af);
                log("  provider access fails: fired=%d err=%d %s", af, got.err, quote(got.msg).c_str());
                if (af) { nontrivial(); sig(op.k * 100 + 5); SIM_CHECK(got.err == HANDLEBARS_ERROR && got.msg.find("injected access failure") != std::string::npos, "provider-error", "%s: a data access failed but the operation ended with %d %s", OPN[op.k], got.err, quote(got.msg).c_str()); }
            }
        }
        Out got = run(s, op, -1, 1, -1, -1, nullptr, nullptr, nullptr);
        if (want.err) { nontrivial(); stat("probe.op_failed_by_input"); }
        sig(op.k * 10 + (want.err ? 1 : 0));
        SIM_CHECK(!s.left, "jump-target", "%s was called without a jump target and left one behind", OPN[op.k]);
        SIM_CHECK(same(want, got, why), "recovery", "%s after the history above: %s", OPN[op.k], why.c_str());
    }
    if (chance(1, 2, "tear down parts") ) done(s); else { handlebars_context_dtor(s.ctx); }
    cases.clear();
    size_t blocks1 = talloc_total_blocks(nullptr);
    SIM_CHECK(blocks1 == blocks0, "leak", "%zu memory blocks outlive the context", blocks1 - blocks0);
    if (!lib_failed) SIM_CHECK(lib_blocks == lib0, "leak", "%ld memory blocks of the JSON and YAML libraries outlive the context", lib_blocks - lib0);
}
