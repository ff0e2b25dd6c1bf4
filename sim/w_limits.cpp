// World "limits": templates, expressions and partials nested around and far beyond every limit of the implementation, in
// a history on one context and VM, with failing allocations and helpers. A limit may only ever show as a reported error.
#include "session.h"

namespace {
Expr path1(const char *a) { Expr e; e.k = Expr::PATH; e.parts.push_back(a); return e; }
Call call1(const char *h, Expr p) { Call c; c.path = std::make_shared<Expr>(path1(h)); c.params.push_back(p); return c; }
Stmt text(const std::string &s) { Stmt t; t.k = Stmt::CONTENT; t.text = s; return t; }
Stmt must(Expr p) { Stmt t; t.k = Stmt::MUSTACHE; t.call.path = std::make_shared<Expr>(p); return t; }
PP prog(std::vector<Stmt> b) { PP p = std::make_shared<Program>(); p->body = b; return p; }
X level(long v) { X m = map(); put(m, "b", boolean(true)); put(m, "z", boolean(false)); put(m, "v", integer(v)); return m; }
const size_t SIZES[] = {3, 8, 16, 24, 31, 33, 47, 48, 49, 62, 63, 64, 65, 66, 80, 94, 95, 96, 97, 98, 110, 127, 128, 129, 190, 255, 256, 257, 258, 300, 383, 384, 385, 400};
size_t size_(size_t max) { size_t n; do n = SIZES[choose(sizeof SIZES / sizeof *SIZES, "size")] + choose(2); while (n > max && (n = n % max + 1, false)); return n; }

struct Deep { Case c; std::string src; bool raw = false, endless = false; size_t n = 0, floor = 0; const char *kind = ""; Result want; };

// n levels of nesting, each of a kind drawn from a subset
PP mix(Case &c, X data, size_t i, size_t n, const std::vector<int> &kinds, bool in_partial) {
    std::vector<Stmt> b;
    if (chance(1, 3, "text")) b.push_back(text("<" + std::to_string(i)));
    if (i == n) {
        b.push_back(must(path1("v")));
        if (chance(1, 2, "call")) { Stmt s; s.k = Stmt::MUSTACHE; s.call = call1("h_first", path1("v")); b.push_back(s); }
        if (chance(1, 2, "up")) { Expr e = path1("v"); e.depth = 1 + (int)choose(n + 2, "levels up"); b.push_back(must(e)); }
        return prog(b);
    }
    int k = kinds[choose(kinds.size(), "kind")];
    bool push = k == 0 || k == 2 || k == 3 || k == 8 || k == 12;
    X next = push ? level((long)i + 1) : data;
    if (push) { X h = next; if (k == 2) { h = arr(); h.v->a.push_back(next); } put(data, k == 2 ? "o" : "n", h); }
    Stmt s; s.k = Stmt::BLOCK;
    switch (k) {
    case 0: case 12: s.call = call1("with", path1("n")); break;
    case 1: s.call = call1("if", path1("b")); break;
    case 2: s.call = call1("each", path1("o")); break;
    case 3: s.call.path = std::make_shared<Expr>(path1("n")); break;
    case 4: s.call.path = std::make_shared<Expr>(path1("z")); s.inverted = true; break;
    case 5: case 6: s.call = call1("if", path1("z")); s.prog = prog({text("no")}); break;
    case 7: s.call = call1("unless", path1("z")); break;
    case 8: s.k = Stmt::PARTIAL; s.call.params.push_back(path1("n")); break;
    case 9: s.k = Stmt::PARTIAL; break;
    case 10: s.k = Stmt::PBLOCK; s.pname = "missing"; break;
    case 11: s.call = call1("h_twice", path1("v")); break;
    }
    PP in = mix(c, next, i + 1, n, kinds, in_partial || s.k == Stmt::PARTIAL);
    if (k == 12) in->names.push_back("p" + std::to_string(i % 7));
    if (s.k == Stmt::PARTIAL) { s.pname = "p" + std::to_string(c.partials.size()); c.partials.push_back({s.pname, false, "", in}); }
    else if (k == 4 || k == 5) s.inv = in;
    else if (k == 6) { Stmt e; e.k = Stmt::BLOCK; e.call = call1("if", path1("b")); e.prog = in; s.chain = true; s.inv = prog({e}); }
    else s.prog = in;
    b.push_back(s);
    if (chance(1, 3, "text")) b.push_back(text(">"));
    return prog(b);
}
std::string rep(const std::string &s, size_t n) { std::string r; while (n--) r += s; return r; }

Deep gen_deep() {
    Deep d; Case &c = d.c; c.root = level(0);
    static const char *hn[] = {"h_echo", "h_null", "h_safe", "h_first", "h_block", "h_eacharg", "h_data", "h_ctx", "h_twice", "h_hash"};
    for (int i = 0; i < 10; i++) c.helpers.push_back({hn[i], i});
    c.main = prog({});
    switch (choose(9, "shape")) {
    case 0: case 1: case 2: {
        std::vector<int> kinds; size_t nk = 1 + choose(4, "kinds"); bool part = false;
        for (size_t i = 0; i < nk; i++) { int k = (int)choose(13, "kind"); if (k == 11) k = (int)choose(2); kinds.push_back(k); if (k == 8 || k == 9) part = true; }
        d.kind = "blocks"; d.n = size_(part ? 400 : 130); d.floor = 14;
        c.main = mix(c, c.root, 0, d.n, kinds, false);
        break; }
    case 3: {           // subexpressions
        d.kind = "subexpressions"; d.n = size_(130); d.floor = 14;
        Expr e = path1("v"); bool hash = chance(1, 3, "in hash"); size_t pos = choose(3, "before");
        for (size_t i = 0; i < d.n; i++) { Expr s; s.k = Expr::SUB; s.sub.path = std::make_shared<Expr>(path1(hash ? "h_null" : "h_first")); if (hash) s.sub.hash.push_back({"a", e}); else { s.sub.params.push_back(e); for (size_t j = 0; j < pos; j++) s.sub.params.push_back(path1("b")); } e = s; }
        Stmt s; s.k = Stmt::MUSTACHE; s.call = call1("h_first", e); c.main = prog({text("["), s, text("]")});
        break; }
    case 4: {           // parameters and hash pairs
        d.kind = "arguments"; d.n = size_(400); d.floor = 30;
        Stmt s; s.k = Stmt::MUSTACHE; s.call.path = std::make_shared<Expr>(path1("h_first")); bool hash = chance(1, 2, "hash");
        for (size_t i = 0; i < d.n; i++) if (hash) s.call.hash.push_back({"k" + std::to_string(i), path1("v")}); else s.call.params.push_back(path1("v"));
        if (hash) s.call.params.push_back(path1("b"));
        c.main = prog({text("["), s, text("]")});
        break; }
    case 5: {           // else if chain
        d.kind = "else chain"; d.n = size_(130); d.floor = 8;
        PP last = prog({text("end")}); Stmt s; s.k = Stmt::BLOCK; s.call = call1("if", path1("b")); s.prog = last;
        for (size_t i = 0; i < d.n; i++) { Stmt o; o.k = Stmt::BLOCK; o.call = call1("if", path1("z")); o.prog = prog({text("no")}); o.chain = true; o.inv = prog({s}); s = o; }
        c.main = prog({s});
        break; }
    case 6: {           // a partial that renders a list
        d.kind = "list"; d.n = size_(400); d.floor = 20;
        X at = c.root; for (size_t i = 0; i < d.n; i++) { X n = level((long)i + 1); put(at, "n", n); at = n; }
        Stmt p; p.k = Stmt::PARTIAL; p.pname = "list"; Stmt t; t.k = Stmt::BLOCK;
        switch (choose(3, "how")) {
        case 0: p.call.params.push_back(path1("n")); t.call = call1("if", path1("n")); t.prog = prog({p}); break;
        case 1: t.call = call1("with", path1("n")); t.prog = prog({p}); break;
        default: t.call.path = std::make_shared<Expr>(path1("n")); t.prog = prog({text("."), p}); break;
        }
        c.partials.push_back({"list", false, "", prog({must(path1("v")), t})});
        Stmt top; top.k = Stmt::PARTIAL; top.pname = "list"; c.main = prog({top, text("end")});
        break; }
    case 7: {           // recursion without end
        d.kind = "endless"; d.endless = true; d.n = 1000;
        c.flags &= ~(unsigned long)handlebars_compiler_flag_explicit_partial_context;
        static const char *bodies[][2] = {{"{{> p1}}", "{{> p0}}"}, {"x{{v}}{{> p0}}", ""}, {"{{#if b}}{{> p1}}{{/if}}", "{{#with this}}{{> p0}}{{/with}}"}, {"{{#> p1}}a{{/p1}}", "{{#> p0}}b{{/p0}}"},
            {"{{h_first v}}{{> p0}}", ""}, {"{{> (h_first 'p0')}}", ""}, {"{{> p0 a=v}}", ""}, {"{{> p1 this}}{{> p1}}", "{{> p0}}"}, {"{{#z}}{{else}}{{> p0}}{{/z}}", ""}, {"{{#> p0}}{{> @partial-block}}{{/p0}}", ""}};
        size_t i = choose(10, "body");
        for (int k = 0; k < 2; k++) { PartialDef p{"p" + std::to_string(k), true, bodies[i][k], nullptr}; c.partials.push_back(p); }
        d.src = "a{{h_first v}}{{> p0}}b";
        return d; }
    case 8: {           // more than the parser takes
        d.kind = "text"; d.raw = true; d.n = choose(6, "far") ? 20 + choose(300, "levels") : 2000 + 3000 * choose(3);
        static const char *w[][3] = {{"{{#b}}", "x", "{{/b}}"}, {"{{#if b}}", "x", "{{/if}}"}, {"{{^z}}", "x", "{{/z}}"}, {"{{#> m}}", "x", "{{/m}}"}, {"{{#if z}}{{else}}", "x", "{{/if}}"}, {"{{#each o as |p q|}}", "x", "{{/each}}"}, {"{{#*inline \"i\"}}", "x", "{{/inline}}"}, {"{{#if z}}1", "x", "{{else if b}}"}};
        size_t i = choose(10, "what"), extra = chance(1, 6, "unbalanced") ? 1 : 0;
        if (i == 8) d.src = "{{h_first " + rep("(h_first ", d.n) + "v" + rep(")", d.n - extra) + "}}";
        else if (i == 9) d.src = "{{h_first " + rep("a=(h_first ", d.n) + "v" + rep(")", d.n - extra) + "}}";
        else if (i == 7) d.src = "{{#if z}}" + rep("{{else if z}}", d.n) + "{{/if}}";
        else d.src = rep(w[i][0], d.n) + w[i][1] + rep(w[i][2], d.n - extra);
        return d; }
    }
    if (chance(1, 8, "compat")) c.flags |= handlebars_compiler_flag_no_escape;
    d.src = print(*c.main);
    return d;
}
bool limit_error(const Out &o) {
    return o.err == HANDLEBARS_STACK_OVERFLOW || o.msg.find("memory exhausted") != std::string::npos;
}
}

WORLD(limits) {
    cases.clear(); std::vector<Deep> ds;
    static bool tracking = (talloc_enable_null_tracking(), true); (void)tracking;
    size_t blocks0 = talloc_total_blocks(nullptr);
    long steps0 = max_steps; int depth0 = max_depth; max_steps = 100000; max_depth = 1000;
    size_t nc = 1 + choose(3, "templates");
    for (size_t i = 0; i < nc; i++) {
        Span sp; Deep d = gen_deep();
        log("template %zu: %s n=%zu flags=%lx %s", i, d.kind, d.n, d.c.flags, quote(d.src, 800).c_str());
        for (size_t k = 0; k < d.c.partials.size() && k < 3; k++) log("  partial %s: %s", d.c.partials[k].name.c_str(), quote(source_of(d.c.partials[k]), 200).c_str());
        if (!d.raw && !d.endless) { d.want = evaluate(d.c, d.c.root, Fault()); if (d.want.skipped) { stat("sim.skipped_too_big"); d.raw = true; } }
        ds.push_back(d); cases.push_back(d.c);
    }
    max_steps = steps0; max_depth = depth0;
    Sess s; make(s);
    size_t ops = 1 + choose(5, "ops");
    for (size_t i = 0; i < ops; i++) {
        Span sp; step();
        Op op; op.own = chance(1, 3, "own boundary"); op.cse = (int)choose(cases.size(), "template"); Deep &d = ds[op.cse];
        static const OpKind kinds[] = {RENDER, RENDER_NEW, RENDER, COMPILE, SERIALIZE, PARSE};
        op.k = kinds[choose(6, "op")]; if (op.k == PARSE && d.n > 1000) op.k = COMPILE; op.flags = d.c.flags; op.src = d.src;
        op.prov = chance(1, 4, "objects") ? P_OBJ : P_NATIVE;
        log("op %zu %s template %d provider=%d", i, OPN[op.k], op.cse, op.prov);
        bool render = op.k == RENDER || op.k == RENDER_NEW;
        long allocs = 0, fired = 0; std::string why;
        Sess fresh; make(fresh); Out ref = run(fresh, op, -1, 1, -1, -1, &allocs, nullptr, nullptr); done(fresh);
        log("  err=%d %s out=%zu bytes calls=%zu", ref.err, quote(ref.msg).c_str(), ref.out.size(), ref.calls.size());
        bool lim = ref.err && limit_error(ref);
        if (lim) { nontrivial(); stat("probe.limit_reported"); } else stat("probe.within_limits");
        sig(hash_bytes(ref.msg.data(), ref.msg.size()) + op.k * 1000 + d.n * 31 + (size_t)d.kind[0] * 77 + (uint64_t)lim);
        if (d.endless && render) SIM_CHECK(lim, "endless-recursion", "partials that include each other without end rendered: %d %s", ref.err, quote(ref.msg).c_str());
        else if (d.raw || d.endless) SIM_CHECK(!ref.err || lim || ref.err == HANDLEBARS_PARSEERR || ref.err == HANDLEBARS_ERROR, "limit-error", "%s with %zu levels ends with %d %s", OPN[op.k], d.n, ref.err, quote(ref.msg).c_str());
        else {
            SIM_CHECK(!ref.err || lim || (render && d.want.err), "limit-error", "%s of %s with %zu levels ends with %d %s", OPN[op.k], d.kind, d.n, ref.err, quote(ref.msg).c_str());
            SIM_CHECK(!lim || d.n > d.floor, "limit-too-low", "%s of only %zu %s ends with %s", OPN[op.k], d.n, d.kind, quote(ref.msg).c_str());
            if (render) {
                Result got; got.err = ref.err; got.msg = ref.msg; got.out = ref.out; got.calls = ref.calls;
                if (!lim) SIM_CHECK(compare(d.want, got, why), "limit-render", "%s nested %zu: %s", d.kind, d.n, why.c_str());
                for (size_t k = 0; k < got.calls.size(); k++) SIM_CHECK(k < d.want.calls.size() && got.calls[k] == d.want.calls[k], "limit-calls", "a render that ran into a limit made the call %s", got.calls[k].c_str());
            }
        }
        uint64_t fk = choose(4, "fault");
        if (fk <= 2 && fk && allocs) {
            long at = 1 + (long)choose(allocs, "failing allocation"), len = fk == 1 ? 1 : 1000000000;
            Out got = run(s, op, at, len, -1, -1, nullptr, &fired, nullptr);
            log("  allocation %ld (+%ld) of %ld fails: fired=%ld err=%d %s", at, len, allocs, fired, got.err, quote(got.msg).c_str());
            if (fired) nontrivial();
            if (got.err != HANDLEBARS_NOMEM || !fired) SIM_CHECK(same(ref, got, why), "limit-oom", "%s with failing allocation %ld of %ld: %s", OPN[op.k], at, allocs, why.c_str());
        } else if (fk == 3 && !ref.calls.empty()) {
            long at = 1 + (long)choose(ref.calls.size(), "failing call");
            Out got = run(s, op, -1, 1, at, -1, nullptr, nullptr, nullptr);
            log("  helper call %ld fails: err=%d %s", at, got.err, quote(got.msg).c_str()); nontrivial();
            SIM_CHECK(got.err == HANDLEBARS_ERROR && got.msg.find("injected failure") != std::string::npos && got.calls.size() == (size_t)at, "helper-error", "%s: helper call %ld failed but the operation ended with %d %s after %zu calls", OPN[op.k], at, got.err, quote(got.msg).c_str(), got.calls.size());
        }
        int times = 1 + (int)choose(2, "repeat");
        for (int t = 0; t < times; t++) {
            Out got = run(s, op, -1, 1, -1, -1, nullptr, nullptr, nullptr);
            SIM_CHECK(same(ref, got, why), "limit-history", "%s in a used context: %s", OPN[op.k], why.c_str());
        }
    }
    if (chance(1, 2, "tear down parts")) done(s); else handlebars_context_dtor(s.ctx);
    cases.clear();
    size_t blocks1 = talloc_total_blocks(nullptr);
    SIM_CHECK(blocks1 == blocks0, "leak", "%zu memory blocks outlive the context", blocks1 - blocks0);
}
