// World "locate": templates that break the grammar at a known place, or whose errors have a known place, in a history
// on one context with failing allocations and helpers. Every error must come, and name its place.
#include "tpl.h"
using namespace sim;
using namespace tpl;

namespace {
// What is put into a template. \x03: the place of the error. \1: a NUL. Where: 0 anywhere, 1 not inside a block, 2 where a program has already
// had its else, 3 at the very end of the template, the error may be noticed later, 5 same but exactly there, 4 inside a block
struct Broken { const char *text; int where, err; const char *msg; };
const Broken BROKEN[] = {
    {"\x03\1", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{{{zzq}}}}a\x03\1z{{{{/zzq}}}}", 0, HANDLEBARS_PARSEERR, "syntax error"},
    {"{{\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo bar=\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo (a\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo a b=1 c\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"},
    {"{{foo \x03" "as |a|}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{@\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{{a\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{a\x03}}}", 0, HANDLEBARS_PARSEERR, "syntax error"},
    {"{{#\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{> \x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo \x03%}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo \x03{{bar}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo bar\x03)}}", 0, HANDLEBARS_PARSEERR, "syntax error"},
    {"{{foo \x03=1}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{\"a b\" 'c' \x03" "as |x|}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{#each a as |\x03|}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo (a (b) 1 x=\x03)}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{&\x03}}", 0, HANDLEBARS_PARSEERR, "syntax error"}, {"{{~#if a \x03}}}", 0, HANDLEBARS_PARSEERR, "syntax error"},
    {"{{a \x03" "a/../b}}", 0, HANDLEBARS_ERROR, "Invalid path: a/.."}, {"{{\x03" "a/this}}", 0, HANDLEBARS_ERROR, "Invalid path: a/this"}, {"{{foo b=(x \x03../a.[b]/.)}}", 0, HANDLEBARS_ERROR, "Invalid path: ../a.b/."},
    {"{{\x03@a/../b}}", 0, HANDLEBARS_ERROR, "Invalid path: @a/.."}, {"{{foo b=\x03@a/.}}", 0, HANDLEBARS_ERROR, "Invalid path: @a/."}, {"{{#if \x03@../a/this}}x{{/if}}", 0, HANDLEBARS_ERROR, "Invalid path: @../a/this"}, {"{{> \x03zzq/..}}", 0, HANDLEBARS_ERROR, "Invalid path: zzq/.."}, {"{{> zzq \x03zzq/..}}", 0, HANDLEBARS_ERROR, "Invalid path: zzq/.."}, {"{{{\x03zzq/[b]/this/c}}}", 0, HANDLEBARS_ERROR, "Invalid path: zzq/b/this"}, {"{{&\x03this/a/.}}", 0, HANDLEBARS_ERROR, "Invalid path: this/a/."}, {"{{#zzq as |x|}}{{\x03x/..}}{{/zzq}}", 0, HANDLEBARS_ERROR, "Invalid path: x/.."}, {"{{foo (zzq \x03@root/..)}}", 0, HANDLEBARS_ERROR, "Invalid path: @root/.."}, {"{{\x03zzq.this}}", 0, HANDLEBARS_ERROR, "Invalid path: zzq.this"},
    {"\x03{{/zzq}}", 1, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{else}}", 1, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{^}}", 1, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{else if a}}", 1, HANDLEBARS_PARSEERR, "syntax error"},
    {"\x03{{else}}", 2, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{~^~}}", 2, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{else with a}}", 2, HANDLEBARS_PARSEERR, "syntax error"},
    {"\x03{{#zzq a}}x{{/zzr}}", 0, HANDLEBARS_PARSEERR, "zzq doesn't match zzr"}, {"\x03{{^zzq}}x{{else}}y{{/zzr}}", 0, HANDLEBARS_PARSEERR, "zzq doesn't match zzr"}, {"\x03{{#> zzq a}}x{{/zzr}}", 0, HANDLEBARS_PARSEERR, "zzq doesn't match zzr"}, {"\x03{{{{zzq a=1}}}}x{{{{/zzr}}}}", 0, HANDLEBARS_ERROR, "zzq doesn't match zzr"},
    {"\x03{{#if a}}x{{else if b}}y{{else}}z{{/zzr}}", 0, HANDLEBARS_PARSEERR, "if doesn't match zzr"}, {"\x03{{#*inline \"q\"}}x{{else}}y{{/inline}}", 0, HANDLEBARS_PARSEERR, "Unexpected inverse block on decorator"},
    {"\x03{{> a b c}}", 0, HANDLEBARS_UNSUPPORTED_PARTIAL_ARGS, "Unsupported number of partial arguments"}, {"\x03{{#> a b c}}x{{/a}}", 0, HANDLEBARS_UNSUPPORTED_PARTIAL_ARGS, "Unsupported number of partial arguments"}, {"\x03{{~> (lookup . 'x') b c d=1}}", 0, HANDLEBARS_UNSUPPORTED_PARTIAL_ARGS, "Unsupported number of partial arguments"},
    {"\x03{{#zzq}}", 4, HANDLEBARS_PARSEERR, "zzq doesn't match"},
    {"\x03{{#zzq}}", 3, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{!-- x --", 5, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{! x }", 5, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{!-- x }}-}", 5, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{~!--", 5, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{!", 5, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{{{zzq}}}} a", 3, HANDLEBARS_PARSEERR, "syntax error"}, {"{{\x03\"x }}", 3, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{foo a", 3, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{", 3, HANDLEBARS_PARSEERR, "syntax error"}, {"\x03{{#zzq}}a{{else}}b", 3, HANDLEBARS_PARSEERR, "syntax error"}, {"{{foo \x03[a}}", 3, HANDLEBARS_PARSEERR, "syntax error"},
};
const int NB = sizeof BROKEN / sizeof *BROKEN;

// the programs a tag can be put into: kind 1 is the template itself, 2 follows an else or takes none, 4 are all others inside blocks
struct Place { Program *p; int kind; };
void places(Program &p, int kind, std::vector<Place> &out) {
    out.push_back({&p, kind});
    for (auto &s : p.body) {
        if (s.k == Stmt::PBLOCK) places(*s.prog, 2, out);
        if (s.k != Stmt::BLOCK || s.raw) continue;
        if (s.prog) places(*s.prog, s.inv ? 4 : 4, out);
        if (s.inv && !s.chain) places(*s.inv, s.inverted ? 4 : 2, out);
        if (s.inv && s.chain) for (auto &b : s.inv->body) { if (b.prog) places(*b.prog, 4, out); }
    }
}
struct Want { int err = 0, line = 0, col = 0; bool range = false; std::string msg; };      // range: at this place or later

// breaks the program; what is expected from parsing and compiling it
bool break_it(Program &root, unsigned long flags, Want &w) {
    auto &b = BROKEN[choose(NB, "what")];
    if (b.err == HANDLEBARS_UNSUPPORTED_PARTIAL_ARGS && (flags & handlebars_compiler_flag_known_helpers_only)) return false;
    std::vector<Place> all, fit; places(root, 1, all);
    for (auto &p : all) if (b.where == 0 || ((b.where == 3 || b.where == 5) ? p.kind == 1 : b.where == 4 ? p.kind != 1 : p.kind == b.where)) fit.push_back(p);
    if (fit.empty()) return false;
    auto &body = fit[choose(fit.size(), "which program")].p->body;
    size_t at = b.where == 3 || b.where == 5 ? body.size() : choose(body.size() + 1, "position");
    if (at && body[at - 1].k == Stmt::CONTENT && body[at - 1].text.size() && strchr("\\{", body[at - 1].text.back())) return false;
    if (at < body.size() && body[at].k == Stmt::CONTENT && !body[at].text.empty() && body[at].text[0] == '}') return false;
    Stmt s; s.k = Stmt::RAWTAG; int line = 0, col = 0; bool before = true;
    std::string text = b.text, msg = b.msg;
    if (chance(1, 8, "long names")) {       // messages longer than a line
        std::string name = "zzq" + std::string(std::vector<int>{40, 120, 251, 600}[choose(4, "how long")], 'x');
        for (auto *t : {&text, &msg}) for (size_t i = 0; (i = t->find("zzq", i)) != std::string::npos; i += name.size()) t->replace(i, 3, name);
    }
    for (const char *c = text.c_str(); *c; c++) {
        if (*c == 3) { before = false; continue; }
        std::string t(1, *c == 1 ? 0 : *c);
        if (*c == ' ' && c[1] != '|' && c > text.c_str() && isalnum(c[-1]) && c[1] != 3) t = pick(std::vector<std::string>{" ", " ", "\n", "  \n\t ", "\t", "\r\n "}, "space");
        s.text += t;
        if (before) for (char x : t) { if (x == '\n') { line++; col = 0; } else col++; }
    }
    Stmt *put = &*body.insert(body.begin() + at, s);
    locate(root);
    w.err = b.err; w.msg = msg; w.range = b.where == 3 && *b.text == 3;
    w.line = put->line + line; w.col = line ? col : put->col + col;
    return true;
}
}

WORLD(locate) {
    GenOpt o; o.modes = o.compile_errors = true; o.size = 4; o.npartials = 3; o.depth = 3;
    Case c = generate(o);
    if (chance(1, 2, "more strict")) c.flags |= handlebars_compiler_flag_strict;
    log("flags=%lx data=%s", c.flags, dump(c.root).c_str());
    hctx *ctx = handlebars_context_ctor(); handlebars_vm *volatile vm = nullptr; Rec rec;
    HANDLEBARS_VALUE_DECL(input);
    SIM_CHECK(hb_try(ctx, [&] { build_value(ctx, input, c.root, P_NATIVE, &rec); }) == 0, "setup", "building the data failed");
    int ops = 1 + (int)choose(5, "ops");
    for (int i = 0; i < ops; i++) {
        Span sp;
        Case k = c; Want w; std::string src; std::string why; Result want; bool syntax = false;
        // copies, because they are broken
        auto clone = [](PP p) { std::function<PP(const Program &)> f = [&f](const Program &q) { PP r = std::make_shared<Program>(q); for (auto &s : r->body) { if (s.prog) s.prog = f(*s.prog); if (s.inv) s.inv = f(*s.inv); if (s.call.path) s.call.path = std::make_shared<Expr>(*s.call.path); if (s.pdyn) s.pdyn = std::make_shared<Expr>(*s.pdyn); } return r; }; return f(*p); };
        k.main = clone(c.main); for (auto &pd : k.partials) if (pd.prog) pd.prog = clone(pd.prog);
        uint64_t kind = choose(4, "what is broken");
        if (kind == 1 || kind == 2) syntax = break_it(*k.main, k.flags, w);
        else if (kind == 3 && !k.partials.empty()) {
            auto &pd = k.partials[choose(k.partials.size(), "which partial")];
            if (pd.prog && break_it(*pd.prog, k.flags, w)) { pd.raw = true; pd.text = print(*pd.prog); pd.err = w.err; pd.line = w.line; pd.col = w.col; pd.msg = w.msg; if (w.range) pd.line = -1; }
        }
        src = print(*k.main);
        if (!syntax) { locate(*k.main); for (auto &pd : k.partials) if (pd.prog && !pd.raw) locate(*pd.prog); want = evaluate(k, k.root, Fault()); if (want.skipped) { stat("sim.skipped_too_big"); continue; } }
        Fault f; rec.fault = -1;
        if (!syntax && !want.calls.empty() && chance(1, 4, "failing call")) { f.call = 1 + (long)choose(want.calls.size(), "which call"); rec.fault = f.call; want = evaluate(k, k.root, f); }
        if (syntax) { want.err = w.err; want.msg = w.msg; want.line = w.line; want.col = w.col; }
        log("op %d template=%s", i, quote(src, 3000).c_str());
        for (auto &pd : k.partials) log("  partial %s=%s", pd.name.c_str(), quote(source_of(pd), 2000).c_str());
        bool own = chance(1, 3, "own boundary"), lex = chance(1, 6, "lex it first");
        auto once = [&](long fail_at, long fail_len) {
            Result got; rec.calls.clear(); rec.n = 0; hstr *volatile out = nullptr;
            if (vm && chance(1, 3, "new vm")) { handlebars_vm_dtor(vm); vm = nullptr; }
            if (!vm) vm = handlebars_vm_ctor(ctx);
            alloc_arm(fail_at, fail_len);
            got.err = hb_try(ctx, [&] {
                setup_vm(ctx, vm, k, &rec);
                handlebars_parser *ps = handlebars_parser_ctor(ctx);
                hstr *t = mkstr(ctx, src); if (k.flags & handlebars_compiler_flag_compat) t = handlebars_preprocess_delimiters(ctx, t, nullptr, nullptr);
                jmp_buf *j = ctx->e->jmp;
                auto bound = [&](auto fn) {
                    if (!own) return fn();
                    ctx->e->jmp = nullptr; auto r = fn();
                    SIM_CHECK(!ctx->e->jmp, "jump-target", "an entry point left its jump target behind");
                    ctx->e->jmp = j; if (handlebars_error_num(ctx)) longjmp(*j, handlebars_error_num(ctx));
                    return r;
                };
                if (lex) { handlebars_parser *lp = handlebars_parser_ctor(ctx); bound([&] { return handlebars_lex_ex(lp, t); }); }
                handlebars_ast_node *ast = bound([&] { return handlebars_parse_ex(ps, t, k.flags); });
                handlebars_compiler *cc = handlebars_compiler_ctor(ctx); handlebars_compiler_set_flags(cc, k.flags);
                handlebars_program *pr = bound([&] { return handlebars_compiler_compile_ex(cc, ast); });
                handlebars_module *m = handlebars_program_serialize(ctx, pr);
                out = bound([&] { return handlebars_vm_execute(vm, m, input); });
            });
            alloc_disarm();
            if (got.err) {
                const char *m = handlebars_error_msg(ctx); got.msg = m ? m : ""; auto l = handlebars_error_loc(ctx); got.line = l.first_line; got.col = l.first_column;
                SIM_CHECK(l.last_line > l.first_line || (l.last_line == l.first_line && l.last_column >= l.first_column), "location", "the error %s begins at %d:%d and ends at %d:%d", got.msg.c_str(), l.first_line, l.first_column, l.last_line, l.last_column);
                char *a = handlebars_error_message(ctx), *b = handlebars_error_message_js(ctx);
                std::string wa = got.msg + " on line " + std::to_string(l.last_line) + ", column " + std::to_string(l.last_column), wb = "Parse error on line " + std::to_string(l.first_line) + ", column " + std::to_string(l.first_column) + " : " + got.msg;
                SIM_CHECK(a && b && wa == a && wb == b, "message", "the text of the error %s is %s and %s", got.msg.c_str(), a ? a : "nothing", b ? b : "nothing");
                handlebars_talloc_free(a); handlebars_talloc_free(b);
                ctx->e->num = HANDLEBARS_SUCCESS;
            } else got.out = S(out);
            got.calls = rec.calls;
            return got;
        };
        auto check = [&](const Result &got, const char *how) {
            if (syntax && got.err) {
                if (w.range) {
                    int lines = 1; for (char ch : src) lines += ch == '\n';
                    SIM_CHECK(got.err == w.err && got.msg.find(w.msg) != std::string::npos && (got.line > w.line || (got.line == w.line && got.col >= w.col)) && got.line <= lines, "location", "%s: the template ends at line %d in what begins at %d:%d, but the error is %d %s at %d:%d", how, lines, w.line, w.col, got.err, got.msg.c_str(), got.line, got.col);
                    return;
                }
                if (!k.columns && got.line == want.line) return;
            }
            SIM_CHECK(compare(want, got, why), syntax ? "location" : "render", "%s: %s", how, why.c_str());
        };
        Result got = once(-1, 1); long allocs = alloc.count;
        log("  err=%d %s at %d:%d out=%s", got.err, quote(got.msg).c_str(), got.line, got.col, quote(got.out).c_str());
        check(got, "the operation");
        sig(want.err * 1000 + (want.line > 0) * 7 + syntax + hash_bytes(want.msg.data(), want.msg.size()) % 997);
        if (want.err) { nontrivial(); stat(want.line > 0 ? "probe.error_with_place" : "probe.error_without_place"); }
        int times = (int)choose(3, "faults");
        for (int t = 0; t < times && allocs; t++) {
            Span sp2;
            long at = 1 + (long)choose(allocs, "failing allocation");
            got = once(at, chance(1, 3, "for good") ? 1000000000 : 1);
            log("  allocation %ld of %ld fails: err=%d %s at %d:%d", at, allocs, got.err, quote(got.msg).c_str(), got.line, got.col);
            if (!alloc.fired) { check(got, "the repeated operation"); continue; }
            nontrivial(); stat("probe.op_with_alloc_failure");
            if (got.err == HANDLEBARS_NOMEM) SIM_CHECK(got.line == 0 && got.col == 0, "location", "running out of memory has no place in a template, but it is reported at %d:%d", got.line, got.col);
            else check(got, "with a failing allocation");
        }
        rec.fault = -1;
    }
    HANDLEBARS_VALUE_UNDECL(input);
    if (vm) handlebars_vm_dtor(vm);
    handlebars_context_dtor(ctx);
}
