// Operations on one context, used by the worlds "session" and "threads".
#pragma once
#include "tpl.h"
using namespace sim;
using namespace tpl;

namespace {
enum OpKind { LEX, PARSE, COMPILE, SERIALIZE, RENDER, RENDER_NEW, JSON, YAML, DELIMS, OP_COUNT };
static const char *OPN[] = {"lex", "parse", "compile", "serialize", "render", "render-new-vm", "json", "yaml", "delimiters"};
struct Op { OpKind k; int cse; std::string src; unsigned long flags; long vmflags = -1; bool own = false; Provider prov = P_NATIVE; };
struct Out { int err = 0; std::string msg, out, text; int line = 0, col = 0; std::vector<std::string> calls; };
struct Sess { hctx *ctx = nullptr; handlebars_vm *vm = nullptr; handlebars_compiler *comp = nullptr; bool left = false; };
std::vector<Case> cases;
long vm_flags = -1;      // those of the long-lived VM, if they are set once only

// The entry points trap errors themselves when the caller has not installed a jump target: drive them that way too
template <class F> auto entry(Sess &s, const Op &op, F f) -> decltype(f()) {
    if (!op.own) return f();
    jmp_buf *prev = s.ctx->e->jmp;
    s.ctx->e->jmp = nullptr;
    auto r = f();
    if (s.ctx->e->jmp) s.left = true;
    s.ctx->e->jmp = prev;
    if (handlebars_error_num(s.ctx) != HANDLEBARS_SUCCESS) longjmp(*prev, handlebars_error_num(s.ctx));
    return r;
}
void make(Sess &s) { s.ctx = handlebars_context_ctor(); }
void done(Sess &s) { if (s.vm) handlebars_vm_dtor(s.vm); handlebars_context_dtor(s.ctx); s = Sess(); }

handlebars_program *prog_of(Sess &s, const Op &op) {
    handlebars_parser *p = handlebars_parser_ctor(s.ctx);
    hstr *t = mkstr(s.ctx, op.src);
    if (op.flags & handlebars_compiler_flag_compat) t = handlebars_preprocess_delimiters(s.ctx, t, nullptr, nullptr);
    handlebars_ast_node *ast = entry(s, op, [&] { return handlebars_parse_ex(p, t, op.flags); });
    s.comp = handlebars_compiler_ctor(s.ctx);      // a compiler compiles one template
    handlebars_compiler_set_flags(s.comp, op.flags);
    return entry(s, op, [&] { return handlebars_compiler_compile_ex(s.comp, ast); });
}
void body(Sess &s, const Op &op, Rec &rec, Out &o) {
    const Case &c = cases[op.cse];
    hstr *r = nullptr;
    switch (op.k) {
    case LEX: {
        handlebars_parser *p = handlebars_parser_ctor(s.ctx);
        hstr *src = mkstr(s.ctx, op.src);
        handlebars_token **t = entry(s, op, [&] { return handlebars_lex_ex(p, src); });
        r = handlebars_string_init(s.ctx, 16);
        for (; t && *t; t++) r = handlebars_token_print_append(s.ctx, r, *t, 0);
        break; }
    case PARSE: {
        handlebars_parser *p = handlebars_parser_ctor(s.ctx);
        hstr *src = mkstr(s.ctx, op.src);
        handlebars_ast_node *ast = entry(s, op, [&] { return handlebars_parse_ex(p, src, op.flags); });
        r = handlebars_ast_print(s.ctx, ast);
        r = handlebars_string_append_str(s.ctx, r, handlebars_ast_to_string(s.ctx, ast));
        break; }
    case COMPILE: r = handlebars_program_print(s.ctx, prog_of(s, op), 0); break;
    case SERIALIZE: {
        handlebars_module *m = handlebars_program_serialize(s.ctx, prog_of(s, op));
        o.out = S(handlebars_module_print(s.ctx, m)); size_t a = o.out.find("ADDR: "); if (a != std::string::npos) o.out.erase(a, o.out.find('\n', a) - a); break; }
    case RENDER: case RENDER_NEW: {
        handlebars_module *m = handlebars_program_serialize(s.ctx, prog_of(s, op));
        handlebars_vm *vm;
        if (op.k == RENDER) { if (!s.vm) { s.vm = handlebars_vm_ctor(s.ctx); if (vm_flags >= 0) handlebars_vm_set_flags(s.vm, vm_flags); } vm = s.vm; } else vm = handlebars_vm_ctor(s.ctx);
        Case cc = c; cc.flags = op.vmflags < 0 ? op.flags : (unsigned long)op.vmflags;      // those of the VM may differ from those of the template
        setup_vm(s.ctx, vm, cc, &rec, op.k == RENDER_NEW || vm_flags < 0);
        HANDLEBARS_VALUE_DECL(in);
        build_value(s.ctx, in, c.root, op.prov, &rec);
        r = entry(s, op, [&] { return handlebars_vm_execute(vm, m, in); });
        o.out = S(r); r = nullptr;
        HANDLEBARS_VALUE_UNDECL(in);
        if (op.k == RENDER_NEW) handlebars_vm_dtor(vm);
        break; }
    case JSON: case YAML: {
        HANDLEBARS_VALUE_DECL(v);
        if (op.k == JSON) { handlebars_value_init_json_string(s.ctx, v, op.src.c_str()); if (op.flags & 1) handlebars_value_convert(v); }
        else handlebars_value_init_yaml_string(s.ctx, v, op.src.c_str());
        o.out = handlebars_value_dump(v, s.ctx, 0);
        HANDLEBARS_VALUE_UNDECL(v);
        break; }
    case DELIMS: r = handlebars_preprocess_delimiters(s.ctx, mkstr(s.ctx, op.src), nullptr, nullptr); break;
    default: break;
    }
    if (r) o.out = S(r);
}
Out run(Sess &s, const Op &op, long fail_at, long fail_len, long helper_fault, long access_fault, long *allocs, long *fired, bool *access_fired) {
    Out o; Rec rec; rec.fault = helper_fault; rec.access_fault = access_fault;
    alloc_arm(fail_at, fail_len);
    o.err = hb_try(s.ctx, [&] { body(s, op, rec, o); });
    alloc_disarm();
    if (allocs) *allocs = alloc.count;
    if (fired) *fired = alloc.fired;
    if (access_fired) *access_fired = rec.access_fired;
    if (o.err) { const char *m = handlebars_error_msg(s.ctx); o.msg = m ? m : ""; for (char *t : {handlebars_error_message(s.ctx), handlebars_error_message_js(s.ctx)}) o.text += t ? t : ""; auto l = handlebars_error_loc(s.ctx); o.line = l.first_line; o.col = l.first_column; o.out.clear(); }
    s.ctx->e->num = HANDLEBARS_SUCCESS;      // nothing else of the error is cleared: an error must not show traces of an earlier one
    o.calls = rec.calls;
    return o;
}
bool same(const Out &a, const Out &b, std::string &why) {
    if (a.err != b.err) why = "error " + std::to_string(b.err) + " " + quote(b.msg) + " out " + quote(b.out) + ", expected error " + std::to_string(a.err) + " " + quote(a.msg) + " out " + quote(a.out);
    else if (a.msg != b.msg) why = "message " + quote(b.msg) + ", expected " + quote(a.msg);
    else if (a.out != b.out) why = "result " + quote(b.out, 300) + ", expected " + quote(a.out, 300);
    else if (a.text != b.text) why = "error text " + quote(b.text) + ", expected " + quote(a.text);
    else if (a.line != b.line || a.col != b.col) why = "error location differs";
    else if (a.calls != b.calls) why = "different helper calls: " + std::to_string(b.calls.size()) + ", expected " + std::to_string(a.calls.size());
    else return true;
    return false;
}
const char *SNIP[] = {"{{=<% =}}", "{{=| |=}}", "{{={{ }}=}}", "{{=<< >>=}}<<#foo>><<a>><</foo>>", "tail\\", "{{=", "{{{{raw}}}} {{x}} {{{{/raw}}}}", "{{#*inline \"in\"}}I{{a}}{{/inline}}", "{{> in}}", "{{> 123}}", "{{~foo~}}", " {{~#if a~}} q {{~else~}} w {{~/if~}} ", "\n  {{#if b}}\n a\n  {{/if}}\n", "{{*dec}}", "\n  {{> p0}}\n", "{{=<% %>=}}<% foo %><%={{ }}=%>", "{{foo bar=(h_echo \"a\" 1 b=2)}}", "\\{{escaped}}", "\\\\{{foo}}", "{{h_echo 1.5 -3 true null undefined @root.a ../b this.foo}}", "{{else}}", "{{/if}}", "{{#each items as |a b c|}}{{a}}{{/each}}", "{{foo.[b c].d}}", "{{!--", "{{\"foo\"}}", "{{12}}", "{{true}}", "{{#foo}}a{{^}}b{{/foo}}", "{{^foo}}n{{/foo}}", "{{#if}}x{{/if}}", "{{> (lookup . \"name\") x=1}}", "{{#> lay}}{{#*inline \"a\"}}z{{/inline}}{{/lay}}"};
Op gen_op() {
    Op op; op.own = chance(1, 3, "own boundary"); op.cse = (int)choose(cases.size(), "case");
    static const OpKind order[] = {RENDER, RENDER_NEW, SERIALIZE, COMPILE, PARSE, LEX, JSON, YAML, DELIMS, RENDER, RENDER_NEW, RENDER};
    op.k = order[choose(12, "op")];
    Case &c = cases[op.cse];
    op.flags = c.flags;
    if (op.k == JSON || op.k == YAML) {
        op.src = op.k == JSON ? to_json(c.root) : to_yaml(c.root);
        op.flags = choose(2);
        if (op.k == YAML && chance(1, 2, "block yaml")) { static const char *y[] = {"a: 1\nb: [1, two, 3.5]\nc:\n  d: true\n  e: null\n", "- x\n- y: z\n  w: 'q'\n-\n  - 1\n", "k: &anc {a: 1}\nl: *anc\n", "", "just a scalar", "? [complex]\n: v\n", "a: ''\nb: \"\"\n", "a: &r [1, *r]\n", "&r {k: {l: *r}}\n", "{1: 2, [3]: 4}", "# nothing\n", "a: 99999999999999999999\nb: -99999999999999999999\nc: 9223372036854775807\nd: 0x10\ne: .5\n", "a: *none\n", "a: nan\nb: infinity\nc: ~\nd:\ne: null\n", "a: !!str 12\nb: !x [1]\n", "a: \"\\0\"\nb: \"x\\0y\"\n", "a: |\n  x\n  y\nb: >\n  x\n  y\n"}; op.src = y[choose(sizeof y / sizeof *y)]; }
        if (chance(1, 60, "deep data")) {
            size_t d = 1 + choose(2) * 998 + choose(6), k = 1 + choose(3);
            op.src = std::string(d, '[') + "1" + std::string(d, ']');
            if (op.k == YAML && k > 1) { op.src = "- &a0 []\n"; for (size_t i = 1; i <= k; i++) op.src += "- &a" + std::to_string(i) + " " + std::string(d / k, '[') + "*a" + std::to_string(i - 1) + std::string(d / k, ']') + "\n"; }
        }
        if (chance(1, 5, "broken data") && !op.src.empty()) { size_t i = choose(op.src.size()); op.src.erase(i, 1 + choose(3)); }
        return op;
    }
    op.src = print(*c.main);
    uint64_t n = choose(4, "snippets");
    for (uint64_t i = 0; i < n; i++) { Span sp; const char *s = SNIP[choose(sizeof SNIP / sizeof *SNIP, "snippet")]; if (choose(3)) op.src += s; else op.src = s + op.src; }
    if (chance(1, 6, "mutilate") && !op.src.empty()) { size_t i = choose(op.src.size()); if (choose(2)) op.src.erase(i, 1 + choose(3)); else op.src.insert(i, pick(std::vector<std::string>{"{{", "}}", "{{/", "\"", "|", "(", "\xff", "{{#"})); }
    if (chance(1, 3, "flags")) op.flags ^= choose(handlebars_compiler_flag_all + 1, "flag bits");
    if ((op.k == RENDER || op.k == RENDER_NEW) && chance(1, 3, "vm flags")) op.vmflags = (long)choose(handlebars_compiler_flag_all + 1, "vm flag bits");
    if (op.k == RENDER || op.k == RENDER_NEW) { op.prov = (Provider)choose(P_COUNT, "provider"); if (c.lambdas && op.prov != P_OBJ) op.prov = P_NATIVE; }
    return op;
}
}

