// World "render": one VM, one template, helpers that fail at a chosen call, data providers that fail at a chosen
// access, against the reference interpreter; afterwards the same VM renders again.
#include "tpl.h"
using namespace sim;
using namespace tpl;

static Result run(hctx *ctx, handlebars_vm *vm, handlebars_module *m, hval *input, Rec &rec) {
    Result r; rec.calls.clear(); rec.n = 0; rec.access = 0; rec.access_fired = false;
    hstr *volatile out = nullptr;
    r.err = hb_try(ctx, [&] { out = handlebars_vm_execute(vm, m, input); });
    if (r.err) { const char *msg = handlebars_error_msg(ctx); r.msg = msg ? msg : ""; auto l = handlebars_error_loc(ctx); r.line = l.first_line; r.col = l.first_column; hb_clear(ctx); }
    else r.out = S(out);
    r.calls = rec.calls;
    return r;
}

// Texts whose reading as data is settled by the JSON and YAML formats: what they dump to, or nullptr if they are an error
static const struct { bool yaml; const char *text, *want; } TEXTS[] = {
    {true, "", nullptr}, {true, "# nothing\n", nullptr}, {true, "a: *none\n", nullptr}, {true, "a: [1", nullptr}, {true, "a: &r [1, *r]\n", nullptr}, {true, "{[3]: 4}", nullptr},
    {true, "just a scalar", "string(just a scalar)"}, {true, "~", "NULL"}, {true, "null", "NULL"}, {true, "'null'", "string(null)"}, {true, "\"~\"", "string(~)"}, {true, "true", "boolean(true)"}, {true, "'true'", "string(true)"},
    {true, "false", "boolean(false)"}, {true, "-12", "integer(-12)"}, {true, "'-12'", "string(-12)"}, {true, "012", "integer(12)"}, {true, "[0120, -007, +5, -0, 00]", "[\n    0 => integer(120)\n    1 => integer(-7)\n    2 => integer(5)\n    3 => integer(0)\n    4 => integer(0)\n]"}, {true, "1.5", "float(1.5)"}, {true, "1e3", "float(1000)"}, {true, "nan", "string(nan)"}, {true, "1x", "string(1x)"},
    {true, "9223372036854775807", "integer(9223372036854775807)"}, {true, "9223372036854775808", "float(9.22337e+18)"}, {true, "[]", "[]"}, {true, "{}", "{}"},
    {true, "- x\n- y: z\n", "[\n    0 => string(x)\n    1 => {\n        y => string(z)\n    }\n]"}, {true, "k: &a {b: 1}\nl: *a\n", "{\n    k => {\n        b => integer(1)\n    }\n    l => {\n        b => integer(1)\n    }\n}"},
    {true, "a: 1\nb: 2\na: 3\n", "{\n    a => integer(3)\n    b => integer(2)\n}"}, {true, "a: |\n  x\n  y\n", "{\n    a => string(x\ny\n)\n}"}, {true, "a:\nb: ''\n", "{\n    a => NULL\n    b => string()\n}"},
    {true, "[1] 2", nullptr}, {true, "a: 1\n]\n", nullptr}, {true, "{a: 1}\n  \n# end\n", "{\n    a => integer(1)\n}"}, {true, "--- 1\n...\n", "integer(1)"}, {true, "'a' 'b'", nullptr},
    {false, "12", "integer(12)"}, {false, "12 ", "integer(12)"}, {false, "{} \t\r\n", "{}"}, {false, "{}}", nullptr}, {false, "1 1", nullptr}, {false, "nul", nullptr}, {false, "\"x\"\"y\"", nullptr},
    {false, "", nullptr}, {false, "{", nullptr}, {false, "[1,2", nullptr}, {false, "{\"a\":}", nullptr}, {false, "nope", nullptr}, {false, "\"x", nullptr}, {false, "[1] 2", nullptr}, {false, "   ", nullptr},
    {false, "null", "NULL"}, {false, " true ", "boolean(true)"}, {false, "false", "boolean(false)"}, {false, "-12", "integer(-12)"}, {false, "1.5", "float(1.5)"}, {false, "\"a\\n\\u0041\\u20ac\"", "string(a\nA\xe2\x82\xac)"},
    {false, "[]", "[]"}, {false, "{}", "{}"}, {false, "[1,[null,{\"k\":\"v\"}]]", "[\n    0 => integer(1)\n    1 => [\n        0 => NULL\n        1 => {\n            k => string(v)\n        }\n    ]\n]"},
    {false, "9223372036854775807", "integer(9223372036854775807)"}, {false, "{\"a\":1,\"b\":2,\"a\":3}", "{\n    a => integer(3)\n    b => integer(2)\n}"},
};
static void text_check() {
    auto &t = TEXTS[choose(sizeof TEXTS / sizeof *TEXTS, "text")]; bool conv = chance(1, 2, "convert");
    hctx *ctx = handlebars_context_ctor(); char *volatile d = nullptr;
    HANDLEBARS_VALUE_DECL(v);
    bool len = chance(1, 2, "with length");
    int rc = hb_try(ctx, [&] { if (!t.yaml && len) { char *b = (char *)malloc(strlen(t.text) + !strlen(t.text)); memcpy(b, t.text, strlen(t.text)); int e = hb_try(ctx, [&] { handlebars_value_init_json_stringl(ctx, v, b, strlen(t.text)); }); free(b); if (e) handlebars_rethrow(ctx, ctx); } else if (t.yaml) handlebars_value_init_yaml_string(ctx, v, t.text); else handlebars_value_init_json_string(ctx, v, t.text); if (conv) handlebars_value_convert(v); d = handlebars_value_dump(v, ctx, 0); });
    std::string what = std::string(t.yaml ? "YAML" : "JSON") + " text " + quote(t.text);
    if (!t.want) SIM_CHECK(rc == HANDLEBARS_ERROR, "data-text", "%s is no data but was read with result %d as %s", what.c_str(), rc, d ? quote(d).c_str() : "nothing");
    else SIM_CHECK(rc == 0 && !strcmp(d, t.want), "data-text", "%s was read with result %d as %s, expected %s", what.c_str(), rc, d ? quote(d).c_str() : "nothing", quote(t.want).c_str());
    stat("probe.data_text_checked");
    HANDLEBARS_VALUE_UNDECL(v);
    handlebars_context_dtor(ctx);
}

// Delimiter changes at the edges of what the preprocessor looks for: what they print with {a: 1}, or nullptr if they are malformed
static const char *DELIMS[][2] = {
    {"{{=<% %>}}", nullptr}, {"{{=<%=}}", nullptr}, {"{{=<% =}}", nullptr}, {"{{=<% %>=", nullptr}, {"{{=<% %>=}", nullptr}, {"{{=<% %>= }}", nullptr}, {"{{=<%", nullptr}, {"x{{=<% %>=}}<%=| |%>", nullptr}, {"{{=<% %>=}}<%a", nullptr},
    {"{{=<% %>=}}<%a}}", nullptr}, {"{{=<% %>=}}<%a%>x<%", nullptr}, {"{{=<% %>=}}<%%", nullptr}, {"{{=| |=}}|a", nullptr}, {"{{=| |=}}|a|", "1"}, {"{{=| |=}}||", nullptr}, {"{{=|  |=}}x|", nullptr}, {"{{=<% %>=}}", ""}, {"{{= <% %> =}}<% a %>", "1"}, {"x{{=| |=}}|a|{{a}}", "x1{{a}}"}, {"{{=| |=}}|={{ }}=|{{a}}|a|", "1|a|"}, {"{{=<% %>=}}<%a%>{{{{a}}}}<%a%>", "1{{{{a}}}}1"}, {"{{=<% %>=}}{{{{{", "{{{{{"},
    {"{{=<% %>=}}{{", "{{"}, {"{{=<% %>=}}{", "{"}, {"{{a}}{{=<% %>=}}{{a}}<%={{ }}=%>{{a}}", "1{{a}}1"}, {"{{=aa bb=}}aaabb", "1"}, {"{{=% %=}}%a%%a%", "11"}, {"{{={% %}=}}{%a%}{{a}}{%a%}", "1{{a}}1"}, {"\n{{=<% %>=}}\n<%a%>", "\n1"},
    {"{{=<% %>=}} \n<%a%>\n", "1\n"}, {"{{a}}", "1"}, {"{{a", nullptr}, {"x{{", nullptr}, {"x{{}}", nullptr}, {"{a}", "{a}"}, {"\\{{a}}", "{{a}}"}, {"\\\\{{a}}", "\\1"},
    {"{{=<\" \">=}}<\"a\">", "1"}, {"{{=<{ }>=}}<{a}><{{a}}>", "11"}, {"{{=<% %>=}}<%! x %>y<%#if a%>t<%else%>f<%/if%>", "yt"},
};
static void delim_check() {
    auto &t = DELIMS[choose(sizeof DELIMS / sizeof *DELIMS, "text")];
    hctx *ctx = handlebars_context_ctor(); handlebars_vm *vm = handlebars_vm_ctor(ctx); handlebars_vm_set_flags(vm, handlebars_compiler_flag_compat); hstr *volatile out = nullptr;
    HANDLEBARS_VALUE_DECL(v);
    int rc = hb_try(ctx, [&] { handlebars_value_init_json_string(ctx, v, "{\"a\":1}"); out = handlebars_vm_execute(vm, tpl::compile(ctx, t[0], handlebars_compiler_flag_compat), v); });
    if (!t[1]) SIM_CHECK(rc == HANDLEBARS_ERROR || rc == HANDLEBARS_PARSEERR, "delimiters", "the malformed template %s ended with %d and printed %s", quote(t[0]).c_str(), rc, rc ? "nothing" : quote(S(out)).c_str());
    else SIM_CHECK(rc == 0 && S(out) == t[1], "delimiters", "%s ended with %d %s and printed %s, expected %s", quote(t[0]).c_str(), rc, rc ? handlebars_error_msg(ctx) : "", rc ? "nothing" : quote(S(out)).c_str(), quote(t[1]).c_str());
    stat("probe.delimiter_text_checked");
    HANDLEBARS_VALUE_UNDECL(v);
    handlebars_vm_dtor(vm); handlebars_context_dtor(ctx);
}

WORLD(render) {
    if (option("delims") && chance(1, 8, "delimiter text")) delim_check();
    bool c16 = option("providers") != nullptr, life = option("life") != nullptr, failed = false;
    if (c16 && chance(1, 8, "data text")) text_check();
    GenOpt o; o.broken_partials = true; o.modes = o.compile_errors = o.partial_values = o.known = true; bool mustache = option("delims") != nullptr; o.delims = mustache && chance(1, 2, "delimiters"); o.mlambdas = mustache && !o.delims;
    Provider p = life ? P_OBJ : c16 ? (Provider)choose(P_COUNT, "provider") : P_NATIVE;
    o.lambdas = (p == P_NATIVE || p == P_OBJ) && !o.mlambdas && chance(1, 3, "lambdas");
    o.closures = o.lambdas;
    Case c = generate(o);
    std::string src = print(*c.main);
    X root = as_seen(c.root, p);
    log("provider=%d flags=%lx data=%s", p, c.flags, dump(c.root).c_str());
    log("template=%s", quote(src, 4000).c_str());
    for (auto &pd : c.partials) log("partial %s=%s", pd.name.c_str(), quote(source_of(pd), 2000).c_str());
    Result base = evaluate(c, root, Fault());
    if (base.skipped) { stat("sim.skipped_too_big"); return; }
    hctx *ctx = handlebars_context_ctor();
    Rec rec;
    handlebars_vm *vm = handlebars_vm_ctor(ctx);
    setup_vm(ctx, vm, c, &rec);
    HANDLEBARS_VALUE_DECL(input);
    handlebars_module *volatile m = nullptr;
    int rc = hb_try(ctx, [&] { build_value(ctx, input, c.root, p, &rec); m = compile(ctx, src, c.flags, &c.known); });
    if (base.compile_error) {
        nontrivial(); stat("probe.compile_refused");
        auto l = handlebars_error_loc(ctx);
        SIM_CHECK(l.first_line == base.line && (base.col < 0 || l.first_column == base.col), "render", "the error %s of the compiler is at %d:%d, expected %d:%d", handlebars_error_msg(ctx), l.first_line, l.first_column, base.line, base.col);
        SIM_CHECK(rc == base.err && strstr(handlebars_error_msg(ctx), base.msg.c_str()), "render", "compiling ended with %d %s, expected %s", rc, handlebars_error_msg(ctx), base.msg.c_str());
        HANDLEBARS_VALUE_UNDECL(input); handlebars_vm_dtor(vm); handlebars_context_dtor(ctx); return;
    }
    SIM_CHECK(rc == 0, "compile-error", "a well-formed template or its data is rejected: %d %s: %s", rc, handlebars_error_msg(ctx), quote(src, 500).c_str());
    int rounds = 1 + (int)choose(4, "rounds");
    for (int i = 0; i < rounds; i++) {
        Span sp;
        Fault f; rec.fault = -1; rec.access_fault = -1;
        std::string why;
        uint64_t kind = choose(3, "fault kind");
        if (kind == 1 && !base.calls.empty()) { f.call = 1 + (long)choose(base.calls.size(), "failing call"); rec.fault = f.call; nontrivial(); }
        if (kind == 2 && p == P_OBJ) {
            rec.access_fault = 1 + (long)choose(choose(2) ? 8 : 60, "failing access");
            Result got = run(ctx, vm, m, input, rec);
            log("access fault %ld fired=%d err=%d", rec.access_fault, rec.access_fired, got.err);
            if (rec.access_fired) {
                nontrivial(); stat("probe.provider_fault_propagated");
                SIM_CHECK(got.err == HANDLEBARS_ERROR && got.msg.find("injected access failure") != std::string::npos, "provider-error-lost", "the data provider failed but the render ended with %d %s %s", got.err, quote(got.msg).c_str(), quote(got.out).c_str());
                Result pre = base; for (size_t k = 0; k < got.calls.size(); k++)
                    SIM_CHECK(k < base.calls.size() && (got.calls[k] == base.calls[k] || k + 1 == got.calls.size()), "call-history", "call %zu before the provider failure was %s", k, got.calls[k].c_str());
            } else {
                SIM_CHECK(compare(base, got, why), "render", "%s", why.c_str());
            }
            rec.access_fault = -1;
            failed = failed || got.err;
            continue;
        }
        long live0 = rec.objs - rec.objs_dead;
        Result want = f.call < 0 ? base : evaluate(c, root, f);
        Result got = run(ctx, vm, m, input, rec);
        log("round %d failing call %ld: err=%d %s out=%s calls=%zu", i, f.call, got.err, quote(got.msg).c_str(), quote(got.out).c_str(), got.calls.size());
        sig(want.err * 131 + want.calls.size() * 7 + (f.call > 0) + hash_bytes(got.out.data(), got.out.size()) % 9973);
        failed = failed || got.err;
        if (want.err) { nontrivial(); stat("probe.render_failed"); } else stat("probe.render_completed");
        if (!want.calls.empty()) nontrivial();
        SIM_CHECK(compare(want, got, why), "render", "%s", why.c_str());
        stat("sim.helper_calls", got.calls.size());
        if (life && !got.err) {
            long live = rec.objs - rec.objs_dead;
            SIM_CHECK(live == live0, "late-destroy", "%ld user objects created by a completed render were not destroyed", live - live0);
            stat("probe.user_objects_destroyed", rec.objs_dead);
        }
    }
    HANDLEBARS_VALUE_UNDECL(input);
    if (life && !failed) SIM_CHECK(rec.objs == rec.objs_dead, "late-destroy", "%ld user objects are still alive after the data was released", rec.objs - rec.objs_dead);
    handlebars_vm_dtor(vm);
    handlebars_context_dtor(ctx);
}
