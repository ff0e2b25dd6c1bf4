// World "cli": the command-line program with its files, standard streams and allocations under the simulator. Every
// invocation runs main() in a process of its own; what it wrote and its exit status are compared with the reference
// interpreter (--execute) or with the library called directly (--lex, --parse, --compile, --module).
// "A process of its own" is simulated: the program's variables are put back to their initial values before each
// invocation, exit() returns to the simulator, and the streams are flushed as a process does when it ends.
#include "tpl.h"
#include "seams.h"
#include "scratch.h"
#include "iofault.h"
#include <csignal>
#include <set>
#include <sys/stat.h>
#include <csetjmp>
#include <unistd.h>
#include <getopt.h>
using namespace sim;
using namespace tpl;
using iofault::IO; using iofault::ION;
extern "C" int handlebarsc_main(int argc, char **argv);

namespace {
const size_t CAP = 1 << 20;
struct Io { size_t out_n, err_n, nopen; bool file_fired, stdin_fired, out_fired; long alloc_fired; char out[CAP], err[65536]; };
Io *io_;
struct Plan {
    int fault = 0;                       // 1 file, 2 stdin, 3 stdout, 4 allocation
    long at = 0, len = 1; IO io = iofault::OPEN_FAILS; size_t off = 0; int err = EIO; bool short_io = false; int buf = 0;
    std::string in; std::map<std::string, std::string> files; std::string dir;
} plan;

std::set<FILE *> files_open; std::vector<void *> roots;
FILE *cli_open(const char *p, const char *m) {
    io_->nopen++;
    if (plan.fault == 1 && (long)io_->nopen == plan.at) {
        if (plan.io == iofault::OPEN_FAILS) { io_->file_fired = true; errno = plan.err; return nullptr; }
        auto it = plan.files.find(p);
        if (it != plan.files.end()) { io_->file_fired = true; return iofault::file(it->second, plan.io, plan.off, plan.err, m); }
    }
    if (plan.short_io) { auto it = plan.files.find(p); if (it != plan.files.end()) return iofault::file(it->second, iofault::SHORT_READS, 0, 0, m); }
    return __real_fopen(p, m);
}
FILE *cli_fopen(const char *p, const char *m) { FILE *f = cli_open(p, m); if (f) files_open.insert(f); return f; }
ssize_t out_write(void *, const char *b, size_t n) {
    size_t want = n;
    if (plan.fault == 3) {
        if (io_->out_n >= plan.off) { io_->out_fired = true; errno = plan.err; return 0; }
        if (n > plan.off - io_->out_n) { n = plan.off - io_->out_n; io_->out_fired = true; errno = plan.err; }
    }
    n = std::min(n, CAP - io_->out_n);
    memcpy(io_->out + io_->out_n, b, n); io_->out_n += n;
    (void)want; return (ssize_t)n;
}
ssize_t err_write(void *, const char *b, size_t n) { size_t k = std::min(n, sizeof io_->err - io_->err_n); memcpy(io_->err + io_->err_n, b, k); io_->err_n += k; return (ssize_t)n; }
// allocations the program makes itself
bool cli_alloc_fails() {
    if (!alloc.armed) return false;
    alloc.count++;
    bool f = alloc.fail_at > 0 && alloc.count >= alloc.fail_at && alloc.count < alloc.fail_at + alloc.fail_len;
    if (f) alloc.fired++;
    return f;
}
extern "C" char __start_hbclidata[] __attribute__((weak)), __stop_hbclidata[] __attribute__((weak)), __start_hbclibss[] __attribute__((weak)), __stop_hbclibss[] __attribute__((weak));
__attribute__((no_sanitize_address)) void copy_raw(char *d, const char *s, size_t n) { for (size_t i = 0; i < n; i++) ((volatile char *)d)[i] = s[i]; }
std::string init_data, init_bss;
void program_image(bool save) {
    size_t d = __stop_hbclidata - __start_hbclidata, b = __stop_hbclibss - __start_hbclibss;
    if (save) { init_data.resize(d); init_bss.resize(b); copy_raw(&init_data[0], __start_hbclidata, d); copy_raw(&init_bss[0], __start_hbclibss, b); }
    else { copy_raw(__start_hbclidata, init_data.data(), d); copy_raw(__start_hbclibss, init_bss.data(), b); }
}
jmp_buf exit_jmp; int exit_code;
void on_exit_(int c) { exit_code = c; longjmp(exit_jmp, 1); }
void cli_fclose(FILE *f) { files_open.erase(f); }
int invoke(std::vector<std::string> args) {
    FILE *in0 = stdin, *out0 = stdout, *err0 = stderr;
    if (init_data.empty()) program_image(true); else program_image(false);
    std::vector<char *> av; for (auto &a : args) av.push_back(&a[0]); av.push_back(nullptr);
    iofault::Cookie *c = new iofault::Cookie; c->data = plan.in; c->size = c->limit = plan.in.size(); c->short_reads = plan.short_io;
    if (plan.fault == 2) { c->limit = std::min(plan.off, c->size); c->err = plan.err; c->reported = &io_->stdin_fired; }
    cookie_io_functions_t fi = {iofault::c_read, nullptr, nullptr, iofault::c_close}, fo = {nullptr, out_write, nullptr, nullptr}, fe = {nullptr, err_write, nullptr, nullptr};
    stdin = fopencookie(c, "r", fi); stdout = fopencookie(nullptr, "w", fo); stderr = fopencookie(nullptr, "w", fe);
    setvbuf(stderr, nullptr, _IONBF, 0);
    if (plan.buf == 0) setvbuf(stdout, nullptr, _IOFBF, 4096); else if (plan.buf == 1) setvbuf(stdout, nullptr, _IOLBF, 1024); else setvbuf(stdout, nullptr, _IONBF, 0);
    seams.fopen = cli_fopen; seams.fclose = cli_fclose; seams.exit = on_exit_; optind = 0; files_open.clear(); roots.clear();
    exit_code = 0;
    static char cwd[4096]; if (!cwd[0] && !getcwd(cwd, sizeof cwd)) broken("getcwd");
    if (chdir(plan.dir.c_str())) broken("chdir");
    if (!setjmp(exit_jmp)) {
        if (plan.fault == 4) alloc_arm(plan.at, plan.len);
        exit_code = handlebarsc_main((int)args.size(), av.data());
    }
    io_->alloc_fired = plan.fault == 4 ? alloc.fired : 0; alloc_disarm();
    if (chdir(cwd)) broken("chdir");
    seams.exit = nullptr; seams.fopen = nullptr; seams.fclose = nullptr;
    fclose(stdout); fclose(stdin); fclose(stderr);
    stdin = in0; stdout = out0; stderr = err0;
    for (FILE *f : files_open) fclose(f);
    for (void *r : roots) if (!talloc_parent(r)) talloc_free(r);
    return exit_code;
}
std::string file_text(const std::string &p) { return plan.files[p]; }
void write_file(const std::string &rel, const std::string &text) {
    std::string p = plan.dir + "/" + rel;
    FILE *o = __real_fopen(p.c_str(), "wb"); if (!o || fwrite(text.data(), 1, text.size(), o) != text.size() || fclose(o)) broken("cannot write %s", p.c_str());
    plan.files[rel] = text;
    log("file %s: %s", rel.c_str(), quote(text, 1500).c_str());
}
std::string mask_addr(std::string s) {      // where the module lies in memory, and the hash that depends on it
    for (const char *k : {"ADDR: ", "HASH: "}) { size_t i = s.find(k); if (i == std::string::npos) continue; size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); s.erase(i, e - i); }
    return s;
}
static const struct { unsigned long bit; const char *name; } FLAGS[] = {
    {handlebars_compiler_flag_no_escape, "no_escape"}, {handlebars_compiler_flag_compat, "compat"}, {handlebars_compiler_flag_known_helpers_only, "known_helpers_only"},
    {handlebars_compiler_flag_string_params, "string_params"}, {handlebars_compiler_flag_track_ids, "track_ids"}, {handlebars_compiler_flag_ignore_standalone, "ignore_standalone"},
    {handlebars_compiler_flag_alternate_decorators, "alternate_decorators"}, {handlebars_compiler_flag_strict, "strict"}, {handlebars_compiler_flag_assume_objects, "assume_objects"},
    {handlebars_compiler_flag_mustache_style_lambdas, "mustache_style_lambdas"}};
}
extern "C" {
void *cli__talloc_array(const void *c, size_t s, unsigned n, const char *name) { return cli_alloc_fails() ? nullptr : _talloc_array(c, s, n, name); }
void *cli__talloc_realloc_array(const void *c, void *p, size_t s, unsigned n, const char *name) { return cli_alloc_fails() ? nullptr : _talloc_realloc_array(c, p, s, n, name); }
void *cli__talloc_zero(const void *c, size_t s, const char *name) { return cli_alloc_fails() ? nullptr : _talloc_zero(c, s, name); }
void *cli_talloc_named_const(const void *c, size_t s, const char *name) { if (cli_alloc_fails()) return nullptr; void *r = talloc_named_const(c, s, name); if (!c) roots.insert(roots.begin(), r); return r; }
void *cli_talloc_pool(const void *c, size_t s) { if (cli_alloc_fails()) return nullptr; void *r = talloc_pool(c, s); if (!c) roots.push_back(r); return r; }
char *cli_talloc_strdup(const void *c, const char *p) { return cli_alloc_fails() ? nullptr : talloc_strdup(c, p); }
char *cli_talloc_strdup_append_buffer(char *s, const char *p) { return cli_alloc_fails() ? nullptr : talloc_strdup_append_buffer(s, p); }
char *cli_talloc_strndup(const void *c, const char *p, size_t n) { return cli_alloc_fails() ? nullptr : talloc_strndup(c, p, n); }
char *cli_talloc_strndup_append_buffer(char *s, const char *p, size_t n) { return cli_alloc_fails() ? nullptr : talloc_strndup_append_buffer(s, p, n); }
}

WORLD(cli) {
    scratch_clean();
    plan = Plan();
    plan.dir = scratch_dir();
    if (!io_) { io_ = new Io; }
    enum Mode { EXECUTE, LEX, PARSE, COMPILE, MODULE, INFO } mode = (Mode)choose(choose(3, "other mode") ? 1 : 6, "mode");
    GenOpt o; o.helpers = false; o.broken_partials = true; o.nulls = true; o.tricky_strings = true; o.modes = true; if (chance(1, 8, "delimiters")) o.delims = true;
    int data_kind = (int)choose(7, "data"); if (data_kind > 3) data_kind = 1 + data_kind % 2;    // 0 none, 1 JSON, 2 YAML, 3 broken
    if (mode != EXECUTE) data_kind = 0;
    Case c = generate(o); c.helpers.clear(); c.has_data = false; c.data = null();
    if (chance(1, 12, "empty data")) { c.root = choose(2) ? map() : arr(); }
    std::string yaml_text = to_yaml(c.root);
    unsigned long flags = 0; for (auto &f : FLAGS) flags |= c.flags & f.bit;
    if (mode != EXECUTE) for (auto &f : FLAGS) if (chance(1, 6, "flag")) flags |= f.bit;
    c.flags = flags;
    std::string src = print(*c.main);
    if (src.empty() || chance(1, 4, "small")) { src = "{{a}}"; c.main = nullptr; }
    bool mutated = !c.main;
    if (chance(1, mode == EXECUTE ? 8 : 3, "mutate")) {
        mutated = true;
        size_t at = choose(src.size() + 1), k = choose(5);
        if (k == 0) src.erase(at, 1 + choose(5)); else if (k == 1) src.insert(at, "{{"); else if (k == 2) src.insert(at, "}}"); else if (k == 3) src.insert(at, 1, '\0'); else src.insert(at, "{{#if a}}");
        if (src.empty()) src = "x";
    }
    // ---- command line
    std::vector<std::string> args = {"handlebarsc"};
    std::string tname = chance(1, 5, "template on stdin") ? "-" : chance(1, 2) ? "t.hbs" : "some template";
    bool tin = tname == "-";
    static const char *modes[] = {"--execute", "--lex", "--parse", "--compile", "--module"};
    bool nonl = false; std::string info; bool loader = false; std::string dname, ext = ".hbs", pdir = "."; bool noconv = false;
    if (mode == INFO) { static const char *is[] = {"--help", "--version", "-h", "-V", ""}; info = is[choose(5, "info")]; if (!info.empty()) args.push_back(info); }
    else if (mode != EXECUTE || chance(1, 3)) args.push_back(modes[mode]);
    if (mode != INFO) {
        if (chance(1, 2, "-t")) { args.push_back(chance(1, 2) ? "-t" : "--template"); args.push_back(tname); }
        if (flags) { std::string f; for (auto &x : FLAGS) if (flags & x.bit) f += (f.empty() ? "" : ",") + std::string(x.name); args.push_back("--flags"); args.push_back(f); }
        if (mode == EXECUTE) {
            nonl = chance(1, 3, "-n"); if (nonl) args.push_back(chance(1, 2) ? "-n" : "--no-newline");
            loader = chance(2, 3, "partial loader");
            if (loader) {
                args.push_back("--partial-loader");
                if (chance(2, 3)) { pdir = chance(1, 2) ? "parts" : plan.dir + "/parts"; args.push_back("--partial-path"); args.push_back(pdir); }
                if (chance(1, 2)) { ext = chance(1, 2) ? "" : ".handlebars"; args.push_back("--partial-ext"); args.push_back(ext); }
            }
            static const char *jn[] = {"d.json", "data", "-", "a.yaml.txt"}, *yn[] = {"d.yaml", "a.yml", "long name.yml", "x.yaml"};
            if (data_kind == 1 || data_kind == 3) dname = jn[choose(tin ? 2 : 4, "data name")];
            if (data_kind == 2) dname = yn[choose(4, "data name")];
            if (data_kind) { args.push_back(chance(1, 2) ? "-D" : "--data"); args.push_back(dname); }
            noconv = chance(1, 3, "no convert"); if (noconv) args.push_back("--no-convert-input");
            if (chance(1, 5, "run count")) { args.push_back("--run-count"); args.push_back(chance(1, 2) ? "2" : "3"); }
        }
        if (chance(1, 3, "pool size")) { args.push_back("--pool-size"); static const char *ps[] = {"0", "1", "4096", "100000000"}; args.push_back(ps[choose(4)]); }
        bool has_t = false; for (auto &a : args) if (a == "-t" || a == "--template") has_t = true;
        if (!has_t) args.push_back(tname);
    }
    // ---- files
    bool tmissing = false, dmissing = false;
    if (mode != INFO) {
        if (tin) plan.in = src;
        else {
            uint64_t k = choose(20, "template file");
            if (k == 19) { tmissing = true; }
            else if (k == 18) { tmissing = true; if (mkdir((plan.dir + "/" + tname).c_str(), 0700)) broken("mkdir"); }
            else if (k == 17) { tmissing = true; write_file(tname, ""); }
            else write_file(tname, src);
        }
        if (data_kind) {
            std::string text = data_kind == 1 ? to_json(c.root) : data_kind == 2 ? yaml_text : std::string(pick(std::vector<std::string>{"{\"a\": [1, ", "{} x", "[1]]", "{\"a\": 1}{", "nul", std::string("{\"a\": 1}\0 ", 10), std::string("[1]\0x", 5), std::string("\0{}", 3), "\"x", "-"}, "broken data"));
            if (dname == "-") plan.in = text;
            else {
                uint64_t k = choose(20, "data file");
                if (k == 19) dmissing = true;
                else if (k == 18) { dmissing = true; if (mkdir((plan.dir + "/" + dname).c_str(), 0700)) broken("mkdir"); }
                else write_file(dname, text);
            }
        }
        if (loader) {
            if (mkdir((plan.dir + "/parts").c_str(), 0700)) broken("mkdir");
            for (auto &pd : c.partials) { std::string dir = pdir == "." ? "" : "parts/"; if (chance(7, 8, "partial exists")) { std::string rel = dir + pd.name + ext; if (!plan.files.count(rel)) { write_file(rel, source_of(pd)); std::string full = pdir + "/" + pd.name + ext; plan.files[full] = plan.files[rel]; if (full != rel && rel != tname && rel != dname) plan.files.erase(rel); } } }
        }
    }
    std::string line; for (auto &a : args) line += " " + quote(a);
    log("args%s stdin=%s", line.c_str(), quote(plan.in, 800).c_str());
    // ---- what it should do
    bool ok = true; std::string want, msg; bool know = true;
    std::set<std::string> seen;
    if (mode == INFO) { ok = !info.empty(); know = false; }
    else if (tmissing) { ok = false; msg = "ile"; }
    else if (mode == EXECUTE && !mutated && !dmissing && data_kind != 3) {
        X root = data_kind ? as_seen(c.root, data_kind == 2 ? P_YAML : noconv ? P_JSON : P_JSON_CONV) : null();
        c.resolve = [&](const std::string &name, bool &failed) -> const PartialDef * {
            if (!loader) { failed = false; return nullptr; }
            for (auto &pd : c.partials) if (pd.name == name) { auto it = plan.files.find(pdir + "/" + name + ext); if (it == plan.files.end() || it->second.empty()) break; return &pd; }
            failed = true; return nullptr;
        };
        Result r = evaluate(c, root, Fault());
        if (r.skipped || r.out.size() > CAP / 2) { stat("sim.skipped_too_big"); return; }
        ok = !r.err; want = r.out; if (ok && !nonl) want += "\n"; if (!ok && r.check_msg) msg = r.msg;
    } else if (mode == EXECUTE && (dmissing || data_kind == 3)) { ok = false; }
    else {
        // the library called directly
        hctx *ctx = handlebars_context_ctor();
        int rc = hb_try(ctx, [&] {
            hstr *t = mkstr(ctx, src);
            if (flags & handlebars_compiler_flag_compat) t = handlebars_preprocess_delimiters(ctx, t, nullptr, nullptr);
            handlebars_parser *p = handlebars_parser_ctor(ctx);
            if (mode == LEX) { for (handlebars_token **k = handlebars_lex_ex(p, t); *k; k++) want += S(handlebars_token_print(ctx, *k, 1)); return; }
            handlebars_ast_node *ast = handlebars_parse_ex(p, t, flags);
            if (mode == PARSE) { want = S(handlebars_ast_print(ctx, ast)); return; }
            handlebars_compiler *comp = handlebars_compiler_ctor(ctx); handlebars_compiler_set_flags(comp, flags);
            handlebars_program *pr = handlebars_compiler_compile_ex(comp, ast);
            if (mode == COMPILE) { want = S(handlebars_program_print(ctx, pr, 0)); return; }
            handlebars_module *m = handlebars_program_serialize(ctx, pr);
            if (mode == MODULE) { handlebars_module_generate_hash(m); want = mask_addr(S(handlebars_module_print(ctx, m))); return; }
            handlebars_vm *vm = handlebars_vm_ctor(ctx); handlebars_vm_set_flags(vm, flags);
            HANDLEBARS_VALUE_DECL(input); HANDLEBARS_VALUE_DECL(parts);
            if (loader) handlebars_value_partial_loader_init(ctx, mkstr(ctx, pdir[0] == '/' ? pdir : plan.dir + "/" + pdir), mkstr(ctx, ext), parts);
            handlebars_vm_set_partials(vm, parts);
            if (data_kind == 1) { std::string j = to_json(c.root); handlebars_value_init_json_stringl(ctx, input, j.data(), j.size()); if (!noconv) handlebars_value_convert(input); }
            else if (data_kind == 2) handlebars_value_init_yaml_string(ctx, input, yaml_text.c_str());
            want = S(handlebars_vm_execute(vm, m, input)); if (!nonl) want += "\n";
        });
        if (rc) { ok = false; want.clear(); msg = handlebars_error_msg(ctx); if (msg.find(plan.dir) != std::string::npos || msg.find("partial") != std::string::npos) msg.clear(); }
        handlebars_context_dtor(ctx);
    }
    // ---- run it, several times with different faults
    int rounds = 1 + (int)choose(5, "invocations");
    for (int i = 0; i < rounds; i++) {
        Span sp;
        plan.fault = i == 0 ? 0 : (int)choose(5, "fault"); plan.short_io = chance(1, 3, "short reads and writes"); plan.buf = (int)choose(3, "buffering");
        static const int es[] = {EIO, ENOSPC, EPIPE, EINTR, EACCES, EMFILE, ENOMEM}; plan.err = es[choose(7, "errno")];
        plan.at = 1; plan.len = 1; plan.off = 0;
        if (plan.fault == 1) { plan.at = 1 + (long)choose(4, "failing file"); plan.io = (IO)choose(iofault::IO_N, "io fault"); plan.off = choose(400, "offset"); }
        if (plan.fault == 2) plan.off = choose(choose(2) ? 20 : 2000, "offset");
        if (plan.fault == 3) plan.off = choose(choose(3) ? want.size() + 3 : 4, "offset");
        if (plan.fault == 4) { plan.at = 1 + (long)choose(choose(3) ? 30 : 1500, "failing allocation"); plan.len = choose(3) ? 1 : 1000000000; }
        io_->out_n = io_->err_n = io_->nopen = 0; io_->file_fired = io_->stdin_fired = io_->out_fired = false; io_->alloc_fired = -1;
        int rc = invoke(args);
        std::string out(io_->out, io_->out_n), err(io_->err, io_->err_n);
        if (mode == MODULE) out = mask_addr(out);
        bool benign = plan.fault == 1 && plan.io == iofault::SHORT_READS;
        bool hard = (io_->file_fired && !benign) || io_->stdin_fired;
        log("run fault=%d at=%ld off=%zu io=%d short=%d buf=%d: rc=%d out=%s err=%s fired=%d%d%d alloc=%ld", plan.fault, plan.at, plan.off, (int)plan.io, plan.short_io, plan.buf, rc, quote(out, 300).c_str(), quote(err, 300).c_str(), io_->file_fired, io_->stdin_fired, io_->out_fired, io_->alloc_fired);
        if (io_->file_fired) { nontrivial(); stat((std::string("fault.file.") + ION[plan.io]).c_str()); }
        if (io_->stdin_fired) { nontrivial(); stat("fault.stdin.read_fails"); }
        if (io_->out_fired) { nontrivial(); stat("fault.stdout.write_fails"); }
        if (io_->alloc_fired > 0) { nontrivial(); stat("fault.alloc"); }
        if (plan.short_io) stat("fault.short_io");
        sig(mode * 1000 + rc * 100 + plan.fault * 10 + (hard ? 1 : 0) + (io_->out_fired ? 2 : 0) + (ok ? 4 : 0) + hash_bytes(out.data(), out.size()) % 97 * 10000);
        if (!know) {       // --help, --version
            if (!i) want = out;
            if (i == 0) SIM_CHECK(out.find("andlebars") != std::string::npos, "cli-output", "%s prints %s", info.c_str(), quote(out).c_str());
        }
        if (io_->out_fired) {
            SIM_CHECK(rc != 0, "cli-lost-output", "the program reports success although standard output failed after %zu of %zu bytes", out.size(), want.size());
            SIM_CHECK(mode == MODULE || want.compare(0, out.size(), out) == 0, "cli-output", "the output before the failure is %s", quote(out).c_str());
            SIM_CHECK((mode == INFO && info.empty()) || !err.empty(), "cli-message", "the program ended with status %d without a message", rc);
            stat("probe.write_error_reported");
            continue;
        }
        if (hard) {
            SIM_CHECK(rc != 0, "cli-lost-input", "the program reports success although its input could not be read");
            SIM_CHECK(out.empty(), "cli-output", "the program printed %s although its input could not be read", quote(out).c_str());
            SIM_CHECK(!err.empty(), "cli-message", "the program ended with status %d without a message", rc);
            stat("probe.read_error_reported");
            continue;
        }
        if (io_->alloc_fired > 0 && rc != 0 && (ok || (!know && out.empty()))) {
            SIM_CHECK(mode == LEX ? want.compare(0, out.size(), out) == 0 : out.empty(), "cli-output", "the program failed and printed %s", quote(out).c_str());
            SIM_CHECK(!err.empty(), "cli-message", "the program ended with status %d without a message", rc);
            stat("probe.out_of_memory_reported");
            continue;
        }
        SIM_CHECK(ok == (rc == 0), "cli-status", "exit status %d, expected %s: %s (%s)", rc, ok ? "success" : "failure", quote(err, 300).c_str(), quote(msg).c_str());
        if (ok || !know) { SIM_CHECK(out == want, "cli-output", "printed %s, expected %s", quote(out, 400).c_str(), quote(want, 400).c_str()); }
        else {
            SIM_CHECK(out.empty(), "cli-output", "the program failed and printed %s", quote(out).c_str());
            if (io_->alloc_fired <= 0) SIM_CHECK(!err.empty() && err.find(msg) != std::string::npos, "cli-message", "the message is %s, expected %s", quote(err, 300).c_str(), quote(msg, 300).c_str());
        }
        stat(ok ? "probe.success" : "probe.failure");
    }
    scratch_clean();
}
