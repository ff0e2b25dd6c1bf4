// World "loader": renders whose partials come from files through the partial loader. The files change between renders;
// opening, seeking and reading fail, files are truncated while they are read, allocations and helpers fail. The model
// knows which files exist and which partials the loader has already.
#include "tpl.h"
#include "seams.h"
#include "scratch.h"
#include "iofault.h"
#include <cerrno>
#include <dirent.h>
#include <set>
#include <sys/stat.h>
#include <unistd.h>
using namespace sim;
using namespace tpl;

namespace {
enum FK { MISSING, REG, DIRECTORY };
struct File { FK k = MISSING; int def = -1; std::string text; };
using namespace iofault;
struct World {
    std::string base, base_given, ext; std::map<std::string, File> fs; std::vector<PartialDef> defs;
    std::map<std::string, int> loaded, maybe; std::vector<std::string> order; bool order_known = true;
    std::vector<std::string> opens; std::set<FILE *> open_files; long fault_at = -1; IO io; size_t io_off; int io_errno; bool io_fired = false; long nopen = 0;
    // while the model runs
    size_t pos; long mopen;
};
World *W;
std::string path_of(const std::string &name) { return W->base_given + "/" + name + W->ext; }

std::map<std::string, File>::iterator file_at(std::string p) { size_t i = p.find("/./"); if (i != std::string::npos) p.erase(i, 2); return W->fs.find(p); }

bool ours(const char *p) { return !strncmp(p, W->base.c_str(), W->base.size()); }

FILE *sim_fopen(const char *p, const char *m) {
    if (!W || !ours(p)) return __real_fopen(p, m);
    W->opens.push_back(p); W->nopen++;
    FILE *f = nullptr;
    auto it = file_at(p);
    if (W->nopen == W->fault_at && (W->io == OPEN_FAILS || (it != W->fs.end() && it->second.k == REG))) {
        W->io_fired = true; nontrivial(); stat((std::string("fault.file.") + ION[W->io]).c_str());
        if (W->io == OPEN_FAILS) { errno = W->io_errno; return nullptr; }
        f = iofault::file(it->second.text, W->io, W->io_off, W->io_errno, m);
    } else f = __real_fopen(p, m);
    if (f) W->open_files.insert(f);
    return f;
}
void sim_fclose(FILE *f) { if (W) W->open_files.erase(f); }
int sim_open(const char *p, int) {
    if (!W || !ours(p)) return 0;
    W->opens.push_back(p); W->nopen++;
    if (W->nopen == W->fault_at && W->io == OPEN_FAILS) { W->io_fired = true; nontrivial(); stat("fault.file.open_fails"); return W->io_errno; }
    return 0;
}
size_t fds() { size_t n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return 0; while (readdir(d)) n++; closedir(d); return n; }

// the model of a lookup
const PartialDef *resolve(const std::string &name, bool &failed) {
    World &w = *W;
    auto l = w.loaded.find(name);
    if (l != w.loaded.end()) return &w.defs[l->second];
    if (name.find('\0') != std::string::npos) { failed = true; return nullptr; }
    std::string p = path_of(name);
    auto mb = w.maybe.find(name);
    if (mb != w.maybe.end() && !(w.pos < w.opens.size() && w.opens[w.pos] == p)) { w.loaded[name] = mb->second; w.maybe.erase(name); w.order_known = false; return &w.defs[w.loaded[name]]; }
    w.pos++; w.mopen++;
    auto it = file_at(p);
    bool hit = w.mopen == w.fault_at && w.io_fired;
    if (it == w.fs.end() || it->second.k != REG || it->second.text.empty() || (hit && w.io != SHORT_READS)) { failed = true; return nullptr; }
    w.maybe.erase(name);
    w.loaded[name] = it->second.def; w.order.push_back(name);
    return &w.defs[it->second.def];
}
void put_file(const std::string &path, FK k, int def) {
    World &w = *W;
    ::unlink(path.c_str()); ::rmdir(path.c_str());
    File &f = w.fs[path]; f.k = k; f.def = def; f.text.clear();
    if (k == REG) { f.text = source_of(w.defs[def]); FILE *o = __real_fopen(path.c_str(), "wb"); if (!o || fwrite(f.text.data(), 1, f.text.size(), o) != f.text.size() || fclose(o)) broken("cannot write %s", path.c_str()); }
    if (k == DIRECTORY && mkdir(path.c_str(), 0700)) broken("cannot create %s", path.c_str());
    log("file %s: %s", path.c_str() + w.base.size(), k == MISSING ? "gone" : k == DIRECTORY ? "a directory" : quote(f.text, 1500).c_str());
}
struct Rend { Case c; Rec rec; handlebars_vm *vm; hval *input; handlebars_module *m; };
void reset_world() { W = nullptr; }
struct Init { Init() { on_reset(reset_world); } } init_;
}

WORLD(loader) {
    World w; scratch_clean();
    static const char *exts[] = {".hbs", "", ".handlebars", ".a.b"};
    const char *ext = exts[choose(4, "extension")];
    w.ext = ext;
    w.base = scratch_dir() + "/partials"; if (mkdir(w.base.c_str(), 0700)) broken("mkdir");
    w.base_given = w.base + (chance(1, 4, "trailing slash") ? "/" : "");
    if (chance(1, 4, "subdirectory")) { w.base_given = w.base + "/x/../y"; mkdir((w.base + "/x").c_str(), 0700); mkdir((w.base + "/y").c_str(), 0700); }
    W = &w;
    seams.fopen = sim_fopen; seams.fclose = sim_fclose; seams.open = sim_open;
    hctx *ctx = handlebars_context_ctor();
    std::vector<Rend *> rs;
    hval *loader = (hval *)calloc(1, HANDLEBARS_VALUE_SIZE); handlebars_value_init(loader);
    auto fresh_loader = [&] {
        int rc = hb_try(ctx, [&] { handlebars_value_partial_loader_init(ctx, mkstr(ctx, w.base_given), mkstr(ctx, w.ext), loader); });
        SIM_CHECK(!rc, "loader-open", "the partial loader cannot be created: %s", handlebars_error_msg(ctx));
        for (auto r : rs) handlebars_vm_set_partials(r->vm, loader);
        w.loaded.clear(); w.maybe.clear(); w.order.clear(); w.order_known = true;
    };
    int n = 1 + (int)choose(2, "templates"); bool delims = chance(1, 12, "delimiters"), mlam = !delims && chance(1, 8, "mustache");
    for (int i = 0; i < n; i++) {
        Span sp;
        Rend *r = new Rend; GenOpt o; o.broken_partials = o.modes = true; o.npartials = 5; o.size = 5; o.delims = delims; o.mlambdas = mlam;
        r->c = generate(o);
        std::string src = print(*r->c.main);
        if (chance(1, 3, "dynamic name")) {      // names from the data
            static const std::string names[] = {"p0", "p1", std::string("p0\0x", 4), "sub/p0", "nodir/../p1", "missing", std::string("\0", 1), "./p1"};
            if (r->c.root.t() == MAP) { r->c.flags &= ~(unsigned long)handlebars_compiler_flag_known_helpers_only; put(r->c.root, "pn", str(names[choose(8)])); Stmt s; s.k = Stmt::PARTIAL; Expr d; d.k = Expr::PATH; d.data = true; d.parts = {"root", "pn"}; Expr sub; sub.k = Expr::SUB; sub.sub.path = std::make_shared<Expr>(); sub.sub.path->k = Expr::PATH; sub.sub.path->parts = {"h_first"}; sub.sub.params.push_back(d); s.pdyn = std::make_shared<Expr>(sub); r->c.main->body.insert(r->c.main->body.begin() + choose(r->c.main->body.size() + 1), s); src = print(*r->c.main); }
        }
        for (auto &pd : r->c.partials) { w.defs.push_back(pd); }
        r->c.resolve = resolve;
        log("template %d flags=%lx data=%s src=%s", i, r->c.flags, dump(r->c.root).c_str(), quote(src, 3000).c_str());
        r->vm = handlebars_vm_ctor(ctx);
        setup_vm(ctx, r->vm, r->c, &r->rec);
        r->input = (hval *)calloc(1, HANDLEBARS_VALUE_SIZE); handlebars_value_init(r->input);
        int rc = hb_try(ctx, [&] { build_value(ctx, r->input, r->c.root, P_NATIVE, &r->rec); r->m = compile(ctx, src, r->c.flags); });
        SIM_CHECK(rc == 0, "compile-error", "a well-formed template is rejected: %s", handlebars_error_msg(ctx));
        rs.push_back(r);
    }
    if (w.ext.empty()) { w.fs[path_of("")] = {DIRECTORY, -1, ""}; w.fs[path_of(".")] = {DIRECTORY, -1, ""}; }
    fresh_loader();
    std::vector<std::string> names = {"p0", "p1", "p2", "p3", "p4", "missing", "@partial-block"};
    for (size_t i = 0; i < 5; i++) { Span sp; if (!w.defs.empty() && chance(4, 5, "exists")) { std::vector<int> c; for (size_t d = 0; d < w.defs.size(); d++) if (w.defs[d].name == names[i]) c.push_back((int)d); if (!c.empty()) put_file(path_of(names[i]), REG, c[choose(c.size())]); } }
    bool skip = false;
    for (int op = 0; op < 14 && !skip; op++) {
        Span sp;
        if (!chance(12, 13, "more")) break;
        step();
        uint64_t k = choose(8, "op");
        if (k == 5 || k == 6) {       // the files change
            size_t i = choose(names.size(), "file"); std::vector<int> c; for (size_t d = 0; d < w.defs.size(); d++) if (w.defs[d].name == names[i]) c.push_back((int)d);
            uint64_t kind = choose(6, "to");
            if (kind < 4 && !c.empty()) put_file(path_of(names[i]), REG, c[choose(c.size(), "version")]);
            else if (kind == 4) put_file(path_of(names[i]), DIRECTORY, -1);
            else put_file(path_of(names[i]), MISSING, -1);
            continue;
        }
        if (k == 7) { if (chance(1, 2, "new loader")) { log("new loader"); fresh_loader(); stat("fault.restart"); } continue; }
        Rend &r = *rs[choose(rs.size(), "template")];
        w.opens.clear(); w.nopen = 0; w.io_fired = false; w.fault_at = -1;
        r.rec.calls.clear(); r.rec.n = 0; r.rec.fault = -1;
        Fault f; long fail_at = -1, fail_len = 1;
        uint64_t fk = choose(6, "fault");
        if (fk == 1 || fk == 2) { w.fault_at = 1 + (long)choose(4, "failing open"); w.io = (IO)choose(IO_N, "io fault"); w.io_off = choose(200, "after bytes"); static const int es[] = {EIO, EACCES, EMFILE, ENOMEM, EINTR}; w.io_errno = es[choose(5)]; }
        if (fk == 3) { f.call = r.rec.fault = 1 + (long)choose(8, "failing call"); }
        if (fk == 4) { fail_at = 1 + (long)choose(choose(2) ? 60 : 2000, "failing allocation"); fail_len = choose(3) ? 1 : 1000000000; }
        size_t fd0 = fds();
        Result got; hstr *volatile out = nullptr;
        if (fail_at > 0) alloc_arm(fail_at, fail_len);
        got.err = hb_try(ctx, [&] { out = handlebars_vm_execute(r.vm, r.m, r.input); });
        long fired = fail_at > 0 ? alloc.fired : 0; alloc_disarm();
        if (got.err) { const char *m = handlebars_error_msg(ctx); got.msg = m ? m : ""; hb_clear(ctx); } else got.out = S(out);
        got.calls = r.rec.calls;
        log("render %d fault %d: err=%d %s out=%s calls=%zu opens=%zu", (int)(&r != rs[0]), (int)fk, got.err, quote(got.msg).c_str(), quote(got.out).c_str(), got.calls.size(), w.opens.size());
        for (auto &x : w.opens) log("  opened %s", quote(x.substr(w.base.size())).c_str());
        sig(got.err * 31 + w.opens.size() * 7 + fk + (w.io_fired ? 100 : 0) + 1000 * w.loaded.size());
        if (r.rec.fault > 0 && (long)got.calls.size() >= r.rec.fault) nontrivial();
        SIM_CHECK(w.open_files.empty() && fds() == fd0, "descriptor-leak", "a render leaves %zu files open", w.open_files.size());
        auto loaded0 = w.loaded; auto maybe0 = w.maybe; auto order0 = w.order;
        w.pos = 0; w.mopen = 0;
        Result want = evaluate(r.c, r.c.root, f);
        if (want.skipped) { stat("sim.skipped_too_big"); skip = true; break; }
        std::string why;
        if (fired && got.err == HANDLEBARS_NOMEM) {
            nontrivial(); stat("probe.render_out_of_memory");
            for (size_t i = 0; i < got.calls.size(); i++) SIM_CHECK(i < want.calls.size() && got.calls[i] == want.calls[i], "loader-render", "call %zu before the allocation failed was %s", i, got.calls[i].c_str());
            for (size_t i = 0; i < w.opens.size(); i++) { bool known = false; for (auto &x : w.loaded) if (path_of(x.first) == w.opens[i]) known = true; for (auto &x : maybe0) if (path_of(x.first) == w.opens[i]) known = true; auto it = file_at(w.opens[i]); if (!known) SIM_CHECK(it == w.fs.end() || it->second.k != REG || it->second.text.empty(), "loader-open", "%s was opened although the template does not name it", w.opens[i].c_str()); }
            // each file that was opened may or may not have been remembered
            auto now_ = w.loaded; auto mb = w.maybe;
            w.loaded = loaded0; w.order = order0; w.maybe = maybe0;
            for (auto &x : now_) if (!loaded0.count(x.first)) { bool opened = false; for (auto &p : w.opens) if (p == path_of(x.first)) opened = true; if (opened) { w.maybe[x.first] = x.second; w.order_known = false; } }
            continue;
        }
        SIM_CHECK(compare(want, got, why), "loader-render", "%s", why.c_str());
        if (want.err) stat("probe.render_failed"); else stat("probe.render_completed");
        std::vector<std::string> wo;
        if (!got.err) for (auto &x : w.opens) { int cnt = 0; for (auto &y : w.opens) cnt += x == y; SIM_CHECK(cnt == 1, "loader-open", "%s was opened %d times in one render", x.c_str(), cnt); }
        SIM_CHECK(w.pos == w.opens.size(), "loader-open", "%zu files were opened, expected %zu", w.opens.size(), w.pos);
        if (w.order_known && w.maybe.empty()) {
            size_t i = 0;
            SIM_CHECK((size_t)handlebars_value_count(loader) == w.order.size(), "loader-content", "the loader counts %ld partials, %zu were loaded", (long)handlebars_value_count(loader), w.order.size());
            HANDLEBARS_VALUE_FOREACH_KV(loader, key, child) {
                SIM_CHECK(i < w.order.size() && S(key) == w.order[i], "loader-content", "entry %zu of the loader is %s", i, quote(S(key)).c_str());
                std::string text = handlebars_value_get_strval(child);
                SIM_CHECK(text == source_of(w.defs[w.loaded[w.order[i]]]), "loader-content", "the loader holds %s under %s", quote(text).c_str(), quote(S(key)).c_str());
                i++;
            } HANDLEBARS_VALUE_FOREACH_END();
            SIM_CHECK(i == w.order.size(), "loader-content", "the loader shows %zu of %zu partials", i, w.order.size());
        }
        if (!w.opens.empty()) stat("probe.partials_loaded", w.opens.size());
    }
    handlebars_value_dtor(loader); free(loader);
    for (auto r : rs) { handlebars_value_dtor(r->input); handlebars_vm_dtor(r->vm); free(r->input); delete r; }
    handlebars_context_dtor(ctx);
    scratch_clean();
    W = nullptr;
}
