#include <climits>
#include "tpl.h"
#include <algorithm>
#include <set>
using namespace sim;
namespace tpl {

static long next_id = 1;
static void reset_ids() { next_id = 1; }
static struct Init { Init() { on_reset(reset_ids); } } init_;

static X mk(T t) { X x; x.v = std::make_shared<V>(); x.v->t = t; return x; }
X null() { return mk(NUL); }
X boolean(bool b) { return mk(b ? TRUE_ : FALSE_); }
X integer(long i) { X x = mk(INT); x.v->i = i; return x; }
X flt(double d) { X x = mk(FLT); x.v->d = d; return x; }
X str(const std::string &s, bool safe) { X x = mk(STR); x.v->s = s; x.safe = safe; return x; }
X fn(int id) { X x = mk(FN); x.v->i = id; return x; }
X arr() { X x = mk(ARR); x.id = next_id++; return x; }
X map() { X x = mk(MAP); x.id = next_id++; return x; }
static bool container(const X &x) { return x.t() == ARR || x.t() == MAP; }
X *find(const X &m, const std::string &k) {
    if (m.t() != MAP) return nullptr;
    for (auto &p : m.v->m) if (p.first == k) return &p.second;
    return nullptr;
}
void put(X &m, const std::string &k, X v) { X *o = find(m, k); if (o) *o = v; else m.v->m.push_back({k, v}); }

static std::string fmt(const char *f, ...) { char b[128]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }

std::string dump(const X &x) {
    switch (x.t()) {
    case NUL: return "null"; case TRUE_: return "true"; case FALSE_: return "false";
    case INT: return fmt("%ld", x.v->i); case FLT: return fmt("%g", x.v->d);
    case STR: return quote(x.v->s, 100000);
    case FN: return x.v->pb || x.v->cl ? "cl" : "fn";
    case ARR: { std::string r = "["; for (size_t i = 0; i < x.v->a.size(); i++) r += (i ? "," : "") + dump(x.v->a[i]); return r + "]"; }
    case MAP: { std::string r = "{"; size_t i = 0; for (auto &p : x.v->m) r += (i++ ? "," : "") + quote(p.first) + ":" + dump(p.second); return r + "}"; }
    }
    return "?";
}
static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c < 32) r += fmt("\\u%04x", c); else r += c; }
    return r + "\"";
}
std::string to_json(const X &x) {
    switch (x.t()) {
    case NUL: return "null"; case TRUE_: return "true"; case FALSE_: return "false";
    case INT: return fmt("%ld", x.v->i); case FLT: return fmt("%.17g", x.v->d); case STR: return jstr(x.v->s);
    case ARR: { std::string r = "["; for (size_t i = 0; i < x.v->a.size(); i++) r += (i ? "," : "") + to_json(x.v->a[i]); return r + "]"; }
    case MAP: { std::string r = "{"; size_t i = 0; for (auto &p : x.v->m) r += (i++ ? "," : "") + jstr(p.first) + ":" + to_json(p.second); return r + "}"; }
    default: return "null";
    }
}

// The same data as YAML, in one of the many ways to write it: flow or block collections, plain, quoted and literal
// scalars, anchors and aliases, comments and document markers.
namespace {
struct Yaml {
    std::vector<std::pair<std::string, std::string>> anchors;    // data -> anchor
    int n = 0; bool aliases = false, comments = false;
    static bool plain_ok(const std::string &s) {
        if (s.empty() || s == "true" || s == "false" || s == "null" || !(s[0] >= 'a' && s[0] <= 'z') || s.back() == ' ') return false;
        for (unsigned char c : s) if (!(isalnum(c) || c == '_' || c == ' ' || c >= 0x80)) return false;
        return true;
    }
    std::string quoted(const std::string &s, bool flow, bool key) {
        bool ctl = false; for (unsigned char c : s) if (c < 32) ctl = true;
        switch (choose(key ? 3 : 4, "yaml scalar style")) {
        case 1: if (plain_ok(s)) return s; break;
        case 2: if (!ctl) { std::string r = "'"; for (char c : s) { r += c; if (c == '\'') r += c; } return r + "'"; } break;
        case 3: if (!flow && !s.empty() && s.find('\0') == std::string::npos && s[0] != ' ' && s.back() != '\n') return std::string(1, '|') + s; break;     // literal block, see block()
        default: break;
        }
        return jstr(s);
    }
    std::string scalar(const X &x, bool flow) {
        if (x.t() == STR) return quoted(x.v->s, flow, false);
        if (x.t() == NUL) { static const char *w[] = {"null", "~", ""}; return w[choose(flow ? 2 : 3, "yaml null")]; }
        return to_json(x);
    }
    // "" or an anchor to put before the node; true in *done when the node was written as an alias
    std::string anchor(const X &x, bool *done) {
        *done = false;
        if (!aliases || x.t() == NUL) return "";
        std::string d = (x.t() == STR ? "s" : "n") + dump(x);
        for (auto &a : anchors) if (a.first == d && chance(3, 4, "alias")) { *done = true; stat("sim.yaml_aliases"); return "*" + a.second; }
        if (!chance(1, 2, "anchor")) return "";
        std::string name = fmt("n%d", n++);
        anchors.push_back({d, name});
        return "&" + name + " ";
    }
    std::string flow(const X &x) {
        bool done; std::string a = anchor(x, &done); if (done) return a + " ";
        if (x.t() == ARR) { std::string r = a + "["; for (size_t i = 0; i < x.v->a.size(); i++) r += (i ? ", " : "") + flow(x.v->a[i]); return r + "]"; }
        if (x.t() == MAP) { std::string r = a + "{"; size_t i = 0; for (auto &p : x.v->m) { r += (i++ ? ", " : "") + quoted(p.first, true, true) + ": "; r += flow(p.second); } return r + "}"; }
        return a + scalar(x, true);
    }
    // the text of a node after "key:" or "-", ending in a newline
    std::string block(const X &x, int ind) {
        std::string pad(ind, ' '), c = comments && chance(1, 4, "comment") ? " # {x: [y\n" : "\n";
        bool empty = (x.t() == ARR && x.v->a.empty()) || (x.t() == MAP && x.v->m.empty());
        if ((x.t() == ARR || x.t() == MAP) && (empty || chance(1, 3, "flow"))) return " " + flow(x) + c;
        bool done; std::string a = anchor(x, &done); if (done) return " " + a + c;
        if (!a.empty()) a = " " + a.substr(0, a.size() - 1);
        if (x.t() == ARR) { std::string r = a + c; for (auto &e : x.v->a) { r += pad + "-"; r += block(e, ind + 2); } return r; }
        if (x.t() == MAP) { std::string r = a + c; for (auto &p : x.v->m) { r += pad + quoted(p.first, true, true) + ":"; r += block(p.second, ind + 1 + (int)choose(3, "indent")); } return r; }
        std::string s = scalar(x, false);
        if (x.t() == STR && !s.empty() && s[0] == '|') {
            std::string r = a + " |-\n" + pad;
            for (size_t i = 1; i < s.size(); i++) { r += s[i]; if (s[i] == '\n') r += pad; }
            return r + "\n";
        }
        return a + (s.empty() ? "" : " ") + s + c;
    }
};
}
std::string to_yaml(const X &x) {
    if (!chance(3, 4, "yaml style")) return to_json(x) + "\n";      // JSON is YAML
    Yaml y; y.aliases = chance(1, 2, "aliases"); y.comments = chance(1, 2, "comments");
    std::string head = y.comments ? "# a comment\n" : "";
    if (chance(1, 2, "document marker")) head += "---\n"; 
    std::string r = chance(1, 3, "flow root") ? y.flow(x) + "\n" : "";
    if (r.empty()) {
        r = y.block(x, 0);
        if (r[0] == ' ') r = r.substr(1);
        if (r[0] == '\n') r = r.substr(1);
    }
    return head + r + (chance(1, 4, "document end") ? "...\n" : "");
}

bool eq(const X &a, const X &b) {
    if (a.t() != b.t()) return false;
    switch (a.t()) {
    case NUL: case TRUE_: case FALSE_: return true;
    case FN: if (a.v->pb || b.v->pb) return a.v->pb == b.v->pb; if (a.v->lazy || b.v->lazy) return a.id == b.id; if (a.v->cl || b.v->cl) return a.v == b.v; return a.v->i == b.v->i;
    case INT: return a.v->i == b.v->i;
    case FLT: return a.v->d == b.v->d;
    case STR: return a.v->s == b.v->s;
    default: return a.id == b.id;
    }
}
bool is_empty(const X &x) {
    switch (x.t()) {
    case NUL: case FALSE_: case FN: return true;
    case TRUE_: return false;
    case INT: return x.v->i == 0;
    case FLT: return x.v->d == 0;
    case STR: return x.v->s.empty() || x.v->s == "0";
    case ARR: return x.v->a.empty();
    case MAP: return x.v->m.empty();
    }
    return true;
}

// ------------------------------------------------------------------------------------------ printing
static std::string part_text(const std::string &p) {
    bool ok = !p.empty();
    for (unsigned char c : p) if (!isalnum(c) && c != '_') ok = false;
    if (ok && isdigit((unsigned char)p[0])) ok = false;
    static const char *reserved[] = {"this", "true", "false", "null", "undefined", "else", "as"};
    for (auto r : reserved) if (p == r) ok = false;
    return ok ? p : "[" + p + "]";
}
std::string expr_text(const Expr &e);
// while a template is printed to find out where its parts stand, a mark is put before each of them
static std::vector<std::pair<int *, int *>> *marks;
static std::string mark(int &line, int &col) { if (!marks) return ""; marks->push_back({&line, &col}); return "\x01\x02" + std::to_string(marks->size() - 1) + "\x02\x01"; }
static std::string path_text(const Expr &e, bool strip = false) {
    std::string r = strip ? "" : mark(e.line, e.col);
    if (e.lname) { std::string q = strip || e.lname == 3 ? "" : e.lname == 1 ? "\"" : "'"; return r + q + e.parts[0] + q; }
    if (e.data) r += "@";
    for (int i = 0; i < e.depth; i++) r += (i + 1 == e.depth && e.parts.empty()) ? ".." : "../";
    const char *sep = e.style & 1 ? "/" : ".";
    if (e.parts.empty()) { if (!e.depth) r += e.style & 2 ? "." : "this"; return r; }
    if (e.scoped) r += e.style & 2 ? "./" : (e.style & 1 ? "this/" : "this.");
    for (size_t i = 0; i < e.parts.size(); i++) {
        bool idx = i > 0 && !e.parts[i].empty() && std::all_of(e.parts[i].begin(), e.parts[i].end(), ::isdigit);
        r += (i ? sep : "") + (strip ? e.parts[i] : part_text(e.parts[i]));
    }
    return r;
}
static std::string close_text(const Expr &e) { auto *m = marks; marks = nullptr; std::string r = path_text(e); marks = m; return r; }
static std::string args_text(const Call &c) {
    std::string r;
    for (auto &p : c.params) r += " " + expr_text(p);
    for (auto &h : c.hash) r += " " + h.first + "=" + expr_text(h.second);
    return r;
}
std::string expr_text(const Expr &e) {
    if (e.k == Expr::PATH) return path_text(e);
    if (e.k == Expr::SUB) return "(" + path_text(*e.sub.path) + args_text(e.sub) + ")";
    switch (e.lit.t()) {
    case NUL: return e.quote ? "undefined" : "null";
    case TRUE_: return "true"; case FALSE_: return "false";
    case INT: return e.spell.empty() ? fmt("%ld", e.lit.v->i) : e.spell;
    default: { if (!e.spell.empty()) return e.spell; char q = e.quote ? '\'' : '"'; return std::string(1, q) + e.lit.v->s + q; }
    }
}
static std::string names_text(const Program *p) {
    if (!p || p->names.empty()) return "";
    std::string r = " as |";
    for (size_t i = 0; i < p->names.size(); i++) r += (i ? " " : "") + p->names[i];
    return r + "|";
}
// delimiters are changed by a tag for all that follows it in the text
namespace { struct Printer {
    std::string r, o = "{{", c = "}}"; bool canon = false;      // canon: as the library writes the text of a section
    void open(int strip, const char *what = "") { r += o; if (strip & 1) r += "~"; r += what; }
    void close(int strip) { if (strip & 2) r += "~"; r += c; }
    void tag(int strip, const char *what, const std::string &in) { open(strip, what); r += in; close(strip); }
    void inv(const Stmt &s) {
        if (!s.inv) return;
        if (s.chain) { chain(s.inv->body[0]); return; }
        tag(s.is, s.caret || canon ? "^" : "else", ""); program(*s.inv);
    }
    void chain(const Stmt &b) {
        tag(b.os, "else ", path_text(*b.call.path) + args_text(b.call) + names_text(b.prog.get())); program(*b.prog);
        inv(b);
    }
    void program(const Program &p) {
        for (auto &s : p.body) { if (s.k != Stmt::CONTENT) r += mark(s.line, s.col); switch (s.k) {
        case Stmt::RAWTAG: r += s.text; break;
        case Stmt::CONTENT: r += s.src.empty() || o != "{{" ? s.text : s.src; break;
        case Stmt::COMMENT: tag(s.os, "!", s.text); break;
        case Stmt::DELIM: r += o + "=" + std::string(s.esc & 1, ' ') + s.text + std::string(1 + (s.esc >> 2 & 1), ' ') + s.pname + std::string(s.esc >> 1 & 1, ' ') + "=" + c; o = s.text; c = s.pname; break;
        case Stmt::MUSTACHE: {
            std::string in = path_text(*s.call.path) + args_text(s.call);
            tag(s.os, s.esc == 1 ? "{" : s.esc == 2 ? "&" : "", in + (s.esc == 1 ? "}" : "")); break; }
        case Stmt::BLOCK:
            if (s.raw) { r += "{{{{" + path_text(*s.call.path) + args_text(s.call) + "}}}}"; program(*s.prog); r += "{{{{/" + close_text(*s.call.path) + "}}}}"; break; }
            if (s.inverted) { tag(s.os, "^", path_text(*s.call.path) + args_text(s.call)); program(*s.inv); }
            else { tag(s.os, "#", path_text(*s.call.path) + args_text(s.call) + names_text(s.prog.get())); program(*s.prog); inv(s); }
            tag(s.cs, "/", close_text(*s.call.path)); break;
        case Stmt::PARTIAL: tag(s.os, canon ? ">" : "> ", (s.pdyn ? expr_text(*s.pdyn) : s.pname) + args_text(s.call)); break;
        case Stmt::PBLOCK: tag(s.os, "#> ", s.pname + args_text(s.call)); program(*s.prog); tag(s.cs, "/", s.pname); break;
        } }
    }
}; }
std::string print(const Program &p) { Printer pr; pr.program(p); return pr.r; }
void locate(const Program &p) {
    std::vector<std::pair<int *, int *>> m; marks = &m; std::string t = print(p); marks = nullptr;
    int line = 1, col = 0;
    for (size_t i = 0; i < t.size(); i++) {
        if (t[i] == 1 && t[i + 1] == 2) { size_t e = t.find("\x02\x01", i + 2); auto &k = m[std::stoul(t.substr(i + 2, e - i - 2))]; *k.first = line; *k.second = col; i = e + 1; }
        else if (t[i] == '\n') { line++; col = 0; } else col++;
    }
}
// the text of a section, as a mustache-style lambda gets it
static std::string section_text(const Program &p) { Printer pr; pr.canon = true; pr.program(p); return pr.r; }

// ------------------------------------------------------------------------------------------ whitespace control
// ~ and standalone lines, after the rules of handlebars.js: what each content statement prints, and the indentation of
// partials standing alone on a line
namespace {
bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v'; }
struct Whitespace {
    bool ignore;
    struct Strip { bool has = false, open = false, close = false, open_alone = false, close_alone = false, inline_alone = false; };
    typedef const std::vector<Stmt> Body;
    static bool prev_ws(Body &b, long i, bool root) {       // is what stands before i the start of a line?
        if (i < 0) i = (long)b.size();
        if (i == 0) return root;
        const Stmt &p = b[i - 1]; if (p.k != Stmt::CONTENT) return false;
        for (size_t k = p.text.size(); k--;) { if (p.text[k] == '\n') return true; if (!ws(p.text[k])) return false; }
        return i == 1 && root;
    }
    static bool next_ws(Body &b, long i, bool root) {       // does the line end after i?
        if (i + 1 >= (long)b.size()) return root;
        const Stmt &n = b[i + 1]; if (n.k != Stmt::CONTENT) return false;
        for (char c : n.text) { if (c == '\n') return true; if (!ws(c)) return false; }
        return i + 2 >= (long)b.size() && root;
    }
    static void omit_right(Body &b, long i, bool all) {
        if (i + 1 >= (long)b.size()) return;
        const Stmt &n = b[i + 1]; if (n.k != Stmt::CONTENT || (!all && n.rstripped)) return;
        size_t k = 0, len = n.value.size();
        if (all) while (k < len && ws(n.value[k])) k++;
        else { while (k < len && (n.value[k] == ' ' || n.value[k] == '\t')) k++; if (k < len && n.value[k] == '\r') k++; if (k < len && n.value[k] == '\n') k++; }
        n.value.erase(0, k); n.rstripped = k;
    }
    static bool omit_left(Body &b, long i, bool all) {
        if (i < 0) i = (long)b.size();
        if (i == 0) return false;
        const Stmt &p = b[i - 1]; if (p.k != Stmt::CONTENT || (!all && p.lstripped)) return false;
        size_t len = p.value.size(), k = len;
        while (k && (all ? ws(p.value[k - 1]) : p.value[k - 1] == ' ' || p.value[k - 1] == '\t')) k--;
        p.value.resize(k); p.lstripped = k != len;
        return p.lstripped;
    }
    Strip accept(const Stmt &s) {
        Strip r; r.has = true; r.open = s.os & 1; r.close = s.os & 2;
        switch (s.k) {
        case Stmt::CONTENT: r.has = false; break;
        case Stmt::MUSTACHE: break;
        case Stmt::PARTIAL: case Stmt::COMMENT: case Stmt::DELIM: r.inline_alone = true; break;
        case Stmt::BLOCK: case Stmt::PBLOCK: {
            if (s.prog && !s.inverted) program(*s.prog, false);
            if (s.inv) program(*s.inv, false);
            const Program *p = s.inverted ? s.inv.get() : s.prog.get(), *inv = s.inverted ? nullptr : s.inv.get(), *first = inv;
            if (s.chain) first = inv->body[0].prog.get();
            r.close = s.cs & 2;
            r.open_alone = next_ws(p->body, -1, false); r.close_alone = prev_ws((first ? first : p)->body, -1, false);
            if (s.os & 2) omit_right(p->body, -1, true);
            if (inv) {
                if (s.is & 1) omit_left(p->body, -1, true);
                if (s.is & 2) omit_right(inv->body, -1, true);
                if (s.cs & 1) omit_left(inv->body, -1, true);
                if (!ignore && prev_ws(p->body, -1, false) && next_ws(first->body, -1, false)) { omit_left(p->body, -1, false); omit_right(first->body, -1, false); }
            } else if (s.cs & 1) omit_left(p->body, -1, true);
            break; }
        }
        return r;
    }
    void program(const Program &p, bool root) {
        Body &b = p.body;
        for (auto &s : b) { s.value = s.text; s.indent.clear(); s.lstripped = s.rstripped = false; }
        for (long i = 0; i < (long)b.size(); i++) {
            Strip st = accept(b[i]); if (!st.has) continue;
            bool pw = prev_ws(b, i, root), nw = next_ws(b, i, root);
            const Stmt &s = b[i];
            const Program *in = s.prog ? s.prog.get() : s.inv.get(), *out = s.inv ? s.inv.get() : s.prog.get();
            if (st.close) omit_right(b, i, true);
            if (st.open) omit_left(b, i, true);
            if (ignore) continue;
            if (st.inline_alone && pw && nw) {
                omit_right(b, i, false);
                if (omit_left(b, i, false) && s.k == Stmt::PARTIAL) { const std::string &t = b[i - 1].text; size_t k = t.size(); while (k && (t[k - 1] == ' ' || t[k - 1] == '\t')) k--; s.indent = t.substr(k); }
            }
            if (st.open_alone && pw) { omit_right(in->body, -1, false); omit_left(b, i, false); }
            if (st.close_alone && nw) { omit_right(b, i, false); omit_left(out->body, -1, false); }
        }
    }
};
void merge(Program &p) {
    std::vector<Stmt> b;
    for (auto &s : p.body) {
        if (s.prog) merge(*s.prog);
        if (s.inv) merge(*s.inv);
        if (s.k == Stmt::CONTENT && !b.empty() && b.back().k == Stmt::CONTENT) {
            Stmt &l = b.back();
            if (!l.src.empty() || !s.src.empty()) l.src = (l.src.empty() ? l.text : l.src) + (s.src.empty() ? s.text : s.src);
            l.text += s.text;
        } else b.push_back(s);
    }
    p.body = b;
}
}
static void whitespace(const Program &p, unsigned long flags) { merge(const_cast<Program &>(p)); Whitespace w{(flags & handlebars_compiler_flag_ignore_standalone) != 0}; w.program(p, true); }
static PP copied(const Program &p) { PP r = std::make_shared<Program>(p); for (auto &s : r->body) { if (s.prog) s.prog = copied(*s.prog); if (s.inv) s.inv = copied(*s.inv); } return r; }
// names that have to be written in brackets or quotes lose them in the text of a section
static bool lossy(const Expr &e);
static bool lossy(const Call &c) {
    if (c.path && lossy(*c.path)) return true;
    for (auto &a : c.params) if (lossy(a)) return true;
    for (auto &h : c.hash) if (lossy(h.second)) return true;
    return false;
}
static bool lossy(const Expr &e) { if (e.k == Expr::SUB) return lossy(e.sub); if (e.k == Expr::PATH) { if (e.lname) return true; for (auto &p : e.parts) if (part_text(p) != p) return true; } return false; }
static bool lossy(const Program &p) { for (auto &s : p.body) if (lossy(s.call) || (s.pdyn && lossy(*s.pdyn)) || (s.prog && lossy(*s.prog)) || (s.inv && lossy(*s.inv))) return true; return false; }
// {{>p}} and {{>p .}} are the same
static std::string implied_context(std::string t) {
    for (size_t i = 0; (i = t.find("{{", i)) != std::string::npos; i += 2) {
        size_t k = i + 2; if (t[k] == '~') k++;
        if (t[k] != '>') continue;
        size_t e = t.find("}}", k); if (e == std::string::npos) break;
        if (t[e - 1] == '~') e--;
        if (t[e - 1] == '.' && t[e - 2] == ' ') t.erase(e - 2, 2);
    }
    return t;
}
static void shift(Expr &e, int by);
static void shift(Call &c, int by) { if (c.path) { c.path = std::make_shared<Expr>(*c.path); shift(*c.path, by); } for (auto &a : c.params) shift(a, by); for (auto &h : c.hash) shift(h.second, by); }
static void shift(Expr &e, int by) { e.col += by; if (e.k == Expr::SUB) shift(e.sub, by); }
// the program of a template every line of which is indented
static PP indented(const Program &p, const std::string &in, bool top) {
    PP r = std::make_shared<Program>(p);
    for (auto &s : r->body) {
        if (s.prog) s.prog = indented(*s.prog, in, false);
        if (s.inv) s.inv = indented(*s.inv, in, false);
        s.col += (int)in.size(); shift(s.call, (int)in.size()); if (s.pdyn) { s.pdyn = std::make_shared<Expr>(*s.pdyn); shift(*s.pdyn, (int)in.size()); }
        if (s.k != Stmt::CONTENT) continue;
        std::string t; for (char c : s.text) { t += c; if (c == '\n') t += in; }
        if (top && &s == &r->body.back() && !s.text.empty() && s.text.back() == '\n') t.resize(t.size() - in.size());
        s.text = t;
    }
    if (top) { Stmt c; c.k = Stmt::CONTENT; c.text = in; r->body.insert(r->body.begin(), c); }
    return r;
}
static std::string indent_text(const std::string &s, const std::string &in) {
    if (s.empty() || in.empty()) return s;
    std::string r = in; for (size_t i = 0; i < s.size(); i++) { r += s[i]; if (s[i] == '\n' && i + 1 < s.size()) r += in; }
    return r;
}
std::string source_of(const PartialDef &p) { return p.has_value ? "" : p.raw ? p.text : print(*p.prog); }

// ------------------------------------------------------------------------------------------ generation
static const char *KEYS[] = {"a", "b", "foo", "bar", "items", "name", "qahvjo", "wjyhay", "x", "foo bar", "title", "obj"};
static const int NKEYS = 12;
static const char *DATA_NAMES[] = {"index", "key", "first", "last", "root", "dv", "nope"};
static const char *BREAKS[] = {"\n", "\n", "\n  ", " \n", "\r\n", "\n\n", "x\n", "\n\t"};
static const char *OVERRIDES[] = {"each", "if", "unless", "with", "lookup", "log"};
static const char *STRS[] = {"s", "abc", "<b>&\"'`=", "two words", "", "0", "true", "1", "line\nbreak", "a<", "\xc3\xa9", "x&amp;y", "null", "undefined", "qahvjo", "foo", "inf", "~", "- a: b # c", "1e3"};
static const char *COMMENTS[] = {" note ", "-- a {{b}} c --", "", "-", "--", "---", "-- a -- b --", "--- x ---", "-----", "-- --~ --} }} --", " a } b", " x--", "!", "-- {{!-- a -- b- --", "a\nb", "--\n\n--", "-- {{/if}} {{else}} --", "-- q ~ -~}} --"};
static const char *CONTENTS[] = {"x", "yy", "[", "]", "<i>", "a b", "p\nq", "-&-", ";", "\xe2\x82\xac", "\xff", "\n\xe9t\xe9 ", "\xf0\x9f\x98\x80 ", "\n\xe2\x82 ", " }", "u\r\nv", "0", "longer piece of content with spaces"};
static const char *LINES[] = {"\n", "x\n", "\n  ", "\ny", "  ", "\n\n", " z\n\t", "\r\n", " \n", "q", "\n\n  r\n", "\ns "};
static const char *BPN[] = {"x", "v", "k", "a", "foo"};
static const char *HNAMES[] = {"h_echo", "h_null", "h_safe", "h_first", "h_block", "h_eacharg", "h_data", "h_ctx", "h_twice", "h_hash", "h_arr"};

static X gen_value(const GenOpt &o, int depth) {
    switch (choose(depth > 0 ? 13 : 8, "value")) {
    default: if (o.tricky_strings && chance(1, 40, "NUL")) return str(std::string("0\0x", 3)); return str(STRS[o.tricky_strings ? choose(sizeof STRS / sizeof *STRS, "str") : choose(4, "str")]);
    case 1: return integer((long)choose(5, "int") - 1);
    case 2: return boolean(chance(1, 2, "bool"));
    case 3: if (o.nulls) return null(); return integer(7);
    case 4: if (o.modes && chance(1, 10, "odd float")) { static const double d[] = {1e20, 2.5e-05, 1234567.5, -1e-300, 65536.125}; return flt(d[choose(5)]); } return flt(0.25 + (double)choose(40, "flt") / 2 - 3);
    case 5: if (o.mlambdas && chance(2, 3, "lambda?")) return fn(L_TEXT + (int)choose(L_END - L_TEXT, "lambda")); if (o.lambdas && chance(1, 2, "fn?")) { static const int ids[] = {H_ECHO, H_NULL, H_SAFE, H_CTX, H_FIRST, H_ARR}; X f = fn(ids[choose(6, "fn")]); f.v->cl = o.closures && chance(1, 3, "closure"); return f; } return str("w");
    case 6: if (o.modes && chance(1, 6, "large")) { static const long l[] = {2147483647, 2147483648, -2147483649, 1l << 40, LONG_MAX, LONG_MIN, 4294967296, -4294967297}; return integer(l[choose(8)]); } return integer(1234567 * (long)choose(4, "big") - 3);
    case 8: case 9: case 10: return gen_data(o, depth - 1);
    case 11: case 12: {
        X a = arr(); size_t n = choose(4, "len") + (o.empties ? 0 : 1); bool uniform = chance(1, 2, "uniform");
        for (size_t i = 0; i < n; i++) { Span sp; a.v->a.push_back(uniform ? gen_data(o, depth - 1) : gen_value(o, depth - 1)); }
        return a; }
    }
}
X gen_data(const GenOpt &o, int depth) {
    X m = map(); size_t n = choose(5, "keys") + (o.empties ? 0 : 1);
    for (size_t i = 0; i < n; i++) { Span sp; std::string k = KEYS[choose(NKEYS, "key")]; if (o.modes && chance(1, 24, "odd key")) { static const char *w[] = {"true", "12", "null", "0"}; k = w[choose(4)]; } put(m, k, gen_value(o, depth)); }
    return m;
}

static bool builtin(const std::string &n) { static const char *b[] = {"blockHelperMissing", "helperMissing", "each", "if", "unless", "with", "log", "lookup", "hbsc_set_delimiters"}; for (auto x : b) if (n == x) return true; return false; }
// the first call of a helper that is not built in, in the order of compilation
static const Expr *unknown_helper(const Program &p);
static const Expr *unknown_helper(const Call &c, bool call);
static const Expr *unknown_helper(const Expr &e) { return e.k == Expr::SUB ? unknown_helper(e.sub, true) : nullptr; }
static const Expr *unknown_helper(const Call &c, bool call) {
    for (auto &a : c.params) if (auto e = unknown_helper(a)) return e;
    for (auto &h : c.hash) if (auto e = unknown_helper(h.second)) return e;
    if (call && c.path && !c.known && !(c.path->parts.size() && builtin(c.path->parts[0]))) return c.path.get();
    return nullptr;
}
static const Expr *unknown_helper(const Program &p) {
    for (auto &s : p.body) {
        if (s.prog) if (auto e = unknown_helper(*s.prog)) return e;
        if (s.inv) if (auto e = unknown_helper(*s.inv)) return e;
        if (s.pdyn) if (auto e = unknown_helper(*s.pdyn)) return e;
        if (auto e = unknown_helper(s.call, (s.k == Stmt::MUSTACHE || s.k == Stmt::BLOCK) && (!s.call.params.empty() || !s.call.hash.empty()))) return e;
    }
    return nullptr;
}

// calls of helpers the compiler is told to expect
static void mark_known(Program &p, const std::vector<std::string> &names);
static void mark_known(Call &c, const std::vector<std::string> &names) {
    if (c.path) c.known = !c.path->parts.empty() && std::count(names.begin(), names.end(), c.path->parts[0]);
    for (auto &a : c.params) if (a.k == Expr::SUB) mark_known(a.sub, names);
    for (auto &h : c.hash) if (h.second.k == Expr::SUB) mark_known(h.second.sub, names);
}
static void mark_known(Program &p, const std::vector<std::string> &names) {
    for (auto &s : p.body) {
        mark_known(s.call, names);
        if (s.pdyn && s.pdyn->k == Expr::SUB) { s.pdyn = std::make_shared<Expr>(*s.pdyn); mark_known(s.pdyn->sub, names); }
        if (s.prog) mark_known(*s.prog, names);
        if (s.inv) mark_known(*s.inv, names);
    }
}

struct Gen {
    const GenOpt &o; Case &c; int budget; int pidx = -1; bool in_partial = false, layout = false; size_t base = 1;
    std::vector<X> ctx;                         // guess of the context stack
    std::vector<std::vector<std::string>> bps;
    std::vector<X> bpv;                         // guess of what the first block parameter of each is

    Expr path_guess(bool allow_this = true) {
        Expr e; e.k = Expr::PATH; e.style = (int)choose(8, "style");
        uint64_t r = choose(24, "path");
        if (r >= 22 && !bps.empty()) {                      // block param
            std::vector<size_t> lv; for (size_t i = bps.size(); i-- > 0;) if (!bps[i].empty()) lv.push_back(i);
            if (!lv.empty()) {
                size_t i = lv[chance(2, 3, "innermost") ? 0 : choose(lv.size(), "level")], k = choose(bps[i].size(), "param");
                e.parts.push_back(bps[i][k]);
                if (chance(1, 2, "bp part")) { if (k == 0 && (bpv[i].t() == MAP || bpv[i].t() == ARR)) walk(e, bpv[i], 1 + (int)choose(3, "len")); else e.parts.push_back(KEYS[choose(NKEYS)]); if (chance(1, 6, "further")) e.parts.push_back(KEYS[choose(NKEYS)]); }
                return e;
            }
        }
        if (r == 21 || r == 20) {
            e.data = true; e.parts.push_back(DATA_NAMES[choose(7, "data")]);
            if (o.modes && in_partial && chance(1, 3, "@partial-block as a value")) e.parts[0] = "partial-block";
            if (e.parts[0] == "root") { X m = ctx[0]; walk(e, m, 2); }
            else if (chance(1, 4, "@..")) e.depth = 1 + (int)choose(2);
            return e;
        }
        if (r == 19 && allow_this) return e;                 // this
        if (r == 18 || r == 17 || r == 16) e.depth = 1 + (int)choose(2, "up");
        else if (r == 15) e.scoped = true;
        X at = (size_t)e.depth < ctx.size() ? ctx[ctx.size() - 1 - e.depth] : null();
        if (e.depth && chance(1, 6, "..")) return e;
        walk(e, at, 1 + (int)choose(3, "len"));
        if (e.parts.empty()) e.parts.push_back(KEYS[choose(NKEYS, "key")]);
        return e;
    }
    void walk(Expr &e, X at, int n) {
        for (int i = 0; i < n; i++) {
            if (at.t() == MAP && !at.v->m.empty() && chance(4, 5, "hit")) { auto &p = at.v->m[choose(at.v->m.size(), "which")]; e.parts.push_back(p.first); at = p.second; }
            else if (at.t() == ARR && !e.parts.empty() && o.modes && chance(1, 10, "no index")) { static const char *w[] = {"0x", "", " 1", "00", "1 ", "-0", "+1", "1.0", "01", "-1", "99999999999999999999"}; e.parts.push_back(w[choose(11)]); at = null(); }
            else if (at.t() == ARR && !e.parts.empty()) { size_t k = choose(at.v->a.size() + 1, "idx"); e.parts.push_back(std::to_string(k)); at = k < at.v->a.size() ? at.v->a[k] : null(); }
            else if (e.parts.empty()) { e.parts.push_back(KEYS[choose(NKEYS, "key")]); at = null(); }
            else if (chance(1, 4, "further")) { e.parts.push_back(KEYS[choose(NKEYS, "key")]); at = null(); }
            else break;
        }
    }
    X guess(const Expr &e) {
        if (e.k == Expr::LIT) return e.lit;
        if (e.k != Expr::PATH || e.data) return null();
        X at = (size_t)e.depth < ctx.size() ? ctx[ctx.size() - 1 - e.depth] : null();
        for (auto &p : e.parts) { if (X *f = find(at, p)) at = *f; else if (at.t() == ARR) { size_t k = strtoul(p.c_str(), 0, 10); at = k < at.v->a.size() ? at.v->a[k] : null(); } else return null(); }
        return at;
    }
    Expr literal() {
        Expr e; e.k = Expr::LIT; e.quote = (int)choose(2, "quote");
        switch (choose(6, "lit")) {
        default: { static const char *ls[] = {"lit", "<x>", "", "a b", "foo", "undefined", "null", "0"}; e.lit = str(ls[choose(8)]); break; }
        case 2: if (o.modes && chance(1, 12, "large")) { static const long l[] = {2147483648, -2147483649, LONG_MAX, LONG_MIN, 100000}; e.lit = integer(l[choose(5)]); break; } e.lit = integer((long)choose(6) - 2);
            if (o.modes && chance(1, 5, "spelling")) switch (choose(4, "number as")) {
                case 0: e.spell = fmt("%ld.0", e.lit.v->i); break;
                case 1: e.spell = e.lit.v->i < 0 ? fmt("-0%ld", -e.lit.v->i) : fmt("00%ld", e.lit.v->i); break;
                case 2: if (!e.lit.v->i) e.spell = "-0"; break;
                default: { static const char *d[] = {"1.5", "0.25", "-3.125", "99999999999999999999"}; e.spell = d[choose(4, "decimal")]; e.lit = str(e.spell); }
            }
            break;
        case 3: e.lit = boolean(chance(1, 2)); break;
        case 4: e.lit = null(); break;
        }
        return e;
    }
    Expr expr(int depth) {
        uint64_t r = choose(8, "expr");
        if (r >= 6 && depth > 0 && o.helpers) { Expr e; e.k = Expr::SUB; helper_call(e.sub, depth - 1, false); return e; }
        if (r >= 4) return literal();
        return path_guess();
    }
    static Expr name_path(const std::string &n) { Expr e; e.k = Expr::PATH; e.parts.push_back(n); return e; }
    void args(Call &c, int n, int depth) {
        for (int i = 0; i < n; i++) { Span sp; c.params.push_back(expr(depth)); }
        if (chance(1, 3, "hash")) {
            static const char *hk[] = {"h1", "foo", "includeZero", "a"};
            int k = 1 + (int)choose(3, "pairs"), start = (int)choose(4);
            for (int i = 0; i < k; i++) { Span sp; c.hash.push_back({hk[(start + i) % 4], expr(depth)}); }
            if (chance(1, 12, "many pairs")) more_pairs(c);
        }
    }
    void more_pairs(Call &c) {          // more than a hash is created for, names repeat
        for (int i = 0, k = 1 + (int)choose(14, "more pairs"); i < k; i++) { Span sp; std::string n = "k" + std::to_string(choose(12, "name")); if (chance(1, 8, "again")) n = c.hash[0].first; c.hash.push_back({n, chance(1, 2) ? literal() : path_guess()}); }
    }
    void helper_call(Call &c, int depth, bool block) {
        uint64_t r = choose(12, "helper");
        std::string n;
        if (r == 0) {
            n = "lookup"; c.path = std::make_shared<Expr>(name_path(n));
            c.params.push_back(chance(3, 4, "container") ? container_path(true) : path_guess()); X g = guess(c.params[0]); Expr f; f.k = Expr::LIT;
            if (g.t() == MAP && !g.v->m.empty() && chance(2, 3, "key")) { f.lit = str(g.v->m[choose(g.v->m.size(), "which")].first); c.params.push_back(f); }
            else if (g.t() == ARR && chance(2, 3, "index")) { f.lit = integer((long)choose(g.v->a.size() + 2, "which") - 1); c.params.push_back(f); }
            else c.params.push_back(chance(1, 2) ? literal() : expr(depth));
            arity(c); return;
        }
        n = this->c.helpers.empty() ? "h_missing" : this->c.helpers[choose(this->c.helpers.size(), "which")].first;
        if (r == 11 && chance(1, 8, "missing helper")) n = "h_missing";
        if (n == "helperMissing" || n == "blockHelperMissing") n = HNAMES[0];
        c.path = std::make_shared<Expr>(name_path(n)); if (!block && o.modes && chance(1, 16, "literal name")) c.path->lname = 1 + (int)choose(2);
        args(c, (int)choose(3, "argc"), depth);
    }
    void arity(Call &c) {       // too many or too few parameters for a builtin helper
        if (!o.modes || !chance(1, 48, "arity")) return;
        if (chance(1, 2, "fewer")) c.params.pop_back(); else c.params.push_back(literal());
    }
    // foo, written as a literal
    void literal_name(Expr &e) {
        if (!o.modes || e.k != Expr::PATH || e.data || e.depth || e.scoped || e.parts.size() != 1 || !chance(1, 10, "literal name")) return;
        if (chance(1, 4, "bare")) { static const char *w[] = {"true", "false", "null", "undefined", "12", "0"}; e.parts[0] = w[choose(6, "word")]; e.lname = 3; }
        else e.lname = 1 + (int)choose(2, "quote");
    }
    PP program(int depth, std::vector<std::string> names = {}) {
        PP p = std::make_shared<Program>(); p->names = names; bps.push_back(names); bpv.push_back(ctx.empty() ? null() : ctx.back());
        size_t n = choose(o.size, "stmts");
        line(*p, 2);
        for (size_t i = 0; i < n && budget > 0; i++) { Span sp; p->body.push_back(stmt(depth)); line(*p, 3); }
        merge_content(*p);
        bps.pop_back(); bpv.pop_back(); return p;
    }
    void line(Program &p, uint64_t often) {         // tags on lines of their own
        if (!layout || (!p.body.empty() && p.body.back().k == Stmt::CONTENT) || !chance(often - 1, often, "line break")) return;
        Stmt s; s.k = Stmt::CONTENT; s.text = BREAKS[choose(sizeof BREAKS / sizeof *BREAKS, "break")]; p.body.push_back(s);
    }
    // a backslash before a tag is written as two; anywhere else it stands for itself
    void merge_content(Program &p, bool top = false) {
        for (size_t i = 0; i < p.body.size(); i++) {
            Stmt &s = p.body[i];
            if (s.k != Stmt::CONTENT || s.text != "\\") continue;
            bool last = i + 1 == p.body.size();
            s.src = (last ? !top : p.body[i + 1].k != Stmt::CONTENT && !p.body[i + 1].raw) ? "\\\\" : "";
            if (s.src.empty()) s.text = "/";
        }
    }
    int strips() { return o.modes && chance(1, 6, "~") ? 1 + (int)choose(3, "sides") : 0; }
    std::vector<std::string> names(int max) {
        std::vector<std::string> r;
        if (o.mlambdas || !o.block_params || !chance(1, 3, "block params")) return r;
        size_t i = choose(5); r.push_back(BPN[i]);
        if (max > 1 && chance(1, 2)) r.push_back(BPN[(i + 1 + choose(4)) % 5]);
        return r;
    }
    void inverse(Stmt &s, int depth, bool chained = false) {     // a longer chain's end is stripped by its own {{~else}}, as in handlebars.js
        if (!chance(1, 2, "else")) return;
        if (!o.mlambdas && chance(1, 4, "chain")) {
            s.chain = true; Stmt b; b.k = Stmt::BLOCK;
            b.call.path = std::make_shared<Expr>(name_path(chance(1, 3) ? "with" : chance(1, 3) ? "each" : "if"));
            b.call.params.push_back(path_guess());
            X g = guess(b.call.params[0]);
            bool push = b.call.path->parts[0] != "if";
            auto nm = push ? names(2) : std::vector<std::string>();
            if (push) ctx.push_back(b.call.path->parts[0] == "each" && g.t() == ARR && !g.v->a.empty() ? g.v->a[0] : g);
            b.prog = program(depth - 1, nm);
            if (push) ctx.pop_back();
            s.is = b.os = strips(); b.cs = chained ? s.is : s.cs;
            bps.push_back({}); bpv.push_back(null()); inverse(b, depth - 1, true); bps.pop_back(); bpv.pop_back();
            s.inv = std::make_shared<Program>(); s.inv->body.push_back(b);
        } else { s.caret = chance(1, 4); s.is = strips(); s.inv = program(depth - 1); }
    }
    void content(Stmt &s) {
        if (o.modes && chance(1, 12, "escaped mustache")) { static const char *es[] = {"{{x}}", "{{{a}}}", "{{#if a}}", "\\"}; s.text = es[choose(o.delims || o.mlambdas ? 3 : 4)]; s.src = s.text[0] == '{' ? "\\" + s.text : ""; return; }
        if (o.modes && chance(1, 2, "line")) s.text = LINES[choose(sizeof LINES / sizeof *LINES, "content")];
        else s.text = CONTENTS[choose(sizeof CONTENTS / sizeof *CONTENTS, "content")];
    }
    Stmt stmt(int depth) { Stmt s = stmt1(depth); return s; }
    Stmt stmt1(int depth) {
        budget--;
        if (o.delims && chance(1, 6, "delimiters")) {
            static const char *d[][2] = {{"<%", "%>"}, {"<<", ">>"}, {"(:", ":)"}, {"{%", "%}"}, {"<\"", "\">"}, {"$$", "$$"}, {"\xc2\xab", "\xc2\xbb"}, {"<<<", ">>"}, {"{{", "}}"}, {"{{", "}}"}, {"[%", "%]"}, {"%", "%"}};
            Stmt s; s.k = Stmt::DELIM; auto &x = d[choose(12, "which")]; s.text = x[0]; s.pname = x[1]; s.esc = (int)choose(8, "padding"); return s;
        }
        Stmt s; s.os = strips(); s.cs = strips(); uint64_t r = choose(depth > 0 ? 26 : 12, "stmt");
        if (o.mlambdas && r >= 12 && r < 19) r = 19;
        switch (r) {
        default: s.k = Stmt::CONTENT; content(s); return s;
        case 3: case 4: case 5: case 6: s.k = Stmt::MUSTACHE; s.esc = (int)choose(4, "esc"); if (s.esc == 3) s.esc = 0; s.call.path = std::make_shared<Expr>(path_guess()); literal_name(*s.call.path); return s;
        case 7: case 8: case 9:
            if (!o.helpers) { s.k = Stmt::CONTENT; s.text = "h"; return s; }
            s.k = Stmt::MUSTACHE; s.esc = (int)choose(4, "esc"); if (s.esc == 3) s.esc = 0; helper_call(s.call, 2, false); return s;
        case 10: s.k = Stmt::COMMENT; s.text = COMMENTS[choose(o.mlambdas ? 2 : sizeof COMMENTS / sizeof *COMMENTS, "comment")]; return s;
        case 11:
            if (o.helpers && chance(1, 2, "log")) { s.k = Stmt::MUSTACHE; s.call.path = std::make_shared<Expr>(name_path("log")); s.call.params.push_back(expr(1)); return s; }
            s.k = Stmt::MUSTACHE; s.call.path = std::make_shared<Expr>(path_guess()); return s;
        case 12: case 13: case 14: case 15: {            // each
            s.k = Stmt::BLOCK; s.call.path = std::make_shared<Expr>(name_path("each"));
            s.call.params.push_back(container_path(true)); X g = guess(s.call.params[0]); arity(s.call);
            auto nm = names(2);
            ctx.push_back(g.t() == ARR && !g.v->a.empty() ? g.v->a[0] : g.t() == MAP && !g.v->m.empty() ? g.v->m[0].second : null());
            s.prog = program(depth - 1, nm); ctx.pop_back();
            inverse(s, depth); return s; }
        case 16: case 17: {
            s.k = Stmt::BLOCK; s.call.path = std::make_shared<Expr>(name_path(chance(1, 3, "unless") ? "unless" : "if"));
            s.call.params.push_back(chance(1, 4) ? expr(1) : path_guess()); block_test(s.call.params[0]); arity(s.call);
            if (chance(1, 8, "includeZero")) { Expr t; t.k = Expr::LIT; t.lit = boolean(!chance(1, 3, "false")); s.call.hash.push_back({"includeZero", t}); }
            s.prog = program(depth - 1); inverse(s, depth); return s; }
        case 18: {
            s.k = Stmt::BLOCK; s.call.path = std::make_shared<Expr>(name_path("with"));
            s.call.params.push_back(chance(1, 5) ? expr(1) : container_path(false)); X g = guess(s.call.params[0]); arity(s.call);
            auto nm = names(1); ctx.push_back(g); s.prog = program(depth - 1, nm); ctx.pop_back(); inverse(s, depth); return s; }
        case 19: case 20: {                               // {{#foo}} / {{^foo}}
            s.k = Stmt::BLOCK; s.call.path = std::make_shared<Expr>(path_guess()); literal_name(*s.call.path);
            if (chance(1, 5, "inverted")) { s.inverted = true; s.inv = program(depth - 1); return s; }
            Expr pe = *s.call.path; X g = guess(pe);
            if (o.modes && pe.parts.size() == 1 && path_text(pe) == pe.parts[0] && !o.delims && !o.mlambdas && chance(1, 6, "raw block")) { rawblock(s); return s; }
            auto nm = names(2);
            ctx.push_back(g.t() == ARR && !g.v->a.empty() ? g.v->a[0] : g); s.prog = program(depth - 1, nm); ctx.pop_back(); inverse(s, depth); return s; }
        case 21: case 22: {
            if (!o.helpers || c.helpers.empty()) { s.k = Stmt::CONTENT; s.text = "hb"; return s; }
            s.k = Stmt::BLOCK; helper_call(s.call, 2, true); if (s.call.path->parts[0] == "h_missing") s.call.path = std::make_shared<Expr>(name_path("h_block"));
            if (o.modes && !o.delims && !o.mlambdas && chance(1, 6, "raw block")) { rawblock(s); return s; }
            auto nm = names(2); s.prog = program(depth - 1, nm); inverse(s, depth); return s; }
        case 23: case 24: case 25: {
            if (!o.partials) { s.k = Stmt::CONTENT; s.text = "p"; return s; }
            bool block = !o.mlambdas && chance(2, 5, "partial block");
            s.k = block ? Stmt::PBLOCK : Stmt::PARTIAL;
            if (in_partial && chance(1, 3, "@partial-block")) { s.pname = "@partial-block"; }
            else {
                size_t np = c.partials.size(), lo = pidx + 1;
                if (o.modes && pidx >= 0 && ctx.size() > base && chance(1, 6, "recursion")) s.pname = c.partials[pidx].name;
                else if (lo < np) s.pname = c.partials[lo + choose(np - lo, "partial")].name;
                else s.pname = "missing";
                if (chance(1, block ? 6 : 40, "missing partial")) s.pname = "missing";
            }
            if (!block && s.pname[0] == 'p' && o.helpers && chance(1, 5, "dynamic")) {
                Expr d; d.k = Expr::SUB; d.sub.path = std::make_shared<Expr>(name_path("h_first")); Expr l; l.k = Expr::LIT; l.lit = str(s.pname); if (o.modes && chance(1, 8, "odd name")) l = chance(1, 2) ? literal() : path_guess(); d.sub.params.push_back(l); s.pdyn = std::make_shared<Expr>(d);
            }
            if (!o.mlambdas && chance(1, 3, "partial context")) s.call.params.push_back(container_path(false));
            if (!o.mlambdas && chance(1, 3, "partial hash")) {
                static const char *hk[] = {"h1", "foo", "name", "a"}; int k = 1 + (int)choose(2), st = (int)choose(4);
                for (int i = 0; i < k; i++) { Span sp; s.call.hash.push_back({hk[(st + i) % 4], expr(1)}); }
                if (chance(1, 12, "many pairs")) more_pairs(s.call);
            }
            if (block) { s.prog = program(depth - 1); }
            return s; }
        }
    }
    void block_test(Expr &e) { if (o.modes && in_partial && chance(1, 3, "@partial-block as a value")) { e = Expr(); e.data = true; e.parts.push_back("partial-block"); } }
    void rawblock(Stmt &s) {
        static const char *rs[] = {" {{x}} <b> ", "raw", "{{#if a}}", "{{! c }}\n{{a}} }}", "\\{{a}}", "\n  {{x}}\n", "\nq\n  ", " \r\n{{> p0}}", "", "z\n"};
        s.raw = true; s.os = s.cs = 0; s.prog = std::make_shared<Program>(); Stmt c; c.k = Stmt::CONTENT; c.text = rs[choose(10, "raw text")];  s.prog->body.push_back(c);
    }
    Expr container_path(bool any) {
        // prefer a container of the current context
        X top = ctx.back();
        if (top.t() == MAP) {
            std::vector<std::string> ks;
            for (auto &p : top.v->m) if (p.second.t() == MAP || p.second.t() == ARR) ks.push_back(p.first);
            if (!ks.empty() && chance(3, 4, "container")) { Expr e; e.k = Expr::PATH; e.style = (int)choose(8); e.parts.push_back(ks[choose(ks.size())]); return e; }
        }
        return path_guess();
    }
};

Case generate(const GenOpt &o) {
    Case c; c.lambdas = o.lambdas;
    c.root = gen_data(o, 3);
    if (chance(1, 4, "vm data")) { c.has_data = true; c.data = map(); put(c.data, "dv", integer(42)); if (chance(1, 2)) put(c.data, "index", str("outer")); }
    if (o.helpers) for (int i = 0; i < H_COUNT; i++) c.helpers.push_back({HNAMES[i], i});
    if (o.helpers && chance(1, 10, "helperMissing")) c.helpers.push_back({"helperMissing", (int)choose(3)});
    if (o.helpers && chance(1, 12, "blockHelperMissing")) c.helpers.push_back({"blockHelperMissing", chance(1, 2) ? H_BLOCK : H_EACHARG});
    if (chance(1, 8, "no escape")) c.flags |= handlebars_compiler_flag_no_escape;
    if (chance(1, 10, "explicit partial context")) c.flags |= handlebars_compiler_flag_explicit_partial_context;
    if (o.modes) {
        if (chance(1, 6, "strict")) c.flags |= handlebars_compiler_flag_strict;
        if (chance(1, 12, "assume objects")) c.flags |= handlebars_compiler_flag_assume_objects;
        if (o.mlambdas) c.flags |= handlebars_compiler_flag_mustache_style_lambdas;
        if (o.delims || chance(1, o.mlambdas ? 2 : 6, "compat")) c.flags |= handlebars_compiler_flag_compat;
        if (chance(1, 12, "prevent indent")) c.flags |= handlebars_compiler_flag_prevent_indent;
        if (chance(1, 12, "ignore standalone")) c.flags |= handlebars_compiler_flag_ignore_standalone;
        if (chance(1, 10, "known helpers only")) c.flags |= handlebars_compiler_flag_known_helpers_only;
    }
    if (o.helpers && o.modes && chance(1, 12, "overridden builtin")) c.helpers.push_back({OVERRIDES[choose(6, "which")], (int)choose(H_COUNT, "what")});
    size_t np = o.partials ? choose(o.npartials + 1, "partials") : 0;
    for (size_t i = 0; i < np; i++) c.partials.push_back({"p" + std::to_string(i), false, "", nullptr});
    Gen g{o, c, 40};
    g.layout = o.modes && chance(1, 4, "layout");
    g.ctx.push_back(c.root);
    for (size_t i = 0; i < np; i++) {
        Span sp;
        g.pidx = (int)i; g.in_partial = true; g.budget = 14;
        if (o.broken_partials && chance(1, 12, "broken partial")) { c.partials[i].raw = true; static const char *bad[] = {"{{#if a}}", "{{/x}}", "{{foo", "{{#each}}x{{/if}}", "{{> p0 a b}}"}; c.partials[i].text = bad[choose(5)]; }
        else if (o.partial_values && chance(1, 12, "partial is not a template")) { c.partials[i].has_value = true; c.partials[i].value = chance(1, 3, "not callable") ? gen_value(o, 0) : fn((int)choose(H_COUNT, "what")); if (c.partials[i].value.t() == STR) c.partials[i].value = integer(3); }
        else if (chance(1, 20, "empty partial")) { c.partials[i].prog = std::make_shared<Program>(); }
        else c.partials[i].prog = g.program(std::min(o.depth, 3));
    }
    g.pidx = -1; g.in_partial = chance(1, 10, "stray @partial-block"); g.budget = 40;
    c.main = std::make_shared<Program>(); 
    size_t n = 1 + choose(o.size, "top");
    g.bps.push_back({}); g.bpv.push_back(null());
    g.line(*c.main, 2);
    for (size_t i = 0; i < n; i++) { Span sp; c.main->body.push_back(g.stmt(o.depth)); g.line(*c.main, 3); }
    g.merge_content(*c.main, true);
    for (auto &pd : c.partials) if (pd.prog) g.merge_content(*pd.prog, true);
    if (o.known && o.helpers && !o.delims && !o.mlambdas && chance(1, 8, "known helpers")) {
        for (int i = 0, k = (int)choose(4, "how many"); i <= k; i++) c.known.push_back(chance(1, 8, "unregistered") ? "h_missing" : HNAMES[choose(sizeof HNAMES / sizeof *HNAMES)]);
        mark_known(*c.main, c.known); stat("probe.known_helpers_given");
    }
    if (!o.compile_errors && unknown_helper(*c.main)) c.flags &= ~(unsigned long)handlebars_compiler_flag_known_helpers_only;
    locate(*c.main); for (auto &pd : c.partials) if (pd.prog) locate(*pd.prog);
    c.columns = !o.delims;
    return c;
}

// ------------------------------------------------------------------------------------------ reference interpreter
struct Err { int code; std::string msg; bool check; int line = 0, col = 0; };
struct Skip {};
long max_steps = 6000; int max_depth = 60;
struct BP { std::shared_ptr<BP> up; std::vector<std::string> names; bool has = false; std::vector<X> vals; };
struct PB;
struct Env { std::shared_ptr<BP> bp; std::shared_ptr<PB> pb; bool inpb = false; };     // inpb: in a partial that was given a block, or such a block
struct PB { const Program *prog; Env env; };            // env.pb: the partial block around the definition

struct Opts { X hash; X scope; X data; const Program *prog = nullptr, *inv = nullptr; Env env; std::string name; bool noname = false, nohash = false; };

struct Eval {
    const Case &c; Fault f; std::vector<std::string> &calls; std::vector<X> ctxs; X data; long n = 0, steps = 0; size_t outsize = 0; int depth = 0;
    std::map<std::pair<const PartialDef *, std::string>, PP> indents; std::set<const PartialDef *> done;

    void tick(size_t bytes = 0) { outsize += bytes; if (++steps > max_steps || outsize > 120000) throw Skip(); }
    const int *helper(const std::string &name) { for (auto &h : c.helpers) if (h.first == name) return &h.second; return nullptr; }
bool flag(unsigned long f) const { return c.flags & f; }
    X child(const X &of, const X &ch) { X r = ch; if (of.v->lazy && (container(r) || (r.t() == FN && r.v->lazy))) r.id = next_id++; return r; }
    // a segment of a path: a member, or an element if all of it is an index
    static bool index(const std::string &p, size_t &k) { if (p.empty() || p.size() > 9 || (p[0] == '0' && p.size() > 1)) return false; k = 0; for (char c : p) { if (c < '0' || c > '9') return false; k = k * 10 + (size_t)(c - '0'); } return true; }
    X seg(const X &v, const std::string &p, bool *hit) { size_t k; if (v.t() != ARR) return mget(v, p, hit); *hit = index(p, k) && k < v.v->a.size(); return *hit ? aget(v, (long)k) : null(); }
    X mget(const X &m, const std::string &k, bool *hit = nullptr) { X *p = find(m, k); if (hit) *hit = p; return p ? child(m, *p) : null(); }
    X aget(const X &a, long i) { return i >= 0 && (size_t)i < a.v->a.size() ? child(a, a.v->a[i]) : null(); }

    static std::string escape(const std::string &s) {
        std::string r;
        for (char ch : s) switch (ch) { case '&': r += "&amp;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#x27;"; break; case '`': r += "&#x60;"; break; default: r += ch; }
        return r;
    }
    std::string text(const X &x, bool esc) {
        switch (x.t()) {
        case TRUE_: return "true"; case FALSE_: return "false"; case INT: return fmt("%ld", x.v->i); case FLT: return fmt("%g", x.v->d);
        case STR: return esc && !x.safe ? escape(x.v->s) : x.v->s;
        case ARR: { std::string r; for (size_t i = 0; i < x.v->a.size(); i++) { if (i) r += ","; r += text(x.v->a[i], esc); } return r; }
        default: return "";
        }
    }
    std::string plain(const X &x) { return x.t() == NUL || x.t() == FN || container(x) ? "" : text(x, false); }

    static bool simple_id(const Expr &e) { return e.parts.size() == 1 && !e.scoped && !e.depth; }
    BP *bp_find(const Env &env, const std::string &name, size_t &which) {
        for (BP *b = env.bp.get(); b; b = b->up.get()) for (size_t i = 0; i < b->names.size(); i++) if (b->names[i] == name) { which = i; return b; }
        return nullptr;
    }
    // strict: the value itself is asked for, not a parameter; helper: its name is that of a helper, so nobody needs the value
    X path(const Expr &e, const Env &env, bool strict = false, bool names_helper = false) {
        tick();
        size_t w;
        bool assume = flag(handlebars_compiler_flag_assume_objects), is_strict = assume || flag(handlebars_compiler_flag_strict), required = strict && flag(handlebars_compiler_flag_strict);
        auto undefined = [&](const std::string &name) -> X { if (names_helper) return null(); throw Err{HANDLEBARS_ERROR, "\"" + name + "\" not defined in object", true, e.line, e.col}; };
        if (!e.depth && !e.scoped && !e.parts.empty()) if (BP *b = bp_find(env, e.parts[0], w)) {
            if (!b->has || w >= b->vals.size()) return null();
            X v = b->vals[w];
            for (size_t i = 1; i < e.parts.size(); i++) { bool hit; v = seg(v, e.parts[i], &hit); if (!hit) return null(); }
            return v;
        }
        if (e.data) {
            X d = data; for (int i = 0; i < e.depth; i++) { bool hit; X p = mget(d, "_parent", &hit); if (hit) d = p; }
            bool hit; X v = mget(d, e.parts[0], &hit);
            if (!hit) { if (e.parts[0] == "root") v = ctxs[0]; else if (e.parts[0] == "partial-block" && env.inpb) { v = null(); if (env.pb) { v = fn(-1); v.v->pb = env.pb; } } else return assume || required ? undefined(e.parts[0]) : null(); }
            for (size_t i = 1; i < e.parts.size(); i++) { v = seg(v, e.parts[i], &hit); if (!hit) return is_strict ? undefined(e.parts[0]) : null(); }
            return v.t() == NUL && required ? undefined(e.parts[0]) : v;
        }
        X v = (size_t)e.depth < ctxs.size() ? ctxs[ctxs.size() - 1 - e.depth] : null();
        if (flag(handlebars_compiler_flag_compat) && !e.depth && !e.scoped && !e.parts.empty()) {
            v = null();
            for (size_t i = ctxs.size(); i--;) if (find(ctxs[i], e.parts[0])) { v = ctxs[i]; break; }
        }
        for (size_t i = 0; i < e.parts.size(); i++) {
            const std::string &p = e.parts[i]; bool last = i + 1 == e.parts.size(), hit = false;
            if (v.t() == MAP || v.t() == ARR) { X n = seg(v, p, &hit); if (hit) v = n; }
            else return required || (assume && last) ? undefined(p) : null();
            if (!hit) return required || (is_strict && !last) ? undefined(p) : null();
        }
        return v;
    }
    X expr(const Expr &e, const Env &env) {
        if (e.k == Expr::LIT) return e.lit;
        if (e.k == Expr::PATH) return path(e, env);
        return helper_expr(e.sub, env, nullptr, nullptr);
    }
    X hash(const Call &c, const Env &env) {
        X m = map(); std::vector<X> vs;
        for (auto &h : c.hash) vs.push_back(expr(h.second, env));
        for (size_t i = vs.size(); i--;) put(m, c.hash[i].first, vs[i]);
        return m;
    }
    // a call of something the user supplied
    void record(int id, const std::vector<X> &args, const Opts &o) {
        std::string s = std::to_string(id) + ":" + (o.noname ? "-" : o.name) + "(";
        for (size_t i = 0; i < args.size(); i++) s += (i ? "," : "") + dump(args[i]);
        s += ") hash=" + (o.nohash ? std::string("-") : dump(o.hash)) + " scope=" + dump(o.scope);
        calls.push_back(s); tick(s.size());
        if (++n == f.call) throw Err{HANDLEBARS_ERROR, "injected failure " + std::to_string(n), true};
    }
    X user(int id, const std::vector<X> &args, const Opts &o) {
        record(id, args, o);
        switch (id) {
        case H_ECHO: { std::string r = "<"; for (auto &a : args) r += plain(a) + "|"; return str(r + ">"); }
        case H_NULL: return null();
        case H_SAFE: return str("<b>" + (args.empty() ? std::string() : plain(args[0])) + "</b>", true);
        case H_FIRST: return args.empty() ? null() : args[0];
        case H_BLOCK: { std::string r = exec(o.prog, o.env, o.scope); return str(r + "|" + exec(o.inv, o.env, o.scope)); }
        case H_EACHARG: { std::string r; for (size_t i = 0; i < args.size(); i++) r += exec(o.prog, o.env, args[i], nullptr, std::vector<X>{args[i], integer((long)i)}, true) + ","; return str(r); }
        case H_DATA: { X d = map(); put(d, "_parent", o.data); put(d, "dv", args.empty() ? str("none") : args[0]); return str(exec(o.prog, o.env, o.scope, &d)); }
        case H_CTX: { bool hit; X dv = mget(o.data, "index", &hit); return str(dump(o.scope) + (hit ? "#" + dump(dv) : "")); }
        case H_TWICE: { std::string r = exec(o.prog, o.env, o.scope); return str(r + exec(o.prog, o.env, args.empty() ? o.scope : args[0])); }
        case H_HASH: return o.nohash ? null() : o.hash;
        case H_ARR: { X a = arr(); for (auto &x : args) a.v->a.push_back(x); a.v->a.push_back(str("<&>")); return a; }
        case L_TEXT: case L_TWICE: case L_WRAP: case L_CONST: case L_ESC: case L_EMPTY: case L_NUM: return str(lambda_text(id, args.empty() ? std::string() : plain(args[0])));
        }
        return null();
    }
    static std::string lambda_text(int id, const std::string &t) {
        switch (id) { case L_TEXT: return t; case L_TWICE: return t + "{{foo}}" + t; case L_WRAP: return "<" + t + "&"; case L_CONST: return "{{a}}{{#items}}[{{.}}]{{/items}}{{{b}}}"; case L_ESC: return ">\"" ; case L_NUM: return "12"; default: return ""; }
    }
    // a mustache-style lambda: it is given the text of its section, and what it returns is a template
    X lambda(const X &f, const Program *p, bool inverted, const Env &env, const Opts &o) {
        if (inverted) throw Skip();         // what such a section prints is not settled
        static const Program none; if (!p) p = &none;
        if (lossy(*p)) throw Skip();
        record((int)f.v->i, {str(implied_context(section_text(*p)))}, o);
        PP q = std::make_shared<Program>();
        auto content = [&](const char *t) { Stmt s; s.k = Stmt::CONTENT; s.text = t; q->body.push_back(s); };
        auto section = [&] { PP b = copied(*p); q->body.insert(q->body.end(), b->body.begin(), b->body.end()); };
        auto var = [&](const char *n, int esc) { Stmt s; s.k = Stmt::MUSTACHE; s.esc = esc; s.call.path = std::make_shared<Expr>(); s.call.path->style = 2; if (*n != '.') s.call.path->parts.push_back(n); q->body.push_back(s); };
        switch (f.v->i) {
        case L_TEXT: section(); break;
        case L_TWICE: section(); var("foo", 0); section(); break;
        case L_WRAP: content("<"); section(); content("&"); break;
        case L_CONST: { var("a", 0); Stmt s; s.k = Stmt::BLOCK; s.call.path = std::make_shared<Expr>(); s.call.path->parts.push_back("items"); std::swap(q->body, none_body); content("["); var(".", 0); content("]"); s.prog = std::make_shared<Program>(*q); std::swap(q->body, none_body); none_body.clear(); q->body.push_back(s); var("b", 1); break; }
        case L_ESC: content(">\""); break;
        case L_NUM: content("12"); break;
        default: return str("");
        }
        if (++depth > max_depth) throw Skip();
        if (flag(handlebars_compiler_flag_known_helpers_only) && unknown_helper(*q)) throw Err{HANDLEBARS_UNKNOWN_HELPER, "You specified knownHelpersOnly", true, -1};
        whitespace(*q, c.flags);
        Env e; e.pb = env.pb; e.inpb = env.inpb;
        std::string r = body(*q, e, ctxs.back(), nullptr);
        keep.push_back(q); depth--; tick(r.size());
        return str(r);
    }
    std::vector<Stmt> none_body; std::vector<PP> keep;
    X callv(const X &f, const std::vector<X> &args, const Opts &o) {
        if (!f.v->pb) return user((int)f.v->i, args, o);
        return str(call_pb(*(PB *)f.v->pb.get(), args.empty() ? ctxs.back() : args[0]));
    }
    static Err bad(const char *what) { return Err{HANDLEBARS_ERROR, what, true}; }
    X each(const std::vector<X> &args, const Opts &o) {
        if (args.empty()) throw bad("Must pass iterator to #each");
        X v = args[0];
        if (v.t() == FN) { Opts q = o; v = callv(v, {o.scope}, q); }
        std::string r; size_t i = 0;
        if (container(v)) {
            size_t cnt = v.t() == ARR ? v.v->a.size() : v.v->m.size();
            for (; i < cnt; i++) {
                tick();
                X d = map();
                if (o.data.t() == MAP) for (auto &p : o.data.v->m) put(d, p.first, p.second);
                put(d, "_parent", o.data);
                X ch = child(v, v.t() == ARR ? v.v->a[i] : v.v->m[i].second);
                X key = v.t() == ARR ? integer((long)i) : str(v.v->m[i].first);
                put(d, "index", integer((long)i)); put(d, "key", key); put(d, "first", boolean(i == 0)); put(d, "last", boolean(i + 1 == cnt));
                r += exec(o.prog, o.env, ch, &d, {ch, key}, true);
            }
        }
        if (i == 0) r += exec(o.inv, o.env, o.scope);
        return str(r);
    }
    X if_(X cond, const Opts &o) {
        if (cond.t() == FN) cond = callv(cond, {o.scope}, o);
        bool t = !is_empty(cond) || (cond.t() == INT && cond.v->i == 0 && find(o.hash, "includeZero") && !is_empty(*find(o.hash, "includeZero")));
        return str(exec(t ? o.prog : o.inv, o.env, o.scope));
    }
    X with(X v, const Opts &o) {
        if (v.t() == FN) v = callv(v, {o.scope}, o);
        if (v.t() == NUL) return str(exec(o.inv, o.env, o.scope));
        X d = o.data;
        return str(exec(o.prog, o.env, v, &d, {v}, true));
    }
    X block_missing(const X &v, const Opts &o) {
        if (const int *h = helper("blockHelperMissing")) return user(*h, {v}, o);
        bool zero = v.t() == INT && v.v->i == 0;
        if (v.t() == TRUE_) return str(exec(o.prog, o.env, o.scope));
        if (is_empty(v) && !zero) return str(exec(o.inv, o.env, o.scope));
        if (v.t() == ARR) return call_named("each", {v}, o);
        return str(exec(o.prog, o.env, v));
    }
    Opts opts(const X &h, const Env &env, const Program *p, const Program *i, const std::string &name) { Opts o; o.hash = h; o.scope = ctxs.back(); o.data = data; o.prog = p; o.inv = i; o.env = env; o.name = name; return o; }

    X call_named(const std::string &name, const std::vector<X> &args, const Opts &o) {
        if (const int *h = helper(name)) return user(*h, args, o);
        if (name == "each") return each(args, o);
        if (name == "if") { if (args.size() != 1) throw bad("#if requires exactly one argument"); return if_(args[0], o); }
        if (name == "unless") { if (args.size() != 1) throw bad("#unless requires exactly one argument"); Opts q = o; std::swap(q.prog, q.inv); return call_named("if", args, q); }
        if (name == "with") { if (args.size() != 1) throw bad("#with requires exactly one argument"); return with(args[0], o); }
        if (name == "lookup") {
            if (args.size() < 2) throw bad("lookup requires two parameters");
            const X &cx = args[0], &fl = args[1];
            if (cx.t() == MAP) return mget(cx, plain(fl));
            if (cx.t() == ARR && fl.t() == INT) return aget(cx, fl.v->i);
            return null();
        }
        if (name == "log") { record(99, args, o); return null(); }
        return null();
    }
    // parameters and/or hash, or a subexpression
    X helper_expr(const Call &c, const Env &env, const Program *p, const Program *i) {
        std::vector<X> args; for (auto &a : c.params) args.push_back(expr(a, env));
        X h = hash(c, env);
        const Expr &pe = *c.path; size_t w;
        bool simple = simple_id(pe);
        if (c.known && !builtin(pe.parts[0]) && !helper(pe.parts[0])) throw Err{HANDLEBARS_ERROR, "Invalid known helper: " + pe.parts[0], true, -1};
        if (!pe.parts.empty() && (c.known || builtin(pe.parts[0]))) return call_named(pe.parts[0], args, opts(h, env, p, i, pe.parts[0]));
        X v = path(pe, env, true, simple && helper(pe.parts[0]));
        std::string name = path_text(pe, true);
        Opts o = opts(h, env, p, i, name);
        (void)w;
        if (simple && helper(pe.parts[0])) return user(*helper(pe.parts[0]), args, o);
        if (v.t() == FN) return callv(v, args, o);
        if (const int *hm = helper("helperMissing")) return user(*hm, args, o);
        if (!args.empty()) throw Err{HANDLEBARS_ERROR, "Missing helper: \"" + name + "\"", true};
        return null();
    }
    // foo, foo.bar: no parameters. Returns whether a helper handled it
    X plain_call(const Expr &pe, const Env &env, const Program *p, const Program *i, bool &helper_ran) {
        size_t w; helper_ran = false;
        bool is_bp = simple_id(pe) && bp_find(env, pe.parts[0], w);
        if (!simple_id(pe) || is_bp || flag(handlebars_compiler_flag_known_helpers_only)) {
            X v = path(pe, env, true);
            if (v.t() == FN) { Opts o; o.noname = o.nohash = true; o.scope = ctxs.back(); o.data = null(); o.prog = nullptr; o.env = env; return callv(v, {o.scope}, o); }
            return v;
        }
        const std::string &name = pe.parts[0];
        X v = path(pe, env, true, helper(name));
        Opts o = opts(map(), env, p, i, name);
        X r;
        if (v.t() == FN && !v.v->pb && flag(handlebars_compiler_flag_mustache_style_lambdas)) { helper_ran = true; try { r = lambda(v, p, !p && i, env, o); } catch (Err &x) { x.line = -1; throw; } }
        else if (const int *h = helper(name)) { r = user(*h, {}, o); helper_ran = true; }
        else if (v.t() == FN) r = callv(v, {}, o);
        else if (v.t() != NUL) return v;
        else if (const int *hm = helper("helperMissing")) r = user(*hm, {}, o);
        else return v;
        return r.t() == NUL ? v : r;
    }
    std::string exec(const Program *p, const Env &env, const X &ctx, X *d = nullptr, std::vector<X> bpv = {}, bool has = false) {
        if (!p) return "";
        tick();
        if (++depth > max_depth) throw Skip();
        Env e = env; auto b = std::make_shared<BP>(); b->up = env.bp; b->names = p->names; b->has = has; b->vals = bpv; e.bp = b;
        std::string r = body(*p, e, ctx, d);
        depth--;
        return r;
    }
    std::string body(const Program &p, const Env &e, const X &ctx, X *d) {
        size_t cs = ctxs.size(); X saved = data;
        if (ctxs.empty() || !eq(ctxs.back(), ctx)) ctxs.push_back(ctx);
        if (d) data = *d;
        std::string out;
        for (auto &s : p.body) out += stmt(s, e);
        ctxs.resize(cs); data = saved;
        return out;
    }
    std::string stmt(const Stmt &s, const Env &env) {
        tick();
        switch (s.k) {
        case Stmt::CONTENT: tick(s.value.size()); return s.value;
        case Stmt::COMMENT: case Stmt::DELIM: return "";
        case Stmt::MUSTACHE: {
            bool esc = s.esc == 0 && !(c.flags & handlebars_compiler_flag_no_escape), hr;
            X v = call_has_args(s.call) || (simple_id(*s.call.path) && (s.call.known || builtin(s.call.path->parts[0]))) ? helper_expr(s.call, env, nullptr, nullptr) : plain_call(*s.call.path, env, nullptr, nullptr, hr);
            std::string r = text(v, esc); tick(r.size()); return r; }
        case Stmt::BLOCK: {
            const Program *p = s.inverted ? nullptr : s.prog.get(), *i = s.inv.get(); bool hr;
            if (call_has_args(s.call) || (simple_id(*s.call.path) && (s.call.known || builtin(s.call.path->parts[0])))) return text(helper_expr(s.call, env, p, i), false);
            X v = plain_call(*s.call.path, env, p, i, hr);
            if (hr) return text(v, false);
            Opts bo = opts(map(), env, p, i, path_text(*s.call.path, true)); size_t bw;
            bo.noname = simple_id(*s.call.path) && !bp_find(env, s.call.path->parts[0], bw) && !flag(handlebars_compiler_flag_known_helpers_only);
            return text(block_missing(v, bo), false); }
        case Stmt::PARTIAL: case Stmt::PBLOCK: {
            std::string indent = s.k == Stmt::PARTIAL ? s.indent : "", before; if (flag(handlebars_compiler_flag_prevent_indent)) std::swap(indent, before);
            std::string r = partial(s, env, indent);
            return before + (flag(handlebars_compiler_flag_compat) ? r : indent_text(r, indent)); }
        }
        return "";
    }
    static bool call_has_args(const Call &c) { return !c.params.empty() || !c.hash.empty(); }

    std::string partial(const Stmt &s, const Env &env, const std::string &indent) {
        std::string name = s.pname; bool named = true;
        if (s.pdyn) { X n = expr(*s.pdyn, env); if (n.t() == STR) name = n.v->s; else named = false; }
        X in = s.call.params.empty() ? (c.flags & handlebars_compiler_flag_explicit_partial_context ? null() : ctxs.back()) : expr(s.call.params[0], env);
        X h = s.call.hash.empty() ? map() : hash(s.call, env);
        // merge
        if (in.t() == MAP && !in.v->m.empty() && !h.v->m.empty()) {
            X m = map(); for (auto &p : in.v->m) put(m, p.first, child(in, p.second)); for (auto &p : h.v->m) put(m, p.first, p.second); in = m;
        } else if (in.t() == MAP && in.v->m.empty() && !h.v->m.empty()) in = h;
        else if (in.t() == NUL) in = h;
        Env penv = env;
        if (s.k == Stmt::PBLOCK) { auto pb = std::make_shared<PB>(); pb->prog = s.prog.get(); pb->env = env; penv.pb = pb; penv.inpb = true; }
        if (named && name == "@partial-block" && env.pb) return call_pb(*env.pb, in);
        const PartialDef *pd = nullptr;
        if (named && c.resolve) { bool bad = false; pd = c.resolve(name, bad); if (bad) throw Err{HANDLEBARS_ERROR, "", false, -1}; }
        else if (named) for (auto &p : c.partials) if (p.name == name) pd = &p;
        if (!pd) {
            if (s.k == Stmt::PBLOCK) return call_pb(*penv.pb, in);
            if (flag(handlebars_compiler_flag_compat)) return "";
            throw Err{HANDLEBARS_ERROR, "The partial " + (named ? name : "(NULL)") + " could not be found", true};
        }
        tick();
        if (pd->has_value) {
            if (pd->value.t() != FN) throw Err{HANDLEBARS_ERROR, "The partial " + name + " was not a string", true};
            Opts o; o.noname = true; o.hash = h; o.scope = ctxs.back(); o.data = data; o.prog = s.k == Stmt::PBLOCK ? s.prog.get() : nullptr; o.env = env; o.env.inpb = penv.inpb; o.env.pb = penv.pb;
            return text(user((int)pd->value.v->i, {in}, o), false);
        }
        if (pd->raw) throw Err{pd->err, pd->msg, pd->err > 0, pd->line, pd->line < 0 ? 0 : pd->col + (flag(handlebars_compiler_flag_compat) ? (int)indent.size() : 0)};
        if (++depth > max_depth) throw Skip();
        Env e; e.pb = penv.pb; e.inpb = penv.inpb;
        PP prog = pd->prog; bool empty = print_empty(*prog);
        if (!empty && flag(handlebars_compiler_flag_compat) && !indent.empty()) { PP &t = indents[{pd, indent}]; if (!t) { t = indented(*prog, indent, true); whitespace(*t, c.flags); } prog = t; }
        else if (done.insert(pd).second) whitespace(*prog, c.flags);
        if (!empty && flag(handlebars_compiler_flag_known_helpers_only)) if (auto u = unknown_helper(*prog)) throw Err{HANDLEBARS_UNKNOWN_HELPER, "You specified knownHelpersOnly", true, u->line, u->col};
        std::string r = empty ? "" : body(*prog, e, in, nullptr);
        depth--; tick(r.size());
        return r;
    }
    static bool print_empty(const Program &p) { return p.body.empty(); }
    std::string call_pb(const PB &pb, const X &in) { PB keep = pb; keep.env.inpb = true; return exec(keep.prog, keep.env, in); }
};

Result evaluate(const Case &c, const X &root, const Fault &f) {
    Result r;
    Eval e{c, f, r.calls};
    e.data = c.has_data ? c.data : null();
    whitespace(*c.main, c.flags);
    const Expr *u;
    if ((c.flags & handlebars_compiler_flag_known_helpers_only) && (u = unknown_helper(*c.main))) { r.compile_error = true; r.line = u->line; r.col = c.columns ? u->col : -1; r.err = HANDLEBARS_UNKNOWN_HELPER; r.msg = "You specified knownHelpersOnly"; return r; }
    try { Env env; r.out = e.body(*c.main, env, root, nullptr); }
    catch (Err &x) { r.err = x.code; r.msg = x.msg; r.check_msg = x.check; r.line = x.line; r.col = x.col; r.out.clear(); }
    catch (Skip &) { r.skipped = true; }
    if (!c.columns) r.col = -1;
    return r;
}

// ------------------------------------------------------------------------------------------ the real library
X as_seen(const X &x, Provider p) {
    if (x.t() == FN && p == P_OBJ) { X y = fn((int)x.v->i); y.v->lazy = true; y.id = next_id++; return y; }
    if (!container(x)) { X y = x; return y; }
    bool lazy = p == P_JSON || p == P_OBJ;
    X y = x.t() == ARR ? arr() : map();
    y.v->lazy = lazy;
    for (auto &e : x.v->a) y.v->a.push_back(as_seen(e, p));
    for (auto &e : x.v->m) y.v->m.push_back({e.first, as_seen(e.second, p)});
    return y;
}
static handlebars_vm *closure_vm;      // the one that was set up last, closures belong to it
static hval *helper_closure(int localc, hval *localv, HANDLEBARS_HELPER_ARGS) {
    if (localc != 2 || handlebars_value_get_strlen(&localv[1]) != 8 || memcmp(handlebars_value_get_strval(&localv[1]), "captured", 8)) violation("closure", "a closure was called with other captured values");
    return helper_fn((int)handlebars_value_get_intval(&localv[0]))(argc, argv, options, vm, rv);
}
void build_native(hctx *ctx, hval *out, const X &x) {
    switch (x.t()) {
    case NUL: handlebars_value_null(out); break;
    case TRUE_: handlebars_value_boolean(out, true); break;
    case FALSE_: handlebars_value_boolean(out, false); break;
    case INT: handlebars_value_integer(out, x.v->i); break;
    case FLT: handlebars_value_float(out, x.v->d); break;
    case STR: handlebars_value_str(out, mkstr(ctx, x.v->s)); if (x.safe) handlebars_value_set_flag(out, HANDLEBARS_VALUE_FLAG_SAFE_STRING); break;
    case FN:
        if (x.v->cl) { HANDLEBARS_VALUE_ARRAY_DECL(lv, 2); handlebars_value_integer(&lv[0], x.v->i); handlebars_value_str(&lv[1], mkstr(ctx, "captured")); handlebars_value_closure(out, handlebars_closure_ctor(closure_vm, helper_closure, 2, lv)); HANDLEBARS_VALUE_ARRAY_UNDECL(lv, 2); }
        else handlebars_value_helper(out, helper_fn((int)x.v->i));
        break;
    case ARR: {
        HANDLEBARS_VALUE_DECL(tmp); HANDLEBARS_VALUE_DECL(ch);
        handlebars_value_array(tmp, handlebars_stack_ctor(ctx, 0));
        for (auto &e : x.v->a) { build_native(ctx, ch, e); handlebars_value_array_push(tmp, ch); }
        handlebars_value_value(out, tmp);
        HANDLEBARS_VALUE_UNDECL(ch); HANDLEBARS_VALUE_UNDECL(tmp); break; }
    case MAP: {
        HANDLEBARS_VALUE_DECL(tmp); HANDLEBARS_VALUE_DECL(ch);
        handlebars_value_map(tmp, handlebars_map_ctor(ctx, 0));
        for (auto &e : x.v->m) {
            build_native(ctx, ch, e.second);
            hstr *k = mkstr(ctx, e.first); handlebars_string_addref(k);
            handlebars_value_map_update(tmp, k, ch);
            handlebars_string_delref(k);
        }
        handlebars_value_value(out, tmp);
        HANDLEBARS_VALUE_UNDECL(ch); HANDLEBARS_VALUE_UNDECL(tmp); break; }
    }
}

// ---- a user-defined provider: containers are user objects, children are made on access, any access may fail
struct Obj { handlebars_user user; X *x; Rec *rec; };
static const handlebars_value_handlers &obj_handlers();
static void obj_access(handlebars_user *u, const char *what) {
    Rec *r = ((Obj *)u)->rec;
    if (++r->access == r->access_fault) { r->access_fired = true; stat("fault.provider_access"); handlebars_throw(u->ctx, HANDLEBARS_ERROR, "injected access failure %ld", r->access); }
    (void)what;
}
static void obj_make(hctx *ctx, hval *out, const X &x, Rec *rec) {
    if (!container(x) && x.t() != FN) { build_native(ctx, out, x); return; }
    Obj *o = (Obj *)talloc_zero_size(ctx, sizeof(Obj));
    handlebars_user_init(&o->user, ctx, &obj_handlers());
    o->x = new X(x); o->rec = rec; rec->objs++;
    handlebars_value_user(out, &o->user);
}
static hval *obj_copy(hval *v) { return v; }
static void obj_dtor(handlebars_user *u) {
    Obj *o = (Obj *)u;
    if (!o->x) violation("double-destroy", "the destructor of a user object ran twice");
    delete o->x; o->x = nullptr; o->rec->objs_dead++;
}
static void obj_convert(hval *v, bool) { Obj *o = (Obj *)handlebars_value_get_user(v); X x = *o->x; build_native(o->user.ctx, v, x); }
static Obj *obj_of(hval *v) { Obj *o = (Obj *)handlebars_value_get_user(v); if (!o->x) violation("use-after-destroy", "a destroyed user object was accessed"); return o; }
static enum handlebars_value_type obj_type(hval *v) { X &x = *obj_of(v)->x; return x.t() == FN ? HANDLEBARS_VALUE_TYPE_HELPER : x.t() == ARR ? HANDLEBARS_VALUE_TYPE_ARRAY : HANDLEBARS_VALUE_TYPE_MAP; }
static hval *obj_map_find(hval *v, hstr *key, hval *rv) {
    Obj *o = obj_of(v); obj_access(&o->user, "map_find");
    X *f = find(*o->x, S(key)); if (!f) return nullptr;
    X x = *f; obj_make(o->user.ctx, rv, x, o->rec); return rv;
}
static hval *obj_array_find(hval *v, size_t i, hval *rv) {
    Obj *o = obj_of(v); obj_access(&o->user, "array_find");
    if (i >= o->x->v->a.size()) return nullptr;
    X x = o->x->v->a[i]; obj_make(o->user.ctx, rv, x, o->rec); return rv;
}
static bool obj_next(handlebars_value_iterator *it) {
    Obj *o = obj_of(it->value); size_t n = o->x->t() == ARR ? o->x->v->a.size() : o->x->v->m.size();
    if (it->key) { handlebars_string_delref(it->key); it->key = nullptr; }
    it->index++;
    if (it->index >= n) { handlebars_value_dtor(it->cur); return false; }
    obj_access(&o->user, "next");
    if (o->x->t() == ARR) { X x = o->x->v->a[it->index]; obj_make(o->user.ctx, it->cur, x, o->rec); }
    else { X x = o->x->v->m[it->index].second; it->key = mkstr(o->user.ctx, o->x->v->m[it->index].first); handlebars_string_addref(it->key); obj_make(o->user.ctx, it->cur, x, o->rec); }
    return true;
}
static bool obj_iter(handlebars_value_iterator *it, hval *v) {
    Obj *o = obj_of(v); obj_access(&o->user, "iterate");
    size_t n = o->x->t() == ARR ? o->x->v->a.size() : o->x->v->m.size();
    it->value = v; it->next = obj_next; it->index = 0; it->key = nullptr;
    if (!n) return false;
    if (o->x->t() == ARR) { X x = o->x->v->a[0]; obj_make(o->user.ctx, it->cur, x, o->rec); }
    else { X x = o->x->v->m[0].second; it->key = mkstr(o->user.ctx, o->x->v->m[0].first); handlebars_string_addref(it->key); obj_make(o->user.ctx, it->cur, x, o->rec); }
    return true;
}
static long obj_count(hval *v) { Obj *o = obj_of(v); return o->x->t() == ARR ? (long)o->x->v->a.size() : (long)o->x->v->m.size(); }
// a function that is a user object
static hval *obj_call(hval *v, HANDLEBARS_HELPER_ARGS) {
    Obj *o = obj_of(v); if (o->x->t() != FN) violation("call", "an object that is no function was called");
    stat("probe.user_object_called");
    return helper_fn((int)o->x->v->i)(argc, argv, options, vm, rv);
}
static const handlebars_value_handlers &obj_handlers() {
    static const handlebars_value_handlers h = {"obj", obj_copy, obj_dtor, obj_convert, obj_type, obj_map_find, obj_array_find, obj_iter, obj_call, obj_count};
    return h;
}
// the YAML text of a value is chosen once per run
static std::vector<std::pair<X, std::string>> yaml_texts;
static const std::string &yaml_of(const X &x) {
    static bool reg = (on_reset([] { yaml_texts.clear(); }), true); (void)reg;
    for (auto &y : yaml_texts) if (y.first.v == x.v) return y.second;
    yaml_texts.push_back({x, to_yaml(x)}); log("as yaml: %s", quote(yaml_texts.back().second, 2000).c_str());
    return yaml_texts.back().second;
}
void build_value(hctx *ctx, hval *out, const X &x, Provider p, Rec *rec) {
    switch (p) {
    case P_NATIVE: build_native(ctx, out, x); break;
    case P_JSON: handlebars_value_init_json_string(ctx, out, to_json(x).c_str()); break;
    case P_JSON_CONV: handlebars_value_init_json_string(ctx, out, to_json(x).c_str()); handlebars_value_convert(out); break;
    case P_YAML: handlebars_value_init_yaml_string(ctx, out, yaml_of(x).c_str()); break;
    default: obj_make(ctx, out, x, rec); break;
    }
}

std::string dump(hval *v, int depth) {
    if (depth > 20) return "...";
    switch (handlebars_value_get_type(v)) {
    case HANDLEBARS_VALUE_TYPE_NULL: return "null";
    case HANDLEBARS_VALUE_TYPE_TRUE: return "true";
    case HANDLEBARS_VALUE_TYPE_FALSE: return "false";
    case HANDLEBARS_VALUE_TYPE_INTEGER: return fmt("%ld", handlebars_value_get_intval(v));
    case HANDLEBARS_VALUE_TYPE_FLOAT: return fmt("%g", handlebars_value_get_floatval(v));
    case HANDLEBARS_VALUE_TYPE_STRING: return quote(std::string(handlebars_value_get_strval(v), handlebars_value_get_strlen(v)), 100000);
    case HANDLEBARS_VALUE_TYPE_HELPER: return "fn";
    case HANDLEBARS_VALUE_TYPE_CLOSURE: return "cl";
    case HANDLEBARS_VALUE_TYPE_ARRAY: { std::string r = "["; size_t i = 0; HANDLEBARS_VALUE_FOREACH(v, ch) { r += (i++ ? "," : "") + dump(ch, depth + 1); } HANDLEBARS_VALUE_FOREACH_END(); return r + "]"; }
    case HANDLEBARS_VALUE_TYPE_MAP: { std::string r = "{"; size_t i = 0; HANDLEBARS_VALUE_FOREACH_KV(v, k, ch) { r += (i++ ? "," : "") + quote(S(k)) + ":" + dump(ch, depth + 1); } HANDLEBARS_VALUE_FOREACH_END(); return r + "}"; }
    default: return "?" + std::to_string((int)handlebars_value_get_type(v));
    }
}

static std::string plain(hval *v, handlebars_vm *vm) {
    hstr *s = handlebars_value_to_string(v, HBSCTX(vm)); handlebars_string_addref(s); std::string r = S(s); handlebars_string_delref(s); return r;
}
static std::string run_prog(handlebars_vm *vm, long prog, hval *ctx, hval *data = nullptr, hval *bp = nullptr) {
    hstr *s = handlebars_vm_execute_program_ex(vm, prog, ctx, data, bp);
    return S(s);
}
static hval *helper_common(int id, HANDLEBARS_HELPER_ARGS) {
    Rec *rec = (Rec *)handlebars_vm_get_log_ctx(vm);
    char *volatile text = nullptr;
    {
        std::string s = std::to_string(id) + ":" + (options->name ? S(options->name) : std::string("-")) + "(";
        for (int i = 0; i < argc; i++) s += (i ? "," : "") + (id >= L_TEXT && id < L_END ? implied_context(dump(&argv[i])) : dump(&argv[i]));
        s += ") hash=" + (options->hash ? dump(options->hash) : std::string("-")) + " scope=" + dump(options->scope);
        rec->calls.push_back(s);
    }
    if (rec->hook) rec->hook(rec->hookarg, HBSCTX(vm));
    if (++rec->n == rec->fault) { stat("fault.helper_throw"); handlebars_throw(HBSCTX(vm), HANDLEBARS_ERROR, "injected failure %ld", rec->n); }
    auto ret = [&](const std::string &s) { handlebars_value_str(rv, mkstr(HBSCTX(vm), s)); };
    switch (id) {
    case H_ECHO: { std::string r = "<"; for (int i = 0; i < argc; i++) r += plain(&argv[i], vm) + "|"; ret(r + ">"); break; }
    case H_NULL: break;
    case H_SAFE: ret("<b>" + (argc ? plain(&argv[0], vm) : std::string()) + "</b>"); handlebars_value_set_flag(rv, HANDLEBARS_VALUE_FLAG_SAFE_STRING); break;
    case H_FIRST: if (argc) handlebars_value_value(rv, &argv[0]); break;
    case H_BLOCK: {
        hstr *a = handlebars_vm_execute_program(vm, options->program, options->scope);
        a = handlebars_string_append(HBSCTX(vm), a, "|", 1);
        hstr *b = handlebars_vm_execute_program(vm, options->inverse, options->scope);
        a = handlebars_string_append(HBSCTX(vm), a, hbs_str_val(b), hbs_str_len(b));
        handlebars_value_str(rv, a); break; }
    case H_EACHARG: {
        hstr *a = handlebars_string_init(HBSCTX(vm), 8);
        for (int i = 0; i < argc; i++) {
            HANDLEBARS_VALUE_DECL(bp); HANDLEBARS_VALUE_DECL(ix);
            handlebars_value_array(bp, handlebars_stack_ctor(HBSCTX(vm), 2)); handlebars_value_integer(ix, i);
            handlebars_value_array_push(bp, &argv[i]); handlebars_value_array_push(bp, ix);
            hstr *b = handlebars_vm_execute_program_ex(vm, options->program, &argv[i], nullptr, bp);
            a = handlebars_string_append(HBSCTX(vm), a, hbs_str_val(b), hbs_str_len(b));
            a = handlebars_string_append(HBSCTX(vm), a, ",", 1);
            HANDLEBARS_VALUE_UNDECL(ix); HANDLEBARS_VALUE_UNDECL(bp);
        }
        handlebars_value_str(rv, a); break; }
    case H_DATA: {
        HANDLEBARS_VALUE_DECL(d); HANDLEBARS_VALUE_DECL(none);
        handlebars_value_map(d, handlebars_map_ctor(HBSCTX(vm), 2));
        handlebars_value_str(none, mkstr(HBSCTX(vm), "none"));
        handlebars_value_map_update(d, mkstr(HBSCTX(vm), "_parent"), options->data);
        handlebars_value_map_update(d, mkstr(HBSCTX(vm), "dv"), argc ? &argv[0] : none);
        handlebars_value_str(rv, handlebars_vm_execute_program_ex(vm, options->program, options->scope, d, nullptr));
        HANDLEBARS_VALUE_UNDECL(none); HANDLEBARS_VALUE_UNDECL(d); break; }
    case H_CTX: {
        std::string r = dump(options->scope);
        if (options->data) { HANDLEBARS_VALUE_DECL(t); hval *f = handlebars_value_map_str_find(options->data, "index", 5, t); if (f) r += "#" + dump(f); HANDLEBARS_VALUE_UNDECL(t); }
        ret(r); break; }
    case H_TWICE: {
        hstr *a = handlebars_vm_execute_program(vm, options->program, options->scope);
        hstr *b = handlebars_vm_execute_program(vm, options->program, argc ? &argv[0] : options->scope);
        a = handlebars_string_append(HBSCTX(vm), a, hbs_str_val(b), hbs_str_len(b));
        handlebars_value_str(rv, a); break; }
    case H_HASH: if (options->hash) handlebars_value_value(rv, options->hash); break;
    case H_ARR: {
        HANDLEBARS_VALUE_DECL(s);
        handlebars_value_array(rv, handlebars_stack_ctor(HBSCTX(vm), argc));
        for (int i = 0; i < argc; i++) handlebars_value_array_push(rv, &argv[i]);
        handlebars_value_str(s, mkstr(HBSCTX(vm), "<&>")); handlebars_value_array_push(rv, s);
        HANDLEBARS_VALUE_UNDECL(s); break; }
    case L_TEXT: case L_TWICE: case L_WRAP: case L_CONST: case L_ESC: case L_EMPTY: case L_NUM: ret(Eval::lambda_text(id, argc ? plain(&argv[0], vm) : std::string())); break;
    case 99: break;
    }
    if (text) free(text);
    return rv;
}
template <int N> static hval *helper_n(HANDLEBARS_HELPER_ARGS) { return helper_common(N, argc, argv, options, vm, rv); }
handlebars_func helper_fn(int id) {
    static const handlebars_func f[] = {helper_n<0>, helper_n<1>, helper_n<2>, helper_n<3>, helper_n<4>, helper_n<5>, helper_n<6>, helper_n<7>, helper_n<8>, helper_n<9>, helper_n<10>, nullptr, helper_n<12>, helper_n<13>, helper_n<14>, helper_n<15>, helper_n<16>, helper_n<17>, helper_n<18>};
    return id == 99 ? helper_n<99> : f[id];
}
void setup_vm(hctx *ctx, handlebars_vm *vm, const Case &c, Rec *rec, bool flags) {
    closure_vm = vm;
    if (flags) handlebars_vm_set_flags(vm, c.flags);
    handlebars_vm_set_logger(vm, helper_fn(99), rec);
    HANDLEBARS_VALUE_DECL(h); HANDLEBARS_VALUE_DECL(p); HANDLEBARS_VALUE_DECL(d); HANDLEBARS_VALUE_DECL(t);
    handlebars_value_map(h, handlebars_map_ctor(ctx, 0));
    for (auto &x : c.helpers) { handlebars_value_helper(t, helper_fn(x.second)); handlebars_value_map_update(h, mkstr(ctx, x.first), t); }
    handlebars_vm_set_helpers(vm, h);
    handlebars_value_map(p, handlebars_map_ctor(ctx, 0));
    for (auto &x : c.partials) { if (x.has_value) build_native(ctx, t, x.value); else handlebars_value_str(t, mkstr(ctx, source_of(x))); handlebars_value_map_update(p, mkstr(ctx, x.name), t); }
    handlebars_vm_set_partials(vm, p);
    if (c.has_data) build_native(ctx, d, c.data);
    handlebars_vm_set_data(vm, d);
    HANDLEBARS_VALUE_UNDECL(t); HANDLEBARS_VALUE_UNDECL(d); HANDLEBARS_VALUE_UNDECL(p); HANDLEBARS_VALUE_UNDECL(h);
}
handlebars_module *compile(hctx *ctx, const std::string &src, unsigned long flags, const std::vector<std::string> *known) {
    handlebars_parser *parser = handlebars_parser_ctor(ctx);
    hstr *text = mkstr(ctx, src);
    if (flags & handlebars_compiler_flag_compat) text = handlebars_preprocess_delimiters(ctx, text, nullptr, nullptr);
    handlebars_ast_node *ast = handlebars_parse_ex(parser, text, flags);
    handlebars_compiler *comp = handlebars_compiler_ctor(ctx);
    handlebars_compiler_set_flags(comp, flags);
    const char **names = nullptr;
    if (known && !known->empty()) { names = (const char **)talloc_zero_size(ctx, (known->size() + 1) * sizeof *names); for (size_t i = 0; i < known->size(); i++) names[i] = (*known)[i].c_str(); handlebars_compiler_set_known_helpers(comp, names); }
    handlebars_program *prog = handlebars_compiler_compile_ex(comp, ast);
    handlebars_module *m = handlebars_program_serialize(ctx, prog);
    handlebars_compiler_dtor(comp); handlebars_parser_dtor(parser);
    return m;
}
bool compare(const Result &want, const Result &got, std::string &why) {
    for (size_t i = 0; i < want.calls.size() || i < got.calls.size(); i++) {
        if (i >= got.calls.size()) { why = "call " + std::to_string(i) + " " + want.calls[i] + " was not made"; return false; }
        if (i >= want.calls.size()) { why = "extra call " + std::to_string(i) + " " + got.calls[i]; return false; }
        if (want.calls[i] != got.calls[i]) { why = "call " + std::to_string(i) + " was " + got.calls[i] + ", expected " + want.calls[i]; return false; }
    }
    if ((want.err != 0) != (got.err != 0)) { why = want.err ? "expected the error " + quote(want.msg) + " but the render succeeded with " + quote(got.out) : "unexpected error " + std::to_string(got.err) + " " + quote(got.msg) + ", expected " + quote(want.out); return false; }
    if (want.err) {
        if (want.err > 0 && want.err != got.err) { why = "error code " + std::to_string(got.err) + " (" + got.msg + "), expected " + std::to_string(want.err) + " (" + want.msg + ")"; return false; }
        if (want.check_msg && got.msg.find(want.msg.c_str()) == std::string::npos) { why = "error message " + quote(got.msg) + ", expected " + quote(want.msg); return false; }
        if (want.line >= 0 && got.line >= 0 && (want.line != got.line || (want.col >= 0 && want.col != got.col))) { why = "the error " + quote(got.msg) + " is at " + std::to_string(got.line) + ":" + std::to_string(got.col) + ", expected " + std::to_string(want.line) + ":" + std::to_string(want.col); return false; }
        return true;
    }
    if (want.out != got.out) { why = "output " + quote(got.out, 400) + ", expected " + quote(want.out, 400); return false; }
    return true;
}
}
