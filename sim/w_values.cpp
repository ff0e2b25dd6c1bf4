// World "values": histories over values that share arrays, maps, strings, user objects, pointers and closures, against a
// model with value semantics; destruction of user objects and owned pointers is exact; allocation failures inside every
// operation.
#include "hb.h"
#include <algorithm>
#include <map>
#include <set>
#include <memory>
#include <handlebars_json.h>
using namespace sim;

namespace {
enum T { NUL, TRUE_, FALSE_, INT, FLT, STR, ARR, MAP, USR, PTR, FN, CLO };
struct Node {
    T t = NUL; long i = 0; double d = 0; std::string s; bool safe = false;
    std::vector<Node> a; std::vector<std::pair<std::string, Node>> m;      // ARR / MAP; USR: content in a/m; CLO: locals in a
    bool usr_arr = false, json = false; long id = 0;      // json: a lazily converted JSON value, without identity
    bool operator==(const Node &o) const {
        if (t != o.t) return false;
        switch (t) { case INT: return i == o.i; case FLT: return d == o.d; case STR: return s == o.s && safe == o.safe; case ARR: return a == o.a; case MAP: return m == o.m;
            case USR: if (json || o.json) return json == o.json && usr_arr == o.usr_arr && a == o.a && m == o.m; return id == o.id; case PTR: return id == o.id; case CLO: return id == o.id; default: return true; }
    }
    size_t size() const { size_t n = 1; for (auto &x : a) n += x.size(); for (auto &x : m) n += x.second.size(); return n; }
    size_t depth() const { size_t n = 0; for (auto &x : a) n = std::max(n, x.depth()); for (auto &x : m) n = std::max(n, x.second.depth()); return n + 1; }
};
std::string show(const Node &n) {
    switch (n.t) {
    case NUL: return "null"; case TRUE_: return "true"; case FALSE_: return "false"; case INT: return std::to_string(n.i);
    case FLT: return std::to_string(n.d); case STR: return (n.safe ? "safe" : "") + quote(n.s, 20); case FN: return "fn";
    case PTR: return "ptr#" + std::to_string(n.id); case CLO: return "clo#" + std::to_string(n.id);
    case USR: if (!n.json) return "user#" + std::to_string(n.id);
        if (!n.usr_arr) { std::string r = "json{"; for (auto &x : n.m) r += quote(x.first, 10) + ":" + show(x.second) + " "; return r + "}"; }   // fallthrough
    case ARR: { std::string r = "["; for (auto &x : n.a) r += show(x) + " "; return r + "]"; }
    case MAP: { std::string r = "{"; for (auto &x : n.m) r += quote(x.first, 10) + ":" + show(x.second) + " "; return r + "}"; }
    }
    return "?";
}
void ids(const Node &n, std::set<long> &s) {
    if ((n.t == USR && !n.json) || n.t == PTR || n.t == CLO) s.insert(n.id);
    if (n.t == USR) return;                      // a user object's children are made on access
    for (auto &x : n.a) ids(x, s);
    for (auto &x : n.m) ids(x.second, s);
}
bool has_json(const Node &n) {
    if (n.t == USR) return n.json;
    for (auto &x : n.a) if (has_json(x)) return true;
    for (auto &x : n.m) if (has_json(x.second)) return true;
    return false;
}
std::string json(const Node &n) {
    switch (n.t) {
    case TRUE_: return "true"; case FALSE_: return "false"; case INT: return std::to_string(n.i); case STR: { std::string r = "\""; for (char ch : n.s) if (ch) r += ch; else r += "\\u0000"; return r + "\""; }
    case FLT: { char b[64]; snprintf(b, sizeof b, "%.4f", n.d); return b; }
    case USR: { std::string r; if (n.usr_arr) for (auto &x : n.a) r += (r.empty() ? "" : ",") + json(x); else for (auto &x : n.m) r += (r.empty() ? "\"" : ",\"") + x.first + "\":" + json(x.second);
        return n.usr_arr ? "[" + r + "]" : "{" + r + "}"; }
    default: return "null";
    }
}
std::map<long, int> alive;                       // tracked objects: 1 alive, 0 destroyed
struct Uobj { handlebars_user user; Node *n; };
struct Pobj { long id; };
const handlebars_value_handlers &handlers();
Uobj *uo(hval *v) { Uobj *o = (Uobj *)handlebars_value_get_user(v); if (!o->n) violation("use-after-destroy", "a destroyed user object was accessed"); return o; }

void build(hctx *c, hval *out, const Node &n);
void u_dtor(handlebars_user *u) {
    Uobj *o = (Uobj *)u;
    if (!o->n || alive[o->n->id] != 1) violation("double-destroy", "the destructor of a user object ran twice");
    alive[o->n->id] = 0; delete o->n; o->n = nullptr;
}
enum handlebars_value_type u_type(hval *v) { return uo(v)->n->usr_arr ? HANDLEBARS_VALUE_TYPE_ARRAY : HANDLEBARS_VALUE_TYPE_MAP; }
hval *u_map_find(hval *v, hstr *k, hval *rv) { Node n = *uo(v)->n; hctx *c = uo(v)->user.ctx; std::string key = S(k); for (auto &p : n.m) if (p.first == key) { build(c, rv, p.second); return rv; } return nullptr; }
hval *u_arr_find(hval *v, size_t i, hval *rv) { Node n = *uo(v)->n; hctx *c = uo(v)->user.ctx; if (i >= n.a.size()) return nullptr; build(c, rv, n.a[i]); return rv; }
bool u_next(handlebars_value_iterator *it) {
    Uobj *o = uo(it->value); size_t n = o->n->usr_arr ? o->n->a.size() : o->n->m.size();
    if (it->key) { handlebars_string_delref(it->key); it->key = nullptr; }
    if (++it->index >= n) { handlebars_value_dtor(it->cur); return false; }
    if (o->n->usr_arr) build(o->user.ctx, it->cur, o->n->a[it->index]);
    else { it->key = mkstr(o->user.ctx, o->n->m[it->index].first); handlebars_string_addref(it->key); build(o->user.ctx, it->cur, o->n->m[it->index].second); }
    return true;
}
bool u_iter(handlebars_value_iterator *it, hval *v) {
    it->value = v; it->next = u_next; it->index = (size_t)-1; it->key = nullptr;
    return u_next(it);
}
long u_count(hval *v) { Uobj *o = uo(v); return o->n->usr_arr ? (long)o->n->a.size() : (long)o->n->m.size(); }
void u_convert(hval *v, bool rec) { Node n = *uo(v)->n; hctx *c = uo(v)->user.ctx; n.t = n.usr_arr ? ARR : MAP; build(c, v, n); if (rec) handlebars_value_convert_ex(v, rec); }
const handlebars_value_handlers &handlers() { static const handlebars_value_handlers h = {"tracked", nullptr, u_dtor, u_convert, u_type, u_map_find, u_arr_find, u_iter, nullptr, u_count}; return h; }
int p_dtor(Pobj *p) { if (alive[p->id] != 1) violation("double-destroy", "an owned pointer was released twice"); alive[p->id] = 0; return 0; }
hval *fn_helper(HANDLEBARS_HELPER_ARGS) { (void)argc; (void)argv; (void)options; (void)vm; return rv; }
hval *clo_fn(int localc, hval *localv, int argc, hval *argv, handlebars_options *options, handlebars_vm *vm, hval *rv) {
    (void)argc; (void)argv; (void)options; (void)vm;
    if (localc == 3) handlebars_value_value(rv, HANDLEBARS_ARG_AT_EX(localc, localv, handlebars_value_get_intval(HANDLEBARS_ARG_AT_EX(localc, localv, 1)) % 2 ? 0 : 2)); else handlebars_value_integer(rv, 4242);
    return rv;
}
handlebars_vm *the_vm;
void build(hctx *c, hval *out, const Node &n) {
    switch (n.t) {
    case NUL: handlebars_value_null(out); break;
    case TRUE_: handlebars_value_boolean(out, true); break;
    case FALSE_: handlebars_value_boolean(out, false); break;
    case INT: handlebars_value_integer(out, n.i); break;
    case FLT: handlebars_value_float(out, n.d); break;
    case STR: handlebars_value_str(out, mkstr(c, n.s)); if (n.safe) handlebars_value_set_flag(out, HANDLEBARS_VALUE_FLAG_SAFE_STRING); break;
    case FN: handlebars_value_helper(out, fn_helper); break;
    case ARR: { handlebars_value_array(out, handlebars_stack_ctor(c, n.a.size())); HANDLEBARS_VALUE_DECL(ch); for (auto &x : n.a) { build(c, ch, x); handlebars_value_array_push(out, ch); } HANDLEBARS_VALUE_UNDECL(ch); break; }
    case MAP: { handlebars_value_map(out, handlebars_map_ctor(c, n.m.size())); HANDLEBARS_VALUE_DECL(ch); for (auto &x : n.m) { build(c, ch, x.second); hstr *k = mkstr(c, x.first); handlebars_string_addref(k); handlebars_value_map_update(out, k, ch); handlebars_string_delref(k); } HANDLEBARS_VALUE_UNDECL(ch); break; }
    case USR: if (n.json) { handlebars_value_init_json_string(c, out, json(n).c_str()); break; }
        { Uobj *o = talloc_zero(c, Uobj); handlebars_user_init(&o->user, c, &handlers()); o->n = new Node(n); alive[n.id] = 1; handlebars_value_user(out, &o->user); break; }
    case PTR: { Pobj *p = talloc_zero(c, Pobj); p->id = n.id; alive[n.id] = 1; talloc_set_destructor(p, p_dtor); handlebars_value_ptr(out, handlebars_ptr_ctor_ex(c, "Pobj", p, false)); break; }
    case CLO: broken("closure is not built here");
    }
}
Node read(hval *v, int depth = 0) {
    Node n;
    if (depth > 60) violation("value-cycle", "a value contains itself");
    switch (handlebars_value_get_real_type(v)) {
    case HANDLEBARS_VALUE_TYPE_NULL: n.t = NUL; break;
    case HANDLEBARS_VALUE_TYPE_TRUE: n.t = TRUE_; break;
    case HANDLEBARS_VALUE_TYPE_FALSE: n.t = FALSE_; break;
    case HANDLEBARS_VALUE_TYPE_INTEGER: n.t = INT; n.i = handlebars_value_get_intval(v); break;
    case HANDLEBARS_VALUE_TYPE_FLOAT: n.t = FLT; n.d = handlebars_value_get_floatval(v); break;
    case HANDLEBARS_VALUE_TYPE_STRING: n.t = STR; n.s = std::string(handlebars_value_get_strval(v), handlebars_value_get_strlen(v)); n.safe = handlebars_value_get_flags(v) & HANDLEBARS_VALUE_FLAG_SAFE_STRING; break;
    case HANDLEBARS_VALUE_TYPE_HELPER: n.t = FN; break;
    case HANDLEBARS_VALUE_TYPE_ARRAY: { n.t = ARR; handlebars_stack *s = handlebars_value_get_stack(v); for (size_t i = 0; i < handlebars_stack_count(s); i++) n.a.push_back(read(handlebars_stack_get(s, i), depth + 1)); break; }
    case HANDLEBARS_VALUE_TYPE_MAP: { n.t = MAP; handlebars_map *m = handlebars_value_get_map(v); handlebars_map_foreach(m, i, k, x) { n.m.push_back({S(k), read(x, depth + 1)}); } handlebars_map_foreach_end(m); break; }
    case HANDLEBARS_VALUE_TYPE_USER: n.t = USR;
        if (handlebars_value_get_handlers(v) != &handlers()) {
            n.json = true; n.usr_arr = handlebars_value_get_type(v) == HANDLEBARS_VALUE_TYPE_ARRAY;
            HANDLEBARS_VALUE_FOREACH_IDX_KV(v, i, k, x) { if (n.usr_arr) n.a.push_back(read(x, depth + 1)); else n.m.push_back({S(k), read(x, depth + 1)}); } HANDLEBARS_VALUE_FOREACH_END();
            break;
        }
        n.id = uo(v)->n->id; break;
    case HANDLEBARS_VALUE_TYPE_PTR: n.t = PTR; n.id = ((Pobj *)handlebars_value_get_ptr_ex(v, depth % 2 ? "Pobj" : std::string("Pobj").c_str()))->id; break;
    case HANDLEBARS_VALUE_TYPE_CLOSURE: { n.t = CLO; HANDLEBARS_VALUE_DECL(rv); handlebars_options o; memset(&o, 0, sizeof o); (void)o;
        // the middle local is an integer identifying the closure; the call hands out the first or the last
        hval *r = handlebars_closure_call(handlebars_value_get_closure(v), 0, nullptr, &o, the_vm, rv); (void)r;
        n.a.push_back(read(rv, depth + 1)); HANDLEBARS_VALUE_UNDECL(rv); break; }
    default: violation("value-type", "unknown value type");
    }
    return n;
}
bool same(const Node &want, const Node &got) {               // closures are compared by what they return
    if (want.t == CLO && got.t == CLO) return same(want.a[0], got.a[0]);
    if (want.t != got.t) return false;
    if (want.t == ARR) { if (want.a.size() != got.a.size()) return false; for (size_t i = 0; i < want.a.size(); i++) if (!same(want.a[i], got.a[i])) return false; return true; }
    if (want.t == MAP) { if (want.m.size() != got.m.size()) return false; for (size_t i = 0; i < want.m.size(); i++) if (want.m[i].first != got.m[i].first || !same(want.m[i].second, got.m[i].second)) return false; return true; }
    return want == got;
}
std::string expr(const Node &n, bool esc) {
    switch (n.t) {
    case TRUE_: return "true"; case FALSE_: return "false"; case INT: return std::to_string(n.i);
    case FLT: { char b[64]; snprintf(b, sizeof b, "%g", n.d); return b; }
    case STR: { if (!esc || n.safe) return n.s; std::string r; for (char c : n.s) switch (c) { case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#x27;"; break; case '<': r += "&lt;"; break; case '>': r += "&gt;"; break; case '`': r += "&#x60;"; break; default: r += c; } return r; }
    case USR: if (!n.usr_arr) return "";   // fallthrough
    case ARR: { std::string r; bool f = true; for (auto &x : n.a) { if (!f) r += ","; r += expr(x, esc); f = false; } return r; }
    default: return "";
    }
}
std::string dump(const Node &n, size_t depth) {
    char b[64]; auto ind = [](size_t d) { return std::string(std::min<size_t>(d * 4, 0x7f), ' '); };
    bool map = n.t == MAP || (n.t == USR && !n.usr_arr), arr = n.t == ARR || (n.t == USR && n.usr_arr);
    if (map || arr) {
        std::string r = map ? "{" : "["; size_t c = map ? n.m.size() : n.a.size();
        if (c) r += "\n";
        for (size_t i = 0; i < c; i++) r += ind(depth + 1) + (map ? n.m[i].first : std::to_string(i)) + " => " + dump(map ? n.m[i].second : n.a[i], depth + 1) + "\n";
        if (c) r += ind(depth);
        return r + (map ? "}" : "]");
    }
    switch (n.t) {
    case NUL: return "NULL"; case TRUE_: return "boolean(true)"; case FALSE_: return "boolean(false)"; case INT: return "integer(" + std::to_string(n.i) + ")";
    case FLT: snprintf(b, sizeof b, "float(%g)", n.d); return b; case STR: return "string(" + n.s.substr(0, n.s.find('\0')) + ")";      // the text is a C string
    default: return "*";             // functions and pointers: the text is not specified
    }
}
bool text_known(const Node &n) { if (n.t >= PTR) return false; for (auto &x : n.a) if (!text_known(x)) return false; for (auto &x : n.m) if (!text_known(x.second)) return false; return true; }
bool truthy(const Node &n) {
    switch (n.t) { case TRUE_: return true; case INT: return n.i != 0; case FLT: return n.d != 0; case STR: return !n.s.empty() && n.s != "0"; case ARR: return !n.a.empty(); case MAP: return !n.m.empty(); case USR: return n.usr_arr ? !n.a.empty() : !n.m.empty(); default: return false; }
}
Node converted(const Node &n) {
    Node r = n;
    if (r.t == USR) { r.t = r.usr_arr ? ARR : MAP; r.id = 0; }
    if (r.t == ARR || r.t == MAP) { for (auto &x : r.a) x = converted(x); for (auto &x : r.m) x.second = converted(x.second); }
    return r;
}
const char *KEYS[] = {"a", "b", "c", "qahvjo", "wjyhay", "", "k1", "k2", "k3", "k4"};
long next_id;
Node scalar() {
    Node n;
    switch (choose(8, "scalar")) {
    case 0: n.t = NUL; break; case 1: n.t = TRUE_; break; case 2: n.t = FALSE_; break; case 3: n.t = INT; n.i = (long)choose(5, "int") - 1; break;
    case 4: n.t = FLT; n.d = (double)choose(5, "flt") / 4; break; case 5: n.t = FN; break;
    default: { n.t = STR; static const std::vector<std::string> v = {"", "0", std::string("0\0x", 3), "x", "<b>&", "long long long string", "a'b"}; n.s = pick(v, "str"); n.safe = chance(1, 4, "safe"); }
    }
    return n;
}
Node json_node(int depth) {
    Node n; n.t = USR; n.json = true; n.usr_arr = chance(1, 2, "json array");
    size_t k = choose(4, "json size");
    for (size_t i = 0; i < k; i++) {
        Node c;
        if (depth < 3 && chance(1, 3, "json nest")) c = json_node(depth + 1);
        else { c = scalar(); c.safe = false; if (c.t == FN) c.t = NUL; }
        if (n.usr_arr) n.a.push_back(c); else n.m.push_back({KEYS[i], c});
    }
    return n;
}
Node user_node() {
    Node n; n.t = USR; n.id = ++next_id; n.usr_arr = chance(1, 2, "user array");
    size_t k = choose(3, "user size");
    for (size_t i = 0; i < k; i++) if (n.usr_arr) n.a.push_back(scalar()); else n.m.push_back({KEYS[i], scalar()});
    return n;
}
}

struct OtherProperty {};
#define CONTENT(cond, klass, ...) do { if (!(cond)) { if (life) { stat("sim.stopped_by_other_property"); throw OtherProperty(); } violation(klass, __VA_ARGS__); } } while (0)
#define LIFE(cond, klass, ...) do { if (!(cond)) { if (!life) { stat("sim.stopped_by_other_property"); throw OtherProperty(); } violation(klass, __VA_ARGS__); } } while (0)

// focus=life judges destruction (C06), otherwise content is judged (C04)
static void values_run(hctx *ctx, bool life) {
    handlebars_vm *vm = handlebars_vm_ctor(ctx); the_vm = vm;
    size_t blocks0 = talloc_total_blocks(ctx); long lib0 = lib_blocks;
    alive.clear(); next_id = 0;
    bool faults = chance(1, 2, "faults on"), lossy = false;
    enum { N = 5 };
    HANDLEBARS_VALUE_ARRAY_DECL(slots, N);
    Node model[N];
    auto SL = [&](size_t i) { return HANDLEBARS_VALUE_ARRAY_AT(slots, i); };
    for (int n = 0; n < 140; n++) {
        Span sp;
        if (!chance(110, 111, "more")) break;
        step();
        size_t x = choose(N, "x"), y = choose(N, "y"), idx = choose(5, "idx");
        std::string key = KEYS[choose(sizeof KEYS / sizeof *KEYS, "key")];
        uint64_t op = choose(32, "op");
        Node &mx = model[x], &my = model[y];
        Node before = mx, after = mx; const char *name = "?"; int rc = 0; bool expect_throw = false, skip = false;
        hval *vx = SL(x), *vy = SL(y);
        hstr *k = mkstr(ctx, key); handlebars_string_addref(k);
        long failat = faults && chance(2, 5, "fault?") ? 1 + (long)choose(3, "fail at") : -1;
        bool big = mx.size() + my.size() > 150 || mx.depth() + my.depth() > 20;
        auto mfind = [&](Node &n, const std::string &kk) { return std::find_if(n.m.begin(), n.m.end(), [&](auto &p) { return p.first == kk; }); };
        switch (op) {
        case 0: case 1: name = "set scalar"; after = scalar(); build(ctx, vx, after); break;
        case 2: name = "new array"; { Node e; e.t = ARR; after = e; handlebars_stack *s = handlebars_stack_ctor(ctx, idx);
                if (chance(1, 3, "floating push")) { for (size_t i = 0; i < idx + 3; i++) { HANDLEBARS_VALUE_DECL(t); handlebars_value_integer(t, (long)i); s = handlebars_stack_push(s, t); HANDLEBARS_VALUE_UNDECL(t); Node c; c.t = INT; c.i = (long)i; after.a.push_back(c); } stat("probe.floating_stack_grown"); }
                handlebars_value_array(vx, s); } break;
        case 30: name = "protect"; skip = true; {
                // elements below the protection can neither be popped nor set; the others can
                handlebars_stack *s = handlebars_stack_ctor(ctx, 4); handlebars_stack_addref(s);
                HANDLEBARS_VALUE_DECL(t); HANDLEBARS_VALUE_DECL(rv);
                size_t total = 1 + choose(6, "total"), prot = choose(total + 1, "protected");
                for (size_t i = 0; i < total; i++) { handlebars_value_integer(t, (long)i); s = handlebars_stack_push(s, t); }
                CONTENT(handlebars_stack_protect(s, prot) == 0, "stack-protect", "the previous protection is wrong");
                for (size_t i = 0; i < total; i++) if (i == idx || i + 1 == prot || i == prot) {
                    handlebars_value_integer(t, 100 + (long)i);
                    int e = hb_try(ctx, [&] { s = handlebars_stack_set(s, i, t); });
                    if (e) { blocks0++; hb_clear(ctx); }
                    CONTENT(e == (i < prot ? HANDLEBARS_STACK_OVERFLOW : 0), "stack-protect", "setting element %zu with %zu protected gives %d", i, prot, e);
                    handlebars_value_integer(t, (long)i); size_t o = handlebars_stack_protect(s, 0); s = handlebars_stack_set(s, i, t); handlebars_stack_protect(s, o);
                }
                for (size_t i = total; i-- > prot;) { hval *r = handlebars_stack_pop(s, rv); CONTENT(r && handlebars_value_get_intval(r) == (long)i && handlebars_stack_count(s) == i, "stack-protect", "pop of element %zu with %zu protected fails", i, prot); }
                if (prot) { int e = hb_try(ctx, [&] { handlebars_stack_pop(s, rv); }); if (e) { blocks0++; hb_clear(ctx); } CONTENT(e == HANDLEBARS_STACK_OVERFLOW && handlebars_stack_count(s) == prot, "stack-protect", "pop of a protected element gives %d and leaves %zu of %zu", e, handlebars_stack_count(s), prot); }
                struct handlebars_stack_save_buf sb = handlebars_stack_save(s);
                for (size_t i = 0; i < idx; i++) s = handlebars_stack_push(s, t);
                handlebars_stack_restore(s, sb);
                CONTENT(handlebars_stack_count(s) == prot && handlebars_stack_protect(s, 0) == prot, "stack-protect", "restoring a saved stack leaves %zu elements, expected %zu", handlebars_stack_count(s), prot);
                handlebars_stack_truncate(s, prot / 2);
                CONTENT(handlebars_stack_count(s) == prot / 2, "stack-protect", "truncating a stack leaves %zu elements, expected %zu", handlebars_stack_count(s), prot / 2);
                HANDLEBARS_VALUE_UNDECL(rv); HANDLEBARS_VALUE_UNDECL(t);
                handlebars_stack_delref(s); stat("probe.stack_protection");
            } break;
        case 3: name = "new map"; { Node e; e.t = MAP; after = e; handlebars_map *m = handlebars_map_ctor(ctx, idx);
                if (chance(1, 3, "floating update")) for (size_t i = 0; i < 6; i++) { HANDLEBARS_VALUE_DECL(t); handlebars_value_integer(t, (long)i); m = handlebars_map_str_update(m, KEYS[i], strlen(KEYS[i]), t); HANDLEBARS_VALUE_UNDECL(t); Node c; c.t = INT; c.i = (long)i; after.m.push_back({KEYS[i], c}); }
                handlebars_value_map(vx, m); } break;
        case 4: name = "new user"; after = chance(1, 3, "json") ? json_node(0) : user_node(); build(ctx, vx, after); break;
        case 5: name = "new ptr"; after = Node(); after.t = PTR; after.id = ++next_id; build(ctx, vx, after); break;
        case 6: name = "new closure"; if (my.size() > 40 || my.depth() > 6) { skip = true; break; }
            { HANDLEBARS_VALUE_ARRAY_DECL(loc, 3); handlebars_value_integer(HANDLEBARS_VALUE_ARRAY_AT(loc, 1), ++next_id); handlebars_value_value(HANDLEBARS_VALUE_ARRAY_AT(loc, 0), vy); handlebars_value_value(HANDLEBARS_VALUE_ARRAY_AT(loc, 2), vy);
              handlebars_closure *volatile c = nullptr;
              alloc_arm(failat);
              rc = hb_try(ctx, [&] { c = handlebars_closure_ctor(vm, clo_fn, 3, loc); });
              alloc.armed = false;
              Node e; e.t = CLO; e.a.push_back(my);
              if (!rc) { handlebars_value_closure(vx, c); after = e; }
              HANDLEBARS_VALUE_ARRAY_UNDECL(loc, 3); } break;
        case 7: case 8: case 9: name = "assign"; handlebars_value_value(vx, vy); after = my; break;
        case 10: case 11: case 12: case 13: name = "array_push"; if (mx.t != ARR || big) { skip = true; break; }
            alloc_arm(failat); rc = hb_try(ctx, [&] { handlebars_value_array_push(vx, vy); }); after.a.push_back(my); break;
        case 14: case 15: name = "array_set"; if (mx.t != ARR || big) { skip = true; break; }
            expect_throw = idx > mx.a.size();
            alloc_arm(failat); rc = hb_try(ctx, [&] { handlebars_value_array_set(vx, idx, vy); });
            if (!expect_throw) { if (idx == mx.a.size()) after.a.push_back(my); else { Node c = my; after.a[idx] = c; } } break;
        case 16: name = "push own element"; if (mx.t != ARR || mx.a.empty() || mx.size() > 150) { skip = true; break; }
            { size_t j = idx % mx.a.size(); alloc_arm(failat); rc = hb_try(ctx, [&] { handlebars_value_array_push(vx, handlebars_stack_get(handlebars_value_get_stack(vx), j)); }); Node c = mx.a[j]; after.a.push_back(c); } break;
        case 17: name = "set own element"; if (mx.t != ARR || mx.a.size() < 2 || mx.size() > 150) { skip = true; break; }
            { size_t j = idx % mx.a.size(), q = (idx + 1) % mx.a.size(); alloc_arm(failat); rc = hb_try(ctx, [&] { handlebars_value_array_set(vx, q, handlebars_stack_get(handlebars_value_get_stack(vx), j)); }); Node c = mx.a[j]; after.a[q] = c; } break;
        case 18: name = "pop"; if (mx.t != ARR) { skip = true; break; }
            { HANDLEBARS_VALUE_DECL(rv); hval *volatile r = nullptr; Node want = mx.a.empty() ? Node() : mx.a.back();
              alloc_arm(failat); rc = hb_try(ctx, [&] { r = handlebars_stack_pop(handlebars_value_get_stack(vx), rv); }); alloc.armed = false;
              if (rc == HANDLEBARS_ERROR) { rc = 0; blocks0++; hb_clear(ctx); stat("probe.pop_of_shared_array_refused"); }       // shared arrays refuse to pop
              else if (!rc) { CONTENT((r != nullptr) == !mx.a.empty(), "array-pop", "pop of an array with %zu elements %s", mx.a.size(), r ? "gives a value" : "gives nothing");
                  if (r) { Node g = read(rv); CONTENT(same(want, g), "array-pop", "pop gives %s, expected %s", show(g).c_str(), show(want).c_str()); after.a.pop_back(); } }
              HANDLEBARS_VALUE_UNDECL(rv); } break;
        case 19: case 20: case 21: name = "map_update"; if (mx.t != MAP || big) { skip = true; break; }
            alloc_arm(failat); rc = hb_try(ctx, [&] { handlebars_value_map_update(vx, k, vy); });
            { Node c = my; auto it = mfind(after, key); if (it != after.m.end()) it->second = c; else after.m.push_back({key, c}); } break;
        case 22: name = "map_update with own entry"; if (mx.t != MAP || mx.m.empty() || mx.size() > 150) { skip = true; break; }
            { size_t j = idx % mx.m.size(); std::string src = mx.m[j].first; hval *f = handlebars_map_str_find(handlebars_value_get_map(vx), src.data(), src.size());
              CONTENT(f, "map-find", "key %s is gone", quote(src).c_str());
              alloc_arm(failat); rc = hb_try(ctx, [&] { handlebars_value_map_update(vx, k, f); });
              Node c = mx.m[j].second; auto it = mfind(after, key); if (it != after.m.end()) it->second = c; else after.m.push_back({key, c}); } break;
        case 23: name = "map_remove"; if (mx.t != MAP) { skip = true; break; }
            alloc_arm(failat); rc = hb_try(ctx, [&] { vx->v.map = handlebars_map_remove(vx->v.map, k); });
            { auto it = mfind(after, key); if (it != after.m.end()) after.m.erase(it); } break;
        case 24: name = "array_find"; { bool own = chance(1, 4, "into itself"); HANDLEBARS_VALUE_DECL(rv); hval *volatile r = nullptr; hval *dst = own ? vx : (hval *)rv;
            const std::vector<Node> *els = mx.t == ARR || (mx.t == USR && mx.usr_arr) ? &mx.a : nullptr; bool hit = els && idx < els->size(); Node want = hit ? (*els)[idx] : Node();
            if (mx.t == USR) own = false, dst = rv;
            alloc_arm(mx.t == USR ? -1 : failat); rc = hb_try(ctx, [&] { r = handlebars_value_array_find(vx, idx, dst); }); alloc.armed = false;
            if (!rc) { CONTENT((r != nullptr) == hit, "array-find", "index %zu of %s: %s", idx, show(before).c_str(), r ? "found" : "absent");
              if (hit) { Node g = read(r); CONTENT(same(want, g), "array-find", "index %zu of %s gives %s", idx, show(before).c_str(), show(g).c_str()); if (own) after = want; } }
            HANDLEBARS_VALUE_UNDECL(rv); } break;
        case 25: name = "map_find"; { bool own = chance(1, 4, "into itself"), viastr = chance(1, 2, "str"); HANDLEBARS_VALUE_DECL(rv); hval *volatile r = nullptr; hval *dst = own ? vx : (hval *)rv;
            Node *hitn = nullptr; if (mx.t == MAP || (mx.t == USR && !mx.usr_arr)) { auto it = mfind(mx, key); if (it != mx.m.end()) hitn = &it->second; } Node want = hitn ? *hitn : Node(); bool hit = hitn;
            if (mx.t == USR) own = false, dst = rv;
            alloc_arm(mx.t == USR ? -1 : failat); rc = hb_try(ctx, [&] { r = viastr ? handlebars_value_map_str_find(vx, key.data(), key.size(), dst) : handlebars_value_map_find(vx, k, dst); }); alloc.armed = false;
            if (!rc) { CONTENT((r != nullptr) == hit, "map-find", "key %s of %s: %s", quote(key).c_str(), show(before).c_str(), r ? "found" : "absent");
              if (hit) { Node g = read(r); CONTENT(same(want, g), "map-find", "key %s of %s gives %s", quote(key).c_str(), show(before).c_str(), show(g).c_str()); if (own) after = want; } }
            HANDLEBARS_VALUE_UNDECL(rv); } break;
        case 26: name = "convert"; if (mx.size() > 100) { skip = true; break; } { rc = hb_try(ctx, [&] { handlebars_value_convert(vx); }); after = converted(mx); } break;
        case 27: name = "update while iterating"; if (mx.t != MAP || mx.size() > 60) { skip = true; break; }
            { std::vector<std::string> seen; long c = 0; bool grow = chance(1, 2, "grow");
              HANDLEBARS_VALUE_FOREACH_KV(vx, kk, vv) {
                  seen.push_back(S(kk)); HANDLEBARS_VALUE_DECL(t); handlebars_value_integer(t, 100 + c++); handlebars_value_map_update(vx, kk, t);
                  if (grow) { std::string nk = "new" + std::to_string(c); hstr *ns = mkstr(ctx, nk); handlebars_string_addref(ns); handlebars_value_map_update(vx, ns, t); handlebars_string_delref(ns); }
                  HANDLEBARS_VALUE_UNDECL(t); (void)vv;
              } HANDLEBARS_VALUE_FOREACH_END();
              std::vector<std::string> want; c = 0;
              for (auto &p : before.m) { want.push_back(p.first); Node t; t.t = INT; t.i = 100 + c++; mfind(after, p.first)->second = t;
                  if (grow) { std::string nk = "new" + std::to_string(c); auto it = mfind(after, nk); if (it != after.m.end()) it->second = t; else after.m.push_back({nk, t}); } }
              CONTENT(seen == want, "map-iterate", "an iteration whose body updates the map visited %zu entries, expected %zu", seen.size(), want.size());
            } break;
        case 31: name = "set to a part of itself"; {
                // the value, an element of it, or an element of an element; by handlebars_value_value or the type's own setter
                hval *h = vx; const Node *nd = &mx; size_t depth = choose(3, "depth");
                for (size_t d = 0; d < depth; d++) {
                    if (nd->t == ARR && !nd->a.empty()) { size_t j = choose(nd->a.size(), "element"); h = handlebars_stack_get(handlebars_value_get_stack(h), j); nd = &nd->a[j]; }
                    else if (nd->t == MAP && !nd->m.empty()) { size_t j = choose(nd->m.size(), "entry"); h = handlebars_map_str_find(handlebars_value_get_map(h), nd->m[j].first.data(), nd->m[j].first.size()); nd = &nd->m[j].second; }
                    else break;
                    CONTENT(h, "value-content", "an element of %s is gone", show(mx).c_str());
                }
                Node keep = *nd; bool own = chance(2, 3, "own setter");
                if (!own) handlebars_value_value(vx, h);
                else switch (handlebars_value_get_real_type(h)) {
                case HANDLEBARS_VALUE_TYPE_ARRAY: handlebars_value_array(vx, handlebars_value_get_stack(h)); break;
                case HANDLEBARS_VALUE_TYPE_MAP: handlebars_value_map(vx, handlebars_value_get_map(h)); break;
                case HANDLEBARS_VALUE_TYPE_STRING: handlebars_value_str(vx, handlebars_value_get_string(h)); keep.safe = false; break;      // the mark belongs to the value
                case HANDLEBARS_VALUE_TYPE_USER: handlebars_value_user(vx, handlebars_value_get_user(h)); break;
                case HANDLEBARS_VALUE_TYPE_PTR: handlebars_value_ptr(vx, h->v.ptr); break;
                case HANDLEBARS_VALUE_TYPE_CLOSURE: handlebars_value_closure(vx, handlebars_value_get_closure(h)); break;
                case HANDLEBARS_VALUE_TYPE_INTEGER: handlebars_value_integer(vx, handlebars_value_get_intval(h)); break;
                case HANDLEBARS_VALUE_TYPE_FLOAT: handlebars_value_float(vx, handlebars_value_get_floatval(h)); break;
                case HANDLEBARS_VALUE_TYPE_TRUE: case HANDLEBARS_VALUE_TYPE_FALSE: handlebars_value_boolean(vx, handlebars_value_get_boolval(h)); break;
                default: handlebars_value_value(vx, h);
                }
                after = keep; stat("probe.value_set_to_own_part");
            } break;
        case 28: name = "drop"; handlebars_value_null(vx); after = Node(); break;
        case 29: name = "query"; {
            bool esc = idx % 2; hstr *volatile e = nullptr; char *volatile d = nullptr;
            CONTENT(handlebars_value_get_boolval(vx) == truthy(mx) && handlebars_value_is_empty(vx) == !truthy(mx), "value-query", "truth of %s is wrong", show(mx).c_str());
            long cnt = mx.t == ARR || (mx.t == USR && mx.usr_arr) ? (long)mx.a.size() : mx.t == MAP || mx.t == USR ? (long)mx.m.size() : -1;
            CONTENT(handlebars_value_count(vx) == cnt, "value-query", "count of %s is %ld", show(mx).c_str(), handlebars_value_count(vx));
            bool self_scalar = mx.t <= STR;
            CONTENT(handlebars_value_is_scalar(vx) == self_scalar, "value-query", "%s is%s called a scalar", show(mx).c_str(), self_scalar ? " not" : "");
            if (self_scalar || mx.t != my.t) CONTENT(handlebars_value_eq(vx, vy) == (mx.t == my.t && (mx.t == STR ? mx.s == my.s : mx == my)), "value-query", "comparing %s and %s is wrong", show(mx).c_str(), show(my).c_str());
            Node it; size_t c = 0;
            HANDLEBARS_VALUE_FOREACH_IDX_KV(vx, ii, kk, vv) { Node g = read(vv); const Node &w = mx.t == ARR || mx.usr_arr ? mx.a.at(c) : mx.m.at(c).second; CONTENT(same(w, g) && (ii == c || mx.json) && (!kk || S(kk) == mx.m.at(c).first), "value-iterate", "element %zu of %s is visited as %zu: %s", c, show(mx).c_str(), ii, show(g).c_str()); c++; } HANDLEBARS_VALUE_FOREACH_END();
            CONTENT((long)c == std::max<long>(cnt, 0), "value-iterate", "iterating %s visits %zu elements", show(mx).c_str(), c);
            bool has_user = false; { std::set<long> s; ids(mx, s); has_user = !s.empty(); }
            alloc_arm(has_user ? -1 : failat);
            rc = hb_try(ctx, [&] { e = handlebars_value_expression(ctx, vx, esc); });
            if (!rc) { handlebars_string_addref(e); CONTENT(S(e) == expr(mx, esc), "value-expression", "text of %s is %s, expected %s", show(mx).c_str(), quote(S(e)).c_str(), quote(expr(mx, esc)).c_str()); handlebars_string_delref(e); }
            if (!rc) rc = hb_try(ctx, [&] { d = handlebars_value_dump(vx, ctx, idx == 4 ? 40 : 0); });
            if (!rc) { std::string got = d; CONTENT(!text_known(mx) || got == dump(mx, idx == 4 ? 40 : 0), "value-dump", "dump of %s is %s, expected %s", show(mx).c_str(), quote(got, 300).c_str(), quote(dump(mx, idx == 4 ? 40 : 0), 300).c_str()); talloc_free(d); }
            if (!rc) { rc = hb_try(ctx, [&] { e = handlebars_value_to_string(vx, ctx); }); alloc.armed = false; if (!rc) { handlebars_string_addref(e); if (mx.t == STR) handlebars_string_delref(e); std::string w = mx.t == STR ? mx.s : mx.t < STR ? expr(mx, false) : ""; CONTENT(S(e) == w, "value-to-string", "%s as string is %s", show(mx).c_str(), quote(S(e)).c_str()); handlebars_string_delref(e); } }
            } break;
        }
        long fired = alloc.fired;
        alloc_disarm(); alloc.fired = 0;
        if (!skip) log("%zu:%s(%zu,%zu,%s) fail=%ld -> rc=%d fired=%ld", x, name, y, idx, key.c_str(), failat, rc, fired);
        sig(op * 31 + (rc ? 3 : 0) + mx.t * 131 + my.t * 1009 + (skip ? 7 : 0));
        handlebars_string_delref(k);
        if (fired) lossy = true;
        if (rc) {
            CONTENT(fired || expect_throw, "value-spurious-error", "%s failed with %d (%s) although nothing was injected; value %s", name, rc, handlebars_error_msg(ctx), show(before).c_str());
            if (fired && !expect_throw) CONTENT(rc == HANDLEBARS_NOMEM, "value-wrong-error", "%s under allocation failure reported %d, not out of memory", name, rc);
            if (expect_throw && !fired) blocks0++;      // the error message stays in the context
            hb_clear(ctx); stat("probe.value_op_failed"); nontrivial();
        } else {
            CONTENT(!expect_throw, "array-bounds", "setting element %zu of %s succeeded", idx, show(before).c_str());
            if (!skip) mx = after;
        }
        // every slot shows exactly its own value
        std::set<long> live;
        for (size_t i = 0; i < N; i++) {
            Node g = read(SL(i));
            CONTENT(same(model[i], g), "value-content", "after %s on slot %zu, slot %zu shows %s, expected %s", name, x, i, show(g).c_str(), show(model[i]).c_str());
            ids(model[i], live);
        }
        bool js = false; for (size_t i = 0; i < N; i++) js = js || has_json(model[i]);
        if (!js && !lossy) LIFE(lib_blocks == lib0, "late-destroy", "after %s on slot %zu, %ld blocks of the JSON library are in use although no value is a JSON value", name, x, lib_blocks - lib0);
        // user objects and owned pointers are destroyed exactly when the last value that contains them is gone
        if (!lossy || op != 29) for (auto &p : alive) {
            bool should = live.count(p.first);
            LIFE(!should || p.second, "early-destroy", "after %s on slot %zu, object %ld is destroyed although a value still contains it", name, x, p.first);
            if (!lossy) LIFE(should || !p.second, "late-destroy", "after %s on slot %zu, object %ld is still alive although no value contains it", name, x, p.first);
        }
    }
    if (next_id > 2) nontrivial();
    HANDLEBARS_VALUE_ARRAY_UNDECL(slots, N);
    if (!lossy) {
        size_t blocks = talloc_total_blocks(ctx);
        if (blocks != blocks0 && tracing()) talloc_report_full(ctx, stderr);
        LIFE(blocks == blocks0, "value-leak", "%zd blocks remain allocated after every value was dropped", (ssize_t)(blocks - blocks0));
        for (auto &p : alive) LIFE(!p.second, "late-destroy", "object %ld is still alive after every value was dropped", p.first);
    }
}

WORLD(values) {
    hctx *ctx = handlebars_context_ctor();
    try { values_run(ctx, option("focus") != nullptr); } catch (OtherProperty &) {}
    handlebars_context_dtor(ctx);
}
