// Random templates, data and helpers, with an independent reference interpreter (no code shared with /repo).
#pragma once
#include "hb.h"
#include <memory>
#include <map>
#include <functional>

namespace tpl {
enum T { NUL, TRUE_, FALSE_, INT, FLT, STR, ARR, MAP, FN };
struct V;
typedef std::shared_ptr<V> VP;
struct X { VP v; long id = 0; bool safe = false; T t() const; };
struct V {
    T t = NUL; long i = 0; double d = 0; std::string s; std::vector<X> a; std::vector<std::pair<std::string, X>> m; bool lazy = false, cl = false;       // made on each access; FN: a closure
    std::shared_ptr<void> pb;       // FN: the block given to the partial, if that is what it calls
};
inline T X::t() const { return v ? v->t : NUL; }
X null(); X boolean(bool); X integer(long); X flt(double); X str(const std::string &, bool safe = false); X fn(int id); X arr(); X map();
X *find(const X &m, const std::string &k);
void put(X &m, const std::string &k, X v);
std::string dump(const X &x);              // canonical text of a value, as helpers see it
std::string to_json(const X &x);
std::string to_yaml(const X &x);
bool eq(const X &a, const X &b);
bool is_empty(const X &x);

// ---- templates
struct Expr;
struct Call { bool known = false; std::shared_ptr<Expr> path; std::vector<Expr> params; std::vector<std::pair<std::string, Expr>> hash; };
struct Expr {
    enum K { PATH, LIT, SUB } k = PATH;
    int depth = 0; bool data = false, scoped = false; int style = 0; std::vector<std::string> parts;   // PATH
    int lname = 0;         // a name written as a literal: 1 "x", 2 'x', 3 x
    X lit; int quote = 0; std::string spell;                                                           // LIT
    mutable int line = 0, col = 0;     // where it stands, found by locate()
    Call sub;                                                                                            // SUB
};
struct Stmt;
struct Program { std::vector<Stmt> body; std::vector<std::string> names; };
typedef std::shared_ptr<Program> PP;
struct Stmt {
    enum K { CONTENT, MUSTACHE, BLOCK, PARTIAL, PBLOCK, COMMENT, DELIM, RAWTAG } k = CONTENT;
    std::string text;      // content, comment
    std::string src;       // content: how it is written, if not the same (escaped mustaches)
    int os = 0, is = 0, cs = 0;     // whitespace control of the (opening) tag, the else and the closing tag: 1 left, 2 right
    bool raw = false;      // BLOCK: {{{{raw}}}}
    mutable int line = 0, col = 0;     // where the (opening) tag stands, found by locate()
    mutable std::string value, indent; mutable bool lstripped = false, rstripped = false;      // found by whitespace control
    int esc = 0;           // MUSTACHE: 0 escaped, 1 {{{, 2 {{&; DELIM: text and pname are the new delimiters
    Call call;             // MUSTACHE, BLOCK; partials: params/hash
    bool inverted = false, chain = false, caret = false;
    PP prog, inv;          // BLOCK (either may be null), PBLOCK prog
    std::string pname; std::shared_ptr<Expr> pdyn;
};
std::string print(const Program &p);
std::string expr_text(const Expr &e);
void locate(const Program &p);       // finds the lines and columns of all that stands in the template

enum H { H_ECHO, H_NULL, H_SAFE, H_FIRST, H_BLOCK, H_EACHARG, H_DATA, H_CTX, H_TWICE, H_HASH, H_ARR, H_COUNT, L_TEXT, L_TWICE, L_WRAP, L_CONST, L_ESC, L_EMPTY, L_NUM, L_END };     // L_*: mustache lambdas
struct PartialDef { std::string name; bool raw = false; std::string text; PP prog; X value; bool has_value = false; int err = -1, line = -1, col = 0; std::string msg; };     // value: registered in place of a template
struct Case {
    X root; bool has_data = false; X data;
    std::vector<std::pair<std::string, int>> helpers;
    std::vector<PartialDef> partials;
    PP main;
    std::vector<std::string> known;             // helpers the compiler of the main template is told to expect
    unsigned long flags = 0;
    bool lambdas = false, columns = true;       // columns: are the columns of errors settled?
    std::function<const PartialDef *(const std::string &name, bool &failed)> resolve;   // where the reference gets partials from, if not from the list
};
struct GenOpt { int depth = 4; bool closures = false, lambdas = false, partials = true, helpers = true, block_params = true, nulls = true, tricky_strings = true, empties = true, escapes = true; int size = 6; bool broken_partials = false; int npartials = 4; bool modes = false, compile_errors = false, partial_values = false, delims = false, mlambdas = false, known = false; };
Case generate(const GenOpt &o);
X gen_data(const GenOpt &o, int depth);

struct Fault { long call = -1; };         // 1-based index of the helper/lambda/logger call that fails
struct Result { bool compile_error = false; int err = 0; std::string msg; bool check_msg = true; int line = -1, col = -1; std::string out; std::vector<std::string> calls; bool skipped = false; };
extern long max_steps; extern int max_depth;      // where the reference gives up
Result evaluate(const Case &c, const X &root, const Fault &f);   // the reference

// ---- the real library
enum Provider { P_NATIVE, P_JSON, P_JSON_CONV, P_YAML, P_OBJ, P_COUNT };
struct Rec { std::vector<std::string> calls; long n = 0, fault = -1; long access = 0, access_fault = -1; bool access_fired = false; void (*hook)(void *, hctx *) = nullptr; void *hookarg = nullptr; long objs = 0, objs_dead = 0; bool garbage_args = false; };
X as_seen(const X &root, Provider p);                  // the same data with the identity rules of the provider
void build_value(hctx *ctx, hval *out, const X &x, Provider p, Rec *rec);
void build_native(hctx *ctx, hval *out, const X &x);
void setup_vm(hctx *ctx, handlebars_vm *vm, const Case &c, Rec *rec, bool flags = true);
handlebars_func helper_fn(int id);
handlebars_module *compile(hctx *ctx, const std::string &src, unsigned long flags, const std::vector<std::string> *known = nullptr);      // throws
std::string dump(hval *v, int depth = 0);
std::string source_of(const PartialDef &p);
bool compare(const Result &want, const Result &got, std::string &why);
}
