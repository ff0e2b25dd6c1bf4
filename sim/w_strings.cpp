// World "strings": histories over shared (copy-on-write) strings against std::string, with allocation failures inside
// every operation. A holder owns one reference; an operation consumes the holder's reference and returns a new one.
#include "hb.h"
#include <algorithm>
using namespace sim;

namespace {
struct Holder { hstr *s; std::string m; };

std::string rnd_text() {
    static const std::vector<std::string> bits = {"", "a", "b", "ab", "aab", "\n", "  ", "\t", "<", ">&", "\"'`", "\\", "\\n", "\\x41", "\\x4", "\\101", "\\7", "\\\\", "0", "9",
        "hello world", "{{", "}}", "x\ny\n", "qahvjo", "wjyhay", "\xc3\xa9", "\xff", "line\r\n", "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa", "%s", "\x01", "\a\v\b\f", "\\a\\v\\b\\f\\t\\r", "\\xZ", "\\x", "\\8", "\\400", "\\377z", "\\19", "\\xfF1", "\x7f\x80"};
    std::string r;
    size_t n = choose(4, "bits");
    for (size_t i = 0; i < n; i++) r += pick(bits, "bit");
    if (chance(1, 25, "nul")) r += std::string("\0z", 2);
    if (chance(1, 40, "long")) r += std::string(200 + choose(4000), 'L');
    return r;
}
std::string m_html(const std::string &s) {
    std::string r;
    for (char c : s) switch (c) { case '&': r += "&amp;"; break; case '"': r += "&quot;"; break; case '\'': r += "&#x27;"; break; case '<': r += "&lt;"; break;
        case '>': r += "&gt;"; break; case '`': r += "&#x60;"; break; default: r += c; }
    return r;
}
std::string m_replace(const std::string &s, const std::string &a, const std::string &b) {
    if (a.empty()) return s;
    std::string r; size_t p = 0, q;
    while ((q = s.find(a, p)) != std::string::npos) { r.append(s, p, q - p); r += b; p = q + a.size(); }
    return r.append(s, p, std::string::npos);
}
std::string m_indent(const std::string &s, const std::string &ind) {
    if (s.empty()) return "";
    bool nl = !s.empty() && s.back() == '\n';
    std::string body = nl ? s.substr(0, s.size() - 1) : s, r = ind;
    for (char c : body) { r += c; if (c == '\n') r += ind; }
    return nl ? r + "\n" : r;
}
std::string m_addc(const std::string &s, const std::string &what) {
    std::string r;
    for (unsigned char c : s) {
        if (what.find((char)c) == std::string::npos) { r += c; continue; }
        r += '\\';
        if (c >= 32 && c <= 126) { r += c; continue; }
        switch (c) { case '\n': r += 'n'; break; case '\t': r += 't'; break; case '\r': r += 'r'; break; case '\a': r += 'a'; break; case '\v': r += 'v'; break;
            case '\b': r += 'b'; break; case '\f': r += 'f'; break; default: { char b[5]; snprintf(b, sizeof b, "%03o", c); r += b; } }
    }
    return r;
}
bool too_big(const std::string &s, const std::string &ind) { return s.size() + std::count(s.begin(), s.end(), '\n') * ind.size() > 60000; }
bool isoct(char c) { return c >= '0' && c <= '7'; }
std::string m_stripc(const std::string &s) {
    std::string r;
    for (size_t i = 0; i < s.size(); i++) {
        if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
        char c = s[++i];
        if (c == 'x' && i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) {
            std::string h(1, s[++i]);
            if (i + 1 < s.size() && isxdigit((unsigned char)s[i + 1])) h += s[++i];
            r += (char)strtol(h.c_str(), nullptr, 16);
        } else if (isoct(c)) {
            std::string o(1, c);
            while (o.size() < 3 && i + 1 < s.size() && isoct(s[i + 1])) o += s[++i];
            r += (char)strtol(o.c_str(), nullptr, 8);
        } else switch (c) { case 'n': r += '\n'; break; case 'r': r += '\r'; break; case 'a': r += '\a'; break; case 't': r += '\t'; break; case 'v': r += '\v'; break;
            case 'b': r += '\b'; break; case 'f': r += '\f'; break; default: r += c; }
    }
    return r;
}
std::string rnd_set() { static const std::vector<std::string> v = {" \t\r\n", "a", "ab", "\n", "L", "", " ", "\\", "<>&", "\x01\xff\n", "az", "\a\v\b\f\t\r", "\x7f\x80~}"}; return pick(v, "set"); }
}

WORLD(strings) {
    hctx *ctx = handlebars_context_ctor();
    void *holder = talloc_zero_size(ctx, 512);      // memory of the caller's that is not a context
    size_t blocks0 = talloc_total_blocks(ctx);
    bool faults = chance(1, 2, "faults on"), lossy = false;
    std::vector<Holder> hs;
    auto add = [&](hstr *s, const std::string &m) { handlebars_string_addref(s); hs.push_back({s, m}); };
    std::string t0 = rnd_text();
    auto owned = [&](hstr *x) { return chance(1, 6, "owned by something else") ? (hstr *)talloc_steal(holder, x) : x; };
    add(owned(mkstr(ctx, t0)), t0);
    for (int n = 0; n < 120; n++) {
        Span sp;
        if (!chance(90, 91, "more")) break;
        step();
        if (hs.empty()) { std::string t = rnd_text(); add(owned(mkstr(ctx, t)), t); }
        size_t hi = choose(hs.size(), "holder");
        Holder h = hs[hi];
        std::string arg = rnd_text(), arg2 = rnd_text(), set = rnd_set();
        uint64_t op = choose(26, "op"), a = choose(12, "a"), b = choose(40, "b");
        size_t hj = choose(hs.size(), "other");
        hstr *argstr = mkstr(ctx, arg); handlebars_string_addref(argstr);
        std::vector<hstr *> parts; std::vector<std::string> mparts;
        for (size_t i = 0; i < a % 5; i++) { Holder &x = hs[(hj + i) % hs.size()]; parts.push_back(x.s); mparts.push_back(x.m); }
        parts.push_back(nullptr);
        if (a % 4 == 1) hbs_str_hash(h.s);            // have the hash computed (cached) before the change
        long failat = faults && chance(2, 5, "fault?") ? 1 + (long)choose(3, "fail at") : -1;
        hstr *volatile r = h.s; hstr *volatile fresh = nullptr;
        std::string m = h.m, mf; const char *name = "?"; int rc = 0;
        alloc_arm(failat);
        switch (op) {
        case 0: case 1: name = "append"; rc = hb_try(ctx, [&] { r = handlebars_string_append(ctx, h.s, arg.data(), arg.size()); }); m += arg; break;
        case 2: name = "append_str"; rc = hb_try(ctx, [&] { r = handlebars_string_append_str(ctx, h.s, argstr); }); m += arg; break;
        case 3: name = "append_self"; if (h.m.size() > 20000) break; rc = hb_try(ctx, [&] { r = handlebars_string_append_str(ctx, h.s, h.s); }); m += h.m; break;
        case 4: name = "append_other"; if (hs[hj].m.size() > 20000 || hj == hi) break; rc = hb_try(ctx, [&] { r = handlebars_string_append_str(ctx, h.s, hs[hj].s); }); m += hs[hj].m; break;
        case 5: name = "asprintf_append"; if (arg.find('\0') != std::string::npos) break;
            rc = hb_try(ctx, [&] { r = handlebars_string_asprintf_append(ctx, h.s, "<%s|%ld>", arg.c_str(), (long)b - 20); }); m += "<" + arg + "|" + std::to_string((long)b - 20) + ">"; break;
        case 6: name = "html_append"; rc = hb_try(ctx, [&] { r = handlebars_string_htmlspecialchars_append(ctx, h.s, arg.data(), arg.size()); }); m += m_html(arg); break;
        case 7: name = "indent"; if (too_big(h.m, arg)) break; rc = hb_try(ctx, [&] { r = handlebars_string_indent(ctx, h.s, argstr); }); m = m_indent(h.m, arg); break;
        case 8: name = "indent_append"; if (hj == hi || too_big(hs[hj].m, arg) || hs[hj].m.size() > 20000) break;
            { hstr *in = hs[hj].s; handlebars_string_addref(in); rc = hb_try(ctx, [&] { r = handlebars_string_indent_append(ctx, h.s, in, argstr); }); m += m_indent(hs[hj].m, arg); if (rc) handlebars_string_delref(in); } break;
        case 9: name = "ltrim"; rc = hb_try(ctx, [&] { r = handlebars_string_ltrim(h.s, set.data(), set.size()); });
            { size_t i = 0; while (i < m.size() && m[i] && set.find(m[i]) != std::string::npos) i++; m = m.substr(i); } break;
        case 10: name = "rtrim"; rc = hb_try(ctx, [&] { r = handlebars_string_rtrim(h.s, set.data(), set.size()); });
            while (!m.empty() && set.find(m.back()) != std::string::npos) m.pop_back(); break;
        case 11: name = "truncate"; { size_t st = a, en = chance(1, 4, "far") ? m.size() + b : std::min<size_t>(m.size(), b);
            rc = hb_try(ctx, [&] { r = handlebars_string_truncate(h.s, st, en); });
            m = m.substr(0, en); m = st < m.size() ? m.substr(st) : ""; } break;
        case 12: name = "compact"; rc = hb_try(ctx, [&] { r = handlebars_string_compact(h.s); }); break;
        case 13: name = "extend"; rc = hb_try(ctx, [&] { r = handlebars_string_extend(ctx, h.s, h.m.size() + b * 10); }); break;
        case 14: name = "reduce"; { std::string s1 = arg.substr(0, 1 + a % 3), s2 = arg2.substr(0, a % 2 ? s1.size() : 0);
            rc = hb_try(ctx, [&] { r = handlebars_str_reduce(h.s, s1.data(), s1.size(), s2.data(), s2.size()); });
            if (s2.size() <= s1.size()) m = m_replace(h.m, s1, s2); } break;
        case 15: name = "stripcslashes"; rc = hb_try(ctx, [&] { r = handlebars_string_stripcslashes(h.s); }); m = m_stripc(h.m); break;
        case 16: name = "replace"; { std::string s1 = arg.substr(0, a % 4); if (h.m.size() * (1 + arg2.size()) > 200000) break;
            rc = hb_try(ctx, [&] { fresh = handlebars_str_replace(ctx, h.s, s1.data(), s1.size(), arg2.data(), arg2.size()); }); mf = m_replace(h.m, s1, arg2); } break;
        case 17: name = "addcslashes"; rc = hb_try(ctx, [&] { fresh = handlebars_string_addcslashes(ctx, h.s, set.data(), set.size()); }); mf = m_addc(h.m, set); break;
        case 18: name = "html"; rc = hb_try(ctx, [&] { fresh = handlebars_string_htmlspecialchars(ctx, h.m.data(), h.m.size()); }); mf = m_html(h.m); break;
        case 19: name = "implode"; rc = hb_try(ctx, [&] { fresh = handlebars_string_implode(ctx, set.data(), set.size(), parts.data()); });
            for (size_t i = 0; i < mparts.size(); i++) { if (i) mf += set; mf += mparts[i]; } break;
        case 20: name = "copy"; rc = hb_try(ctx, [&] { fresh = handlebars_string_copy_ctor(ctx, h.s); }); mf = h.m; break;
        case 21: name = "share"; alloc_disarm(); handlebars_string_addref(h.s); fresh = h.s; handlebars_string_delref(h.s); mf = h.m;
            if (chance(1, 30, "immortal")) { handlebars_string_immortalize(h.s); lossy = true; stat("probe.string_immortal"); }
            else if (chance(1, 30, "saturate")) { for (int i = 0; i < 300; i++) handlebars_string_addref(h.s); for (int i = 0; i < 300; i++) handlebars_string_delref(h.s); lossy = true; stat("probe.string_refcount_saturated"); }
            break;
        case 22: name = "drop"; alloc_disarm(); handlebars_string_delref(h.s); hs.erase(hs.begin() + hi); break;
        case 24: name = "asprintf"; if (arg.find('\0') != std::string::npos) break;
            rc = hb_try(ctx, [&] { fresh = handlebars_string_asprintf(ctx, "[%.*s|%s|%c]", (int)a, arg2.c_str(), arg.c_str(), (int)('a' + a)); }); mf = "[" + std::string(arg2.c_str()).substr(0, a) + "|" + arg + "|" + (char)('a' + a) + "]"; break;
        case 25: name = "find"; alloc_disarm(); { std::string s1 = arg.substr(0, a % 4); size_t n = chance(1, 3, "shorter") ? std::min(h.m.size(), (size_t)b) : h.m.size();
            const char *f = handlebars_strnstr(hbs_str_val(h.s), n, s1.data(), s1.size()); size_t w = s1.empty() ? std::string::npos : h.m.substr(0, n).find(s1);
            if (!s1.empty()) SIM_CHECK(f ? f - hbs_str_val(h.s) == (long)w : w == std::string::npos, "string-find", "%s is %s in the first %zu bytes of %s", quote(s1).c_str(), f ? "found elsewhere" : "not found", n, quote(h.m).c_str());
            SIM_CHECK(handlebars_hash_xxh3low(h.m.data(), h.m.size()) == (uint32_t)handlebars_hash_xxh3(h.m.data(), h.m.size()), "string-hash", "the hashes of %s differ", quote(h.m).c_str());
            hstr *x = handlebars_string_ctor_ex(ctx, h.m.data(), h.m.size(), handlebars_string_hash(h.m.data(), h.m.size())); handlebars_string_addref(x);
            SIM_CHECK(handlebars_string_eq(x, h.s), "string-eq", "a copy of %s with its hash is another string", quote(h.m).c_str()); handlebars_string_delref(x); } break;
        case 23: name = "to_string"; { HANDLEBARS_VALUE_DECL(v); handlebars_value_str(v, h.s); if (a % 2) handlebars_value_set_flag(v, HANDLEBARS_VALUE_FLAG_SAFE_STRING);
            rc = hb_try(ctx, [&] { fresh = handlebars_value_expression(ctx, v, b % 2); }); mf = (b % 2) && !(a % 2) ? m_html(h.m) : h.m; HANDLEBARS_VALUE_UNDECL(v); } break;
        }
        long fired = alloc.fired;
        alloc_disarm();
        log("%d:%s(%s) fail=%ld -> rc=%d fired=%ld", (int)hi, name, quote(arg, 60).c_str(), failat, rc, fired);
        sig(op * 31 + (rc ? 3 : 0) + hs.size() * 7 + (r != h.s));
        if (fired) lossy = true;
        if (rc) {
            SIM_CHECK(fired, "string-spurious-error", "%s failed with %d (%s) although nothing was injected", name, rc, handlebars_error_msg(ctx));
            SIM_CHECK(rc == HANDLEBARS_NOMEM, "string-wrong-error", "%s under allocation failure reported %d, not out of memory", name, rc);
            hb_clear(ctx); stat("probe.string_op_failed_by_alloc");
        } else if (op < 16) { hs[hi].s = r; hs[hi].m = m; if (r != h.s) stat("probe.string_moved_or_separated"); }
        if (!rc && fresh) {
            std::string got = S(fresh);
            SIM_CHECK(got == mf, "string-result", "%s of %s gives %s, expected %s", name, quote(h.m).c_str(), quote(got).c_str(), quote(mf).c_str());
            handlebars_string_addref(fresh);
            if (hs.size() < 6) hs.push_back({fresh, mf}); else handlebars_string_delref(fresh);
        }
        handlebars_string_delref(argstr);
        if (op == 18) { uint32_t w = 5381; for (unsigned char ch : h.m) { if (!ch) break; w = w * 33 + ch; } SIM_CHECK(handlebars_hash_djbx33a(h.m.data(), h.m.size()) == w, "string-hash", "the DJB hash of %s is wrong", quote(h.m).c_str()); }
        for (size_t i = 0; i < hs.size(); i++) {
            Holder &x = hs[i];
            SIM_CHECK(S(x.s) == x.m, "string-content", "after %s on holder %d, holder %d shows %s, expected %s", name, (int)hi, (int)i, quote(S(x.s)).c_str(), quote(x.m).c_str());
            SIM_CHECK(hbs_str_val(x.s)[hbs_str_len(x.s)] == 0, "string-unterminated", "%s left holder %d without terminating NUL", name, (int)i);
            SIM_CHECK(hbs_str_hash(x.s) == handlebars_string_hash(x.m.data(), x.m.size()), "string-hash", "after %s on holder %d, the hash of holder %d is not that of its content %s", name, (int)hi, (int)i, quote(x.m).c_str());
            for (size_t j = 0; j < hs.size(); j++)
                SIM_CHECK(handlebars_string_eq(x.s, hs[j].s) == (x.m == hs[j].m) && hbs_str_eq_strl(x.s, hs[j].m.data(), hs[j].m.size()) == (x.m == hs[j].m), "string-eq", "comparison of %s and %s is wrong after %s", quote(x.m).c_str(), quote(hs[j].m).c_str(), name);
        }
        size_t tot = 0; for (auto &x : hs) tot += x.m.size();
        if (tot > 60000) { for (auto &x : hs) handlebars_string_delref(x.s); hs.clear(); }
    }
    if (hs.size() > 1) nontrivial();
    for (auto &x : hs) handlebars_string_delref(x.s);
    if (!lossy) {
        size_t blocks = talloc_total_blocks(ctx);
        SIM_CHECK(blocks == blocks0, "string-leak", "%zu blocks remain allocated after every reference was dropped", blocks - blocks0);
    }
    handlebars_context_dtor(ctx);
}
