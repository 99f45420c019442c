// Reference interpreter of the query language over plain document trees.
//
// Written from the language guide (and, where the guide is silent, from what the library
// promises in its headers), sharing no code with the library: it never folds, never interns
// names and has no model pool. Anything the language does not define raises Unspec, and the
// running case is skipped.
#pragma once
#include "common.hpp"
#include <regex>

namespace ref {

struct RefError : std::runtime_error { using std::runtime_error::runtime_error; };
struct Unspec : std::runtime_error { using std::runtime_error::runtime_error; };

// ---------------------------------------------------------------- documents
struct J;
using JP = std::shared_ptr<J>;
struct J
{
    enum K { Null, Bool, Int, Float, Str, Obj, Arr } k = Null;
    bool b = false;
    int64_t i = 0;
    double f = 0;
    std::string s;
    std::vector<std::pair<std::string, JP>> obj;
    std::vector<JP> arr;
    uint32_t addr = 0; // address of the stored node, set when the model is built
    std::vector<std::pair<std::string, JP>> injected; // found by name only

    size_t size() const { return k == Obj ? obj.size() : k == Arr ? arr.size() : 0; }
    const J* at(int64_t n) const
    {
        if (n < 0 || (uint64_t)n >= size()) return nullptr;
        return k == Obj ? obj[n].second.get() : arr[n].get();
    }
    static bool ieq(std::string_view a, std::string_view b)
    {
        auto low = [](char c) { return c >= 'A' && c <= 'Z' ? (char)(c + 32) : c; };
        return std::equal(a.begin(), a.end(), b.begin(), b.end(), [&](char x, char y) { return low(x) == low(y); });
    }
    const J* get(std::string_view name) const
    {
        for (auto& [key, v] : injected)
            if (ieq(key, name)) return v.get();
        if (k == Obj)
            for (auto& [key, v] : obj)
                if (ieq(key, name)) return v.get();
        return nullptr;
    }
};
inline JP mk(J::K k) { auto j = std::make_shared<J>(); j->k = k; return j; }
inline JP jnull() { return mk(J::Null); }
inline JP jbool(bool b) { auto j = mk(J::Bool); j->b = b; return j; }
inline JP jint(int64_t i) { auto j = mk(J::Int); j->i = i; return j; }
inline JP jfloat(double f) { auto j = mk(J::Float); j->f = f; return j; }
inline JP jstr(std::string s) { auto j = mk(J::Str); j->s = std::move(s); return j; }

inline std::string fmtFloat(double f) { char buf[64]; snprintf(buf, sizeof buf, "%.17g", f); std::string s = buf;
    if (s.find_first_of(".en") == std::string::npos) s += ".0"; return s; }

/// Insertion-ordered JSON text.
inline std::string jsonText(const J& j)
{
    switch (j.k) {
    case J::Null: return "null";
    case J::Bool: return j.b ? "true" : "false";
    case J::Int: return std::to_string(j.i);
    case J::Float: return fmtFloat(j.f);
    case J::Str: {
        std::string r = "\"";
        for (unsigned char c : j.s) {
            if (c == '"' || c == '\\') { r += '\\'; r += (char)c; }
            else if (c < 0x20) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
            else r += (char)c;
        }
        return r + "\"";
    }
    case J::Obj: {
        std::string r = "{";
        for (auto& [k, v] : j.obj) { if (r.size() > 1) r += ","; r += jsonText(*jstr(k)) + ":" + jsonText(*v); }
        return r + "}";
    }
    default: {
        std::string r = "[";
        for (auto& v : j.arr) { if (r.size() > 1) r += ","; r += jsonText(*v); }
        return r + "]";
    }
    }
}

// ---------------------------------------------------------------- values
struct Overlay;
struct RV
{
    enum K { Null, Bool, Int, Float, Str, Node, Range, Re } k = Null;
    bool hasNode = false; // value taken from a document (or injected like one)
    const J* j = nullptr;
    std::shared_ptr<Overlay> ov;
    bool b = false;
    int64_t i = 0, i2 = 0;
    double f = 0;
    std::string s;

    bool num() const { return k == Int || k == Float; }
    double d() const { return k == Int ? (double)i : f; }
    bool transient() const { return k == Range || k == Re; }
};
struct Overlay { RV base; std::map<std::string, RV> kids; };

inline RV vnull() { return {}; }
inline RV vbool(bool b) { RV v; v.k = RV::Bool; v.b = b; return v; }
inline RV vint(int64_t i) { RV v; v.k = RV::Int; v.i = i; return v; }
inline RV vfloat(double f) { RV v; v.k = RV::Float; v.f = f; return v; }
inline RV vstr(std::string s) { RV v; v.k = RV::Str; v.s = std::move(s); return v; }
inline RV vrange(int64_t a, int64_t b) { RV v; v.k = RV::Range; v.i = a; v.i2 = b; return v; }
inline RV vre(std::string s) { RV v; v.k = RV::Re; v.s = std::move(s); return v; }
inline RV vnode(const J* j)
{
    RV v;
    switch (j->k) {
    case J::Null: break;
    case J::Bool: v = vbool(j->b); break;
    case J::Int: v = vint(j->i); break;
    case J::Float: v = vfloat(j->f); break;
    case J::Str: v = vstr(j->s); break;
    default: v.k = RV::Node;
    }
    v.j = j;
    v.hasNode = true;
    return v;
}

/// Canonical text of a result.
inline std::string canon(const RV& v)
{
    char buf[96];
    switch (v.k) {
    case RV::Null: return "null";
    case RV::Bool: return v.b ? "true" : "false";
    case RV::Int: return "i:" + std::to_string(v.i);
    case RV::Float: snprintf(buf, sizeof buf, "f:%a", v.f); return std::isnan(v.f) ? "f:nan" : buf;
    case RV::Str: return "s:" + v.s;
    case RV::Range: return "r:" + std::to_string(v.i) + ".." + std::to_string(v.i2);
    case RV::Re: return "x:" + v.s;
    default:
        if (!v.j) throw Unspec("overlay as a result");
        snprintf(buf, sizeof buf, "n:%08x", v.j->addr);
        return buf;
    }
}

// ---------------------------------------------------------------- operators
inline bool truthy(const RV& v) { return v.k == RV::Null ? false : v.k == RV::Bool ? v.b : true; }
inline size_t nodeSize(const RV& v)
{
    if (v.ov) return v.ov->base.hasNode ? nodeSize(v.ov->base) : 0;
    return v.j ? v.j->size() : 0;
}
inline const char* typeName(const RV& v)
{
    switch (v.k) {
    case RV::Null: return "null";
    case RV::Bool: return "bool";
    case RV::Int: return "int";
    case RV::Float: return "float";
    case RV::Str: return "string";
    case RV::Node: return "model";
    case RV::Range: return "irange";
    default: return "re";
    }
}
[[noreturn]] inline void bad(const std::string& op, const RV& v) { throw RefError("invalid operand " + std::string(typeName(v)) + " for " + op); }
inline std::string toStr(const RV& v)
{
    switch (v.k) {
    case RV::Null: return "null";
    case RV::Bool: return v.b ? "true" : "false";
    case RV::Int: return std::to_string(v.i);
    case RV::Float: return std::to_string(v.f);
    case RV::Str: return v.s;
    case RV::Node: return "";
    case RV::Range: return std::to_string(v.i) + ".." + std::to_string(v.i2);
    default: return v.s;
    }
}

inline RV unary(const std::string& op, const RV& v)
{
    if (op == "typeof") return vstr(typeName(v));
    if (op == "?" || op == "bool") return vbool(truthy(v));
    if (op == "string") return vstr(toStr(v));
    if (op == "null") return vnull();
    if (op == "not") {
        if (v.transient()) throw Unspec("not on a transient");
        return vbool(!truthy(v));
    }
    if (op == "-") {
        if (v.k == RV::Int) return vint((int64_t)(0 - (uint64_t)v.i));
        if (v.k == RV::Float) return vfloat(-v.f);
        bad(op, v);
    }
    if (op == "~") {
        if (v.k == RV::Int) return vint(~v.i);
        if (v.k == RV::Null) return vnull();
        bad(op, v);
    }
    if (op == "#") {
        if (v.k == RV::Str) return vint((int64_t)v.s.size());
        if (v.k == RV::Node) return vint((int64_t)nodeSize(v));
        if (v.k == RV::Null) return vnull();
        if (v.k == RV::Range) throw Unspec("length of a range");
        bad(op, v);
    }
    if (op == "int") {
        switch (v.k) {
        case RV::Bool: return vint(v.b);
        case RV::Int: return vint(v.i);
        case RV::Float: {
            double t = std::trunc(v.f);
            if (!(t >= -9223372036854775808.0) || !(t < 9223372036854775808.0)) return vint(0);
            return vint((int64_t)t);
        }
        case RV::Str: {
            const char* c = v.s.c_str();
            char* e = nullptr;
            auto r = strtoll(c, &e, 10);
            return vint(e == c ? 0 : r);
        }
        case RV::Null: case RV::Node: return vint(0);
        default: bad(op, v);
        }
    }
    if (op == "float") {
        switch (v.k) {
        case RV::Bool: return vfloat(v.b ? 1 : 0);
        case RV::Int: return vfloat((double)v.i);
        case RV::Float: return vfloat(v.f);
        case RV::Str: {
            const char* c = v.s.c_str();
            char* e = nullptr;
            auto r = strtod(c, &e);
            return vfloat(e == c ? 0 : r);
        }
        case RV::Null: case RV::Node: return vfloat(0);
        default: bad(op, v);
        }
    }
    throw std::logic_error("unary " + op);
}

inline bool fullMatch(const std::string& s, const std::string& pattern) { return std::regex_match(s, std::regex(pattern)); }

inline RV binary(const std::string& op, const RV& l, const RV& r)
{
    auto invalid = [&]() -> RV {
        throw RefError("invalid operands " + std::string(typeName(l)) + " and " + typeName(r) + " for " + op);
    };
    auto strip = [](RV v) { v.hasNode = false; v.j = nullptr; return v; };
    // Regular expressions and ranges.
    if (l.k == RV::Re || (r.k == RV::Re && l.k != RV::Range)) {
        const RV& re = l.k == RV::Re ? l : r;
        const RV& o = l.k == RV::Re ? r : l;
        if (o.k == RV::Null) return vnull();
        if (op != "==" && op != "!=") return invalid();
        if (o.k == RV::Str) {
            bool m = fullMatch(o.s, re.s);
            return m == (op == "==") ? vstr(o.s) : vbool(false);
        }
        return vbool(op == "!=");
    }
    if (l.k == RV::Range || r.k == RV::Range) {
        const RV& g = l.k == RV::Range ? l : r;
        const RV& o = l.k == RV::Range ? r : l;
        if (op != "==" && op != "!=") return invalid();
        bool res = false;
        auto lo = std::min(g.i, g.i2), hi = std::max(g.i, g.i2);
        if (o.k == RV::Int) res = lo <= o.i && o.i <= hi;
        else if (o.k == RV::Float) res = (double)lo <= o.f && o.f <= (double)hi;
        else if (o.k == RV::Range) res = g.i == o.i && g.i2 == o.i2;
        return vbool(res == (op == "=="));
    }
    if (op == "==" || op == "!=") {
        bool eq = false;
        if (l.k == RV::Null && r.k == RV::Null) eq = true;
        else if (l.k == RV::Bool && r.k == RV::Bool) eq = l.b == r.b;
        else if (l.k == RV::Int && r.k == RV::Int) eq = l.i == r.i;
        else if (l.num() && r.num()) eq = l.d() == r.d();
        else if (l.k == RV::Str && r.k == RV::Str) eq = l.s == r.s;
        else if (l.k == RV::Node && r.k == RV::Node) throw Unspec("comparing nodes");
        return vbool(eq == (op == "=="));
    }
    if (op == "<" || op == "<=" || op == ">" || op == ">=") {
        auto cmp = [&](auto a, auto b) {
            return vbool(op == "<" ? a < b : op == "<=" ? a <= b : op == ">" ? a > b : a >= b);
        };
        if (l.k == RV::Null && r.k == RV::Null) return vbool(op.size() == 2);
        if (l.k == RV::Int && r.k == RV::Int) return cmp(l.i, r.i);
        if (l.num() && r.num()) return cmp(l.d(), r.d());
        if (l.k == RV::Str && r.k == RV::Str) return cmp(l.s, r.s);
        if (l.k == RV::Bool && r.k == RV::Bool) throw Unspec("ordering bools");
        if (l.k == RV::Node && r.k == RV::Node) throw Unspec("ordering nodes");
        return vbool(false);
    }
    if (op == "+") {
        bool ln = l.k == RV::Node, rn = r.k == RV::Node, ls = l.k == RV::Str, rs = r.k == RV::Str;
        if ((ln && rn) || (ls && rn) || (ln && rs)) return vnull();
        if (ls || rs) return vstr(toStr(strip(l)) + toStr(strip(r)));
    }
    if (l.k == RV::Null || r.k == RV::Null) return vnull();
    if (op == "+" || op == "-" || op == "*" || op == "/") {
        if (!l.num() || !r.num()) return invalid();
        if (op == "/" && r.d() == 0) throw RefError("division by zero");
        if (l.k == RV::Int && r.k == RV::Int) {
            auto a = (unsigned __int128)(__int128)l.i, b = (unsigned __int128)(__int128)r.i;
            if (op == "+") return vint((int64_t)(uint64_t)(a + b));
            if (op == "-") return vint((int64_t)(uint64_t)(a - b));
            if (op == "*") return vint((int64_t)(uint64_t)(a * b));
            return vint((int64_t)((__int128)l.i / (__int128)r.i));
        }
        double a = l.d(), b = r.d();
        return vfloat(op == "+" ? a + b : op == "-" ? a - b : op == "*" ? a * b : a / b);
    }
    if (l.k != RV::Int || r.k != RV::Int) return invalid();
    if (op == "%") {
        if (r.i == 0) throw RefError("division by zero");
        return vint((int64_t)((__int128)l.i % (__int128)r.i));
    }
    uint64_t a = (uint64_t)l.i, b = (uint64_t)r.i, x = 0;
    if (op == "&") x = a & b;
    else if (op == "|") x = a | b;
    else if (op == "^") x = a ^ b;
    else if (op == "<<") x = b < 64 ? a << b : 0;
    else if (op == ">>") x = b < 64 ? a >> b : 0;
    else throw std::logic_error("binary " + op);
    return vint((int64_t)x);
}

// ---------------------------------------------------------------- expressions
struct E;
using EP = std::shared_ptr<E>;
struct E
{
    // Path/Sub/Idx: a[0] . { [ a[1].  For prefix sub-selects and subscripts a[0] is Self with `implicit` set.
    enum K { Lit, Sym, Field, Self, Any, Wild, Path, Sub, Idx, Un, Post, Cast, Bin, And, Or, Call } k = Self;
    RV lit;
    std::string name; // field / symbol / operator / function / type name
    std::vector<EP> a;
    bool implicit = false;
};
inline EP mkE(E::K k, std::string name = "", std::vector<EP> a = {})
{
    auto e = std::make_shared<E>();
    e->k = k; e->name = std::move(name); e->a = std::move(a);
    return e;
}
inline EP lit(RV v) { auto e = mkE(E::Lit); e->lit = std::move(v); return e; }
inline EP self() { return mkE(E::Self); }
inline EP field(std::string n) { return mkE(E::Field, std::move(n)); }
inline EP sym(std::string n) { return mkE(E::Sym, std::move(n)); }
inline EP path(EP l, EP r) { return mkE(E::Path, "", {l, r}); }
inline EP sub(EP l, EP c) { return mkE(E::Sub, "", {l, c}); }
inline EP idx(EP l, EP i) { return mkE(E::Idx, "", {l, i}); }
inline EP psub(EP c) { auto e = sub(self(), c); e->implicit = true; return e; }
inline EP pidx(EP i) { auto e = idx(self(), i); e->implicit = true; return e; }
inline EP un(std::string op, EP x) { return mkE(E::Un, std::move(op), {x}); }
inline EP post(std::string op, EP x) { return mkE(E::Post, std::move(op), {x}); }
inline EP cast(EP x, std::string t) { return mkE(E::Cast, std::move(t), {x}); }
inline EP bin(std::string op, EP l, EP r) { return mkE(op == "and" ? E::And : op == "or" ? E::Or : E::Bin, op, {l, r}); }
inline EP call(std::string f, std::vector<EP> a) { return mkE(E::Call, std::move(f), std::move(a)); }

template <class Fn>
void walk(const E& e, Fn fn) { fn(e); for (auto& x : e.a) walk(*x, fn); }
inline size_t countNodes(const E& e) { size_t n = 0; walk(e, [&](auto&) { ++n; }); return n; }

// ---------------------------------------------------------------- printing
struct Printer
{
    bool full = false;        // parenthesise everything
    vh::Rng* rng = nullptr;   // random spelling
    int caseChance = 0;       // percent: random letter case of keywords, functions, types
    int fieldCaseChance = 0;  // percent: random letter case of field names

    static int precOfBin(const std::string& op)
    {
        if (op == "*" || op == "/" || op == "%") return 6;
        if (op == "+" || op == "-") return 5;
        if (op == "<<" || op == ">>" || op == "&" || op == "|" || op == "^") return 4;
        if (op[0] == '<' || op[0] == '>') return 3;
        if (op == "==" || op == "!=") return 2;
        return 1; // and, or
    }
    static int prec(const E& e)
    {
        switch (e.k) {
        case E::Path: return 12;
        case E::Sub: return e.implicit ? 100 : 11;
        case E::Idx: return e.implicit ? 100 : 10;
        case E::Post: return 9;
        case E::Un: return 8;
        case E::Cast: return 7;
        case E::Bin: case E::And: case E::Or: return precOfBin(e.name);
        default: return 100;
        }
    }
    std::string respell(std::string s, int chance) const
    {
        if (rng && chance && rng->chance(chance))
            for (auto& c : s)
                if (c >= 'a' && c <= 'z' && rng->chance(50)) c = (char)(c - 32);
                else if (c >= 'A' && c <= 'Z' && rng->chance(50)) c = (char)(c + 32);
        return s;
    }
    std::string kw(std::string s) const { return respell(std::move(s), caseChance); }
    static bool symbolLike(const std::string& s)
    {
        bool up = false;
        for (char c : s) {
            if (c >= 'A' && c <= 'Z') { up = true; continue; }
            if (c != '_' && !(c >= '0' && c <= '9')) return false;
        }
        return up;
    }
    static bool plainWord(const std::string& s)
    {
        static const std::set<std::string> keywords{"and", "or", "not", "true", "false", "null", "typeof", "as", "_", "re", "r"};
        if (s.empty() || (s[0] >= '0' && s[0] <= '9')) return false;
        std::string low = s;
        for (auto& c : low) c = (char)tolower(c);
        if (keywords.count(low)) return false;
        for (unsigned char c : s)
            if (!isalnum(c) && c != '_' && c != '$') return false;
        return true;
    }
    static std::string quoteStr(const std::string& s, vh::Rng* rng)
    {
        char q = rng && rng->chance(50) ? '\'' : '"';
        std::string r(1, q);
        for (char c : s) {
            if (c == q || c == '\\') r += '\\';
            r += c;
        }
        return r + q;
    }
    /// Fields whose name is not a plain word are written with escapes.
    static std::string escapeWord(const std::string& s)
    {
        std::string r;
        for (size_t i = 0; i < s.size(); ++i) {
            unsigned char c = s[i];
            if (!(isalpha(c) || c == '_' || (i && isdigit(c)))) r += '\\';
            r += (char)c;
        }
        return r;
    }
    std::string fieldName(const std::string& n, bool inPath) const
    {
        std::string s = n;
        bool word = plainWord(s);
        if (!word) return escapeWord(s);
        if (!symbolLike(s)) {
            auto t = respell(s, fieldCaseChance);
            if (!symbolLike(t)) s = t;
        } else if (!inPath)
            return "_." + s;
        return s;
    }
    std::string literal(const RV& v) const
    {
        switch (v.k) {
        case RV::Null: return kw("null");
        case RV::Bool: return kw(v.b ? "true" : "false");
        case RV::Int: {
            char buf[64];
            if (v.i < 0 || (rng && rng->chance(6))) {
                snprintf(buf, sizeof buf, rng && rng->chance(50) ? "0X%" PRIx64 : "0x%" PRIx64, (uint64_t)v.i);
                return buf;
            }
            return std::to_string(v.i);
        }
        case RV::Float: {
            if (v.f < 0 || std::isinf(v.f) || std::isnan(v.f)) throw std::logic_error("float literal");
            char buf[400];
            snprintf(buf, sizeof buf, "%.1f", v.f);
            return buf;
        }
        case RV::Str: return quoteStr(v.s, rng);
        case RV::Re: {
            std::string r = kw("re") + "'";
            for (char c : v.s) { if (c == '\'') r += '\\'; r += c; }
            return r + "'";
        }
        default: throw std::logic_error("literal");
        }
    }

    std::string p(const E& e, bool inPath = false) const
    {
        auto op = [&](const E& x, bool need) { auto s = p(x); return (full ? prec(x) < 100 : need) ? "(" + s + ")" : s; };
        auto left = [&](const E& x) {
            auto s = p(x);
            bool num = x.k == E::Lit && x.lit.num();
            return (full ? prec(x) < 100 : prec(x) < 9) || num || x.k == E::Sym ? "(" + s + ")" : s;
        };
        auto sp = [&]() -> std::string { return rng && rng->chance(10) ? "  " : " "; };
        switch (e.k) {
        case E::Lit: return literal(e.lit);
        case E::Sym: return e.name;
        case E::Field: return fieldName(e.name, inPath);
        case E::Self: return "_";
        case E::Any: return "*";
        case E::Wild: return "**";
        case E::Path: {
            std::string r;
            const E& x = *e.a[1];
            if (x.k == E::Field || x.k == E::Self || x.k == E::Any || x.k == E::Wild || x.k == E::Call || ((x.k == E::Sub || x.k == E::Idx) && x.implicit))
                r = p(x, true);
            else
                r = "(" + p(x) + ")";
            return left(*e.a[0]) + "." + r;
        }
        case E::Sub: return (e.implicit ? "" : left(*e.a[0])) + "{" + p(*e.a[1]) + "}";
        case E::Idx: return (e.implicit ? "" : left(*e.a[0])) + "[" + p(*e.a[1]) + "]";
        case E::Post: return left(*e.a[0]) + (e.name == "..." ? " ..." : rng && rng->chance(50) ? "?" : sp() + "?");
        case E::Un: {
            auto s = kw(e.name);
            return s + (isalpha(s[0]) || rng == nullptr || rng->chance(30) || e.a[0]->k == E::Un ? " " : "") + op(*e.a[0], prec(*e.a[0]) < 8);
        }
        case E::Cast: return op(*e.a[0], prec(*e.a[0]) < 7) + sp() + kw("as") + sp() + kw(e.name);
        case E::Bin: case E::And: case E::Or: {
            int pr = precOfBin(e.name);
            auto name = e.name == "==" && rng && rng->chance(30) ? "=" : kw(e.name);
            return op(*e.a[0], prec(*e.a[0]) < pr) + sp() + name + sp() + op(*e.a[1], prec(*e.a[1]) <= pr);
        }
        case E::Call: {
            std::string r = kw(e.name) + "(";
            for (size_t i = 0; i < e.a.size(); ++i) r += (i ? "," : "") + std::string(i && rng && rng->chance(70) ? " " : "") + p(*e.a[i]);
            return r + ")";
        }
        }
        return "";
    }
};

// ---------------------------------------------------------------- evaluation
struct Interp
{
    using Cb = std::function<bool(const RV&)>; // false: stop
    size_t steps = 0, budget = 20000;
    size_t warnings = 0;
    struct TraceRec { size_t calls = 0; std::vector<std::string> values; };
    std::map<std::string, TraceRec> traces;

    static bool nothing(const RV& v) { return v.k == RV::Null && !v.hasNode; }

    std::optional<RV> get(const RV& v, const std::string& name)
    {
        if (v.ov) {
            if (auto it = v.ov->kids.find(name); it != v.ov->kids.end()) {
                RV x = it->second;
                if (x.transient()) throw Unspec("transient in an overlay");
                x.hasNode = true;
                return x;
            }
            if (!v.ov->base.hasNode) return {};
            return get(v.ov->base, name);
        }
        if (v.j)
            if (auto c = v.j->get(name)) return vnode(c);
        return {};
    }
    std::optional<RV> at(const RV& v, int64_t i)
    {
        if (v.ov) return v.ov->base.hasNode ? at(v.ov->base, i) : std::nullopt;
        if (v.j)
            if (auto c = v.j->at(i)) return vnode(c);
        return {};
    }
    bool wild(const RV& v, const Cb& cb, size_t& n)
    {
        if (v.k == RV::Null) return true;
        ++n;
        if (!cb(v)) return false;
        for (size_t i = 0; i < nodeSize(v); ++i)
            if (!wild(*at(v, (int64_t)i), cb, n)) return false;
        return true;
    }

    bool ev(const E& e, const RV& val, const Cb& cb0)
    {
        Cb cb = [&](const RV& v) {
            if (++steps > budget) throw Unspec("budget");
            return cb0(v);
        };
        size_t n = 0; // results emitted (for operators that yield null if there is no result)
        auto emit = [&](const RV& v) { ++n; return cb(v); };
        switch (e.k) {
        case E::Lit: return cb(e.lit);
        case E::Sym: return cb(vstr(e.name));
        case E::Self: return cb(val);
        case E::Field: {
            if (val.hasNode)
                if (auto v = get(val, e.name)) return cb(*v);
            return cb(vnull());
        }
        case E::Any: {
            if (!val.hasNode || !nodeSize(val)) return cb(vnull());
            for (size_t i = 0; i < nodeSize(val); ++i)
                if (!cb(*at(val, (int64_t)i))) return false;
            return true;
        }
        case E::Wild: {
            if (!val.hasNode) {
                if (val.k != RV::Null) throw Unspec("** on a computed value");
                return cb(vnull());
            }
            bool go = wild(val, cb, n);
            return go && !n ? cb(vnull()) : go;
        }
        case E::Path: {
            bool go = ev(*e.a[0], val, [&](const RV& l) {
                if (nothing(l)) return true;
                return ev(*e.a[1], l, [&](const RV& r) { return nothing(r) ? true : emit(r); });
            });
            return go && !n ? cb(vnull()) : go;
        }
        case E::Sub: {
            bool go = ev(*e.a[0], val, [&](const RV& l) {
                return ev(*e.a[1], l, [&](const RV& r) { return truthy(r) ? emit(l) : true; });
            });
            return go && !n ? cb(vnull()) : go;
        }
        case E::Idx: {
            bool go = ev(*e.a[0], val, [&](const RV& l) {
                return ev(*e.a[1], val, [&](const RV& i) {
                    if (l.hasNode) {
                        std::optional<RV> r;
                        if (i.k == RV::Int) r = at(l, i.i);
                        else if (i.k == RV::Str) {
                            if (i.s.empty()) throw Unspec("empty key");
                            r = get(l, i.s);
                        }
                        if (r) return emit(*r);
                        ++warnings;
                        return true;
                    }
                    if (l.transient() || i.transient()) {
                        if (l.k == RV::Null && i.k == RV::Re) return emit(vnull());
                        if (l.k == RV::Re && i.k == RV::Null) return emit(vnull());
                        throw RefError("subscript of transient");
                    }
                    if (l.k == RV::Null || i.k == RV::Null) return emit(vnull());
                    if (l.k == RV::Str && i.k == RV::Int)
                        return emit(i.i >= 0 && (uint64_t)i.i < l.s.size() ? vstr(l.s.substr(i.i, 1)) : vnull());
                    throw RefError("subscript");
                });
            });
            return go && !n ? cb(vnull()) : go;
        }
        case E::Un: return ev(*e.a[0], val, [&](const RV& v) { return cb(unary(e.name, v)); });
        case E::Cast:
            if (e.name == "null") return cb(vnull());
            return ev(*e.a[0], val, [&](const RV& v) { return cb(unary(e.name, v)); });
        case E::Post:
            if (e.name == "?") return ev(*e.a[0], val, [&](const RV& v) { return cb(unary("?", v)); });
            return ev(*e.a[0], val, [&](const RV& v) {
                if (v.k == RV::Re) throw RefError("unpack re");
                if (v.k != RV::Range) return cb(v);
                for (__int128 i = v.i, s = v.i <= v.i2 ? 1 : -1;; i += s) {
                    if (!cb(vint((int64_t)i))) return false;
                    if ((int64_t)i == v.i2) return true;
                }
            });
        case E::Bin:
            return ev(*e.a[0], val, [&](const RV& l) {
                return ev(*e.a[1], val, [&](const RV& r) { return cb(binary(e.name, l, r)); });
            });
        case E::And:
            return ev(*e.a[0], val, [&](const RV& l) { return !truthy(l) ? cb(l) : ev(*e.a[1], val, cb); });
        case E::Or:
            return ev(*e.a[0], val, [&](const RV& l) { return truthy(l) ? cb(l) : ev(*e.a[1], val, cb); });
        case E::Call: {
            bool go = fn(e, val, emit);
            return go && !n ? cb(vnull()) : go;
        }
        }
        return true;
    }

    RV single(const E& e, const RV& val, const char* what)
    {
        std::optional<RV> r;
        ev(e, val, [&](const RV& v) {
            if (r) throw RefError(std::string(what) + " must be a single value");
            r = v;
            return true;
        });
        return *r;
    }
    RV typed(const E& e, const RV& val, RV::K k, const char* what)
    {
        RV r = single(e, val, what);
        if (r.k != k) throw RefError(std::string(what) + " has the wrong type");
        return r;
    }
    void args(const E& e, size_t lo, size_t hi)
    {
        if (e.a.size() < lo || e.a.size() > hi) throw RefError("argument count");
    }

    bool fn(const E& e, const RV& val, const Cb& cb)
    {
        const auto& f = e.name;
        if (f == "any") {
            args(e, 1, 1000);
            bool r = false;
            for (auto& a : e.a) {
                ev(*a, val, [&](const RV& v) { r = truthy(v); return !r; });
                if (r) break;
            }
            return cb(vbool(r));
        }
        if (f == "each" || f == "all") {
            args(e, 1, 1000);
            bool r = true;
            for (auto& a : e.a) {
                ev(*a, val, [&](const RV& v) { r = truthy(v); return r; });
                if (!r) break;
            }
            return cb(vbool(r));
        }
        if (f == "count") {
            args(e, 1, 1000);
            int64_t c = 0;
            for (auto& a : e.a) ev(*a, val, [&](const RV& v) { c += truthy(v); return true; });
            return cb(vint(c));
        }
        if (f == "trace") {
            args(e, 1, 3);
            int64_t limit = e.a.size() > 1 ? typed(*e.a[1], val, RV::Int, "limit").i : -1;
            std::string name = e.a.size() > 2 ? typed(*e.a[2], val, RV::Str, "name").s : "";
            std::vector<std::string> seen;
            bool go = ev(*e.a[0], val, [&](const RV& v) { seen.push_back(canon(v)); return cb(v); });
            auto& t = traces[name];
            ++t.calls;
            for (auto& s : seen)
                if (limit < 0 || (int64_t)t.values.size() < limit) t.values.push_back(s);
            return go;
        }
        if (f == "range") {
            args(e, 2, 2);
            auto a = typed(*e.a[0], val, RV::Int, "begin"), b = typed(*e.a[1], val, RV::Int, "end");
            return cb(vrange(a.i, b.i));
        }
        if (f == "re") {
            args(e, 1, 1);
            return ev(*e.a[0], val, [&](const RV& v) {
                if (v.k == RV::Re) return cb(v);
                if (v.k != RV::Str) throw RefError("re type");
                try { std::regex r(v.s); } catch (const std::regex_error&) { throw RefError("re pattern"); }
                return cb(vre(v.s));
            });
        }
        if (f == "arr") {
            for (auto& a : e.a)
                if (!ev(*a, val, cb)) return false;
            return true;
        }
        if (f == "split") {
            args(e, 2, 3);
            auto s = typed(*e.a[0], val, RV::Str, "string").s, at = typed(*e.a[1], val, RV::Str, "separator").s;
            bool keep = e.a.size() > 2 ? typed(*e.a[2], val, RV::Bool, "keepEmpty").b : true;
            if (s.empty()) return true;
            if (at.empty()) return cb(vstr(s));
            std::string item;
            auto flush = [&] { bool go = item.empty() && !keep ? true : cb(vstr(item)); item.clear(); return go; };
            for (size_t i = 0; i < s.size();) {
                if (s.compare(i, at.size(), at) == 0) {
                    if (!flush()) return false;
                    i += at.size();
                } else
                    item += s[i++];
            }
            return flush();
        }
        if (f == "select") {
            args(e, 2, 3);
            auto at = typed(*e.a[1], val, RV::Int, "index").i;
            auto cnt = e.a.size() > 2 ? typed(*e.a[2], val, RV::Int, "limit").i : 1;
            __int128 pos = -1, end = cnt <= 0 ? (__int128)1 << 100 : (__int128)at + cnt;
            bool go = true;
            ev(*e.a[0], val, [&](const RV& v) {
                ++pos;
                if (pos >= end) return false;
                if (pos >= at) return go = cb(v);
                return true;
            });
            return go;
        }
        if (f == "sum") {
            args(e, 1, 3);
            RV sum = vint(0);
            if (e.a.size() > 2) ev(*e.a[2], val, [&](const RV& v) { sum = v; return true; });
            int64_t i = 0;
            ev(*e.a[0], val, [&](const RV& v) {
                if (e.a.size() > 1) {
                    RV o;
                    o.k = RV::Node;
                    o.hasNode = true;
                    o.ov = std::make_shared<Overlay>();
                    o.ov->base = v;
                    o.ov->kids = {{"$sum", sum}, {"$val", v}, {"$idx", vint(i++)}};
                    auto ov = o.ov;
                    ev(*e.a[1], o, [&](const RV& r) { ov->kids["$sum"] = r; sum = r; return true; });
                } else {
                    if (v.k == RV::Null || sum.k == RV::Null) throw Unspec("default sum of null");
                    sum = binary("+", sum, v);
                }
                return true;
            });
            return cb(sum);
        }
        if (f == "keys") {
            args(e, 1, 1);
            return ev(*e.a[0], val, [&](const RV& v) {
                const J* j = v.j;
                if (v.ov) throw Unspec("keys of overlay");
                if (!j) return true;
                if (j->k == J::Arr && !j->arr.empty()) throw Unspec("keys of array");
                for (auto& [k, x] : j->obj)
                    if (!cb(vstr(k))) return false;
                return true;
            });
        }
        throw RefError("unknown function " + f);
    }
};

/// Outcome of a run: results, or the fact that it raised.
struct Outcome
{
    bool raised = false;
    std::string error;
    std::vector<std::string> values;
    size_t warnings = 0;
    std::map<std::string, Interp::TraceRec> traces;

    std::string text() const
    {
        if (raised) return "raised: " + error;
        std::string r = std::to_string(values.size()) + " values:";
        for (size_t i = 0; i < values.size() && i < 30; ++i) r += " " + values[i];
        return r;
    }
};

inline Outcome evaluate(const E& e, const J& doc, size_t budget = 20000)
{
    Interp in;
    in.budget = budget;
    Outcome o;
    try {
        in.ev(e, vnode(&doc), [&](const RV& v) { o.values.push_back(canon(v)); return true; });
    } catch (const RefError& err) {
        o.raised = true;
        o.error = err.what();
        o.values.clear();
    }
    o.warnings = in.warnings;
    o.traces = std::move(in.traces);
    return o;
}

} // namespace ref
