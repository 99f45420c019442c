// Independent reference lexer for the simfil language, written from simfil-language.md and the
// documented token set. Used as the oracle; shares no code with simfil.
#pragma once

#include "common.hpp"
#include "simfil/token.h"

namespace ref {

using simfil::Token;

struct RTok
{
    Token::Type type;
    std::string text;    // STRING, REGEXP, WORD
    int64_t i = 0;       // INT
    long double f = 0;   // FLOAT
    bool fUnspecified = false;
    size_t begin = 0, end = 0;
};

struct Lexed
{
    bool ok = true;
    bool unspecified = false;  // The documentation does not say what this input means.
    std::string why;
    std::vector<RTok> toks;
};

inline bool isWs(unsigned char c) { return c == ' ' || (c >= 9 && c <= 13); }
inline bool isDig(unsigned char c) { return c >= '0' && c <= '9'; }
inline bool isAlpha(unsigned char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool isHex(unsigned char c) { return isDig(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline char low(char c) { return c >= 'A' && c <= 'Z' ? char(c + 32) : c; }
inline std::string lower(std::string s)
{
    for (auto& c : s) c = low(c);
    return s;
}

inline const std::vector<std::pair<std::string, Token::Type>>& keywords()
{
    static const std::vector<std::pair<std::string, Token::Type>> k = {
        {"_", Token::SELF}, {"and", Token::OP_AND}, {"or", Token::OP_OR}, {"not", Token::OP_NOT},
        {"typeof", Token::OP_TYPEOF}, {"true", Token::C_TRUE}, {"false", Token::C_FALSE},
        {"null", Token::C_NULL}, {"as", Token::OP_CAST}};
    return k;
}

/// Operators and punctuation; the longest spelling wins.
inline const std::vector<std::pair<std::string, Token::Type>>& symbols()
{
    static const std::vector<std::pair<std::string, Token::Type>> k = {
        {"...", Token::OP_UNPACK}, {"**", Token::WILDCARD}, {"<<", Token::OP_LSHIFT}, {">>", Token::OP_RSHIFT},
        {"<=", Token::OP_LTEQ}, {">=", Token::OP_GTEQ}, {"==", Token::OP_EQ}, {"!=", Token::OP_NOT_EQ},
        {"=", Token::OP_EQ}, {"(", Token::LPAREN}, {")", Token::RPAREN}, {"[", Token::LBRACK}, {"]", Token::RBRACK},
        {"{", Token::LBRACE}, {"}", Token::RBRACE}, {",", Token::COMMA}, {":", Token::COLON}, {".", Token::DOT},
        {"+", Token::OP_ADD}, {"-", Token::OP_SUB}, {"*", Token::OP_TIMES}, {"/", Token::OP_DIV}, {"%", Token::OP_MOD},
        {"~", Token::OP_BITINV}, {"|", Token::OP_BITOR}, {"&", Token::OP_BITAND}, {"#", Token::OP_LEN},
        {"^", Token::OP_BITXOR}, {"?", Token::OP_BOOL}, {"<", Token::OP_LT}, {">", Token::OP_GT}};
    return k;
}

class Lexer
{
public:
    explicit Lexer(std::string_view s) : s(s) {}

    Lexed run()
    {
        Lexed r;
        size_t p = 0;
        while (true) {
            while (p < s.size() && isWs(s[p])) ++p;
            if (p >= s.size()) break;
            RTok t{};
            t.begin = p;
            bool ok = number(p, t) || string(p, t) || word(p, t, r) || symbol(p, t);
            if (!error.empty() || !ok) {
                r.ok = false;
                r.why = error.empty() ? "invalid character" : error;
                break;
            }
            t.end = p;
            r.toks.push_back(std::move(t));
        }
        if (r.ok) {
            RTok t{};
            t.type = Token::NIL;
            r.toks.push_back(t);
        }
        return r;
    }

private:
    unsigned char at(size_t p) const { return p < s.size() ? (unsigned char)s[p] : 0; }

    bool number(size_t& p, RTok& t)
    {
        size_t q = p;
        int base = 10;
        if (at(q) == '0' && low(at(q + 1)) == 'x') base = 16;
        if (at(q) == '0' && low(at(q + 1)) == 'b') base = 2;
        if (base != 10) {
            q += 2;
            size_t d = q;
            while (base == 16 ? isHex(at(q)) : isDig(at(q))) ++q;
            if (q == d) return err("no digit after the base prefix");
            unsigned __int128 v = 0;
            bool big = false;
            for (size_t i = d; i < q; ++i) {
                int dv = isDig(s[i]) ? s[i] - '0' : low(s[i]) - 'a' + 10;
                if (dv >= base) return err("invalid digit");
                v = v * base + dv;
                if (v >> 64) big = true, v &= 0xffffffff;
            }
            if (isAlpha(at(q)) || at(q) == '.') return err("garbage after number");
            if (big) return err("integer too big");
            t.type = Token::INT;
            t.i = (int64_t)(uint64_t)v;
            p = q;
            return true;
        }
        if (!isDig(at(q)) && !(at(q) == '.' && isDig(at(q + 1)))) return false;
        std::string digits, frac, exp;
        bool dot = false, neg = false, hasExp = false;
        while (isDig(at(q))) digits += s[q++];
        if (at(q) == '.') {
            dot = true;
            ++q;
            while (isDig(at(q))) frac += s[q++];
        }
        if (low(at(q)) == 'e') {
            hasExp = true;
            ++q;
            if (at(q) == '-' || at(q) == '+') neg = s[q++] == '-';
            while (isDig(at(q))) exp += s[q++];
            if (exp.empty()) return err("no exponent digit");
        }
        if (isAlpha(at(q)) || at(q) == '.') return err("garbage after number");
        bool expZero = exp.find_first_not_of('0') == std::string::npos;
        p = q;
        if (!dot && expZero) {
            t.type = Token::INT;
            auto d = digits.find_first_not_of('0');
            std::string sig = d == std::string::npos ? "0" : digits.substr(d);
            static const std::string max = "9223372036854775807";
            if (sig.size() > max.size() || (sig.size() == max.size() && sig > max)) return err("integer too big");
            t.i = (int64_t)std::stoull(sig);
            return true;
        }
        t.type = Token::FLOAT;
        std::string lit = (digits.empty() ? "0" : digits) + "." + (frac.empty() ? "0" : frac);
        if (hasExp) lit += std::string("e") + (neg ? "-" : "+") + exp;
        t.f = std::strtold(lit.c_str(), nullptr);
        long double m = std::strtold((digits + "." + frac + "0").c_str(), nullptr);
        // The precision near the limits of double is not specified.
        auto e = exp.size() > 6 ? 999999 : exp.empty() ? 0 : std::stoi(exp);
        t.fUnspecified = e > 290 || digits.size() > 290 || frac.size() > 290 || (t.f != 0 && (fabsl(t.f) > 1e290L || fabsl(t.f) < 1e-290L)) || (m == 0 && e > 290);
        return true;
    }

    bool string(size_t& p, RTok& t)
    {
        size_t q = p;
        auto isQ = [](char c) { return c == '\'' || c == '"'; };
        bool raw = false, re = false;
        if (low(at(q)) == 'r' && isQ(at(q + 1))) { raw = true; q += 1; }
        else if (low(at(q)) == 'r' && low(at(q + 1)) == 'e' && isQ(at(q + 2))) { re = true; q += 2; }
        if (!isQ(at(q))) return false;
        char quote = s[q++];
        while (true) {
            if (q >= s.size()) return err("unterminated string");
            char c = s[q];
            if (c == quote) { ++q; break; }
            if (c != '\\') { t.text += c; ++q; continue; }
            ++q;
            if (q >= s.size()) return err("unterminated string");
            char n = s[q];
            if (raw || re) {
                if (n == quote) { t.text += n; ++q; }
                else t.text += '\\';
                continue;
            }
            t.text += n == 'n' ? '\n' : n == 'r' ? '\r' : n == 't' ? '\t' : n;
            ++q;
        }
        t.type = re ? Token::REGEXP : Token::STRING;
        p = q;
        return true;
    }

    bool word(size_t& p, RTok& t, Lexed& r)
    {
        size_t q = p;
        auto start = [&](char c) { return isAlpha(c) || c == '_' || c == '\\' || c == '$'; };
        if (!start(at(q))) return false;
        bool escaped = false;
        while (q < s.size() && (q == p ? start(s[q]) : (isAlpha(s[q]) || isDig(s[q]) || s[q] == '_' || s[q] == '\\'))) {
            if (s[q] == '\\') {
                escaped = true;
                if (++q >= s.size()) return err("unfinished escape");
            }
            t.text += s[q++];
        }
        t.type = Token::WORD;
        auto l = lower(t.text);
        for (auto& [k, ty] : keywords())
            if (k == l) {
                t.type = ty;
                t.text.clear();
                if (escaped) r.unspecified = true;
            }
        p = q;
        return true;
    }

    bool symbol(size_t& p, RTok& t)
    {
        const std::pair<std::string, Token::Type>* best = nullptr;
        for (auto& k : symbols())
            if (s.substr(p, k.first.size()) == k.first && (!best || k.first.size() > best->first.size())) best = &k;
        if (!best) return false;
        t.type = best->second;
        p += best->first.size();
        return true;
    }

    bool err(const char* w)
    {
        error = w;
        return false;
    }

    std::string_view s;
    std::string error;
};

inline Lexed lex(std::string_view s) { return Lexer(s).run(); }

inline bool closeTo(double a, long double b)
{
    if (b == 0) return a == 0;
    return std::isfinite(a) && fabsl((long double)a - b) <= fabsl(b) * 1e-12L;
}

inline std::string show(const Token& t)
{
    std::string v;
    if (auto s = std::get_if<std::string>(&t.value)) v = vh::quote(*s);
    else if (auto i = std::get_if<int64_t>(&t.value)) v = std::to_string(*i);
    else if (auto d = std::get_if<double>(&t.value)) { char b[64]; snprintf(b, 64, "%.17g", *d); v = b; }
    return "type#" + std::to_string((int)t.type) + "(" + v + ")";
}
inline std::string show(const RTok& t)
{
    char b[64];
    snprintf(b, 64, "%.17Lg", t.f);
    std::string v = t.type == Token::INT ? std::to_string(t.i) : t.type == Token::FLOAT ? std::string(b)
        : (t.type == Token::STRING || t.type == Token::REGEXP || t.type == Token::WORD) ? vh::quote(t.text) : "";
    return "type#" + std::to_string((int)t.type) + "(" + v + ")";
}

/// Same kind and value?
inline bool same(const Token& a, const RTok& b)
{
    if (a.type != b.type) return false;
    switch (b.type) {
    case Token::INT: { auto v = std::get_if<int64_t>(&a.value); return v && *v == b.i; }
    case Token::FLOAT: { auto v = std::get_if<double>(&a.value); return v && (b.fUnspecified || closeTo(*v, b.f)); }
    case Token::STRING: case Token::REGEXP: case Token::WORD: {
        auto v = std::get_if<std::string>(&a.value);
        return v && *v == b.text;
    }
    default: return true;
    }
}

} // namespace ref
