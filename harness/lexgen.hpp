// Workload generators on token level.
#pragma once
#include "reflex.hpp"

namespace gen {
using vh::Rng;

inline std::string randCase(Rng& r, std::string s)
{
    for (auto& c : s)
        if (ref::isAlpha(c) && r.chance(50)) c ^= 32;
    return s;
}

inline std::string digits(Rng& r, int lo, int hi, const char* set = "0123456789")
{
    std::string s;
    size_t n = strlen(set);
    for (int k = (int)r.range(lo, hi); k > 0; --k) s += set[r.below(n)];
    return s;
}

inline std::string intLit(Rng& r)
{
    switch (r.below(8)) {
    case 0: return std::to_string(r.below(10));
    case 1: return std::to_string(r.below(100000));
    case 2: return std::to_string(r.next() >> (1 + r.below(62)));
    case 3: return r.pick({"9223372036854775807", "9223372036854775808", "9223372036854775806", "4294967296", "2147483648",
                           "18446744073709551615", "18446744073709551616", "36893488147419103232", "9999999999999999999", "0", "00", "007"});
    case 4: return std::string(r.chance(50) ? "0x" : "0X") + digits(r, r.chance(95) ? 1 : 0, r.chance(80) ? 16 : 19, "0123456789abcdefABCDEF");
    case 5: return std::string(r.chance(50) ? "0b" : "0B") + digits(r, r.chance(95) ? 1 : 0, r.chance(50) ? 12 : 67, r.chance(90) ? "01" : "012");
    case 6: return std::string(r.below(30), '0') + digits(r, 1, 19);
    default: return digits(r, 1, 25);
    }
}

inline std::string expPart(Rng& r)
{
    if (r.chance(60)) return "";
    std::string s = r.chance(50) ? "e" : "E";
    s += r.pick({"", "", "-", "+"});
    if (r.chance(97)) s += r.pick(std::vector<std::string>{"0", "1", "2", "5", "10", "00", "007", std::to_string(r.below(40)), std::to_string(r.below(280)), std::to_string(r.below(400))});
    return s;
}

inline std::string floatLit(Rng& r)
{
    switch (r.below(4)) {
    case 0: return digits(r, 1, 6) + "." + digits(r, 0, 8) + expPart(r);
    case 1: return "." + digits(r, 1, 8) + expPart(r);
    case 2: return digits(r, 1, 20) + expPart(r);
    default: return digits(r, 1, 22) + "." + digits(r, 0, 22) + expPart(r);
    }
}

inline std::string stringLit(Rng& r)
{
    std::string pre = r.pick({"", "", "r", "R", "re", "RE", "Re", "rE"});
    char q = r.chance(50) ? '\'' : '"';
    static const std::string chars = "ab n\\\\\\'\"rt0.*[](){}$_\n\t\x01\x7f";
    std::string s = pre + q;
    for (auto n = r.below(9); n > 0; --n) {
        if (r.chance(8)) { s += (char)r.below(256); continue; }
        char c = chars[r.below(chars.size())];
        if (c == q && r.chance(70)) s += '\\';
        s += c;
    }
    if (r.chance(96)) s += q;
    return s;
}

inline std::string word(Rng& r)
{
    if (r.chance(30)) {
        auto k = ref::keywords()[r.below(ref::keywords().size())].first;
        switch (r.below(4)) {
        case 0: return k + std::string(1, "abZ_0"[r.below(5)]);
        case 1: return std::string(1, "abZ_$"[r.below(5)]) + k;
        default: return randCase(r, k);
        }
    }
    static const std::string st = "abcdefrxyzABERX__$\\", ct = "abcdefrexyzABEX0123456789__\\$";
    std::string s(1, st[r.below(st.size())]);
    if (s[0] == '\\') s += (char)(r.chance(80) ? r.range(32, 126) : r.below(256));
    for (auto n = r.below(7); n > 0; --n) {
        char c = ct[r.below(ct.size() - (r.chance(95) ? 1 : 0))];
        s += c;
        if (c == '\\') s += (char)(r.chance(80) ? r.range(32, 126) : r.below(256));
    }
    return s;
}

inline std::string anyToken(Rng& r)
{
    switch (r.below(10)) {
    case 0: return intLit(r);
    case 1: return floatLit(r);
    case 2: case 3: return stringLit(r);
    case 4: case 5: return word(r);
    case 6: return randCase(r, ref::keywords()[r.below(ref::keywords().size())].first);
    default: return ref::symbols()[r.below(ref::symbols().size())].first;
    }
}

inline std::string space(Rng& r, bool need = false)
{
    std::string s;
    static const std::string ws = "    \t\n\r\v\f";
    for (auto n = r.below(3) + (need ? 1 : 0); n > 0; --n) s += ws[r.below(ws.size())];
    return s;
}

/// Valid and invalid token soup.
inline std::string tokenSoup(Rng& r, int maxTok = 12)
{
    std::string s = r.chance(20) ? space(r) : "";
    bool glue = r.chance(30);
    for (auto n = r.below(maxTok) + 1; n > 0; --n) {
        s += anyToken(r);
        if (!(glue && r.chance(60))) s += space(r, r.chance(70));
    }
    return s;
}

inline std::string hostileBytes(Rng& r)
{
    static const std::vector<std::string> alpha = {
        "a", "e", "E", "r", "R", "x", "X", "b", "B", "_", "$", "\\", "0", "1", "9", ".", "+", "-", "*", "<", ">", "=",
        "!", "'", "\"", " ", "\n", "\t", "(", ")", "[", "]", "{", "}", ",", ":", "#", "?", "%", "/", "^", "&", "|", "~",
        "@", "`", ";", "and", "or", "as", "null", "re'", "r\"", "0x", "0b", "...", "**", "1e", "e5", "not", "typeof"};
    std::string s;
    for (auto n = r.below(14) + 1; n > 0; --n) {
        if (r.chance(3)) s += (char)r.below(256);
        else s += alpha[r.below(alpha.size())];
    }
    return s;
}

inline std::string mutate(Rng& r, std::string s)
{
    for (auto n = r.below(3) + 1; n > 0; --n) {
        size_t p = r.below(s.size() + 1);
        switch (r.below(5)) {
        case 0: if (p < s.size()) s.erase(p, 1); break;
        case 1: s.insert(p, 1, (char)(r.chance(85) ? r.range(32, 126) : r.below(256))); break;
        case 2: if (p < s.size()) s[p] = (char)(r.chance(85) ? r.range(32, 126) : r.below(256)); break;
        case 3: s.resize(p); break;
        default: s.insert(p, s.substr(r.below(s.size() + 1), r.below(5))); break;
        }
    }
    return s;
}

} // namespace gen
