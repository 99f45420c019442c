// C02: numeric literals denote exactly the number that is written, or are rejected.
#include "lexgen.hpp"
using namespace simfil;
using vh::Harness;
using vh::Rng;

// Embeds the literal between other tokens; returns the token of the literal, or nothing if rejected.
static std::optional<Token> scan(Harness& h, Rng& r, const std::string& lit, std::string* ctx = nullptr)
{
    static const std::vector<std::string> pre = {"", "(", "a+", "-", "[", "x ", "'s'*", "1 ", "~", "a==", "\n", "/"};
    static const std::vector<std::string> post = {"", ")", "+1", "-1", "*x", "]", " x", " 's'", ",", "<<2", "==0", "\t", "-", "?", " e5", " .5", "[0]"};
    auto a = pre[r.below(pre.size())], b = post[r.below(post.size())];
    std::string in = a + lit + b;
    h.input(in);
    std::vector<Token> p, t;
    try {
        if (!a.empty()) p = tokenize(a);
        t = tokenize(in);
    } catch (const std::exception&) {
        return {};
    }
    size_t idx = p.empty() ? 0 : p.size() - 1;
    if (idx >= t.size()) { h.violation("lost", "literal has no token"); return {}; }
    return t[idx];
}

static void wantInt(Harness& h, Rng& r, const std::string& lit, int64_t v)
{
    auto t = scan(h, r, lit);
    if (!t) return h.violation("rejects-valid-int", "valid integer literal rejected: " + lit);
    auto g = std::get_if<int64_t>(&t->value);
    if (t->type != Token::INT || !g || *g != v)
        return h.violation("wrong-int", lit + " denotes " + std::to_string(v) + ", got " + ref::show(*t));
    h.count("int");
    h.distinct(lit);
}

static void wantFloat(Harness& h, Rng& r, const std::string& lit, long double v)
{
    auto t = scan(h, r, lit);
    if (!t) return h.violation("rejects-valid-float", "valid float literal rejected: " + lit);
    auto g = std::get_if<double>(&t->value);
    if (t->type != Token::FLOAT || !g || !ref::closeTo(*g, v)) {
        char b[80];
        snprintf(b, 80, "%.20Lg", v);
        return h.violation("wrong-float", lit + " denotes " + b + ", got " + ref::show(*t));
    }
    h.count("float");
    h.distinct(lit);
    h.sample(lit + " -> " + ref::show(*t));
}

static void wantReject(Harness& h, Rng& r, const std::string& lit)
{
    auto t = scan(h, r, lit);
    if (t) return h.violation("accepts-malformed", lit + " is no number, but was accepted as " + ref::show(*t));
    h.count("malformed");
    h.distinct("!" + lit);
}

int main(int argc, char** argv)
{
    Harness h(argc, argv, "C02");
    return h.run([](Harness& h, Rng& r, uint64_t i) {
        for (int k = 0; k < 40; ++k) {
            // Integers of every magnitude, in all three bases, with leading zeros.
            uint64_t v = r.next() >> r.below(64);
            if (r.chance(10)) v = r.pick({(uint64_t)INT64_MAX, (uint64_t)INT64_MAX + 1, UINT64_MAX, (uint64_t)1 << 32, (uint64_t)1 << 53, ((uint64_t)1 << 53) + 1, (uint64_t)0, (uint64_t)INT64_MAX - r.below(10)});
            std::string z(r.chance(20) ? r.below(25) : 0, '0');
            char buf[80];
            snprintf(buf, 80, r.chance(50) ? "%" PRIx64 : "%" PRIX64, v);
            wantInt(h, r, (r.chance(70) ? "0x" : "0X") + z + gen::randCase(r, buf), (int64_t)v);
            std::string bin;
            for (uint64_t x = v; x; x >>= 1) bin.insert(bin.begin(), char('0' + (x & 1)));
            wantInt(h, r, (r.chance(70) ? "0b" : "0B") + z + (bin.empty() ? "0" : bin), (int64_t)v);
            auto dec = z + std::to_string(v);
            if (v <= (uint64_t)INT64_MAX) {
                wantInt(h, r, dec, (int64_t)v);
                if (r.chance(20)) wantInt(h, r, dec + r.pick({"e0", "E0", "e-0", "e+0", "E00"}), (int64_t)v);
            } else
                wantReject(h, r, dec);
            // Powers of the bases and their neighbours.
            if (i < 64) {
                uint64_t p = (uint64_t)1 << i;
                for (uint64_t x : {p - 1, p, p + 1}) {
                    snprintf(buf, 80, "0x%" PRIx64, x);
                    wantInt(h, r, buf, (int64_t)x);
                    if (x <= (uint64_t)INT64_MAX) wantInt(h, r, std::to_string(x), (int64_t)x);
                }
            }
            // Out of range.
            wantReject(h, r, "0x" + std::string(1, "123456789abcdef"[r.below(15)]) + gen::digits(r, 16, 20, "0123456789abcdef"));
            wantReject(h, r, "0b1" + gen::digits(r, 64, 70, "01"));
            wantReject(h, r, std::string(1, "123456789"[r.below(9)]) + gen::digits(r, 19, 40));

            // Decimal fractions and exponents.
            auto ip = gen::digits(r, 0, (int)r.pick({3, 17, 30})), fp = gen::digits(r, ip.empty() ? 1 : 0, (int)r.pick({3, 17, 30}));
            if (r.chance(20)) fp = std::string(r.below(12), '0') + fp;
            if (ip.empty() && fp.empty()) fp = "5";
            std::string lit = ip + "." + fp;
            wantFloat(h, r, lit, strtold((ip.empty() ? "0" + lit : lit).c_str(), nullptr));
            auto e = r.range(-250, 250);
            if (r.chance(50)) e = r.range(-12, 12);
            std::string es = (e < 0 ? "-" : r.chance(30) ? "+" : "") + std::string(r.chance(10) ? 2 : 0, '0') + std::to_string(e < 0 ? -e : e);
            auto le = lit + (r.chance(50) ? "e" : "E") + es;
            wantFloat(h, r, le, strtold(((ip.empty() ? "0" : "") + le).c_str(), nullptr));
            if (!ip.empty() && e != 0) {
                auto ie = ip + (r.chance(50) ? "e" : "E") + es;
                wantFloat(h, r, ie, strtold(ie.c_str(), nullptr));
            }
            // Doubles printed with full precision read back as the same number.
            uint64_t bits = r.next();
            double d;
            memcpy(&d, &bits, 8);
            d = std::fabs(d);
            if (std::isfinite(d) && d > 1e-280 && d < 1e280) {
                snprintf(buf, 80, "%.17e", d);
                wantFloat(h, r, buf, d);
            }
            if (r.chance(30)) {
                snprintf(buf, 80, "%.17g", (double)r.range(-1000000, 1000000) / 64);
                std::string s = buf[0] == '-' ? buf + 1 : buf;
                if (s.find_first_of(".e") != std::string::npos) wantFloat(h, r, s, strtold(s.c_str(), nullptr));
            }

            // Malformed numbers are errors, never silently something else.
            auto n = std::to_string(r.below(100000)), fl = n + "." + gen::digits(r, 0, 4);
            std::string letter(1, "acdfghijklmnopqrstuvwyzACDFGHZ"[r.below(30)]);
            switch (r.below(14)) {
            case 0: wantReject(h, r, n + letter); break;
            case 1: wantReject(h, r, fl + letter); break;
            case 2: wantReject(h, r, n + "e" + r.pick({" ", ")", "_", "-", "+"}) + " "); break;
            case 3: wantReject(h, r, fl + "E" + r.pick({" ", ")", "_", "-", "+"}) + " "); break;
            case 4: wantReject(h, r, n + "e- "); break;
            case 5: wantReject(h, r, fl + "e+x"); break;
            case 6: wantReject(h, r, n + "e5" + letter); break;
            case 7: wantReject(h, r, n + "e5.5"); break;
            case 8: wantReject(h, r, fl + "." + n); break;
            case 9: wantReject(h, r, "0b" + gen::digits(r, 0, 20, "01") + std::string(1, "23456789"[r.below(8)]) + gen::digits(r, 0, 5, "01")); break;
            case 10: wantReject(h, r, std::string(r.chance(50) ? "0x" : "0X") + gen::digits(r, 0, 10, "0123456789abcdef") + std::string(1, "ghijklmnopqrstuvwyz"[r.below(19)])); break;
            case 11: wantReject(h, r, "0x" + gen::digits(r, 0, 6, "0123456789abcdef") + "." + n); break;
            case 12: wantReject(h, r, "0b" + gen::digits(r, 0, 6, "01") + (r.chance(50) ? "e2" : ".1")); break;
            default: wantReject(h, r, std::string(r.pick({"0x", "0b", "0X", "0B"})) + r.pick({" ", "+", "z"})); break;
            }
        }
    });
}
