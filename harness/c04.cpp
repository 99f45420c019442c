// C04: the location of every token is the exact slice of the query it was read from.
#include "lexgen.hpp"
using namespace simfil;
using vh::Harness;
using vh::Rng;

static void check(Harness& h, const std::string& in)
{
    h.input(in);
    std::vector<Token> t;
    try {
        t = tokenize(in);
    } catch (const std::exception&) {
        h.count("rejected");
        return;
    }
    if (t.empty() || t.back().type != Token::NIL) return h.violation("no-end", "token list does not end with the end marker");
    auto want = ref::lex(in);
    size_t last = 0;
    bool space = false, multi = false;
    for (size_t i = 0; i + 1 < t.size(); ++i) {
        auto& k = t[i];
        auto where = "token " + std::to_string(i) + " " + ref::show(k) + " at [" + std::to_string(k.begin) + "," + std::to_string(k.end) + ")";
        if (k.type == Token::NIL) return h.violation("end-inside", where);
        if (!(k.begin < k.end)) return h.violation("empty-range", where);
        if (k.end > in.size()) return h.violation("outside-input", where);
        if (k.begin < last) return h.violation("overlap", where + " starts before the end of its predecessor");
        for (size_t p = last; p < k.begin; ++p)
            if (!ref::isWs(in[p])) return h.violation("uncovered", where + ": input byte " + std::to_string(p) + " belongs to no token");
        space = space || k.begin > last;
        multi = multi || k.end - k.begin > 1;
        last = k.end;
        // The slice alone denotes the same token.
        std::vector<Token> s;
        try {
            s = tokenize(std::string_view(in).substr(k.begin, k.end - k.begin));
        } catch (const std::exception& e) {
            return h.violation("slice", where + ": slice is no token: " + e.what());
        }
        auto eq = [](const Token& a, const Token& b) {
            if (a.type != b.type || a.value.index() != b.value.index()) return false;
            if (auto d = std::get_if<double>(&a.value)) return *d == std::get<double>(b.value) || *d != *d;
            return a.value == b.value;
        };
        if (s.size() != 2 || !eq(s[0], k)) return h.violation("slice", where + ": slice denotes something else");
        if (want.ok && i < want.toks.size() && (want.toks[i].begin != k.begin || want.toks[i].end != k.end))
            return h.violation("reference", where + ": reference location is [" + std::to_string(want.toks[i].begin) + "," + std::to_string(want.toks[i].end) + ")");
        h.count("tokens");
    }
    for (size_t p = last; p < in.size(); ++p)
        if (!ref::isWs(in[p])) return h.violation("uncovered", "trailing byte " + std::to_string(p) + " belongs to no token");
    h.count("accepted");
    if (space && multi) h.distinct(in);
    if (t.size() > 4) h.sample(in);
}

int main(int argc, char** argv)
{
    Harness h(argc, argv, "C04");
    return h.run([](Harness& h, Rng& r, uint64_t i) {
        for (int k = 0; k < 25; ++k) {
            check(h, gen::tokenSoup(r));
            check(h, gen::hostileBytes(r));
            check(h, gen::space(r) + gen::anyToken(r) + gen::space(r) + gen::anyToken(r) + gen::space(r));
            check(h, gen::mutate(r, gen::tokenSoup(r, 5)));
        }
        if (i % 16 == 0) check(h, gen::tokenSoup(r, 500));
        if (i % 64 == 0) check(h, std::string(r.range(1, 70000), ' ') + gen::anyToken(r) + " " + gen::anyToken(r));
    });
}
