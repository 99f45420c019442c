// C01: token stream == independent reference lexer, on any byte string.
#include "lexgen.hpp"
using namespace simfil;
using vh::Harness;
using vh::Rng;

static void check(Harness& h, const std::string& in)
{
    h.input(in);
    auto want = ref::lex(in);
    std::vector<Token> got;
    bool threw = false;
    std::string msg;
    try {
        // An exact-size heap copy: reads behind the end of the input are seen by ASan.
        std::unique_ptr<char[]> copy(new char[in.size() ? in.size() : 1]);
        memcpy(copy.get(), in.data(), in.size());
        got = tokenize(std::string_view(copy.get(), in.size()));
    } catch (const std::exception& e) {
        threw = true;
        msg = e.what();
    }
    if (want.unspecified) { h.count("unspecified"); return; }
    if (threw == want.ok) {
        h.violation(want.ok ? "rejects-valid" : "accepts-invalid",
                    want.ok ? "valid input rejected: " + msg : "invalid input accepted, reference says: " + want.why);
        return;
    }
    if (threw) {
        h.count("rejected");
        h.distinct(want.why + in.substr(0, 24));
        return;
    }
    std::string a, b;
    bool eq = got.size() == want.toks.size();
    for (size_t i = 0; i < std::max(got.size(), want.toks.size()); ++i) {
        if (i < got.size()) a += ref::show(got[i]) + " ";
        if (i < want.toks.size()) b += ref::show(want.toks[i]) + " ";
        if (i < got.size() && i < want.toks.size() && !ref::same(got[i], want.toks[i])) eq = false;
    }
    if (!eq) {
        h.violation("token-mismatch", "got " + a + " want " + b);
        return;
    }
    h.count("accepted");
    h.count("tokens", got.size() - 1);
    for (auto& t : got) h.count("type." + Token::toString(t.type));
    if (got.size() > 2) h.distinct(b);
    if (got.size() > 5) h.sample(in + "  ->  " + b);
}

int main(int argc, char** argv)
{
    Harness h(argc, argv, "C01");
    return h.run([](Harness& h, Rng& r, uint64_t i) {
        // A share of the exhaustive part: all strings of up to 3 (4 for a smaller alphabet) characters.
        static const std::string A = "aeErRxXbB_$\\019.+-*<>=!'\" \n()[]{},:#?%/^&|~@\x80";
        static const std::string B = "re'\\0x1e.+*<>=_$ ";
        uint64_t nA = A.size(), nB = B.size();
        uint64_t totA = 1 + nA + nA * nA + nA * nA * nA, totB = nB * nB * nB * nB;
        uint64_t per = (totA + totB + h.cases - 1) / h.cases;
        for (uint64_t k = i * per; k < (i + 1) * per && k < totA + totB; ++k) {
            std::string s;
            if (k < totA) {
                uint64_t v = k, len = 0, block = 1;
                while (v >= block) { v -= block; block *= nA; ++len; }
                for (uint64_t j = 0; j < len; ++j) { s += A[v % nA]; v /= nA; }
            } else {
                uint64_t v = k - totA;
                for (int j = 0; j < 4; ++j) { s += B[v % nB]; v /= nB; }
            }
            h.count("exhaustive");
            check(h, s);
        }
        for (int k = 0; k < 12; ++k) {
            check(h, gen::tokenSoup(r));
            check(h, gen::hostileBytes(r));
            check(h, gen::mutate(r, gen::tokenSoup(r)));
        }
        // Boundaries: one token of each kind directly followed by another kind, with long tokens sometimes.
        auto a = gen::anyToken(r), b = gen::anyToken(r);
        check(h, a + b);
        check(h, a + " " + b);
        if (i % 16 == 0) check(h, gen::tokenSoup(r, 400));
        if (i % 64 == 0) {
            check(h, std::string(r.range(1, 70000), 'a') + " " + a);
            check(h, "'" + std::string(r.range(1, 70000), 'x') + "' " + a);
            check(h, std::string(r.range(1, 70000), ' ') + a);
            check(h, "1" + std::string(r.range(1, 3000), '0') + ".5 " + a);
        }
    });
}
