// C33: tokens and lexical errors describe what was written.
#include "lexgen.hpp"
#include <sstream>
using namespace gen;
using simfil::Token;

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C33").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto renderKind = [&](Token::Type t, const std::string& spelling) {
            auto s = Token::toString(t);
            h.count("kinds");
            h.input("token kind of " + spelling);
            if (s != (spelling == "=" ? "==" : spelling)) h.violation("kind", "rendered as '" + s + "'");
        };
        for (auto& [s, t] : ref::symbols()) renderKind(t, s);
        for (auto& [s, t] : ref::keywords()) renderKind(t, s);
        for (int k = 0; k < 60; ++k) {
            auto q = r.chance(60) ? tokenSoup(r, (int)r.range(1, 14)) : r.chance(50) ? hostileBytes(r) : mutate(r, tokenSoup(r, (int)r.range(1, 8)));
            h.input(q);
            auto want = ref::lex(q);
            if (want.unspecified) continue;
            std::vector<Token> got;
            std::string error;
            bool raised = false;
            try {
                got = simfil::tokenize(q);
            } catch (const std::exception& e) {
                raised = true;
                error = e.what();
            }
            if (raised != !want.ok || (!raised && got.size() != want.toks.size())) { h.violation("outcome", "tokenises differently"); continue; }
            if (raised) {
                // <what> at <position> (<rest of the query>)
                h.count("errors");
                size_t start = want.toks.empty() ? 0 : want.toks.back().end;
                while (start < q.size() && ref::isWs(q[start])) ++start;
                size_t pos = std::string::npos;
                for (size_t n = start; n <= q.size() && pos == std::string::npos; ++n) {
                    auto tail = " at " + std::to_string(n) + (n < q.size() ? " (" + q.substr(n) + ")" : "");
                    tail = tail.c_str(); // what() ends at a NUL
                    if (tail.size() < error.size() && error.compare(error.size() - tail.size(), tail.size(), tail) == 0) pos = n;
                    else if (q.find('\0') != std::string::npos && error.find(tail) != std::string::npos) pos = n;
                }
                if (pos == std::string::npos) h.violation("error-position", "'" + error + "' does not name a position of the broken token at " + std::to_string(start));
                else {
                    h.count("positions");
                    if (pos > start) h.count("positions within a token");
                    h.distinct(error.substr(0, 40));
                }
                continue;
            }
            std::string again;
            bool plain = true;
            for (size_t i = 0; i + 1 < got.size(); ++i) {
                auto& g = got[i];
                auto& w = want.toks[i];
                auto s = g.toString();
                std::string e;
                switch (w.type) {
                case Token::INT: e = std::to_string(w.i); plain &= w.i >= 0; break;
                case Token::FLOAT: {
                    // a number close to the written one
                    plain = false;
                    if (w.fUnspecified) { e = s; break; }
                    auto d = strtold(s.c_str(), nullptr);
                    auto err = fabsl(d - w.f);
                    e = err <= 1e-6L + fabsl(w.f) * 1e-12L ? s : "about " + std::to_string((double)w.f);
                    h.count("floats");
                    break;
                }
                case Token::STRING: e = "'" + w.text + "'"; plain &= w.text.find_first_of("'\\") == std::string::npos; break;
                case Token::REGEXP: e = "re'" + w.text + "'"; plain &= w.text.find_first_of("'\\") == std::string::npos; break;
                case Token::WORD:
                    e = w.text;
                    for (size_t c = 0; c < e.size(); ++c) plain &= ref::isAlpha(e[c]) || e[c] == '_' || (c && ref::isDig(e[c]));
                    plain &= !e.empty();
                    break;
                default:
                    for (auto* table : {&ref::keywords(), &ref::symbols()})
                        for (auto& [sp, ty] : *table) if (ty == w.type && sp != "=") e = sp;
                }
                h.count("tokens");
                if (s != e) h.violation("token", "token " + std::to_string(i) + " is rendered as '" + s + "', expected '" + e + "'");
                std::ostringstream o;
                o << g;
                if (o.str() != s) h.violation("stream", "written as '" + o.str() + "', rendered as '" + s + "'");
                again += (i ? " " : "") + s;
            }
            if (!plain) continue;
            // The rendered tokens are the query, up to spelling.
            h.count("rendered queries");
            h.distinct(again);
            h.input(q + "   rendered as   " + again);
            std::vector<Token> twice;
            try { twice = simfil::tokenize(again); } catch (const std::exception& e) { h.violation("again", std::string("the rendered query raises ") + e.what()); continue; }
            bool same = twice.size() == got.size();
            for (size_t i = 0; same && i < got.size(); ++i) same = got[i].type == twice[i].type && got[i].value == twice[i].value;
            if (!same) h.violation("again", "the rendered query has other tokens");
        }
    });
}
