// C03: every text survives being written as a string, raw string, regular expression or escaped word.
#include "lexgen.hpp"
using namespace simfil;
using vh::Harness;
using vh::Rng;

static std::string text(Rng& r, bool noNul = false)
{
    static const std::vector<std::string> parts = {"\\", "\\\\", "'", "\"", "\n", "\t", "\r", "n", "t", "r", "re", "a", " ", "\\n", "\\'", "\\\"",
                                                   "0", "_", "$", "and", "\x80", "\xff", "\xc3\xa4", "{", ")", "#", "'\"", "\\\\\\", "\v", "\x7f"};
    std::string s;
    for (auto n = r.below(r.chance(5) ? 200 : 9); n > 0; --n) {
        if (r.chance(15)) s += (char)r.below(256);
        else s += parts[r.below(parts.size())];
    }
    if (noNul) std::erase(s, '\0');
    return s;
}

static void expect(Harness& h, Rng& r, const char* kind, const std::string& lit, Token::Type type, const std::string& want)
{
    static const std::vector<std::string> pre = {"", "x ", "(", "1+", "'q' ", "[", "\"w\" ", "a.b=", ",\t"};
    static const std::vector<std::string> post = {"", ")", " + 1", " x", " 'q'", "]", ", \"w\"", ".b", " as string"};
    auto a = pre[r.below(pre.size())], b = post[r.below(post.size())];
    auto in = a + lit + b;
    h.input(std::string(kind) + ": " + in);
    size_t at = a.empty() ? 0 : ref::lex(a).toks.size() - 1;
    auto rest = ref::lex(b);
    std::vector<Token> t;
    try {
        t = tokenize(in);
    } catch (const std::exception& e) {
        return h.violation(std::string("rejected-") + kind, "valid " + std::string(kind) + " literal rejected: " + e.what());
    }
    if (t.size() != at + 1 + rest.toks.size())
        return h.violation(std::string("extent-") + kind, "literal was not read as exactly one token: " + std::to_string(t.size()) + " tokens");
    auto v = std::get_if<std::string>(&t[at].value);
    if (t[at].type != type || !v || *v != want)
        return h.violation(std::string("text-") + kind, "wanted " + vh::quote(want) + " got " + ref::show(t[at]));
    for (size_t k = 0; k < rest.toks.size(); ++k)
        if (!ref::same(t[at + 1 + k], rest.toks[k])) return h.violation(std::string("after-") + kind, "token after the literal is wrong: " + ref::show(t[at + 1 + k]));
    h.count(kind);
    h.distinct(std::string(kind) + want);
    if (want.size() > 5) h.sample(std::string(kind) + " " + vh::quote(lit) + " -> " + vh::quote(want));
}

static void expectError(Harness& h, const char* kind, const std::string& in)
{
    h.input(std::string(kind) + ": " + in);
    try {
        tokenize(in);
    } catch (const std::exception&) {
        h.count(kind);
        return;
    }
    h.violation(kind, "unterminated literal accepted");
}

int main(int argc, char** argv)
{
    Harness h(argc, argv, "C03");
    return h.run([](Harness& h, Rng& r, uint64_t i) {
        for (int k = 0; k < 50; ++k) {
            auto t = text(r);
            if (i < 256 && k < 4) t = std::string(k, 'a') + std::string(1, (char)i) + std::string(k % 2, 'b');
            char q = r.chance(50) ? '\'' : '"';
            // Normal strings: escape the quote and the backslash; optionally write control characters as \n, \r and
            // \t, and escape other characters needlessly.
            std::string lit(1, q);
            for (char c : t) {
                if (c == q || c == '\\') (lit += '\\') += c;
                else if (c == '\n' && r.chance(60)) lit += "\\n";
                else if (c == '\r' && r.chance(60)) lit += "\\r";
                else if (c == '\t' && r.chance(60)) lit += "\\t";
                else if (c != 'n' && c != 'r' && c != 't' && r.chance(10)) (lit += '\\') += c;
                else lit += c;
            }
            expect(h, r, "string", lit + q, Token::STRING, t);

            // Raw strings and regular expressions: only the quote is escaped, everything else is verbatim. A text with
            // a backslash directly before a quote or at the end has no raw spelling for that quote: skip these.
            bool ok = t.empty() || t.back() != '\\';
            std::string raw(1, q);
            for (size_t j = 0; j < t.size(); ++j) {
                if (t[j] == q) raw += '\\';
                raw += t[j];
            }
            raw += q;
            // A backslash run before a quote: "\" + "\q" is read as a verbatim backslash followed by an escaped quote.
            if (ok) {
                expect(h, r, "raw", (r.chance(50) ? "r" : "R") + raw, Token::STRING, t);
                expect(h, r, "regexp", std::string(r.pick({"re", "RE", "Re", "rE"})) + raw, Token::REGEXP, t);
            }

            // Words: any text can be a field name if it is escaped.
            auto w = t.empty() ? std::string("w") : t.substr(0, 12);
            if (r.chance(40)) { // Plain identifier characters stay unescaped.
                w.clear();
                for (auto n = r.below(8) + 1; n > 0; --n) w += r.chance(70) ? "abcXYZ019_"[r.below(10)] : (char)r.below(256);
            }
            bool kw = false;
            for (auto& e : ref::keywords()) kw = kw || e.first == ref::lower(w);
            std::string wl;
            for (size_t j = 0; j < w.size(); ++j) {
                bool plain = ref::isAlpha(w[j]) || w[j] == '_' || (j > 0 && ref::isDig(w[j])) || (j == 0 && w[j] == '$');
                if (!plain || r.chance(10)) wl += '\\';
                wl += w[j];
            }
            // "r" and "re" directly followed by a quote are string prefixes; none of the contexts does that.
            if (!kw) expect(h, r, "word", wl, Token::WORD, w);

            // Unterminated literals are errors.
            std::string pre = r.pick({"", "r", "re", "R", "RE"});
            std::string body;
            for (auto n = r.below(6); n > 0; --n) body += r.pick({"a", "b", "\\n", " ", "1.", ")", "\\t"});
            std::string other(1, q == '"' ? '\'' : '"');
            expectError(h, "unterminated", pre + q + body);
            expectError(h, "unterminated", pre + q + body + "\\" + q);
            expectError(h, "unterminated", pre + q + body + other);
            expectError(h, "unterminated-escape", "abc\\");
        }
    });
}
