// C31: exactly the token sequences that form a query compile.
//
// Oracle: a recognizer over the tokens of the reference lexer. In simfil every operator sequence is
// a query as long as operands and operators alternate and brackets match, so an automaton with a
// stack of open brackets decides it. Queries made of operators on constants may additionally fail
// while they are folded; of those only the rejection of ill-formed ones is judged.
#include "qgen.hpp"
#include "lexgen.hpp"
#include "simfil/function.h"
using namespace gen;
using simfil::Token;

/// A value that is unknown at compile time.
struct OpaqueFn : simfil::Function
{
    auto ident() const -> const simfil::FnInfo& override { static const simfil::FnInfo i{"fn", "", ""}; return i; }
    auto eval(simfil::Context ctx, simfil::Value, const std::vector<simfil::ExprPtr>&, const simfil::ResultFn& res) const -> simfil::Result override
    {
        return res(ctx, ctx.phase == simfil::Context::Phase::Compilation ? simfil::Value::undef() : simfil::Value::t());
    }
};
static OpaqueFn opaque;

struct Verdict
{
    bool formed = false;
    bool safe = true; // nothing that is evaluated while compiling
    std::string why;
};

static bool isConstTok(Token::Type t)
{
    return t == Token::INT || t == Token::FLOAT || t == Token::STRING || t == Token::REGEXP || t == Token::C_TRUE || t == Token::C_FALSE || t == Token::C_NULL;
}
static bool isUnary(Token::Type t)
{
    return t == Token::OP_SUB || t == Token::OP_BITINV || t == Token::OP_NOT || t == Token::OP_LEN || t == Token::OP_TYPEOF;
}
static bool isBinary(Token::Type t)
{
    switch (t) {
    case Token::OP_ADD: case Token::OP_SUB: case Token::OP_TIMES: case Token::OP_DIV: case Token::OP_MOD: case Token::OP_BITAND: case Token::OP_BITOR:
    case Token::OP_BITXOR: case Token::OP_LSHIFT: case Token::OP_RSHIFT: case Token::OP_EQ: case Token::OP_NOT_EQ: case Token::OP_LT: case Token::OP_LTEQ:
    case Token::OP_GT: case Token::OP_GTEQ: case Token::OP_AND: case Token::OP_OR: case Token::DOT:
        return true;
    default: return false;
    }
}

static Verdict recognize(const std::vector<ref::RTok>& t)
{
    Verdict v;
    std::vector<Token::Type> open;  // LPAREN: group, COMMA: call, LBRACK, LBRACE
    bool operand = true;            // an operand comes next
    bool optional = false;          // ... or not, as a word operator may have one operand only
    bool emptyCall = false;         // directly after 'fn('
    auto no = [&](std::string why) { v.formed = false; v.why = std::move(why); return v; };
    auto at = [&](size_t i) { return i < t.size() ? t[i].type : Token::NIL; };
    for (size_t i = 0;; ++i) {
        auto k = at(i);
        bool starts = k == Token::WORD || k == Token::SELF || k == Token::WILDCARD || k == Token::OP_TIMES || isConstTok(k) || isUnary(k) ||
                      k == Token::LPAREN || k == Token::LBRACK || k == Token::LBRACE;
        if (emptyCall && k == Token::RPAREN) {
            open.pop_back();
            operand = emptyCall = false;
            continue;
        }
        emptyCall = false;
        if (operand && optional && !starts) operand = false;
        optional = false;
        if (operand) {
            if (!starts) return no("no operand at token " + std::to_string(i));
            if (isUnary(k)) continue;
            if (k == Token::LPAREN || k == Token::LBRACK || k == Token::LBRACE) { open.push_back(k); continue; }
            operand = false;
            if (k == Token::WORD) {
                if (at(i + 1) == Token::LPAREN) {
                    if (ref::lower(t[i].text) != "fn") v.safe = false;
                    open.push_back(Token::COMMA);
                    ++i;
                    operand = emptyCall = true;
                } else {
                    bool lower = false;
                    for (char c : t[i].text) lower |= ref::isAlpha(c) && c >= 'a';
                    if (!lower) v.safe = false; // may be a symbol
                }
            } else if (isConstTok(k)) {
                auto p = i ? t[i - 1].type : Token::NIL, n = at(i + 1);
                bool argument = !open.empty() && open.back() == Token::COMMA && (p == Token::COMMA || p == Token::LPAREN) && (n == Token::COMMA || n == Token::RPAREN);
                if (!argument || k == Token::REGEXP) v.safe = false;
            }
            continue;
        }
        if (k == Token::NIL) {
            if (!open.empty()) return no("unclosed bracket");
            v.formed = true;
            return v;
        }
        if (k == Token::OP_BOOL || k == Token::OP_UNPACK) continue;
        if (isBinary(k)) { operand = true; continue; }
        if (k == Token::LBRACK || k == Token::LBRACE) { open.push_back(k); operand = true; continue; }
        if (k == Token::OP_CAST) {
            ++i;
            if (at(i) == Token::C_NULL) { v.safe = false; continue; }
            if (at(i) != Token::WORD) return no("no type");
            auto n = ref::lower(t[i].text);
            if (n != "bool" && n != "int" && n != "float" && n != "string") return no("unknown type " + n);
            continue;
        }
        if (k == Token::WORD) { operand = optional = true; continue; }
        if (k == Token::COMMA) {
            if (open.empty() || open.back() != Token::COMMA) return no("comma outside of a call");
            operand = true;
            continue;
        }
        if (k == Token::RPAREN || k == Token::RBRACK || k == Token::RBRACE) {
            auto want = k == Token::RBRACK ? Token::LBRACK : Token::LBRACE;
            if (open.empty() || (k == Token::RPAREN ? open.back() != Token::LPAREN && open.back() != Token::COMMA : open.back() != want))
                return no("unmatched bracket");
            open.pop_back();
            continue;
        }
        return no("token " + std::to_string(i) + " after an operand");
    }
}

using Toks = std::vector<std::string>;
static const Toks Operands{"a", "b", "_", "**", "*", "fn ( )", "fn ( 1 )", "fn ( 's' , a )", "x_y"};
static const Toks Unaries{"-", "~", "not", "#", "typeof"};
static const Toks Binaries{"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "=", "!=", "and", "or", "."};
static const Toks Others{"a", "_", "**", "*", "fn", "fn ( )", "1", "1.5", "'s'", "re'x'", "null", "true", "FOO", "as", "int", "as int", "as 'int'", "as \"bool\"", "as re'string'", "as null", "as true", "as _", "as 1", "as int 's'", "?", "...", "(", ")", "[", "]", "{", "}", ",", ":", "-", "not", "#", "+", ".", "and", "=="};

static void add(Toks& o, const std::string& s)
{
    size_t b = 0;
    while (b < s.size()) {
        auto e = s.find(' ', b);
        if (e == std::string::npos) e = s.size();
        o.push_back(s.substr(b, e - b));
        b = e + 1;
    }
}
/// A random well-formed query.
static void derive(Rng& r, Toks& o, int d)
{
    auto sub = [&] { derive(r, o, d - 1); };
    if (d <= 0) { add(o, r.pick(Operands)); return; }
    switch (r.below(11)) {
    case 0: add(o, r.pick(Unaries)); sub(); break;
    case 1: case 2: sub(); add(o, r.pick(Binaries)); sub(); break;
    case 3: add(o, "("); sub(); add(o, ")"); break;
    case 4: sub(); add(o, r.chance(50) ? "[" : "{"); { bool b = o.back() == "["; sub(); add(o, b ? "]" : "}"); } break;
    case 5: add(o, r.chance(50) ? "[" : "{"); { bool b = o.back() == "["; sub(); add(o, b ? "]" : "}"); } break;
    case 6: sub(); add(o, r.pick({"?", "..."})); break;
    case 7: sub(); add(o, "as"); add(o, r.pick({"int", "bool", "float", "string", "Int", "STRING"})); break;
    case 8: add(o, "fn"); add(o, "("); for (auto n = r.below(4), k = n; k > 0; --k) { if (k != n) add(o, ","); sub(); } add(o, ")"); break;
    case 9: sub(); add(o, r.pick({"word", "in", "op"})); if (r.chance(60)) sub(); break;
    default: sub(); add(o, "."); sub();
    }
}

struct Judge
{
    vh::Harness& h;
    simfil::Environment& env;

    /// Returns true if the query is well-formed.
    bool operator()(const std::string& q, int options)
    {
        auto lexed = ref::lex(q);
        if (lexed.unspecified) return false;
        Verdict v;
        if (lexed.ok) {
            if (!lexed.toks.empty() && lexed.toks.back().type == Token::NIL) lexed.toks.pop_back();
            v = recognize(lexed.toks);
        } else
            v.why = "not tokens";
        h.input(q + "   options " + std::to_string(options));
        std::string error;
        bool ok = false;
        try {
            ok = !!simfil::compile(env, q, options & 1, options & 2);
        } catch (const std::exception& e) {
            error = e.what();
        }
        if (!v.formed) {
            h.count("ill-formed");
            if (ok) h.violation("accepted", "compiles, but is ill-formed: " + v.why);
        } else if (v.safe) {
            h.count("well-formed");
            if (lexed.toks.size() > 3) h.distinct(vh::hashStr(q, 3));
            if (!ok) h.violation("rejected", "well-formed, but does not compile: " + error);
        } else {
            h.count("well-formed with constants");
            if (!ok) h.count("raised while folding");
        }
        return v.formed;
    }
};

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C31").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto strings = std::make_shared<simfil::StringPool>();
        simfil::Environment env(strings);
        env.functions["fn"] = &opaque;
        Judge judge{h, env};
        auto space = [&](const Toks& t) {
            std::string q;
            bool tight = r.chance(30);
            for (size_t i = 0; i < t.size(); ++i) {
                if (i) {
                    bool glue = tight && (t[i].size() == 1 && strchr("()[]{},?", t[i][0])) ;
                    q += glue ? "" : r.chance(90) ? " " : r.pick({"\n", "\t", "  \r\n "});
                }
                q += t[i];
            }
            return q;
        };
        for (int k = 0; k < 60; ++k) {
            std::string q;
            switch (r.below(8)) {
            case 0: q = tokenSoup(r, (int)r.range(1, 8)); break;
            case 1: {
                QueryGen g{r};
                g.wildness = (int)r.below(60);
                Printer pr;
                pr.rng = &r;
                q = pr.p(*g.query((int)r.range(1, 3)));
                if (r.chance(60)) q = mutate(r, q);
                break;
            }
            default: {
                Toks t;
                derive(r, t, (int)r.range(0, 5));
                if (t.size() > 120) { --k; continue; }
                h.count("derived");
                if (r.chance(60)) {
                    for (auto n = r.range(1, 3); n > 0 && !t.empty(); --n) {
                        auto p = r.below(t.size());
                        switch (r.below(5)) {
                        case 0: t.erase(t.begin() + p); break;
                        case 1: t.insert(t.begin() + p, t[r.below(t.size())]); break;
                        case 2: std::swap(t[p], t[r.below(t.size())]); break;
                        case 3: t[p] = r.pick(Others); break;
                        default: t.insert(t.begin() + r.below(t.size() + 1), r.pick(Others));
                        }
                    }
                } else {
                    q = space(t);
                    bool words = false; // "a op * b" reads "(a op *) b"
                    for (auto& x : t) words |= x == "word" || x == "in" || x == "op";
                    if (!judge(q, (int)r.below(4)) && !words) h.violation("oracle", "the recognizer rejects a derived query");
                    continue;
                }
                q = space(t);
            }
            }
            if (q.size() > 1500) continue;
            judge(q, (int)r.below(4));
            h.sample(q);
        }
        // All sequences of up to four tokens by case number, then five.
        static const Toks A{"a", "*", "**", "-", "not", "+", ".", "?", "as", "int", "(", ")", "[", "]", "{", "}", ",", "fn", "1", "and"};
        const uint64_t n = A.size();
        for (uint64_t j = 0; j < 100; ++j) {
            auto c = h.caseIndex() * 100 + j;
            int len = 1;
            for (uint64_t all = n; c >= all && len < 5; ++len) { c -= all; all *= n; }
            std::string q;
            for (int l = 0; l < len; ++l, c /= n) q += A[c % n] + " ";
            judge(q, (int)r.below(4));
            h.count("enumerated");
        }
    });
}
