// C06: letter case of keywords, functions, constants, types, prefixes and fields does not matter; that of strings does.
#include "qgen.hpp"
#include "lexgen.hpp"
#include "simfil/function.h"
using namespace gen;

/// Returns its own name and the number of its arguments.
struct NameFn : simfil::Function
{
    std::string name;
    simfil::FnInfo info;
    explicit NameFn(std::string n) : name(std::move(n)), info{name, "", ""} {}
    auto ident() const -> const simfil::FnInfo& override { return info; }
    auto eval(simfil::Context ctx, simfil::Value, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const -> simfil::Result override
    {
        return res(ctx, simfil::Value::make(name + "/" + std::to_string(args.size())));
    }
};

int main(int argc, char** argv)
{
    static std::vector<std::unique_ptr<NameFn>> fns;
    for (auto n : {"MyFunc", "other_FUNC", "lower", "X1y2"}) fns.push_back(std::make_unique<NameFn>(n));
    return vh::Harness(argc, argv, "C06").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.doc(), &r);
        // Queries compared with the reference interpreter and with their plain spelling.
        for (int k = 0; k < 8; ++k) {
            QueryGen q{r};
            auto e = q.query((int)r.range(1, 4));
            Printer plain;
            auto base = plain.p(*e);
            if (base.size() > 1500) continue;
            Run b;
            Outcome o;
            if (!compareQuery(h, fx, *e, base, false, &b, &o)) continue;
            for (int v = 0; v < 3; ++v) {
                Printer pr;
                pr.rng = &r;
                pr.caseChance = v == 2 ? 40 : 100;
                pr.fieldCaseChance = v ? 100 : 0;
                auto text = pr.p(*e);
                h.input(text + "   for   " + base + "   on   " + jsonText(*fx.doc));
                auto got = execute(*fx.env, text, *fx.root());
                h.count("respelled");
                h.distinct(text);
                if (got.text() != b.text()) h.violation("respelled", "got " + got.text() + ", but " + b.text() + " in plain spelling");
            }
            h.sample(base);
        }
        // Token level: keywords and prefixes in any spelling, everything else unchanged.
        for (int k = 0; k < 20; ++k) {
            std::string s;
            auto toks = 1 + r.below(6);
            std::vector<std::string> want;
            for (uint64_t n = 0; n < toks; ++n) {
                auto& kw = ref::keywords()[r.below(ref::keywords().size())];
                switch (r.below(6)) {
                case 0: case 1: case 2: {
                    s += randCase(r, kw.first);
                    want.push_back(kw.first);
                    break;
                }
                case 3: { auto body = digits(r, 1, 12, "0123456789abcdefABCDEF"); s += std::string(r.chance(50) ? "0x" : "0X") + body; want.push_back("i:" + std::to_string((int64_t)std::stoull(body, nullptr, 16))); break; }
                case 4: { auto body = digits(r, 1, 12, "abcABC+*."); auto p = r.pick({"r", "R"}); s += p + ("'" + body + "'"); want.push_back("s:" + body); break; }
                default: { auto body = digits(r, 1, 12, "abcABC"); s += randCase(r, "re") + "'" + body + "'"; want.push_back("x:" + body); break; }
                }
                s += ' ';
            }
            h.input("tokens " + s);
            h.count("token lists");
            auto got = simfil::tokenize(s);
            if (got.size() != want.size() + 1) { h.violation("token-count", std::to_string(got.size()) + " tokens"); continue; }
            for (size_t n = 0; n < want.size(); ++n) {
                auto& t = got[n];
                std::string g;
                if (t.type == simfil::Token::INT) g = "i:" + std::to_string(std::get<int64_t>(t.value));
                else if (t.type == simfil::Token::STRING) g = "s:" + std::get<std::string>(t.value);
                else if (t.type == simfil::Token::REGEXP) g = "x:" + std::get<std::string>(t.value);
                else {
                    for (auto& kw : ref::keywords())
                        if (simfil::tokenize(kw.first)[0].type == t.type) g = kw.first;
                }
                if (g != want[n]) h.violation("token", "token " + std::to_string(n) + ": " + g + ", expected " + want[n]);
            }
        }
        // Registered functions and constants.
        for (auto& f : fns) fx.env->functions[f->name] = f.get();
        std::vector<std::pair<std::string, std::string>> consts{{"Alpha", "alpha!"}, {"BETA_x", "beta!"}, {"gamma", "gamma!"}, {"d9E", "delta!"}};
        for (auto& [n, v] : consts) fx.env->constants.emplace(n, simfil::Value::make(v));
        for (int k = 0; k < 10; ++k) {
            auto& f = *fns[r.below(fns.size())];
            auto n = r.below(3);
            auto text = randCase(r, f.name) + "(" + (n == 0 ? "" : n == 1 ? "1" : "a, 'B'") + ")";
            auto want = "s:" + f.name + "/" + std::to_string(n);
            if (r.chance(50)) {
                auto& [cn, cv] = consts[r.below(consts.size())];
                auto spelled = randCase(r, cn);
                if (Printer::symbolLike(spelled)) spelled = cn;
                text = spelled + " " + (r.chance(50) ? "+" : "+ ") + text;
                want = "s:" + cv + want.substr(2);
            }
            h.input("registered " + text);
            auto got = execute(*fx.env, text, *fx.root());
            h.count("registered");
            h.distinct(text);
            if (got.raised || got.values != std::vector<std::string>{want}) h.violation("registered", got.text() + ", expected " + want);
        }
        // Contents keep their letter case.
        for (int k = 0; k < 10; ++k) {
            auto s = digits(r, 1, 10, "abcdefABCDEF");
            std::string text, want = "s:" + s;
            switch (r.below(4)) {
            case 0: text = "'" + s + "'"; break;
            case 1: text = "\"" + s + "\" as " + randCase(r, "string"); break;
            case 2: for (auto& c : s) c = (char)toupper(c); text = s; want = "s:" + s; break;
            default: text = "'" + s + "' == '" + randCase(r, s) + "'"; want = text.substr(1, s.size()) == text.substr(text.size() - 1 - s.size(), s.size()) ? "true" : "false"; break;
            }
            h.input("contents " + text);
            auto got = execute(*fx.env, text, *fx.root());
            h.count("contents");
            if (got.raised || got.values != std::vector<std::string>{want}) h.violation("contents", got.text() + ", expected " + want);
        }
    });
}
