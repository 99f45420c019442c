// C32: what the compile options any and autoWildcard mean.
#include "qgen.hpp"
using namespace gen;

enum Const { No, Yes, Maybe };
/// Does the query consist of constants only? Calls may or may not be evaluated while compiling.
static Const constness(const E& e)
{
    if (e.k == E::Field || e.k == E::Self || e.k == E::Any || e.k == E::Wild) return No;
    if (e.k == E::Lit || e.k == E::Sym) return Yes;
    Const c = Yes;
    if (e.k == E::Call || e.k == E::Path || e.k == E::Idx || e.k == E::Sub) c = Maybe;
    if (e.k == E::Post && e.name == "...") c = Maybe;
    for (auto& x : e.a) {
        auto s = constness(*x);
        // a value cast to null is a constant
        if (s == No && c != No) c = No;
        if (s == Maybe && c == Yes) c = Maybe;
    }
    if (e.k == E::Cast && e.name == "null") return Maybe;
    // anything may be dropped by 'and', 'or' or be cast to null within
    if (c == No)
        for (auto& x : e.a) if (constness(*x) != No) return Maybe;
    return c;
}
/// Only fields, paths and functions of them.
static bool dependent(const E& e)
{
    return constness(e) == No;
}
static EP constant(Rng& r, int d)
{
    if (d <= 0)
        switch (r.below(7)) {
        case 0: return lit(vnull());
        case 1: return lit(vbool(r.chance(50)));
        case 2: return lit(vfloat(r.pick({0.0, 1.5, 2.0})));
        case 3: return lit(vstr(r.pick({"a", "b", "", "12", "x y"})));
        case 4: return sym(r.pick({"FOO", "A", "RED_ISH"}));
        default: return lit(vint(r.range(-1, 5)));
        }
    auto c = [&] { return constant(r, d - 1); };
    switch (r.below(7)) {
    case 0: return un(r.pick({"not", "typeof"}), c());
    case 1: return cast(c(), r.pick({"int", "float", "string", "bool"}));
    case 2: return post("?", c());
    case 3: return bin(r.pick({"and", "or"}), c(), c());
    case 4: return bin(r.pick({"==", "!="}), c(), c());
    case 5: return bin(r.pick({"+", "-", "*", "&"}), cast(c(), "int"), cast(c(), "int"));
    default: return bin("+", cast(c(), "string"), cast(c(), "string"));
    }
}

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C32").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.doc(), &r);
        for (int k = 0; k < 16; ++k) {
            EP e;
            if (r.chance(40)) e = constant(r, (int)r.below(4));
            else {
                QueryGen q{r};
                q.wildness = r.chance(30) ? 20 : 0;
                e = q.query((int)r.range(1, 4));
            }
            Printer pr;
            pr.rng = &r;
            auto text = pr.p(*e);
            if (text.size() > 1500) continue;
            auto c = constness(*e);
            auto ref = [&](const E& x, Outcome& o) {
                try { o = evaluate(x, *fx.doc); } catch (const Unspec&) { return false; }
                return true;
            };
            auto compared = bin("==", mkE(E::Wild), e);
            bool raisesPlain = false;
            {
                Outcome p;
                if (!ref(*e, p)) { h.count("unspecified"); continue; }
                raisesPlain = p.raised;
            }
            for (int o = 0; o < 4; ++o) {
                bool any = o & 1, wild = o & 2;
                auto build = [&](bool w) { auto x = w ? compared : e; return any ? call("any", {x}) : x; };
                Outcome want, other;
                if (!ref(*build(wild && c == Yes), want)) { h.count("unspecified"); continue; }
                bool ambiguous = wild && c == Maybe;
                if (ambiguous && !ref(*build(true), other)) { h.count("unspecified"); continue; }
                h.input(text + "   any " + std::to_string(any) + ", autoWildcard " + std::to_string(wild) + "   on   " + jsonText(*fx.doc));
                auto got = execute(*fx.env, text, *fx.root(), any, wild);
                h.count("queries");
                auto matches = [&](const Outcome& w) { return got.raised == w.raised && (w.raised || got.values == w.values); };
                if (got.raised && raisesPlain) { h.count("raising"); continue; } // any() may or may not get there
                if (got.compileRaised) { h.count("raised-early"); continue; }
                if (!matches(want) && !(ambiguous && matches(other)))
                    h.violation(any ? wild ? "any+wildcard" : "any" : wild ? "wildcard" : "plain", "got " + got.text() + ", expected " + want.text());
                if (any) {
                    h.count("any");
                    if (!got.raised && (got.values.size() != 1 || (got.values[0] != "true" && got.values[0] != "false")))
                        h.violation("any-type", "not one bool: " + got.text());
                    if (!got.raised && got.values[0] == "true") h.count("any true"); else h.count("any false");
                }
                if (wild) h.count(c == Yes ? "expanded" : c == No ? "unchanged" : "calls");
                if (wild && c == Yes && got.values.size() > 1) h.count("wildcard values", got.values.size());
                if (o) h.distinct(vh::hashStr(text, o) ^ vh::hashStr(jsonText(*fx.doc), 9));
            }
            if (r.chance(20)) { // the defaults
                auto d = [&]() { Run x; try { for (auto& v : simfil::eval(*fx.env, *simfil::compile(*fx.env, text), *fx.root())) x.values.push_back(canon(v)); } catch (const std::exception& er) { x.raised = true; } return x; }();
                auto a = execute(*fx.env, text, *fx.root(), true, false);
                h.count("defaults");
                if (d.raised != a.raised || d.values != a.values) h.violation("defaults", "without options " + d.text() + ", with any " + a.text());
            }
            h.sample(text);
        }
    });
}
