// C07: operators group by the documented precedence table.
#include "qgen.hpp"
using namespace gen;

static const std::vector<std::string> Bins{"*", "/", "%", "+", "-", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!=", "and", "or"};

/// Any shape of operators over integer fields (and a few constants).
static EP shape(Rng& r, int d, bool constants)
{
    if (d <= 0 || r.chance(8)) {
        if (constants && r.chance(35)) return lit(r.chance(80) ? vint(r.range(0, 9)) : r.chance(50) ? vbool(r.chance(50)) : vfloat(2.5));
        switch (r.below(8)) {
        case 0: return path(field("o"), field(r.pick(Ints)));
        case 1: return path(self(), field(r.pick(Ints)));
        case 2: return idx(field("t"), r.chance(50) ? lit(vint(r.range(0, 1))) : bin(r.pick(Bins), field(r.pick(Ints)), field(r.pick(Ints))));
        default: return field(r.pick(Ints));
        }
    }
    switch (r.below(20)) {
    case 0: return un("-", shape(r, d - 1, constants));
    case 1: return un("~", shape(r, d - 1, constants));
    case 2: return un("not", shape(r, d - 1, constants));
    case 3: return un(r.pick({"typeof", "#"}), shape(r, d - 1, constants));
    case 4: return post("?", shape(r, d - 1, constants));
    case 5: return r.chance(30) ? post("...", shape(r, d - 1, constants)) : post("?", shape(r, d - 1, constants));
    case 6: case 7: case 8: return cast(shape(r, d - 1, constants), r.pick({"int", "float", "string", "bool"}));
    default: {
        int l = (int)r.below(d), q = r.chance(50) ? d - 1 : l;
        return bin(r.pick(Bins), shape(r, r.chance(50) ? d - 1 : l, constants), shape(r, q, constants));
    }
    }
}
/// Typed so that evaluation rarely fails: arithmetic below bits below comparison below equality below logic.
static EP typed(Rng& r, int level, int d)
{
    auto num = [&](int dd) { return typed(r, 6, dd); };
    if (level >= 6) {
        if (d <= 0) return r.chance(70) ? cast(field(r.pick(Ints)), "int") : r.chance(50) ? lit(vint(r.range(1, 9))) : cast(field(r.pick(Floats)), "int");
        switch (r.below(8)) {
        case 0: return un(r.pick({"-", "~"}), num(d - 1));
        case 1: return cast(num(d - 1), "int");
        case 2: return bin(r.pick({"/", "%"}), num(d - 1), r.chance(50) ? lit(vint(r.range(1, 5))) : cast(lit(vint(3)), "int"));
        case 3: case 4: return bin(r.pick({"&", "|", "^", "<<", ">>"}), num(d - 1), num(d - 1));
        default: return bin(r.pick({"+", "-", "*"}), num(d - 1), num(d - 1));
        }
    }
    if (d <= 0) return num(1);
    switch (level) {
    case 3: return bin(r.pick({"<", "<=", ">", ">="}), num(d - 1), num(d - 1));
    case 2: return bin(r.pick({"==", "!="}), typed(r, r.pick({2, 3, 6}), d - 1), typed(r, r.pick({2, 3, 6}), d - 1));
    case 1: return bin(r.pick({"and", "or"}), typed(r, r.pick({1, 2, 3, 6}), d - 1), typed(r, r.pick({1, 2, 3, 6}), d - 1));
    default: return un("not", typed(r, r.pick({1, 2, 3}), d - 1));
    }
}

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C07").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.obj(0), &r);
        auto one = [&](EP e, bool mayRaise) {
            Printer pm, pf;
            pm.rng = &r;
            pf.full = true;
            auto min = pm.p(*e), full = pf.p(*e);
            if (full.size() > 3000) return;
            Run m;
            Outcome o;
            if (compareQuery(h, fx, *e, min, mayRaise, &m, &o)) h.sample(min + "   =   " + full);
            h.input(min + "   vs   " + full + "   on   " + jsonText(*fx.doc));
            h.count("pairs");
            size_t ops = 0;
            walk(*e, [&](const E& x) { ops += x.k == E::Bin || x.k == E::And || x.k == E::Or; });
            if (min != full && ops > 1) h.distinct(min);
            std::string a, b;
            bool ra = false, rb = false;
            try { a = simfil::compile(*fx.env, min, false)->toString(); } catch (const std::exception& x) { ra = true; a = x.what(); }
            try { b = simfil::compile(*fx.env, full, false)->toString(); } catch (const std::exception& x) { rb = true; b = x.what(); }
            if (ra != rb || a != b) h.violation("structure", "without parentheses: " + a + ", with: " + b);
            auto f = execute(*fx.env, full, *fx.root());
            m = execute(*fx.env, min, *fx.root());
            if (m.text() != f.text()) h.violation("results", "without parentheses: " + m.text() + ", with: " + f.text());
            h.count(ra ? "compile errors" : "compiled");
        };
        for (int k = 0; k < 10; ++k) one(shape(r, (int)r.range(2, 5), false), true);
        for (int k = 0; k < 5; ++k) one(shape(r, (int)r.range(2, 5), true), true);
        for (int k = 0; k < 10; ++k) one(typed(r, r.pick({0, 1, 1, 2, 3, 6}), (int)r.range(2, 5)), false);
        for (int k = 0; k < 4; ++k) {
            QueryGen q{r};
            q.constants = r.chance(50);
            one(q.query((int)r.range(2, 5)), false);
        }
        // Every pair of binary operators, and of prefix/postfix/cast and binary operators, systematically.
        auto n = Bins.size();
        auto c = h.caseIndex() * 3;
        for (int k = 0; k < 3; ++k, ++c) {
            auto &x = Bins[c % n], &y = Bins[c / n % n];
            auto f = [&] { return field(r.pick(Ints)); };
            one(bin(y, bin(x, f(), f()), f()), true);
            one(bin(x, f(), bin(y, f(), f())), true);
            one(bin(y, un(r.pick({"-", "~", "not"}), f()), f()), true);
            one(un(r.pick({"-", "~", "not"}), bin(x, f(), f())), true);
            one(cast(bin(x, f(), f()), "string"), true);
            one(bin(x, f(), cast(f(), "int")), true);
            one(bin(x, post("?", f()), post("?", f())), true);
            one(post("?", bin(y, f(), f())), true);
            h.count("operator pairs");
        }
    });
}
