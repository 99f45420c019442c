// C11: built-in functions against the reference implementations, plus algebraic laws.
#include "qgen.hpp"
using namespace gen;

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C11").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.obj(0), &r);
        Printer pr;
        pr.rng = &r;
        pr.caseChance = 20;
        QueryGen q{r};
        auto one = [&](EP e, bool mayRaise) {
            auto text = pr.p(*e);
            if (text.size() > 3000) return;
            if (compareQuery(h, fx, *e, text, mayRaise)) {
                h.count("fn " + e->name);
                h.sample(text);
            }
        };
        auto i = [&] { return r.chance(60) ? lit(vint(r.range(0, 6))) : r.chance(20) ? lit(vint(r.pick({INT64_MAX, INT64_MIN, (int64_t)-1}))) : cast(field(r.pick(Ints)), "int"); };
        auto s = [&] { return r.chance(50) ? lit(vstr(dg.strv())) : cast(q.strs(0), "string"); };
        auto b = [&] { return r.chance(50) ? lit(vbool(r.chance(50))) : cast(field(r.pick(Bools)), "bool"); };
        auto list = [&]() -> EP {
            switch (r.below(6)) {
            case 0: return call("arr", {i(), s(), b(), lit(vnull())});
            case 1: return post("...", q.range());
            case 2: return path(q.fld(r.pick(IntArrs)), mkE(E::Any));
            case 3: return path(field("mix"), mkE(E::Any));
            case 4: return mkE(E::Wild);
            default: return q.any(2);
            }
        };
        auto lists = [&] { std::vector<EP> v; for (uint64_t n = 1 + r.below(3); n > 0; --n) v.push_back(list()); return v; };
        for (int k = 0; k < 3; ++k) {
            one(call(r.pick({"any", "all", "each"}), lists()), false);
            {
                // What decides the result ends the evaluation: what would fail behind it must not.
                auto as = lists();
                auto fails = bin(r.pick({"/", "%"}), cast(field(r.pick(Ints)), "int"), lit(vint(0)));
                as.insert(as.begin() + (long)r.below(as.size() + 1), r.chance(70) ? fails : call("any", {fails, b()}));
                if (r.chance(30)) as.push_back(b());
                one(call(r.pick({"any", "all", "each", "any", "count"}), as), true);
            }
            one(call("count", lists()), false);
            one(call("arr", lists()), false);
            if (r.chance(10)) one(call("arr", {}), false);
            one(call("range", {i(), i()}), false);
            one(bin(r.pick({"==", "!="}), r.chance(70) ? list() : i(), call("range", {i(), i()})), true);
            one(post("...", call("range", {lit(vint(r.range(-5, 300))), lit(vint(r.range(-5, 300)))})), false);
            if (r.chance(30)) one(post("...", call("range", {lit(vint(INT64_MAX - (int64_t)r.below(3))), lit(vint(INT64_MAX - (int64_t)r.below(3)))})), false);
            if (r.chance(30)) one(post("...", call("range", {lit(vint(INT64_MIN + (int64_t)r.below(3))), lit(vint(INT64_MIN + (int64_t)r.below(3)))})), false);
            {
                std::vector<EP> a{s(), r.chance(70) ? lit(vstr(r.pick({",", ".", "a", "", ",,", "ab", "b"}))) : s()};
                if (r.chance(60)) a.push_back(b());
                one(call("split", a), false);
            }
            {
                std::vector<EP> a{list(), i()};
                if (r.chance(70)) a.push_back(i());
                one(call("select", a), false);
            }
            one(q.sums(3), false);
            {
                // Folds of any kind of value: $sum may be null, a bool, a string or a node at any element.
                auto v = [&]() -> EP {
                    switch (r.below(9)) {
                    case 0: case 1: case 2: return field("$sum");
                    case 3: case 4: return field("$idx");
                    case 5: case 6: return field("$val");
                    case 7: return r.chance(50) ? path(field("$val"), q.fld(r.pick(Ints))) : q.fld(r.pick(Ints));
                    default: return r.chance(50) ? i() : lit(r.pick({vnull(), vbool(true), vbool(false), vstr("x")}));
                    }
                };
                auto t = [&](auto& self, int d) -> EP {
                    if (d <= 0) return v();
                    switch (r.below(8)) {
                    case 0: return bin(r.pick({"and", "or"}), self(self, d - 1), self(self, d - 1));
                    case 1: return bin("+", cast(self(self, d - 1), "string"), r.chance(50) ? lit(vstr("y")) : cast(field("$idx"), "string")); // grows linearly
                    case 2: return bin(r.pick({"+", "-", "*"}), cast(self(self, d - 1), "int"), cast(self(self, d - 1), "int"));
                    case 3: return bin(r.pick({"+", "-", "*"}), v(), field("$idx"));
                    case 4: return bin("and", bin(r.pick({">", "==", "<", "!="}), field("$idx"), lit(vint(r.range(0, 3)))), self(self, d - 1));
                    case 5: return call("arr", {self(self, d - 1), self(self, d - 1)});
                    case 6: return bin(r.pick({"==", "!="}), self(self, d - 1), lit(r.chance(50) ? vnull() : vstr("x")));
                    default: return v();
                    }
                };
                std::vector<EP> a{list(), t(t, (int)r.below(3))};
                if (r.chance(70)) a.push_back(r.chance(60) ? lit(r.pick({vnull(), vbool(true), vbool(false), vstr(""), vint(0), vint(7)})) : r.chance(50) ? s() : q.any(1));
                one(call("sum", a), true);
            }
            one(call("keys", {r.chance(50) ? q.objs(2) : q.fld(r.pick(Objs))}), false);
            one(call("re", {r.chance(50) ? lit(vstr(q.pattern())) : lit(vre(q.pattern()))}), false);
            one(bin(r.pick({"==", "!="}), s(), r.chance(50) ? lit(vre(q.pattern())) : call("re", {lit(vstr(q.pattern()))})), false);
            one(call("trace", {list(), lit(vint(r.range(-1, 3))), lit(vstr("x"))}), false);
            // Any argument list, most of them wrong: an error or the documented result, in agreement with the reference.
            std::vector<EP> a;
            auto w = q.wildness;
            for (uint64_t n = r.below(5); n > 0; --n)
                switch (r.below(5)) {
                case 0: a.push_back(i()); break;
                case 1: a.push_back(s()); break;
                case 2: a.push_back(b()); break;
                case 3: a.push_back(q.any(1)); break;
                default: a.push_back(list());
                }
            q.wildness = w;
            std::string f = r.pick({"any", "all", "each", "count", "range", "re", "split", "select", "sum", "keys", "trace", "nosuchfn"});
            // The default name of a trace is its rendered expression, which other checks compare.
            if (!(f == "trace" && !a.empty() && a.size() < 3)) one(call(f, a), true);
        }
        // Laws that need no reference: join(split(x, sep)) == x, count(select(l, 0, 0)) over all-true values, sum == fold.
        std::string text, sep = r.pick({",", ";;", "ab", "-"});
        for (uint64_t n = r.below(12); n > 0; --n) text += r.chance(40) ? sep : std::string(1, r.pick({'a', 'x', ',', ';', '-', 'b'}));
        auto q1 = "split(" + Printer::quoteStr(text, &r) + ", " + Printer::quoteStr(sep, &r) + ")";
        h.input(q1);
        auto run = execute(*fx.env, q1, *fx.root());
        if (run.raised) h.violation("unexpected-error", run.text());
        else if (!text.empty()) {
            std::string joined;
            for (size_t k = 0; k < run.values.size(); ++k) joined += (k ? sep : "") + run.values[k].substr(2);
            if (joined != text) h.violation("split-join", "joining the parts gives " + joined);
            h.count("law split");
        }
        auto lo = r.range(-50, 50), hi = r.range(-50, 50);
        auto q2 = "count(range(" + std::to_string(lo) + "," + std::to_string(hi) + ") ...) == " + std::to_string(std::abs(hi - lo) + 1) +
                  " and sum(range(" + std::to_string(lo) + "," + std::to_string(hi) + ") ...) * 2 == " + std::to_string((lo + hi) * (std::abs(hi - lo) + 1));
        h.input(q2);
        run = execute(*fx.env, q2, *fx.root());
        if (run.values != std::vector<std::string>{"true"}) h.violation("range-law", run.text());
        h.count("law range");
    });
}
