// C08: folding constants at compile time never changes results.
#include "qgen.hpp"
#include "simfil/function.h"
using namespace gen;

/// Yields its argument, but is unknown at compile time, like anything that depends on the document.
struct OpaqueFn : simfil::Function
{
    mutable uint64_t compileCalls = 0, evalCalls = 0;
    auto ident() const -> const simfil::FnInfo& override { static const simfil::FnInfo i{"opaque", "", ""}; return i; }
    auto eval(simfil::Context ctx, simfil::Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const -> simfil::Result override
    {
        if (ctx.phase == simfil::Context::Phase::Compilation) {
            ++compileCalls;
            return res(ctx, simfil::Value::undef());
        }
        ++evalCalls;
        return args[0]->eval(ctx, val, res);
    }
};
static OpaqueFn opaque;

static bool isConst(const E& e)
{
    if (e.k == E::Field || e.k == E::Self || e.k == E::Any || e.k == E::Wild) return false;
    if (e.k == E::Call && e.name == "trace") return false;
    for (auto& x : e.a) if (!isConst(*x)) return false;
    return true;
}
/// Wraps literals (or constant sub-expressions) at random.
static EP wrap(const EP& e, Rng& r, int chance, int& n)
{
    if ((e->k == E::Lit || e->k == E::Sym) && r.chance(chance)) {
        ++n;
        return call("opaque", {e});
    }
    if (isConst(*e) && r.chance(chance / 4)) {
        ++n;
        return call("opaque", {e});
    }
    auto c = std::make_shared<E>(*e);
    for (auto& x : c->a) x = wrap(x, r, chance, n);
    return c;
}
/// Constant expression of any kind; `soft`: percentage of leaves that depend on the document.
static EP constant(Rng& r, int d, int soft = 0)
{
    auto c = [&] { return constant(r, d - 1, soft); };
    if (d <= 0 && soft && r.chance(soft)) return r.chance(70) ? field(r.pick(Ints)) : path(field(r.pick(IntArrs)), mkE(E::Any));
    auto i = [&] { return r.chance(80) ? lit(vint(r.range(0, 6))) : lit(vint(r.pick({INT64_MAX, INT64_MIN, (int64_t)-1, (int64_t)64}))); };
    if (d <= 0)
        switch (r.below(8)) {
        case 0: return lit(vnull());
        case 1: return lit(vbool(r.chance(50)));
        case 2: return lit(vfloat(1.5));
        case 3: return lit(vstr(r.pick({"a", "b", "", "12", "a,b"})));
        case 4: return sym(r.pick({"FOO", "A"}));
        default: return i();
        }
    switch (r.below(18)) {
    case 0: return un(r.pick({"not", "typeof"}), c());
    case 1: return un(r.pick({"-", "~"}), cast(c(), "int"));
    case 2: return cast(c(), r.pick({"int", "float", "string", "bool", "null"}));
    case 3: return post("?", c());
    case 4: case 5: return bin(r.pick({"and", "or"}), c(), c());
    case 6: return bin(r.pick({"==", "!="}), c(), c());
    case 7: return bin(r.pick({"<", "<=", ">", ">="}), cast(c(), "int"), cast(c(), "float"));
    case 8: return bin(r.pick({"+", "-", "*", "&", "|", "^", "<<", ">>"}), cast(c(), "int"), cast(c(), "int"));
    case 9: return bin("+", cast(c(), "string"), cast(c(), "string"));
    case 10: return post("...", call("range", {lit(vint(r.range(0, 9))), lit(vint(r.range(0, 9)))}));
    case 11: if (soft && r.chance(60)) return path(c(), call("arr", {c(), c(), c()}));
        return call("arr", {c(), c(), c()});
    case 12: return call(r.pick({"any", "each", "count"}), {c(), c()});
    case 13: return call("split", {cast(lit(vstr(r.pick({"a,b,,c", ",", "", "x"}))), "string"), lit(vstr(","))});
    case 14: return call("select", {c(), lit(vint(r.range(0, 3))), lit(vint(r.range(0, 3)))});
    case 15: return call("sum", {call("arr", {cast(c(), "int"), cast(c(), "int")})});
    case 16: return bin(r.pick({"==", "!="}), lit(vint(r.range(0, 9))), call("range", {lit(vint(r.range(0, 9))), lit(vint(r.range(0, 9)))}));
    default: return path(c(), r.chance(50) ? self() : c());
    }
}

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C08").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.doc(), &r);
        Fixture other(dg.doc(), &r); // the same expression on another document
        fx.env->functions["opaque"] = &opaque;
        // Constants with many values
        if (r.chance(8)) {
            auto n = r.chance(70) ? r.range(9995, 10006) : r.range(10000, 25000);
            auto cut = r.range(0, 30);
            auto list = [&](bool hide) {
                auto one = std::string(hide ? "opaque(1)" : "1"), N = std::to_string(n), M = std::to_string(n - cut), C = std::to_string(cut);
                switch (n % 4) {
                case 0: return "(range(" + one + ", " + N + ")...)";
                case 1: return "arr(range(" + one + ", " + M + ")..., range(" + one + ", " + C + ")...)";
                case 2: return "arr(" + one + ", range(1, " + N + ")..., 'a', null)";
                default: return "(range(" + one + ", " + N + ")... as string)";
                }
            };
            auto form = r.below(9);
            auto query = [&](bool hide) {
                auto l = list(hide);
                switch (form) {
                case 0: return l;
                case 1: return "(" + l + ") == 10000";
                case 2: return "count(" + l + ")";
                case 3: return "count(" + l + " != 3)";
                case 4: return "typeof " + l;
                case 5: return "select(" + l + ", 9997, 8)";
                case 6: return "(" + l + ") and 1";
                case 7: return "arr(" + l + ", _)";
                default: return "any(" + l + " == " + std::to_string(n - 1) + ")";
                }
            };
            h.input(query(false));
            auto folded = execute(*fx.env, query(false), *fx.root()), unfolded = execute(*fx.env, query(true), *fx.root());
            h.count("many values", unfolded.values.size());
            if (folded.text() != unfolded.text())
                h.violation("many-values", "unfolded: " + std::to_string(unfolded.values.size()) + " values " + unfolded.text().substr(0, 100) + ", folded: " + std::to_string(folded.values.size()) + " values " + folded.text().substr(0, 100));
        }
        for (int k = 0; k < 18; ++k) {
            EP e;
            QueryGen q{r};
            switch (r.below(6)) {
            case 5: e = constant(r, (int)r.range(1, 4), (int)r.range(5, 40)); break;
            case 0: e = constant(r, (int)r.range(1, 4)); break;
            case 1: e = path(q.objs(1), r.chance(50) ? constant(r, 2) : bin(r.pick({"==", "!=", "and", "or"}), field(r.pick(Ints)), constant(r, 2))); break;
            case 2: e = r.chance(50) ? sub(q.objs(1), constant(r, 2)) : idx(q.objs(1), constant(r, 2)); break;
            default: e = q.query((int)r.range(2, 4));
            }
            Printer pr;
            auto text = pr.p(*e);
            if (text.size() > 1500) continue;
            bool early = e->k != E::Lit; // untyped constants may fail where they are not needed
            Run folded;
            Outcome want;
            if (!compareQuery(h, fx, *e, text, early, &folded, &want)) continue;
            if (want.raised) continue;
            for (int v = 0; v < 3; ++v) {
                int n = 0;
                auto w = wrap(e, r, v == 0 ? 100 : 50, n);
                if (!n) continue;
                auto wt = pr.p(*w);
                h.input(wt + "   for   " + text + "   on   " + jsonText(*fx.doc));
                auto got = execute(*fx.env, wt, *fx.root());
                h.count("unfolded");
                h.distinct(wt);
                if (folded.compileRaised) { h.count("raised while folding"); continue; }
                if (got.text() != folded.text()) h.violation("folding", "unfolded: " + got.text() + ", folded: " + folded.text());
            }
            // Nothing of one document is remembered for another one.
            if (!folded.raised) {
                Outcome o2;
                try { o2 = evaluate(*e, *other.doc); } catch (const Unspec&) { continue; }
                h.input(text + "   on   " + jsonText(*fx.doc) + "   then on   " + jsonText(*other.doc));
                // Both documents in one pool
                auto node = store(*other.doc, *fx.pool, &r);
                try { o2 = evaluate(*e, *other.doc); } catch (const Unspec&) { continue; }
                auto x = simfil::compile(*fx.env, text, false);
                Run first, second;
                auto run = [&](Run& out, const simfil::ModelNode& root) {
                    try { for (auto& v : simfil::eval(*fx.env, *x, root)) out.values.push_back(canon(v)); }
                    catch (const std::exception& err) { out.raised = true; out.error = err.what(); out.values.clear(); }
                };
                run(first, *fx.root());
                run(second, *node);
                h.count("second document");
                if (first.text() != folded.text()) h.violation("repeat", "first " + folded.text() + ", then " + first.text());
                if (second.raised != o2.raised || (!o2.raised && second.values != o2.values))
                    h.violation("second-document", "got " + second.text() + ", expected " + o2.text());
            }
            h.sample(text);
        }
    });
}
