// C13: a consumer can stop evaluation at any result.
#include "qgen.hpp"
#include "simfil/function.h"
using namespace gen;
using simfil::Result;

/// Passes on at most n values of its second argument; a consumer within an expression.
struct TakeFn : simfil::Function
{
    mutable uint64_t late = 0, stops = 0;
    auto ident() const -> const simfil::FnInfo& override { static const simfil::FnInfo i{"take", "", ""}; return i; }
    auto eval(simfil::Context ctx, simfil::Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const -> Result override
    {
        if (ctx.phase == simfil::Context::Phase::Compilation) return res(ctx, simfil::Value::undef());
        auto [ok, n] = simfil::util::evalArg1Any(ctx, val, args[0]);
        int64_t left = n.isa(simfil::ValueType::Int) ? n.as<simfil::ValueType::Int>() : 1;
        bool stopped = false;
        auto result = Result::Continue;
        (void)args[1]->eval(ctx, val, simfil::LambdaResultFn([&](simfil::Context c, simfil::Value v) {
            if (stopped) { ++late; return Result::Stop; }
            --left;
            result = res(c, std::move(v));
            if (result == Result::Stop || left <= 0) { stopped = true; ++stops; return Result::Stop; }
            return Result::Continue;
        }));
        return result;
    }
};
static TakeFn take;

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C13").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.obj(0), &r);
        fx.env->functions["take"] = &take;
        auto root = simfil::Value::field(*fx.root());
        for (int k = 0; k < 12; ++k) {
            QueryGen q{r};
            q.trace = r.chance(20);
            EP e;
            auto many = [&]() -> EP { // operands with several values
                switch (r.below(7)) {
                case 0: return mkE(E::Wild);
                case 1: return mkE(E::Any);
                case 2: return post("...", q.range());
                case 3: return call("arr", {q.any(1), q.any(1), q.any(1)});
                case 4: return path(mkE(E::Any), mkE(E::Any));
                case 5: return q.objs(2);
                default: return q.splits(1);
                }
            };
            switch (r.below(14)) {
            case 0: e = bin(r.pick({"==", "!=", "and", "or"}), many(), many()); break;
            case 1: e = un(r.pick({"not", "typeof"}), many()); break;
            case 2: e = cast(many(), r.pick({"string", "int", "bool"})); break;
            case 3: e = call("select", {many(), lit(vint(r.range(0, 3))), lit(vint(r.range(-1, 4)))}); break;
            case 4: e = call("keys", {r.chance(60) ? self() : path(mkE(E::Wild), field(r.pick(Objs)))}); break;
            case 5: e = call("trace", {many(), lit(vint(2)), lit(vstr("t"))}); break;
            case 6: e = path(many(), many()); break;
            case 7: e = sub(mkE(r.chance(50) ? E::Wild : E::Any), many()); break;
            case 8: e = idx(r.chance(50) ? q.fld(r.pick(Objs)) : self(), call("arr", {lit(vstr(r.pick(Ints))), lit(vint(0)), lit(vint(1)), lit(vstr(r.pick(Strs)))})); break;
            case 9: e = call("re", {call("arr", {lit(vstr("a")), lit(vstr("b")), cast(field(r.pick(Strs)), "string")})}); break;
            case 10: e = post("...", call("arr", {q.range(), q.range()})); break;
            default: e = q.query((int)r.range(2, 4));
            }
            Printer pr;
            auto text = pr.p(*e);
            if (text.size() > 1500) continue;
            h.input(text + "   on   " + jsonText(*fx.doc));
            simfil::ExprPtr x;
            std::vector<std::string> all;
            try {
                x = simfil::compile(*fx.env, text, false);
                simfil::Context ctx(fx.env.get());
                auto rr = x->eval(ctx, root, simfil::LambdaResultFn([&](simfil::Context, simfil::Value v) { all.push_back(canon(v)); return Result::Continue; }));
                if (rr != Result::Continue) h.violation("spurious-stop", "evaluation reports Stop although nobody asked for it");
            } catch (const std::exception&) {
                h.count("raising");
                continue;
            }
            h.count("queries");
            if (all.size() > 1) h.distinct(vh::hashStr(text) ^ vh::hashStr(jsonText(*fx.doc), 3));
            std::vector<size_t> at;
            if (all.size() <= 12) for (size_t n = 1; n <= all.size(); ++n) at.push_back(n);
            else for (size_t n : {(size_t)1, (size_t)2, (size_t)3, all.size() / 2, all.size() - 1, all.size()}) at.push_back(n);
            auto runStopping = [&](const simfil::Expr& ex, size_t n, const char* how) {
                std::vector<std::string> got;
                size_t late = 0;
                Result rr = Result::Continue;
                try {
                    simfil::Context ctx(fx.env.get());
                    rr = ex.eval(ctx, root, simfil::LambdaResultFn([&](simfil::Context, simfil::Value v) {
                        if (got.size() >= n) { ++late; return Result::Stop; }
                        got.push_back(canon(v));
                        return got.size() >= n ? Result::Stop : Result::Continue;
                    }));
                } catch (const std::exception& err) {
                    h.violation("raised", std::string(how) + ": stopping after " + std::to_string(n) + " of " + std::to_string(all.size()) + " values raised " + err.what());
                    return;
                }
                h.count("stops");
                if (n < all.size()) h.count("early stops");
                if (late) h.violation("late-results", std::string(how) + ": " + std::to_string(late) + " results after the consumer stopped at " + std::to_string(n) + " of " + std::to_string(all.size()));
                if (got.size() != n || !std::equal(got.begin(), got.end(), all.begin())) h.violation("prefix", std::string(how) + ": stopping after " + std::to_string(n) + " values gives other values");
                if (rr != Result::Stop) h.violation("not-forwarded", std::string(how) + ": the request to stop after " + std::to_string(n) + " of " + std::to_string(all.size()) + " values is not reported to the caller");
            };
            for (auto n : at) runStopping(*x, n, "direct");
            // Usable afterwards
            {
                std::vector<std::string> again;
                simfil::Context ctx(fx.env.get());
                (void)x->eval(ctx, root, simfil::LambdaResultFn([&](simfil::Context, simfil::Value v) { again.push_back(canon(v)); return Result::Continue; }));
                if (again != all) h.violation("after", "another result after stopped evaluations");
            }
            // A consumer inside of a query
            auto n = at.empty() ? 1 : r.pick(at);
            auto inner = "take(" + std::to_string(n) + ", " + text + ")";
            h.input(inner + "   on   " + jsonText(*fx.doc));
            try {
                take.late = 0;
                auto y = execute(*fx.env, inner, *fx.root());
                if (take.late) h.violation("late-results", "consumer within the query got " + std::to_string(take.late) + " results after stopping");
                std::vector<std::string> want(all.begin(), all.begin() + (long)std::min(n, all.size()));
                if (y.raised || y.values != want) h.violation("inner", "got " + y.text() + ", expected the first " + std::to_string(n) + " of " + std::to_string(all.size()) + " values");
                auto both = "arr(" + inner + ", 'end')";
                y = execute(*fx.env, both, *fx.root());
                want.push_back("s:end");
                if (y.raised || y.values != want) h.violation("inner-stop-leaks", "a consumer inside of a query stopped the evaluation around it: " + y.text());
                h.count("inner stops");
            } catch (const std::exception& err) { h.violation("raised", err.what()); }
            h.sample(text);
        }
    });
}
