// C29: debug hooks see every evaluation step, properly nested.
#include "qgen.hpp"
using namespace gen;
using simfil::Result;

/// Number of expressions in the rendering of one without strings: every list is one, its first word names the operator.
static size_t nodes(const std::string& t)
{
    size_t n = 0;
    bool head = false;
    for (size_t i = 0; i < t.size();) {
        if (t[i] == '(') { ++n; head = true; ++i; }
        else if (t[i] == ')' || t[i] == ' ') ++i;
        else {
            while (i < t.size() && t[i] != ' ' && t[i] != ')' && t[i] != '(') ++i;
            if (!head) ++n;
            head = false;
        }
    }
    return n;
}
/// An expression whose parts all have one value, and are all needed.
static EP strict(Rng& r, int d)
{
    auto c = [&] { return strict(r, d - 1); };
    if (d <= 0) return r.chance(30) ? lit(vint(r.range(0, 9))) : r.chance(20) ? path(field(r.pick(Objs)), field(r.pick(Ints))) : r.chance(10) ? self() : field(r.pick(Ints));
    switch (r.below(8)) {
    case 0: return bin(r.pick({"+", "-", "*", "&", "|", "^"}), cast(c(), "int"), cast(c(), "int"));
    case 1: return bin(r.pick({"==", "!="}), c(), c());
    case 2: return bin(r.pick({"<", "<=", ">", ">="}), cast(c(), "int"), cast(c(), "float"));
    case 3: return un(r.pick({"not", "typeof"}), c());
    case 4: return un("-", cast(c(), "int"));
    case 5: return cast(c(), r.pick({"int", "float", "bool", "string"}));
    case 6: return post("?", c());
    default: return path(field(r.pick(Objs)), cast(c(), "int"));
    }
}

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C29").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.obj(0), &r);
        auto root = simfil::Value::field(*fx.root());
        struct Open { const simfil::Expr* e; std::string val; };
        std::vector<Open> stack;
        uint64_t begins = 0, ends = 0;
        std::string problem;
        const simfil::Expr* expectRoot = nullptr;
        std::set<const simfil::Expr*> seen;
        simfil::Debug dbg;
        size_t maxDepth = 0;
        dbg.evalBegin = [&](const simfil::Expr& e, simfil::Context& ctx, simfil::Value& v, const simfil::ResultFn&) {
            ++begins;
            if (ctx.env != fx.env.get()) problem = "context of another environment";
            if (expectRoot && stack.empty() && &e != expectRoot) problem = "first step is not the evaluated expression: " + e.toString();
            if (expectRoot && stack.empty() && canon(v) != canon(root)) problem = "first step gets another value: " + canon(v);
            if (expectRoot && ctx.phase != simfil::Context::Phase::Evaluation) problem = "not in the evaluation phase";
            stack.push_back({&e, ""});
            maxDepth = std::max(maxDepth, stack.size());
            seen.insert(&e);
        };
        dbg.evalEnd = [&](const simfil::Expr& e) {
            ++ends;
            if (stack.empty()) { problem = "end without begin"; return; }
            if (stack.back().e != &e) problem = "ends " + e.toString() + " while in " + stack.back().e->toString();
            stack.pop_back();
        };
        // Every single step is reported
        for (int k = 0; k < 6; ++k) {
            Printer pr;
            auto text = pr.p(*strict(r, (int)r.range(1, 4)));
            h.input(text + "   on   " + jsonText(*fx.doc));
            simfil::ExprPtr x;
            std::vector<simfil::Value> vs;
            try {
                x = simfil::compile(*fx.env, text, false);
                fx.env->debug = &dbg;
                begins = ends = 0; expectRoot = x.get();
                seen.clear();
                vs = simfil::eval(*fx.env, *x, *fx.root());
            } catch (const std::exception&) { fx.env->debug = nullptr; stack.clear(); problem.clear(); h.count("raising"); continue; }
            fx.env->debug = nullptr;
            auto want = nodes(x->toString());
            // A path without a first node does not look any further.
            bool full = x->toString().find("(.") == std::string::npos;
            if (full ? begins != want || seen.size() != want : begins > want || seen.size() != begins)
                h.violation("steps", std::to_string(begins) + " steps of " + std::to_string(seen.size()) + " expressions were reported for " + x->toString() + ", which has " + std::to_string(want));
            if (full) h.count("all steps");
            h.count("strict queries");
        }
        for (int k = 0; k < 20; ++k) {
            QueryGen q{r};
            q.trace = r.chance(15);
            q.wildness = r.chance(20) ? 20 : 0;
            Printer pr;
            auto text = pr.p(*q.query((int)r.range(1, 4)));
            if (text.size() > 1500) continue;
            h.input(text + "   on   " + jsonText(*fx.doc));
            auto check = [&](const char* when) {
                if (!problem.empty()) h.violation("nesting", std::string(when) + ": " + problem);
                if (!stack.empty()) h.violation("balance", std::string(when) + ": " + std::to_string(stack.size()) + " steps never ended");
                if (begins != ends) h.violation("balance", std::string(when) + ": " + std::to_string(begins) + " begins, " + std::to_string(ends) + " ends");
                problem.clear(); stack.clear();
            };
            auto base = execute(*fx.env, text, *fx.root());
            simfil::ExprPtr x;
            std::string plain;
            try {
                fx.env->debug = nullptr;
                try { plain = simfil::compile(*fx.env, text, false)->toString(); } catch (const std::exception&) {}
                fx.env->debug = &dbg;
                begins = ends = 0; expectRoot = nullptr;
                x = simfil::compile(*fx.env, text, false);
                check("compilation");
                if (x->toString() != plain) h.violation("results", "compiles to " + x->toString() + " with hooks, to " + plain + " without");
            } catch (const std::exception&) { stack.clear(); problem.clear(); }
            // What fails in between leaves the hooks attached.
            if (fx.env->debug != &dbg) h.violation("attached", "compiling the query detached the hooks");
            for (auto n = r.below(3); n > 0; --n) {
                auto bad = std::string(r.pick({"'x' - 1", "1 / 0", "nosuch(1)", ")", "range('a', 1)", "_ or (1 % 0)", "-'x'", "*{1 % 0}", "split(1, 2)", "1 as nothing", "arr(1, 2, -'x')",
                    "(typeof _) - 1", "range(typeof _, 1)", "*.{typeof _ + {}}", "each(*, (typeof _) * 1)"}));
                try { (void)simfil::eval(*fx.env, *simfil::compile(*fx.env, bad, r.chance(30)), *fx.root()); } catch (const std::exception&) { h.count("failing in between"); }
                stack.clear(); problem.clear();
                if (fx.env->debug != &dbg) h.violation("attached", "the hooks are detached after " + bad);
                fx.env->debug = &dbg;
            }
            if (!x || base.raised) { fx.env->debug = nullptr; h.count("raising"); continue; }
            begins = ends = 0; seen.clear(); maxDepth = 0;
            expectRoot = x.get();
            auto all = simfil::eval(*fx.env, *x, *fx.root());
            check("evaluation");
            Run got;
            for (auto& v : all) got.values.push_back(canon(v));
            if (got.text() != base.text()) h.violation("results", "with hooks: " + got.text() + ", without: " + base.text());
            if (!begins) h.violation("missing", "no step was reported");
            h.count("queries");
            h.count("events", begins + ends);
            h.count("steps deep", maxDepth);
            if (seen.size() > 2) h.distinct(text);
            // Stopped evaluations
            auto n = 1 + r.below(all.size());
            begins = ends = 0;
            size_t c = 0;
            simfil::Context ctx(fx.env.get());
            (void)x->eval(ctx, root, simfil::LambdaResultFn([&](simfil::Context, simfil::Value) { return ++c >= n ? Result::Stop : Result::Continue; }));
            check("stopped evaluation");
            h.count("stopped");
            // Same steps again
            auto b1 = begins; (void)b1;
            expectRoot = nullptr;
            fx.env->debug = nullptr;
            auto before = begins;
            (void)simfil::eval(*fx.env, *x, *fx.root());
            if (begins != before) h.violation("detached", "hooks were called after detaching them");
            h.sample(text);
        }
        // A chain of known shape: every operator of it is evaluated once.
        {
            auto depth = 1 + r.below(12);
            std::string text = "a";
            for (uint64_t i = 0; i < depth; ++i) text = "typeof (" + text + ")";
            h.input("chain " + text);
            auto x = simfil::compile(*fx.env, text, false);
            fx.env->debug = &dbg;
            begins = ends = 0; expectRoot = x.get(); maxDepth = 0; seen.clear();
            (void)simfil::eval(*fx.env, *x, *fx.root());
            fx.env->debug = nullptr;
            expectRoot = nullptr;
            if (begins != depth + 1 || ends != begins || maxDepth != depth + 1 || seen.size() != depth + 1)
                h.violation("steps", std::to_string(begins) + " steps of " + std::to_string(seen.size()) + " expressions, depth " + std::to_string(maxDepth) + ", expected " + std::to_string(depth + 1));
            h.count("chains");
        }
    });
}
