// C12: evaluation is safe, repeatable and does not modify its inputs.
#include "qgen.hpp"
#include "lexgen.hpp"
#include <sstream>
using namespace gen;

static std::string snapshot(Fixture& fx)
{
    std::ostringstream s;
    fx.strings->write(s);
    fx.pool->write(s);
    s << fx.strings->size() << " " << fx.strings->highest() << " " << fx.pool->numRoots();
    return s.str();
}
struct Result2 { bool raised = false; std::string text; size_t warnings = 0; };

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C12").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(r.chance(80) ? dg.obj(0) : dg.doc(), &r);
        // All nodes of the document, to evaluate on any of them
        std::vector<simfil::ModelNode::Ptr> nodes;
        std::function<void(const J&)> collect = [&](const J& j) {
            if (j.addr) nodes.push_back(simfil::ModelNode::Ptr::make(fx.pool, [&] { simfil::ModelNodeAddress a; a.value_ = j.addr; return a; }()));
            for (auto& [k, v] : j.obj) collect(*v);
            for (auto& v : j.arr) collect(*v);
        };
        if (r.chance(50)) collect(*fx.doc);
        std::vector<std::pair<std::string, std::string>> history; // query and outcome
        std::vector<simfil::ExprPtr> exprs;
        std::vector<size_t> where;
        auto before = snapshot(fx);
        auto json = fx.root()->toJson();
        simfil::Environment twin(fx.strings);
        auto run = [&](simfil::Environment& env, const simfil::Expr& e, const simfil::ModelNode& n) {
            Result2 o;
            auto w = env.warnings.size();
            try {
                auto vs = simfil::eval(env, e, n);
                if (vs.empty()) h.violation("no-result", "evaluation returned no value at all");
                for (auto& v : vs) { o.text += canon(v) + "\n"; (void)v.toString(); }
                h.count("values", vs.size());
            } catch (const std::exception& x) {
                o.raised = true;
                o.text = std::string("raised: ") + x.what();
                if (!*x.what()) h.violation("no-message", "error without a message");
            }
            o.warnings = env.warnings.size() - w;
            return o;
        };
        for (int k = 0; k < 14; ++k) {
            QueryGen g{r};
            g.wildness = r.chance(70) ? (int)r.below(90) : 0;
            g.trace = r.chance(20);
            g.constants = r.chance(60);
            Printer pr;
            pr.rng = &r;
            std::string q = pr.p(*g.query((int)r.range(1, 4)));
            if (r.chance(25)) q = mutate(r, q);
            if (r.chance(5)) q = tokenSoup(r, 5);
            if (q.size() > 1500) continue;
            if (q.find("range") != std::string::npos && (q.find("0x") != std::string::npos || q.find("0X") != std::string::npos || q.find("00000") != std::string::npos
                || q.find("9223") != std::string::npos || q.find("2147") != std::string::npos || q.find("4611") != std::string::npos))
                continue; // unpacking a huge range takes its time
            bool any = r.chance(20), wild = r.chance(20);
            auto& node = nodes.empty() || r.chance(40) ? fx.root() : r.pick(nodes);
            h.input(q + "   on   " + jsonText(*fx.doc));
            simfil::ExprPtr e;
            try { e = simfil::compile(*fx.env, q, any, wild); } catch (const std::exception&) { h.count("does not compile"); continue; }
            h.count("queries");
            h.distinct(vh::hashStr(q) ^ vh::hashStr(jsonText(*fx.doc), 5));
            auto text = e->toString();
            auto a = run(*fx.env, *e, *node);
            h.count(a.raised ? "raising" : "evaluated");
            if (snapshot(fx) != before) { h.violation("modified", "evaluation changed the document or the string pool"); before = snapshot(fx); }
            if (e->toString() != text) h.violation("expression", "evaluation changed the expression to " + e->toString());
            auto b = run(*fx.env, *e, *node);
            if (a.text != b.text || a.raised != b.raised) h.violation("repeat", "first: " + a.text + ", again: " + b.text);
            if (a.warnings != b.warnings) h.violation("warnings", std::to_string(a.warnings) + " warnings, then " + std::to_string(b.warnings));
            auto c = run(twin, *e, *node);
            if (a.text != c.text) h.violation("environment", "first: " + a.text + ", in another environment: " + c.text);
            auto e2 = simfil::compile(twin, q, any, wild);
            auto d = run(twin, *e2, *node);
            if (a.text != d.text || e2->toString() != text) h.violation("recompiled", "first: " + a.text + ", recompiled: " + d.text);
            // Some other node in between, then once more
            if (!nodes.empty()) {
                (void)run(*fx.env, *e, *r.pick(nodes));
                auto f = run(*fx.env, *e, *node);
                if (a.text != f.text) h.violation("history", "first: " + a.text + ", after other nodes: " + f.text);
            }
            h.sample(q);
        }
        if (fx.root()->toJson() != json) h.violation("modified", "the document changed");
        // Results outlive expressions; environments die before results.
        std::vector<simfil::Value> keep;
        {
            simfil::Environment temp(fx.strings);
            QueryGen g{r};
            Printer pr;
            for (int i = 0; i < 4; ++i) {
                auto q = pr.p(*g.query(3));
                h.input("kept results of " + q);
                try {
                    auto e = simfil::compile(temp, q, false);
                    for (auto& v : simfil::eval(temp, *e, *fx.root())) keep.push_back(std::move(v));
                } catch (const std::exception&) {}
            }
        }
        for (auto& v : keep) { (void)v.toString(); (void)canon(v); }
        h.count("kept values", keep.size());
    });
}
