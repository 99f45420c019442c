// C14: concurrent evaluation equals sequential evaluation, without races.
#include "qgen.hpp"
#include "simfil/function.h"
#include "simfil/model/json.h"
#include <thread>
using namespace gen;

/// Computed fields, shared by all threads.
int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C14").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        // Several documents in models that share one string pool and one environment.
        Fixture fx(dg.obj(0), &r);
        std::vector<JP> docs{fx.doc};
        std::vector<std::shared_ptr<simfil::ModelPool>> pools{fx.pool};
        for (uint64_t n = r.below(3); n > 0; --n) {
            docs.push_back(dg.doc());
            auto p = std::make_shared<simfil::ModelPool>(fx.strings);
            p->addRoot(store(*docs.back(), *p, &r));
            pools.push_back(p);
        }
        struct Q { std::string text; bool any, wild; simfil::ExprPtr x; std::vector<std::string> want; };
        std::vector<Q> qs;
        auto outcome = [&](simfil::Environment& env, const simfil::Expr& x, simfil::ModelPool& p) {
            std::string t;
            try {
                for (auto& v : simfil::eval(env, x, *p.root(0))) t += canon(v) + "|" + v.toString() + "\n";
            } catch (const std::exception& e) {
                t = std::string("raised ") + e.what();
            }
            return t;
        };
        std::string all;
        for (int k = 0; k < 6; ++k) {
            QueryGen q{r};
            q.wildness = r.chance(30) ? 25 : 0;
            q.trace = r.chance(15);
            Printer pr;
            pr.rng = &r;
            pr.fieldCaseChance = 10;
            Q one;
            one.text = pr.p(*q.query((int)r.range(1, 4)));
            one.any = r.chance(20);
            one.wild = r.chance(10);
            if (one.text.size() > 1000) continue;
            // The baseline comes from an expression of its own, so that the shared one is still fresh.
            try {
                simfil::Environment seq(fx.strings);
                auto e = simfil::compile(seq, one.text, one.any, one.wild);
                for (auto& p : pools) one.want.push_back(outcome(seq, *e, *p));
                one.x = simfil::compile(*fx.env, one.text, one.any, one.wild);
            } catch (const std::exception&) { continue; }
            size_t size = 0;
            for (auto& w : one.want) size += w.size();
            if (size > 60000) continue;
            all += one.text + " ; ";
            h.distinct(vh::hashStr(one.text) ^ vh::hashStr(jsonText(*fx.doc)));
            qs.push_back(std::move(one));
        }
        if (qs.empty()) return;
        h.input(all + "   on   " + jsonText(*fx.doc));
        int evals = 2 + (int)r.below(3), compilers = (int)r.below(3), rounds = (int)r.range(1, 4);
        std::atomic<int> ready{0};
        std::mutex m;
        std::string bad;
        std::atomic<uint64_t> n{0}, compiled{0}, interned{0};
        auto fail = [&](const std::string& s) { std::lock_guard g(m); if (bad.empty()) bad = s; };
        int total = evals + compilers;
        auto evaluator = [&](uint64_t seed) {
            Rng q(seed);
            ++ready;
            while (ready < total) std::this_thread::yield();
            for (int i = 0; i < rounds; ++i)
                for (size_t j = 0; j < qs.size() * pools.size(); ++j) {
                    auto a = q.below(qs.size()), b = q.below(pools.size());
                    if (i == 0) { a = j / pools.size(); b = j % pools.size(); }
                    auto got = outcome(*fx.env, *qs[a].x, *pools[b]);
                    ++n;
                    if (got != qs[a].want[b]) fail(qs[a].text + ": got " + got + ", sequentially " + qs[a].want[b]);
                    if (q.chance(20)) std::this_thread::yield();
                }
        };
        auto compiler = [&](uint64_t seed, int id) {
            Rng q(seed);
            simfil::Environment own(fx.strings);
            ++ready;
            while (ready < total) std::this_thread::yield();
            for (int i = 0; i < rounds * 3; ++i) {
                auto a = q.below(qs.size()), b = q.below(pools.size());
                auto& env = q.chance(50) ? *fx.env : own;
                try {
                    auto e = simfil::compile(env, qs[a].text, qs[a].any, qs[a].wild);
                    ++compiled;
                    auto got = outcome(env, *e, *pools[b]);
                    if (got != qs[a].want[b]) fail(qs[a].text + " compiled concurrently: got " + got + ", sequentially " + qs[a].want[b]);
                } catch (const std::exception& x) { fail(qs[a].text + " does not compile concurrently: " + x.what()); }
                // Build another model with new and old names on the same pool.
                auto p = std::make_shared<simfil::ModelPool>(fx.strings);
                auto o = p->newObject();
                for (int k = 0; k < 5; ++k) {
                    auto name = q.chance(50) ? "new" + std::to_string(id) + "_" + std::to_string(q.below(50)) : q.pick(Ints);
                    o->addField(name, (int64_t)k);
                    ++interned;
                }
                p->addRoot(o);
                if (p->root(0)->size() != 5) fail("a model built concurrently lost members");
            }
        };
        std::vector<std::thread> ts;
        for (int t = 0; t < evals; ++t) ts.emplace_back(evaluator, r.next());
        for (int t = 0; t < compilers; ++t) ts.emplace_back(compiler, r.next(), t);
        for (auto& t : ts) t.join();
        if (!bad.empty()) h.violation("results", bad);
        h.count("concurrent evaluations", n);
        h.count("concurrent compilations", compiled);
        h.count("names added concurrently", interned);
        h.count("thread groups");
        h.sample(all);
    });
}
