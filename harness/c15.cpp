// C15: no trace or warning is lost or mixed up.
#include "qgen.hpp"
#include <thread>
using namespace gen;

#ifndef CONCURRENT
#define CONCURRENT 0
#endif

static EP traced(QueryGen& q, Rng& r, const std::string& name)
{
    auto inner = [&]() -> EP {
        switch (r.below(6)) {
        case 0: return mkE(E::Wild);
        case 1: return post("...", q.range());
        case 2: return path(mkE(E::Any), field(r.pick(Ints)));
        case 3: return call("arr", {q.any(1), lit(vnull()), q.any(1)});
        default: return q.any(2);
        }
    }();
    auto t = call("trace", {inner, lit(vint(r.chance(20) ? -1 : r.range(0, 5))), lit(vstr(name))});
    switch (r.below(8)) {
    case 0: return path(mkE(E::Any), t);
    case 1: return sub(mkE(E::Wild), t);
    case 2: return call("count", {t});
    case 3: return bin("==", t, lit(vint(1)));
    case 4: return call("arr", {t, lit(vint(1))});
    case 5: return path(post("...", call("range", {lit(vint(0)), lit(vint(r.range(0, 5)))})), t);
    default: return t;
    }
}
static EP warner(QueryGen& q, Rng& r)
{
    return idx(r.chance(50) ? mkE(E::Wild) : q.objs(1), lit(r.chance(50) ? vint(r.range(0, 6)) : vstr(r.pick(Ints))));
}

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C15").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        Fixture fx(dg.obj(0), &r);
        struct Q { EP e; std::string text, name; simfil::ExprPtr x; Outcome want; int64_t limit; };
        std::vector<Q> qs;
        size_t compileWarnings = 0;
        for (int k = 0; k < (CONCURRENT ? 4 : 8); ++k) {
            QueryGen q{r};
            Q one;
            one.name = "t" + std::to_string(k);
            bool w = r.chance(35);
            one.e = w ? warner(q, r) : traced(q, r, one.name);
            Printer pr;
            one.text = pr.p(*one.e);
            try { one.want = evaluate(*one.e, *fx.doc); } catch (const Unspec&) { continue; }
            if (one.want.raised || one.want.values.size() > 500) continue;
            one.limit = -1;
            walk(*one.e, [&](const E& e) { if (e.k == E::Call && e.name == "trace") one.limit = e.a[1]->lit.i; });
            h.input(one.text + "   on   " + jsonText(*fx.doc));
            one.x = simfil::compile(*fx.env, one.text, false);
            compileWarnings = fx.env->warnings.size();
            qs.push_back(std::move(one));
        }
        if (qs.empty()) return;
        std::string texts;
        for (auto& q : qs) { texts += q.text + " ; "; h.distinct(vh::hashStr(q.text) ^ vh::hashStr(jsonText(*fx.doc))); }
        h.input(texts + "   on   " + jsonText(*fx.doc));
        // What one run of every query warns about
        std::vector<std::pair<std::string, std::string>> oneRun;
        {
            simfil::Environment other(fx.strings);
            for (auto& q : qs) (void)simfil::eval(other, *q.x, *fx.root());
            oneRun = other.warnings;
        }
        int threads = CONCURRENT ? 2 + (int)r.below(3) : 1, rounds = (int)r.range(1, CONCURRENT ? 5 : 3);
        std::atomic<int> ready{0}, wrong{0}, overlaps{0};
        std::atomic<size_t> direct{0}, directTraces{0};
        std::atomic<bool> inside{false};
        auto started = std::chrono::steady_clock::now();
        auto work = [&](uint64_t seed) {
            Rng q(seed);
            ++ready;
            while (ready < threads) std::this_thread::yield();
            for (int i = 0; i < rounds; ++i)
                for (auto& one : qs) {
                    if (CONCURRENT && q.chance(30)) std::this_thread::yield();
                    std::vector<std::string> got;
                    for (auto& v : simfil::eval(*fx.env, *one.x, *fx.root())) got.push_back(canon(v));
                    if (got != one.want.values) ++wrong;
                    // The same interface the library uses is there for its users.
                    if (q.chance(20)) {
                        fx.env->warn("direct", one.name);
                        ++direct;
                    }
                    if (q.chance(20)) {
                        fx.env->trace("direct", [&](simfil::Trace& t) {
                            if (inside.exchange(true)) ++overlaps;
                            ++t.calls;
                            t.values.push_back(simfil::Value::make((int64_t)t.calls));
                            if (q.chance(20)) std::this_thread::yield();
                            inside = false;
                        });
                        ++directTraces;
                    }
                }
        };
        if (CONCURRENT) {
            std::vector<std::thread> ts;
            for (int t = 0; t < threads; ++t) ts.emplace_back(work, r.next());
            for (auto& t : ts) t.join();
        } else
            work(1);
        if (wrong) h.violation("results", std::to_string(wrong) + " evaluations gave other results");
        auto times = (size_t)threads * (size_t)rounds;
        auto elapsed = std::chrono::steady_clock::now() - started;
        // Warnings: one per invalid subscript
        size_t wantWarn = direct;
        for (auto& q : qs) wantWarn += q.want.warnings * times;
        auto gotWarn = fx.env->warnings.size() - compileWarnings;
        if (gotWarn != wantWarn) h.violation("warnings", std::to_string(gotWarn) + " warnings, expected " + std::to_string(wantWarn));
        std::map<std::pair<std::string, std::string>, size_t> gotPer, wantPer;
        for (auto& w : oneRun) wantPer[w] += times;
        size_t gotDirect = 0;
        for (size_t i = compileWarnings; i < fx.env->warnings.size(); ++i) {
            auto& w = fx.env->warnings[i];
            if (w.first.empty()) h.violation("warnings", "empty warning");
            if (w.first == "direct") { ++gotDirect; continue; }
            ++gotPer[w];
        }
        if (gotDirect != direct) h.violation("warnings", std::to_string(gotDirect) + " warnings of the user, expected " + std::to_string(direct));
        for (auto& [w, n] : wantPer)
            if (gotPer[w] != n) h.violation("warning-text", std::to_string(gotPer[w]) + " warnings '" + w.first + "' about " + w.second + ", expected " + std::to_string(n));
        for (auto& [w, n] : gotPer)
            if (!wantPer.count(w)) h.violation("warning-text", "unexpected warning '" + w.first + "' about " + w.second);
        h.count("warnings", wantWarn);
        // Traces
        size_t named = directTraces > 0;
        if (directTraces) {
            auto& t = fx.env->traces["direct"];
            if (t.calls != directTraces || t.values.size() != directTraces) h.violation("direct-trace", std::to_string(t.calls) + " calls and " + std::to_string(t.values.size()) + " values, expected " + std::to_string(directTraces));
            for (size_t i = 0; i < t.values.size(); ++i)
                if (canon(t.values[i]) != "i:" + std::to_string(i + 1)) { h.violation("direct-trace", "values are mixed up"); break; }
            if (overlaps) h.violation("direct-trace", "trace callbacks overlap");
            h.count("direct traces", directTraces);
        }
        for (auto& q : qs) {
            auto w = q.want.traces.find(q.name);
            auto g = fx.env->traces.find(q.name);
            if (w == q.want.traces.end()) {
                if (g != fx.env->traces.end()) h.violation("trace-extra", "trace " + q.name + " recorded, but never evaluated");
                continue;
            }
            ++named;
            if (g == fx.env->traces.end()) { h.violation("trace-missing", "trace " + q.name + " was not recorded"); continue; }
            auto& t = g->second;
            h.count("traces");
            h.count("trace calls", w->second.calls * times);
            if (t.calls != w->second.calls * times)
                h.violation("trace-calls", q.name + ": " + std::to_string(t.calls) + " calls, expected " + std::to_string(w->second.calls * times));
            if (t.totalus.count() < 0 || t.totalus > std::chrono::duration_cast<std::chrono::microseconds>(elapsed) * threads + std::chrono::microseconds(1))
                h.violation("trace-time", q.name + ": took " + std::to_string(t.totalus.count()) + " us, more than the whole run");
            std::vector<std::string> got;
            for (auto& v : t.values) got.push_back(canon(v));
            // One run of the query records this sequence; runs are appended until the limit is reached.
            Outcome unlimited = q.want;
            auto& seq = w->second.values;
            if (!CONCURRENT) {
                std::vector<std::string> want;
                // The reference interpreter cuts at the limit within one run, so repeat it with that state.
                Interp in;
                for (size_t i = 0; i < times; ++i)
                    in.ev(*q.e, vnode(fx.doc.get()), [](const RV&) { return true; });
                want = in.traces[q.name].values;
                if (got != want) h.violation("trace-values", q.name + ": " + std::to_string(got.size()) + " values, expected " + std::to_string(want.size()) + (got.empty() ? "" : ", first is " + got[0]) + (want.empty() ? "" : ", expected " + want[0]));
            } else {
                // Any interleaving of whole calls; what is stored is the first values up to the limit.
                std::multiset<std::string> legal;
                for (size_t i = 0; i < times; ++i) legal.insert(seq.begin(), seq.end());
                if (q.limit < 0) {
                    if (std::multiset<std::string>(got.begin(), got.end()) != legal)
                        h.violation("trace-values", q.name + ": " + std::to_string(got.size()) + " values, expected " + std::to_string(legal.size()));
                } else {
                    if ((int64_t)got.size() > q.limit) h.violation("trace-limit", q.name + ": more values than the limit");
                    for (auto& g2 : got) if (!legal.count(g2)) h.violation("trace-values", q.name + ": unknown value " + g2);
                    if (!seq.empty() && (int64_t)got.size() < std::min<int64_t>(q.limit, (int64_t)seq.size())) h.violation("trace-values", q.name + ": only " + std::to_string(got.size()) + " values");
                }
            }
            h.count("trace values", got.size());
        }
        if (fx.env->traces.size() != named) h.violation("trace-extra", std::to_string(fx.env->traces.size()) + " traces recorded, expected " + std::to_string(named));
        h.count("evaluations observed", times * qs.size());
        h.sample(texts);
    });
}
