// C21: saving and loading a model preserves it; damaged data is rejected.
#include "modelgen.hpp"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/value.h"
#include <sstream>
using namespace mg;

namespace {

std::string tail(const std::string& s) { return s.size() > 1500 ? "... " + s.substr(s.size() - 1500) : s; }

std::string bytes(ModelPool& p)
{
    std::ostringstream o;
    p.write(o);
    return o.str();
}

/// Results of a few queries on every root.
std::string queries(const std::shared_ptr<StringPool>& strings, const ModelPool& p)
{
    simfil::Environment env(strings);
    std::string t;
    static const std::vector<std::string> texts{"**", "*", "k1", "**.k3", "count(**)", "**.k7 > 3", "*[0]", "k2.k2", "typeof(**)", "_", "sum(range(1,#*)...)"};
    for (auto& q : texts) {
        try {
            auto e = simfil::compile(env, q, false);
            for (size_t i = 0; i < p.numRoots(); ++i)
                for (auto& v : simfil::eval(env, *e, *p.root(i))) {
                    if (t.size() > 100000) return t;
                    t += v.node ? v.node->toJson().dump(-1, ' ', true, nlohmann::json::error_handler_t::replace) : v.toString();
                    t += "\n";
                }
        } catch (const std::exception& x) { t += std::string("raised ") + x.what() + "\n"; }
    }
    return t;
}

bool check(vh::Harness& h, Rng& r, World& w, ModelPool& pool, const std::string& how)
{
    Checker c{h, r, pool, how + " after" + tail(w.log)};
    c.sameAddresses = false;
    if (!c.model(w)) return false;
    auto errors = pool.checkForErrors();
    if (!errors.empty()) { h.violation("validate", how + ": the loaded model has errors: " + errors[0] + " after" + tail(w.log)); return false; }
    return true;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C21").run([](vh::Harness& h, Rng& r, uint64_t i) {
        auto strings = std::make_shared<StringPool>();
        std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
        std::deque<World> ws;
        bool huge = i % 701 == 19; // More than 2^16 entries in some columns
        bool wide = huge || i % 211 == 5;
        auto models = wide ? 1 : r.range(1, 3);
        for (int k = 0; k < models; ++k) {
            ws.emplace_back(r, strings, &spelled);
            auto& w = ws.back();
            w.duplicates = r.chance(50);
            w.sharing = r.chance(60);
            auto steps = wide ? 5 : r.chance(50) ? (int64_t)r.below(15) : (int64_t)r.below(80);
            for (int s = 0; s < steps; ++s) w.step();
            if (r.chance(90) && w.roots.empty()) w.addRoot();
            if (huge) {
                std::string what;
                auto many = [&] { return 65530 + r.below(2500); };
                auto all = w.newArray();
                auto at = w.arrays.size() - 1;
                auto one = r.below(7);
                auto on = [&](uint64_t k) { return one == k || r.chance(8); };
                bool ints = on(0), floats = on(1), strs = on(2), arrs = on(3), objs = on(4), roots = on(5), small = on(6);
                auto add = [&](M* m, const ModelNode::Ptr& p) {
                    m->addr = p->addr().value_;
                    w.arrays[at].first->append(p);
                    all->arr.push_back(m);
                };
                if (ints) for (auto n = many(); n > 0; --n) { auto m = w.node(M::Int); m->i = (int64_t)n << 33; add(m, w.pool->newValue(m->i)); }
                if (floats) for (auto n = many(); n > 0; --n) { auto m = w.node(M::Float); m->f = (double)n / 3; add(m, w.pool->newValue(m->f)); }
                if (strs) for (auto n = many(); n > 0; --n) { auto m = w.node(M::Str); m->s = std::to_string(n % 977); add(m, w.pool->newValue(std::string_view(m->s))); }
                if (arrs) for (auto n = many(); n > 0; --n) { auto a = w.pool->newArray(n % 3); auto m = w.node(M::Arr); if (n % 5 == 0) { a->append((int64_t)n); auto e = w.node(M::Int); e->i = (int64_t)n; m->arr.push_back(e); } add(m, a); }
                if (objs) for (auto n = many(); n > 0; --n) { auto o = w.pool->newObject(n % 3); auto m = w.node(M::Obj); if (n % 5 == 0) { o->addField("k1", (uint16_t)n); auto e = w.node(M::Int); e->i = (uint16_t)n; m->obj.emplace_back(w.spell("k1"), e); } add(m, o); }
                if (small) for (auto n = many(); n > 0; --n) { auto m = w.node(M::Int); m->i = (int16_t)n; add(m, w.pool->newSmallValue((int16_t)n)); }
                w.pool->addRoot(w.ptr(all));
                w.roots.push_back(all);
                if (roots) for (auto n = many(); n > 0; --n) { auto m = w.node(M::Int); m->i = (int16_t)n; auto p = w.pool->newSmallValue((int16_t)n); m->addr = p->addr().value_; w.pool->addRoot(p); w.roots.push_back(m); }
                w.log += " over 2^16" + std::string(ints ? " ints" : "") + (floats ? " floats" : "") + (strs ? " strings" : "") + (arrs ? " arrays" : "") + (objs ? " objects" : "") + (small ? " elements" : "") + (roots ? " roots" : "");
                h.count("huge models");
            } else if (wide) {
                auto o = w.newObject();
                auto a = w.newArray();
                auto n = 17000 + r.below(3000);
                for (uint64_t e = 0; e < n; ++e) {
                    auto m = w.node(e % 3 ? M::Int : M::Str);
                    if (e % 3) { m->i = -(int64_t)e * 77777; w.arrays.back().first->append(m->i); }
                    else { m->s = "s" + std::to_string(e); w.arrays.back().first->append(std::string_view(m->s)); }
                    a->arr.push_back(m);
                    auto f = w.node(M::Float);
                    f->f = (double)e / 7;
                    auto name = "wide" + std::to_string(e);
                    w.objects.back().first->addField(name, f->f);
                    o->obj.emplace_back(w.spell(name), f);
                }
                w.pool->addRoot(w.ptr(a));
                w.roots.push_back(a);
                w.pool->addRoot(w.ptr(o));
                w.roots.push_back(o);
                h.count("wide models");
            }
        }
        auto& w = ws[0];
        h.input(tail(w.log));
        auto data = bytes(*w.pool);
        auto want = wide ? std::string() : queries(strings, *w.pool);
        if (!check(h, r, w, *w.pool, "saved model")) return;   // Saving does not change it.
        h.count("saved models");

        // Into a fresh pool, a used one, one that failed to load, and onto itself.
        auto fresh = std::make_shared<ModelPool>(strings);
        auto load = [&](ModelPool& p, const std::string& how) {
            h.input(how + ":" + tail(w.log));
            std::istringstream in(data);
            p.read(in);
            if (in.peek() != EOF) h.violation("rest", how + ": reading leaves bytes behind");
            h.count("loaded models");
            if (!check(h, r, w, p, how)) return false;
            if (!wide && queries(strings, p) != want) { h.violation("queries", how + ": other query results than the original, after" + tail(w.log)); return false; }
            return true;
        };
        if (!load(*fresh, "fresh pool")) return;
        for (auto& other : ws)
            if (&other != &w) {
                if (!load(*other.pool, "used pool")) return;
                h.count("used pools");
            }
        if (r.chance(30) && !load(*w.pool, "same pool")) return;
        if (r.chance(30)) {
            // A model that was loaded can be extended, saved and loaded like any other.
            World next(r, strings, &spelled);
            next.pool = fresh;
            next.roots = w.roots;
            next.log = w.log + " reload";
            next.sharing = false;
            for (auto s = r.below(30); s > 0; --s) next.step();
            if (!check(h, r, next, *fresh, "extended model")) return;
            std::istringstream in(bytes(*fresh));
            auto again = std::make_shared<ModelPool>(strings);
            again->read(in);
            if (!check(h, r, next, *again, "extended and reloaded model")) return;
            h.count("extended models");
        }

        // Strings and several models in one stream, read without the original string pool.
        if (r.chance(40)) {
            std::stringstream s;
            strings->write(s);
            // (The other pools hold this model by now.)
            for (size_t k = 0; k < ws.size(); ++k) ws[k].pool->write(s);
            auto names = std::make_shared<StringPool>();
            names->read(s);
            for (size_t k = 0; k < ws.size(); ++k) {
                auto p = std::make_shared<ModelPool>(names);
                p->read(s);
                if (!check(h, r, w, *p, "model from a stream of several")) return;
                h.count("streamed models");
            }
        }

        // Every (or many a) truncation.
        auto used = std::make_shared<ModelPool>(strings);
        std::vector<size_t> cuts;
        if (data.size() <= 300) for (size_t c = 0; c < data.size(); ++c) cuts.push_back(c);
        else for (int k = 0; k < (wide ? 6 : 25); ++k) cuts.push_back(k < 5 ? data.size() - 1 - k : r.below(data.size()));
        for (auto c : cuts) {
            h.input("truncated to " + std::to_string(c) + " of " + std::to_string(data.size()) + ":" + tail(w.log));
            std::istringstream in(data.substr(0, c));
            auto p = r.chance(50) ? used : std::make_shared<ModelPool>(strings);
            bool thrown = false;
            try { p->read(in); } catch (const std::exception&) { thrown = true; }
            h.count("truncations");
            if (!thrown) { h.violation("truncated", "reading " + std::to_string(c) + " of " + std::to_string(data.size()) + " bytes does not fail, after" + tail(w.log)); return; }
            if (!wide && r.chance(20)) {
                // What was read so far can be examined and discarded.
                (void)p->checkForErrors();
                p->clear();
                if (p->numRoots()) h.violation("clear", "clear() leaves roots after a failed read");
            }
        }
        if (!cuts.empty() && !load(*used, "pool that failed to load")) return;
        h.distinct(vh::hashStr(data));
        h.sample(tail(w.log));
    });
}
