// C24: moving a model to another string pool preserves all names.
#include "modelgen.hpp"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/value.h"
#include <sstream>
using namespace mg;

namespace {

std::string tail(const std::string& s) { return s.size() > 1500 ? "... " + s.substr(s.size() - 1500) : s; }

/// JSON text up to the letter case of names and the order it implies.
nlohmann::json folded(const nlohmann::json& j)
{
    if (j.is_array()) {
        auto a = nlohmann::json::array();
        for (auto& x : j) a.push_back(folded(x));
        return a;
    }
    if (!j.is_object()) return j;
    auto o = nlohmann::json::object();
    for (auto& [k, v] : j.items()) o[lower(k)] = folded(v);
    return o;
}

std::string queries(Rng r, const std::shared_ptr<StringPool>& strings, const ModelPool& p)
{
    simfil::Environment env(strings);
    std::string t;
    for (int k = 0; k < 6; ++k) {
        auto a = "k" + std::to_string(r.below(40)), b = "K" + std::to_string(r.below(40));
        auto q = r.pick({a, "**." + a, a + "." + b, "count(**." + a + ")", "*." + b, "**{" + a + "}." + b, std::string("count(**)"), "any(" + b + ")", "[\"$val\"]" + std::string()});
        try {
            auto e = simfil::compile(env, q, false);
            for (size_t i = 0; i < p.numRoots(); ++i)
                for (auto& v : simfil::eval(env, *e, *p.root(i))) {
                    if (t.size() > 100000) return t;
                    t += q + ": " + (v.node ? folded(v.node->toJson()).dump(-1, ' ', true, nlohmann::json::error_handler_t::replace) : v.toString()) + "\n";
                }
        } catch (const std::exception& x) { t += q + ": raised " + x.what() + "\n"; }
    }
    return t;
}

std::string content(const StringPool& p)
{
    std::ostringstream o;
    p.write(o);
    return o.str();
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C24").run([](vh::Harness& h, Rng& r, uint64_t i) {
        auto strings = std::make_shared<StringPool>();
        std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
        std::deque<World> ws;
        auto models = r.range(1, 2);
        for (int k = 0; k < models; ++k) {
            ws.emplace_back(r, strings, &spelled);
            ws.back().duplicates = r.chance(40);
            ws.back().sharing = r.chance(60);
            for (auto s = r.below(r.chance(50) ? 12 : 60); s > 0; --s) ws.back().step();
            ws.back().addRoot();
        }
        auto& w = ws[0];
        auto& bystander = ws.back();
        auto moves = r.range(1, 4);
        bool crowded = false;
        auto current = strings;
        std::vector<std::shared_ptr<StringPool>> pools{strings};
        for (int k = 0; k < moves; ++k) {
            std::shared_ptr<StringPool> next;
            std::string how;
            auto kind = crowded ? r.below(3) : r.below(8);
            if (kind == 0) { next = std::make_shared<StringPool>(); how = "an empty pool"; }
            else if (kind == 1) { next = std::make_shared<StringPool>(*current); how = "an equal pool"; }
            else if (kind == 2) { next = r.pick(pools); how = "an earlier pool"; }
            else if (kind == 3) { next = std::make_shared<StringPool>(*current); for (int n = 0; n < 3; ++n) next->emplace("extra" + std::to_string(n)); how = "a larger pool"; }
            else {
                // Names of the model in another order and spelling, among others.
                next = std::make_shared<StringPool>();
                std::vector<std::string> names;
                for (StringId id = StringPool::FirstDynamicId; id <= current->highest(); ++id)
                    if (auto t = current->resolve(id)) names.push_back(std::string(*t));
                for (size_t n = names.size(); n > 1; --n) std::swap(names[n - 1], names[r.below(n)]);
                for (auto& n : names) {
                    if (r.chance(20)) next->emplace("other" + std::to_string(r.below(1000)));
                    if (kind < 7 ? r.chance(70) : true) next->emplace(r.chance(30) ? recase(r, n) : n);
                }
                if (r.chance(15)) next->addStaticKey(StringPool::NextStaticId, "k1");
                how = "a permuted pool";
            }
            bool full = i % 61 == 3 && k == 0;
            crowded = crowded || full; // then queries cannot add their names
            unsigned room = 0;
            if (full) {
                // Possibly too small for all names.
                next = std::make_shared<StringPool>();
                room = (unsigned)r.below(30);
                for (unsigned n = 65535u - StringPool::FirstDynamicId; n > room; --n) next->emplace("full" + std::to_string(n));
                how = "a pool with room for " + std::to_string(room) + " names";
            }
            auto where = "move to " + how + "; model:" + tail(w.log);
            h.input(where);
            auto seed = Rng(r.next());
            auto before = crowded ? "" : queries(seed, current, *w.pool);
            auto oldContent = content(*current);
            auto oldNext = std::make_shared<StringPool>(*next);
            bool failed = false;
            try {
                w.pool->setStrings(next);
            } catch (const std::exception&) { failed = true; }
            if (failed && !full) { h.violation("fails", "moving the model fails; " + where); return; }
            if (failed) {
                // Then nothing may have happened to the model.
                if (w.pool->strings() != current) { h.violation("failed-move", "after a failed move the model uses the other pool; " + where); return; }
                h.count("failed moves");
                next = current;
            } else if (w.pool->strings() != next) { h.violation("pool", "the model does not use the new pool; " + where); return; }
            if (next != current && content(*current) != oldContent) { h.violation("old-pool", "moving the model away changes the old pool; " + where); return; }
            // What was in the new pool before still is.
            if (!failed && !full)
            for (StringId id = 0; id <= oldNext->highest(); ++id)
                if (auto t = oldNext->resolve(id); t && next->resolve(id) != t) { h.violation("new-pool", "moving the model changes names that were in the new pool; " + where); return; }
            Checker c{h, r, *w.pool, where};
            c.exactNames = false;
            if (!c.model(w)) return;
            for (auto& [o, m] : w.objects)
                if (!c.tree(w.ptr(m), *m)) return;
            if (!crowded && queries(seed, next, *w.pool) != before) { h.violation("queries", "query results change; " + where); return; }
            auto errors = w.pool->checkForErrors();
            if (!errors.empty()) { h.violation("validate", "the moved model has errors: " + errors[0] + "; " + where); return; }
            if (&bystander != &w) {
                Checker b{h, r, *bystander.pool, "bystander, " + where};
                if (bystander.pool->strings() != strings) h.violation("bystander", "another model changes its pool");
                if (!b.model(bystander)) return;
            }
            h.count("moves");
            pools.push_back(next);
            current = next;
            // Use the model further.
            if (!crowded && r.chance(50)) {
                for (StringId id = 0; id <= next->highest(); ++id)
                    if (auto t = next->resolve(id)) spelled.emplace(lower(std::string(*t)), *t);
                for (auto s = r.below(10); s > 0; --s) w.step();
                h.count("extended after a move");
            }
            h.distinct(vh::hashStr(where));
        }
        bool thrown = false;
        try { w.pool->setStrings(nullptr); } catch (const std::exception&) { thrown = true; }
        if (!thrown || w.pool->strings() != current) h.violation("null", "moving a model to no pool is not rejected");
        h.sample(w.log);
    });
}
