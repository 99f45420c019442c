// C23: model validation accepts exactly the consistent models.
#include "modelgen.hpp"
#include "simfil/model/json.h"
#include <sstream>
using namespace mg;

namespace {

std::string tail(const std::string& s) { return s.size() > 1500 ? "... " + s.substr(s.size() - 1500) : s; }

/// What validation says: number of errors, and whether validate() agrees.
size_t errors(vh::Harness& h, const ModelPool& p, const std::string& where, std::string* first = nullptr)
{
    auto e = p.checkForErrors();
    bool thrown = false;
    try { p.validate(); } catch (const std::exception&) { thrown = true; }
    if (thrown != !e.empty()) h.violation("validate", "validate() and checkForErrors() disagree (" + std::to_string(e.size()) + " errors); " + where);
    for (auto& t : e) if (t.empty()) h.violation("message", "an error without text; " + where);
    if (first && !e.empty()) *first = e[0];
    return e.size();
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C23").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto strings = std::make_shared<StringPool>();
        std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
        // Names of the application's own, with fixed ids.
        std::map<StringId, std::string> fixed;
        if (r.chance(40))
            for (auto n = r.range(1, 10); n > 0; --n) {
                auto id = (StringId)r.range(StringPool::NextStaticId, StringPool::FirstDynamicId - 1);
                auto name = "k" + std::to_string(r.range(1, 40));
                if (spelled.contains(name) || !fixed.emplace(id, name).second) continue;
                strings->addStaticKey(id, name);
                spelled[name] = name;
            }
        World w(r, strings, &spelled);
        w.duplicates = r.chance(50);
        w.sharing = r.chance(60);
        for (auto s = r.below(r.chance(50) ? 10 : 60); s > 0; --s) w.step();
        size_t expanded = 0;
        for (auto& [o, m] : w.objects) expanded += w.measure(m);
        for (auto& [a, m] : w.arrays) expanded += w.measure(m);
        if (expanded > 30000) return;
        auto where = "model:" + tail(w.log);
        h.input(where);
        std::string first;
        if (errors(h, *w.pool, where, &first)) { h.violation("sound", "a consistent model is rejected: " + first + "; " + where); return; }
        h.count("consistent models");

        // Names that do not exist: load the model with a string pool that has some of them only.
        if (r.chance(40)) {
            std::ostringstream o;
            w.pool->write(o);
            auto other = std::make_shared<StringPool>();
            auto drop = r.chance(40) ? r.range(10, 100) : 0;
            for (auto& [id, name] : fixed) if (!r.chance((int)drop)) other->addStaticKey(id, name); else h.count("names with fixed ids left out");
            auto highest = strings->highest();
            auto keep = r.chance(30) ? highest : (StringId)(StringPool::FirstDynamicId - 1 + r.below(highest - StringPool::FirstDynamicId + 2));
            for (StringId id = StringPool::FirstDynamicId; id <= keep; ++id)
                if (auto t = strings->resolve(id)) other->emplace(*t);
            std::string missing;
            for (auto& [obj, m] : w.objects)
                for (auto& [k, c] : m->obj)
                    if (!other->resolve(strings->get(k))) missing = k;
            auto p = std::make_shared<ModelPool>(other);
            std::istringstream in(o.str());
            p->read(in);
            auto n = errors(h, *p, where, &first);
            if (!missing.empty() && !n) h.violation("names", "a model that uses the unknown name " + vh::quote(missing) + " is accepted; " + where);
            if (missing.empty() && n) h.violation("names", "a model whose names are all known is rejected: " + first + "; " + where);
            h.count(missing.empty() ? "loaded consistent models" : "dangling names");
        }

        // One reference to something that does not exist.
        using P = ModelPool;
        for (int round = 0; round < 2; ++round) {
            auto place = r.below(3);
            // A container with valid content first; nothing is allocated behind the highest index later on.
            size_t into = 0;
            std::string how;
            if (place == 1) {
                if (w.objects.empty()) w.newObject();
                into = r.below(w.objects.size());
                for (auto n = r.below(3); n > 0; --n) w.addMember(into);
            } else if (place == 2) {
                if (w.arrays.empty()) w.newArray();
                into = r.below(w.arrays.size());
                for (auto n = r.below(3); n > 0; --n) w.addElement(into);
            } else
                for (auto n = r.below(2); n > 0; --n) w.addRoot();
            uint8_t col = r.pick({(uint8_t)P::Objects, (uint8_t)P::Arrays, (uint8_t)P::Int64, (uint8_t)P::Double, (uint8_t)P::String, (uint8_t)0});
            uint32_t size = 0; // the highest index there is
            switch (col) {
            case P::Objects: size = w.newObject()->addr >> 8; break;
            case P::Arrays: size = w.newArray()->addr >> 8; break;
            case P::Int64: size = w.pool->newValue(INT64_MAX)->addr().index(); break;
            case P::Double: size = w.pool->newValue(0.5)->addr().index(); break;
            case P::String: size = w.pool->newValue(std::string_view("x"))->addr().index(); break;
            default: col = (uint8_t)r.range(P::String + 1, 255); break;
            }
            if (errors(h, *w.pool, where, &first)) { h.violation("sound", "a consistent model is rejected: " + first + "; " + where); return; }
            bool column = col > P::String;
            uint32_t index = column ? (uint32_t)r.below(5) : size + 1 + (r.chance(50) ? 0 : (uint32_t)r.below(1000));
            if (r.chance(10)) index = r.pick({0xffffffu, 0x800000u, 0x7fffffu, 0x10000u + size});
            auto bad = ModelNode::Ptr::make(w.pool, ModelNodeAddress{col, index});
            if (place == 1) {
                w.objects[into].first->addField(r.chance(80) ? "k1" : "fresh name", bad);
                for (auto n = r.below(3); n > 0; --n) w.objects[into].first->addField("k2", (int64_t)n);
                how = "member of #" + std::to_string(w.objects[into].second->id);
            } else if (place == 2) {
                w.arrays[into].first->append(bad);
                for (auto n = r.below(3); n > 0; --n) w.arrays[into].first->append((int64_t)n);
                how = "element of #" + std::to_string(w.arrays[into].second->id);
            } else {
                w.pool->addRoot(bad);
                if (r.chance(50)) w.pool->addRoot(w.pool->newSmallValue(true));
                how = "root";
            }
            how += " refers to column " + std::to_string(col) + " index " + std::to_string(index);
            where = how + "; model:" + tail(w.log);
            h.input(where);
            auto n = errors(h, *w.pool, where);
            if (!n) { h.violation("complete", "validation accepts that a " + where); return; }
            h.count(std::string("dangling ") + (place == 0 ? "root" : place == 1 ? "member" : "element"));
            h.count("dangling " + std::string(column ? "column" : col == P::Objects ? "object" : col == P::Arrays ? "array" : col == P::String ? "string" : "number"));
            h.distinct(where);
            h.sample(where);
            // The same after saving and loading.
            std::ostringstream o;
            w.pool->write(o);
            auto copy = std::make_shared<ModelPool>(strings);
            std::istringstream in(o.str());
            copy->read(in);
            if (!errors(h, *copy, where)) h.violation("loaded", "validation accepts after loading that a " + where);
            // Importing a document into a broken model reports it, too.
            bool thrown = false;
            try { simfil::json::parse("1", copy); } catch (const std::exception&) { thrown = true; }
            if (!thrown) h.violation("parse", "importing JSON into a broken model does not report that a " + where);
            // An emptied model is consistent again.
            w.clear();
            where = "cleared model";
            if (errors(h, *w.pool, where, &first)) { h.violation("sound", "a cleared model is rejected: " + first); return; }
            for (auto s = r.below(20); s > 0; --s) w.step();
        }
    });
}
