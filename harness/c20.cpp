// C20: a model returns exactly the content that was stored.
#include "modelgen.hpp"
using namespace mg;

namespace {
std::string tail(const std::string& s) { return s.size() > 1500 ? "... " + s.substr(s.size() - 1500) : s; }

bool check(vh::Harness& h, Rng& r, World& w, size_t index)
{
    Checker c{h, r, *w.pool, "model " + std::to_string(index) + " after" + tail(w.log)};
    if (!c.model(w)) return false;
    // Nodes that no root leads to.
    for (auto& [o, m] : w.objects)
        if (!c.tree(w.ptr(m), *m) || (r.chance(20) && !c.view(*o, *m))) return false;
    for (auto& [a, m] : w.arrays)
        if (!c.tree(w.ptr(m), *m) || (r.chance(20) && !c.view(*a, *m))) return false;
    for (auto m : w.scalars)
        if (!c.tree(w.ptr(m), *m)) return false;
    return true;
}
} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C20").run([](vh::Harness& h, Rng& r, uint64_t i) {
        auto strings = std::make_shared<StringPool>();
        std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
        std::map<std::string, std::string> spelledOwn = spelled;
        std::deque<World> ws;
        auto models = r.range(1, 3);
        for (int k = 0; k < models; ++k) {
            bool own = k == 1;
            ws.emplace_back(r, own ? nullptr : strings, own ? &spelledOwn : &spelled);
            ws.back().duplicates = r.chance(50);
            ws.back().sharing = r.chance(70);
        }
        if (i % 151 == 9) {
            // More members, elements and scalars than fit into one page of a column.
            auto& w = ws[0];
            auto o = w.newObject();
            auto a = w.newArray();
            w.duplicates = false;
            auto n = 8000 + r.below(20000);
            for (uint64_t k = 0; k < n; ++k) {
                auto m = w.node(M::Int);
                m->i = (int64_t)k * 100003;
                auto p = w.pool->newValue(m->i);
                m->addr = p->addr().value_;
                w.arrays[0].first->append(p);
                a->arr.push_back(m);
                if (k < 20000) {
                    auto f = w.node(k % 2 ? M::Str : M::Float);
                    auto name = "wide" + std::to_string(k);
                    if (k % 2) { f->s = name; w.objects[0].first->addField(name, std::string_view(f->s)); }
                    else { f->f = (double)k / 3; w.objects[0].first->addField(name, f->f); }
                    o->obj.emplace_back(w.spell(name), f);
                }
            }
            if (r.chance(70)) {
                // Adopting many children: by an empty or a filled container, or by itself.
                auto a2 = r.chance(70) ? w.newArray() : a;
                if (a2 != a && r.chance(50)) { w.addElement(1); }
                (a2 == a ? w.array(0) : w.array(1))->extend(w.array(0));
                auto add = a->arr;
                a2->arr.insert(a2->arr.end(), add.begin(), add.end());
                if (r.chance(50)) {
                    auto o2 = w.newObject();
                    w.object(1)->extend(w.object(0));
                    o2->obj = o->obj;
                }
                h.count("wide extends");
            }
            w.pool->addRoot(w.ptr(a));
            w.roots.push_back(a);
            w.pool->addRoot(w.ptr(o));
            w.roots.push_back(o);
            w.log = " " + std::to_string(n) + " elements and members";
            h.input(w.log);
            h.count("wide models");
            check(h, r, w, 0);
            h.distinct(vh::hashStr(w.log));
            return;
        }
        // No node is no node, however it is used.
        auto none = [&](auto p) {
            auto& c = std::as_const(p);
            auto raises = [&](auto use) {
                h.count("uses of no node");
                try { use(); } catch (const std::exception&) { return; }
                h.violation("no-node", "using an empty node pointer is not an error");
            };
            if (p || c) h.violation("no-node", "an empty node pointer claims to have a node");
            raises([&] { (void)(*p).type(); });
            raises([&] { (void)p->type(); });
            raises([&] { (void)(*c).type(); });
            raises([&] { (void)c->type(); });
        };
        if (r.chance(5)) {
            none(simfil::ModelNode::Ptr{});
            none(simfil::ModelNode::Ptr{nullptr});
            none(simfil::model_ptr<simfil::Object>{nullptr});
            none(simfil::model_ptr<simfil::Array>{nullptr});
        }
        auto steps = r.chance(5) ? r.range(100, 300) : r.range(5, 70);
        for (int k = 0; k < steps; ++k) {
            auto& w = ws[r.below(ws.size())];
            if (r.below(100) == 0) w.clear();
            w.step();
            if (r.below(2000) == 0 && !w.arrays.empty()) {
                // A medium-sized array
                auto at = r.below(w.arrays.size());
                auto m = w.arrays[at].second;
                auto n = r.pick({100, 127, 128, 129, 255, 256, 257, 300, 511, 513, 700, 1025, 2049});
                while ((int)m->arr.size() < n) {
                    auto e = w.node(M::Int);
                    e->i = (int64_t)m->arr.size();
                    w.array(at)->append(e->i);
                    m->arr.push_back(e);
                }
                w.log += " #" + std::to_string(m->id) + " filled up to " + std::to_string(n);
                auto to = w.newArray();
                auto times = r.range(1, 3);
                for (int t = 0; t < times; ++t) {
                    w.array(w.arrays.size() - 1)->extend(w.array(at));
                    auto add = m->arr;
                    to->arr.insert(to->arr.end(), add.begin(), add.end());
                }
                w.log += " #" + std::to_string(to->id) + ".extend(#" + std::to_string(m->id) + ") " + std::to_string(times) + " times";
                h.count("medium extends");
            }
            h.input(tail(w.log));
            if (r.below(40) == 0 && !check(h, r, w, 0)) return;
        }
        std::string all;
        for (size_t k = 0; k < ws.size(); ++k) {
            h.input(tail(ws[k].log));
            if (!check(h, r, ws[k], k)) return;
            h.count("operations", ws[k].operations);
            all += ws[k].log + " | ";
        }
        h.distinct(all);
        h.sample(all);
    });
}
