// C27: nodes computed on the fly behave like stored nodes.
#include "modelgen.hpp"
#include "qgen.hpp"
#include "simfil/overlay.h"
using namespace gen;
using simfil::ModelNode;
using simfil::ModelNodeAddress;
using simfil::StringId;

namespace {

struct ProcPool;

struct ProcObj : simfil::ProceduralObject<3, ProcObj, ProcPool>
{
    ProcObj() = default;
    ProcObj(simfil::ArrayIndex members, const simfil::ModelConstPtr& pool, ModelNodeAddress a);
    ProcObj(const simfil::ModelConstPtr& pool, ModelNodeAddress a);
    void fill();
    using Compute = std::function<ModelNode::Ptr(ProcObj const&)>;
    simfil::ModelConstPtr owner() const { return model_; }
};

/// Access to where an object keeps its stored members.
struct Members : simfil::Object
{
    static simfil::ArrayIndex of(const simfil::Object& o) { return o.*(&Members::members_); }
};

struct ProcPool : simfil::ModelPool
{
    using ModelPool::ModelPool;
    struct Def
    {
        simfil::ArrayIndex members = simfil::InvalidArrayIndex;
        std::vector<std::pair<StringId, ProcObj::Compute>> fields;
    };
    std::deque<Def> defs;
    mutable uint64_t resolved = 0, computed = 0;
    static constexpr uint8_t Column = FirstCustomColumnId, Bare = FirstCustomColumnId + 1;

    void resolve(ModelNode const& n, ResolveFn const& cb) const override
    {
        auto c = n.addr().column();
        if (c != Column && c != Bare) return ModelPool::resolve(n, cb);
        ++resolved;
        cb(object(n.addr()));
    }
    ProcObj object(ModelNodeAddress a) const
    {
        auto& d = defs.at(a.index());
        return a.column() == Bare ? ProcObj(shared_from_this(), a) : ProcObj(d.members, shared_from_this(), a);
    }
};

void ProcObj::fill()
{
    for (auto& [id, fn] : model().defs.at(addr().index()).fields)
        fields_.emplace_back(id, fn);
}
ProcObj::ProcObj(simfil::ArrayIndex members, const simfil::ModelConstPtr& pool, ModelNodeAddress a) : ProceduralObject(members, pool, a) { fill(); }
ProcObj::ProcObj(const simfil::ModelConstPtr& pool, ModelNodeAddress a) : ProceduralObject(pool, a) { fill(); }

simfil::ScalarValueType scalarOf(const J& j)
{
    switch (j.k) {
    case J::Bool: return j.b;
    case J::Int: return j.i;
    case J::Float: return j.f;
    case J::Str: return j.s;
    default: return std::monostate{};
    }
}
bool isScalar(const J& j) { return j.k != J::Obj && j.k != J::Arr; }

/// Store a document so that some of its objects compute some of their members.
struct Builder
{
    vh::Harness& h;
    Rng& r;
    std::shared_ptr<ProcPool> pool;
    int share = 60;      // percent of objects that compute
    size_t overlays = 0; // overlaid computed values
    std::vector<std::shared_ptr<simfil::OverlayNode>> keep;

    /// A member that is computed.
    ProcObj::Compute compute(J& j)
    {
        auto self = pool.get();
        if (isScalar(j)) switch (r.below(4)) {
        case 0:
            if (j.k == J::Int && j.i >= -32768 && j.i <= 32767)
                return [self, v = (int16_t)j.i](ProcObj const& o) { ++self->computed; return o.model().newSmallValue(v); };
            if (j.k == J::Int && j.i >= 0 && j.i <= 65535)
                return [self, v = (uint16_t)j.i](ProcObj const& o) { ++self->computed; return o.model().newSmallValue(v); };
            if (j.k == J::Bool)
                return [self, v = j.b](ProcObj const& o) { ++self->computed; return o.model().newSmallValue(v); };
            [[fallthrough]];
        case 1: case 2: {
            auto s = scalarOf(j);
            return [self, s](ProcObj const& o) { ++self->computed; return ModelNode::Ptr(simfil::model_ptr<simfil::ValueNode>::make(s, o.owner())); };
        }
        default: break;
        }
        // A node stored elsewhere; found by address.
        auto a = put(j)->addr();
        j.addr = a.value_;
        if (r.chance(50)) return [self, a](ProcObj const& o) { ++self->computed; return ModelNode::Ptr::make(o.owner(), a); };
        if (a.column() == ProcPool::Column || a.column() == ProcPool::Bare)
            return [self, a](ProcObj const&) { ++self->computed; return ModelNode::Ptr(simfil::model_ptr<ProcObj>(self->object(a))); };
        return [self, a](ProcObj const&) { ++self->computed; return ModelNode::Ptr::make(self->shared_from_this(), a); };
    }

    ModelNode::Ptr put(J& j)
    {
        auto done = [&](ModelNode::Ptr p) { j.addr = p->addr().value_; return p; };
        if (j.k == J::Arr) {
            auto a = pool->newArray(r.below(4));
            for (auto& v : j.arr) a->append(put(*v));
            return done(ModelNode::Ptr(a));
        }
        if (j.k != J::Obj) return store(j, *pool, &r);
        auto o = pool->newObject(r.below(4));
        size_t n = 0;
        ProcPool::Def def;
        bool bare = false;
        bool procedural = r.chance(share);
        if (procedural) {
            bare = r.chance(25);
            n = bare ? j.obj.size() : r.below(std::min<size_t>(j.obj.size(), 7) + 1);
            for (size_t i = 0; i < n; ++i) {
                def.fields.emplace_back(pool->strings()->emplace(j.obj[i].first), compute(*j.obj[i].second));
                h.count("computed members");
            }
            if (!bare && n && r.chance(15)) {
                // A stored member that an earlier, computed one of the same name hides.
                j.obj.emplace_back(j.obj[r.below(n)].first, jint(77));
                h.count("hidden members");
            }
        }
        for (size_t i = n; i < j.obj.size(); ++i) {
            auto& [k, v] = j.obj[i];
            o->addField(k, put(*v));
            h.count("stored members");
        }
        if (!procedural) return done(ModelNode::Ptr(o));
        h.count(bare ? "bare objects" : "procedural objects");
        // More members may be stored later on: the place is fixed when the object is made.
        def.members = bare ? simfil::InvalidArrayIndex : Members::of(*o);
        pool->defs.push_back(std::move(def));
        return done(ModelNode::Ptr::make(pool, ModelNodeAddress{bare ? ProcPool::Bare : ProcPool::Column, (uint32_t)pool->defs.size() - 1}));
    }
};

/// The document as the model checker wants it.
mg::M* shadow(const J& j, std::deque<mg::M>& all)
{
    all.emplace_back();
    auto m = &all.back();
    m->k = (mg::M::K)j.k;
    m->b = j.b; m->i = j.i; m->f = j.f; m->s = j.s; m->addr = j.addr;
    for (auto& [k, v] : j.obj) m->obj.emplace_back(k, shadow(*v, all));
    for (auto& v : j.arr) m->arr.push_back(shadow(*v, all));
    return m;
}

/// Every accessor of a node and of everything below it.
bool tree(mg::Checker& c, const ProcPool& pool, const ModelNode::Ptr& p, mg::M& m)
{
    if (!p) return c.bad("missing", m, "the node is missing");
    if (m.addr && p->addr().value_ != m.addr) return c.bad("address", m, "another node");
    if (!c.view(*p, m)) return false;
    bool right = true;
    if (p->addr().column() != simfil::Model::Scalar)
        pool.resolve(*p, simfil::Model::Lambda([&](const ModelNode& n) { right = c.view(n, m); }));
    if (!right) return false;
    if (p->addr().column() == ProcPool::Column || p->addr().column() == ProcPool::Bare) {
        auto o = pool.object(p->addr());
        if (!c.view(o, m)) return false;
        c.h.count("computed objects compared");
    }
    for (size_t i = 0; i < m.size(); ++i)
        if (!tree(c, pool, p->at((int64_t)i), *m.at(i))) return false;
    return true;
}

JP withoutScalarAddresses(const JP& j)
{
    if (isScalar(*j)) j->addr = 0;
    for (auto& [k, v] : j->obj) withoutScalarAddresses(v);
    for (auto& v : j->arr) withoutScalarAddresses(v);
    return j;
}

/// An overlay and what must be found in it.
struct Overlaid
{
    std::unique_ptr<simfil::OverlayNode> node;
    ModelNode::Ptr base;
    simfil::ScalarValueType baseValue;
    JP doc;
    bool object = true; // as opposed to an array or a scalar
};

const J* injectedOf(const J& j, const std::string& n)
{
    for (auto& [k, v] : j.injected) if (J::ieq(k, n)) return v.get();
    return nullptr;
}

bool sameScalar(const simfil::ScalarValueType& a, const simfil::ScalarValueType& b)
{
    auto str = [](const simfil::ScalarValueType& v) -> std::optional<std::string> {
        if (auto s = std::get_if<std::string>(&v)) return *s;
        if (auto s = std::get_if<std::string_view>(&v)) return std::string(*s);
        return {};
    };
    if (str(a) || str(b)) return str(a) == str(b);
    return a == b;
}
bool sameNode(const ModelNode::Ptr& p, const J& j)
{
    auto type = [&] {
        using simfil::ValueType;
        switch (j.k) {
        case J::Null: return ValueType::Null;
        case J::Bool: return ValueType::Bool;
        case J::Int: return ValueType::Int;
        case J::Float: return ValueType::Float;
        case J::Str: return ValueType::String;
        case J::Obj: return ValueType::Object;
        default: return ValueType::Array;
        }
    };
    if (!p || p->type() != type() || p->size() != j.size()) return false;
    if (isScalar(j)) return sameScalar(p->value(), scalarOf(j));
    return p->addr().value_ == j.addr;
}

/// Compare every accessor of an overlay with what it overlays and what was injected.
bool checkOverlay(vh::Harness& h, Rng& r, simfil::StringPool& strings, const ModelNode& n, Overlaid& o, const std::string& where)
{
    auto bad = [&](const std::string& key, const std::string& what) { h.violation(key, what + "; " + where); return false; };
    h.count("overlay views");
    auto& j = *o.doc;
    if (n.type() != simfil::ValueType::Object) return bad("overlay-type", "an overlay is no object");
    if (!sameScalar(n.value(), o.baseValue)) return bad("overlay-value", "value() of the overlay differs from that of the base");
    uint32_t size = o.base ? o.base->size() : 0;
    if (n.size() != size) return bad("overlay-size", "size() is " + std::to_string(n.size()) + " instead of " + std::to_string(size));
    for (int64_t i = -2; i < (int64_t)size + 3; ++i) {
        auto a = n.at(i), b = o.base ? o.base->at(i) : ModelNode::Ptr{};
        if ((bool)a != (bool)b || (a && (a->addr().value_ != b->addr().value_ || a->type() != b->type() || a->size() != b->size() || !sameScalar(a->value(), b->value()))))
            return bad("overlay-at", "at(" + std::to_string(i) + ") differs from that of the base");
        if (n.keyAt(i) != (o.base ? o.base->keyAt(i) : simfil::StringPool::Empty)) return bad("overlay-key", "keyAt(" + std::to_string(i) + ") differs from that of the base");
        h.count("overlay children");
    }
    auto list = [](const ModelNode& x, uint32_t limit, bool& done) {
        std::vector<std::string> v;
        done = x.iterate(ModelNode::IterLambda([&](const ModelNode& c) {
            v.push_back(std::to_string((int)c.type()) + "/" + std::to_string(c.addr().value_) + "/" + std::to_string(c.size()));
            return v.size() < limit;
        }));
        return v;
    };
    for (auto limit : {UINT32_MAX, (uint32_t)r.below(size + 1) + 1}) {
        bool done = true, baseDone = true;
        auto seen = list(n, limit, done);
        auto want = o.base ? list(*o.base, limit, baseDone) : std::vector<std::string>{};
        if (seen != want || done != baseDone) return bad("overlay-iterate", "iterate() visits " + std::to_string(seen.size()) + " nodes, others than those of the base");
    }
    std::set<std::string> names;
    for (auto* v : {&Ints, &Floats, &Strs, &Bools, &Objs, &ObjArrs, &Missing, &Nulls}) for (auto& s : *v) names.insert(s);
    for (auto& [k, v] : j.injected) names.insert(k);
    for (auto& [k, v] : j.obj) names.insert(k);
    for (auto& name : names) {
        auto id = strings.get(mg::recase(r, name));
        if (!id) continue;
        auto p = n.get(id);
        if (auto want = injectedOf(j, name)) {
            if (!sameNode(p, *want)) return bad("overlay-injected", "the injected field " + vh::quote(name) + " is not found");
            h.count("injected lookups");
        } else {
            auto b = o.base ? o.base->get(id) : ModelNode::Ptr{};
            if ((bool)p != (bool)b || (p && (p->addr().value_ != b->addr().value_ || p->type() != b->type() || !sameScalar(p->value(), b->value()))))
                return bad("overlay-other", "the field " + vh::quote(name) + ", which was not injected, differs from that of the base");
            h.count("other lookups");
        }
    }
    if (!injectedOf(j, "") && n.get(simfil::StringPool::Empty)) return bad("overlay-other", "there is a field without name");
    return true;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C27").run([](vh::Harness& h, Rng& r, uint64_t) {
        DocGen dg{r};
        dg.maxNodes = 70;
        auto doc = r.chance(90) ? dg.obj(0) : dg.doc();
        Fixture fx(jnull());
        auto pool = std::make_shared<ProcPool>(fx.strings);
        fx.pool = pool;
        fx.doc = doc;
        Builder b{h, r, pool};
        b.share = (int)r.pick({100, 60, 60, 20});
        pool->addRoot(b.put(*doc));
        std::string error;
        auto text = jsonText(*doc);

        // Structure.
        {
            auto copy = withoutScalarAddresses(doc);
            std::deque<mg::M> all;
            auto m = shadow(*copy, all);
            mg::Checker c{h, r, *pool, "document " + text};
            c.exactNames = false;
            h.input("the nodes of " + text);
            if (!tree(c, *pool, pool->root(0), *m)) return;
            if (!c.json(pool->root(0)->toJson(), *m)) { c.bad("json", *m, "toJson() differs"); return; }
            h.count("documents compared");
        }

        auto queries = [&](int n, const std::string& note) {
            for (int k = 0; k < n; ++k) {
                QueryGen q{r};
                if (r.chance(30)) q.wildness = 10;
                auto e = q.query(2 + (int)r.below(3));
                Printer pr;
                pr.rng = &r;
                pr.fieldCaseChance = 20;
                auto t = pr.p(*e);
                if (t.size() > 2000) continue;
                if (compareQuery(h, fx, *e, t, q.wildness > 0)) h.count(note);
            }
        };
        queries(8, "queries on computed nodes");

        // Overlays over various nodes, also over each other.
        std::deque<Overlaid> overlays;
        std::vector<std::pair<ModelNode::Ptr, J*>> nodes;
        std::function<void(const ModelNode::Ptr&, J*)> collect = [&](const ModelNode::Ptr& p, J* j) {
            nodes.emplace_back(p, j);
            for (size_t i = 0; i < j->size() && nodes.size() < 200; ++i)
                collect(p->at((int64_t)i), j->k == J::Obj ? j->obj[i].second.get() : j->arr[i].get());
        };
        collect(pool->root(0), doc.get());
        std::string log;
        for (int k = 0; k < 3; ++k) {
            overlays.emplace_back();
            auto& o = overlays.back();
            auto what = r.below(10);
            o.doc = mk(J::Obj);
            if (what < 1) { // a value without node
                DocGen d{r};
                auto s = d.any(99);
                o.baseValue = scalarOf(*s);
                o.node = std::make_unique<simfil::OverlayNode>(simfil::Value(scalarOf(*s)));
                log += " #" + std::to_string(k) + "=overlay(value " + jsonText(*s) + ")";
            } else if (what < 3 && k > 0) { // another overlay
                auto i = r.below((uint64_t)k);
                auto& base = overlays[i];
                *o.doc = *base.doc;
                o.object = base.object;
                o.base = ModelNode::Ptr(simfil::model_ptr<simfil::OverlayNode>(*base.node));
                o.baseValue = base.baseValue;
                o.node = std::make_unique<simfil::OverlayNode>(simfil::Value::field(*base.node));
                log += " #" + std::to_string(k) + "=overlay(#" + std::to_string(i) + ")";
            } else {
                auto [p, j] = what < 6 ? nodes[0] : r.pick(nodes);
                o.base = p;
                o.baseValue = p->value();
                o.object = j->k == J::Obj;
                if (o.object) *o.doc = *j;
                o.node = std::make_unique<simfil::OverlayNode>(simfil::Value::field(*p));
                log += " #" + std::to_string(k) + "=overlay(" + jsonText(*j).substr(0, 60) + ")";
            }
            o.doc->addr = o.node->addr().value_;
            // The same overlay, referred to in other ways.
            ModelNode::Ptr same{simfil::model_ptr<simfil::OverlayNode>(*o.node)};
            auto asValue = simfil::Value::field(*o.node);
            for (int step = 0; step < 4; ++step) {
                // Types by name, as in the documents, so that queries know what to expect.
                std::vector<std::string> any;
                for (auto* v : {&Ints, &Floats, &Strs, &Bools, &Nulls, &Objs}) for (auto& s : *v) any.push_back(s);
                auto name = r.pick(any);
                DocGen d{r};
                JP v;
                auto in = [&](const std::vector<std::string>& x) { return std::find(x.begin(), x.end(), name) != x.end(); };
                simfil::Value value = simfil::Value::null();
                if (in(Objs)) {
                    std::vector<size_t> fit;
                    for (size_t i = 0; i < nodes.size(); ++i) if (nodes[i].second->k == J::Obj) fit.push_back(i);
                    if (fit.empty()) continue;
                    auto [p, j] = nodes[r.pick(fit)];
                    value = simfil::Value::field(*p);
                    v = std::make_shared<J>(*j);
                } else {
                    v = d.forName(name, 99);
                    if (v->k == J::Null) value = simfil::Value::null();
                    else if (v->k == J::Bool) value = simfil::Value::make(v->b);
                    else if (v->k == J::Int) value = simfil::Value::make(v->i);
                    else if (v->k == J::Float) value = simfil::Value::make(v->f);
                    else value = simfil::Value::make(v->s);
                    if (r.chance(30)) { // the value of a stored node
                        auto p = store(*v, *pool, &r);
                        v->addr = p->addr().value_;
                        value = simfil::Value::field(*p);
                    }
                }
                auto id = fx.strings->emplace(mg::recase(r, name));
                if (r.chance(70)) o.node->set(id, value);
                else { // through a copy that shares the same fields
                    simfil::OverlayNode other(*same);
                    other.set(id, value);
                }
                auto& inj = o.doc->injected;
                inj.erase(std::remove_if(inj.begin(), inj.end(), [&](auto& x) { return J::ieq(x.first, name); }), inj.end());
                inj.insert(inj.begin(), {name, v});
                h.count("set");
                log += " #" + std::to_string(k) + "." + name + "=" + jsonText(*v).substr(0, 60);
                h.input("overlays" + log + " over " + text);
                auto where = "history" + log;
                if (r.chance(60))
                    if (!checkOverlay(h, r, *fx.strings, *o.node, o, where) || !checkOverlay(h, r, *fx.strings, *same, o, where) || !checkOverlay(h, r, *fx.strings, *asValue.node, o, where)) return;
                if (o.object && r.chance(50)) {
                    fx.doc = o.doc;
                    fx.replaced = same;
                    queries(2, "queries on overlays");
                    // Every injected field by its name alone.
                    auto text2 = name == "with space" || name == "a.b" || name == "and" ? std::string() : mg::lower(name);
                    if (!text2.empty()) {
                        auto got = execute(*fx.env, text2, *o.node);
                        auto e = ref::field(name);
                        if (!compareQuery(h, fx, *e, text2, false)) h.count("skipped names");
                        if (got.raised || got.values.size() != 1) h.violation("overlay-query", "the injected field gives " + got.text());
                        h.count("injected queries");
                    }
                    fx.replaced = nullptr;
                    fx.doc = doc;
                }
            }
            if (!checkOverlay(h, r, *fx.strings, *o.node, o, "history" + log)) return;
        }
        // Overlays do not change each other or what they overlay.
        for (auto& o : overlays)
            if (!checkOverlay(h, r, *fx.strings, *o.node, o, "at the end of history" + log)) return;
        {
            std::deque<mg::M> all;
            auto m = shadow(*withoutScalarAddresses(doc), all);
            mg::Checker c{h, r, *pool, "document " + text + " after overlays" + log};
            c.exactNames = false;
            if (!tree(c, *pool, pool->root(0), *m)) return;
        }
        h.count("computations", pool->computed);
        h.distinct(vh::hashStr(text, 27));
    });
}
