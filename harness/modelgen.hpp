// Random construction histories of models, with a shadow of what must be in them.
#pragma once
#include "common.hpp"
#include "simfil/model/model.h"
#include <deque>

namespace mg {
using vh::Rng;
using simfil::ModelNode;
using simfil::ModelNodeAddress;
using simfil::ModelPool;
using simfil::StringId;
using simfil::StringPool;
using simfil::ValueType;

inline std::string lower(std::string s)
{
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
    return s;
}

/// Shadow of a node.
struct M
{
    enum K { Null, Bool, Int, Float, Str, Obj, Arr } k = Null;
    bool b = false;
    int64_t i = 0;
    double f = 0;
    std::string s;
    std::vector<std::pair<std::string, M*>> obj; // names as the model's string pool spells them
    std::vector<M*> arr;
    uint32_t addr = 0;
    int id = 0;
    size_t expanded = 1; // Size as a tree, at the last check

    size_t size() const { return k == Obj ? obj.size() : k == Arr ? arr.size() : 0; }
    M* at(size_t n) const { return k == Obj ? obj[n].second : arr[n]; }
    std::string text(int depth = 0) const
    {
        char buf[40];
        switch (k) {
        case Null: return "null";
        case Bool: return b ? "true" : "false";
        case Int: return std::to_string(i);
        case Float: snprintf(buf, sizeof buf, "%a", f); return buf;
        case Str: return vh::quote(s.substr(0, 40));
        default: break;
        }
        if (depth > 3) return "...";
        std::string t = k == Obj ? "{" : "[";
        for (size_t n = 0; n < size() && n < 10; ++n) t += (n ? ", " : "") + (k == Obj ? vh::quote(obj[n].first) + ": " : std::string()) + at(n)->text(depth + 1);
        return t + (size() > 10 ? ", ..." : "") + (k == Obj ? "}" : "]");
    }
};

inline int64_t randomInt(Rng& r)
{
    if (r.chance(60)) return r.pick({(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)65535, (int64_t)65536, (int64_t)65537, (int64_t)-32768, (int64_t)-32769, (int64_t)-32767, (int64_t)32767, (int64_t)32768, INT64_MAX, INT64_MIN, (int64_t)1 << 32, -((int64_t)1 << 40), (int64_t)255, (int64_t)256, (int64_t)1 << 24});
    return (int64_t)(r.next() >> r.below(64)) * (r.chance(50) ? 1 : -1);
}

inline double randomFloat(Rng& r)
{
    switch (r.below(4)) {
    case 0: return r.pick({0.0, -0.0, 1.0, -1.5, (double)INFINITY, -(double)INFINITY, (double)NAN, 5e-324, 1.7976931348623157e308, 65536.0, 0.1});
    case 1: return (double)r.range(-1000, 1000) / 8;
    default: {
        uint64_t u = r.next();
        double d;
        memcpy(&d, &u, 8);
        return d;
    }
    }
}

inline std::string randomStr(Rng& r)
{
    std::string s;
    switch (r.below(6)) {
    case 0: return "";
    case 1: return r.pick({"FOO", "foo", "true", "null", "42", "\xc3\xa4", "a\nb", "\"q\""});
    case 2: return std::string("nul\0byte", 8);
    case 3:
        for (auto n = r.below(8); n > 0; --n) s += (char)r.below(256);
        return s;
    case 4: return std::string(r.pick({14, 15, 16, 17, 63, 200, 5000}), (char)('a' + r.below(26)));
    default:
        for (auto n = r.below(12); n > 0; --n) s += (char)('a' + r.below(26));
        return s;
    }
}

inline std::string recase(Rng& r, std::string s)
{
    for (auto& c : s)
        if (r.chance(40)) {
            if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
            else if (c >= 'a' && c <= 'z') c = (char)(c - 'a' + 'A');
        }
    return s;
}

inline std::string randomName(Rng& r)
{
    switch (r.below(8)) {
    case 0: return r.pick({"$sum", "$val", "$idx", "_", "0", "a.b", "with space", "\xc3\xa4", "x\ny", "and", "*"});
    case 1: return "";
    case 2: return "long_" + std::string(r.below(60), 'n') + std::to_string(r.below(3));
    case 3: return std::string("z\0", 2) + (char)('a' + r.below(3));
    default: return recase(r, std::string("k") + std::to_string(r.below(40)));
    }
}

/// A model under construction.
struct World
{
    Rng& r;
    std::shared_ptr<StringPool> strings;
    std::map<std::string, std::string>* spelled; // the pool's spelling of a name
    std::shared_ptr<ModelPool> pool;
    std::deque<M> nodes;
    std::vector<M*> roots;
    std::vector<std::pair<simfil::model_ptr<simfil::Object>, M*>> objects;
    std::vector<std::pair<simfil::model_ptr<simfil::Array>, M*>> arrays;
    std::vector<M*> scalars;
    std::string log;
    bool duplicates = true;  // several members of one name
    bool sharing = true;     // one node in several places
    bool oddBytes = true;    // strings that are not UTF-8
    size_t operations = 0;

    World(Rng& rng, std::shared_ptr<StringPool> s, std::map<std::string, std::string>* sp) : r(rng), strings(std::move(s)), spelled(sp)
    {
        pool = strings ? std::make_shared<ModelPool>(strings) : std::make_shared<ModelPool>();
        if (!strings) strings = pool->strings();
    }

    M* node(M::K k)
    {
        nodes.emplace_back();
        nodes.back().k = k;
        nodes.back().id = (int)nodes.size();
        return &nodes.back();
    }
    std::string spell(const std::string& name)
    {
        return spelled->emplace(lower(name), name).first->second;
    }
    std::string name(const M& parent)
    {
        for (int n = 0; n < 50; ++n) {
            auto s = randomName(r);
            if (duplicates && r.chance(10)) return s;
            bool used = false;
            for (auto& [k, v] : parent.obj) used = used || lower(k) == lower(s);
            if (!used) return s;
        }
        return "unique" + std::to_string(nodes.size()) + "_" + std::to_string(parent.obj.size());
    }
    static bool reaches(M* from, M* to)
    {
        if (from == to) return true;
        for (size_t i = 0; i < from->size(); ++i)
            if ((from->at(i)->k == M::Obj || from->at(i)->k == M::Arr) && reaches(from->at(i), to)) return true;
        return false;
    }
    size_t measure(M* m)
    {
        size_t n = 1;
        for (size_t i = 0; i < m->size() && n < 100000; ++i) n += measure(m->at(i));
        return m->expanded = n;
    }
    std::string str()
    {
        for (;;) {
            auto s = randomStr(r);
            if (oddBytes || std::all_of(s.begin(), s.end(), [](char c) { return (unsigned char)c < 128; })) return s;
        }
    }

    /// Store a new scalar as a node of its own.
    std::pair<ModelNode::Ptr, M*> scalar()
    {
        M* m = node(M::Null);
        ModelNode::Ptr p;
        switch (r.below(8)) {
        case 0: p = ModelNode::Ptr::make(pool, ModelNodeAddress{simfil::Model::Null, 1}); break;
        case 1: m->k = M::Bool; m->b = r.chance(50); p = pool->newSmallValue(m->b); break;
        case 2: m->k = M::Int; m->i = (int16_t)randomInt(r); p = pool->newSmallValue((int16_t)m->i); break;
        case 3: m->k = M::Int; m->i = (uint16_t)randomInt(r); p = pool->newSmallValue((uint16_t)m->i); break;
        case 4: case 5: m->k = M::Int; m->i = randomInt(r); p = pool->newValue(m->i); break;
        case 6: m->k = M::Float; m->f = randomFloat(r); p = pool->newValue(m->f); break;
        default: m->k = M::Str; m->s = str(); p = pool->newValue(std::string_view(m->s)); break;
        }
        m->addr = p->addr().value_;
        return {p, m};
    }

    M* newObject()
    {
        auto cap = r.below(6);
        auto o = pool->newObject(cap);
        auto m = node(M::Obj);
        m->addr = o->addr().value_;
        objects.push_back({o, m});
        log += " #" + std::to_string(m->id) + "=object(" + std::to_string(cap) + ")";
        return m;
    }
    M* newArray()
    {
        auto cap = r.below(6);
        auto a = pool->newArray(cap);
        auto m = node(M::Arr);
        m->addr = a->addr().value_;
        arrays.push_back({a, m});
        log += " #" + std::to_string(m->id) + "=array(" + std::to_string(cap) + ")";
        return m;
    }

    ModelNode::Ptr ptr(M* m)
    {
        ModelNodeAddress a;
        a.value_ = m->addr;
        return ModelNode::Ptr::make(pool, a);
    }
    simfil::model_ptr<simfil::Object> object(size_t i) { return r.chance(50) ? objects[i].first : pool->resolveObject(ptr(objects[i].second)); }
    simfil::model_ptr<simfil::Array> array(size_t i) { return r.chance(50) ? arrays[i].first : pool->resolveArray(ptr(arrays[i].second)); }

    /// A child for the given parent: any node that does not make a cycle.
    M* child(M* parent)
    {
        if (r.chance(sharing ? 50 : 25) && nodes.size() < 400) {
            if (r.chance(50)) return r.chance(60) ? newObject() : newArray();
            auto s = scalar().second;
            scalars.push_back(s);
            return s;
        }
        for (int n = 0; sharing && n < 8; ++n) {
            M* m = nullptr;
            switch (r.below(3)) {
            case 0: if (!objects.empty()) m = r.pick(objects).second; break;
            case 1: if (!arrays.empty()) m = r.pick(arrays).second; break;
            default: if (!scalars.empty()) m = r.pick(scalars); break;
            }
            if (m && !reaches(m, parent) && measure(m) < 60 && measure(parent) < 400) return m;
        }
        return scalar().second;
    }

    void addMember(size_t i)
    {
        auto m = objects[i].second;
        auto n = name(*m);
        auto o = object(i);
        M* c;
        ++operations;
        // The name must be stored, not referred to.
        auto written = std::make_unique<std::string>(n);
        if (r.chance(40)) {
            c = node(M::Null);
            switch (r.below(6)) {
            case 0: c->k = M::Bool; c->b = r.chance(50); o->addBool(*written, c->b); break;
            case 1: c->k = M::Int; c->i = (int16_t)randomInt(r); o->addField(*written, (int16_t)c->i); break;
            case 2: c->k = M::Int; c->i = (uint16_t)randomInt(r); o->addField(*written, (uint16_t)c->i); break;
            case 3: c->k = M::Int; c->i = randomInt(r); o->addField(*written, c->i); break;
            case 4: c->k = M::Float; c->f = randomFloat(r); o->addField(*written, c->f); break;
            default: c->k = M::Str; c->s = str(); o->addField(*written, std::string_view(c->s)); break;
            }
        } else {
            c = child(m);
            if (c->k == M::Obj && r.chance(50)) o->addField(*written, pool->resolveObject(ptr(c)));
            else if (c->k == M::Arr && r.chance(50)) o->addField(*written, pool->resolveArray(ptr(c)));
            else o->addField(*written, ptr(c));
        }
        std::fill(written->begin(), written->end(), '#');
        m->obj.emplace_back(spell(n), c);
        log += " #" + std::to_string(m->id) + "." + vh::quote(n) + "=" + (c->size() || c->addr ? "#" + std::to_string(c->id) : c->text());
    }
    void addElement(size_t i)
    {
        auto m = arrays[i].second;
        auto a = array(i);
        M* c;
        ++operations;
        if (r.chance(40)) {
            c = node(M::Null);
            switch (r.below(6)) {
            case 0: c->k = M::Bool; c->b = r.chance(50); a->append(c->b); break;
            case 1: c->k = M::Int; c->i = (int16_t)randomInt(r); a->append((int16_t)c->i); break;
            case 2: c->k = M::Int; c->i = (uint16_t)randomInt(r); a->append((uint16_t)c->i); break;
            case 3: c->k = M::Int; c->i = randomInt(r); a->append(c->i); break;
            case 4: c->k = M::Float; c->f = randomFloat(r); a->append(c->f); break;
            default: c->k = M::Str; c->s = str(); a->append(std::string_view(c->s)); break;
            }
        } else {
            c = child(m);
            if (c->k == M::Obj && r.chance(50)) a->append(pool->resolveObject(ptr(c)));
            else if (c->k == M::Arr && r.chance(50)) a->append(pool->resolveArray(ptr(c)));
            else a->append(ptr(c));
        }
        m->arr.push_back(c);
        log += " #" + std::to_string(m->id) + "+=" + (c->size() || c->addr ? "#" + std::to_string(c->id) : c->text());
    }

    void extend()
    {
        if (!sharing) return;
        if (r.chance(50) && !objects.empty()) {
            auto i = r.below(objects.size()), j = r.below(objects.size());
            auto to = objects[i].second, from = objects[j].second;
            if (i != j && reaches(from, to)) return;
            if (measure(to) + measure(from) > 300) return;
            if (!duplicates)
                for (auto& [a, x] : to->obj) for (auto& [b, y] : from->obj) if (a == b) return;
            object(i)->extend(object(j));
            auto add = from->obj;
            to->obj.insert(to->obj.end(), add.begin(), add.end());
            log += " #" + std::to_string(to->id) + ".extend(#" + std::to_string(from->id) + ")";
        } else if (!arrays.empty()) {
            auto i = r.below(arrays.size()), j = r.below(arrays.size());
            auto to = arrays[i].second, from = arrays[j].second;
            if (i != j && reaches(from, to)) return;
            if (measure(to) + measure(from) > 300) return;
            array(i)->extend(array(j));
            auto add = from->arr;
            to->arr.insert(to->arr.end(), add.begin(), add.end());
            log += " #" + std::to_string(to->id) + ".extend(#" + std::to_string(from->id) + ")";
        }
        ++operations;
    }

    void addRoot()
    {
        M* m = nullptr;
        switch (r.below(4)) {
        case 0: case 1: m = objects.empty() ? newObject() : r.pick(objects).second; break;
        case 2: m = arrays.empty() ? newArray() : r.pick(arrays).second; break;
        default: m = scalar().second; break;
        }
        if (r.chance(50) && m->k == M::Obj) pool->addRoot(pool->resolveObject(ptr(m)));
        else pool->addRoot(ptr(m));
        roots.push_back(m);
        log += " root#" + std::to_string(m->id);
        ++operations;
    }

    void step()
    {
        auto op = r.below(20);
        if (op < 1 || (objects.empty() && arrays.empty())) r.chance(60) ? newObject() : newArray();
        else if (op < 10 && !objects.empty()) addMember(r.below(objects.size()));
        else if (op < 17 && !arrays.empty()) addElement(r.below(arrays.size()));
        else if (op < 18) extend();
        else addRoot();
    }

    void clear()
    {
        pool->clear();
        roots.clear();
        objects.clear();
        arrays.clear();
        scalars.clear();
        nodes.clear();
        log += " clear";
    }
};

/// Compares what all accessors return with the shadow.
struct Checker
{
    vh::Harness& h;
    Rng& r;
    const ModelPool& pool;
    std::string where;
    bool sameAddresses = true;
    bool exactNames = true; // otherwise letter case may differ
    std::set<std::pair<uint32_t, M*>> seen;
    bool ok = true;

    bool bad(const char* key, M& m, const std::string& what)
    {
        if (ok) h.violation(key, what + "; node #" + std::to_string(m.id) + " is " + m.text().substr(0, 400) + "; " + where);
        return ok = false;
    }
    static ValueType type(const M& m)
    {
        switch (m.k) {
        case M::Null: return ValueType::Null;
        case M::Bool: return ValueType::Bool;
        case M::Int: return ValueType::Int;
        case M::Float: return ValueType::Float;
        case M::Str: return ValueType::String;
        case M::Obj: return ValueType::Object;
        default: return ValueType::Array;
        }
    }
    bool sameName(std::string_view got, const std::string& want) { return exactNames ? got == want : lower(std::string(got)) == lower(want); }
    static bool same(double a, double b) { return !memcmp(&a, &b, 8); }
    static bool sameValue(const simfil::ScalarValueType& v, const M& m)
    {
        switch (m.k) {
        case M::Bool: return std::holds_alternative<bool>(v) && std::get<bool>(v) == m.b;
        case M::Int: return std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == m.i;
        case M::Float: return std::holds_alternative<double>(v) && same(std::get<double>(v), m.f);
        case M::Str:
            if (auto s = std::get_if<std::string>(&v)) return *s == m.s;
            if (auto s = std::get_if<std::string_view>(&v)) return *s == m.s;
            return false;
        default: return std::holds_alternative<std::monostate>(v);
        }
    }
    /// Is this the right node, judging by it and its direct properties?
    bool shallow(const ModelNode::Ptr& p, M& m)
    {
        if (!p || p->type() != type(m) || p->size() != m.size() || !sameValue(p->value(), m)) return false;
        return !(sameAddresses && m.addr) || p->addr().value_ == m.addr;
    }

    /// All accessors of one view of a node.
    bool view(const ModelNode& n, M& m)
    {
        h.count("views");
        if (n.type() != type(m)) return bad("type", m, "type() is " + std::to_string((int)n.type()));
        if (!sameValue(n.value(), m)) return bad("value", m, "value() is wrong");
        if (n.size() != m.size()) return bad("size", m, "size() is " + std::to_string(n.size()));
        auto& strings = *pool.strings();
        auto size = (int64_t)m.size();
        auto picks = [&](int64_t i) { return size < 200 || i < 5 || i > size - 5 || (i > 16380 && i < 16390) || r.below(50) == 0; };
        for (int64_t i = 0; i < size; ++i) {
            if (!picks(i)) continue;
            if (!shallow(n.at(i), *m.at((size_t)i))) return bad("at", m, "at(" + std::to_string(i) + ") is not the child stored there");
            h.count("children");
        }
        for (auto i : {(int64_t)-1, size, size + 1, size * 2 + 3, INT64_MAX, INT64_MIN, (int64_t)UINT32_MAX, (int64_t)UINT32_MAX + 1, -size - 1})
            if (i < 0 || i >= size) {
                if (n.at(i)) return bad("at-outside", m, "at(" + std::to_string(i) + ") is a node");
                if (n.keyAt(i) != StringPool::Empty) return bad("key-outside", m, "keyAt(" + std::to_string(i) + ") is a name");
            }
        // Iteration.
        int64_t i = 0;
        bool right = true;
        bool done = n.iterate(ModelNode::IterLambda([&](const ModelNode& c) {
            if (i >= size) { right = false; return false; }
            auto& want = *m.at((size_t)i++);
            if (!picks(i - 1)) return true;
            right = c.type() == type(want) && c.size() == want.size() && sameValue(c.value(), want);
            return right;
        }));
        if (!right || !done || i != size) return bad("iterate", m, "iterate() visits other nodes than stored (" + std::to_string(i) + ")");
        if (size) {
            auto stop = (int64_t)r.below((uint64_t)size) + 1;
            i = 0;
            done = n.iterate(ModelNode::IterLambda([&](const ModelNode&) { return ++i < stop; }));
            if (i != stop) return bad("iterate-stop", m, "iterate() visits " + std::to_string(i) + " nodes although stopped at " + std::to_string(stop));
            if (done) return bad("iterate-stop", m, "iterate() returns true although it was stopped at child " + std::to_string(stop) + " of " + std::to_string(size));
        }
        if (size < 2000) {
            i = 0;
            for (ModelNode::Ptr c : n) {
                if (i >= size || !shallow(c, *m.at((size_t)i))) return bad("range-for", m, "child " + std::to_string(i) + " differs in a loop over the node");
                ++i;
            }
            if (i != size) return bad("range-for", m, "a loop over the node visits " + std::to_string(i) + " children");
        }
        if (m.k == M::Obj) {
            for (i = 0; i < size; ++i) {
                if (!picks(i)) continue;
                auto& want = m.obj[(size_t)i].first;
                auto key = strings.resolve(n.keyAt(i));
                if (!key || !sameName(*key, want)) return bad("key", m, "keyAt(" + std::to_string(i) + ") is " + (key ? vh::quote(*key) : "unknown") + " instead of " + vh::quote(want));
                if (lower(want).empty() && n.keyAt(i) != StringPool::Empty) return bad("key", m, "the empty name has another id");
            }
            if (size < 2000) {
                i = 0;
                for (StringId id : n.fieldNames()) {
                    auto key = strings.resolve(id);
                    if (i >= size || !key || !sameName(*key, m.obj[(size_t)i].first)) return bad("fieldNames", m, "name " + std::to_string(i) + " differs in fieldNames()");
                    ++i;
                }
                if (i != size) return bad("fieldNames", m, "fieldNames() has " + std::to_string(i) + " names");
                i = 0;
                for (auto const& [id, c] : n.fields()) {
                    auto key = strings.resolve(id);
                    if (i >= size || !key || !sameName(*key, m.obj[(size_t)i].first) || !shallow(c, *m.obj[(size_t)i].second)) return bad("fields", m, "member " + std::to_string(i) + " differs in fields()");
                    ++i;
                }
                if (i != size) return bad("fields", m, "fields() has " + std::to_string(i) + " members");
            }
            // By name: the first member of that name.
            std::map<std::string, M*> first;
            for (auto& [k, c] : m.obj) first.emplace(lower(k), c);
            int lookups = 0;
            for (auto& [k, c] : first) {
                if (size > 200 && r.below((uint64_t)size) > 100) continue;
                if (++lookups > 300) break;
                auto id = strings.get(k);
                if (!shallow(n.get(id), *c)) return bad("get", m, "member " + vh::quote(k) + " is not the one stored");
                if (auto o = dynamic_cast<const simfil::Object*>(&n))
                    if (!shallow(o->get(std::string_view(recase(r, k))), *c)) return bad("get-name", m, "member " + vh::quote(k) + " is not found by its name");
                h.count("lookups");
            }
            for (int k = 0; k < 4; ++k) {
                auto name = k ? randomName(r) : "never_" + std::to_string(r.below(1000000));
                if (first.count(lower(name))) continue;
                auto id = strings.get(name);
                if ((id || name.empty()) && n.get(id)) return bad("get-absent", m, "there is a member " + vh::quote(name));
                if (auto o = dynamic_cast<const simfil::Object*>(&n))
                    if (o->get(std::string_view(name))) return bad("get-absent", m, "there is a member named " + vh::quote(name));
                h.count("absent lookups");
            }
            if (!first.count("") && n.get(StringPool::Empty)) return bad("get-absent", m, "there is a member without name");
        } else {
            for (auto id : {(StringId)0, (StringId)1, strings.get("k1"), strings.highest()})
                if (n.get(id)) return bad("get-absent", m, "something other than an object has a member");
            for (i = 0; i < std::min<int64_t>(size, 3); ++i)
                if (n.keyAt(i) != StringPool::Empty) return bad("key-array", m, "elements have names");
        }
        return true;
    }

    /// A node and everything below it.
    bool tree(const ModelNode::Ptr& p, M& m, int depth = 0)
    {
        if (!p) return bad("missing", m, "the node is missing");
        if (sameAddresses && m.addr && p->addr().value_ != m.addr) return bad("address", m, "another node is stored");
        if (!seen.insert({p->addr().value_, &m}).second) return ok;
        if (!view(*p, m)) return false;
        bool resolved = true;
        pool.resolve(*p, simfil::Model::Lambda([&](const ModelNode& n) { resolved = view(n, m); }));
        if (!resolved) return false;
        if (m.k == M::Obj && (r.chance(50) || m.obj.size() < 5)) {
            auto o = pool.resolveObject(p);
            if (!view(*o, m)) return false;
        }
        if (m.k == M::Arr && r.chance(50)) {
            auto a = pool.resolveArray(p);
            if (!view(*a, m)) return false;
            size_t i = 0;
            bool right = true;
            a->forEach([&](const ModelNode& c) { right = right && i < m.arr.size() && c.type() == type(*m.arr[i]); ++i; return true; });
            if (!right || i != m.arr.size()) return bad("forEach", m, "forEach() visits other elements");
        }
        if (m.k != M::Obj) {
            bool thrown = false;
            try { (void)pool.resolveObject(p); } catch (const std::exception&) { thrown = true; }
            if (!thrown) return bad("cast", m, "resolveObject() accepts something else");
        }
        if (m.k != M::Arr) {
            bool thrown = false;
            try { (void)pool.resolveArray(p); } catch (const std::exception&) { thrown = true; }
            if (!thrown) return bad("cast", m, "resolveArray() accepts something else");
        }
        for (size_t i = 0; i < m.size(); ++i) {
            if (m.size() > 500 && i > 50 && r.below(50)) continue;
            if (!tree(p->at((int64_t)i), *m.at(i), depth + 1)) return false;
        }
        return true;
    }

    /// Is this the JSON of the node?
    bool json(const nlohmann::json& j, M& m)
    {
        switch (m.k) {
        case M::Null: return j.is_null();
        case M::Bool: return j.is_boolean() && j.get<bool>() == m.b;
        case M::Int: return j.is_number_integer() && j.get<int64_t>() == m.i && !(j.is_number_unsigned() && m.i < 0);
        case M::Float: return j.is_number_float() && same(j.get<double>(), m.f);
        case M::Str: return j.is_string() && j.get_ref<const std::string&>() == m.s;
        case M::Arr:
            if (!j.is_array() || j.size() != m.arr.size()) return false;
            for (size_t i = 0; i < j.size(); ++i)
                if (!json(j[i], *m.arr[i])) return false;
            return true;
        default: {
            if (!j.is_object()) return false;
            std::map<std::string, std::vector<M*>> by;
            for (auto& [k, c] : m.obj) by[exactNames ? k : lower(k)].push_back(c);
            bool multi = by.size() != m.obj.size();
            if (j.size() != by.size() + (multi ? 1 : 0)) return false;
            for (auto& [k, v] : j.items()) {
                if (multi && k == "_multimap") {
                    if (!v.is_boolean() || !v.get<bool>()) return false;
                    continue;
                }
                auto it = by.find(exactNames ? k : lower(k));
                if (it == by.end()) return false;
                if (!multi) {
                    if (!json(v, *it->second[0])) return false;
                    continue;
                }
                if (!v.is_array() || v.size() != it->second.size()) return false;
                for (size_t i = 0; i < v.size(); ++i)
                    if (!json(v[i], *it->second[i])) return false;
            }
            return true;
        }
        }
    }

    /// The whole model.
    bool model(World& w)
    {
        if (pool.numRoots() != w.roots.size()) {
            h.violation("roots", "the model has " + std::to_string(pool.numRoots()) + " roots instead of " + std::to_string(w.roots.size()) + "; " + where);
            return false;
        }
        for (auto i : {w.roots.size(), w.roots.size() + 1, (size_t)-1}) {
            bool thrown = false;
            try { (void)pool.root(i); } catch (const std::exception&) { thrown = true; }
            if (!thrown) h.violation("roots", "root " + std::to_string(i) + " of " + std::to_string(w.roots.size()) + " is not rejected; " + where);
        }
        size_t total = 0;
        for (size_t i = 0; i < w.roots.size(); ++i) {
            if (!tree(pool.root(i), *w.roots[i])) return false;
            auto n = w.measure(w.roots[i]);
            if ((total += n) < 20000 && !json(pool.root(i)->toJson(), *w.roots[i])) return bad("json", *w.roots[i], "toJson() differs");
        }
        if (total < 5000) {
            auto j = pool.toJson();
            if (!j.is_array() || j.size() != w.roots.size()) return h.violation("json", "toJson() of the model has other roots; " + where), false;
            for (size_t i = 0; i < w.roots.size(); ++i)
                if (!json(j[i], *w.roots[i])) return bad("json", *w.roots[i], "toJson() of the model differs");
        }
        h.count("models compared");
        h.count("nodes compared", seen.size());
        return ok;
    }
};

} // namespace mg
