// Generators of documents and queries, and the bridge from documents to models.
#pragma once
#include "refeval.hpp"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/model/model.h"
#include "simfil/model/json.h"
#include "simfil/types.h"

namespace gen {
using namespace ref;
using vh::Rng;

// The name of a field determines the type of its values, in every generated document.
inline const std::vector<std::string> Ints{"n", "m", "id", "Count_2"};
inline const std::vector<std::string> Floats{"x", "y"};
inline const std::vector<std::string> Strs{"s", "t", "name", "NAME_X"};
inline const std::vector<std::string> Bools{"p", "f"};
inline const std::vector<std::string> Objs{"o", "q", "Obj", "UP_CASE", "a.b", "and"};
inline const std::vector<std::string> ObjArrs{"l", "list"};
inline const std::vector<std::string> IntArrs{"ni", "with space"};
inline const std::vector<std::string> StrArrs{"ns", "0d"};
inline const std::vector<std::string> MixArrs{"mix"};
inline const std::vector<std::string> Nulls{"z"};
inline const std::vector<std::string> Missing{"missing", "GONE", "nope"};
inline const std::vector<std::string> Symbols{"FOO", "BAR", "A", "RED_ISH"};

struct DocGen
{
    Rng& r;
    int maxDepth = 3;
    bool extremes = true;
    size_t nodes = 0, maxNodes = 120;

    int64_t intv()
    {
        if (extremes && r.chance(10))
            return r.pick({INT64_MAX, INT64_MIN, (int64_t)65535, (int64_t)65536, (int64_t)-32768, (int64_t)-32769, (int64_t)1 << 40, (int64_t)-1});
        return r.chance(80) ? r.range(-3, 9) : r.range(-100000, 100000);
    }
    double floatv() { return (double)r.range(-20, 40) / 2; }
    std::string strv()
    {
        if (r.chance(40)) return r.pick(Symbols);
        if (r.chance(15)) return std::to_string(r.range(-20, 300));
        if (r.chance(10)) return r.pick({"a,b,,c", ",", "a b", "", "größe", "true", "null", "1.5x", "'q\"", "back\\slash"});
        std::string s;
        for (int i = (int)r.below(5); i >= 0; --i) s += r.pick({'a', 'b', 'c', 'A', ',', '1', '.'});
        return s;
    }
    JP arr(int depth, int maxLen, std::function<JP()> el)
    {
        auto a = mk(J::Arr);
        for (int n = (int)r.below(maxLen + 1); n > 0; --n) a->arr.push_back(el());
        (void)depth;
        return a;
    }
    JP any(int depth)
    {
        switch (r.below(depth < maxDepth ? 8 : 5)) {
        case 0: return jint(intv());
        case 1: return jfloat(floatv());
        case 2: return jstr(strv());
        case 3: return jbool(r.chance(50));
        case 4: return jnull();
        case 5: return obj(depth + 1);
        case 6: return arr(depth, 3, [&] { return any(depth + 1); });
        default: return arr(depth, 3, [&] { return jint(intv()); });
        }
    }
    JP forName(const std::string& n, int depth)
    {
        auto in = [&](const std::vector<std::string>& v) { return std::find(v.begin(), v.end(), n) != v.end(); };
        if (in(Ints)) return jint(intv());
        if (in(Floats)) return jfloat(floatv());
        if (in(Strs)) return jstr(strv());
        if (in(Bools)) return jbool(r.chance(50));
        if (in(Nulls)) return jnull();
        if (in(Objs)) return obj(depth + 1);
        if (in(ObjArrs)) return arr(depth, 3, [&] { return obj(depth + 1); });
        if (in(IntArrs)) return arr(depth, 4, [&] { return jint(intv()); });
        if (in(StrArrs)) return arr(depth, 4, [&] { return jstr(strv()); });
        return arr(depth, 4, [&] { return any(depth + 1); });
    }
    JP obj(int depth)
    {
        auto o = mk(J::Obj);
        std::vector<std::string> names;
        auto add = [&](const std::vector<std::string>& v, int chance) { for (auto& n : v) if (r.chance(chance)) names.push_back(n); };
        bool deep = depth < maxDepth && nodes < maxNodes;
        add(Ints, 45); add(Floats, 35); add(Strs, 45); add(Bools, 45); add(Nulls, 15);
        if (deep) { add(Objs, 30); add(ObjArrs, 35); add(IntArrs, 35); add(StrArrs, 25); add(MixArrs, 25); }
        for (size_t i = names.size(); i > 1; --i) std::swap(names[i - 1], names[r.below(i)]);
        nodes += names.size();
        for (auto& n : names) o->obj.emplace_back(n, forName(n, depth));
        return o;
    }
    JP doc()
    {
        nodes = 0;
        if (r.chance(6)) return any(1);
        return obj(0);
    }
};

/// Store a document in a pool, through a random choice of the interfaces to do so.
/// Sets the addresses of the document's nodes.
inline simfil::ModelNode::Ptr store(J& j, simfil::ModelPool& pool, Rng* r = nullptr)
{
    using namespace simfil;
    auto done = [&](ModelNode::Ptr p) { j.addr = p->addr().value_; return p; };
    switch (j.k) {
    case J::Null: return done(ModelNode::Ptr::make(pool.shared_from_this(), ModelNodeAddress{Model::Null, 1}));
    case J::Bool: return done(pool.newSmallValue(j.b));
    case J::Int:
        if (r && r->chance(30)) {
            if (j.i >= -32768 && j.i <= 32767) return done(pool.newSmallValue((int16_t)j.i));
            if (j.i >= 0 && j.i <= 65535) return done(pool.newSmallValue((uint16_t)j.i));
        }
        return done(pool.newValue(j.i));
    case J::Float: return done(pool.newValue(j.f));
    case J::Str: return done(pool.newValue(std::string_view(j.s)));
    case J::Obj: {
        auto o = pool.newObject(r ? r->below(5) : 2);
        for (auto& [k, v] : j.obj) {
            if (r && r->chance(30)) {
                if (v->k == J::Bool) { o->addBool(k, v->b); continue; }
                if (v->k == J::Int) { o->addField(k, v->i); continue; }
                if (v->k == J::Float) { o->addField(k, v->f); continue; }
                if (v->k == J::Str) { o->addField(k, std::string_view(v->s)); continue; }
            }
            o->addField(k, store(*v, pool, r));
        }
        return done(ModelNode::Ptr(o));
    }
    default: {
        auto a = pool.newArray(r ? r->below(5) : 2);
        for (auto& v : j.arr) {
            if (r && r->chance(30)) {
                if (v->k == J::Bool) { a->append(v->b); continue; }
                if (v->k == J::Int) { a->append(v->i); continue; }
                if (v->k == J::Float) { a->append(v->f); continue; }
                if (v->k == J::Str) { a->append(std::string_view(v->s)); continue; }
            }
            a->append(store(*v, pool, r));
        }
        return done(ModelNode::Ptr(a));
    }
    }
}

/// Canonical text of a result (see ref::canon).
inline std::string canon(const simfil::Value& v)
{
    using simfil::ValueType;
    char buf[96];
    switch (v.type) {
    case ValueType::Undef: return "undef";
    case ValueType::Null: return "null";
    case ValueType::Bool: return v.as<ValueType::Bool>() ? "true" : "false";
    case ValueType::Int: return "i:" + std::to_string(v.as<ValueType::Int>());
    case ValueType::Float: {
        auto f = v.as<ValueType::Float>();
        snprintf(buf, sizeof buf, "f:%a", f);
        return std::isnan(f) ? "f:nan" : buf;
    }
    case ValueType::String: return "s:" + v.as<ValueType::String>();
    case ValueType::TransientObject: {
        auto& o = std::get<simfil::TransientObject>(v.value);
        if (auto g = simfil::getObject<simfil::IRange>(o, &simfil::IRangeType::Type))
            return "r:" + std::to_string(g->begin) + ".." + std::to_string(g->end);
        if (auto x = simfil::getObject<simfil::Re>(o, &simfil::ReType::Type))
            return "x:" + x->str;
        return "transient";
    }
    default:
        if (!v.node) return "n:none";
        snprintf(buf, sizeof buf, "n:%08x", v.node->addr().value_);
        return buf;
    }
}

/// The same, independent of where nodes are stored.
inline std::string canonJson(const simfil::Value& v)
{
    if ((v.type == simfil::ValueType::Object || v.type == simfil::ValueType::Array) && v.node)
        return "j:" + v.node->toJson().dump(-1, ' ', true, nlohmann::json::error_handler_t::replace);
    return canon(v);
}

struct Run
{
    bool compileRaised = false, raised = false;
    std::string error;
    std::vector<std::string> values;
    std::string text() const
    {
        if (raised) return (compileRaised ? "raised while compiling: " : "raised: ") + error;
        std::string r = std::to_string(values.size()) + " values:";
        for (size_t i = 0; i < values.size() && i < 30; ++i) r += " " + values[i];
        return r;
    }
};
/// Compile and evaluate with the library.
inline Run execute(simfil::Environment& env, const std::string& q, const simfil::ModelNode& root, bool any = false, bool wildcard = false,
                   std::string (*toText)(const simfil::Value&) = canon)
{
    Run r;
    simfil::ExprPtr e;
    try {
        e = simfil::compile(env, q, any, wildcard);
    } catch (const std::exception& x) {
        r.compileRaised = r.raised = true;
        r.error = x.what();
        return r;
    }
    try {
        for (auto& v : simfil::eval(env, *e, root)) r.values.push_back(toText(v));
    } catch (const std::exception& x) {
        r.raised = true;
        r.error = x.what();
        r.values.clear();
    }
    return r;
}

// ---------------------------------------------------------------- queries
struct QueryGen
{
    Rng& r;
    int wildness = 0;       // percent: use an operand of any type
    bool functions = true;
    bool wildcards = true;
    bool trace = false;
    bool constants = true;  // allow literals as operands
    bool inSum = false;

    EP fld(const std::string& n)
    {
        bool kw = n == "and";
        if (!kw && (Printer::plainWord(n) || r.chance(50))) return field(n);
        return pidx(lit(vstr(n)));
    }
    EP missing() { return field(r.pick(Missing)); }

    // ---- paths
    EP objStep()
    {
        switch (r.below(wildcards ? 10 : 6)) {
        case 0: case 1: case 2: case 3: return fld(r.pick(Objs));
        case 4: return missing();
        case 5: return self();
        case 6: case 7: return mkE(E::Any);
        case 8: return mkE(E::Wild);
        default: return path(fld(r.pick(ObjArrs)), mkE(E::Any));
        }
    }
    /// Something objects come out of.
    EP objs(int d)
    {
        if (d <= 0) return objStep();
        switch (r.below(9)) {
        case 0: case 1: return path(objs(d - 1), objStepR());
        case 2: return path(fld(r.pick(ObjArrs)), mkE(E::Any));
        case 3: return sub(objs(d - 1), cond(d - 1));
        case 4: return idx(fld(r.pick(ObjArrs)), index(d - 1));
        case 5: return path(objs(d - 1), psub(cond(d - 1)));
        case 6: return path(objs(d - 1), pidx(lit(r.chance(50) ? vstr(r.pick(Objs)) : vint(r.range(-1, 3)))));
        case 7: if (wildcards) return sub(mkE(r.chance(60) ? E::Any : E::Wild), cond(d - 1)); [[fallthrough]];
        default: return objStep();
        }
    }
    EP objStepR()
    {
        auto e = objStep();
        return e->k == E::Path ? fld(r.pick(Objs)) : e;
    }
    EP ctx(int d, EP x)
    {
        if (d <= 0 || r.chance(50)) return x;
        if (r.chance(15)) {
            // Group the other way: a.(b.c)
            auto o = objs(d - 2);
            return path(objs(d - 2), path(o, x));
        }
        return path(objs(d - 1), x);
    }
    EP index(int d)
    {
        (void)d;
        switch (r.below(8)) {
        case 0: return lit(vint(0));
        case 1: case 2: return lit(vint(r.range(0, 3)));
        case 3: return lit(vint(-1));
        case 4: return fld(r.pick(Ints));
        case 5: return call("arr", {lit(vint(r.range(0, 2))), lit(vint(r.range(0, 2)))});
        case 6: return functions ? post("...", call("range", {lit(vint(r.range(0, 2))), lit(vint(r.range(0, 3)))})) : lit(vint(1));
        default: return lit(r.chance(50) ? vnull() : vstr(r.pick(Ints)));
        }
    }

    // ---- typed operands (each may also be null, unless said otherwise)
    EP ints(int d)
    {
        if (wildness && r.chance(wildness)) return any(d);
        if (d <= 0) {
            if (inSum && r.chance(30)) return field(r.pick({"$val", "$idx", "$sum"}));
            return constants && r.chance(40) ? lit(vint(smallInt())) : r.chance(90) ? field(r.pick(Ints)) : missing();
        }
        switch (r.below(16)) {
        case 0: case 1: return ctx(d, field(r.pick(Ints)));
        case 2: case 3: case 4: return bin(r.pick({"+", "-", "*"}), ints(d - 1), ints(d - 1));
        case 5: return bin(r.pick({"/", "%"}), ints(d - 1), lit(vint(r.pick({1, 2, 3, -1, -3, 7}))));
        case 6: return bin(r.pick({"&", "|", "^"}), ints(d - 1), ints(d - 1));
        case 7: return bin(r.pick({"<<", ">>"}), ints(d - 1), r.chance(80) ? lit(vint(r.range(0, 64))) : ints(0));
        case 8: return un("~", ints(d - 1));
        case 9: return un("#", r.chance(50) ? strs(d - 1) : path(objs(d - 2), fld(r.pick(Objs))));
        case 10: return cast(any(d - 1), "int");
        case 11: return path(fld(r.pick(IntArrs)), mkE(E::Any));
        case 12: return idx(fld(r.pick(IntArrs)), index(d - 1));
        case 13: return functions ? call("count", {any(d - 1)}) : ints(d - 1);
        case 14: return un("-", cast(ints(d - 1), "int"));
        default: return functions ? sums(d) : ints(d - 1);
        }
    }
    EP floats(int d)
    {
        if (wildness && r.chance(wildness)) return any(d);
        if (d <= 0) return constants && r.chance(40) ? lit(vfloat((double)r.below(12) / 2)) : field(r.pick(Floats));
        switch (r.below(5)) {
        case 0: return ctx(d, field(r.pick(Floats)));
        case 1: return bin(r.pick({"+", "-", "*"}), num(d - 1), num(d - 1));
        case 2: return bin("/", num(d - 1), lit(r.chance(50) ? vfloat(r.pick({0.5, 2.0, 4.0})) : vint(r.pick({2, 5, -4}))));
        case 3: return cast(any(d - 1), "float");
        default: return un("-", cast(num(d - 1), "float"));
        }
    }
    EP num(int d) { return r.chance(65) ? ints(d) : floats(d); }
    EP strs(int d)
    {
        if (wildness && r.chance(wildness)) return any(d);
        if (d <= 0) {
            if (!constants || r.chance(55)) return field(r.pick(Strs));
            if (r.chance(40)) return sym(r.pick(Symbols));
            return lit(vstr(DocGen{r}.strv()));
        }
        switch (r.below(9)) {
        case 0: case 1: return ctx(d, field(r.pick(Strs)));
        case 2: return bin("+", strs(d - 1), r.chance(50) ? strs(d - 1) : any(d - 1));
        case 3: return bin("+", any(d - 1), strs(d - 1));
        case 4: return un("typeof", any(d - 1));
        case 5: return cast(any(d - 1), "string");
        case 6: return functions ? call("keys", {path(objs(d - 2), fld(r.pick(Objs)))}) : strs(d - 1);
        case 7: return functions ? splits(d) : strs(d - 1);
        default: return path(fld(r.pick(StrArrs)), mkE(E::Any));
        }
    }
    EP bools(int d) // never null
    {
        if (d <= 0) return constants && r.chance(40) ? lit(vbool(r.chance(50))) : cast(field(r.pick(Bools)), "bool");
        switch (r.below(12)) {
        case 0: case 1: return bin(r.pick({"==", "!=", "<", "<=", ">", ">="}), num(d - 1), num(d - 1));
        case 2: case 3: return bin(r.pick({"==", "!=", "<", "<=", ">", ">="}), strs(d - 1), strs(d - 1));
        case 4: return un("not", any(d - 1));
        case 5: return post("?", any(d - 1));
        case 6: return cast(any(d - 1), "bool");
        case 7: return bin(r.pick({"==", "!="}), any(d - 1), r.pick({0, 1}) ? lit(vnull()) : strs(0));
        case 8: return functions ? call(r.pick({"any", "all", "each"}), anys(d - 1)) : bools(d - 1);
        case 9: return functions ? bin(r.pick({"==", "!="}), num(d - 1), range()) : bools(d - 1);
        case 10: return bin(r.pick({"==", "!="}), bools(d - 1), bools(d - 1));
        default: return bin(r.pick({"and", "or"}), bools(d - 1), bools(d - 1));
        }
    }
    EP cond(int d)
    {
        if (d <= 0) return r.chance(50) ? field(r.pick(Bools)) : r.chance(50) ? bin(r.pick({"<", ">", "=="}), field(r.pick(Ints)), lit(vint(r.range(0, 5)))) : bin(r.pick({"==", "!="}), field(r.pick(Strs)), sym(r.pick(Symbols)));
        switch (r.below(7)) {
        case 0: case 1: return bools(d);
        case 2: return bin(r.pick({"and", "or"}), cond(d - 1), cond(d - 1));
        case 3: return bin("==", strs(d - 1), lit(vre(pattern())));
        case 4: return objs(d - 1);
        case 5: return any(d - 1);
        default: return cond(0);
        }
    }
    EP any(int d)
    {
        switch (r.below(d > 0 ? 12 : 6)) {
        case 0: return ints(d);
        case 1: return floats(d);
        case 2: return strs(d);
        case 3: return bools(d);
        case 4: return r.chance(50) ? missing() : constants ? lit(vnull()) : field("z");
        case 5: return r.chance(50) ? fld(r.pick(Objs)) : field(r.pick(MixArrs));
        case 6: return bin(r.pick({"and", "or"}), any(d - 1), any(d - 1));
        case 7: case 8: return objs(d);
        case 9: return ctx(d, field(r.pick(r.chance(50) ? MixArrs : Nulls)));
        case 10: return functions ? call("arr", anys(d - 1)) : any(d - 1);
        default: return functions ? selects(d) : any(d - 1);
        }
    }
    std::vector<EP> anys(int d)
    {
        std::vector<EP> v;
        auto w = wildness;
        wildness = 0; // lazily evaluated
        for (int n = 1 + (int)r.below(3); n > 0; --n) v.push_back(any(d));
        wildness = w;
        return v;
    }
    EP range() { return call("range", {lit(vint(r.range(0, 6))), lit(vint(r.range(0, 6)))}); }
    EP splits(int d)
    {
        auto s = r.chance(50) ? lit(vstr(DocGen{r}.strv())) : cast(field(r.pick(Strs)), "string");
        (void)d;
        std::vector<EP> a{s, lit(vstr(r.pick({",", ".", "a", "", ",,", "ab"})))};
        if (r.chance(50)) a.push_back(r.chance(60) ? lit(vbool(r.chance(50))) : cast(field(r.pick(Bools)), "bool"));
        return call("split", a);
    }
    EP selects(int d)
    {
        auto w = wildness;
        wildness = 0;
        std::vector<EP> a{any(d - 1), r.chance(70) ? lit(vint(r.range(0, 4))) : cast(field(r.pick(Ints)), "int")};
        wildness = w;
        if (r.chance(60)) a.push_back(lit(vint(r.range(0, 3))));
        return call("select", a);
    }
    EP sums(int d)
    {
        auto in = r.chance(60) ? post("...", range()) : call("arr", {cast(ints(d - 2), "int"), lit(vint(r.range(0, 9))), cast(fld(r.pick(Ints)), "int")});
        if (r.chance(40)) return call("sum", {in});
        auto saved = inSum;
        inSum = true;
        auto op = r.chance(60) ? bin(r.pick({"+", "-", "*"}), field("$sum"), ints(d - 2)) : bin("+", bin("*", field("$sum"), lit(vint(2))), field(r.pick({"$val", "$idx"})));
        inSum = saved;
        if (r.chance(40)) return call("sum", {in, op});
        return call("sum", {in, op, lit(vint(smallInt()))});
    }
    std::string pattern()
    {
        return r.pick({"A", "FOO|BAR", ".*", "a.*", "[a-c]+", "[0-9]+", "x?", "(a|b)*c", ".+,.+", "R.*H"});
    }
    EP transient(int d)
    {
        (void)d;
        return r.chance(60) ? range() : r.chance(50) ? lit(vre(pattern())) : call("re", {lit(vstr(pattern()))});
    }
    int64_t smallInt()
    {
        if (r.chance(4)) return r.pick({INT64_MAX, INT64_MIN, (int64_t)1 << 62, (int64_t)0x7fffffff, (int64_t)-1});
        return r.range(0, 9);
    }

    EP query(int d)
    {
        EP e;
        switch (r.below(12)) {
        case 0: e = ints(d); break;
        case 1: e = strs(d); break;
        case 2: case 3: e = bools(d); break;
        case 4: e = cond(d); break;
        case 5: e = any(d); break;
        case 6: e = transient(d); break;
        case 7: e = functions ? call("count", anys(d)) : objs(d); break;
        default: e = objs(d); break;
        }
        if (trace && r.chance(80))
            e = call("trace", {e, lit(vint(r.range(0, 6))), lit(vstr(r.pick({"t1", "t2"})))});
        return e;
    }
};

/// A document with a model and an environment to query it.
struct Fixture
{
    std::shared_ptr<simfil::StringPool> strings;
    std::shared_ptr<simfil::ModelPool> pool;
    JP doc;
    std::unique_ptr<simfil::Environment> env;

    Fixture(JP d, Rng* r = nullptr) : strings(std::make_shared<simfil::StringPool>()), doc(std::move(d))
    {
        pool = std::make_shared<simfil::ModelPool>(strings);
        pool->addRoot(store(*doc, *pool, r));
        env = std::make_unique<simfil::Environment>(strings);
    }
    simfil::ModelNode::Ptr replaced; // evaluate on this node instead
    simfil::ModelNode::Ptr root() const { return replaced ? replaced : pool->root(0); }
};

} // namespace gen

namespace gen {
/// Run one query on library and reference interpreter and compare. Returns false if the case was skipped.
inline bool compareQuery(vh::Harness& h, Fixture& fx, const E& e, const std::string& text, bool mayRaise, Run* out = nullptr, Outcome* refOut = nullptr)
{
    Outcome want;
    try {
        want = evaluate(e, *fx.doc);
    } catch (const Unspec&) {
        h.count("unspecified");
        return false;
    }
    h.input(text + "   on   " + jsonText(*fx.doc));
    auto got = execute(*fx.env, text, *fx.root());
    h.count("queries");
    if (want.raised) {
        h.count("raising");
        if (!got.raised) h.violation("error-missed", "expected an error (" + want.error + "), got " + got.text());
    } else if (got.compileRaised && mayRaise) {
        h.count("raised-early"); // a constant part raises, but would not have been reached
    } else if (got.raised) {
        h.violation("unexpected-error", got.text() + ", expected " + want.text());
    } else if (got.values != want.values) {
        h.violation("wrong-result", "got " + got.text() + ", expected " + want.text());
    } else {
        h.count("results", got.values.size());
        for (auto& v : got.values) if (v[0] == 'n' && v[1] == ':') h.count("nodes");
        if (got.values.size() > 1) h.count("multi");
        if (got.values.size() != 1 || got.values[0] != "null") {
            h.count("matching");
            h.distinct(vh::hashStr(text, 7) ^ vh::hashStr(jsonText(*fx.doc), 9));
        }
    }
    if (out) *out = got;
    if (refOut) *refOut = want;
    return true;
}
} // namespace gen
