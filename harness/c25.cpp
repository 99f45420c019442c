// C25: values behave like values: copies are equal, independent and leak-free.
#include "common.hpp"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/function.h"
#include "simfil/typed-meta-type.h"
#include "simfil/model/model.h"
#include "simfil/model/json.h"
#include <list>
#include <optional>
#include <unordered_map>
using namespace simfil;
using vh::Rng;

namespace {

/// Thrown by a copy that fails on purpose.
struct CopyFailed : std::exception { const char* what() const noexcept override { return "copy failed"; } };

/// Everything that is alive, with its payload; and what went wrong.
struct Ledger
{
    std::unordered_map<const void*, int64_t> live;
    uint64_t created = 0, destroyed = 0;
    int failIn = -1; // the n-th copy from now on fails
    std::string wrong;
    void complain(const char* t) { if (wrong.empty()) wrong = t; }
    void add(const void* p, int64_t v)
    {
        ++created;
        if (!live.emplace(p, v).second) complain("an object was created twice");
    }
    void remove(const void* p)
    {
        ++destroyed;
        if (!live.erase(p)) complain("an object was destroyed that is not alive");
    }
    void copyFails()
    {
        if (failIn >= 0 && failIn-- == 0) throw CopyFailed();
    }
} ledger;

/// A hand-written type.
struct RawType : MetaType
{
    static RawType Type;
    struct Data { int64_t payload = 0; std::string text; };
    RawType() : MetaType("raw") {}
    static const Data& get(const TransientObject& o)
    {
        if (o.meta != &Type) ledger.complain("an operator of another type is called");
        if (!ledger.live.count(o.data)) ledger.complain("an operator is called for an object that is not alive");
        return *(const Data*)o.data;
    }
    void* init() const override { auto d = new Data(); ledger.add(d, 0); return d; }
    void* copy(void* p) const override
    {
        if (!p || !ledger.live.count(p)) { ledger.complain("an object was copied that is not alive"); return nullptr; }
        ledger.copyFails();
        auto d = new Data(*(Data*)p);
        ledger.add(d, d->payload);
        return d;
    }
    void deinit(void* p) const override { ledger.remove(p); delete (Data*)p; }
    static TransientObject make(int64_t n)
    {
        TransientObject o(&Type);
        auto d = (Data*)o.data;
        d->payload = n;
        d->text = std::string(n & 31, 'x');
        ledger.live[d] = n;
        return o;
    }
    Value unaryOp(std::string_view op, const TransientObject& o) const override
    {
        if (op == "string") return Value::make("raw" + std::to_string(get(o).payload));
        if (op == "~") raise<std::runtime_error>("no ~");
        if (op == "?") return Value::t();
        if (op == "typeof") return Value::make(std::string("raw"));
        return Value::make(make(get(o).payload + 1));
    }
    Value binaryOp(std::string_view op, const TransientObject& l, const Value& r) const override
    {
        if (op == "==") return Value::make(r.isa(ValueType::TransientObject) && r.as<ValueType::TransientObject>().meta == &Type && get(r.as<ValueType::TransientObject>()).payload == get(l).payload);
        if (op == "^") return Value::make(TransientObject(l));
        return Value::make(make(get(l).payload * 2));
    }
    Value binaryOp(std::string_view op, const Value& l, const TransientObject& r) const override
    {
        if (op == "/") return l;
        return Value::make(make(get(r).payload * 3));
    }
    void unpack(const TransientObject& o, std::function<bool(Value)> cb) const override
    {
        for (int k = 0; k < 3; ++k)
            if (!cb(k == 1 ? Value::make(TransientObject(o)) : Value::make(make(get(o).payload + k)))) return;
    }
};
RawType RawType::Type;

/// A type by the helper template.
struct Tracked
{
    int64_t payload = 0;
    std::vector<int> memory = std::vector<int>(5);
    Tracked() { ledger.add(this, 0); }
    Tracked(const Tracked& o) : payload(o.payload), memory(o.memory)
    {
        if (!ledger.live.count(&o)) ledger.complain("an object was copied that is not alive");
        ledger.copyFails();
        ledger.add(this, payload);
    }
    Tracked& operator=(const Tracked&) = delete;
    ~Tracked() { ledger.remove(this); }
};
struct TrackedType : TypedMetaType<Tracked>
{
    static TrackedType Type;
    TrackedType() : TypedMetaType("tracked") {}
    using TypedMetaType::unaryOp;
    using TypedMetaType::binaryOp;
    static TransientObject make(int64_t n)
    {
        TransientObject o(&Type);
        Type.get(o)->payload = n;
        ledger.live[o.data] = n;
        return o;
    }
    Value unaryOp(std::string_view op, const Tracked& o) const override
    {
        if (!ledger.live.count(&o)) ledger.complain("an operator is called for an object that is not alive");
        if (op == "string") return Value::make("tracked" + std::to_string(o.payload));
        if (op == "?") return Value::make(o.payload != 0);
        if (op == "~") raise<std::runtime_error>("no ~");
        return Value::make(make(o.payload + 1));
    }
    Value binaryOp(std::string_view, const Tracked& l, const Value&) const override { return Value::make(make(l.payload * 2)); }
    Value binaryOp(std::string_view, const Value&, const Tracked& r) const override { return Value::make(make(r.payload * 3)); }
    void unpack(const Tracked& o, std::function<bool(Value)> cb) const override
    {
        for (int k = 0; k < 3; ++k) if (!cb(Value::make(make(o.payload + k)))) return;
    }
};
TrackedType TrackedType::Type;

/// What a value should be.
struct Shadow
{
    enum K { Null, Undef, Bool, Int, Float, Str, View, Raw, Typed, Node, Moved } k = Null;
    int64_t n = 0;
    double f = 0;
    std::string s;
    size_t node = 0;
};

struct Docs
{
    std::shared_ptr<ModelPool> pool;
    std::vector<ModelNode::Ptr> nodes;
    std::vector<std::string> json;
    std::list<std::string> texts; // what views refer to
};

Value make(Rng& r, Docs& d, Shadow& s)
{
    s = {};
    s.k = (Shadow::K)r.below(10);
    s.n = r.range(-1000, 1000);
    switch (s.k) {
    case Shadow::Null: return Value::null();
    case Shadow::Undef: return Value::undef();
    case Shadow::Bool: s.n = r.chance(50); return r.chance(50) ? Value::make((bool)s.n) : s.n ? Value::t() : Value::f();
    case Shadow::Int: return r.chance(50) ? Value::make(s.n) : Value(ScalarValueType(s.n));
    case Shadow::Float: s.f = s.n / 8.; return Value::make(s.f);
    case Shadow::Str: s.s = std::string(r.below(60), (char)('a' + r.below(26))); return Value::make(std::string(s.s));
    case Shadow::View:
        s.s = std::string(r.below(60), (char)('A' + r.below(26)));
        d.texts.push_back(s.s);
        return r.chance(50) ? Value::strref(d.texts.back()) : Value::make(std::string_view(d.texts.back()));
    case Shadow::Raw: return Value::make(RawType::make(s.n));
    case Shadow::Typed: return Value::make(TrackedType::make(s.n));
    default: s.node = r.below(d.nodes.size()); return r.chance(50) ? Value::field(d.nodes[s.node]) : Value::field(*d.nodes[s.node]);
    }
}

std::string describe(const Shadow& s)
{
    static const char* names[] = {"null", "undef", "bool", "int", "float", "string", "view", "raw", "typed", "node", "moved"};
    return std::string(names[s.k]) + "(" + (s.k == Shadow::Str || s.k == Shadow::View ? s.s : std::to_string(s.n)) + ")";
}

/// What a visitor is shown.
struct Visitor
{
    std::string operator()(UndefinedType) const { return "undef"; }
    std::string operator()(NullType) const { return "null"; }
    std::string operator()(bool v) const { return v ? "bool(1)" : "bool(0)"; }
    std::string operator()(int64_t v) const { return "int(" + std::to_string(v) + ")"; }
    std::string operator()(double v) const { return "float(" + std::to_string((int64_t)(v * 8)) + ")"; }
    std::string operator()(const std::string& v) const { return "string(" + v + ")"; }
    std::string operator()(const TransientObject& o) const
    {
        return o.meta == &RawType::Type ? "raw(" + std::to_string(RawType::get(o).payload) + ")" : o.meta == &TrackedType::Type ? "typed(" + std::to_string(TrackedType::Type.get(o)->payload) + ")" : "other object";
    }
    std::string operator()(const ModelNode& n) const { return "node(" + n.toJson().dump() + ")"; }
};

/// "" if the value is what it should be.
std::string check(const Value& v, const Shadow& s, Docs& d)
{
    if (s.k != Shadow::Moved) {
        auto want = s.k == Shadow::Null ? "null" : s.k == Shadow::Undef ? "undef" : s.k == Shadow::Float ? "float(" + std::to_string(s.n) + ")" : describe(s);
        if (s.k == Shadow::View) want = "string(" + s.s + ")";
        bool node = s.k == Shadow::Node; // scalars are shown as themselves
        if (node && v.isa(ValueType::Object)) want = "node(" + d.json[s.node] + ")";
        if (node && v.isa(ValueType::Array)) want = "node(" + d.json[s.node] + ")";
        if (!node || v.isa(ValueType::Object) || v.isa(ValueType::Array))
            if (auto got = v.visit(Visitor()); got != want) return "is visited as " + got;
    }
    switch (s.k) {
    case Shadow::Moved: return "";
    case Shadow::Null: return v.isa(ValueType::Null) && v.toString() == "null" ? "" : "is not null";
    case Shadow::Undef: return v.isa(ValueType::Undef) && v.toString() == "undef" ? "" : "is not undef";
    case Shadow::Bool: return v.isa(ValueType::Bool) && v.as<ValueType::Bool>() == (bool)s.n && v.isBool(s.n) && !v.isBool(!s.n) ? "" : "is not the boolean";
    case Shadow::Int: return v.isa(ValueType::Int) && v.as<ValueType::Int>() == s.n && v.toString() == std::to_string(s.n) ? "" : "is not the integer";
    case Shadow::Float: return v.isa(ValueType::Float) && v.as<ValueType::Float>() == s.f ? "" : "is not the float";
    case Shadow::Str: case Shadow::View: return v.isa(ValueType::String) && v.as<ValueType::String>() == s.s && v.toString() == s.s ? "" : "is not the string";
    case Shadow::Raw: case Shadow::Typed: {
        if (!v.isa(ValueType::TransientObject)) return "is not an object";
        auto& o = v.as<ValueType::TransientObject>();
        bool raw = s.k == Shadow::Raw;
        if (o.meta != (raw ? (const MetaType*)&RawType::Type : &TrackedType::Type)) return "has the wrong type";
        auto i = ledger.live.find(o.data);
        if (i == ledger.live.end()) return "refers to a dead object";
        auto payload = raw ? RawType::get(o).payload : TrackedType::Type.get(o)->payload;
        if (payload != s.n || i->second != s.n) return "has the payload " + std::to_string(payload);
        if (v.toString() != (raw ? "raw" : "tracked") + std::to_string(s.n)) return "is rendered as " + v.toString();
        if ((raw ? nullptr : getObject<Tracked>(v, &TrackedType::Type)) != (raw ? nullptr : (const Tracked*)o.data)) return "getObject() finds another object";
        return "";
    }
    case Shadow::Node:
        if (!v.node) return "has no node";
        return v.node->toJson().dump() == d.json[s.node] ? "" : "has the node " + v.node->toJson().dump();
    }
    return "?";
}

/// Objects that are alive should be owned by exactly one of the values.
std::string owners(const std::vector<std::pair<Value, Shadow>>& vs, const std::vector<std::pair<TransientObject, int64_t>>& os)
{
    std::set<const void*> seen;
    size_t n = 0;
    auto own = [&](const TransientObject& o) {
        if (o.data) { ++n; seen.insert(o.data); }
    };
    for (auto& [v, s] : vs)
        if (auto o = std::get_if<TransientObject>(&v.value)) own(*o);
    for (auto& [o, x] : os) own(o);
    if (seen.size() != n) return "two values share an object";
    if (n != ledger.live.size()) return std::to_string(n) + " values own objects, but " + std::to_string(ledger.live.size()) + " are alive";
    return "";
}

struct MakeFn : Function
{
    FnInfo info{"mk", "", ""};
    bool raw = true;
    const FnInfo& ident() const override { return info; }
    Result eval(Context ctx, Value val, const std::vector<ExprPtr>& args, const ResultFn& res) const override
    {
        if (args.empty()) return res(ctx, raw ? Value::make(RawType::make(7)) : Value::make(TrackedType::make(7)));
        return args[0]->eval(ctx, val, LambdaResultFn([&](Context c, Value v) {
            if (v.isa(ValueType::Undef)) return res(c, std::move(v));
            auto n = v.isa(ValueType::Int) ? v.as<ValueType::Int>() % 1000 : 1;
            return res(c, raw ? Value::make(RawType::make(n)) : Value::make(TrackedType::make(n)));
        }));
    }
};

std::string query(Rng& r, int depth)
{
    auto sub = [&] { return query(r, depth - 1); };
    if (depth <= 0) {
        switch (r.below(9)) {
        case 0: return "mk()";
        case 1: return "tk(" + std::to_string(r.below(5)) + ")";
        case 2: return "mk(a)";
        case 3: return "tk(*)";
        case 4: return "raw";
        case 5: return "tracked";
        case 6: return "mk(b.*)";
        case 7: return r.pick({"range(1,3)", "re\"a.*\"", "'text'", "1", "null", "a", "missing"});
        default: return "mk(" + std::to_string(r.below(5)) + ")";
        }
    }
    switch (r.below(17)) {
    case 0: return "(" + sub() + ")...";
    case 1: return "-(" + sub() + ")";
    case 2: return "(" + sub() + " + " + sub() + ")";
    case 3: return "(" + sub() + " == " + sub() + ")";
    case 4: return "arr(" + sub() + ", " + sub() + ")";
    case 5: return "any(" + sub() + ")";
    case 6: return "count(" + sub() + ")";
    case 7: return "trace(" + sub() + ")";
    case 8: return "(" + sub() + " and " + sub() + ")";
    case 9: return "(" + sub() + " or " + sub() + ")";
    case 10: return "sum(" + sub() + ")";
    case 11: return "(" + sub() + " as string)";
    case 12: return "(" + sub() + " ^ " + sub() + ")";
    case 13: return r.chance(20) ? "~(" + sub() + ")" : "(" + sub() + " frobnicate " + sub() + ")";
    case 14: return "(" + sub() + ") frobnicate";
    case 15: return "*{" + sub() + "}";
    default: return "sum(arr(" + sub() + ", " + sub() + "), $sum + $val, " + sub() + ")";
    }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C25").run([](vh::Harness& h, Rng& r, uint64_t i) {
        ledger = {};
        Docs d;
        auto strings = std::make_shared<StringPool>();
        d.pool = std::make_shared<ModelPool>(strings);
        for (auto t : {"{\"a\": 3, \"b\": [1, \"text\", {\"c\": null}], \"d\": 2.5}", "[1, [2, []], {}]", "\"top\"", "70000000000", "{}"}) {
            simfil::json::parse(t, d.pool);
            d.nodes.push_back(d.pool->root(d.nodes.size()));
            d.json.push_back(d.nodes.back()->toJson().dump());
        }
        auto bad = [&](const std::string& key, const std::string& what) { h.violation(key, what); };

        if (i % 2 == 0) {
            // Special members in any order.
            auto uses = d.pool.use_count();
            std::string log;
            std::vector<std::pair<Value, Shadow>> vs;
            std::vector<std::pair<TransientObject, int64_t>> os; // payload; -1000000: moved from
            constexpr int64_t gone = -1000000;
            auto steps = r.range(5, 60);
            bool ok = true;
            for (int k = 0; ok && k < steps; ++k) {
                auto a = vs.empty() ? 0 : r.below(vs.size()), b = vs.empty() ? 0 : r.below(vs.size());
                auto oa = os.empty() ? 0 : r.below(os.size()), ob = os.empty() ? 0 : r.below(os.size());
                auto op = vs.size() < 2 ? 0 : r.below(20);
                bool failing = r.chance(10);
                if (failing) ledger.failIn = (int)r.below(2);
                auto before = ledger.live.size();
                try {
                    switch (op) {
                    case 0: case 1: {
                        // Values are made without copies.
                        ledger.failIn = -1;
                        Shadow s;
                        auto v = make(r, d, s);
                        log += " new " + describe(s);
                        vs.emplace_back(std::move(v), s);
                        break;
                    }
                    case 2: { log += " copy #" + std::to_string(a); Value c(vs[a].first); auto s = vs[a].second; ledger.failIn = -1; vs.emplace_back(std::move(c), s); break; }
                    case 3: case 4: log += " #" + std::to_string(a) + "=#" + std::to_string(b); vs[a].first = vs[b].first; vs[a].second = vs[b].second; break;
                    case 5: {
                        log += " #" + std::to_string(a) + "=move #" + std::to_string(b);
                        ledger.failIn = -1;
                        auto s = vs[b].second;
                        vs[a].first = std::move(vs[b].first);
                        vs[a].second = s;
                        // What is left of text and nodes that are moved is unspecified.
                        if (a != b) vs[b].second.k = Shadow::Moved;
                        else if (s.k == Shadow::Str || s.k == Shadow::Node) vs[a].second.k = Shadow::Moved;
                        break;
                    }
                    case 6: { log += " move #" + std::to_string(a); ledger.failIn = -1; Value m(std::move(vs[a].first)); auto s = vs[a].second; vs[a].second.k = Shadow::Moved; vs.emplace_back(std::move(m), s); break; }
                    case 7: log += " erase #" + std::to_string(a); ledger.failIn = -1; std::swap(vs[a], vs.back()); vs.pop_back(); break;
                    case 8: log += " swap"; ledger.failIn = -1; std::swap(vs[a].first, vs[b].first); std::swap(vs[a].second, vs[b].second); break;
                    case 9: { log += " reallocate"; ledger.failIn = -1; vs.shrink_to_fit(); vs.reserve(vs.capacity() + 1); break; }
                    case 10: { log += " copy all"; auto c = vs; ledger.failIn = -1; vs = std::move(c); break; }
                    case 11: { log += " #" + std::to_string(a) + "=null"; ledger.failIn = -1; vs[a].first = Value::null(); vs[a].second = {}; break; }
                    case 12: { log += " self"; auto& alias = vs[a].first; vs[a].first = alias; break; }
                    // Objects themselves.
                    case 13: { ledger.failIn = -1; auto n = r.range(0, 999); log += " object " + std::to_string(n); os.emplace_back(r.chance(50) ? RawType::make(n) : TrackedType::make(n), n); break; }
                    case 14: if (!os.empty()) { log += " object copy " + std::to_string(oa); TransientObject c(os[oa].first); auto n = os[oa].second; ledger.failIn = -1; os.emplace_back(std::move(c), n); } break;
                    case 15: if (!os.empty()) { log += " object " + std::to_string(oa) + "=" + std::to_string(ob); os[oa].first = os[ob].first; os[oa].second = os[ob].second; } break;
                    case 16: if (!os.empty()) {
                        log += " object " + std::to_string(oa) + "=move " + std::to_string(ob);
                        ledger.failIn = -1;
                        os[oa].first = std::move(os[ob].first);
                        if (oa != ob) {
                            os[oa].second = os[ob].second;
                            // The source is valid, with whatever it holds now.
                            auto& o = os[ob].first;
                            os[ob].second = o.data && ledger.live.count(o.data) ? ledger.live[o.data] : gone;
                        }
                        break;
                    } break;
                    case 17: if (!os.empty()) { log += " object erase " + std::to_string(oa); ledger.failIn = -1; os.erase(os.begin() + oa); } break;
                    case 18: if (!os.empty() && os[oa].second != gone) {
                        log += " #" + std::to_string(a) + "=object " + std::to_string(oa);
                        auto raw = os[oa].first.meta == &RawType::Type;
                        vs[a].first = Value::make(TransientObject(os[oa].first));
                        vs[a].second = {};
                        vs[a].second.k = raw ? Shadow::Raw : Shadow::Typed;
                        vs[a].second.n = os[oa].second;
                    } break;
                    default: {
                        // Optional, list, function.
                        log += " containers";
                        std::optional<Value> x(vs[a].first);
                        x = vs[b].first;
                        x.reset();
                        std::list<Value> l{vs[a].first, vs[b].first};
                        std::function<Value()> f = [c = vs[a].first] { return c; };
                        auto g = f;
                        auto e = check(g(), vs[a].second, d);
                        if (!e.empty()) { bad("value", "a value captured by a function " + e + "; operations:" + log); return; }
                        h.count("containers");
                        break;
                    }
                    }
                    ledger.failIn = -1;
                } catch (const CopyFailed&) {
                    ledger.failIn = -1;
                    log += "(failed)";
                    h.count("failing copies");
                    // Assigning a value may leave the target in an unspecified state, see std::variant; objects keep theirs.
                    if (op == 3 || op == 4 || op == 12) { vs[a].second.k = Shadow::Moved; vs[a].first = Value::null(); }
                    if (op == 2 || op == 10 || op == 14 || op == 19 || op == 15)
                        if (ledger.live.size() != before) { bad("leak", "a failed copy leaves " + std::to_string(ledger.live.size()) + " objects instead of " + std::to_string(before) + "; operations:" + log); return; }
                }
                h.input("operations:" + log);
                h.count("operations");
                if (!ledger.wrong.empty()) { bad("lifetime", ledger.wrong + "; operations:" + log); return; }
                for (auto& [v, s] : vs) {
                    auto e = check(v, s, d);
                    if (!e.empty()) { bad("value", "a value that should be " + describe(s) + " " + e + "; operations:" + log); return; }
                    h.count("value checks");
                }
                for (auto& [o, n] : os) {
                    if (n == gone) continue;
                    auto at = ledger.live.find(o.data);
                    if (!o.meta || at == ledger.live.end() || at->second != n) { bad("object", "an object has lost its payload " + std::to_string(n) + "; operations:" + log); return; }
                }
                auto e = owners(vs, os);
                if (!e.empty()) { bad("owners", e + "; operations:" + log); return; }
            }
            vs.clear();
            os.clear();
            if (!ledger.live.empty() || ledger.created != ledger.destroyed) { bad("leak", std::to_string(ledger.live.size()) + " objects remain; operations:" + log); return; }
            if (!ledger.wrong.empty()) { bad("lifetime", ledger.wrong + "; operations:" + log); return; }
            if (d.pool.use_count() != uses) { bad("pool", "values that are gone keep the model alive; operations:" + log); return; }
            h.count("histories");
            h.distinct(log);
            h.sample(log);
            return;
        }

        // Values that pass through queries.
        auto q = query(r, (int)r.range(0, 3));
        h.input(q);
        MakeFn mk, tk;
        tk.info.ident = "tk";
        tk.raw = false;
        auto uses = d.pool.use_count();
        {
            auto env = std::make_unique<Environment>(strings);
            env->functions["mk"] = &mk;
            env->functions["tk"] = &tk;
            env->constants.emplace("raw", Value::make(RawType::make(5)));
            env->constants.emplace("tracked", Value::make(TrackedType::make(6)));
            std::vector<Value> kept;
            ExprPtr e;
            try {
                if (r.chance(10)) ledger.failIn = (int)r.below(20);
                e = compile(*env, q, r.chance(20));
                ledger.failIn = -1;
                h.count("compiled");
                for (int round = 0; round < 3; ++round) {
                    auto stopAfter = r.chance(30) ? (int)r.below(4) : -1;
                    if (r.chance(20)) ledger.failIn = (int)r.below(20);
                    auto root = d.nodes[r.below(2)];
                    Context ctx(env.get());
                    size_t n = 0;
                    std::vector<Value> got;
                    (void)e->eval(ctx, Value::field(root), LambdaResultFn([&](Context, Value v) {
                        got.push_back(std::move(v));
                        return (int)++n > stopAfter && stopAfter >= 0 ? Result::Stop : Result::Continue;
                    }));
                    ledger.failIn = -1;
                    for (auto& v : got) {
                        (void)v.toString();
                        if (kept.size() < 50) kept.push_back(v);
                    }
                    h.count("evaluated");
                    if (n) h.count("results", n);
                }
            } catch (const CopyFailed&) {
                h.count("evaluations with a failing copy");
            } catch (const std::exception&) {
                h.count("evaluations with an error");
            }
            ledger.failIn = -1;
            if (!ledger.wrong.empty()) { bad("lifetime", ledger.wrong + "; query " + q); return; }
            // Results outlive expression and environment.
            std::vector<std::string> before, after;
            for (auto& v : kept) before.push_back(v.toString());
            e.reset();
            env.reset();
            for (auto& v : kept) after.push_back(v.toString());
            if (before != after) { bad("outlive", "results change when the expression is destroyed; query " + q); return; }
            std::set<const void*> owned;
            size_t objects = 0;
            for (auto& v : kept)
                if (auto o = std::get_if<TransientObject>(&v.value); o && o->data && (o->meta == &RawType::Type || o->meta == &TrackedType::Type)) { owned.insert(o->data); ++objects; }
            if (owned.size() != objects || ledger.live.size() != objects) { bad("leak", std::to_string(objects) + " results own objects, but " + std::to_string(ledger.live.size()) + " are alive; query " + q); return; }
        }
        if (!ledger.live.empty() || ledger.created != ledger.destroyed) { bad("leak", std::to_string(ledger.live.size()) + " objects remain; query " + q); return; }
        if (!ledger.wrong.empty()) { bad("lifetime", ledger.wrong + "; query " + q); return; }
        if (d.pool.use_count() != uses) { bad("pool", "results that are gone keep the model alive; query " + q); return; }
        if (ledger.created > 0) h.count("objects in queries", ledger.created);
        h.distinct(q);
    });
}
