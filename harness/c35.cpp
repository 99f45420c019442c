// C35: operations that fail midway fail cleanly.
//
// Every operation is run once undisturbed, which yields its result, the state it leaves and the number of points at
// which it can be disturbed (allocations, or calls of user code); then from the same start with a fault at one of them.
#include "heap.hpp"
#include "qgen.hpp"
#include "lexgen.hpp"
#include "modelgen.hpp"
#include "simfil/function.h"
#include "simfil/overlay.h"
#include "simfil/typed-meta-type.h"
#include "simfil/exception-handler.h"
#include "simfil/model/arena.h"
#include "simfil/model/json.h"
#include <sstream>
static_assert(sizeof(nlohmann::json) == 16);
using namespace gen;
using simfil::Result;
using simfil::Value;

namespace {

struct Refused : std::runtime_error { using std::runtime_error::runtime_error; };

// User code fails at its n-th call.
int64_t userCalls = 0, userFailIn = -1;
bool userFailed = false;
void user()
{
    if (userFailIn < 0) { ++userCalls; return; }
    ++userCalls;
    if (userFailIn-- == 0) { userFailed = true; throw Refused("user code"); }
}

/// A type that owns memory and whose operators may fail.
struct Blob
{
    std::vector<std::string> text = std::vector<std::string>(2, std::string(30, 'b'));
};
struct BlobType : simfil::TypedMetaType<Blob>
{
    BlobType() : TypedMetaType("blob") {}
    using TypedMetaType<Blob>::unaryOp;
    using TypedMetaType<Blob>::binaryOp;
    using TypedMetaType<Blob>::unpack;
    Value make(size_t n) const
    {
        simfil::TransientObject o(this);
        get(o)->text.resize(n % 5, std::string(50, 'x'));
        return Value(simfil::ValueType::TransientObject, std::move(o));
    }
    Value unaryOp(std::string_view op, const Blob& b) const override
    {
        user();
        if (op == "-") simfil::raise<simfil::InvalidOperandsError>(op);
        if (op == "?") return Value::make(!b.text.empty());
        if (op == "string") return Value::make(std::string(40, 's'));
        return make(b.text.size() + 1);
    }
    Value binaryOp(std::string_view op, const Blob& l, const Value& r) const override
    {
        user();
        return r.isa(simfil::ValueType::Int) ? make((size_t)r.as<simfil::ValueType::Int>()) : make(l.text.size() * 2);
    }
    Value binaryOp(std::string_view op, const Value&, const Blob& r) const override
    {
        user();
        if (op == "/") simfil::raise<simfil::InvalidOperandsError>(op);
        return make(r.text.size());
    }
    void unpack(const Blob& b, std::function<bool(Value)> fn) const override
    {
        for (size_t i = 0; i < b.text.size(); ++i) {
            user();
            if (!fn(i % 2 ? make(i) : Value::make(std::string(b.text[i])))) return;
        }
    }
} blobT;

struct Fn : simfil::Function
{
    simfil::FnInfo info;
    int kind;
    Fn(const char* n, int k) : info{n, "", ""}, kind(k) {}
    const simfil::FnInfo& ident() const override { return info; }
    Result eval(simfil::Context ctx, Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override
    {
        user();
        if (args.empty()) return res(ctx, blobT.make(3));
        int n = 0;
        auto out = Result::Continue;
        for (auto& a : args) {
            auto k = a->eval(ctx, val, simfil::LambdaResultFn([&](simfil::Context c, Value v) {
                ++n;
                user();
                if (v.isa(simfil::ValueType::Undef)) return out = res(c, std::move(v));
                out = res(c, kind == 0 ? blobT.make((size_t)n) : std::move(v));
                return kind == 1 && n == 2 ? Result::Stop : out;
            }));
            if (k == Result::Stop) break;
        }
        return out;
    }
} blobFn("blob", 0), twoFn("two", 1);

std::string anyQuery(Rng& r, bool ext)
{
    for (;;) {
        QueryGen g{r};
        g.wildness = r.chance(60) ? (int)r.below(60) : 0;
        g.trace = r.chance(20);
        g.constants = r.chance(60);
        Printer pr;
        pr.rng = &r;
        auto q = pr.p(*g.query((int)r.range(1, 4)));
        if (ext) {
            static const char* forms[] = {"blob(%)", "two(%)", "blob(%)...", "two(blob(%)...)", "~blob(%)", "blob(%) ^ 1", "-blob(%)", "blob(%) + (%)", "(%) / blob(2)", "sum(blob(%))",
                                          "*{blob(%)}", "arr(blob(%), mark)", "any(two(%))", "mark foo (%)", "count(blob(1, 'a', %))", "trace(blob(%), 2, 'b')"};
            std::string f = forms[r.below(std::size(forms))], o;
            for (auto c : f) if (c == '%') o += q; else o += c;
            q = o;
        }
        if (r.chance(10)) q = mutate(r, q);
        if (q.size() > 800) continue;
        if (q.find("range") != std::string::npos && (q.find("0x") != std::string::npos || q.find("0X") != std::string::npos || q.find("00000") != std::string::npos
            || q.find("9223") != std::string::npos || q.find("2147") != std::string::npos || q.find("4611") != std::string::npos))
            continue; // unpacking a huge range takes its time
        return q;
    }
}

/// Something with a state, and an operation on it.
struct Subject
{
    virtual ~Subject() = default;
    virtual std::string what() = 0;          // the operation
    virtual void op() = 0;                   // may be disturbed
    virtual std::string result() { return ""; } // of the last successful operation
    virtual std::string state() = 0;         // what may not be half changed
    virtual std::string invariant() { return ""; } // what is wrong
    virtual bool pure() { return false; }    // changes nothing at all, not even capacities
    virtual bool undefinedAfterFailure() { return false; } // the target has no particular state then
    virtual void forget() {}                 // what legitimately stays: results, warnings
    virtual void settle() {}                 // before the operation is repeated
};

/// Names and ids are still one-to-one.
std::string checkNames(simfil::StringPool& p, const std::vector<std::string>& names)
{
    for (auto& n : names)
        if (auto id = p.get(n)) {
            auto t = p.resolve(id);
            if (!t) return "the name " + vh::quote(n) + " has the id " + std::to_string(id) + ", which stands for nothing";
            if (!J::ieq(std::string(*t), n)) return "the name " + vh::quote(n) + " has the id of " + vh::quote(*t);
        }
    for (simfil::StringId id = simfil::StringPool::FirstDynamicId; id <= p.highest(); ++id)
        if (auto t = p.resolve(id))
            if (p.get(*t) != id) return "the id " + std::to_string(id) + " stands for " + vh::quote(*t) + ", which has the id " + std::to_string(p.get(*t));
    return "";
}

struct Query : Subject
{
    std::unique_ptr<Fixture> fx;
    std::string q;
    bool any, wild, ext, onlyEval, debug;
    simfil::ExprPtr expr;
    std::optional<std::vector<Value>> values;
    simfil::Debug dbg;
    Query(Rng& r)
    {
        DocGen dg{r};
        dg.maxNodes = 40;
        fx = std::make_unique<Fixture>(r.chance(80) ? dg.obj(0) : dg.doc(), &r);
        ext = r.chance(40);
        if (ext) {
            fx->env->functions["blob"] = &blobFn;
            fx->env->functions["two"] = &twoFn;
            fx->env->constants.insert_or_assign("mark", blobT.make(4));
        }
        q = anyQuery(r, ext);
        any = r.chance(15);
        wild = r.chance(15);
        onlyEval = r.chance(40);
        debug = r.chance(20);
        if (onlyEval) try { expr = simfil::compile(*fx->env, q, any, wild); } catch (const std::exception&) {}
        dbg.evalBegin = [](const simfil::Expr&, simfil::Context&, Value&, const simfil::ResultFn&) { user(); };
        dbg.evalEnd = [](const simfil::Expr&) {};
        if (debug) fx->env->debug = &dbg;
    }
    std::string what() override { return (onlyEval ? "evaluate " : "compile and evaluate ") + q + "   on   " + jsonText(*fx->doc); }
    void op() override
    {
        if (onlyEval && expr) values = simfil::eval(*fx->env, *expr, *fx->root());
        else {
            auto e = simfil::compile(*fx->env, q, any, wild);
            values = simfil::eval(*fx->env, *e, *fx->root());
        }
    }
    std::string result() override
    {
        std::string t;
        for (auto& v : *values) t += canon(v) + " ";
        return t;
    }
    std::string state() override
    {
        std::ostringstream s;
        fx->strings->write(s);
        fx->pool->write(s);
        s << fx->env->functions.size() << " " << fx->env->constants.size();
        if (expr) s << expr->toString();
        return s.str();
    }
    bool pure() override { return true; }
    void forget() override
    {
        decltype(fx->env->warnings)().swap(fx->env->warnings);
        fx->env->traces.clear();
        values.reset();
    }
};

struct Tokens : Subject
{
    std::string q;
    std::vector<simfil::Token> tokens;
    Tokens(Rng& r) { q = r.chance(50) ? anyQuery(r, false) : tokenSoup(r, 8); }
    std::string what() override { return "tokenize " + q; }
    void op() override { tokens = simfil::tokenize(q); }
    std::string result() override { std::string t; for (auto& x : tokens) t += x.toString() + " "; return t; }
    std::string state() override { return ""; }
    bool pure() override { return true; }
    void forget() override { std::vector<simfil::Token>().swap(tokens); }
};

std::string dump(const nlohmann::json& j) { return j.dump(-1, ' ', true, nlohmann::json::error_handler_t::replace); }

/// A model of random content.
struct ModelSubject : Subject
{
    std::shared_ptr<simfil::StringPool> strings = std::make_shared<simfil::StringPool>();
    std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
    std::unique_ptr<mg::World> w;
    std::vector<std::string> names;
    ModelSubject(Rng& r)
    {
        w = std::make_unique<mg::World>(r, strings, &spelled);
        w->duplicates = false;
        for (auto n = r.below(30); n > 0; --n) w->step();
        if (w->objects.empty()) w->newObject();
        if (w->arrays.empty()) w->newArray();
        for (int n = 0; n < 40; ++n) names.push_back("k" + std::to_string(n));
        for (int n = 0; n < 3; ++n) names.push_back("fresh name " + std::to_string(n));
    }
    std::string state() override
    {
        std::string t = std::to_string(w->pool->numRoots()) + " roots";
        for (size_t i = 0; i < w->pool->numRoots(); ++i) t += " " + dump(w->pool->root(i)->toJson());
        for (auto& [o, m] : w->objects) t += " " + dump(o->toJson());
        for (auto& [a, m] : w->arrays) t += " " + dump(a->toJson());
        return t;
    }
    std::string invariant() override
    {
        auto e = w->pool->checkForErrors();
        if (!e.empty()) return "the model is inconsistent: " + e[0];
        return checkNames(*w->pool->strings(), names);
    }
};

/// One step of building it.
struct Build : ModelSubject
{
    std::string name, text;
    size_t obj, arr, from, kind;
    int64_t number;
    Build(Rng& r) : ModelSubject(r)
    {
        name = r.chance(50) ? "fresh name " + std::to_string(r.below(3)) : r.chance(50) ? "a name that is rather long, as names go" : "k" + std::to_string(r.below(40));
        text = std::string(r.below(80), 't');
        obj = r.below(w->objects.size());
        arr = r.below(w->arrays.size());
        kind = r.below(9);
        number = r.range(-5, 5) * 100000000000;
        from = r.below(w->objects.size());
        if (kind == 3 && mg::World::reaches(w->objects[from].second, w->objects[obj].second)) kind = 0; // no cycles
    }
    std::string what() override
    {
        static const char* names[] = {"add a text", "add a number", "add an object", "adopt members", "append a text", "append an array", "add a root", "add a float", "append a number"};
        return std::string(names[kind]) + " " + vh::quote(name) + " to" + w->log;
    }
    void op() override
    {
        auto& o = *w->objects[obj].first;
        auto& a = *w->arrays[arr].first;
        switch (kind) {
        case 0: o.addField(name, std::string_view(text)); break;
        case 1: o.addField(name, number); break;
        case 2: o.addField(name, w->pool->newObject(3)); break;
        case 3: if (w->objects[from].second->obj.size() < 2) o.extend(w->objects[from].first); break;
        case 4: a.append(std::string_view(text)); break;
        case 5: a.append(w->pool->newArray(3)); break;
        case 6: w->pool->addRoot(w->pool->newValue(std::string_view(text))); break;
        case 7: o.addField(name, (double)number / 3); break;
        default: a.append(number);
        }
    }
};

struct Import : ModelSubject
{
    std::string doc;
    bool stream;
    Import(Rng& r) : ModelSubject(r)
    {
        DocGen dg{r};
        dg.maxNodes = 30;
        doc = jsonText(*dg.doc());
        stream = r.chance(30);
        names.insert(names.end(), {"n", "name", "with space", "o", "list", "t", "y", "a"});
    }
    std::string what() override { return "import " + doc + " into" + w->log; }
    void op() override
    {
        if (stream) { std::istringstream in(doc); simfil::json::parse(in, w->pool); }
        else simfil::json::parse(doc, w->pool);
    }
};

struct OtherNames : ModelSubject
{
    std::shared_ptr<simfil::StringPool> other;
    OtherNames(Rng& r) : ModelSubject(r)
    {
        other = std::make_shared<simfil::StringPool>();
        for (auto n = r.below(8); n > 0; --n) other->emplace("k" + std::to_string(r.below(40)));
    }
    std::string what() override { return "change the string pool of" + w->log; }
    void op() override { w->pool->setStrings(other); }
    std::string state() override
    {
        // The letter case of names may change.
        auto s = ModelSubject::state();
        for (auto& c : s) c = (char)std::tolower((unsigned char)c);
        return s;
    }
    std::string invariant() override
    {
        auto e = checkNames(*strings, names);
        if (e.empty()) e = checkNames(*other, names);
        return e.empty() ? ModelSubject::invariant() : e;
    }
};

struct Export : ModelSubject
{
    std::string text;
    using ModelSubject::ModelSubject;
    std::string what() override { return "export" + w->log; }
    void op() override { text = dump(w->pool->toJson()); }
    std::string result() override { return text; }
    bool pure() override { return true; }
    void forget() override { std::string().swap(text); }
};

struct Save : ModelSubject
{
    std::unique_ptr<std::ostringstream> out;
    using ModelSubject::ModelSubject;
    std::string what() override { return "save" + w->log; }
    void op() override
    {
        out = std::make_unique<std::ostringstream>();
        w->pool->write(*out);
        strings->write(*out);
        if (!*out) throw Refused("stream"); // streams keep their errors for themselves
    }
    std::string result() override { return out->str(); }
    bool pure() override { return true; }
    void forget() override { out.reset(); }
};

struct Load : ModelSubject
{
    std::string data;
    std::shared_ptr<simfil::ModelPool> target;
    bool used;
    Load(Rng& r) : ModelSubject(r)
    {
        std::ostringstream o;
        w->pool->write(o);
        data = o.str();
        target = std::make_shared<simfil::ModelPool>(strings);
        used = r.chance(40);
        if (used) simfil::json::parse("{\"k1\": [1, 2.5, {\"k2\": \"text that is long enough to need memory of its own\"}], \"k3\": -70000}", target);
    }
    std::string what() override { return (used ? "load into a used pool" : "load") + w->log; }
    void op() override { std::istringstream in(data); target->read(in); if (!in) throw Refused("stream"); }
    std::string state() override
    {
        std::ostringstream o;
        target->write(o);
        return o.str();
    }
    bool undefinedAfterFailure() override { return true; }
    void settle() override { target->clear(); }
    std::string invariant() override { return checkNames(*strings, names); }
};

/// Names in string pools.
struct Names : Subject
{
    std::shared_ptr<simfil::StringPool> pool = std::make_shared<simfil::StringPool>(), copy;
    std::vector<std::string> names, used;
    std::string fresh, data;
    int kind;
    Names(Rng& r)
    {
        auto n = r.chance(50) ? r.below(20) : r.below(300);
        for (uint64_t k = 0; k < n; ++k) { names.push_back("n" + std::string(r.below(30), 'n') + std::to_string(k)); pool->emplace(names.back()); }
        fresh = r.chance(50) ? "new" : "a new name which is too long to be stored in place";
        kind = (int)r.below(4);
        auto more = simfil::StringPool(*pool);
        for (int k = 0; k < 5; ++k) { names.push_back("more" + std::string(r.below(30), 'n') + std::to_string(k)); more.emplace(names.back()); }
        std::ostringstream o;
        more.write(o, (simfil::StringId)r.below(2) * (pool->highest() + 1));
        data = o.str();
        names.push_back(fresh);
    }
    std::string what() override
    {
        static const char* ops[] = {"add a name", "copy a pool", "read a pool", "save a pool"};
        return std::string(ops[kind]) + " of " + std::to_string(pool->size()) + " names";
    }
    void op() override
    {
        switch (kind) {
        case 0: (void)pool->emplace(fresh); break;
        case 1: copy = std::make_shared<simfil::StringPool>(*pool); break;
        case 2: { std::istringstream in(data); pool->read(in); if (!in) throw Refused("stream"); break; }
        default: { std::ostringstream o; pool->write(o); if (!o) throw Refused("stream"); }
        }
    }
    std::string result() override
    {
        std::string t;
        if (kind == 1) for (auto& n : names) t += std::to_string(copy->get(n)) + " ";
        return t;
    }
    std::string state() override
    {
        std::string t;
        for (auto& n : names) t += std::to_string(pool->get(n) != 0);
        return t;
    }
    bool undefinedAfterFailure() override { return kind == 2; } // reading part of the names
    std::string invariant() override { return checkNames(*pool, names); }
    bool pure() override { return kind == 1 || kind == 3; }
    void forget() override { copy.reset(); }
};

/// Arrays in an arena.
struct Arena : Subject
{
    using A = simfil::ArrayArena<std::pair<int64_t, int64_t>, 8, 4>;
    A arena;
    std::vector<simfil::ArrayIndex> arrays;
    size_t at;
    bool create;
    int64_t number;
    Arena(Rng& r)
    {
        for (auto n = r.range(3, 60); n > 0; --n) {
            if (arrays.empty() || r.chance(20)) arrays.push_back(arena.new_array(r.below(4)));
            else arena.push_back(arrays[r.below(arrays.size())], {(int64_t)n, 0});
        }
        at = r.below(arrays.size());
        create = r.chance(30);
        number = r.range(0, 100);
    }
    std::string what() override { return std::string(create ? "a new array" : "push back") + " in an arena of " + std::to_string(arrays.size()) + " arrays"; }
    void op() override
    {
        if (create) {
            auto n = arena.new_array((size_t)number % 20);
            arrays.reserve(arrays.size() + 1);
            arrays.push_back(n);
        } else
            arena.push_back(arrays[at], {number, 1});
    }
    std::string state() override
    {
        std::string t;
        for (auto a : arrays) {
            t += std::to_string(arena.size(a)) + ":";
            for (size_t i = 0; i < arena.size(a); ++i) t += std::to_string(arena.at(a, i).first) + ",";
            size_t n = 0;
            arena.iterate(a, [&](auto&) { ++n; });
            t += std::to_string(n) + ";";
        }
        return t;
    }
    // Other arrays still grow, too.
    std::string invariant() override
    {
        for (auto a : arrays) {
            auto n = arena.size(a);
            size_t seen = 0;
            arena.iterate(a, [&](auto&) { ++seen; });
            if (seen != n) return "an array of " + std::to_string(n) + " elements iterates over " + std::to_string(seen);
        }
        return "";
    }
};

struct Plan { const char* name; std::unique_ptr<Subject> (*make)(Rng&); int weight; };
template <class T> std::unique_ptr<Subject> make(Rng& r) { return std::make_unique<T>(r); }

const Plan plans[] = {{"query", make<Query>, 10}, {"tokens", make<Tokens>, 2}, {"build", make<Build>, 4}, {"import", make<Import>, 3}, {"other names", make<OtherNames>, 2},
                      {"export", make<Export>, 1}, {"save", make<Save>, 1}, {"load", make<Load>, 2}, {"names", make<Names>, 4}, {"arena", make<Arena>, 2}};

/// What an undisturbed run does.
struct Reference
{
    bool raised = false;
    std::string what, before, after, result;
    int64_t allocations = 0, calls = 0;
};

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C35").run([](vh::Harness& h, Rng& r, uint64_t) {
        int total = 0;
        for (auto& p : plans) total += p.weight;
        int n = (int)r.below((uint64_t)total);
        const Plan* plan = plans;
        while (n >= plan->weight) n -= plan++->weight;
        auto seed = r.next();
        auto fresh = [&](Rng& q) { q = Rng(seed); return plan->make(q); };

        h.input(std::string("undisturbed ") + plan->name);
        Reference ref;
        {
            Rng q(0);
            auto s = fresh(q);
            ref.what = s->what();
            h.input("undisturbed: " + ref.what);
            ref.before = s->state();
            auto a = heap::allocations;
            userCalls = 0;
            try { s->op(); } catch (const std::exception&) { ref.raised = true; }
            ref.allocations = heap::allocations - a;
            ref.calls = userCalls;
            if (!ref.raised) ref.result = s->result();
            s->forget();
            ref.after = s->state();
            if (auto e = s->invariant(); !e.empty()) h.violation("undisturbed", e);
        }
        h.count("operations");
        h.count(std::string("operations: ") + plan->name);
        if (ref.allocations > 20000) return;

        enum Fault { None, Memory, MemoryOnwards, User };
        struct Bad { const char* key = nullptr; std::string text; };
        auto trial = [&](Fault fault, int64_t at) {
            Bad bad;
            auto complain = [&](const char* key, std::string t) { if (!bad.key) { bad.key = key; bad.text = std::move(t); } };
            Rng q(0);
            auto s = fresh(q);
            s->forget();
            heap::Level level;
            bool raised = false, hit = false, unknown = false;
            std::string error;
            try {
                if (fault == User) { userFailed = false; userFailIn = at; s->op(); }
                else if (fault != None) { heap::Fail f(at, fault == MemoryOnwards); s->op(); }
                else s->op();
            } catch (const std::exception& e) { raised = true; error = e.what(); } catch (...) { raised = unknown = true; }
            userFailIn = -1;
            hit = fault == User ? userFailed : heap::failed;
            if (fault == None) hit = false;
            if (raised) {
                if (unknown) complain("exception", "something that is no exception is thrown");
                if (hit) h.count("failed operations");
                if (!hit && !ref.raised && fault != None) complain("error", "the operation fails for no reason: " + error);
                auto errorLevel = error.capacity(); (void)errorLevel;
                s->forget();
                if (s->pure()) {
                    std::string().swap(error);
                    heap::Level now;
                    if (!(now == level)) complain("leak", "the failed operation leaves " + std::to_string(now.blocks - level.blocks) + " blocks with " + std::to_string(now.bytes - level.bytes) + " bytes behind");
                }
                if (auto e = s->invariant(); !e.empty()) complain("invariant", "afterwards, " + e);
                auto now = s->state();
                bool undone = now == ref.before;
                if (!undone && now != ref.after && !s->undefinedAfterFailure()) complain("half-done", "the failed operation leaves a state that is neither the old nor the new one: " + now.substr(0, 1500) + " instead of " + ref.before.substr(0, 1500));
                if (undone || s->undefinedAfterFailure()) {
                    // The same again, undisturbed.
                    s->settle();
                    bool again = false;
                    std::string text;
                    try { s->op(); } catch (const std::exception& e) { again = true; text = e.what(); }
                    if (again != ref.raised) complain("retry", again ? "after the failure it fails again: " + text : "it succeeds after a failure only");
                    else if (!again && s->result() != ref.result) complain("retry", "after the failure it yields " + s->result().substr(0, 1000) + " instead of " + ref.result.substr(0, 1000));
                    s->forget();
                    if (!bad.key && s->state() != ref.after) complain("retry", "after the failure and another try the state is " + s->state().substr(0, 1500) + " instead of " + ref.after.substr(0, 1500));
                    if (auto e = s->invariant(); !e.empty()) complain("invariant", "after another try, " + e);
                    h.count("retries");
                }
            } else {
                if (hit) h.count("faults without effect");
                if (ref.raised) complain("error-lost", "the operation succeeds although it should fail");
                else if (s->result() != ref.result) complain("result", "the operation yields " + s->result().substr(0, 1000) + " instead of " + ref.result.substr(0, 1000));
                s->forget();
                if (!bad.key && s->state() != ref.after) complain("state", "the state is " + s->state().substr(0, 1500) + " instead of " + ref.after.substr(0, 1500));
                if (auto e = s->invariant(); !e.empty()) complain("invariant", "afterwards, " + e);
            }
            return bad;
        };
        auto report = [&](const Bad& b, Fault f, int64_t at, const char* key = nullptr) {
            auto how = f == User ? "user code fails at call " : f == Memory ? "memory is short at allocation " : f == MemoryOnwards ? "no memory from allocation " : "undisturbed ";
            h.violation(key ? key : b.key, std::string(how) + std::to_string(at) + " of " + std::to_string(f == User ? ref.calls : ref.allocations) + ": " + b.text);
        };
        // Warm up: memory that stays for good, the counters of the harness.
        h.input(ref.what);
        for (auto c : {"failed operations", "retries", "faults without effect", "faults in memory", "faults in user code"}) h.count(c, 0);
        if (auto b = trial(None, 0); b.key) return report(b, None, 0);
        auto explore = [&](Fault f, int64_t points) {
            std::vector<int64_t> at;
            if (points <= 24) for (int64_t k = 0; k < points; ++k) at.push_back(k);
            else for (int k = 0; k < 24; ++k) at.push_back((int64_t)r.below((uint64_t)points));
            for (auto k : at) {
                auto how = f == MemoryOnwards || (f == Memory && r.chance(15)) ? MemoryOnwards : f;
                heap::Level before;
                std::string leaked;
                {
                    auto b = trial(how, k);
                    if (b.key) { report(b, how, k); return; }
                }
                heap::Level after;
                if (!(before == after)) {
                    // What a first failure of its kind sets up stays.
                    heap::Level second;
                    { auto b = trial(how, k); }
                    heap::Level third;
                    if (!(second == third)) return report({"leak", std::to_string(third.blocks - second.blocks) + " blocks with " + std::to_string(third.bytes - second.bytes) + " bytes stay for good"}, how, k);
                }
                h.count(f == User ? "faults in user code" : "faults in memory");
            }
        };
        explore(Memory, ref.allocations);
        if (ref.calls) explore(User, ref.calls);
        h.distinct(ref.what);
        h.sample(ref.what.substr(0, 300));
    });
}
