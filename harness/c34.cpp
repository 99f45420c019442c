// C34: whatever is allocated is released.
//
// Every scenario is run three times with the same choices: what the second run leaves behind, the third must not
// leave behind again (the first may fill what is built once per program).
#include "heap.hpp"
#include "qgen.hpp"
#include "lexgen.hpp"
#include "modelgen.hpp"
#include "simfil/function.h"
#include "simfil/overlay.h"
#include "simfil/parser.h"
#include "simfil/typed-meta-type.h"
#include "simfil/exception-handler.h"
#include "simfil/model/arena.h"
#include "simfil/model/json.h"
#include <sstream>
#include <thread>
using namespace gen;
using simfil::Result;
using simfil::Value;

namespace {

struct Refused : std::runtime_error { using std::runtime_error::runtime_error; };

/// A type that owns memory and refuses some operators.
struct Blob { std::vector<std::string> text = std::vector<std::string>(2, std::string(30, 'b')); };
struct BlobType : simfil::TypedMetaType<Blob>
{
    BlobType() : TypedMetaType("blob") {}
    using TypedMetaType<Blob>::unaryOp;
    using TypedMetaType<Blob>::binaryOp;
    using TypedMetaType<Blob>::unpack;
    Value make(size_t n) const
    {
        simfil::TransientObject o(this);
        get(o)->text.resize(n % 5, std::string(50, 'x'));
        return Value(simfil::ValueType::TransientObject, std::move(o));
    }
    Value unaryOp(std::string_view op, const Blob& b) const override
    {
        if (op == "~") throw Refused("no ~");
        if (op == "-") simfil::raise<simfil::InvalidOperandsError>(op);
        if (op == "?") return Value::make(!b.text.empty());
        if (op == "string") return Value::make(std::string(40, 's'));
        return make(b.text.size() + 1);
    }
    Value binaryOp(std::string_view op, const Blob& l, const Value& r) const override
    {
        if (op == "^") throw Refused("no ^");
        return r.isa(simfil::ValueType::Int) ? make((size_t)r.as<simfil::ValueType::Int>()) : make(l.text.size() * 2);
    }
    Value binaryOp(std::string_view op, const Value&, const Blob& r) const override
    {
        if (op == "/") simfil::raise<simfil::InvalidOperandsError>(op);
        return make(r.text.size());
    }
    void unpack(const Blob& b, std::function<bool(Value)> fn) const override
    {
        for (size_t i = 0; i < b.text.size(); ++i) {
            if (i == 3) throw Refused("no more");
            if (!fn(i % 2 ? make(i) : Value::make(std::string(b.text[i])))) return;
        }
    }
} blobT;

/// blob(args...): a blob per value, fails for some values. stop(x, n): the first n values.
struct Fn : simfil::Function
{
    simfil::FnInfo info;
    int kind;
    Fn(const char* n, int k) : info{n, "", ""}, kind(k) {}
    const simfil::FnInfo& ident() const override { return info; }
    Result eval(simfil::Context ctx, Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override
    {
        if (args.empty()) return res(ctx, blobT.make(3));
        int n = 0;
        auto out = Result::Continue;
        for (auto& a : args) {
            auto k = a->eval(ctx, val, simfil::LambdaResultFn([&](simfil::Context c, Value v) {
                ++n;
                if (v.isa(simfil::ValueType::Undef)) return out = res(c, std::move(v));
                if (kind == 0 && v.isa(simfil::ValueType::String) && n > 1) throw Refused("not a string");
                out = res(c, kind == 0 ? blobT.make((size_t)n) : std::move(v));
                return kind == 1 && n == 2 ? Result::Stop : out;
            }));
            if (k == Result::Stop) break;
        }
        return out;
    }
} blobFn("blob", 0), twoFn("two", 1);

struct Scenario
{
    std::string text;            // what is done
    std::map<std::string, uint64_t> counts;
    std::string wrong;           // grows while it is alive
    bool record = false;
    void say(const std::string& s) { if (record && text.size() < 4000) text += s + "; "; }
};

std::string anyQuery(Rng& r, bool ext)
{
    for (;;) {
        QueryGen g{r};
        g.wildness = r.chance(60) ? (int)r.below(90) : 0;
        g.trace = r.chance(20);
        g.constants = r.chance(60);
        Printer pr;
        pr.rng = &r;
        auto q = pr.p(*g.query((int)r.range(1, 4)));
        if (ext) {
            static const char* forms[] = {"blob(%)", "two(%)", "blob(%)...", "two(blob(%)...)", "~blob(%)", "blob(%) ^ 1", "-blob(%)", "blob(%) + (%)", "(%) / blob(2)", "sum(blob(%))",
                                          "*{blob(%)}", "arr(blob(%), mark)", "any(two(%))", "mark foo (%)", "count(blob(1, 'a', %))", "trace(blob(%), 2, 'b')", "cfg.*{two(%)}"};
            std::string f = forms[r.below(std::size(forms))], o;
            for (auto c : f) if (c == '%') o += q; else o += c;
            q = o;
        }
        if (r.chance(20)) q = mutate(r, q);
        if (r.chance(5)) q = tokenSoup(r, 6);
        if (q.size() > 1200) continue;
        if (q.find("range") != std::string::npos && (q.find("0x") != std::string::npos || q.find("0X") != std::string::npos || q.find("00000") != std::string::npos
            || q.find("9223") != std::string::npos || q.find("2147") != std::string::npos || q.find("4611") != std::string::npos))
            continue; // unpacking a huge range takes its time
        return q;
    }
}

void forget(simfil::Environment& env)
{
    decltype(env.warnings)().swap(env.warnings);
    env.traces.clear();
}
void extend(simfil::Environment& env)
{
    env.functions["blob"] = &blobFn;
    env.functions["two"] = &twoFn;
    env.constants.insert_or_assign("mark", blobT.make(4));
}

/// Compile and evaluate; keep the results if asked to.
void once(Scenario& s, simfil::Environment& env, const std::string& q, const simfil::ModelNode& node, bool any, bool wild, std::vector<Value>* keep = nullptr)
{
    try {
        auto e = simfil::compile(env, q, any, wild);
        (void)e->toString();
        ++s.counts["compiled"];
        auto vs = simfil::eval(env, *e, node);
        ++s.counts["evaluated"];
        for (auto& v : vs) (void)v.toString();
        if (keep) for (auto& v : vs) keep->push_back(v);
    } catch (const std::exception&) { ++s.counts["failing"]; }
}

void queries(Scenario& s, Rng& r)
{
    DocGen dg{r};
    auto fx = std::make_unique<Fixture>(r.chance(80) ? dg.obj(0) : dg.doc(), &r);
    std::vector<Value> kept;
    bool ext = r.chance(50);
    if (ext) extend(*fx->env);
    for (int k = 0; k < 6; ++k) {
        auto q = anyQuery(r, ext);
        s.say(q);
        once(s, *fx->env, q, *fx->root(), r.chance(20), r.chance(20), r.chance(50) ? &kept : nullptr);
    }
    if (r.chance(50)) fx->env.reset();
}

/// An environment and a model that live long while the same queries come again and again.
void service(Scenario& s, Rng& r)
{
    DocGen dg{r};
    Fixture fx(dg.obj(0), &r);
    auto cfg = std::make_shared<simfil::ModelPool>(fx.strings);
    cfg->addRoot(store(*dg.obj(0), *cfg, &r));
    bool ext = r.chance(50);
    if (ext) { extend(*fx.env); fx.env->constants.insert_or_assign("cfg", Value::field(*cfg->root(0))); }
    simfil::Debug dbg;
    int depth = 0;
    dbg.evalBegin = [&](const simfil::Expr&, simfil::Context&, Value&, const simfil::ResultFn&) { ++depth; };
    dbg.evalEnd = [&](const simfil::Expr&) { --depth; };
    for (int k = 0; k < 5; ++k) {
        auto q = anyQuery(r, ext);
        bool any = r.chance(20), wild = r.chance(20), compiled = r.chance(50), debug = r.chance(20);
        if (debug) fx.env->debug = &dbg;
        // The same again and again, or with other names and texts every time.
        std::string with = "%";
        if (!compiled && r.chance(40)) {
            static const char* forms[] = {"(%) == '@'", "arr(%, @)", "@ or (%)", "any(arr(%) == re'@')", "trace(%, 2, '@')", "(%).@", "*{@ == (%)}", "@(%)", "count(**.@, %)", "** == '@'", "'@' as re", "split('@', 'n')...", "(%) + '@'", "@ and (%) =~ '@'"};
            with = forms[r.below(std::size(forms))];
        }
        auto fresh = (int)r.below(100000) + 100000;
        auto write = [&] {
            std::string o;
            for (auto c : with)
                if (c == '%') o += q;
                else if (c == '@') o += "name_that_was_never_used_before_" + std::to_string(fresh);
                else o += c;
            ++fresh;
            return o;
        };
        s.say("again and again " + write());
        simfil::ExprPtr e;
        if (compiled) try { e = simfil::compile(*fx.env, q, any, wild); } catch (const std::exception&) {}
        heap::Level after[5];
        for (auto& l : after) {
            if (e) {
                try {
                    for (auto& v : simfil::eval(*fx.env, *e, *fx.root())) (void)v.toString();
                    ++s.counts["evaluated"];
                } catch (const std::exception&) { ++s.counts["failing"]; }
            } else
                once(s, *fx.env, write(), *fx.root(), any, wild);
            forget(*fx.env);
            l = {};
        }
        fx.env->debug = nullptr;
        ++s.counts["repeated queries"];
        if (with != "%") ++s.counts["varied queries"];
        if (!(after[3] == after[4]) && s.wrong.empty())
            s.wrong = "every " + std::string(e ? "evaluation" : "use") + " of " + write() + " leaves " + std::to_string(after[4].blocks - after[3].blocks) + " blocks with " + std::to_string(after[4].bytes - after[3].bytes) + " bytes behind";
    }
}

void models(Scenario& s, Rng& r)
{
    auto strings = std::make_shared<simfil::StringPool>();
    std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
    mg::World w(r, strings, &spelled);
    for (auto n = r.below(60); n > 0; --n) w.step();
    s.say(w.log);
    std::ostringstream out, names;
    w.pool->write(out);
    strings->write(names);
    auto data = out.str();
    for (int k = 0; k < 4; ++k) {
        auto p = r.chance(50) ? std::make_shared<simfil::ModelPool>(r.chance(70) ? strings : std::make_shared<simfil::StringPool>()) : w.pool;
        auto d = data;
        auto cut = r.chance(50);
        if (cut) d.resize(r.below(d.size() + 1));
        s.say(cut ? "load truncated" : "load");
        try { std::istringstream in(d); p->read(in); ++s.counts["loaded"]; } catch (const std::exception&) { ++s.counts["rejected"]; }
        if (!cut) { (void)p->checkForErrors(); if (p->strings() == strings && data.size() < 4000) for (size_t i = 0; i < std::min<size_t>(p->numRoots(), 3); ++i) (void)p->root(i)->toJson(); }
        if (r.chance(30)) {
            s.say("other names");
            try { p->setStrings(r.chance(50) ? strings : std::make_shared<simfil::StringPool>(*strings)); } catch (const std::exception&) {}
        }
        if (r.chance(40)) { s.say("clear"); p->clear(); }
        ++s.counts["models"];
    }
}

/// A model or string pool that is used over and over again with the same content.
void reuse(Scenario& s, Rng& r)
{
    auto strings = std::make_shared<simfil::StringPool>();
    std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
    auto kind = r.below(4);
    auto seed = r.next();
    auto rounds = [&](const char* what, auto round) {
        s.say(what);
        heap::Level after[4];
        for (auto& l : after) { round(); l = {}; }
        ++s.counts["reuses"];
        if (!(after[2] == after[3]) && s.wrong.empty())
            s.wrong = std::string(what) + ": every time leaves " + std::to_string(after[3].blocks - after[2].blocks) + " blocks with " + std::to_string(after[3].bytes - after[2].bytes) + " bytes behind";
    };
    auto named = [&](Rng& q) {
        std::string n = "k" + std::string(q.below(40), 'x') + std::to_string(q.below(60));
        if (q.chance(40)) for (auto& c : n) c = (char)std::toupper((unsigned char)c);
        return n;
    };
    if (kind == 0) {
        auto pool = std::make_shared<simfil::ModelPool>(strings);
        DocGen dg{r};
        auto doc = dg.doc();
        auto text = jsonText(*doc);
        bool import = r.chance(30);
        size_t saved = 0;
        bool grows = false;
        rounds("a model is cleared and filled again", [&] {
            Rng q(seed);
            pool->clear();
            if (import) simfil::json::parse(text, pool);
            else pool->addRoot(store(*doc, *pool, &q));
            (void)pool->checkForErrors();
            // What little is left behind does not need new memory each time, but is saved each time.
            std::ostringstream o;
            pool->write(o);
            if (saved && o.str().size() != saved) grows = true;
            saved = o.str().size();
        });
        if (grows && s.wrong.empty()) s.wrong = "a model that is cleared and filled again is saved in " + std::to_string(saved) + " bytes, not as many as before";
    } else if (kind == 1) {
        rounds("a string pool is asked and told the same names again", [&] {
            Rng q(seed);
            for (int k = 0; k < 40; ++k) { (void)strings->emplace(named(q)); (void)strings->get(named(q)); (void)strings->resolve((simfil::StringId)q.below(300)); }
        });
    } else if (kind == 2) {
        for (int k = 0; k < 30; ++k) (void)strings->emplace(named(r));
        std::ostringstream o;
        strings->write(o, r.chance(50) ? 0 : 150);
        auto d = o.str();
        auto cut = r.chance(30);
        if (cut) d.resize(r.below(d.size() + 1));
        rounds("a string pool reads the same names again", [&] {
            try { std::istringstream in(d); strings->read(in); } catch (const std::exception&) {}
        });
    } else {
        mg::World w(r, strings, &spelled);
        for (auto n = r.below(60); n > 0; --n) w.step();
        std::ostringstream o;
        w.pool->write(o);
        auto d = o.str();
        auto p = std::make_shared<simfil::ModelPool>(strings);
        auto other = std::make_shared<simfil::StringPool>(*strings);
        rounds("a model is loaded again", [&] {
            p->clear();
            std::istringstream in(d);
            p->read(in);
            p->setStrings(other);
            p->setStrings(strings);
        });
    }
}

void imports(Scenario& s, Rng& r)
{
    auto pool = std::make_shared<simfil::ModelPool>();
    for (int k = 0; k < 6; ++k) {
        DocGen dg{r};
        auto text = jsonText(*dg.doc());
        if (r.chance(40)) text = r.chance(50) ? mutate(r, text) : text.substr(0, r.below(text.size()));
        s.say("import " + text);
        auto how = r.below(3);
        try {
            if (how == 0) simfil::json::parse(text, pool);
            else if (how == 1) { std::istringstream in(text); simfil::json::parse(in, pool); }
            else (void)simfil::json::parse(text)->toJson().dump(-1, ' ', true, nlohmann::json::error_handler_t::replace);
            ++s.counts["imported"];
        } catch (const std::exception&) { ++s.counts["refused documents"]; }
    }
    (void)pool->toJson();
}

void pools(Scenario& s, Rng& r)
{
    std::vector<std::shared_ptr<simfil::StringPool>> ps{std::make_shared<simfil::StringPool>()};
    for (auto n = r.range(5, 40); n > 0; --n) {
        auto& p = ps[r.below(ps.size())];
        ++s.counts["pool operations"];
        switch (r.below(8)) {
        case 0: s.say("copy"); ps.push_back(std::make_shared<simfil::StringPool>(*p)); break;
        case 1: {
            std::ostringstream o;
            auto from = r.chance(50) ? 0 : (simfil::StringId)r.range(0, p->highest() + 1);
            p->write(o, from);
            auto d = o.str();
            if (r.chance(50)) d.resize(r.below(d.size() + 1));
            s.say("reload");
            auto q = from ? p : std::make_shared<simfil::StringPool>();
            try { std::istringstream in(d); q->read(in); } catch (const std::exception&) {}
            if (!from) ps.push_back(q);
            break;
        }
        case 2: if (ps.size() > 1) { s.say("destroy"); ps.pop_back(); } break;
        case 3: (void)p->get("k" + std::to_string(r.below(40))); break;
        default: s.say("name"); (void)p->emplace("k" + std::string(r.below(50), 'x') + std::to_string(r.below(40)));
        }
        if (ps.size() > 12) ps.erase(ps.begin());
    }
}

template <class T, size_t Page>
void arena(Scenario& s, Rng& r)
{
    auto a = std::make_unique<simfil::ArrayArena<T, Page, Page>>();
    std::vector<simfil::ArrayIndex> arrays;
    for (auto n = r.range(5, 150); n > 0; --n) {
        ++s.counts["arena operations"];
        if (arrays.empty() || r.chance(15)) { arrays.push_back(a->new_array(r.below(5))); continue; }
        auto i = arrays[r.below(arrays.size())];
        if (r.chance(70)) a->push_back(i, std::vector<T>(1)[0]);
        else if (r.chance(50)) { size_t k = 0; a->iterate(i, [&](T&) { return ++k < 5; }); }
        else try { (void)a->at(i, r.below(20)); } catch (const std::exception&) {}
        if (r.chance(1)) { a->clear(); arrays.clear(); }
        if (r.chance(2)) a->shrink_to_fit();
    }
    s.say("arena");
}

void texts(Scenario& s, Rng& r)
{
    for (int k = 0; k < 8; ++k) {
        auto q = r.chance(50) ? tokenSoup(r, 10) : anyQuery(r, false);
        s.say("tokens of " + q);
        try { for (auto& t : simfil::tokenize(q)) (void)t.toString(); ++s.counts["tokenized"]; } catch (const std::exception&) { ++s.counts["failing"]; }
        try { for (auto& t : simfil::tokenize(q)) { auto c = t; auto m = std::move(c); (void)m.toString(); } } catch (const std::exception&) {}
    }
}

void overlays(Scenario& s, Rng& r)
{
    DocGen dg{r};
    Fixture fx(dg.obj(0), &r);
    auto root = Value::field(*fx.root());
    auto o = simfil::model_ptr<simfil::OverlayNode>::make(root);
    for (int k = 0; k < 5; ++k) {
        o->set(fx.strings->emplace(r.chance(50) ? "$val" : "added" + std::to_string(r.below(3))), r.chance(50) ? root : Value::make(std::string(40, 'v')));
        (void)o->get(fx.strings->get("$val"));
    }
    Value v = Value::field(o);
    auto q = anyQuery(r, false);
    s.say("on an overlay " + q);
    try {
        auto e = simfil::compile(*fx.env, q, false);
        simfil::Context ctx(fx.env.get());
        int n = 0;
        (void)e->eval(ctx, v, simfil::LambdaResultFn([&](simfil::Context, Value x) {
            if (++n == 3) throw Refused("enough");
            return x.isa(simfil::ValueType::Null) ? Result::Stop : Result::Continue;
        }));
        ++s.counts["evaluated"];
    } catch (const std::exception&) { ++s.counts["failing"]; }
}

void threads(Scenario& s, Rng& r)
{
    DocGen dg{r};
    Fixture fx(dg.obj(0), &r);
    std::vector<simfil::ExprPtr> es;
    for (int k = 0; k < 3; ++k) {
        auto q = anyQuery(r, false);
        s.say("concurrently " + q);
        try { es.push_back(simfil::compile(*fx.env, q, false)); } catch (const std::exception&) {}
    }
    std::vector<std::thread> ts;
    for (int t = 0; t < 3; ++t)
        ts.emplace_back([&] {
            for (auto& e : es)
                try { for (auto& v : simfil::eval(*fx.env, *e, *fx.root())) (void)v.toString(); } catch (const std::exception&) {}
        });
    for (auto& t : ts) t.join();
    s.counts["concurrent evaluations"] += 3 * es.size();
}

/// A handler which translates errors, and is replaced while it is in use.
void handlers(Scenario& s, Rng& r)
{
    auto& handler = simfil::ThrowHandler::instance();
    auto payload = std::make_shared<std::string>(100, 'h');
    handler.set([payload](std::string const& type, std::string const& what) { if (type.size() + what.size() > payload->size()) throw Refused(what); });
    queries(s, r);
    texts(s, r);
    handler.set(nullptr);
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C34").run([](vh::Harness& h, Rng& r, uint64_t) {
        struct K { const char* name; void (*run)(Scenario&, Rng&); int weight; };
        static const K kinds[] = {{"queries", queries, 5}, {"long-lived environment", service, 5}, {"models", models, 3}, {"imports", imports, 2}, {"string pools", pools, 2},
                                  {"arena of numbers", arena<int64_t, 8>, 1}, {"arena of objects", arena<std::shared_ptr<int>, 16>, 1}, {"texts", texts, 2},
                                  {"overlays", overlays, 1}, {"threads", threads, 1}, {"handlers", handlers, 1}, {"reuse", reuse, 3}};
        int total = 0;
        for (auto& k : kinds) total += k.weight;
        int n = (int)r.below((uint64_t)total);
        const K* k = kinds;
        while (n >= k->weight) n -= k++->weight;
        auto seed = r.next();
        std::string text;
        auto run = [&](bool record) {
            Scenario s;
            s.record = record;
            Rng q(seed);
            k->run(s, q);
            if (record) {
                text = std::string(k->name) + ": " + s.text;
                for (auto& [c, v] : s.counts) h.count(c, v);
                if (!s.wrong.empty()) h.violation("growth", s.wrong);
            }
        };
        h.input(std::string("first run of ") + k->name);
        run(true);
        h.input(text);
        auto blocks = heap::allocations;
        heap::Level level[3];
        for (auto& l : level) {
            run(false);
            l = {};
        }
        h.count("allocations", (uint64_t)(heap::allocations - blocks));
        h.count(std::string("scenarios: ") + k->name);
        if (!(level[1] == level[2]))
            h.violation("leak", "every run leaves " + std::to_string(level[2].blocks - level[1].blocks) + " blocks with " + std::to_string(level[2].bytes - level[1].bytes) + " bytes behind");
        h.distinct(text);
        h.sample(text.substr(0, 300));
    });
}
