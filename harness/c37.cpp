// C37: models live exactly as long as somebody uses them; what is compiled and what is computed outlives what it came from.
//
// Holders of all kinds refer to models; they are used and let go in random order while weak pointers tell what is alive.
#include "qgen.hpp"
#include "modelgen.hpp"
#include "simfil/overlay.h"
#include "simfil/function.h"
#include "simfil/model/json.h"
#include <algorithm>
#include <random>
#include <sstream>
using namespace gen;
using simfil::ModelNode;
using simfil::ModelPool;
using simfil::Value;
using mg::M;

namespace {

enum Grip { Never, May, Must };

struct Holder
{
    std::string what;
    Grip model, names; // does it keep the model, the string pool?
    std::shared_ptr<void> thing;
    std::function<bool()> use; // false: it is broken
};

/// Overwrites what was released.
void noise(Rng& r)
{
    std::vector<std::string> junk;
    for (int k = 0; k < 20; ++k) junk.push_back(std::string(r.below(3000), '#'));
    auto p = std::make_shared<ModelPool>();
    for (int k = 0; k < 20; ++k) p->newObject(2)->addField("junk" + std::to_string(k), std::string_view(junk[(size_t)k]));
}

/// A model built in a random way, and nodes taken from it.
void nodes(vh::Harness& h, Rng& r)
{
    auto strings = r.chance(70) ? std::make_shared<simfil::StringPool>() : nullptr;
    std::map<std::string, std::string> spelled{{"", ""}, {"$sum", "$sum"}, {"$val", "$val"}, {"$idx", "$idx"}};
    mg::World w(r, strings, &spelled);
    w.duplicates = false;
    for (auto n = r.range(3, 60); n > 0; --n) w.step();
    if (w.roots.empty()) w.addRoot();
    h.input(w.log);

    std::vector<Holder> held;
    auto checked = [&](const ModelNode::Ptr& p, M* m) {
        // Without help first, then with everything there is to look at.
        if (!p || p->type() != mg::Checker::type(*m) || p->size() != m->size() || !mg::Checker::sameValue(p->value(), *m)) return false;
        for (size_t k = 0; k < std::min<size_t>(m->size(), 20); ++k) {
            auto c = p->at((int64_t)k);
            if (!c || c->type() != mg::Checker::type(*m->at(k)) || !mg::Checker::sameValue(c->value(), *m->at(k))) return false;
        }
        return true;
    };
    std::weak_ptr<ModelPool> model = w.pool;
    std::weak_ptr<simfil::StringPool> names = w.strings;
    auto thorough = [&h, &r, model](const ModelNode::Ptr& p, M* m) {
        auto& pool = *model.lock(); // the pointer is gone again
        mg::Checker c{h, r, pool, "of a node that is all that is left"};
        c.sameAddresses = false; // visited nodes are resolved
        return c.tree(p, *m);
    };
    auto addNode = [&](ModelNode::Ptr p, M* m, std::string how) {
        auto t = std::make_shared<ModelNode::Ptr>(std::move(p));
        held.push_back({"a node (" + how + ")", Must, Must, t, [=] { return checked(*t, m) && thorough(*t, m); }});
    };
    // Somewhere below a root.
    auto walk = [&] {
        auto k = r.below(w.roots.size());
        auto m = w.roots[k];
        auto p = w.pool->root(k);
        std::string how = "root";
        for (auto d = r.below(5); d > 0 && m->size(); --d) {
            auto i = r.below(m->size());
            auto c = m->at(i);
            ModelNode::Ptr q;
            switch (r.below(6)) {
            case 0: q = p->at((int64_t)i); how += ".at"; break;
            case 1: { size_t n = 0; for (auto x : *p) if (n++ == i) q = x; how += ".begin"; break; }
            case 2: { size_t n = 0; for (auto const& [id, x] : p->fields()) if (n++ == i) q = x; how += ".fields"; break; }
            case 3: { size_t n = 0; p->iterate(ModelNode::IterLambda([&](const ModelNode& x) { if (n++ == i) { q = ModelNode::Ptr(x); return false; } return true; })); how += ".iterate"; break; }
            case 4: if (m->k == M::Obj) { q = p->get(w.strings->get(m->obj[i].first)); how += ".get"; break; } [[fallthrough]];
            default: if (m->k == M::Arr) { q = w.pool->resolveArray(p)->at((int64_t)i); how += ".element"; } else { q = w.pool->resolveObject(p)->at((int64_t)i); how += ".member"; }
            }
            p = q;
            m = c;
        }
        return std::make_tuple(p, m, how);
    };
    for (auto n = r.range(1, 8); n > 0; --n) {
        auto [p, m, how] = walk();
        switch (r.below(7)) {
        case 0: {
            auto o = std::make_shared<Value>(Value::field(p));
            held.push_back({"a value of " + how, Must, Must, o, [o, m = m, checked] { return o->node && checked(o->node, m); }});
            break;
        }
        case 1: if (m->k == M::Obj) {
            auto o = std::make_shared<simfil::model_ptr<simfil::Object>>(w.pool->resolveObject(p));
            held.push_back({"an object of " + how, Must, Must, o, [o, m = m, checked] { return checked(*o, m); }});
            break;
        } [[fallthrough]];
        case 2: if (m->k == M::Arr) {
            auto o = std::make_shared<simfil::model_ptr<simfil::Array>>(w.pool->resolveArray(p));
            held.push_back({"an array of " + how, Must, Must, o, [o, m = m, checked] { return checked(*o, m); }});
            break;
        } [[fallthrough]];
        case 3: {
            // Several copies, from and into each other.
            auto all = std::make_shared<std::vector<ModelNode::Ptr>>();
            for (int k = 0; k < 4; ++k) { all->push_back(p); auto c = all->back(); (*all)[r.below(all->size())] = std::move(c); }
            held.push_back({"copies of " + how, Must, Must, all, [all, m = m, checked] { for (auto& x : *all) if (!checked(x, m)) return false; return true; }});
            break;
        }
        case 4: {
            auto o = std::make_shared<simfil::model_ptr<simfil::OverlayNode>>(simfil::model_ptr<simfil::OverlayNode>::make(Value::field(p)));
            held.push_back({"an overlay of " + how, Must, Must, o, [o, m = m] { 
                if ((*o)->size() != m->size()) return false;
                for (size_t k = 0; k < m->size(); ++k) if (auto c = (*o)->at((int64_t)k); !c || c->type() != mg::Checker::type(*m->at(k)) || !mg::Checker::sameValue(c->value(), *m->at(k))) return false;
                return true;
            }});
            break;
        }
        default: addNode(p, m, how);
        }
        h.count("nodes");
    }
    if (r.chance(30)) {
        auto env = std::make_shared<simfil::Environment>(w.strings);
        held.push_back({"an environment", Never, Must, env, [env] { return env->strings()->resolve(simfil::StringPool::OverlaySum) == std::string_view("$sum"); }});
    }
    // The builder lets go.
    w.objects.clear();
    w.arrays.clear();
    w.pool.reset();
    w.strings.reset();
    strings.reset();

    auto alive = [&](const char* when) {
        Grip m = Never, s = Never;
        for (auto& x : held) { m = std::max(m, x.model); s = std::max(s, x.names); }
        std::string who;
        for (auto& x : held) who += (who.empty() ? "" : ", ") + x.what;
        if (m == Must && model.expired()) { h.violation("died", std::string(when) + " the model is gone although there is still " + who); return false; }
        if (s == Must && names.expired()) { h.violation("names-died", std::string(when) + " the string pool is gone although there is still " + who); return false; }
        if (m == Never && !model.expired()) { h.violation("lives", std::string(when) + " the model is still alive although there is only: " + who); return false; }
        if (s == Never && !names.expired()) { h.violation("names-live", std::string(when) + " the string pool is still alive although there is only: " + who); return false; }
        h.count("observations");
        return true;
    };
    if (!alive("once it is built,")) return;
    while (!held.empty()) {
        auto i = r.below(held.size());
        auto what = held[i].what;
        // Copied and moved around.
        if (r.chance(50)) noise(r);
        if (!held[i].use()) return h.violation("broken", what + " is not what it was");
        h.count("uses");
        held.erase(held.begin() + (long)i);
        if (!alive(("after releasing " + what + ",").c_str())) return;
    }
    h.count("models released");
    h.distinct(w.log);
}

/// What is compiled and what comes out outlives everything.
void results(vh::Harness& h, Rng& r)
{
    DocGen dg{r};
    dg.maxNodes = 60;
    auto doc = dg.obj(0), other = dg.obj(0);
    auto fx = std::make_unique<Fixture>(doc, &r);
    auto cfg = std::make_shared<ModelPool>(fx->strings);
    auto constants = r.chance(40);
    cfg->addRoot(store(*dg.obj(0), *cfg, &r));
    if (constants) {
        fx->env->constants.insert_or_assign("cfg", Value::field(*cfg->root(0)));
        fx->env->constants.insert_or_assign("text", Value::make(std::string("a text that lives in the environment only")));
    }
    std::weak_ptr<ModelPool> model = fx->pool, config = cfg;
    std::weak_ptr<simfil::StringPool> names = fx->strings;

    struct Kept
    {
        std::string query;
        simfil::ExprPtr expr;
        std::string rendering, outcome, elsewhere;
        std::vector<Value> values;
        std::vector<std::string> canons, jsons;
        bool usesConfig = false;
    };
    // Another document of its own, with another environment.
    Fixture fx2(other, &r);
    if (constants) {
        // Constants of another environment are not looked at by what is compiled already.
        fx2.env->constants.insert_or_assign("cfg", Value::make((int64_t)1));
        fx2.env->constants.insert_or_assign("text", Value::make(std::string("another")));
    }
    auto run = [](simfil::Environment& env, const simfil::Expr& e, const ModelNode& root) {
        std::string t;
        try {
            for (auto& v : simfil::eval(env, e, root)) t += canonJson(v) + " ";
        } catch (const std::exception& x) { return "raised " + std::string(x.what()); }
        return t;
    };
    std::vector<Kept> kept;
    for (auto n = r.range(1, 5); n > 0; --n) {
        Kept k;
        QueryGen g{r};
        g.wildness = r.chance(80) ? 0 : 20;
        Printer pr;
        pr.rng = &r;
        k.query = pr.p(*g.query((int)r.range(1, 3)));
        if (k.query.size() > 500) continue;
        if (k.query.find("range") != std::string::npos && (k.query.find("0x") != std::string::npos || k.query.find("00000") != std::string::npos || k.query.find("9223") != std::string::npos
            || k.query.find("2147") != std::string::npos || k.query.find("4611") != std::string::npos || k.query.find("0X") != std::string::npos)) continue;
        if (constants && r.chance(60)) {
            static const char* forms[] = {"cfg.*", "arr(%, cfg)", "cfg.*{_ == 1 or true}", "text", "arr(%, text)", "cfg.**", "text + 'x'", "cfg", "arr(cfg, text, %)"};
            std::string f = forms[r.below(std::size(forms))], o;
            for (auto c : f) if (c == '%') o += k.query; else o += c;
            k.query = o;
            k.usesConfig = true;
        } else if (r.chance(50)) {
            static const char* forms[] = {"**", "*", "_", "l.*", "o", "arr(_, **)", "*{true}", "**{true}", "any(_)", "each(*)"};
            k.query = forms[r.below(std::size(forms))];
        }
        h.input(k.query + "   on   " + jsonText(*doc));
        {
            // The text of the query goes at once.
            auto text = std::make_unique<std::string>(k.query);
            try { k.expr = simfil::compile(*fx->env, *text, r.chance(10), false); } catch (const std::exception&) { h.count("rejected"); continue; }
            std::fill(text->begin(), text->end(), '#');
        }
        k.rendering = k.expr->toString();
        k.outcome = run(*fx->env, *k.expr, *fx->root());
        k.elsewhere = run(*fx2.env, *k.expr, *fx2.root());
        if (k.outcome.rfind("raised", 0) == std::string::npos)
            for (auto& v : simfil::eval(*fx->env, *k.expr, *fx->root())) {
                if (k.values.size() >= 200) break;
                if (!v.node && std::holds_alternative<std::string_view>(v.value)) continue; // a name, which is the string pool's
                k.values.push_back(v);
                k.canons.push_back(canon(v));
                k.jsons.push_back(canonJson(v));
            }
        kept.push_back(std::move(k));
    }
    auto traces = fx->env->traces;
    // Everything goes, in any order.
    std::vector<int> order{0, 1, 2};
    std::shuffle(order.begin(), order.end(), std::mt19937_64(r.next()));
    for (auto o : order)
        switch (o) {
        case 0: fx->env.reset(); break;
        case 1: { fx->pool.reset(); break; }
        default: cfg.reset();
        }
    fx->strings.reset();
    traces.clear();
    fx.reset();
    noise(r);
    while (!kept.empty()) {
        auto i = r.below(kept.size());
        auto& k = kept[i];
        h.input("what is left of " + k.query + "   on   " + jsonText(*doc));
        bool modelNeeded = false;
        for (auto& x : kept)
            for (auto& v : x.values)
                if (v.type == simfil::ValueType::Object || v.type == simfil::ValueType::Array) {
                    if (!x.usesConfig) modelNeeded = true;
                }
        if (modelNeeded && (model.expired() || names.expired())) return h.violation("died", "the model is gone although there are still results that are nodes of it");
        auto dropExpr = r.chance(50);
        auto useExpr = [&] {
            if (k.expr->toString() != k.rendering) { h.violation("expression", "the expression reads " + k.expr->toString() + " instead of " + k.rendering); return false; }
            auto e = run(*fx2.env, *k.expr, *fx2.root());
            if (e != k.elsewhere) { h.violation("expression", "the expression yields " + e.substr(0, 1000) + " instead of " + k.elsewhere.substr(0, 1000)); return false; }
            h.count("expressions");
            return true;
        };
        if (!dropExpr && !useExpr()) return;
        if (dropExpr) k.expr.reset();
        for (size_t n = 0; n < k.values.size(); ++n) {
            auto& v = k.values[n];
            if (canon(v) != k.canons[n]) return h.violation("value", "a result was " + k.canons[n].substr(0, 500) + " and is now " + canon(v).substr(0, 500));
            if (canonJson(v) != k.jsons[n]) return h.violation("value", "a result was " + k.jsons[n].substr(0, 500) + " and is now " + canonJson(v).substr(0, 500));
            h.count(v.node ? "node results" : "results");
        }
        h.distinct(k.query + k.outcome);
        kept.erase(kept.begin() + (long)i);
        if (r.chance(50)) noise(r);
    }
    if (!model.expired()) return h.violation("lives", "the model is still there although all results and expressions are gone");
    if (!config.expired()) return h.violation("lives", "the model of a constant is still there although everything is gone");
    if (!names.expired()) return h.violation("names-live", "the string pool is still there although everything is gone");
    h.count("sessions released");
}

/// Traces hold on to what they saw, errors and tokens own their texts.
void rest(vh::Harness& h, Rng& r)
{
    DocGen dg{r};
    auto doc = dg.obj(0);
    auto fx = std::make_unique<Fixture>(doc, &r);
    std::weak_ptr<ModelPool> model = fx->pool;
    std::string q = r.pick({"trace(**, 1000, 'all')", "trace(*, 1000, 'all')", "trace(_, 1000, 'all')", "trace(*{true}, 1000, 'all')", "trace(keys(_), 1000, 'all')", "trace(keys(**), 1000, 'all')", "trace(split('a bit of text,that has commas,in it which are many', ',')..., 1000, 'all')", "trace(** as string, 1000, 'all')"});
    h.input(q + "   on   " + jsonText(*doc));
    {
        auto e = simfil::compile(*fx->env, q, false);
        (void)simfil::eval(*fx->env, *e, *fx->root());
    }
    auto traces = std::make_unique<decltype(fx->env->traces)>(fx->env->traces);
    std::vector<std::string> before, after;
    bool nodes = false;
    for (auto& v : (*traces)["all"].values) { before.push_back(canonJson(v)); nodes |= v.type == simfil::ValueType::Object || v.type == simfil::ValueType::Array; }
    fx.reset();
    noise(r);
    if (nodes && model.expired()) return h.violation("died", "the model is gone although it was traced");
    for (auto& v : (*traces)["all"].values) { after.push_back(canonJson(v)); h.count("traced"); }
    if (before != after) return h.violation("trace", "traced values have changed");
    traces.reset();
    if (!model.expired()) return h.violation("lives", "the model is still there although nothing is left that uses it");

    for (int k = 0; k < 5; ++k) {
        auto text = std::make_unique<std::string>("'a text of some length' + name_of_some_length." + std::to_string(r.below(1000)) + " == re'expression of length' " + std::string(r.below(3), '!'));
        h.input(*text);
        std::vector<simfil::Token> ts;
        std::vector<std::string> want;
        std::exception_ptr error;
        std::string message;
        try {
            ts = simfil::tokenize(*text);
            for (auto& t : ts) want.push_back(t.toString());
        } catch (const std::exception& x) { error = std::current_exception(); message = x.what(); }
        std::fill(text->begin(), text->end(), '#');
        text.reset();
        for (size_t n = 0; n < ts.size(); ++n) if (ts[n].toString() != want[n]) return h.violation("token", "a token has changed from " + want[n] + " to " + ts[n].toString());
        if (error) try { std::rethrow_exception(error); } catch (const std::exception& x) { if (message != x.what()) return h.violation("error", "an error has changed"); }
        h.count(error ? "errors" : "token lists");
    }
    h.distinct(q + jsonText(*doc));
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C37").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto kind = r.below(10);
        if (kind < 5) nodes(h, r);
        else if (kind < 9) results(h, r);
        else rest(h, r);
    });
}
