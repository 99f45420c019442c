// C36: size does not matter. Long arrays, many members, deep documents, long texts, long queries and models with
// hundreds of thousands of entries are treated like small ones: what comes out is compared with what is known in closed
// form, and the number of evaluation steps with the size of query and data.
#include "qgen.hpp"
#include "heap.hpp"
#include "simfil/function.h"
#include "simfil/model/json.h"
#include "simfil/overlay.h"
#include "simfil/token.h"
#include <pthread.h>
#include <sstream>
using simfil::Environment;
using simfil::ModelNode;
using simfil::ModelPool;
using simfil::StringPool;
using simfil::Value;
using simfil::ValueType;
using std::string;
using std::to_string;
using vh::Rng;

namespace {

bool big = false; // thorough

/// Sizes around the powers of two, and others of all magnitudes.
int64_t size(Rng& r, int64_t max, int64_t min = 0)
{
    int64_t n;
    if (r.chance(50)) {
        auto bits = 0;
        while (((int64_t)1 << (bits + 1)) <= max) ++bits;
        n = ((int64_t)1 << (r.chance(50) ? bits - (int64_t)r.below(3) : r.range(1, bits))) + r.range(-2, 2);
    } else if (r.chance(50))
        n = r.range(min, max);
    else
        n = (int64_t)std::exp(r.below(1000) / 1000.0 * std::log((double)max + 1));
    return std::clamp(n, min, max);
}

string shorten(string s) { return s.size() > 300 ? s.substr(0, 200) + " ...[" + to_string(s.size()) + "]... " + s.substr(s.size() - 60) : s; }

struct Doc
{
    vh::Harness& h;
    std::shared_ptr<StringPool> strings = std::make_shared<StringPool>();
    std::shared_ptr<ModelPool> pool = std::make_shared<ModelPool>(strings);
    Environment env{strings};
    simfil::Debug dbg;
    uint64_t steps = 0, bytes = 0; // taken by the last query; of text in the document
    string title;
    size_t root = 0;

    Doc(vh::Harness& h, string t) : h(h), title(std::move(t))
    {
        dbg.evalBegin = [this](const simfil::Expr&, simfil::Context&, Value&, const simfil::ResultFn&) { ++steps; };
        dbg.evalEnd = [](const simfil::Expr&) {};
        h.input(title);
    }
    std::optional<std::vector<Value>> eval(const string& q)
    {
        h.input(shorten(q) + "   on   " + title);
        h.count("queries");
        try {
            auto e = simfil::compile(env, q, false);
            env.debug = &dbg;
            steps = 0;
            auto b = heap::requested;
            auto v = simfil::eval(env, *e, *pool->root(root));
            b = heap::requested - b;
            if (auto most = 1000000 + 1500 * (steps + v.size()) + 100 * bytes; b > most) {
                h.violation("effort", shorten(q) + " on " + title + " allocates " + to_string(b) + " bytes in " + to_string(steps) + " steps for " + to_string(v.size()) + " values");
                env.debug = nullptr;
                return {};
            }
            h.count("bytes allocated", b);
            env.debug = nullptr;
            h.count("steps", steps);
            return v;
        } catch (const std::exception& x) {
            env.debug = nullptr;
            h.violation("error", shorten(q) + " on " + title + " raises " + shorten(x.what()));
            return {};
        }
    }
    template <class T>
    bool is(const string& q, T want, double maxSteps = 0)
    {
        auto v = eval(q);
        if (!v) return false;
        auto fail = [&](string what) {
            h.violation("result", shorten(q) + " on " + title + " yields " + what);
            return false;
        };
        if (v->size() != 1) return fail(to_string(v->size()) + " values");
        auto& x = v->front();
        if constexpr (std::is_same_v<T, bool>) {
            if (!x.isa(ValueType::Bool) || x.as<ValueType::Bool>() != want) return fail(shorten(gen::canon(x)) + " instead of " + (want ? "true" : "false"));
        } else if constexpr (std::is_integral_v<T>) {
            if (!x.isa(ValueType::Int) || x.as<ValueType::Int>() != (int64_t)want) return fail(shorten(gen::canon(x)) + " instead of " + to_string(want));
        } else {
            if (!x.isa(ValueType::String)) return fail(shorten(gen::canon(x)) + " instead of a text");
            if (auto s = x.as<ValueType::String>(); s != want) {
                size_t k = 0;
                while (k < s.size() && k < want.size() && s[k] == want[k]) ++k;
                return fail("a text of length " + to_string(s.size()) + " instead of " + to_string(want.size()) + ", different from position " + to_string(k));
            }
        }
        if (maxSteps > 0 && steps > maxSteps) {
            h.violation("steps", shorten(q) + " on " + title + " takes " + to_string(steps) + " evaluation steps");
            return false;
        }
        h.count("answers");
        return true;
    }
    /// Many values, all of which are known.
    bool all(const string& q, size_t n, const std::function<bool(size_t, const Value&)>& ok, double maxSteps = 0)
    {
        auto v = eval(q);
        if (!v) return false;
        if (v->size() != n) {
            h.violation("result", shorten(q) + " on " + title + " yields " + to_string(v->size()) + " values instead of " + to_string(n));
            return false;
        }
        for (size_t k = 0; k < n; ++k)
            if (!ok(k, (*v)[k])) {
                h.violation("result", shorten(q) + " on " + title + ": value " + to_string(k) + " is " + shorten(gen::canon((*v)[k])));
                return false;
            }
        h.count("values", n);
        if (maxSteps > 0 && steps > maxSteps) {
            h.violation("steps", shorten(q) + " on " + title + " takes " + to_string(steps) + " evaluation steps");
            return false;
        }
        h.count("answers");
        return true;
    }
    bool load(const string& json)
    {
        try {
            simfil::json::parse(json, pool);
            return true;
        } catch (const std::exception& x) {
            h.violation("error", title + " cannot be read: " + shorten(x.what()));
            return false;
        }
    }
};

bool isInt(const Value& v, int64_t want) { return v.isa(ValueType::Int) && v.as<ValueType::Int>() == want; }
bool isText(const Value& v, const string& want) { return v.isa(ValueType::String) && v.as<ValueType::String>() == want; }

/// An array with very many elements.
void wide(vh::Harness& h, Rng& r)
{
    auto n = size(r, big ? 1100000 : 140000, 1);
    auto base = r.pick({(int64_t)0, (int64_t)1, (int64_t)-70000, (int64_t)65530, (int64_t)1 << 40});
    auto kind = r.below(4); // how it is made
    Doc d(h, to_string(n) + " numbers from " + to_string(base) + (kind == 0 ? " (JSON)" : ""));
    if (kind == 0) {
        string json = "{\"a\":[";
        for (int64_t k = 0; k < n; ++k) json += (k ? "," : "") + to_string(base + k);
        if (!d.load(json + "]}")) return;
    } else {
        auto a = d.pool->newArray(r.pick({(size_t)0, (size_t)1, (size_t)2, (size_t)n, (size_t)(n - 1)}));
        for (int64_t k = 0; k < n; ++k) {
            auto v = base + k;
            if (kind == 1) a->append(v);
            else a->append(d.pool->newValue(v));
        }
        if (kind == 3) {
            auto b = d.pool->newArray(r.below(3));
            b->extend(a);
            a = b;
        }
        auto o = d.pool->newObject(1);
        o->addField("a", a);
        d.pool->addRoot(o);
        d.root = d.pool->numRoots() - 1;
    }
    auto sum = base * n + n * (n - 1) / 2;
    auto k = r.chance(50) ? n - 1 : (int64_t)r.below((uint64_t)n);
    auto K = to_string(base + k);
    auto work = (double)n * 8 + 60;
    for (int q = 0; q < 5; ++q)
        switch (r.below(15)) {
        case 0: if (!d.is("#a", n, 20)) return; break;
        case 1: if (!d.is("sum(a.*)", sum, work)) return; break;
        case 2: if (!d.is("a[" + to_string(k) + "]", base + k, 20)) return; break;
        case 3: if (!d.is("count(a.* == " + K + ")", 1, work)) return; break;
        case 4: if (!d.is("a.*{_ == " + K + "}", base + k, work)) return; break;
        case 5: if (!d.is("any(a.* == " + K + ")", true, 8.0 * (double)k + 60)) return; break; // and no further
        case 6: if (!d.is("each(a.* != " + K + ")", false, 8.0 * (double)k + 60)) return; break;
        case 7: if (!d.is("each(a.* >= " + to_string(base) + ")", true, work)) return; break;
        case 8: if (!d.is("sum(a.*, $sum + $idx, 0)", n * (n - 1) / 2, work)) return; break;
        case 9: if (!d.is("count(**)", n + 2, work)) return; break;
        case 10: if (!d.all("a.*", (size_t)n, [&](size_t i, const Value& v) { return isInt(v, base + (int64_t)i); }, work)) return; break;
        case 11: if (!d.all("arr(a.*)", (size_t)n, [&](size_t i, const Value& v) { return isInt(v, base + (int64_t)i); }, work)) return; break;
        case 12: if (!d.all("(a.* - " + to_string(base) + ") as string", (size_t)n, [&](size_t i, const Value& v) { return isText(v, to_string(i)); }, work)) return; break;
        case 13: if (!d.all("a.*{_ >= " + K + "} - " + K, (size_t)(n - k), [&](size_t i, const Value& v) { return isInt(v, (int64_t)i); }, work)) return; break;
        default: if (!d.all("**", (size_t)n + 2, [&](size_t i, const Value& v) { return i < 2 || isInt(v, base + (int64_t)i - 2); }, work)) return;
        }
    auto a = d.pool->root(d.root)->get(d.strings->get("a"));
    if (!a || a->size() != (uint32_t)n) return h.violation("size", "the array has " + to_string(a ? a->size() : 0) + " elements instead of " + to_string(n));
    int64_t i = 0;
    bool good = true;
    a->iterate(ModelNode::IterLambda([&](const ModelNode& x) { auto v = x.value(); good = good && std::holds_alternative<int64_t>(v) && std::get<int64_t>(v) == base + i; ++i; return good; }));
    if (!good || i != n) return h.violation("iterate", "iteration of " + d.title + " goes wrong at " + to_string(i));
    if (a->at(n)) return h.violation("size", "there is an element behind the last of " + to_string(n));
    h.count("elements", (uint64_t)n);
    h.distinct(vh::mix((uint64_t)n * 131 + kind));
}

/// Objects with very many members, and very many objects.
void members(vh::Harness& h, Rng& r)
{
    auto many = r.chance(50);
    auto n = many ? size(r, big ? 600000 : 70000, 1) : size(r, 65400, 1);
    Doc d(h, to_string(n) + (many ? " objects" : " members"));
    auto name = [&](int64_t k) { return "n" + to_string(k * 7919 % 65521); };
    auto work = (double)n * 12 + 80;
    auto k = r.chance(50) ? n - 1 : (int64_t)r.below((uint64_t)n);
    if (many) {
        // Identical names throughout.
        if (r.chance(50)) {
            string json = "[";
            for (int64_t i = 0; i < n; ++i) json += (i ? ",{" : "{") + string("\"id\":") + to_string(i) + ",\"t\":\"x" + to_string(i) + "\",\"o\":{\"v\":" + to_string(i % 7) + "}}";
            if (!d.load(json + "]")) return;
        } else {
            auto a = d.pool->newArray((size_t)r.below(10));
            for (int64_t i = 0; i < n; ++i) {
                auto o = d.pool->newObject(r.below(5)), p = d.pool->newObject(r.below(3));
                p->addField("v", i % 7);
                o->addField("id", i);
                o->addField("t", std::string_view("x" + to_string(i)));
                o->addField("o", p);
                a->append(o);
            }
            d.pool->addRoot(a);
            d.root = d.pool->numRoots() - 1;
        }
        for (int q = 0; q < 4; ++q)
            switch (r.below(9)) {
            case 0: if (!d.is("sum(*.id)", n * (n - 1) / 2, work)) return; break;
            case 1: if (!d.is("*{id == " + to_string(k) + "}.t", "x" + to_string(k), work)) return; break;
            case 2: if (!d.is("_[" + to_string(k) + "].o.v", k % 7, 30)) return; break;
            case 3: if (!d.is("count(*.o.v == 0)", (n + 6) / 7, work)) return; break;
            case 4: if (!d.all("*.t", (size_t)n, [&](size_t i, const Value& v) { return isText(v, "x" + to_string(i)); }, work)) return; break;
            case 5: if (!d.is("count(**.v)", n, work * 3)) return; break;
            case 6: if (!d.is("any(*.id == " + to_string(k) + ")", true, 12.0 * (double)k + 80)) return; break;
            case 7: if (n > 3 && !d.is("sum(*{o.v == 3}.id)", [&] { int64_t s = 0; for (int64_t i = 3; i < n; i += 7) s += i; return s; }(), work)) return; break;
            default: if (!d.is("#_", n, 20)) return;
            }
    } else {
        if (r.chance(50)) {
            string json = "{";
            // The names in an order that is not theirs.
            for (int64_t i = 0; i < n; ++i) json += (i ? "," : "") + ("\"" + name(i) + "\":") + to_string(i);
            if (!d.load(json + "}")) return;
        } else {
            auto o = d.pool->newObject(r.below(4));
            for (int64_t i = 0; i < n; ++i) o->addField(name(i), i);
            d.pool->addRoot(o);
            d.root = d.pool->numRoots() - 1;
        }
        auto p = d.pool->root(d.root);
        if (p->size() != (uint32_t)n) return h.violation("size", "the object has " + to_string(p->size()) + " members instead of " + to_string(n));
        for (int q = 0; q < 4; ++q)
            switch (r.below(8)) {
            case 0: if (!d.is(name(k), k, 20)) return; break;
            case 1: if (!d.is("_['" + name(k) + "']", k, 20)) return; break;
            case 2: if (!d.is("sum(*)", n * (n - 1) / 2, work)) return; break;
            case 3: if (!d.is("#_", n, 20)) return; break;
            case 4: if (!d.is("count(keys(_))", n, work)) return; break;
            case 5: if (!d.is("count(*{_ <= " + to_string(k) + "} >= 0)", k + 1, work)) return; break;
            case 6: if (!d.is(name(k) + " + " + name(0) + " + " + name(n - 1), k + n - 1, 30)) return; break;
            default: if (n <= 2000) {
                // In whatever order: each name once, each value once.
                std::vector<char> seen((size_t)n, 0);
                if (!d.all("keys(_)", (size_t)n, [&](size_t, const Value& v) {
                        if (!v.isa(ValueType::String)) return false;
                        auto id = d.strings->get(v.as<ValueType::String>());
                        auto c = id ? p->get(id) : ModelNode::Ptr();
                        if (!c) return false;
                        auto i = c->value();
                        if (!std::holds_alternative<int64_t>(i)) return false;
                        auto at = (size_t)std::get<int64_t>(i);
                        return at < seen.size() && !seen[at]++ && v.as<ValueType::String>() == name((int64_t)at);
                    }, work)) return;
            }
            }
    }
    h.count("members", (uint64_t)n);
    h.distinct(vh::mix((uint64_t)n * 17 + many));
}

/// Documents within documents.
void deep(vh::Harness& h, Rng& r)
{
    auto n = r.range(1, 150);
    Doc d(h, to_string(n) + " levels");
    auto arrays = r.chance(30), mixed = r.chance(30);
    string json, path, sub;
    auto last = to_string(r.below(100000));
    std::vector<bool> arr;
    for (int64_t k = 0; k < n; ++k) {
        arr.push_back(mixed ? r.chance(50) : arrays);
        json += arr.back() ? "[" : "{\"a\":";
        path += arr.back() ? "[0]" : (path.empty() ? "a" : ".a");
        if (path[0] == '[') path = "_" + path;
        sub += arr.back() ? "[0]" : "['a']";
    }
    json += last;
    for (int64_t k = n; k-- > 0;) json += arr[(size_t)k] ? "]" : "}";
    if (!d.load(json)) return;
    auto want = std::stoll(last);
    if (!d.is(path, want, 8.0 * (double)n + 40)) return;
    if (!d.is("_" + sub, want, 8.0 * (double)n + 40)) return;
    if (!d.is("count(**)", n + 1, 8.0 * (double)n + 80)) return;
    if (!d.all("**", (size_t)n + 1, [&](size_t i, const Value& v) { return (int64_t)i < n ? v.isa(arr[i] ? ValueType::Array : ValueType::Object) : isInt(v, want); }, 8.0 * (double)n + 40)) return;
    string star = "_", braces = "_", cond;
    for (int64_t k = 0; k < n; ++k) star += ".*";
    if (!d.is(star, want, 12.0 * (double)n + 40)) return;
    for (int64_t k = 0; k < n; ++k) braces += "{*";
    for (int64_t k = 0; k < n; ++k) braces += "}";
    // A filter within each level: each finds something that is true.
    if (!d.all(braces, 1, [&](size_t, const Value& v) { return v.isa(arr[0] ? ValueType::Array : ValueType::Object); }, 16.0 * (double)n + 60)) return;
    auto j = d.pool->root(0)->toJson().dump();
    if (j != json) return h.violation("json", "the document becomes " + shorten(j));
    std::stringstream s;
    d.pool->write(s);
    auto copy = std::make_shared<ModelPool>(d.strings);
    copy->read(s);
    if (copy->root(0)->toJson().dump() != json) return h.violation("json", "the loaded document becomes " + shorten(copy->root(0)->toJson().dump()));
    if (!copy->checkForErrors().empty()) return h.violation("errors", "the loaded document has errors: " + copy->checkForErrors()[0]);
    h.count("levels", (uint64_t)n);
    h.distinct(json);
}

/// Long texts in documents, names and queries.
void texts(vh::Harness& h, Rng& r)
{
    auto n = size(r, big ? 4000000 : 700000, 1);
    string t;
    auto unit = r.pick({string("a"), string("ab,"), string("x y "), string("\xc3\xa4"), string("0123456789")});
    while ((int64_t)t.size() < n) t += unit;
    auto mark = r.below(t.size());
    if ((unsigned char)t[mark] < 128) t[mark] = 'Z';
    Doc d(h, "a text of " + to_string(t.size()));
    d.bytes = t.size();
    if (r.chance(50)) {
        if (!d.load("{\"s\":\"" + t + "\",\"t\":\"" + t + "\",\"n\":1}")) return;
    } else {
        auto o = d.pool->newObject(3);
        o->addField("s", std::string_view(t));
        o->addField("t", std::string_view(t));
        o->addField("n", (int64_t)1);
        d.pool->addRoot(o);
        d.root = d.pool->numRoots() - 1;
    }
    auto pieces = std::count(t.begin(), t.end(), ',');
    for (int q = 0; q < 4; ++q)
        switch (r.below(12)) {
        case 0: if (!d.is("s", t, 20)) return; break;
        case 1: if (!d.is("#s", (int64_t)t.size(), 20)) return; break;
        case 2: if (!d.is("s == t", true, 20)) return; break;
        case 3: if (!d.is("s == '" + t + "'", true, 20)) return; break;
        case 4: if (!d.is("s == '" + t + "x'", false, 20)) return; break;
        case 5: if (!d.is("s + '-' + t", t + "-" + t, 20)) return; break;
        case 6: if (!d.is("'" + t + "' + n", t + "1", 20)) return; break;
        case 7: if (!d.is("count(split(s, ',', true))", pieces + 1, 30.0 + 4.0 * (double)pieces)) return; break;
        case 8: if (!d.is("s as string", t, 20)) return; break;
        case 9: if (!d.is("s < t + 'a'", true, 20)) return; break;
        case 10: if (!d.is("\"" + t + "\"", t, 20)) return; break;
        default: {
            auto j = d.pool->root(d.root)->toJson();
            if (j["s"].get<string>() != t || j["t"].get<string>() != t) return h.violation("json", "the JSON of " + d.title + " has another text");
            std::stringstream s;
            d.pool->write(s);
            auto copy = std::make_shared<ModelPool>(d.strings);
            copy->read(s);
            auto x = copy->root(0)->get(d.strings->get("s"))->value();
            if (!std::holds_alternative<std::string_view>(x) || std::get<std::string_view>(x) != t) return h.violation("load", d.title + " is another after loading");
            h.count("answers");
        }
        }
    // As a name, and as other tokens.
    if (t.size() < 60000 && r.chance(60)) {
        string id = "k";
        for (auto c : t) id += std::isalnum((unsigned char)c) && (unsigned char)c < 128 ? c : '_';
        auto o = d.pool->newObject(1);
        o->addField(id, (int64_t)42);
        d.pool->addRoot(o);
        d.root = d.pool->numRoots() - 1;
        if (!d.is(id, 42, 20)) return;
        if (!d.is("_['" + id + "']", 42, 20)) return;
        if (!d.is("keys(_)", id, 20)) return;
        h.count("long names");
    }
    if (r.chance(50)) {
        auto blank = string((size_t)size(r, 300000), r.pick({' ', '\t', '\n'}));
        if (!d.is("1" + blank + "+" + blank + "2", 3, 20)) return;
        if (!d.is(blank + "7", 7, 20)) return;
        if (!d.is("0x" + string((size_t)size(r, 50000), '0') + "ff", 255, 20)) return;
        h.count("long tokens");
    }
    h.count("bytes", t.size());
    h.distinct(vh::hashStr(t));
}

/// Queries with very many operands, arguments, parentheses.
void queries(vh::Harness& h, Rng& r)
{
    auto n = size(r, big ? 8000 : 3000, 1);
    Doc d(h, "a small document");
    if (!d.load("{\"x\":1,\"y\":0,\"a\":[3,4],\"o\":{\"o\":{\"v\":5}}}")) return;
    auto rep = [&](const string& s, int64_t k) { string o; for (; k > 0; --k) o += s; return o; };
    auto work = 16.0 * (double)n + 100; // at most
    for (int q = 0; q < 4; ++q) {
        // Each operator is tried for a constant result while the query is read, which takes time in proportion to its operands.
        auto what = r.below(24);
        auto N = what == 10 || what == 11 ? n : std::min(n, size(r, big ? 1000 : 400, 1));
        switch (what) {
        case 0: if (!d.is("x" + rep(" + x", N), N + 1, work)) return; break;
        case 1: if (!d.is("0" + rep(" + 1", N), N, work)) return; break;
        case 2: if (!d.is("x" + rep(" - x", N), 1 - N, work)) return; break;
        case 3: if (!d.is("y == 1" + rep(" or y == 1", N), false, work)) return; break;
        case 4: if (!d.is("y == 1" + rep(" or y == 1", N) + " or x == 1", true, work)) return; break;
        case 5: if (!d.is("x == 1" + rep(" and x == 1", N) + " and y == 0", true, work)) return; break;
        case 6: if (!d.is(rep("not ", N) + "(x == 1)", N % 2 == 0, work)) return; break;
        case 7: if (!d.is(rep("(", N) + "x + 1" + rep(")", N), 2, work)) return; break;
        case 8: if (!d.is(rep("(", N) + "x" + rep(" + x)", N), N + 1, work)) return; break;
        case 9: if (!d.is(rep("(x + ", N) + "x" + rep(")", N), N + 1, work)) return; break;
        case 10: if (!d.all("arr(x" + rep(", x", N - 1) + ")", (size_t)N, [](size_t, const Value& v) { return isInt(v, 1); }, work)) return; break;
        case 11: {
            string s = "arr(0";
            for (int64_t k = 1; k < N; ++k) s += "," + to_string(k);
            if (!d.all(s + ")", (size_t)N, [](size_t k, const Value& v) { return isInt(v, (int64_t)k); }, work)) return;
            break;
        }
        case 12: if (!d.is(rep("- ", N) + "x", N % 2 ? -1 : 1, work)) return; break;
        case 13: if (!d.is("_" + rep("{x == 1}", N) + ".x", 1, work)) return; break;
        case 14: if (!d.is("o" + rep("{o}", N) + ".o.v", 5, work)) return; break;
        case 15: if (!d.is(rep("count(", N) + "x" + rep(")", N), 1, work)) return; break;
        case 16: if (!d.is(rep("arr(", N) + "x" + rep(")", N), 1, work)) return; break;
        case 17: if (!d.is("count(" + rep("any(", N) + "x == 2" + rep(")", N) + ")", 0, work)) return; break;
        case 18: N = std::min<int64_t>(N, 30); // the name of each is made from its text
            if (!d.is(rep("trace(", N) + "x" + rep(", 1, 'name')", N), 1, work)) return; break;
        case 19: if (!d.is("_" + rep("._", N) + ".x", 1, work)) return; break;
        case 20: if (!d.is("''" + rep(" + 'ab'", N), rep("ab", N), work)) return; break;
        case 21: if (!d.is(rep("sum(", N) + "a.*" + rep(")", N), 7, work)) return; break;
        case 22: if (!d.is("x" + rep(" + 2 * 3 - 6", N / 4), 1, work)) return; break;
        default: if (!d.is("x" + rep(" as string as int", N), 1, work)) return;
        }
    }
    // Tokens, one by one.
    string s;
    for (int64_t k = 0; k < n; ++k) s += (k ? " , " : "") + string("n") + to_string(k) + " " + to_string(k) + " '" + to_string(k) + "'";
    h.input(shorten(s));
    auto t = simfil::tokenize(s);
    if ((int64_t)t.size() != n * 4) return h.violation("tokens", to_string(t.size()) + " tokens instead of " + to_string(n * 4) + " in " + shorten(s));
    size_t at = 0;
    for (int64_t k = 0; k < n; ++k) {
        auto K = to_string(k);
        if (k && t[at++].type != simfil::Token::COMMA) return h.violation("tokens", "no comma " + K);
        auto begin = s.find("n" + K + " ", t[at].begin);
        if (t[at].begin != begin || std::get<string>(t[at].value) != "n" + K) return h.violation("tokens", "token " + to_string(at) + " is not n" + K + " or is not at " + to_string(begin));
        if (std::get<int64_t>(t[at + 1].value) != k || t[at + 1].begin != begin + K.size() + 2) return h.violation("tokens", "token " + to_string(at + 1) + " is not " + K);
        if (std::get<string>(t[at + 2].value) != K || t[at + 2].begin != begin + 2 * K.size() + 3 || t[at + 2].end != begin + 3 * K.size() + 5) return h.violation("tokens", "token " + to_string(at + 2) + " is not '" + K + "'");
        at += 3;
    }
    if (t[at].type != simfil::Token::NIL) return h.violation("tokens", "no end");
    h.count("tokens", t.size());
    h.distinct(vh::mix((uint64_t)n + 1000000));
}

/// Models with many entries of each kind, saved and loaded.
void model(vh::Harness& h, Rng& r)
{
    auto strings = std::make_shared<StringPool>();
    auto pool = std::make_shared<ModelPool>(strings);
    int64_t n[6];
    for (auto& x : n) x = r.chance(45) ? size(r, 40) : size(r, big ? 400000 : 72000);
    string t = "ints, floats, texts, objects, arrays, roots:";
    for (auto x : n) t += " " + to_string(x);
    h.input(t);
    std::vector<std::pair<int, ModelNode::Ptr>> order;
    std::vector<int> kinds;
    std::vector<int64_t> left(n, n + 6);
    std::vector<std::vector<ModelNode::Ptr>> made(6);
    auto stride = r.chance(50) ? 1 : r.range(2, 5000); // so many of a kind at once
    auto text = [](int64_t k) { return "t" + to_string(k * 37) + string((size_t)(k % 5), '+'); };
    for (bool more = true; more;) {
        more = false;
        for (int kind = 0; kind < 6; ++kind)
            for (auto c = stride; c > 0 && left[(size_t)kind] > 0; --c) {
                more = true;
                auto k = n[kind] - left[(size_t)kind]--;
                auto& m = made[(size_t)kind];
                switch (kind) {
                case 0: m.push_back(pool->newValue(((int64_t)1 << 33) + k)); break;
                case 1: m.push_back(pool->newValue((double)k + 0.5)); break;
                case 2: m.push_back(pool->newValue(std::string_view(text(k)))); break;
                case 3: {
                    auto o = pool->newObject((size_t)(k % 4));
                    o->addField("k", ((int64_t)1 << 34) + k);
                    if (!made[2].empty()) o->addField("t", made[2][(size_t)k % made[2].size()]);
                    if (k % 3 == 0 && k > 0) o->addField("o", made[3][(size_t)k / 3]);
                    m.push_back(o);
                    break;
                }
                case 4: {
                    auto a = pool->newArray((size_t)(k % 3));
                    for (int64_t i = 0; i < k % 6; ++i) a->append(i % 2 == 0 && !made[1].empty() ? made[1][(size_t)k % made[1].size()] : pool->newValue(k));
                    m.push_back(a);
                    break;
                }
                default:
                    for (size_t x = 0; x < 5; ++x)
                        if (auto& c = made[((size_t)k + x) % 5]; !c.empty()) { pool->addRoot(c[(size_t)k % c.size()]); m.push_back(c[(size_t)k % c.size()]); break; }
                }
            }
    }
    auto same = [&](const ModelPool& p, const char* when) {
        auto fail = [&](int kind, size_t k) { h.violation("model", "entry " + to_string(k) + " of kind " + to_string(kind) + " is not what was put in, " + when + "; " + t); return false; };
        auto at = [&](const ModelNode::Ptr& x) { return ModelNode::Ptr::make(p.shared_from_this(), x->addr()); };
        auto val = [&](const ModelNode::Ptr& x) { auto q = at(x); return q->value(); };
        for (size_t k = 0; k < made[0].size(); ++k) if (auto v = val(made[0][k]); !std::holds_alternative<int64_t>(v) || std::get<int64_t>(v) != ((int64_t)1 << 33) + (int64_t)k) return fail(0, k);
        for (size_t k = 0; k < made[1].size(); ++k) if (auto v = val(made[1][k]); !std::holds_alternative<double>(v) || std::get<double>(v) != (double)k + 0.5) return fail(1, k);
        for (size_t k = 0; k < made[2].size(); ++k) if (auto v = val(made[2][k]); !std::holds_alternative<std::string_view>(v) || std::get<std::string_view>(v) != text((int64_t)k)) return fail(2, k);
        auto kId = strings->get("k"), oId = strings->get("o");
        for (size_t k = 0; k < made[3].size(); ++k) {
            auto o = at(made[3][k]);
            auto c = o->get(kId);
            if (!c || c->value() != simfil::ScalarValueType(((int64_t)1 << 34) + (int64_t)k)) return fail(3, k);
            if (k % 3 == 0 && k) if (auto s = o->get(oId); !s || !(s->addr() == made[3][k / 3]->addr())) return fail(3, k);
        }
        for (size_t k = 0; k < made[4].size(); ++k) {
            auto a = at(made[4][k]);
            if (a->size() != k % 6) return fail(4, k);
            for (int64_t i = 1; i < (int64_t)(k % 6); i += 2) if (auto e = a->at(i); !e || e->value() != simfil::ScalarValueType((int64_t)k)) return fail(4, k);
        }
        if (p.numRoots() != made[5].size()) return fail(5, p.numRoots());
        for (size_t k = 0; k < made[5].size(); ++k) if (!(p.root(k)->addr() == made[5][k]->addr())) return fail(5, k);
        h.count("entries", made[0].size() + made[1].size() + made[2].size() + made[3].size() + made[4].size() + made[5].size());
        return true;
    };
    if (!same(*pool, "as built")) return;
    if (auto e = pool->checkForErrors(); !e.empty()) return h.violation("errors", "the model has errors: " + e[0]);
    std::stringstream s;
    pool->write(s);
    auto copy = std::make_shared<ModelPool>(strings);
    if (r.chance(30)) copy->newValue((int64_t)1 << 40);
    copy->read(s);
    if (!same(*copy, "after loading")) return;
    if (auto e = copy->checkForErrors(); !e.empty()) return h.violation("errors", "the loaded model has errors: " + e[0]);
    std::stringstream s2;
    copy->write(s2);
    if (s2.str() != s.str()) return h.violation("bytes", "saved again, the model has other bytes; " + t);
    h.count("models");
    h.distinct(t);
}

/// String pools that are nearly full.
void names(vh::Harness& h, Rng& r)
{
    auto n = size(r, 65535 - StringPool::FirstDynamicId, 1);
    h.input(to_string(n) + " names");
    StringPool pool;
    auto name = [](int64_t k) { return "name " + to_string(k * 3) + string((size_t)(k % 11), 'n'); };
    std::vector<simfil::StringId> ids;
    int64_t bytes = 0;
    for (int64_t k = 0; k < n; ++k) { ids.push_back(pool.emplace(name(k))); bytes += (int64_t)name(k).size(); }
    auto same = [&](StringPool& p, const char* when) {
        for (int64_t k = 0; k < n; ++k) {
            if (p.get(name(k)) != ids[(size_t)k] || p.emplace(name(k)) != ids[(size_t)k]) { h.violation("names", "name " + to_string(k) + " of " + to_string(n) + " has another id, " + when); return false; }
            auto s = p.resolve(ids[(size_t)k]);
            if (!s || *s != name(k)) { h.violation("names", "id " + to_string(ids[(size_t)k]) + " of " + to_string(n) + " has another name, " + when); return false; }
        }
        if (p.size() != (size_t)n + 4) { h.violation("names", to_string(p.size()) + " names instead of " + to_string(n + 4) + ", " + when); return false; }
        h.count("names", (uint64_t)n);
        return true;
    };
    if (!same(pool, "as built")) return;
    StringPool copy(pool);
    if (!same(copy, "in a copy")) return;
    std::stringstream s;
    pool.write(s);
    StringPool loaded;
    loaded.read(s);
    if (!same(loaded, "after loading")) return;
    h.distinct(vh::mix((uint64_t)n + 77));
}

/// Traces, warnings and results by the thousand; overlays with many entries.
void rest(vh::Harness& h, Rng& r)
{
    auto n = size(r, big ? 300000 : 70000, 1);
    Doc d(h, to_string(n) + " values in a range");
    auto N = to_string(n - 1);
    auto work = (double)n * 10 + 60;
    d.load("{\"x\":0}");
    for (int q = 0; q < 3; ++q)
        switch (r.below(8)) {
        case 0: if (!d.all("range(x, " + N + ")...", (size_t)n, [](size_t i, const Value& v) { return isInt(v, (int64_t)i); }, work)) return; break;
        case 1: if (!d.is("sum(range(x, " + N + ")...)", n * (n - 1) / 2, work)) return; break;
        case 2: if (!d.is("count(range(x, " + N + ")... >= 0)", n, work)) return; break;
        case 3: {
            auto keep = size(r, n + 5);
            d.env.traces.clear();
            if (!d.all("trace(range(x, " + N + ")..., " + to_string(keep) + ", 'many')", (size_t)n, [](size_t i, const Value& v) { return isInt(v, (int64_t)i); }, work)) return;
            auto& t = d.env.traces["many"];
            if ((int64_t)t.values.size() != std::min(keep, n)) return h.violation("trace", to_string(t.values.size()) + " of " + to_string(n) + " values traced instead of " + to_string(keep));
            for (size_t k = 0; k < t.values.size(); ++k) if (!isInt(t.values[k], (int64_t)k)) return h.violation("trace", "traced value " + to_string(k) + " is another");
            h.count("traced", t.values.size());
            break;
        }
        case 4: {
            d.env.traces.clear();
            if (!d.all("range(x, " + N + ")...{trace(_ >= 0, 0, 'calls')}", (size_t)n, [](size_t i, const Value& v) { return isInt(v, (int64_t)i); }, work)) return;
            if (d.env.traces["calls"].calls != (size_t)n) return h.violation("trace", to_string(d.env.traces["calls"].calls) + " calls instead of " + to_string(n));
            h.count("traced", (uint64_t)n);
            break;
        }
        case 5: {
            d.env.warnings.clear();
            for (int64_t k = 0; k < n; ++k) d.env.warn("warning " + to_string(k), to_string(k));
            if ((int64_t)d.env.warnings.size() != n) return h.violation("warnings", to_string(d.env.warnings.size()) + " of " + to_string(n) + " warnings");
            for (int64_t k = 0; k < n; ++k) if (d.env.warnings[(size_t)k] != std::pair("warning " + to_string(k), to_string(k))) return h.violation("warnings", "warning " + to_string(k) + " is another");
            h.count("warnings", (uint64_t)n);
            break;
        }
        case 6: {
            auto m = std::min<int64_t>(n, 3000);
            string s, last = to_string(m - 1);
            for (int64_t k = 0; k < m; ++k) s += (k ? "," : "") + ("p" + to_string(k));
            if (!d.all("split('" + s + "', ',')...", (size_t)m, [](size_t i, const Value& v) { return isText(v, "p" + to_string(i)); }, work)) return;
            break;
        }
        default: {
            auto m = std::min<int64_t>(n, 5000);
            auto o = simfil::model_ptr<simfil::OverlayNode>::make(Value::field(d.pool->root(0)));
            std::vector<simfil::StringId> ids;
            for (int64_t k = 0; k < m; ++k) { ids.push_back(d.strings->emplace("over" + to_string(k))); o->set(ids.back(), Value::make(k)); }
            for (int64_t k = 0; k < m; ++k) {
                auto c = o->get(ids[(size_t)k]);
                if (!c || c->value() != simfil::ScalarValueType(k)) return h.violation("overlay", "entry " + to_string(k) + " of " + to_string(m) + " is another");
            }
            if (auto c = o->get(d.strings->get("x")); !c || c->value() != simfil::ScalarValueType((int64_t)0)) return h.violation("overlay", "the member beneath " + to_string(m) + " entries is another");
            h.count("overlay entries", (uint64_t)m);
        }
        }
    h.distinct(vh::mix((uint64_t)n + 5000000));
}

int argc_;
char** argv_;

int all()
{
    return vh::Harness(argc_, argv_, "C36").run([](vh::Harness& h, Rng& r, uint64_t) {
        big = h.thorough && r.chance(30);
        auto kind = r.below(20);
        if (kind < 4) wide(h, r);
        else if (kind < 7) members(h, r);
        else if (kind < 10) deep(h, r);
        else if (kind < 12) texts(h, r);
        else if (kind < 16) queries(h, r);
        else if (kind < 17) model(h, r);
        else if (kind < 18) names(h, r);
        else rest(h, r);
    });
}

} // namespace

int main(int argc, char** argv)
{
    argc_ = argc;
    argv_ = argv;
    // Long queries are deep trees, which take a stack in proportion.
    pthread_attr_t a;
    pthread_t t;
    pthread_attr_init(&a);
    pthread_attr_setstacksize(&a, (size_t)1 << 30);
    if (pthread_create(&t, &a, [](void*) -> void* { return (void*)(intptr_t)all(); }, nullptr)) { perror("pthread_create"); return 2; }
    void* rc = nullptr;
    pthread_join(t, &rc);
    return (int)(intptr_t)rc;
}
