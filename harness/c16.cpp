// C16: string pools map names to ids one-to-one, also under concurrency.
#include "common.hpp"
#include "simfil/model/string-pool.h"
#include <mutex>
#include <sstream>
#include <thread>
using vh::Rng;
using simfil::StringId;
using simfil::StringPool;

namespace {

std::string lower(std::string s)
{
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
    return s;
}

std::string recase(Rng& r, std::string s)
{
    for (auto& c : s)
        if (r.chance(50)) {
            if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
            else if (c >= 'a' && c <= 'z') c = (char)(c - 'a' + 'A');
        }
    return s;
}

std::string randomName(Rng& r)
{
    std::string s;
    switch (r.below(6)) {
    case 0: return "n" + std::to_string(r.below(60));
    case 1:
        for (auto n = r.below(4); n > 0; --n) s += r.pick({'a', 'B', 'c', '_', '0', ' ', '$', 'Z', '@', '[', '`', '{'});
        return s;
    case 2:
        for (auto n = r.below(6); n > 0; --n) s += (char)r.below(256);
        return s;
    case 3: {
        // Long common prefixes and sizes around the small string limit.
        s = std::string(r.pick({7, 14, 15, 16, 17, 40, 300}), 'x');
        if (r.chance(70)) s += (char)('a' + r.below(4));
        return s;
    }
    case 4: return r.pick({std::string("$sum"), std::string("$val"), std::string("$idx"), std::string(""), std::string("$SUM"), std::string("a\0b", 3), std::string("a\0c", 3), std::string("a")});
    default:
        for (auto n = r.range(1, 3); n > 0; --n) s += r.pick({"ab", "ba", "Ab", "name", "id", "\xc3\xa4", "\xc3\x84"});
        return s;
    }
}

/// Reference: what the pool must answer.
struct Model
{
    std::map<std::string, StringId> ids;        // by lower-case text
    std::map<StringId, std::string> texts;      // as first written
};

void history(vh::Harness& h, Rng& r)
{
    StringPool pool;
    Model m;
    for (auto [id, t] : std::initializer_list<std::pair<StringId, const char*>>{{0, ""}, {1, "$sum"}, {2, "$val"}, {3, "$idx"}}) {
        m.ids[t] = id;
        m.texts[id] = t;
    }
    std::vector<std::pair<std::string_view, std::string>> views;
    std::string log;
    uint64_t hash = 0;
    auto bad = [&](const char* key, const std::string& what) { h.violation(key, what + "  after: " + log.substr(log.size() > 600 ? log.size() - 600 : 0)); };
    // Statistics must count every operation exactly once.
    size_t hits = pool.hits(), misses = pool.misses(), bytes = pool.bytes();
    auto stats = [&](const char* what) {
        if (pool.hits() != hits || pool.misses() != misses || pool.bytes() != bytes)
            bad("statistics", std::string("after ") + what + " there are " + std::to_string(pool.hits()) + " hits, " + std::to_string(pool.misses()) + " misses, " + std::to_string(pool.bytes()) + " bytes instead of "
                + std::to_string(hits) + ", " + std::to_string(misses) + ", " + std::to_string(bytes));
        hits = pool.hits(); misses = pool.misses(); bytes = pool.bytes();
        h.count("statistics checked");
    };
    auto steps = r.range(5, 200);
    StringId nextStatic = StringPool::NextStaticId;
    for (int i = 0; i < steps; ++i) {
        auto name = randomName(r);
        if (!m.texts.empty() && r.chance(50)) {
            auto it = m.texts.begin();
            std::advance(it, r.below(m.texts.size()));
            name = recase(r, it->second);
        }
        auto key = lower(name);
        auto known = m.ids.find(key);
        auto size = pool.size();
        auto high = pool.highest();
        auto op = r.below(10);
        hash = vh::hashStr(name, hash + op);
        if (op < 4) {
            log += " emplace" + vh::quote(name);
            h.input(log);
            // The text must be stored, not referred to.
            auto copy = std::make_unique<std::string>(name);
            auto id = pool.emplace(*copy);
            std::fill(copy->begin(), copy->end(), '#');
            copy.reset();
            h.count("emplace");
            if (known != m.ids.end()) {
                h.count("known names");
                if (id != known->second) bad("id", "emplace of " + vh::quote(name) + " gives " + std::to_string(id) + ", it had id " + std::to_string(known->second));
                if (pool.size() != size || pool.highest() != high) bad("grow", "emplace of a known name grows the pool");
                ++hits;
            } else {
                h.count("new names");
                if (m.texts.count(id)) bad("reuse", "new name " + vh::quote(name) + " gets id " + std::to_string(id) + " of " + vh::quote(m.texts[id]));
                if (id < StringPool::FirstDynamicId) bad("static-range", "new name gets static id " + std::to_string(id));
                if (pool.size() != size + 1) bad("size", "size after a new name is " + std::to_string(pool.size()));
                if (pool.highest() < id) bad("highest", "highest() is below an id in use");
                m.ids[key] = id;
                m.texts[id] = name;
                ++misses;
                bytes += name.size();
            }
            stats("interning a name");
        } else if (op < 7) {
            log += " get" + vh::quote(name);
            h.input(log);
            auto id = pool.get(name);
            h.count("get");
            auto want = known != m.ids.end() ? known->second : StringPool::Empty;
            if (id != want) bad("get", "get of " + vh::quote(name) + " gives " + std::to_string(id) + ", expected " + std::to_string(want));
            if (pool.size() != size || pool.highest() != high) bad("lookup-adds", "looking up a name changes the pool");
            hits += known != m.ids.end();
            stats("looking up a name");
        } else if (op < 9) {
            StringId id = r.chance(70) && !m.texts.empty() ? std::next(m.texts.begin(), (long)r.below(m.texts.size()))->first : (StringId)r.below(65536);
            log += " resolve(" + std::to_string(id) + ")";
            h.input(log);
            auto t = pool.resolve(id);
            h.count("resolve");
            auto it = m.texts.find(id);
            if (it == m.texts.end()) {
                if (t) bad("resolve", "unused id " + std::to_string(id) + " resolves to " + vh::quote(*t));
            } else if (!t)
                bad("resolve", "id " + std::to_string(id) + " of " + vh::quote(it->second) + " does not resolve");
            else {
                if (*t != it->second) bad("resolve", "id " + std::to_string(id) + " resolves to " + vh::quote(*t) + " instead of " + vh::quote(it->second));
                views.push_back({*t, it->second});
            }
            if (pool.size() != size || pool.highest() != high) bad("lookup-adds", "resolving an id changes the pool");
            stats("resolving an id");
        } else if (known == m.ids.end() && nextStatic < StringPool::FirstDynamicId && r.chance(40)) {
            log += " static" + vh::quote(name);
            h.input(log);
            pool.addStaticKey(nextStatic, name);
            m.ids[key] = nextStatic;
            m.texts[nextStatic] = name;
            ++nextStatic;
            hits = pool.hits(); misses = pool.misses(); bytes = pool.bytes();
            h.count("static names");
        }
    }
    // Everything at once, including texts handed out earlier.
    for (auto& [id, t] : m.texts) {
        auto v = pool.resolve(id);
        if (!v || *v != t) bad("final", "id " + std::to_string(id) + " no longer resolves to " + vh::quote(t));
        if (pool.get(recase(r, t)) != id) bad("final", "name " + vh::quote(t) + " no longer has id " + std::to_string(id));
    }
    for (auto& [v, t] : views)
        if (v != t) bad("dangling", "a text resolved earlier changed to " + vh::quote(v));
    if (pool.size() != m.ids.size()) bad("size", "pool has " + std::to_string(pool.size()) + " names instead of " + std::to_string(m.ids.size()));
    h.distinct(hash);
    h.sample(log);
    h.count("histories");
}

struct Event { char op; std::string text; StringId id; };

/// Threads intern, look up and resolve at once. `room`: how many ids are left in the pool (all if 0).
void concurrent(vh::Harness& h, Rng& r, unsigned room)
{
    StringPool pool;
    std::map<std::string, StringId> before;
    for (auto t : {"", "$sum", "$val", "$idx"}) before[t] = pool.get(t);
    if (room)
        for (unsigned i = 65535 - StringPool::FirstDynamicId; i > room; --i) {
            auto t = "fill" + std::to_string(i);
            before[t] = pool.emplace(t);
        }
    std::vector<std::string> names;
    for (auto n = r.range(3, 60); n > 0; --n) names.push_back(r.chance(70) ? "k" + std::to_string(n) : randomName(r));
    int threads = (int)r.range(2, 6), ops = (int)r.range(20, 150);
    h.input(std::to_string(threads) + " threads, " + std::to_string(names.size()) + " names, room " + std::to_string(room));
    std::vector<std::vector<Event>> logs(threads);
    std::vector<std::unique_ptr<StringPool>> copies(threads);
    std::atomic<int> ready{0};
    std::mutex mx;
    std::string bad;
    auto fail = [&](const std::string& s) { std::lock_guard g(mx); if (bad.empty()) bad = s; };
    auto worker = [&](int t, uint64_t seed) {
        Rng q(seed);
        auto& log = logs[t];
        std::map<std::string, StringId> mine;
        std::vector<std::pair<std::string_view, std::string>> views;
        ++ready;
        while (ready < threads) std::this_thread::yield();
        for (int i = 0; i < ops; ++i) {
            auto name = recase(q, q.pick(names));
            auto key = lower(name);
            auto op = q.below(12);
            if (op < 5) {
                try {
                    auto id = pool.emplace(name);
                    log.push_back({'e', name, id});
                    if (auto it = mine.find(key); it != mine.end() && it->second != id) fail("id of " + vh::quote(name) + " changed");
                    mine[key] = id;
                } catch (const std::overflow_error&) {
                    log.push_back({'o', name, 0});
                    if (mine.count(key)) fail("interning the known name " + vh::quote(name) + " overflows");
                }
            } else if (op < 8) {
                auto id = pool.get(name);
                log.push_back({'g', name, id});
                if (auto it = mine.find(key); it != mine.end() && it->second != id) fail("lookup of " + vh::quote(name) + " misses its id");
                if (id) mine[key] = id;
            } else if (op < 11 && !mine.empty()) {
                auto it = std::next(mine.begin(), (long)q.below(mine.size()));
                auto v = pool.resolve(it->second);
                if (!v || lower(std::string(*v)) != it->first) fail("id of " + vh::quote(it->first) + " resolves to something else");
                else {
                    log.push_back({'r', std::string(*v), it->second});
                    views.push_back({*v, std::string(*v)});
                }
            } else if (q.chance(30)) {
                switch (q.below(3)) {
                case 0: copies[t] = std::make_unique<StringPool>(pool); break;
                case 1: { std::ostringstream o; pool.write(o); break; }
                default: (void)pool.size(); (void)pool.highest(); (void)pool.bytes(); (void)pool.hits(); (void)pool.misses(); break;
                }
                for (auto& [k, id] : mine)
                    if (copies[t] && copies[t]->get(k) != StringPool::Empty && copies[t]->get(k) != id) fail("a copy made meanwhile has another id for " + vh::quote(k));
            }
            if (q.chance(10)) std::this_thread::yield();
        }
        for (auto& [v, s] : views)
            if (v != s) fail("a resolved text changed");
    };
    auto hits = pool.hits(), misses = pool.misses(), bytes = pool.bytes(), size = pool.size();
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) ts.emplace_back(worker, t, r.next());
    for (auto& t : ts) t.join();
    if (!bad.empty()) h.violation("thread", bad);
    {
        // Every added name is counted as one miss with its size, every other successful emplace or get as one hit.
        auto added = pool.size() - size;
        size_t found = 0, length = 0;
        std::set<StringId> fresh;
        for (auto& log : logs)
            for (auto& e : log) {
                if (e.op == 'e' || (e.op == 'g' && (e.id || e.text.empty()))) ++found;
                if (e.op == 'e' && !before.count(lower(e.text)) && fresh.insert(e.id).second) length += e.text.size();
            }
        if (pool.misses() - misses != added) h.violation("statistics", std::to_string(pool.misses() - misses) + " misses counted for " + std::to_string(added) + " new names");
        if (pool.hits() - hits != found - added) h.violation("statistics", std::to_string(pool.hits() - hits) + " hits counted, there were " + std::to_string(found - added));
        if (pool.bytes() - bytes != length) h.violation("statistics", std::to_string(pool.bytes() - bytes) + " bytes counted for names of " + std::to_string(length));
        h.count("statistics checked");
    }
    // The whole history must be one one-to-one mapping.
    std::map<std::string, StringId> ids = before;
    std::map<StringId, std::string> texts, spelled;
    std::map<StringId, std::set<std::string>> written;
    for (auto& [t, id] : before) texts[id] = t;
    uint64_t hash = r.next(), overflows = 0;
    for (auto& log : logs)
        for (auto& e : log) {
            h.count("concurrent events");
            hash = vh::hashStr(e.text, hash + e.id);
            if (e.op == 'o') { ++overflows; continue; }
            auto key = lower(e.text);
            if (e.id == 0 && !key.empty()) {
                if (e.op == 'e') h.violation("id", "interning " + vh::quote(e.text) + " gives the empty id");
                continue;
            }
            if (e.op == 'r') {
                if (spelled.emplace(e.id, e.text).first->second != e.text) h.violation("spelling", "id " + std::to_string(e.id) + " resolves to different spellings");
            }
            if (e.op == 'e') written[e.id].insert(e.text);
            if (ids.emplace(key, e.id).first->second != e.id) h.violation("two-ids", "name " + vh::quote(e.text) + " has ids " + std::to_string(ids[key]) + " and " + std::to_string(e.id));
            if (texts.emplace(e.id, key).first->second != key) h.violation("two-names", "id " + std::to_string(e.id) + " was given to " + vh::quote(texts[e.id]) + " and " + vh::quote(key));
        }
    for (auto& [id, s] : spelled)
        if (id >= StringPool::FirstDynamicId && !before.count(lower(s)) && !written[id].count(s)) h.violation("spelling", "id " + std::to_string(id) + " resolves to a spelling nobody wrote");
    for (auto& [k, id] : ids) {
        if (pool.get(k) != id) h.violation("lost", "name " + vh::quote(k) + " lost its id");
        auto v = pool.resolve(id);
        if (!v || lower(std::string(*v)) != k) h.violation("lost", "id " + std::to_string(id) + " lost its name");
        for (auto& c : copies)
            if (c) {
                auto cid = c->get(k);
                if (cid != StringPool::Empty && cid != id) h.violation("copy", "a copy has another id for " + vh::quote(k));
                auto cv = c->resolve(id);
                if ((cid == id) != cv.has_value() && !k.empty()) h.violation("copy", "a copy knows only one direction of " + vh::quote(k));
            }
    }
    for (auto& n : names)
        if (!ids.count(lower(n)) && pool.get(n) != StringPool::Empty) h.violation("added", "name " + vh::quote(n) + " was never interned but is there");
    if (pool.size() != ids.size()) h.violation("size", "pool has " + std::to_string(pool.size()) + " names instead of " + std::to_string(ids.size()));
    if (overflows && pool.highest() != 65534) h.violation("overflow", "overflow although the highest id is " + std::to_string(pool.highest()));
    h.count("overflows", overflows);
    h.count("concurrent histories");
    h.distinct(hash);
}

void exhaust(vh::Harness& h, Rng& r)
{
    StringPool pool;
    h.input("exhaust the pool");
    std::vector<std::pair<std::string, StringId>> all;
    std::vector<char> used(65536, 0);
    auto prefix = std::string(1, (char)('a' + r.below(26))) + std::to_string(r.below(1000)) + "_";
    bool over = false;
    for (int i = 0; i < 70000 && !over; ++i) {
        auto t = prefix + std::to_string(i);
        try {
            auto id = pool.emplace(t);
            if (used[id] || id < StringPool::FirstDynamicId) { h.violation("wrap", "name " + vh::quote(t) + " gets the id " + std::to_string(id) + " again"); return; }
            used[id] = 1;
            all.push_back({t, id});
        } catch (const std::exception&) { over = true; }
    }
    if (!over) { h.violation("no-error", "70000 names fit into 16 bit ids"); return; }
    if (all.size() < 65000) h.violation("early", "the pool is full after " + std::to_string(all.size()) + " names");
    auto size = pool.size();
    // Further names keep failing, known ones keep working.
    for (int i = 0; i < 20; ++i) {
        auto t = "more" + std::to_string(r.below(5));
        try {
            auto id = pool.emplace(t);
            h.violation("wrap", "name " + vh::quote(t) + " gets id " + std::to_string(id) + " of a full pool");
        } catch (const std::exception&) {}
        if (pool.get(t) != StringPool::Empty) h.violation("phantom", "a name that did not fit is found");
    }
    if (pool.size() != size) h.violation("phantom", "names that did not fit are counted");
    for (auto& [t, id] : all) {
        if (pool.emplace(t) != id || pool.get(t) != id) h.violation("full", "a known name lost its id in the full pool");
        auto v = pool.resolve(id);
        if (!v || *v != t) h.violation("full", "an id lost its name in the full pool");
    }
    StringPool copy(pool);
    if (!(copy == pool)) h.violation("full", "the copy of a full pool differs");
    h.count("exhausted pools");
    h.distinct(vh::hashStr(prefix));
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C16").run([](vh::Harness& h, Rng& r, uint64_t i) {
#ifdef CONCURRENT
        concurrent(h, r, i % 151 == 7 ? 5 + (unsigned)r.below(30) : 0);
#else
        if (i % 601 == 11) exhaust(h, r);
        else if (i % 11 == 3) concurrent(h, r, 0);
        else history(h, r);
#endif
    });
}
