// C17: copied or reloaded string pools are equal and independent.
#include "common.hpp"
#include "simfil/model/string-pool.h"
#include <sstream>
using vh::Rng;
using simfil::StringId;
using simfil::StringPool;

namespace {

std::string lower(std::string s)
{
    for (auto& c : s)
        if (c >= 'A' && c <= 'Z') c = (char)(c - 'A' + 'a');
    return s;
}

/// A pool together with what it must answer.
struct Tracked
{
    std::unique_ptr<StringPool> pool;
    std::map<std::string, StringId> ids;      // by lower-case text
    std::map<StringId, std::string> texts;
    int origin;                               // pools of one origin share their early history
};

std::string newName(Rng& r)
{
    std::string s;
    switch (r.below(5)) {
    case 0: return "n" + std::to_string(r.below(100));
    case 1:
        for (auto n = r.below(5); n > 0; --n) s += (char)r.below(256);
        return s;
    case 2: return std::string(r.pick({14, 15, 16, 17, 127, 128, 129, 255, 256, 400, 20000}), (char)('A' + r.below(40)));
    case 3: return std::string("a\0", 2) + (char)('a' + r.below(26));
    default: return r.pick({"Name", "ID", "\xc3\xa4", "x y", "a.b", "", "$sum", "\n", "0"}) + std::string(1, (char)('a' + r.below(5)));
    }
}

void add(Rng& r, Tracked& t)
{
    auto s = newName(r);
    if (t.ids.size() < 90 && r.chance(5)) {
        // A further name with a fixed id.
        StringId id = (StringId)(StringPool::NextStaticId + r.below(StringPool::FirstDynamicId - StringPool::NextStaticId));
        if (!t.texts.count(id) && !t.ids.count(lower(s))) {
            t.pool->addStaticKey(id, s);
            t.ids[lower(s)] = id;
            t.texts[id] = s;
            return;
        }
    }
    auto id = t.pool->emplace(s);
    if (t.ids.emplace(lower(s), id).second) t.texts[id] = s;
}

bool check(vh::Harness& h, Rng& r, Tracked& t, const char* key, const std::string& log)
{
    auto bad = [&](const std::string& what) { h.violation(key, what + "  after" + log); return false; };
    auto n = t.pool->size();
    if (n != t.ids.size()) return bad("has " + std::to_string(n) + " names instead of " + std::to_string(t.ids.size()));
    for (auto& [id, s] : t.texts) {
        auto v = t.pool->resolve(id);
        if (!v) return bad("id " + std::to_string(id) + " of " + vh::quote(s) + " does not resolve");
        if (*v != s) return bad("id " + std::to_string(id) + " of " + vh::quote(s) + " resolves to " + vh::quote(*v));
        if (t.pool->get(s) != id) return bad("name " + vh::quote(s) + " has id " + std::to_string(t.pool->get(s)) + " instead of " + std::to_string(id));
        auto low = lower(s);
        if (r.chance(20) && t.pool->get(low) != id) return bad("name " + vh::quote(low) + " is not found");
        h.count("names compared");
    }
    for (int k = 0; k < 5; ++k) {
        StringId id = r.chance(50) ? (StringId)r.below(65536) : (StringId)r.below(200);
        if (!t.texts.count(id) && t.pool->resolve(id)) return bad("unused id " + std::to_string(id) + " resolves");
        auto s = newName(r);
        if (!t.ids.count(lower(s)) && t.pool->get(s) != StringPool::Empty) return bad("name " + vh::quote(s) + " is found without having been added");
    }
    return true;
}

std::string bytes(const StringPool& p, StringId from = {})
{
    std::ostringstream o;
    p.write(o, from);
    return o.str();
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C17").run([](vh::Harness& h, Rng& r, uint64_t i) {
        std::vector<Tracked> ps;
        int origins = 0;
        std::string log;
        auto fresh = [&] {
            Tracked t{std::make_unique<StringPool>(), {}, {}, origins++};
            for (StringId id = 0; id < StringPool::NextStaticId; ++id) {
                t.texts[id] = *t.pool->resolve(id);
                t.ids[lower(t.texts[id])] = id;
            }
            ps.push_back(std::move(t));
        };
        fresh();
        bool full = i % 499 == 17;
        if (full) {
            // Right up to, or close to, the last id.
            auto n = 65535u - StringPool::FirstDynamicId - (unsigned)r.below(3);
            for (unsigned k = 0; k < n; ++k) {
                auto s = "f" + std::to_string(k);
                auto id = ps[0].pool->emplace(s);
                ps[0].ids[s] = id;
                ps[0].texts[id] = s;
            }
            log += " fill";
            h.count("full pools");
        }
        auto steps = full ? r.range(2, 4) : r.range(3, 25);
        uint64_t hash = 0;
        for (int k = 0; k < steps; ++k) {
            auto a = r.below(ps.size());
            auto op = full ? r.range(3, 8) : (int64_t)r.below(12);
            hash = vh::mix(hash ^ (op * 64 + a));
            if (op < 3) {
                auto n = r.range(1, 12);
                log += " add" + std::to_string(n) + "->" + std::to_string(a);
                h.input(log);
                for (; n > 0; --n) add(r, ps[a]);
                hash = vh::mix(hash ^ ps[a].ids.size());
            } else if (op < 5) {
                log += " copy" + std::to_string(a);
                h.input(log);
                Tracked t{std::make_unique<StringPool>(*ps[a].pool), ps[a].ids, ps[a].texts, ps[a].origin};
                if (!(*t.pool == *ps[a].pool)) h.violation("equal", "a copy is not equal to its original  after" + log);
                if (t.pool->highest() != ps[a].pool->highest()) h.violation("highest", "a copy continues with other ids  after" + log);
                if (t.pool->bytes() != ps[a].pool->bytes()) h.violation("bytes", "a copy reports other bytes()  after" + log);
                ps.push_back(std::move(t));
                h.count("copies");
            } else if (op < 7) {
                log += " reload" + std::to_string(a);
                h.input(log);
                auto b = bytes(*ps[a].pool);
                std::istringstream in(b);
                Tracked t{std::make_unique<StringPool>(), ps[a].ids, ps[a].texts, ps[a].origin};
                t.pool->read(in);
                if (!(*t.pool == *ps[a].pool)) h.violation("equal", "a reloaded pool is not equal to its original  after" + log);
                if (bytes(*t.pool) != b) h.violation("bytes", "a reloaded pool writes other bytes  after" + log);
                if (in.peek() != EOF) h.violation("rest", "reading a pool leaves bytes behind  after" + log);
                ps.push_back(std::move(t));
                h.count("reloads");
            } else if (op < 8 && ps[a].pool->highest() < 65000) {
                // Bring a copy up to date with the names added since.
                log += " update" + std::to_string(a);
                h.input(log);
                Tracked t{std::make_unique<StringPool>(*ps[a].pool), {}, {}, ps[a].origin};
                StringId from = (StringId)(t.pool->highest() + 1);
                for (auto n = r.below(10); n > 0; --n) {
                    auto s = newName(r);
                    auto id = ps[a].pool->emplace(s);
                    if (ps[a].ids.emplace(lower(s), id).second) ps[a].texts[id] = s;
                }
                std::istringstream in(bytes(*ps[a].pool, from));
                t.pool->read(in);
                t.ids = ps[a].ids;
                t.texts = ps[a].texts;
                if (!(*t.pool == *ps[a].pool)) h.violation("equal", "an updated pool is not equal to its original  after" + log);
                ps.push_back(std::move(t));
                h.count("updates");
            } else if (op < 10 && ps.size() > 1) {
                log += " destroy" + std::to_string(a);
                h.input(log);
                ps.erase(ps.begin() + (long)a);
                h.count("destroyed");
            } else if (op < 11) {
                log += " truncate" + std::to_string(a);
                h.input(log);
                auto b = bytes(*ps[a].pool);
                auto cut = r.below(b.size());
                std::istringstream in(b.substr(0, cut));
                StringPool t;
                h.count("truncated");
                try {
                    t.read(in);
                    h.violation("truncated", "reading " + std::to_string(cut) + " of " + std::to_string(b.size()) + " bytes does not fail  after" + log);
                } catch (const std::exception&) {}
            } else if (ps.size() < 6)
                fresh();
            if (ps.size() > 6) ps.erase(ps.begin());
            // Two pools differ exactly if their contents do.
            auto c = r.below(ps.size()), d = r.below(ps.size());
            if ((*ps[c].pool == *ps[d].pool) != (ps[c].texts == ps[d].texts))
                h.violation("equality", "operator== is wrong about two pools  after" + log);
            if (!full || k + 1 == steps)
                for (size_t p = 0; p < ps.size(); ++p) {
                    if (full && p > 2) break;
                    if (!check(h, r, ps[p], "content", log + ", pool " + std::to_string(p))) return;
                }
        }
        // All pools continue on their own.
        for (auto& t : ps) {
            if (full) break;
            for (int k = 0; k < 3; ++k) add(r, t);
        }
        for (size_t p = 0; p < ps.size() && !full; ++p)
            if (!check(h, r, ps[p], "content", log + ", extended pool " + std::to_string(p))) return;
        h.distinct(hash);
        h.sample(log);
        h.count("histories");
    });
}
