// C19: thread-safe array arenas lose nothing under concurrent use.
#define ARRAY_ARENA_THREAD_SAFE
#include "common.hpp"
#include "simfil/model/arena.h"
#include <mutex>
#include <thread>
using vh::Rng;
using simfil::ArrayArena;
using simfil::ArrayIndex;

namespace {

struct Num
{
    uint64_t v = 0;
    static Num of(uint64_t v) { return {v}; }
    bool operator==(const Num& o) const { return v == o.v; }
    uint64_t id() const { return v; }
};

struct Str
{
    std::string v;
    static Str of(uint64_t n) { return {"element " + std::to_string(n)}; }
    bool operator==(const Str& o) const { return v == o.v; }
    uint64_t id() const { return v.empty() ? 0 : std::stoull(v.substr(8)); }
};

template <class T, size_t Page, size_t Chunk>
void run(vh::Harness& h, Rng& r)
{
    using Arena = ArrayArena<T, Page, Chunk>;
    Arena arena;
    struct Owned { ArrayIndex a; std::vector<uint64_t> want; };
    std::mutex mx;
    std::vector<Owned> parked;      // Arrays nobody appends to at the moment.
    std::vector<Owned> finished;    // Arrays nobody appends to any more.
    std::string bad;
    auto fail = [&](const std::string& s) { std::lock_guard g(mx); if (bad.empty()) bad = s; };
    int threads = (int)r.range(2, 6), ops = (int)r.range(10, 150), readers = (int)r.below(3);
    std::atomic<uint64_t> unique{1}, created{0}, appended{0}, read{0}, handed{0};
    std::atomic<int> ready{0};
    h.input(std::to_string(threads) + " writers, " + std::to_string(readers) + " readers, " + std::to_string(ops) + " operations each, pages of " + std::to_string(Page) + "/" + std::to_string(Chunk));

    auto compare = [&](Arena& arena, const Owned& o, Rng& q, const char* who) {
        std::vector<uint64_t> got;
        const Arena& c = arena;
        if (c.size(o.a) != o.want.size()) {
            fail(std::string(who) + ": array " + std::to_string(o.a) + " has " + std::to_string(c.size(o.a)) + " elements instead of " + std::to_string(o.want.size()));
            return;
        }
        switch (q.below(4)) {
        case 0: for (size_t i = 0; i < o.want.size(); ++i) got.push_back(c.at(o.a, i).id()); break;
        case 1: arena.iterate(o.a, [&](T& e) { got.push_back(e.id()); if (q.chance(5)) std::this_thread::yield(); }); break;
        case 2: for (auto it = c.begin(o.a); it != c.end(o.a); ++it) got.push_back((*it).id()); break;
        default: for (auto& e : arena.range(o.a)) got.push_back(e.id()); break;
        }
        if (got != o.want) {
            size_t i = 0;
            while (i < got.size() && i < o.want.size() && got[i] == o.want[i]) ++i;
            fail(std::string(who) + ": array " + std::to_string(o.a) + " of " + std::to_string(o.want.size()) + " elements differs at " + std::to_string(i) + " (" + std::to_string(got.size()) + " read)");
        }
        read += got.size();
        bool thrown = false;
        try { (void)c.at(o.a, o.want.size()); } catch (const std::out_of_range&) { thrown = true; }
        if (!thrown) fail(std::string(who) + ": index past the end of array " + std::to_string(o.a) + " is not rejected");
    };

    auto writer = [&](uint64_t seed) {
        Rng q(seed);
        std::vector<Owned> mine;
        ++ready;
        while (ready < threads + readers) std::this_thread::yield();
        for (int k = 0; k < ops; ++k) {
            auto op = q.below(mine.empty() ? 2 : 20);
            if (op < 2) {
                mine.push_back({arena.new_array(q.below(4)), {}});
                ++created;
            } else if (op < 12) {
                auto& o = q.pick(mine);
                auto& w = const_cast<Owned&>(o);
                for (auto n = q.range(1, 8); n > 0; --n) {
                    auto u = unique++;
                    auto& e = q.chance(50) ? arena.push_back(w.a, T::of(u)) : arena.emplace_back(w.a, T::of(u));
                    if (e.id() != u) fail("appending returns another element");
                    w.want.push_back(u);
                    ++appended;
                }
            } else if (op < 14) {
                compare(arena, q.pick(mine), q, "owner");
            } else if (op < 15) {
                // Iterate one array while appending its elements to another one of mine.
                auto& from = q.pick(mine);
                Owned to{arena.new_array(q.below(3)), {}};
                arena.iterate(from.a, [&](T& e) {
                    arena.push_back(to.a, e);
                    to.want.push_back(e.id());
                    ++appended;
                });
                if (to.want != from.want) fail("copying while iterating loses elements");
                mine.push_back(to);
                ++created;
            } else if (op < 18) {
                auto i = q.below(mine.size());
                auto o = mine[i];
                mine.erase(mine.begin() + (long)i);
                std::lock_guard g(mx);
                if (q.chance(50)) finished.push_back(o);
                else {
                    parked.push_back(o);
                    if (parked.size() > 1) {
                        auto j = q.below(parked.size());
                        mine.push_back(parked[j]);
                        parked.erase(parked.begin() + (long)j);
                        ++handed;
                    }
                }
            } else if (op < 19) {
                if (arena.size() < mine.size()) fail("size() forgets arrays");
            } else
                std::this_thread::yield();
        }
        std::lock_guard g(mx);
        for (auto& o : mine) finished.push_back(o);
    };
    auto reader = [&](uint64_t seed) {
        Rng q(seed);
        ++ready;
        while (ready < threads + readers) std::this_thread::yield();
        size_t last = 0;
        for (int k = 0; k < ops; ++k) {
            Owned o{-1, {}};
            {
                std::lock_guard g(mx);
                if (!finished.empty()) o = q.pick(finished);
            }
            if (o.a >= 0) compare(arena, o, q, "reader");
            auto n = arena.size();
            if (n < last) fail("the number of arrays shrinks");
            last = n;
            if (q.chance(20)) std::this_thread::yield();
        }
    };
    std::vector<std::thread> ts;
    for (int t = 0; t < threads; ++t) ts.emplace_back(writer, r.next());
    for (int t = 0; t < readers; ++t) ts.emplace_back(reader, r.next());
    for (auto& t : ts) t.join();
    if (!bad.empty()) h.violation("thread", bad);
    bad.clear();
    for (auto& o : parked) finished.push_back(o);
    std::set<ArrayIndex> indices;
    std::vector<std::vector<uint64_t>> all(arena.size());
    for (auto& o : finished) {
        if (!indices.insert(o.a).second) { fail("array index " + std::to_string(o.a) + " was handed out twice"); break; }
        if (o.a < 0 || (size_t)o.a >= arena.size()) { fail("array index " + std::to_string(o.a) + " does not exist"); break; }
        all[o.a] = o.want;
    }
    if (arena.size() != created) fail("the arena has " + std::to_string(arena.size()) + " arrays, " + std::to_string(created) + " were created");
    if (bad.empty())
        for (auto& o : finished)
            for (int k = 0; k < 2; ++k) compare(arena, o, r, "after the run");
    if (bad.empty()) {
        size_t a = 0;
        for (auto it = arena.begin(); it != arena.end(); ++it, ++a) {
            std::vector<uint64_t> got;
            for (auto& e : *it) got.push_back(e.id());
            if (got != all[a]) fail("array " + std::to_string(a) + " differs while iterating the arena");
        }
    }
    if (!bad.empty()) h.violation("final", bad);
    h.count("created", created);
    h.count("appended", appended);
    h.count("read", read);
    h.count("handed over", handed);
    h.count("concurrent histories");
    h.distinct(r.next());
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C19").run([](vh::Harness& h, Rng& r, uint64_t) {
        switch (r.below(5)) {
        case 0: run<Num, 4096, 4096>(h, r); break;
        case 1: run<Num, 4, 2>(h, r); break;
        case 2: run<Str, 8, 1>(h, r); break;
        case 3: run<Str, 4096, 16>(h, r); break;
        default: run<Num, 64, 8>(h, r); break;
        }
    });
}
