// C18: array arenas behave like independent growable arrays.
#include "common.hpp"
#include "simfil/model/arena.h"
#include "simfil/model/bitsery-traits.h"
#include <bitsery/adapter/stream.h>
#include <bitsery/traits/string.h>
#include <sstream>
using vh::Rng;
using simfil::ArrayArena;
using simfil::ArrayIndex;

namespace elem {

struct Num
{
    int64_t v = -1;
    bool operator==(const Num& o) const { return v == o.v; }
};
inline Num make(Rng& r, Num*) { return {(int64_t)r.next()}; }
inline std::string text(const Num& n) { return std::to_string(n.v); }
inline void change(Num& n) { ++n.v; }

struct Str
{
    std::string v = "default";
    Str() = default;
    Str(std::string a, int n) : v(std::move(a)) { v += std::to_string(n); }
    explicit Str(std::string a) : v(std::move(a)) {}
    bool operator==(const Str& o) const { return v == o.v; }
};
inline Str make(Rng& r, Str*) { return Str(std::string(r.below(40), (char)('a' + r.below(26)))); }
inline std::string text(const Str& n) { return n.v; }
inline void change(Str& n) { n.v += "!"; }

struct Pair
{
    uint16_t a = 7;
    uint32_t b = 9;
    bool operator==(const Pair& o) const { return a == o.a && b == o.b; }
};
inline Pair make(Rng& r, Pair*) { return {(uint16_t)r.next(), (uint32_t)r.next()}; }
inline std::string text(const Pair& n) { return std::to_string(n.a) + "/" + std::to_string(n.b); }
inline void change(Pair& n) { ++n.b; }

template <class S> void serialize(S& s, Num& n) { s.value8b(n.v); }
template <class S> void serialize(S& s, Str& n) { s.text1b(n.v, 100000); }
template <class S> void serialize(S& s, Pair& n) { s.value2b(n.a); s.value4b(n.b); }

} // namespace elem

namespace {

template <class T, size_t Page, size_t Chunk, class Size = uint32_t>
struct Run
{
    using Arena = ArrayArena<T, Page, Chunk, Size>;
    vh::Harness& h;
    Rng& r;
    std::unique_ptr<Arena> arena = std::make_unique<Arena>();
    std::vector<std::vector<T>> model;
    std::string log;
    uint64_t hash = 0;

    void bad(const char* key, const std::string& what) { h.violation(key, what + "  after" + (log.size() > 900 ? " ..." + log.substr(log.size() - 900) : log)); }

    template <class A>
    bool outside(A& arena, ArrayIndex a, size_t i)
    {
        try {
            (void)arena.at(a, i);
        } catch (const std::exception&) {
            h.count("out of range");
            return true;
        }
        return false;
    }

    bool checkArray(ArrayIndex a)
    {
        auto& want = model[a];
        auto name = "array " + std::to_string(a);
        const Arena& c = *arena;
        auto same = [&](const std::vector<T>& got, const char* how) {
            if (got == want) return true;
            std::string t;
            for (size_t i = 0; i < got.size() && i < 5000; ++i)
                if (i >= want.size() || !(got[i] == want[i])) {
                    t = ", first difference at " + std::to_string(i) + ": " + elem::text(got[i]);
                    break;
                }
            bad(how, name + " has " + std::to_string(got.size()) + " elements by " + how + ", expected " + std::to_string(want.size()) + t);
            return false;
        };
        if (c.size(a) != want.size()) { bad("size", name + " has size " + std::to_string(c.size(a)) + " instead of " + std::to_string(want.size())); return false; }
        std::vector<T> got;
        for (size_t i = 0; i < want.size(); ++i) got.push_back(r.chance(50) ? c.at(a, i) : arena->at(a, i));
        if (!same(got, "at")) return false;
        got.clear();
        arena->iterate(a, [&](T& e) { got.push_back(e); });
        if (!same(got, "iterate")) return false;
        got.clear();
        size_t next = 0;
        bool ordered = true;
        arena->iterate(a, [&](T& e, size_t i) { ordered = ordered && i == next++; got.push_back(e); });
        if (!same(got, "iterate")) return false;
        if (!ordered) bad("iterate-index", name + ": iterate() passes wrong indices");
        if (!want.empty()) {
            auto stop = 1 + r.below(want.size());
            got.clear();
            arena->iterate(a, [&](T& e) { got.push_back(e); return got.size() < stop; });
            if (got.size() != stop || !std::equal(got.begin(), got.end(), want.begin())) bad("iterate-stop", name + ": stopped iterate() visits " + std::to_string(got.size()) + " elements instead of " + std::to_string(stop));
        }
        got.clear();
        for (auto it = c.begin(a); it != c.end(a); ++it) got.push_back(*it);
        if (!same(got, "const iterators")) return false;
        got.clear();
        auto range = arena->range(a);
        for (auto& e : range) got.push_back(e);
        if (!same(got, "range")) return false;
        if (range.size() != want.size()) bad("range-size", name + ": size of range differs");
        if (!want.empty()) {
            auto i = r.below(want.size());
            if (!(range[i] == want[i])) bad("range-index", name + ": range()[" + std::to_string(i) + "] differs");
        }
        for (auto i : {want.size(), want.size() + 1, want.size() + r.below(100), want.size() * 2 + 8, (size_t)1 << 31, (size_t)0 - 1, ((size_t)1 << 32) + (want.empty() ? 0 : r.below(want.size()))})
            if (i >= want.size() && !(r.chance(50) ? outside(*arena, a, i) : outside(c, a, i))) bad("bounds", name + ": index " + std::to_string(i) + " of " + std::to_string(want.size()) + " is not rejected");
        h.count("arrays compared");
        h.count("elements compared", want.size());
        return true;
    }

    bool checkAll()
    {
        if (arena->size() != model.size()) { bad("arrays", "arena has " + std::to_string(arena->size()) + " arrays instead of " + std::to_string(model.size())); return false; }
        size_t n = 0;
        for (auto it = arena->begin(); it != arena->end(); ++it, ++n) {
            if (n >= model.size()) { bad("arena-iteration", "iterating the arena gives too many arrays"); return false; }
            std::vector<T> got;
            for (auto& e : *it) got.push_back(e);
            if (got != model[n]) { bad("arena-iteration", "array " + std::to_string(n) + " differs while iterating the arena"); return false; }
        }
        if (n != model.size()) { bad("arena-iteration", "iterating the arena gives too few arrays"); return false; }
        for (size_t a = 0; a < model.size(); ++a)
            if (!checkArray((ArrayIndex)a)) return false;
        return true;
    }

    void append(ArrayIndex a)
    {
        auto v = elem::make(r, (T*)nullptr);
        auto before = model[a].size();
        T* got;
        switch (r.below(3)) {
        case 0: got = &arena->push_back(a, v); model[a].push_back(v); break;
        case 1: got = &arena->emplace_back(a, v); model[a].push_back(v); break;
        default:
            if (!model.empty() && r.chance(40)) {
                // An element of the arena itself.
                auto b = r.below(model.size());
                if (!model[b].empty()) {
                    auto i = r.below(model[b].size());
                    got = &arena->push_back(a, arena->at((ArrayIndex)b, i));
                    auto copy = model[b][i];
                    model[a].push_back(copy);
                    h.count("self appends");
                    break;
                }
            }
            got = &arena->emplace_back(a);
            model[a].push_back(T());
        }
        if (!(*got == model[a].back())) bad("reference", "appending to array " + std::to_string(a) + " returns another element");
        if (got != &arena->at(a, before)) bad("reference", "appending returns a reference to something else than element " + std::to_string(before));
        h.count("appends");
    }

    void reload()
    {
        if constexpr (std::is_same_v<Size, uint32_t>) {
            std::stringstream s;
            {
                bitsery::Serializer<bitsery::OutputStreamAdapter> out(s);
                out.ext(*arena, bitsery::ext::ArrayArenaExt{});
            }
            // Into a fresh arena, or one that was in use.
            auto other = std::make_unique<Arena>();
            for (auto n = r.below(4); n > 0; --n) {
                auto a = other->new_array(r.below(3));
                for (auto k = r.below(20); k > 0; --k) other->push_back(a, elem::make(r, (T*)nullptr));
            }
            bitsery::Deserializer<bitsery::InputStreamAdapter> in(s);
            in.ext(*other, bitsery::ext::ArrayArenaExt{});
            if (in.adapter().error() != bitsery::ReaderError::NoError) bad("reload", "a saved arena cannot be read back");
            arena = std::move(other);
            h.count("reloads");
        }
    }

    void go()
    {
        auto steps = r.chance(3) ? r.range(200, 500) : r.range(5, 60);
        for (int k = 0; k < steps; ++k) {
            auto op = r.below(model.empty() ? 1 : 20);
            if (op == 0 || (op == 1 && model.size() < 30)) {
                auto cap = r.chance(40) ? r.below(3) : r.below(30);
                log += " new(" + std::to_string(cap) + ")";
                h.input(log);
                auto a = arena->new_array(cap);
                if (a != (ArrayIndex)model.size()) bad("index", "new array has index " + std::to_string(a) + " instead of " + std::to_string(model.size()));
                model.emplace_back();
                h.count("arrays");
            } else if (op < 14) {
                auto a = r.below(model.size());
                auto n = r.chance(10) ? r.range(20, 120) : r.range(1, 9);
                log += " +" + std::to_string(n) + "->" + std::to_string(a);
                h.input(log);
                for (; n > 0; --n) append((ArrayIndex)a);
            } else if (op < 15) {
                auto a = r.below(model.size());
                if (model[a].empty()) continue;
                auto i = r.below(model[a].size());
                log += " change" + std::to_string(a) + "[" + std::to_string(i) + "]";
                h.input(log);
                elem::change(arena->at((ArrayIndex)a, i));
                elem::change(model[a][i]);
                h.count("changes");
            } else if (op < 16) {
                auto a = r.below(model.size());
                log += " changeall" + std::to_string(a);
                h.input(log);
                if (r.chance(50)) arena->iterate((ArrayIndex)a, [](T& e) { elem::change(e); });
                else for (auto& e : arena->range((ArrayIndex)a)) elem::change(e);
                for (auto& e : model[a]) elem::change(e);
                h.count("changes");
            } else if (op < 17) {
                log += " reload";
                h.input(log);
                reload();
            } else if (op < 18) {
                log += " shrink";
                h.input(log);
                arena->shrink_to_fit();
            } else if (op < 19 && r.chance(15)) {
                log += " clear";
                h.input(log);
                arena->clear();
                model.clear();
                h.count("clears");
            } else {
                h.input(log + " check");
                if (!checkAll()) return;
            }
            hash = vh::mix(hash ^ (op + 31 * model.size()));
        }
        h.input(log + " check");
        checkAll();
        h.distinct(hash ^ vh::hashStr(log));
        h.sample(log);
        h.count("histories");
    }
};

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C18").run([](vh::Harness& h, Rng& r, uint64_t i) {
        switch (vh::mix(i) % 8) {
        case 0: Run<elem::Num, 4096, 4096>{h, r}.go(); break;
        case 1: Run<elem::Num, 1, 1>{h, r}.go(); break;
        case 2: Run<elem::Num, 8, 2>{h, r}.go(); break;
        case 3: Run<elem::Str, 4, 4>{h, r}.go(); break;
        case 4: Run<elem::Str, 256, 3>{h, r}.go(); break;
        case 5: Run<elem::Pair, 5, 4096>{h, r}.go(); break;
        case 6: Run<elem::Pair, 16, 16, uint64_t>{h, r}.go(); break;
        default: Run<elem::Str, 4096, 1>{h, r}.go(); break;
        }
    });
}
