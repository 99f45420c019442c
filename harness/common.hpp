// Shared runtime of all monitors: deterministic case generation, reporting, evidence.
//
// A harness is a program  `main() { return vh::Harness(argc, argv, "C01").run(fn); }`.
// Every case is generated from (seed, case index) only, so any case replays with --only.
#pragma once

#include <algorithm>
#include <atomic>
#include <cinttypes>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <unistd.h>
#include <unordered_set>
#include <variant>
#include <vector>

namespace vh {

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

inline uint64_t hashStr(std::string_view s, uint64_t h = 0xcbf29ce484222325ull)
{
    for (unsigned char c : s) {
        h ^= c;
        h *= 0x100000001b3ull;
    }
    return mix(h);
}

/// Deterministic pseudo random numbers (splitmix64).
struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed) {}

    uint64_t next()
    {
        s += 0x9e3779b97f4a7c15ull;
        uint64_t z = s;
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int64_t range(int64_t lo, int64_t hi) { return lo + (int64_t)below((uint64_t)(hi - lo) + 1); }
    bool chance(int percent) { return below(100) < (uint64_t)percent; }
    template <class C>
    auto pick(const C& c) -> const typename C::value_type& { return c[below(c.size())]; }
    template <class T>
    T pick(std::initializer_list<T> c) { return *(c.begin() + below(c.size())); }
};

inline std::string quote(std::string_view s)
{
    std::string r = "\"";
    char buf[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += (char)c;
        } else if (c < 0x20 || c >= 0x7f) {
            // Escaped bytewise (as if Latin-1), which keeps the JSON valid for any input.
            snprintf(buf, sizeof buf, "\\u%04x", c);
            r += buf;
        } else
            r += (char)c;
    }
    return r + "\"";
}

class Harness
{
public:
    struct Current
    {
        std::atomic<uint64_t> index;
        std::atomic<uint64_t> done;
        char text[8192];
    };

    uint64_t seed = 1, shard = 0, shards = 1, cases = 100, first = 0;
    int64_t only = -1;
    bool verbose = false;
    bool thorough = false;
    std::string out;

    Harness(int argc, char** argv, std::string name) : name_(std::move(name))
    {
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
            if (a == "--seed") seed = std::stoull(val());
            else if (a == "--shard") shard = std::stoull(val());
            else if (a == "--shards") shards = std::stoull(val());
            else if (a == "--cases") cases = std::stoull(val());
            else if (a == "--first") first = std::stoull(val());
            else if (a == "--only") only = std::stoll(val());
            else if (a == "--out") out = val();
            else if (a == "--thorough") thorough = true;
            else if (a == "-v") verbose = true;
            else { fprintf(stderr, "unknown option %s\n", a.c_str()); exit(2); }
        }
        void* mem = MAP_FAILED;
        if (!out.empty()) {
            int fd = open((out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
            if (fd < 0 || ftruncate(fd, sizeof(Current)) != 0) { perror("open"); exit(2); }
            mem = mmap(nullptr, sizeof(Current), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            close(fd);
        } else
            mem = mmap(nullptr, sizeof(Current), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        if (mem == MAP_FAILED) { perror("mmap"); exit(2); }
        cur_ = static_cast<Current*>(mem);
    }

    /// Count observed events.
    void count(const std::string& what, uint64_t n = 1) { counters_[what] += n; }
    /// Register a distinct, non-trivial case.
    void distinct(uint64_t h) { if (hashes_.size() < 4000000) hashes_.insert(h); }
    void distinct(std::string_view s) { distinct(hashStr(s)); }
    void sample(const std::string& s) { if (samples_.size() < 3) samples_.push_back(s.substr(0, 600)); }

    /// Describe the running case (shown if it crashes or hangs).
    void input(std::string_view text)
    {
        size_t n = std::min(text.size(), sizeof(cur_->text) - 1);
        memcpy(cur_->text, text.data(), n);
        cur_->text[n] = 0;
        if (verbose) fprintf(stderr, "case %" PRIu64 ": %.*s\n", cur_->index.load(), (int)n, text.data());
    }

    /// Report that the property is violated by the running case.
    void violation(const std::string& key, const std::string& what)
    {
        ++violationCount_;
        if (violations_.size() < 20 && perKey_[key]++ < 3)
            violations_.push_back({key, what, cur_->index.load(), std::string(cur_->text)});
        if (verbose || only >= 0) fprintf(stderr, "VIOLATED [%s] %s\n  input: %s\n", key.c_str(), what.c_str(), cur_->text);
    }
    bool tooManyViolations() const { return violationCount_ > 200; }

    uint64_t caseIndex() const { return cur_->index.load(); }

    template <class Fn>
    int run(Fn fn)
    {
        auto one = [&](uint64_t i) {
            cur_->index = i;
            cur_->text[0] = 0;
            Rng rng(mix(mix(seed) ^ mix(i * 2 + 1) ^ hashStr(name_)));
            try {
                fn(*this, rng, i);
            } catch (const std::exception& e) {
                violation("unexpected-exception", std::string("unexpected exception escaped: ") + e.what());
            } catch (...) {
                violation("unexpected-exception", "unexpected exception of unknown type escaped");
            }
            ++evaluations_;
            cur_->done = evaluations_;
        };
        if (only >= 0)
            one((uint64_t)only);
        else
            for (uint64_t i = shard; i < cases; i += shards) {
                if (i < first) continue;
                one(i);
                if (tooManyViolations()) break;
            }
        finish();
        return 0;
    }

private:
    struct V { std::string key, what; uint64_t index; std::string input; };

    void finish()
    {
        if (out.empty()) {
            for (auto& [k, v] : counters_) printf("%s=%" PRIu64 "\n", k.c_str(), v);
            printf("evaluations=%" PRIu64 " distinct=%zu violations=%" PRIu64 "\n", evaluations_, hashes_.size(), violationCount_);
            return;
        }
        if (FILE* f = fopen((out + ".hashes").c_str(), "wb")) {
            std::vector<uint64_t> v(hashes_.begin(), hashes_.end());
            fwrite(v.data(), 8, v.size(), f);
            fclose(f);
        }
        FILE* f = fopen((out + ".stats.tmp").c_str(), "w");
        if (!f) { perror("stats"); exit(2); }
        fprintf(f, "{\"evaluations\":%" PRIu64 ",\"violationCount\":%" PRIu64 ",\"counters\":{", evaluations_, violationCount_);
        const char* sep = "";
        for (auto& [k, v] : counters_) { fprintf(f, "%s%s:%" PRIu64, sep, quote(k).c_str(), v); sep = ","; }
        fprintf(f, "},\"samples\":[");
        sep = "";
        for (auto& s : samples_) { fprintf(f, "%s%s", sep, quote(s).c_str()); sep = ","; }
        fprintf(f, "],\"violations\":[");
        sep = "";
        for (auto& v : violations_) {
            fprintf(f, "%s{\"key\":%s,\"what\":%s,\"index\":%" PRIu64 ",\"input\":%s}", sep, quote(v.key).c_str(),
                    quote(v.what.substr(0, 4000)).c_str(), v.index, quote(v.input).c_str());
            sep = ",";
        }
        fprintf(f, "]}\n");
        fclose(f);
        rename((out + ".stats.tmp").c_str(), (out + ".stats").c_str());
    }

    std::string name_;
    Current* cur_;
    uint64_t evaluations_ = 0, violationCount_ = 0;
    std::map<std::string, uint64_t> counters_;
    std::map<std::string, int> perKey_;
    std::unordered_set<uint64_t> hashes_;
    std::vector<std::string> samples_;
    std::vector<V> violations_;
};

} // namespace vh
