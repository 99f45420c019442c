// C26, many threads raising errors at once through one registered handler.
#include "lexgen.hpp"
#include "simfil/exception-handler.h"
#include "simfil/token.h"
#include <mutex>
#include <thread>

using vh::Rng;
struct Mine : std::runtime_error { using std::runtime_error::runtime_error; };

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C26").run([](vh::Harness& h, Rng& r, uint64_t i) {
        auto& th = simfil::ThrowHandler::instance();
        std::mutex m;
        std::map<std::pair<std::thread::id, std::string>, int> seen;
        bool handled = r.chance(80);
        if (handled)
            th.set([&](const std::string& type, const std::string& msg) {
                std::lock_guard g(m);
                ++seen[{std::this_thread::get_id(), type + "|" + msg}];
            });
        else
            th.set({});
        int n = 2 + (int)r.below(4), per = 40;
        std::vector<std::map<std::pair<std::thread::id, std::string>, int>> want((size_t)n);
        std::vector<std::thread> ts;
        std::atomic<int> go{0}, wrong{0};
        for (int t = 0; t < n; ++t)
            ts.emplace_back([&, t, seed = r.next()] {
                Rng q(seed);
                ++go;
                while (go < n) {}
                for (int k = 0; k < per; ++k) {
                    std::string got, type;
                    bool tok = q.chance(40);
                    auto text = std::to_string(t) + "/" + std::to_string(k);
                    try {
                        if (tok) (void)simfil::tokenize("a " + text + " 'open");
                        else simfil::raise<Mine>(text);
                    } catch (const Mine& e) { got = e.what(); type = typeid(Mine).name(); }
                    catch (const std::runtime_error& e) { got = e.what(); type = typeid(std::runtime_error).name(); }
                    if (type.empty() || (!tok && got != text)) ++wrong;
                    ++want[(size_t)t][{std::this_thread::get_id(), type + "|" + got}];
                }
            });
        for (auto& t : ts) t.join();
        th.set({});
        h.input(std::to_string(n) + " threads raising " + std::to_string(per) + " errors each");
        h.count("concurrent errors", (uint64_t)(n * per));
        h.distinct(vh::mix(i));
        if (wrong) h.violation("concurrent-payload", "wrong exception reached a thread");
        std::map<std::pair<std::thread::id, std::string>, int> all;
        for (auto& w : want) for (auto& [k, c] : w) all[k] += c;
        if (handled && all != seen) {
            for (auto& [k, c] : all)
                if (seen[k] != c) { h.violation("concurrent-calls", "handler called " + std::to_string(seen[k]) + " times for '" + k.second + "' raised " + std::to_string(c) + " times"); break; }
        }
    });
}
