// C26, errors of compiler, evaluation, functions and models.
#include "qgen.hpp"
#include "lexgen.hpp"
#include "simfil/exception-handler.h"
#include "simfil/model/json.h"
#include "simfil/model/arena.h"
#include <sstream>
using namespace gen;

struct Event { std::string type, msg; };
static std::vector<Event> log_;
struct Boom { int n; };

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C26").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto& th = simfil::ThrowHandler::instance();
        th.set({});
        DocGen dg{r};
        Fixture fx(dg.obj(0), &r);
        // Runs fn without a handler, with a recording handler and with a throwing handler.
        auto probe = [&](const std::string& what, auto&& fn) {
            h.input(what);
            auto once = [&](std::string& type, std::string& msg) {
                try {
                    fn();
                    return 0;
                } catch (std::exception& e) {
                    type = typeid(e).name();
                    msg = e.what();
                    return 1;
                } catch (Boom&) {
                    return 2;
                }
            };
            std::string t0, m0, t1, m1, t2, m2;
            log_.clear();
            int k0 = once(t0, m0);
            if (!log_.empty()) h.violation("removed-called", "a removed handler was called");
            th.set([](auto& t, auto& m) { log_.push_back({t, m}); });
            int k1 = once(t1, m1);
            auto events = log_;
            log_.clear();
            th.set([](auto& t, auto& m) { log_.push_back({t, m}); throw Boom{1}; });
            int k2 = once(t2, m2);
            th.set({});
            if (k0 != k1 || t0 != t1 || m0 != m1) h.violation("outcome", "with handler: " + m1 + ", without: " + m0);
            static const std::string inner = typeid(simfil::InvalidOperandsError).name();
            if (k0 == 0) {
                h.count("no error");
                if (!events.empty()) h.violation("spurious", "the handler was called although no exception left: " + events[0].msg);
                return;
            }
            h.count("errors");
            h.distinct(what);
            if (t0.find("parse_error") != std::string::npos || t0.find("regex_error") != std::string::npos) return; // raised by other libraries
            if (events.empty()) { h.violation("call-count", "the handler was not called for: " + m0); return; }
            if (events.back().type != t0) h.violation("type-name", "type name " + events.back().type + ", expected " + t0);
            if (events.back().msg != m0) h.violation("message", "message '" + events.back().msg + "', expected '" + m0 + "'");
            for (size_t i = 0; i + 1 < events.size(); ++i)
                if (events[i].type != inner || t0 == inner)
                    h.violation("call-count", "handler called more than once: first for " + events[i].msg + ", then for " + m0);
            if (events.size() > 2) h.violation("call-count", "handler called " + std::to_string(events.size()) + " times");
            if (k2 != 2) h.violation("handler-error", "the exception of the handler did not reach the caller: " + m2);
            else if (log_.size() != 1) h.violation("handler-error", "handler called " + std::to_string(log_.size()) + " times although it throws");
            else if (log_[0].type != events[0].type || log_[0].msg != events[0].msg) h.violation("message", "another error is reported to a throwing handler");
            h.sample(what + " -> " + m0);
        };
        for (int i = 0; i < 12; ++i) {
            QueryGen q{r};
            q.wildness = 40;
            Printer pr;
            pr.rng = &r;
            auto e = q.query((int)r.range(1, 3));
            auto text = pr.p(*e);
            if (text.size() > 1500) continue;
            if (r.chance(40)) text = mutate(r, text);
            if (std::count_if(text.begin(), text.end(), [](char c) { return c == '(' || c == '[' || c == '{'; }) > 100) continue;
            bool any = r.chance(30);
            probe("query " + text, [&] {
                auto e = simfil::compile(*fx.env, text, any);
                (void)simfil::eval(*fx.env, *e, *fx.root());
            });
        }
        for (int i = 0; i < 6; ++i) {
            auto text = tokenSoup(r, 8);
            bool any = r.chance(50), wild = r.chance(50);
            probe("soup " + text, [&] { (void)simfil::compile(*fx.env, text, any, wild); });
        }
        static const std::vector<std::string> errors{
            "nosuch(1)", "any()", "each()", "count()", "range(1)", "range(1,2,3)", "range('a', 2)", "re()", "re(1)", "split()", "split('a')", "split(1, 2)", "select()", "select(1)",
            "select(1,'a')", "sum()", "keys()", "keys(1,2)", "1/0", "1%0", "1 % 0.5", "'a'-1", "-'a'", "~1.5", "re'a'+1", "range(1,2)*2", "range(1,2) < re'a'", "trace()", "1 as foo", "a as 1", "1 foo 2",
            "1 2", "(1", "[1", "a{", "a.", ".a", "a..b", "*.", "foo(1,", ")", "}", "1 +", "", "'", "0x", "1 ==", "split('a,b', arr(1,2))", "split(arr('a','b'), ',')", "**{", "#1.5", "arr(1", "i/0", "i%0", "s-1", "o*2", "(o as int)/0", "s foo 1", "-o", "~s", "range(1,i)/2", "re(s)-s"};
        for (int i = 0; i < 8; ++i) {
            auto& text = r.pick(errors);
            bool any = r.chance(30);
            probe("query " + text, [&] { auto e = simfil::compile(*fx.env, text, any); (void)simfil::eval(*fx.env, *e, *fx.root()); });
        }
        // Models
        auto n = r.below(1000);
        auto json = r.pick({"{", "[1,", "nul", "", "{\"a\" 1}", "\"\\x\""});
        probe("setStrings(nullptr)", [&] { fx.pool->setStrings(nullptr); });
        probe("root", [&] { (void)fx.pool->root(1 + n); });
        probe("resolveArray of no array", [&] { (void)fx.pool->resolveArray(fx.pool->newValue((int64_t)1)); });
        probe("resolveObject of no object", [&] { (void)fx.pool->resolveObject(fx.pool->newValue("x")); });
        probe("null environment", [&] { simfil::Environment env(std::shared_ptr<simfil::StringPool>{}); });
        probe("array index", [&] { simfil::ArrayArena<int, 8> a; auto x = a.new_array(2); a.push_back(x, 1); (void)a.at(x, 1 + n % 9); });
        probe("empty stream", [&] { std::stringstream s; simfil::ModelPool p; p.read(s); });
        probe("truncated stream", [&] { std::stringstream s; fx.pool->write(s); auto b = s.str(); std::stringstream t(b.substr(0, n * 7919 % b.size())); simfil::ModelPool p; p.read(t); });
        probe("truncated string pool", [&] { std::stringstream s; fx.strings->write(s); auto b = s.str(); std::stringstream t(b.substr(0, n * 7919 % b.size())); simfil::StringPool p; p.read(t); });
        probe("invalid JSON", [&] { (void)simfil::json::parse(json); });
        probe("dangling root", [&] { auto p = std::make_shared<simfil::ModelPool>(); p->addRoot(simfil::ModelNode::Ptr::make(p, simfil::ModelNodeAddress{simfil::ModelPool::Objects, 77})); p->validate(); });
        probe("null model_ptr", [&] { simfil::model_ptr<simfil::ModelNode> p; (void)p->type(); });
    });
}
