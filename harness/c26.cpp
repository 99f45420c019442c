// C26: every raised error passes the registered exception handler, exactly once.
#include "lexgen.hpp"
#include "simfil/exception-handler.h"
#include "simfil/token.h"

using vh::Rng;
namespace {

struct Event { int handler; std::string type, msg; };
std::vector<Event> log_;
std::set<int> alive_;

/// A handler target that knows whether it is alive.
struct Target
{
    int id;
    explicit Target(int i) : id(i) { alive_.insert(i); }
    ~Target() { alive_.erase(id); }
};

// Exceptions of many shapes.
struct NoWhat { int code; std::string s; };
struct OwnBuffer : std::exception
{
    std::string a, b;
    OwnBuffer(std::string x, std::string y) : a(std::move(x)), b(std::move(y)) { a += b; }
    const char* what() const noexcept override { return a.c_str(); }
};
struct Derived : OwnBuffer { using OwnBuffer::OwnBuffer; };
struct WhatString { std::string s; std::string what() const { return "w:" + s; } };
struct MoveOnly : std::exception
{
    std::unique_ptr<std::string> p;
    explicit MoveOnly(std::unique_ptr<std::string> q) : p(std::move(q)) {}
    MoveOnly(MoveOnly&&) = default;
    const char* what() const noexcept override { return p ? p->c_str() : "moved away"; }
};
struct TakesRef : std::exception
{
    int* counter;
    std::string s;
    TakesRef(int& c, const std::string& x) : counter(&c), s(x) { ++c; }
    const char* what() const noexcept override { return s.c_str(); }
};
template <int N>
struct Numbered : std::runtime_error { using std::runtime_error::runtime_error; };
struct HandlerError : std::logic_error { using std::logic_error::logic_error; };

struct Outcome { bool thrown = false, handlerError = false, consistent = true; std::string type, msg, detail; };

std::string text(Rng& r)
{
    switch (r.below(6)) {
    case 0: return "";
    case 1: return std::string(r.below(3000), 'm');
    case 2: { std::string s; for (auto n = r.below(20); n > 0; --n) s += (char)r.range(1, 255); return s; }
    case 3: return r.pick({"%s%n%d", "{} {0}", "line\nline", "\\0 \" '"});
    default: return "message " + std::to_string(r.below(1000));
    }
}

template <class E, class Fn>
Outcome provoke(Fn fn, std::function<std::string(E&)> msg)
{
    Outcome o;
    try {
        fn();
    } catch (HandlerError& e) {
        o.thrown = o.handlerError = true;
        o.msg = e.what();
        return o;
    } catch (E& e) {
        o.thrown = true;
        o.type = typeid(E).name();
        if (typeid(e) != typeid(E)) { o.consistent = false; o.detail = std::string("dynamic type ") + typeid(e).name(); }
        o.msg = msg(e);
        return o;
    } catch (...) {
        o.thrown = true;
        o.consistent = false;
        o.detail = "exception of a different type";
    }
    return o;
}

template <class E>
Outcome simple(const std::string& m, Rng& r)
{
    auto w = [](E& e) { return std::string(e.what()); };
    if (r.chance(50)) return provoke<E>([&] { simfil::raise<E>(m); }, w);
    auto copy = m;
    return provoke<E>([&] { simfil::raise<E>(std::move(copy)); }, w);
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C26").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto& th = simfil::ThrowHandler::instance();
        th.set({});
        if (&th != &simfil::ThrowHandler::instance()) h.violation("instance", "there is more than one handler");
        int current = 0;  // 0: none, odd: recording, even: recording and throwing
        int next = 0;
        std::string trail;
        for (int step = 0; step < 60; ++step) {
            if (r.chance(25)) {
                int kind = (int)r.below(4);
                int old = current;
                if (kind == 0) {
                    if (r.chance(50)) th.set({}); else th.set(nullptr);
                    current = 0;
                    if (th.get()) h.violation("get", "a handler is left after removing it");
                    trail += " remove";
                } else {
                    next += 2;
                    current = next - (kind == 1 ? 0 : 1);
                    auto t = std::make_shared<Target>(current);
                    bool throws = current % 2 == 0;
                    std::string pad(r.below(200), 'p');
                    auto fn = [t, throws, pad](const std::string& type, const std::string& msg) {
                        log_.push_back({t->id, type, msg});
                        if (throws) throw HandlerError("handler " + std::to_string(t->id));
                    };
                    if (r.chance(50)) th.set(fn); else { simfil::CustomThrowHandlerType f = fn; th.set(std::move(f)); }
                    if (!th.get()) h.violation("get", "no handler after setting one");
                    trail += throws ? " set-throwing" : " set";
                }
                h.count("handler changes");
                if (old && alive_.count(old)) h.violation("leak", "a replaced handler is still alive");
                if (current && !alive_.count(current)) h.violation("lost", "the registered handler was destroyed");
                continue;
            }
            log_.clear();
            auto m = text(r);
            Outcome o;
            std::string type, msg = m, what;
            switch (int k = (int)r.below(16)) {
            case 0: o = simple<std::runtime_error>(m, r); type = typeid(std::runtime_error).name(); what = "runtime_error"; break;
            case 1: o = simple<std::out_of_range>(m, r); type = typeid(std::out_of_range).name(); what = "out_of_range"; break;
            case 2: o = simple<std::invalid_argument>(m, r); type = typeid(std::invalid_argument).name(); what = "invalid_argument"; break;
            case 3: o = simple<Numbered<3>>(m, r); type = typeid(Numbered<3>).name(); what = "Numbered<3>"; break;
            case 4: o = simple<Numbered<4>>(m, r); type = typeid(Numbered<4>).name(); what = "Numbered<4>"; break;
            case 5: case 6: {
                auto a = text(r), b = text(r);
                msg = a + b;
                auto f = [](auto& e) { return std::string(e.what()); };
                if (k == 5) { o = provoke<OwnBuffer>([&] { simfil::raise<OwnBuffer>(a, b); }, f); type = typeid(OwnBuffer).name(); }
                else { o = provoke<Derived>([&] { simfil::raise<Derived>(a, b); }, f); type = typeid(Derived).name(); }
                what = "two arguments";
                break;
            }
            case 7:
                o = provoke<NoWhat>([&] { simfil::raise<NoWhat>(7, m); }, [](NoWhat& e) { return e.code == 7 ? e.s : "wrong"; });
                type = typeid(NoWhat).name();
                what = "no what()";
                if (o.thrown && !o.handlerError && o.msg != m) h.violation("payload", "the exception lost its contents");
                msg = ""; if (!o.handlerError) o.msg = "";
                break;
            case 8:
                o = provoke<int>([&] { simfil::raise<int>(42); }, [](int& e) { return std::to_string(e); });
                type = typeid(int).name();
                what = "int";
                if (o.thrown && !o.handlerError && o.msg != "42") h.violation("payload", "raised 42, caught " + o.msg);
                msg = ""; if (!o.handlerError) o.msg = "";
                break;
            case 9:
                o = provoke<WhatString>([&] { simfil::raise<WhatString>(m); }, [](WhatString& e) { return e.what(); });
                type = typeid(WhatString).name();
                msg = "w:" + m;
                what = "what() returning a string";
                break;
            case 10:
                o = provoke<MoveOnly>([&] { simfil::raise<MoveOnly>(std::make_unique<std::string>(m)); }, [](MoveOnly& e) { return std::string(e.what()); });
                type = typeid(MoveOnly).name();
                what = "move only";
                break;
            case 11: {
                int n = 0;
                o = provoke<TakesRef>([&] { simfil::raise<TakesRef>(n, m); }, [](TakesRef& e) { return std::string(e.what()); });
                type = typeid(TakesRef).name();
                what = "reference argument";
                if (n != 1) h.violation("construction", "the exception was constructed " + std::to_string(n) + " times");
                break;
            }
            default: {
                // Errors of the tokenizer
                std::string q = r.chance(50) ? gen::hostileBytes(r) : gen::mutate(r, gen::tokenSoup(r, 5));
                type = typeid(std::runtime_error).name();
                what = "tokenize";
                msg.clear();
                o = provoke<std::runtime_error>([&] { (void)simfil::tokenize(q); }, [](std::runtime_error& e) { return std::string(e.what()); });
                if (!o.thrown) {
                    h.count("no error");
                    h.input("tokenize " + q);
                    if (!log_.empty()) h.violation("spurious", "the handler was called although no exception was raised: " + log_[0].msg);
                    continue;
                }
                if (!o.handlerError) msg = o.msg;
                else if (!log_.empty()) msg = log_.back().msg; // cannot be known otherwise
                if (msg.empty()) h.violation("empty", "error without a message");
            }
            }
            h.input(what + " '" + msg + "' after" + trail);
            h.count("errors");
            h.count("raised " + what);
            h.distinct(vh::hashStr(what + "|" + msg, 3) ^ vh::hashStr(trail.size() > 40 ? trail.substr(trail.size() - 40) : trail, 4));
            if (!o.thrown) { h.violation("not-raised", "no exception left raise()"); continue; }
            if (!o.consistent) { h.violation("other-exception", o.detail); continue; }
            if (current == 0) {
                h.count("without handler");
                if (!log_.empty()) h.violation("removed-called", "a removed handler was called");
            } else {
                h.count("with handler");
                if (log_.size() != 1)
                    h.violation("call-count", "handler called " + std::to_string(log_.size()) + " times");
                else {
                    if (log_[0].handler != current) h.violation("wrong-handler", "a replaced handler was called");
                    if (log_[0].type != type) h.violation("type-name", "type name " + log_[0].type + ", expected " + type);
                    if (log_[0].msg != msg) h.violation("message", "message '" + log_[0].msg + "', expected '" + msg + "'");
                }
            }
            bool throws = current && current % 2 == 0;
            if (o.handlerError != throws)
                h.violation("handler-error", throws ? "the exception of the handler was swallowed" : "an exception of a handler that should not run");
            else if (throws) {
                h.count("throwing handler");
                if (o.msg != "handler " + std::to_string(current)) h.violation("handler-error", "wrong exception of the handler: " + o.msg);
            } else {
                if (o.type != type) h.violation("other-exception", o.type);
                if (o.msg != msg) h.violation("payload", "caught '" + o.msg + "', raised '" + msg + "'");
            }
            if (current && !alive_.count(current)) h.violation("lost", "the registered handler was destroyed");
            h.sample(what + " '" + msg + "' after" + trail);
        }
        th.set({});
        if (!alive_.empty()) h.violation("leak", "handlers left alive");
        alive_.clear();
    });
}
