// C05: any text compiles to an expression or a reported error, safely.
#include "qgen.hpp"
#include "lexgen.hpp"
#include <ctime>
using namespace gen;

static std::string nest(Rng& r)
{
    int n = (int)r.range(1, 180);
    std::string a, b;
    for (int i = 0; i < n; ++i) {
        switch (r.below(9)) {
        case 0: a += "("; b = ")" + b; break;
        case 1: a += "a["; b = "]" + b; break;
        case 2: a += "a{"; b = "}" + b; break;
        case 3: a += "not "; break;
        case 4: a += "-"; break;
        case 5: a += "arr("; b = r.pick({")", ",1)"}) + b; break;
        case 6: a += "*."; break;
        case 7: a += "1+("; b = ")" + b; break;
        default: a += "typeof "; b = r.pick({"", "?", "...", " as int"}) + b; break;
        }
    }
    auto s = a + r.pick({"a", "1", "'x'", "_", "", "**", "re'x'"}) + b;
    return r.chance(20) ? mutate(r, s) : s;
}
static std::string longChain(Rng& r)
{
    std::string s = r.pick({"a", "1", "'x'", "b.c", "range(1,3)"});
    auto op = r.pick({" + ", ".", " and ", " == ", "|", " * ", "<", " as string + "});
    for (auto n = r.below(400); n > 0; --n) s += (r.chance(90) ? std::string(op) : r.pick({"+", ".", " or "})) + r.pick({"a", "b", "1", "_", "*"});
    return s;
}

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C05").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto strings = std::make_shared<simfil::StringPool>();
        auto pool = std::make_shared<simfil::ModelPool>(strings);
        auto obj = pool->newObject();
        obj->addField("a", (int64_t)41);
        obj->addField("b", "text");
        pool->addRoot(obj);
        simfil::Environment env(strings);
        auto probe = [&] {
            auto one = execute(env, "a + 1", *pool->root(0)).text();
            return one + execute(env, "count(_ == 41, b == 'text', *...)", *pool->root(0)).text();
        };
        auto expected = probe();
        for (int k = 0; k < 20; ++k) {
            std::string q;
            switch (r.below(10)) {
            case 0: case 1: q = tokenSoup(r, (int)r.range(2, 16)); break;
            case 2: q = hostileBytes(r); break;
            case 3: q = nest(r); break;
            case 4: q = longChain(r); break;
            case 5: for (auto n = r.below(20); n > 0; --n) q += (char)r.below(256); break;
            default: {
                QueryGen g{r};
                g.wildness = (int)r.below(60);
                Printer pr;
                pr.rng = &r;
                pr.caseChance = 10;
                q = pr.p(*g.query((int)r.range(1, 4)));
                if (r.chance(75)) q = mutate(r, q);
                if (r.chance(15)) q = q.substr(0, r.below(q.size() + 1));
            }
            }
            if (q.size() > 5000) continue;
            h.input(q);
            auto before = strings->size();
            auto nfn = env.functions.size(), nc = env.constants.size();
            bool lexes = true;
            try { (void)simfil::tokenize(q); } catch (const std::exception&) { lexes = false; }
            int accepted = 0, rejected = 0;
            std::string message;
            for (int o = 0; o < 4; ++o) {
                try {
                    auto t0 = clock();
                    auto e = simfil::compile(env, q, o & 1, o & 2);
                    if (double(clock() - t0) / CLOCKS_PER_SEC > 10) h.violation("slow", "compiling takes more than 10 s");
                    if (!e) { h.violation("null", "compile returned nothing"); continue; }
                    ++accepted;
                    auto s = e->toString();
                    if (s != e->toString()) h.violation("rendering", "rendering is not repeatable");
                    h.distinct(s + (o ? "#" : ""));
                    h.count("rendered");
                } catch (const std::exception& e) {
                    ++rejected;
                    message = e.what();
                    if (message.empty()) h.violation("no-message", "error without a message");
                }
            }
            if (accepted && rejected) h.violation("options", "whether the query compiles depends on the options: " + message);
            h.count(accepted ? "accepted" : "rejected");
            if (!accepted) h.distinct(message);
            if (accepted && !lexes) h.violation("lexer", "accepted, but does not tokenise");
            if (strings->size() != before) h.violation("pool", "compiling changed the string pool");
            if (env.functions.size() != nfn || env.constants.size() != nc) h.violation("environment", "compiling changed the environment");
            if (k % 5 == 4) {
                auto now = probe();
                if (now != expected) h.violation("unusable", "probe query: " + now + ", before: " + expected);
            }
            h.sample(q);
        }
        // All queries of two tokens are tried by case number.
        static std::vector<std::string> toks = [] {
            std::vector<std::string> t{"1", "0x1f", "1.5", "'s'", "r's'", "re's'", "a", "A", "int", "$val", "arr", "foo"};
            for (auto& [s, k] : ref::symbols()) t.push_back(s);
            for (auto& [s, k] : ref::keywords()) t.push_back(s);
            return t;
        }();
        size_t n = toks.size();
        for (size_t j = 0; j < n; ++j) {
            auto c = (h.caseIndex() * n + j) % (n * n * n);
            auto q = toks[c / n / n] + " " + toks[c / n % n] + " " + toks[c % n];
            h.input(q);
            try {
                auto e = simfil::compile(env, q, r.chance(50), r.chance(50));
                h.count("triples accepted");
                if (e->toString().empty() && q.find("''") == std::string::npos) h.count("empty rendering");
            } catch (const std::exception& e) {
                h.count("triples rejected");
            }
        }
        if (probe() != expected) h.violation("unusable", "probe query gives another result");
    });
}
