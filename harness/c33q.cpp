// C33: rendered expressions show operators, operands and their order; errors and warnings name what was written.
#include "qgen.hpp"
using namespace gen;

static const std::vector<std::string> Names{"a", "b", "field", "Xy", "n_1", "o"};
/// Queries without a constant part other than single constants as right operands.
static EP gen1(Rng& r, int d)
{
    auto s = [&] { return gen1(r, d - 1); };
    auto leaf = [&]() -> EP {
        switch (r.below(8)) {
        case 0: return self();
        case 1: return mkE(E::Any);
        case 2: return mkE(E::Wild);
        default: return field(r.pick(Names));
        }
    };
    auto right = [&]() -> EP {
        switch (r.below(6)) {
        case 0: return lit(vint(r.range(0, 1000)));
        case 1: return lit(vstr(r.pick({"text", "", "a b", "x\"y", "it's"})));
        case 2: return sym(r.pick({"FOO", "A", "RED_ISH"}));
        case 3: return lit(vbool(r.chance(50)));
        default: return s();
        }
    };
    if (d <= 0) return leaf();
    switch (r.below(12)) {
    case 0: return un(r.pick({"-", "~", "not", "#", "typeof"}), s());
    case 1: return post(r.pick({"?", "..."}), s());
    case 2: return cast(s(), r.pick({"int", "float", "string", "bool"}));
    case 3: case 4: return bin(r.pick({"+", "-", "*", "/", "%", "<<", ">>", "&", "|", "^", "<", "<=", ">", ">=", "==", "!="}), s(), right());
    case 5: return bin(r.pick({"and", "or"}), s(), s());
    case 6: return path(s(), leaf());
    case 7: return r.chance(50) ? sub(s(), s()) : idx(s(), right());
    case 8: return path(s(), r.chance(50) ? psub(s()) : pidx(s()));
    case 9: {
        std::vector<EP> a;
        for (auto n = r.below(3) + 1; n > 0; --n) a.push_back(s());
        return call(r.pick({"any", "each", "count", "arr", "all"}), a);
    }
    default: return bin("==", s(), right());
    }
}
static std::string render(const E& e)
{
    auto a = [&](size_t i) { return render(*e.a[i]); };
    switch (e.k) {
    case E::Lit: case E::Sym: {
        if (e.k == E::Sym) return "\"" + e.name + "\"";
        if (e.lit.k == RV::Str) return "\"" + e.lit.s + "\"";
        if (e.lit.k == RV::Bool) return e.lit.b ? "true" : "false";
        return std::to_string(e.lit.i);
    }
    case E::Field: return e.name;
    case E::Self: return "_";
    case E::Any: return "*";
    case E::Wild: return "**";
    case E::Path: return "(. " + a(0) + " " + a(1) + ")";
    case E::Sub: return "(sub " + a(0) + " " + a(1) + ")";
    case E::Idx: return "(index " + a(0) + " " + a(1) + ")";
    case E::Un: case E::Post: return "(" + e.name + " " + a(0) + ")";
    case E::Cast: return "(" + (e.name == "bool" ? "?" : e.name) + " " + a(0) + ")";
    case E::Bin: case E::And: case E::Or: return "(" + e.name + " " + a(0) + " " + a(1) + ")";
    case E::Call: {
        auto s = "(" + e.name;
        for (size_t i = 0; i < e.a.size(); ++i) s += " " + a(i);
        return s + ")";
    }
    }
    return "";
}
static bool has(const E& e, E::K k) { bool f = false; walk(e, [&](const E& x) { f |= x.k == k; }); return f; }

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C33").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto strings = std::make_shared<simfil::StringPool>();
        simfil::Environment env(strings);
        auto pool = std::make_shared<simfil::ModelPool>(strings);
        auto obj = pool->newObject();
        obj->addField("a", (int64_t)1);
        pool->addRoot(obj);
        auto root = pool->root(0);
        for (int k = 0; k < 40; ++k) {
            auto e = gen1(r, (int)r.range(0, 5));
            Printer pr;
            pr.rng = &r;
            auto text = pr.p(*e);
            if (text.size() > 1000) continue;
            h.input(text);
            simfil::ExprPtr x;
            try { x = simfil::compile(env, text, false); }
            catch (const std::exception& er) { h.count("rejected"); continue; }
            auto want = render(*e), got = x->toString();
            h.count("rendered");
            h.distinct(got);
            if (got != want) h.violation("rendering", "rendered as " + got + ", expected " + want);
            // the default name of a trace
            if (r.chance(20) && text.find("trace") == std::string::npos) {
                env.traces.clear();
                try {
                    auto t = simfil::compile(env, "trace(" + text + ")", false);
                    (void)simfil::eval(env, *t, *root);
                    bool named = env.traces.size() == 1 && env.traces.begin()->first == want;
                    h.count("traces");
                    if (!named) h.violation("trace-name", "the trace is not named " + want);
                } catch (const std::exception&) { h.count("raising"); }
            }
            h.sample(text);
        }
        // Warnings about constant parts say which part it is and what it is.
        for (int k = 0; k < 12; ++k) {
            int64_t a = r.range(0, 5), b = r.range(0, 5);
            std::string op = r.pick({"==", "!=", "<", "<=", ">", ">="});
            bool v = op == "==" ? a == b : op == "!=" ? a != b : op == "<" ? a < b : op == "<=" ? a <= b : op == ">" ? a > b : a >= b;
            auto part = std::to_string(a) + " " + op + " " + std::to_string(b);
            auto q = r.chance(50) ? part : r.chance(50) ? "a == (" + part + ")" : "count(a, " + part + ")";
            if (q.substr(0, 5) == "count") q = "a." + std::string("*{b and (") + part + ")}";
            h.input(q);
            env.warnings.clear();
            try { (void)simfil::compile(env, q, false); } catch (const std::exception& er) { h.violation("rejected", er.what()); continue; }
            auto rendered = "(" + op + " " + std::to_string(a) + " " + std::to_string(b) + ")";
            size_t n = 0;
            std::string all;
            for (auto& [what, where] : env.warnings) {
                all += what + ": " + where + "; ";
                if (where == rendered && what.find(v ? "true" : "false") != std::string::npos && what.find(v ? "false" : "true") == std::string::npos) ++n;
            }
            h.count("constant parts");
            if (n != 1 || env.warnings.size() != 1) h.violation("warning", "warnings: " + all + " expected one about " + rendered);
        }
        // A query followed by something else: the error names what it is.
        for (int k = 0; k < 8; ++k) {
            auto e = gen1(r, 2);
            auto text = Printer().p(*e);
            auto extra = r.pick({")", "]", "}", ",", ":"});
            h.input(text + " " + extra);
            try {
                (void)simfil::compile(env, text + " " + extra, false);
                h.violation("trailing", "compiles");
            } catch (const std::exception& er) {
                h.count("trailing");
                std::string m = er.what();
                if (m.size() < 2 || m.substr(m.size() - 2) != std::string(" ") + extra) h.violation("trailing-error", "'" + m + "' does not name " + extra);
            }
        }
    });
}
