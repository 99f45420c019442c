// C09: every scalar operator and cast over every combination of operand types and values.
#include "qgen.hpp"
using namespace gen;

struct Operand { EP e; bool field; };

static double floatVal(Rng& r)
{
    switch (r.below(6)) {
    case 0: return r.pick({0.0, -0.0, 1.0, -1.0, 0.5, -2.5, 1e18, 9.223372036854775807e18, -9.223372036854775808e18, 1e300, -1e300, 5e-324, 1e-300});
    case 1: return r.pick({(double)INFINITY, -(double)INFINITY, (double)NAN, 4294967296.0, 2147483648.5, 9007199254740993.0});
    case 2: return (double)r.range(-1000, 1000) / 2;
    case 3: return (double)(int64_t)r.next();
    default: return (double)r.range(-20, 20);
    }
}
static int64_t intVal(Rng& r)
{
    switch (r.below(6)) {
    case 0: return r.pick({INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, (int64_t)0, (int64_t)-1, (int64_t)1, (int64_t)63, (int64_t)64, (int64_t)65, (int64_t)-64});
    case 1: return r.pick({(int64_t)32767, (int64_t)32768, (int64_t)-32768, (int64_t)-32769, (int64_t)65535, (int64_t)65536, (int64_t)1 << 31, (int64_t)1 << 32, (int64_t)1 << 53, ((int64_t)1 << 53) + 1, (int64_t)1 << 62});
    case 2: return (int64_t)r.next();
    case 3: return (int64_t)(r.next() >> r.below(64));
    default: return r.range(-12, 12);
    }
}
static std::string strVal(Rng& r)
{
    switch (r.below(9)) {
    case 8: { std::string s; for (int n = (int)r.range(1, 5); n > 0; --n) s += r.pick({'a', '\0', 'b', '1', '\0'}); return s; }
    case 0: return "";
    case 1: return std::to_string(r.range(-100000, 100000));
    case 2: return r.pick({"12abc", " 42", "+7", "-", "x1", "1.5", "-0.25e2", ".5", "1e3", "0", "00012", "9223372036854775807", "-9223372036854775808", "true", "null", "a\tb"});
    case 3: return r.pick({"größe", "A", "a", "B", "aa", "ab", "FOO", "foo"});
    case 4: { std::string s; for (int n = (int)r.below(6); n > 0; --n) s += (char)r.range(1, 255); return s; }
    case 5: return std::string(r.below(300), 'x');
    default: { std::string s; for (int n = (int)r.below(4); n > 0; --n) s += r.pick({'a', 'b', 'A', '1', ' '}); return s; }
    }
}

int main(int argc, char** argv)
{
    static const std::vector<std::string> binops{"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "<<", ">>", "and", "or"};
    static const std::vector<std::string> casts{"null", "bool", "int", "float", "string"};
    return vh::Harness(argc, argv, "C09").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto doc = mk(J::Obj);
        // Several operands per document; each as a field and, where it can be written, as a literal.
        std::vector<std::pair<EP, std::string>> ops;
        auto add = [&](JP j, EP literal, const char* kind) {
            auto name = "v" + std::string(1, (char)('a' + doc->obj.size()));
            doc->obj.emplace_back(name, j);
            ops.emplace_back(literal && r.chance(50) ? literal : r.chance(20) ? path(self(), field(name)) : field(name), kind);
        };
        for (int i = 0; i < 2; ++i) {
            auto n = intVal(r);
            add(jint(n), n >= 0 || n == INT64_MIN || r.chance(50) ? lit(vint(n)) : un("-", lit(vint(-n))), "int");
            auto f = floatVal(r);
            bool plain = f >= 0 && !std::signbit(f) && f < 1000 && f * 2 == std::floor(f * 2);
            add(jfloat(f), plain ? lit(vfloat(f)) : nullptr, "float");
            auto s = strVal(r);
            add(jstr(s), lit(vstr(s)), "string");
        }
        bool b = r.chance(50);
        add(jbool(b), lit(vbool(b)), "bool");
        add(jnull(), lit(vnull()), "null");
        auto o = mk(J::Obj);
        for (uint64_t n = r.below(3); n > 0; --n) o->obj.emplace_back("k" + std::to_string(n), jint((int64_t)n));
        add(o, nullptr, "object");
        auto a = mk(J::Arr);
        for (uint64_t n = r.below(3); n > 0; --n) a->arr.push_back(jint((int64_t)n));
        add(a, nullptr, "array");
        ops.emplace_back(field("missing"), "missing");
        auto g = intVal(r), g2 = r.chance(70) ? g + 0 : intVal(r);
        if (g2 < INT64_MAX - 20) g2 += r.range(0, 20);
        ops.emplace_back(call("range", {lit(vint(g)), lit(vint(g2))}), "range");
        ops.emplace_back(lit(vre(r.pick({"a*", "[0-9]+", "FOO|A", ".*", ""}))), "re");

        Fixture fx(doc, &r);
        Printer pr;
        pr.rng = &r;
        auto one = [&](EP e, const std::string& what) {
            auto text = pr.p(*e);
            if (compareQuery(h, fx, *e, text, false)) { h.count("op " + what); h.sample(text); }
        };
        for (auto& [x, k] : ops) {
            one(un(r.pick({"-", "~", "not", "#", "typeof"}), x), "unary " + k);
            one(cast(x, r.pick(casts)), "cast " + k);
            one(r.chance(50) ? post("?", x) : un("typeof", x), "test " + k);
        }
        for (int i = 0; i < 60; ++i) {
            auto& [x, kx] = r.pick(ops);
            auto& [y, ky] = r.pick(ops);
            one(bin(r.pick(binops), x, y), kx + " " + ky);
        }
        // Subscripts of computed values, near both ends of strings above all.
        for (int i = 0; i < 8; ++i) {
            auto& [x, kx] = r.pick(ops);
            auto s = strVal(r);
            auto n = (int64_t)s.size();
            auto at = r.chance(70) ? r.pick({(int64_t)-1, (int64_t)0, n - 1, n, n + 1, n / 2, -n, INT64_MAX, INT64_MIN + 1, (int64_t)1 << 32}) : intVal(r);
            auto index = at >= 0 ? lit(vint(at)) : at == INT64_MIN ? lit(vint(at)) : un("-", lit(vint(-at)));
            switch (r.below(4)) {
            case 0: one(idx(lit(vstr(s)), r.pick(ops).first), "subscript by any"); break;
            case 1: one(idx(bin("+", r.chance(50) ? lit(vstr("")) : field("missing"), x), index), "subscript of any"); break;
            default: one(idx(r.chance(50) ? lit(vstr(s)) : bin("+", lit(vstr(s.substr(0, n / 2))), lit(vstr(s.substr(n / 2)))), index), "subscript of string"); break;
            }
        }
        // Results of operators as operands.
        for (int i = 0; i < 10; ++i) {
            auto &x = r.pick(ops).first, &y = r.pick(ops).first, &z = r.pick(ops).first;
            auto e = bin(r.pick(binops), bin(r.pick(binops), x, y), z);
            auto text = pr.p(*e);
            compareQuery(h, fx, *e, text, true);
        }
    });
}
