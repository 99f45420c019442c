// C28: user-defined functions, constants and types plug in faithfully.
#include "qgen.hpp"
#include "simfil/function.h"
#include "simfil/typed-meta-type.h"
#include "simfil/operator.h"
using namespace gen;
using simfil::Context;
using simfil::Result;
using simfil::Value;

namespace {

uint64_t late = 0;        // values produced although the consumer had stopped
uint64_t operators = 0;   // operators the types received
uint64_t calls = 0;       // calls of registered functions
std::string wrong;

bool truthOf(const std::string& text) { return vh::hashStr(text, 28) & 1; }

/// Types whose operators write down what was applied to what.
struct Text { std::string text; };
std::string show(const Value& v);

struct TextType : simfil::TypedMetaType<Text>
{
    TextType(const char* n) : TypedMetaType(n) {}
    Value make(std::string t) const
    {
        simfil::TransientObject o(this);
        ((Text*)o.data)->text = std::move(t);
        return Value(simfil::ValueType::TransientObject, std::move(o));
    }
    static std::string unary(const std::string& type, std::string_view op, const std::string& x) { return type + "<" + std::string(op) + " " + x + ">"; }
    static std::string binary(const std::string& type, const std::string& a, std::string_view op, const std::string& b) { return type + "<" + a + " " + std::string(op) + " " + b + ">"; }

    using TypedMetaType<Text>::unaryOp;
    using TypedMetaType<Text>::binaryOp;
    using TypedMetaType<Text>::unpack;
    Value unaryOp(std::string_view op, const Text& t) const override
    {
        ++operators;
        if (op == "?") return Value::make(truthOf(t.text));
        if (op == "typeof") return Value::make(ident);
        if (refuses(op)) simfil::raise<simfil::InvalidOperandsError>(op);
        return make(unary(ident, op, t.text));
    }
    Value binaryOp(std::string_view op, const Text& l, const Value& r) const override
    {
        ++operators;
        if (refuses(op)) simfil::raise<simfil::InvalidOperandsError>(op);
        return make(binary(ident, l.text, op, show(r)));
    }
    Value binaryOp(std::string_view op, const Value& l, const Text& r) const override
    {
        ++operators;
        if (l.isa(simfil::ValueType::TransientObject)) wrong = "binaryOp(Value, object) is called although the left operand is an object";
        if (refuses(op)) simfil::raise<simfil::InvalidOperandsError>(op);
        return make(binary(ident, show(l), op, r.text));
    }
    void unpack(const Text& t, std::function<bool(Value)> fn) const override
    {
        ++operators;
        bool stopped = false;
        for (size_t i = 0; i < parts(t.text); ++i) {
            if (stopped) { ++late; break; }
            if (!fn(part(t.text, i))) break;
        }
    }
    virtual bool refuses(std::string_view op) const = 0;
    static size_t parts(const std::string& t) { return vh::hashStr(t, 5) % 4; }
    virtual Value part(const std::string& t, size_t i) const = 0;
};
struct SymType : TextType
{
    SymType() : TextType("sym") {}
    bool refuses(std::string_view) const override { return false; }
    Value part(const std::string& t, size_t i) const override { return make("part" + std::to_string(i) + " of " + t); }
} symT;
struct TagType : TextType
{
    TagType() : TextType("tag") {}
    bool refuses(std::string_view op) const override { return op == "^" || op == "dislikes"; }
    Value part(const std::string& t, size_t i) const override { return Value::make((int64_t)i); }
} tagT;

std::string show(const Value& v)
{
    for (const TextType* t : {(const TextType*)&symT, (const TextType*)&tagT})
        if (auto o = simfil::getObject<Text>(v, t)) return o->text;
    return canon(v);
}

// ---------------------------------------------------------------- functions

struct Event { std::string text; };
std::vector<std::string> events; // calls during evaluation

struct Fn : simfil::Function
{
    simfil::FnInfo info;
    enum Kind { Make, Rec, Imp, None, Here, Two } kind;
    const TextType* type;
    Fn(std::string n, Kind k, const TextType* t = nullptr) : info{std::move(n), "", ""}, kind(k), type(t) {}
    const simfil::FnInfo& ident() const override { return info; }

    Result eval(Context ctx, Value val, const std::vector<simfil::ExprPtr>& args, const simfil::ResultFn& res) const override
    {
        ++calls;
        bool compiling = ctx.phase == Context::Phase::Compilation;
        if (kind == None) return Result::Continue;
        if (kind == Here) {
            if (compiling && val.isa(simfil::ValueType::Undef)) return res(ctx, Value::undef());
            return res(ctx, val);
        }
        if (kind == Two) {
            // Passes on at most two values of its first argument.
            int n = 0;
            auto out = Result::Continue;
            for (auto& a : args) {
                bool stop = false;
                (void)a->eval(ctx, val, simfil::LambdaResultFn([&](Context c, Value v) {
                    if (stop) { ++late; return Result::Stop; }
                    out = res(c, std::move(v));
                    if (out == Result::Stop || ++n == 2) stop = true;
                    return stop ? Result::Stop : Result::Continue;
                }));
                break;
            }
            return out;
        }
        if (kind == Imp && compiling) return res(ctx, Value::undef());
        std::vector<std::vector<Value>> in;
        bool unknown = false;
        for (auto& a : args) {
            in.emplace_back();
            (void)a->eval(ctx, val, simfil::LambdaResultFn([&](Context, Value v) {
                unknown = unknown || v.isa(simfil::ValueType::Undef);
                in.back().push_back(std::move(v));
                return Result::Continue;
            }));
        }
        if (unknown) return res(ctx, Value::undef());
        std::string text;
        for (auto& a : in) {
            for (size_t i = 0; i < a.size(); ++i) text += (i ? "," : "") + show(a[i]);
            text += ";";
        }
        if (kind == Imp) {
            events.push_back(info.ident + "(" + text + ")@" + show(val));
            for (auto& a : in)
                for (auto& v : a)
                    if (res(ctx, v) == Result::Stop) return Result::Stop;
            return Result::Continue;
        }
        if (kind == Rec) return res(ctx, Value::make(info.ident + "(" + text + ")"));
        for (auto& a : in)
            for (auto& v : a)
                if (res(ctx, type->make("new " + show(v))) == Result::Stop) return Result::Stop;
        return Result::Continue;
    }
};
Fn makeSym("makesym", Fn::Make, &symT), makeTag("make_tag", Fn::Make, &tagT), rec("rec", Fn::Rec), rec2("Rec2", Fn::Rec), imp("imp", Fn::Imp), none("none", Fn::None), here("here", Fn::Here), two("two", Fn::Two);
Fn* const allFns[] = {&makeSym, &makeTag, &rec, &rec2, &imp, &none, &here, &two};

// ---------------------------------------------------------------- reference

/// A value of the reference.
struct V
{
    std::string text;
    const TextType* type = nullptr;
    const J* node = nullptr;
    enum { Other, Null, True, False } b = Other;
};
V fromJ(const J* j)
{
    if (!j) return {"null", nullptr, nullptr, V::Null};
    switch (j->k) {
    case J::Null: return {"null", nullptr, j, V::Null};
    case J::Bool: return {j->b ? "true" : "false", nullptr, j, j->b ? V::True : V::False};
    case J::Int: return {canon(Value::make(j->i)), nullptr, j};
    case J::Float: return {canon(Value::make(j->f)), nullptr, j};
    case J::Str: return {"s:" + j->s, nullptr, j};
    default: {
        char buf[32];
        snprintf(buf, sizeof buf, "n:%08x", j->addr);
        return {buf, nullptr, j};
    }
    }
}
V fromText(const TextType& t, std::string s) { return {std::move(s), &t, nullptr}; }

struct Broken : std::runtime_error { using std::runtime_error::runtime_error; };

struct T;
using TP = std::shared_ptr<T>;
struct T
{
    enum K { Leaf, Field, Path, Elements, Self, Un, Cast, Bin, Word2, Word1, Idx, And, Or, Sub, Call, Unpack } k;
    std::string op;   // operator, name or text
    std::vector<TP> kids;
    std::vector<V> values; // of a leaf
    Fn* fn = nullptr;
};
TP t(T::K k, std::string op = {}, std::vector<TP> kids = {}) { auto x = std::make_shared<T>(); x->k = k; x->op = std::move(op); x->kids = std::move(kids); return x; }

struct Reference
{
    std::vector<std::string> log;
    using Vs = std::vector<V>;

    static bool truth(const V& v)
    {
        if (v.type) return truthOf(v.text);
        if (v.b == V::True) return true;
        if (v.b == V::False || v.b == V::Null) return false;
        throw Unspec("truth");
    }
    static V unary(const std::string& op, const V& v)
    {
        if (!v.type) throw Unspec("scalar");
        if (op == "?") return truthOf(v.text) ? V{"true", nullptr, nullptr, V::True} : V{"false", nullptr, nullptr, V::False};
        if (op == "typeof") return {"s:" + v.type->ident};
        if (v.type->refuses(op)) throw Broken(op);
        return fromText(*v.type, TextType::unary(v.type->ident, op, v.text));
    }
    static V binary(const V& a, const std::string& op, const V& b, bool word)
    {
        auto type = a.type ? a.type : b.type;
        if (!type) {
            if (word) throw Broken(op);
            throw Unspec("scalars");
        }
        if (type->refuses(op)) throw Broken(op);
        return fromText(*type, TextType::binary(type->ident, a.text, op, b.text));
    }
    Vs eval(const T& e, const V& ctx)
    {
        Vs out;
        auto kid = [&](size_t i) { return eval(*e.kids[i], ctx); };
        switch (e.k) {
        case T::Leaf: return e.values;
        case T::Self: return {ctx};
        case T::Field: return {fromJ(ctx.node ? ctx.node->get(e.op) : nullptr)};
        case T::Elements: {
            for (auto& v : kid(0)) {
                if (!v.node) continue;
                for (size_t i = 0; i < v.node->size(); ++i) {
                    auto x = fromJ(v.node->at((int64_t)i));
                    out.push_back(x);
                }
            }
            if (out.empty()) out.push_back(fromJ(nullptr));
            return out;
        }
        case T::Path:
            for (auto& v : kid(0)) {
                if (v.b == V::Null && !v.node) continue;
                for (auto& x : eval(*e.kids[1], v))
                    if (x.b != V::Null || x.node) out.push_back(x);
            }
            if (out.empty()) out.push_back(fromJ(nullptr));
            return out;
        case T::Un: case T::Cast:
            if (e.k == T::Cast && e.op == "null") return {fromJ(nullptr)};
            for (auto& v : kid(0)) out.push_back(unary(e.k == T::Cast && e.op == "bool" ? "?" : e.op, v));
            return out;
        case T::Word1:
            for (auto& v : kid(0)) {
                if (!v.type) throw Broken(e.op);
                out.push_back(unary(e.op, v));
            }
            return out;
        case T::Bin: case T::Word2:
            for (auto& a : kid(0))
                for (auto& b : kid(1)) out.push_back(binary(a, e.op, b, e.k == T::Word2));
            return out;
        case T::Idx:
            for (auto& a : kid(0)) {
                if (a.node) throw Unspec("node subscript");
                for (auto& b : kid(1)) out.push_back(binary(a, "[]", b, false));
            }
            return out;
        case T::And: case T::Or:
            for (auto& a : kid(0)) {
                if (truth(a) == (e.k == T::Or)) out.push_back(a);
                else for (auto& b : kid(1)) out.push_back(b);
            }
            return out;
        case T::Sub:
            for (auto& a : kid(0))
                for (auto& b : eval(*e.kids[1], a)) if (truth(b)) out.push_back(a);
            if (out.empty()) out.push_back(fromJ(nullptr));
            return out;
        case T::Unpack:
            for (auto& v : kid(0)) {
                if (!v.type) { out.push_back(v); continue; }
                for (size_t i = 0; i < TextType::parts(v.text); ++i) {
                    if (v.type == &symT) out.push_back(fromText(symT, "part" + std::to_string(i) + " of " + v.text));
                    else out.push_back({"i:" + std::to_string(i)});
                }
            }
            if (out.empty()) out.push_back(fromJ(nullptr));
            return out;
        case T::Call: {
            if (!e.fn) throw Broken("unknown function " + e.op);
            if (e.fn->kind == Fn::None) return {fromJ(nullptr)};
            if (e.fn->kind == Fn::Here) return {ctx};
            if (e.fn->kind == Fn::Two) {
                if (!e.kids.empty()) {
                    out = kid(0);
                    if (out.size() > 2) out.resize(2);
                }
                if (out.empty()) out.push_back(fromJ(nullptr));
                return out;
            }
            std::string text;
            std::vector<Vs> in;
            for (size_t i = 0; i < e.kids.size(); ++i) {
                in.push_back(kid(i));
                for (size_t n = 0; n < in.back().size(); ++n) text += (n ? "," : "") + in.back()[n].text;
                text += ";";
            }
            if (e.fn->kind == Fn::Rec) return {{"s:" + e.fn->info.ident + "(" + text + ")"}};
            if (e.fn->kind == Fn::Imp) log.push_back(e.fn->info.ident + "(" + text + ")@" + ctx.text);
            for (auto& a : in)
                for (auto& v : a) out.push_back(e.fn->kind == Fn::Imp ? v : fromText(*e.fn->type, "new " + v.text));
            if (out.empty()) out.push_back(fromJ(nullptr));
            return out;
        }
        }
        return out;
    }
};

/// Does the expression yield nothing but objects?
bool onlyObjects(const T& e)
{
    auto kid = [&](size_t i) { return onlyObjects(*e.kids[i]); };
    switch (e.k) {
    case T::Leaf: return e.values[0].type;
    case T::Un: return e.op != "?" && e.op != "typeof";
    case T::Cast: return e.op != "bool" && e.op != "null";
    case T::Bin: case T::Word2: case T::Word1: case T::Idx: return true; // or nothing at all
    case T::And: case T::Or: return kid(0) && kid(1);
    case T::Call:
        if (!e.fn) return false;
        if (e.fn->kind == Fn::Make) return true;
        if (e.fn->kind != Fn::Imp && e.fn->kind != Fn::Two) return false;
        for (size_t i = 0; i < e.kids.size(); ++i) if (!kid(i)) return false;
        return true;
    default: return false;
    }
}
/// May something in it, evaluated or not, be an operator without an object or one that is refused?
bool mayRaise(const T& e)
{
    for (auto& k : e.kids) if (mayRaise(*k)) return true;
    auto kid = [&](size_t i) { return onlyObjects(*e.kids[i]); };
    switch (e.k) {
    case T::Un: case T::Cast: case T::Word1: return !kid(0) || e.op == "^";
    case T::Bin: case T::Word2: return (!kid(0) && !kid(1)) || e.op == "^" || e.op == "dislikes";
    case T::Idx: return !kid(0) && !kid(1);
    case T::Call: return !e.fn;
    default: return false;
    }
}
bool uses(const T& e, Fn::Kind k)
{
    if (e.k == T::Call && e.fn && e.fn->kind == k) return true;
    for (auto& x : e.kids) if (uses(*x, k)) return true;
    return false;
}

struct Gen
{
    Rng& r;
    std::vector<std::pair<std::string, V>> objects, scalars; // registered constants
    std::vector<std::pair<std::string, JP>> nodes;           // constants that are nodes
    bool broken = false;  // contains something unknown
    bool inSub = false;
    bool impure = false;
    int errors = 0;       // percent

    std::string recase(std::string s, bool constant)
    {
        if (r.chance(60)) return s;
        for (auto& c : s)
            if (r.chance(40)) c = (char)(std::islower((unsigned char)c) ? std::toupper((unsigned char)c) : std::tolower((unsigned char)c));
        if (constant) s[0] = (char)std::tolower((unsigned char)s[0]); // words in capitals are strings
        return s;
    }
    TP leaf(std::string text, V v) { auto x = t(T::Leaf, std::move(text)); x->values = {std::move(v)}; return x; }
    TP scalar(int d)
    {
        switch (r.below(d > 0 ? 10 : 6)) {
        case 0: { auto i = r.range(0, 99); return leaf(std::to_string(i), {"i:" + std::to_string(i)}); }
        case 1: { std::string s = r.pick({"x", "yy", "it's", ""}); return leaf("\"" + s + "\"", {"s:" + s}); }
        case 2: return r.chance(50) ? leaf("true", {"true", nullptr, nullptr, V::True}) : leaf("null", fromJ(nullptr));
        case 3: { auto& c = r.pick(scalars); return leaf(recase(c.first, true), c.second); }
        case 4:
            if (inSub) return leaf("7", {"i:7"});
            return t(T::Field, r.pick({"n", "s", "p", "x", "missing", "o"}));
        case 5: {
            if (inSub) return leaf("8", {"i:8"});
            if (r.chance(50)) return t(T::Path, "", {t(T::Elements, "", {t(T::Field, "l")}), t(T::Field, r.pick({"n", "s", "missing"}))});
            if (r.chance(50)) return t(T::Path, "", {t(T::Field, "o"), t(T::Field, r.pick({"n", "s", "o", "missing"}))});
            auto& c = r.pick(nodes);
            auto x = leaf(recase(c.first, true), fromJ(c.second.get()));
            return t(T::Path, "", {x, t(T::Field, r.pick({"n", "s", "o", "missing"}))});
        }
        case 6: return call(r.pick({&rec, &rec2}), d);
        case 7: return t(T::Un, r.pick({"typeof", "?"}), {object(d - 1)});
        case 8: return t(T::Cast, r.pick({"bool", "null"}), {object(d - 1)});
        default: return call(r.chance(70) ? &here : &none, d);
        }
    }
    TP any(int d) { return r.chance(60) ? object(d) : scalar(d); }
    TP call(Fn* f, int d, int min = 0)
    {
        auto x = t(T::Call, recase(f->info.ident, false));
        x->fn = f;
        for (int n = (int)r.range(min, 3); n > 0; --n) x->kids.push_back(any(d - 1));
        return x;
    }
    TP object(int d)
    {
        if (d <= 0) { auto& c = r.pick(objects); return leaf(recase(c.first, true), c.second); }
        if (r.chance(errors)) {
            broken = true;
            switch (r.below(3)) {
            case 0: { auto x = t(T::Call, r.pick({"nosuch", "makesyms", "re_c", "mak"})); if (r.chance(70)) x->kids.push_back(any(d - 1)); return x; }
            case 1: return t(T::Word2, r.pick({"foo", "dot", "rec"}), {scalar(0), scalar(0)});
            default: return t(T::Word1, r.pick({"foo", "norm"}), {scalar(0)});
            }
        }
        switch (r.below(16)) {
        case 0: { auto& c = r.pick(objects); return leaf(recase(c.first, true), c.second); }
        case 1: case 2: { auto f = call(r.pick({&makeSym, &makeTag}), 0); f->kids = {any(d - 1)}; return f; }
        case 3: return t(T::Un, r.pick({"-", "~", "#", "not"}), {object(d - 1)});
        case 4: return t(T::Cast, r.pick({"int", "float", "string"}), {object(d - 1)});
        case 5: return t(T::Word1, r.pick({"norm", "Length", "and_then", "rec"}), {object(d - 1)});
        case 6: return t(T::Idx, "", {object(d - 1), any(d - 1)});
        case 7: return t(r.chance(50) ? T::And : T::Or, "", {object(d - 1), object(d - 1)});
        case 8: return t(T::Unpack, "", {any(d - 1)});
        case 9: { impure = true; auto f = call(&imp, d, 1); f->kids[0] = object(d - 1); return f; }
        case 10: { auto f = call(&two, 0); f->kids = {object(d - 1)}; return f; }
        case 11: {
            auto saved = inSub;
            auto left = object(d - 1);
            inSub = true;
            auto s = r.chance(60) ? t(T::Bin, r.pick({"+", "<", "=="}), {t(T::Self), any(d - 2)}) : object(d - 1);
            inSub = saved;
            return t(T::Sub, "", {left, s});
        }
        default: {
            auto word = r.chance(25);
            auto op = word ? r.pick({"dot", "Cross", "touches", "dislikes", "makesym"}) : r.pick({"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&", "|", "^", "<<", ">>"});
            auto a = r.chance(70) ? object(d - 1) : scalar(d - 1);
            auto b = a->k != T::Leaf || r.chance(50) ? object(d - 1) : any(d - 1);
            return t(word ? T::Word2 : T::Bin, op, {a, b});
        }
        }
    }

    std::string ws() { return r.chance(85) ? "" : r.pick({" ", "\t", "\n", "  "}); }
    /// As an operand.
    std::string o(const T& e)
    {
        if (e.k == T::Leaf || e.k == T::Field || e.k == T::Call || e.k == T::Self) return p(e);
        return "(" + ws() + p(e) + ws() + ")";
    }
    std::string p(const T& e)
    {
        auto k = [&](size_t i) { return o(*e.kids[i]); };
        switch (e.k) {
        case T::Leaf: case T::Field: return e.op;
        case T::Self: return "_";
        case T::Elements: return p(*e.kids[0]) + ".*";
        case T::Path: return p(*e.kids[0]) + "." + p(*e.kids[1]);
        case T::Un: return e.op == "?" ? k(0) + "?" : e.op + " " + k(0);
        case T::Cast: return k(0) + " as " + e.op;
        case T::Bin: case T::Word2: return k(0) + " " + ws() + e.op + " " + k(1);
        case T::Word1: return k(0) + " " + e.op;
        case T::Idx: return k(0) + "[" + ws() + p(*e.kids[1]) + "]";
        case T::And: return k(0) + " and " + k(1);
        case T::Or: return k(0) + " or " + k(1);
        case T::Sub: return k(0) + "{" + ws() + p(*e.kids[1]) + "}";
        case T::Unpack: return k(0) + " ...";
        case T::Call: {
            std::string s = e.op + "(" + ws();
            for (size_t i = 0; i < e.kids.size(); ++i) s += (i ? ", " : "") + p(*e.kids[i]);
            return s + ws() + ")";
        }
        }
        return "";
    }
};

JP simpleDoc(Rng& r)
{
    auto inner = [&](bool deep) {
        auto o = mk(J::Obj);
        o->obj = {{"n", jint(r.range(-5, 300))}, {"s", jstr(r.pick({"a", "bc", ""}))}, {"p", jbool(r.chance(50))}, {"x", jfloat(1.5)}};
        if (deep) o->obj.emplace_back("alpha", jint(4711)); // hidden by a constant
        return o;
    };
    auto d = inner(true);
    auto o = inner(true);
    if (r.chance(80)) o->obj.emplace_back("o", inner(false));
    d->obj.emplace_back("o", o);
    auto l = mk(J::Arr);
    for (auto n = r.below(4); n > 0; --n) l->arr.push_back(inner(false));
    d->obj.emplace_back("l", l);
    return d;
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C28").run([](vh::Harness& h, Rng& r, uint64_t) {
        Fixture fx(simpleDoc(r), &r);
        for (auto f : allFns) {
            auto name = f->info.ident;
            if (r.chance(30)) for (auto& c : name) if (r.chance(30)) c = (char)std::toupper((unsigned char)c);
            fx.env->functions[name] = f;
        }
        Gen g{r};
        auto constant = [&](const std::string& n, Value v) { fx.env->constants.insert_or_assign(n, std::move(v)); };
        for (auto n : {"alpha", "beta", "gamma_2"}) {
            g.objects.emplace_back(n, fromText(symT, std::string("the ") + n));
            constant(n, symT.make(std::string("the ") + n));
        }
        g.objects.emplace_back("mark", fromText(tagT, "mark"));
        constant("Mark", tagT.make("mark"));
        auto i = (int64_t)r.range(-1000000, 1000000);
        g.scalars = {{"answer", {canon(Value::make(i))}}, {"label", {"s:Label \xc3\xa4"}}, {"yes", {"true", nullptr, nullptr, V::True}}, {"nothing", fromJ(nullptr)}, {"half", {canon(Value::make(0.5))}}, {"pi", {canon(Value::make(3.25))}}};
        constant("answer", Value::make(i));
        constant("label", Value::make(std::string("Label \xc3\xa4")));
        constant("yes", Value::t());
        constant("nothing", Value::null());
        constant("half", Value::make(0.5));
        constant("Pi", Value::make(3.25)); // replaces the built-in one
        // A node of another model as a constant.
        auto other = simpleDoc(r);
        auto pool2 = std::make_shared<simfil::ModelPool>(fx.strings);
        pool2->addRoot(store(*other, *pool2, &r));
        g.nodes.emplace_back("cfg", other);
        constant("cfg", Value::field(*pool2->root(0)));

        for (int k = 0; k < 12; ++k) {
            g.broken = g.impure = false;
            g.errors = r.chance(20) ? 8 : 0;
            auto e = r.chance(80) ? g.object(1 + (int)r.below(5)) : g.scalar(3);
            if (r.chance(20)) // with another context
                e = t(T::Path, "", {r.chance(50) ? t(T::Field, "o") : t(T::Elements, "", {t(T::Field, "l")}), [&] { g.impure = true; auto f = g.call(&imp, 2, 1); f->kids[0] = e; return f; }()});
            auto text = g.p(*e);
            if (text.size() > 1500) continue;
            h.input(text + "   on   " + jsonText(*fx.doc));
            Reference in;
            bool raises = false;
            std::vector<V> want;
            try {
                want = in.eval(*e, fromJ(fx.doc.get()));
            } catch (const Unspec&) { h.count("unspecified"); continue; } catch (const Broken&) { raises = true; }
            if (want.size() > 2000) continue;
            events.clear();
            wrong.clear();
            late = 0;
            auto got = execute(*fx.env, text, *fx.root(), false, false, show);
            h.count("queries");
            if (!wrong.empty()) h.violation("operator", wrong);
            if (late) h.violation("not-stopped", "values were produced after the consumer had stopped");
            if (raises) {
                h.count("raising");
                if (!got.raised && uses(*e, Fn::Two)) { h.count("lazy"); continue; } // values that are not asked for
                if (!got.raised) h.violation("error-missed", "something unknown or refused is used, but the result is " + got.text());
                continue;
            }
            if (got.compileRaised && mayRaise(*e)) { h.count("raised-early"); continue; }
            if (got.raised) { h.violation("unexpected-error", got.text()); continue; }
            std::vector<std::string> texts;
            for (auto& v : want) texts.push_back(v.text);
            if (got.values != texts) {
                std::string s;
                for (auto& x : texts) s += " " + x;
                h.violation("wrong-result", "got " + got.text() + ", expected " + std::to_string(texts.size()) + " values:" + s);
                continue;
            }
            std::sort(events.begin(), events.end()); // the order of calls is not specified
            std::sort(in.log.begin(), in.log.end());
            if (!uses(*e, Fn::Two) && events != in.log) {
                std::string a, b;
                for (auto& x : events) a += " " + x;
                for (auto& x : in.log) b += " " + x;
                h.violation("wrong-calls", "the function was called:" + a + "; expected:" + b);
                continue;
            }
            h.count("calls with logged arguments", events.size());
            if (g.impure) h.count("impure queries");
            if (texts.size() > 1) h.count("several values");
            h.count("results", texts.size());
            h.sample(text);
            h.distinct(vh::hashStr(text, 3));
        }
        // What is registered is registered in this environment only, and can be replaced.
        if (r.chance(30)) {
            simfil::Environment plain(fx.strings);
            auto q = [&](simfil::Environment& env, const std::string& text) {
                h.input(text);
                h.count("registrations");
                auto x = execute(env, text, *fx.root(), false, false, show);
                return x.raised ? "error" : x.values.size() == 1 ? x.values[0] : x.text();
            };
            auto expect = [&](const char* what, const std::string& got, const std::string& want) {
                if (got != want) h.violation("registration", std::string(what) + ": got " + got + ", expected " + want);
            };
            for (auto f : allFns) expect("a function of another environment", q(plain, f->info.ident + "(1)"), "error");
            expect("a constant of another environment", q(plain, "alpha"), "i:4711");
            expect("the constant", q(*fx.env, "Alpha"), "the alpha");
            expect("a field named like a constant", q(*fx.env, "_.alpha"), "i:4711");
            expect("a field named like a constant", q(*fx.env, "o.alpha"), "i:4711");
            expect("the built-in function", q(*fx.env, "count(1, 2)"), "i:2");
            // Every registered function is found under its name and describes itself.
            for (auto& [name, f] : fx.env->functions) {
                auto mixed = name;
                for (auto& c : mixed) if (r.chance(40)) c = (char)std::toupper((unsigned char)c);
                h.input("findFunction(" + mixed + ")");
                if (fx.env->findFunction(mixed) != f) h.violation("find", "findFunction(" + mixed + ") does not find " + name);
                bool own = std::find(std::begin(allFns), std::end(allFns), f) != std::end(allFns);
                auto& info = f->ident();
                bool alias = name == "all" && info.ident == "each";
                if ((!J::ieq(info.ident, name) && !alias) || (!own && (info.description.empty() || info.signature.find(info.ident + "(") == std::string::npos)))
                    h.violation("describe", "the function " + name + " describes itself as " + info.ident + ", " + info.signature + ": " + info.description);
                // What functions report about their arguments.
                auto lo = r.below(4), hi = lo + r.below(3), have = hi + 1 + r.below(900);
                auto says = [&](const std::exception& e, std::initializer_list<std::string> parts) {
                    std::string text = e.what(), again = e.what();
                    for (auto& p : parts)
                        if (text.find(p) == std::string::npos || text != again) h.violation("argument-error", "the message " + vh::quote(text) + " does not mention " + p);
                };
                simfil::ArgumentCountError count(*f, lo, hi, have);
                says(count, {info.ident, std::to_string(lo), std::to_string(hi), std::to_string(have)});
                auto copy = count;
                says(copy, {info.ident, std::to_string(have)});
                says(simfil::ArgumentValueCountError(*f, have), {info.ident, std::to_string(have)});
                says(simfil::ArgumentTypeError(*f, have, "wanted", "gotten"), {info.ident, std::to_string(have), "wanted", "gotten"});
                h.count("descriptions");
            }
            for (auto& [name, v] : fx.env->constants) {
                auto mixed = name;
                for (auto& c : mixed) if (r.chance(40)) c = (char)std::toupper((unsigned char)c);
                if (fx.env->findConstant(mixed) != &v) h.violation("find", "findConstant(" + mixed + ") does not find " + name);
            }
            auto missing = std::string(r.pick({"", "coun", "countt", "nosuch", "any ", "\xc3\xa4"}));
            if (fx.env->findFunction(missing) || fx.env->findConstant(missing)) h.violation("find", "something is found under the name " + vh::quote(missing));
            auto name = std::string(r.pick({"count", "COUNT", "Count"}));
            fx.env->functions.insert_or_assign(name, &rec);
            expect("the replaced function", q(*fx.env, "cOunt(1, 2)"), "s:rec(i:1;i:2;)");
            fx.env->functions.erase(name);
            expect("the removed function", q(*fx.env, "count(1, 2)"), "error");
            expect("the built-in function elsewhere", q(plain, "count(1, 2)"), "i:2");
            fx.env->constants.erase("ALPHA");
            expect("the removed constant", q(*fx.env, "alpha"), "i:4711");
            expect("a method name", q(*fx.env, "rec ()"), "s:rec()");
        }
        h.count("operators", operators);
        h.count("calls", calls);
        operators = calls = 0;
    });
}
