// C22: JSON documents survive import and export.
#include "refeval.hpp"
#include "simfil/model/json.h"
#include "simfil/model/model.h"
#include "simfil/simfil.h"
#include "simfil/environment.h"
#include "simfil/value.h"
#include <sstream>
using namespace ref;
using vh::Rng;

namespace {

std::string utf8(uint32_t c)
{
    std::string s;
    if (c < 0x80) s += (char)c;
    else if (c < 0x800) { s += (char)(0xc0 | c >> 6); s += (char)(0x80 | (c & 63)); }
    else if (c < 0x10000) { s += (char)(0xe0 | c >> 12); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    else { s += (char)(0xf0 | c >> 18); s += (char)(0x80 | (c >> 12 & 63)); s += (char)(0x80 | (c >> 6 & 63)); s += (char)(0x80 | (c & 63)); }
    return s;
}

std::string randomText(Rng& r)
{
    std::string s;
    if (r.chance(3)) s = std::string(r.range(100, 70000), 'L');
    for (auto n = r.below(8); n > 0; --n)
        switch (r.below(6)) {
        case 0: s += (char)r.below(128); break;
        case 1: s += utf8(r.pick({0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xe000u, 0xffffu, 0x10000u, 0x10ffffu, 0xe4u, 0xdfu, 0x131u, 0x212au})); break;
        case 2: s += r.pick({"\"", "\\", "/", "\b", "\f", "\n", "\r", "\t", "'", "\\u", "\\n", "$sum", "null"}); break;
        case 3: { auto c = (uint32_t)r.below(0x110000); if (c >= 0xd800 && c < 0xe000) c = 'x'; s += utf8(c); break; }
        default: s += (char)('a' + r.below(26));
        }
    return s;
}

/// A document, and one of the texts that denote it.
struct Doc
{
    Rng& r;
    int budget = 60;
    std::set<std::string> none;

    std::string ws()
    {
        if (r.chance(70)) return "";
        std::string s;
        for (auto n = r.below(4); n > 0; --n) s += r.pick({' ', '\n', '\t', '\r'});
        return s;
    }
    std::string str(const std::string& s)
    {
        std::string t = "\"";
        for (size_t i = 0; i < s.size();) {
            unsigned char c = (unsigned char)s[i];
            size_t len = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
            uint32_t cp = len == 1 ? c : len == 2 ? c & 31 : len == 3 ? c & 15 : c & 7;
            for (size_t k = 1; k < len; ++k) cp = cp << 6 | ((unsigned char)s[i + k] & 63);
            char buf[32];
            bool must = c < 0x20 || c == '"' || c == '\\';
            static const std::map<char, const char*> shorts{{'"', "\\\""}, {'\\', "\\\\"}, {'/', "\\/"}, {'\b', "\\b"}, {'\f', "\\f"}, {'\n', "\\n"}, {'\r', "\\r"}, {'\t', "\\t"}};
            if (shorts.count((char)c) && r.chance(60)) t += shorts.at((char)c);
            else if (must || (s.size() < 1000 && r.chance(15))) {
                const char* f = r.chance(50) ? "\\u%04x" : "\\u%04X";
                if (cp < 0x10000) { snprintf(buf, sizeof buf, f, cp); t += buf; }
                else {
                    snprintf(buf, sizeof buf, f, 0xd800 + ((cp - 0x10000) >> 10)); t += buf;
                    snprintf(buf, sizeof buf, f, 0xdc00 + ((cp - 0x10000) & 0x3ff)); t += buf;
                }
            } else t += s.substr(i, len);
            i += len;
        }
        return t + "\"";
    }
    std::pair<JP, std::string> scalar()
    {
        switch (r.below(9)) {
        case 0: return {jnull(), "null"};
        case 1: return {jbool(true), "true"};
        case 2: return {jbool(false), "false"};
        case 3: case 4: {
            int64_t v = r.chance(50)
                ? r.pick({(int64_t)0, (int64_t)1, (int64_t)-1, (int64_t)65535, (int64_t)65536, (int64_t)-32768, (int64_t)-32769, (int64_t)32767, (int64_t)32768, INT64_MAX, INT64_MIN, INT64_MAX - 1, INT64_MIN + 1, (int64_t)1 << 53, ((int64_t)1 << 53) + 1, -((int64_t)1 << 31)})
                : (int64_t)(r.next() >> r.below(64)) * (r.chance(50) ? 1 : -1);
            return {jint(v), v == 0 && r.chance(20) ? "-0" : std::to_string(v)};
        }
        case 5: {
            // A decimal number with an exact double value.
            double v = (double)r.range(-100000, 100000) / (double)(1 << r.below(12));
            char buf[64];
            snprintf(buf, sizeof buf, r.pick({"%.17g", "%.20e", "%.15f"}), v);
            std::string t = buf;
            if (t.find_first_of(".e") == std::string::npos) t += r.pick({".0", "e0", "E+0", ".000"});
            return {jfloat(v), t};
        }
        case 6: {
            uint64_t u = r.next();
            double v;
            memcpy(&v, &u, 8);
            if (!std::isfinite(v)) v = 1.5;
            if (r.chance(20)) v = r.pick({5e-324, 1.7976931348623157e308, 2.2250738585072014e-308, 0.1, 1e22, 1e23, -0.0});
            auto t = fmtFloat(v);
            return {jfloat(v), t};
        }
        case 7: {
            // Integers outside the 64 bit signed range become floats.
            uint64_t v = (uint64_t)INT64_MAX + 1 + (r.chance(50) ? 0 : r.next() % ((uint64_t)1 << r.below(64)));
            if (v <= (uint64_t)INT64_MAX) v = UINT64_MAX;
            if (r.chance(50)) return {jfloat((double)v), std::to_string(v)};
            auto t = std::to_string(r.range(1, 9)) + std::string(r.range(20, 40), '0');
            if (r.chance(50)) t = "-" + t;
            return {jfloat(std::stod(t)), t};
        }
        default: {
            auto s = randomText(r);
            return {jstr(s), str(s)};
        }
        }
    }
    std::pair<JP, std::string> value(int depth)
    {
        if (--budget < 0 || depth > 6 || r.chance(35)) return scalar();
        if (r.chance(50)) {
            auto j = mk(J::Arr);
            std::string t = "[" + ws();
            for (auto n = r.below(5); n > 0; --n) {
                auto [v, x] = value(depth + 1);
                if (!j->arr.empty()) t += "," + ws();
                j->arr.push_back(v);
                t += x + ws();
            }
            return {j, t + "]"};
        }
        auto j = mk(J::Obj);
        std::string t = "{" + ws();
        for (auto n = r.below(6); n > 0; --n) {
            auto name = r.chance(50) ? r.pick({std::string("a"), std::string("B"), std::string("name"), std::string("Id"), std::string(""), std::string("_"), std::string("a.b"), std::string("k\0k", 3), std::string("$val")}) : randomText(r);
            if (name.size() > 60000) continue;
            if (j->get(name)) continue;
            auto [v, x] = value(depth + 1);
            if (!j->obj.empty()) t += "," + ws();
            j->obj.emplace_back(name, v);
            t += str(name) + ws() + ":" + ws() + x + ws();
        }
        return {j, t + "}"};
    }
};

/// Is this JSON value the document? Names may differ in letter case if `fold`.
bool equal(const nlohmann::json& j, const J& d, bool fold, std::string& why, const std::string& path = "$")
{
    auto no = [&](const std::string& s) { if (why.empty()) why = path + ": " + s; return false; };
    switch (d.k) {
    case J::Null: return j.is_null() || no("not null");
    case J::Bool: return (j.is_boolean() && j.get<bool>() == d.b) || no("not the boolean");
    case J::Int:
        if (!j.is_number_integer()) return no("not an integer");
        if (j.is_number_unsigned() ? j.get<uint64_t>() != (uint64_t)d.i || d.i < 0 : j.get<int64_t>() != d.i) return no("is " + j.dump() + " instead of " + std::to_string(d.i));
        return true;
    case J::Float: {
        if (!j.is_number_float()) return no("not a float");
        auto v = j.get<double>();
        return !memcmp(&v, &d.f, 8) || no("is " + fmtFloat(v) + " instead of " + fmtFloat(d.f));
    }
    case J::Str: return (j.is_string() && j.get_ref<const std::string&>() == d.s) || no("not the string");
    case J::Arr:
        if (!j.is_array() || j.size() != d.arr.size()) return no("not an array of " + std::to_string(d.arr.size()));
        for (size_t i = 0; i < j.size(); ++i)
            if (!equal(j[i], *d.arr[i], fold, why, path + "[" + std::to_string(i) + "]")) return false;
        return true;
    default:
        if (!j.is_object() || j.size() != d.obj.size()) return no("not an object of " + std::to_string(d.obj.size()));
        for (auto& [k, v] : d.obj) {
            auto it = j.find(k);
            if (it == j.end() && fold)
                for (it = j.begin(); it != j.end(); ++it)
                    if (J::ieq(it.key(), k)) break;
            if (it == j.end()) return no("member " + vh::quote(k) + " is missing");
            if (!equal(*it, *v, fold, why, path + "." + k)) return false;
        }
        return true;
    }
}

/// The same through the nodes of the model, which also tell the order of members.
bool equalNode(const simfil::ModelNode& n, const J& d, const simfil::StringPool& strings, std::string& why, const std::string& path = "$")
{
    using simfil::ValueType;
    auto no = [&](const std::string& s) { if (why.empty()) why = path + ": " + s; return false; };
    static const std::map<J::K, ValueType> types{{J::Null, ValueType::Null}, {J::Bool, ValueType::Bool}, {J::Int, ValueType::Int}, {J::Float, ValueType::Float}, {J::Str, ValueType::String}, {J::Obj, ValueType::Object}, {J::Arr, ValueType::Array}};
    if (n.type() != types.at(d.k)) return no("node has another type");
    if (n.size() != d.size()) return no("node has another size");
    // nlohmann::json sorts the members of an object, so only their set is fixed.
    if (d.k == J::Arr)
        for (size_t i = 0; i < d.arr.size(); ++i) {
            auto c = n.at((int64_t)i);
            if (!c || !equalNode(*c, *d.arr[i], strings, why, path + "[" + std::to_string(i) + "]")) return no("element");
        }
    if (d.k == J::Obj) {
        std::set<std::string> seen;
        for (auto const& [id, c] : n.fields()) {
            auto k = strings.resolve(id);
            if (!k) return no("unknown name");
            auto want = d.get(*k);
            if (!want) return no("member " + vh::quote(*k) + " is not in the document");
            if (!seen.insert(std::string(*k)).second) return no("member " + vh::quote(*k) + " is there twice");
            if (!equalNode(*c, *want, strings, why, path + "." + std::string(*k))) return false;
        }
    }
    return true;
}

/// Collects the names of a document. False if two differ by letter case only.
bool names(const J& d, std::map<std::string, std::string>& all)
{
    bool ok = true;
    for (auto& [k, v] : d.obj) {
        auto low = k;
        for (auto& c : low) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
        ok = all.emplace(low, k).first->second == k && ok;
        ok = names(*v, all) && ok;
    }
    for (auto& v : d.arr) ok = names(*v, all) && ok;
    return ok;
}

/// Texts that are not JSON.
std::string broken(Rng& r, const std::string& t)
{
    auto wordChar = [](char c) { return isalnum((unsigned char)c) || c == '.' || c == '-' || c == '+'; };
    switch (r.below(12)) {
    case 0: return t + r.pick({"]", "}", ",", " null", " {}", "\"", ":", "x", "[", std::string(1, '\x01').c_str()});
    case 1: return r.pick({"", " ", "\n\t"});
    case 2: return r.pick({"[", "{", "{\"a\":", "[1,", "\"", "[[]", "{\"a\"", "{\"a\":{}"}) + (r.chance(50) ? std::string() : "");
    case 3: return "[" + t + ",]";
    case 4: return "[,"  + t + "]";
    case 5: return "{\"a\":" + t + ",}";
    case 6: return "{a:" + t + "}";
    case 7: return "{\"a\" " + t + "}";
    case 8: return "[" + t + " " + t + "]";
    case 9: return "[" + r.pick({std::string("01"), std::string("+1"), std::string(".5"), std::string("1."), std::string("1e"), std::string("-"), std::string("0x10"), std::string("NaN"), std::string("Infinity"), std::string("nul"), std::string("True"), std::string("'a'"), std::string("\"\\x\""), std::string("\"\\u12\""), std::string("\"a\nb\""), std::string("\"\xff\""), std::string("\"\xc3\""), std::string("\"\\ud800\""), std::string("// c\n1"), std::string("\"\0\"", 3)}) + "]";
    case 10: {
        // The beginning of a container.
        auto n = t.find_last_not_of(" \n\t\r");
        if (n == std::string::npos || (t[n] != ']' && t[n] != '}' && t[n] != '"')) return "]";
        return t.substr(0, r.below(n + 1));
    }
    default: return t + (wordChar(t.empty() ? ' ' : t.back()) ? " 1" : "1");
    }
}

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C22").run([](vh::Harness& h, Rng& r, uint64_t) {
        bool shared = r.chance(30);
        auto strings = std::make_shared<simfil::StringPool>();
        simfil::ModelPoolPtr model;
        std::vector<JP> roots;
        auto docs = r.range(1, 4);
        for (int k = 0; k < docs; ++k) {
            Doc d{r};
            if (r.chance(2)) d.budget = 2000;
            auto [j, inner] = d.value(0);
            if (r.chance(2)) {
                // Deep nesting.
                auto depth = r.range(10, 150);
                for (int n = 0; n < depth; ++n) {
                    auto o = mk(n % 2 ? J::Arr : J::Obj);
                    if (n % 2) { o->arr.push_back(j); inner = "[" + inner + "]"; }
                    else { o->obj.emplace_back("n", j); inner = "{\"n\":" + inner + "}"; }
                    j = o;
                }
            }
            auto text = d.ws() + inner + d.ws();
            h.input(text);
            // Import.
            int how = (int)r.below(3);
            if (!model || (how == 0 && !shared)) {
                if (how == 0 && !shared) {
                    model = simfil::json::parse(text);
                    strings = model->strings();
                    roots = {j};
                } else {
                    model = shared ? std::make_shared<simfil::ModelPool>(strings) : std::make_shared<simfil::ModelPool>();
                    strings = model->strings();
                    roots.clear();
                }
            }
            if (roots.empty() || roots.back() != j) {
                if (how == 1) { std::istringstream in(text); simfil::json::parse(in, model); }
                else simfil::json::parse(text, model);
                roots.push_back(j);
            }
            h.count("imports");
            if (model->numRoots() != roots.size()) { h.violation("roots", "importing document " + std::to_string(roots.size()) + " leads to " + std::to_string(model->numRoots()) + " roots"); return; }
            // Names are interned without regard to letter case, so the first spelling counts.
            std::map<std::string, std::string> all_{{"$val", "$val"}, {"$sum", "$sum"}, {"$idx", "$idx"}};
            bool fold = false;
            for (auto& d : roots) fold = !names(*d, all_) || fold;
            h.count(fold ? "folded names" : "exact names");
            // Export: this document, and all earlier ones.
            for (size_t i = 0; i < roots.size(); ++i) {
                std::string why;
                auto out = model->root(i)->toJson();
                if (!equal(out, *roots[i], fold, why)) { h.violation("export", "document " + std::to_string(i) + " exports differently: " + why + " of " + jsonText(*roots[i]).substr(0, 500)); return; }
                if (!equalNode(*model->root(i), *roots[i], *strings, why)) { h.violation("nodes", "document " + std::to_string(i) + " is stored differently: " + why); return; }
                h.count("exports");
            }
            auto all = model->toJson();
            if (!all.is_array() || all.size() != roots.size() || all.back() != model->root(roots.size() - 1)->toJson()) h.violation("export-model", "the export of the model is not the list of its documents");
            // Import of the export.
            auto again = simfil::json::parse(model->root(roots.size() - 1)->toJson().dump());
            std::string why;
            if (!equal(again->root(0)->toJson(), *j, fold, why)) h.violation("again", "importing the exported text differs: " + why);
            h.count("round trips");
            // Broken texts are rejected and change nothing.
            for (int b = 0; b < 3; ++b) {
                auto t = broken(r, inner);
                h.input(t);
                h.count("invalid");
                auto before = model->numRoots();
                bool thrown = false;
                try {
                    switch (r.below(3)) {
                    case 0: (void)simfil::json::parse(t); break;
                    case 1: simfil::json::parse(t, model); break;
                    default: { std::istringstream in(t); simfil::json::parse(in, model); }
                    }
                } catch (const std::exception&) { thrown = true; }
                if (!thrown) { h.violation("invalid", "invalid JSON is accepted: " + t.substr(0, 500)); return; }
                if (model->numRoots() != before) { h.violation("invalid-root", "rejecting invalid JSON adds a root"); return; }
            }
            h.distinct(text);
            h.sample(text);
        }
    });
}
