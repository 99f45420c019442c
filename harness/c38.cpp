// C38: outcomes depend on nothing but the inputs: not on the locale, the process, the build or what ran before.
#include "qgen.hpp"
#include "lexgen.hpp"
#include <bit>
#include <clocale>
#include <csignal>
#include <locale>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <thread>
using namespace gen;

// ---------------------------------------------------------------- cases: data only, so that other builds can run them
struct Item { char kind; std::string data; };
using Case = std::vector<Item>;
using Results = std::vector<std::string>;

static void putInt(std::string& s, uint32_t v) { for (int i = 0; i < 4; ++i) s += (char)(v >> (8 * i)); }
static uint32_t getInt(const std::string& s, size_t& p)
{
    uint32_t v = 0;
    for (int i = 0; i < 4; ++i) v |= (uint32_t)(unsigned char)s.at(p++) << (8 * i);
    return v;
}
static std::string pack(const Case& c)
{
    std::string s;
    for (auto& i : c) { s += i.kind; putInt(s, (uint32_t)i.data.size()); s += i.data; }
    return s;
}
static Case unpack(const std::string& s)
{
    Case c;
    for (size_t p = 0; p < s.size();) {
        char k = s[p++];
        auto n = getInt(s, p);
        c.push_back({k, s.substr(p, n)});
        p += n;
    }
    return c;
}

// ---------------------------------------------------------------- what the library makes of a case
static std::string hex(uint64_t v)
{
    std::string s;
    for (int i = 60; i >= 0; i -= 4) s += "0123456789abcdef"[(v >> i) & 15];
    return s;
}
static std::string sum(const std::string& s) { return std::to_string(s.size()) + ":" + hex(vh::hashStr(s)); }
/// The sign of a NaN is nobody's business.
static std::string nan(std::string s)
{
    for (size_t p; (p = s.find("-nan")) != std::string::npos;) s.erase(p, 1);
    return s;
}
static std::string show(const simfil::Value& v)
{
    std::string s = std::to_string((int)v.type) + "|";
    if (v.type == simfil::ValueType::Float) {
        auto f = v.as<simfil::ValueType::Float>();
        s += f != f ? std::string("nan") : hex(std::bit_cast<uint64_t>(f));
    } else if (v.type == simfil::ValueType::Int)
        s += std::to_string(v.as<simfil::ValueType::Int>());
    s += "|" + v.toString();
    if (v.node) {
        s += "|" + std::to_string((int)v.node->type()) + "," + std::to_string(v.node->size());
        if (v.node->size() < 40) s += v.node->toJson().dump(-1, ' ', true, nlohmann::json::error_handler_t::replace);
    }
    return s;
}
template <class Fn>
static std::string guarded(Fn fn)
{
    try {
        return nan(fn());
    } catch (const std::exception& e) {
        return nan(std::string("raised: ") + e.what());
    }
}
static std::string saved(simfil::ModelPool& m, simfil::StringPool& s)
{
    std::ostringstream a, b;
    m.write(a);
    s.write(b);
    return "model " + sum(a.str()) + " names " + sum(b.str());
}
static std::string build(const std::string& seed, std::shared_ptr<simfil::ModelPool>& pool)
{
    // No two random numbers in one expression: their order is the compiler's choice.
    Rng r(vh::hashStr(seed));
    pool = std::make_shared<simfil::ModelPool>();
    std::vector<simfil::model_ptr<simfil::Object>> objects;
    std::vector<simfil::model_ptr<simfil::Array>> arrays;
    objects.push_back(pool->newObject(r.below(4)));
    auto flat = pool->newObject(r.below(4));
    flat->addField("Flat", 1.5);
    flat->addField("INSIDE", std::string_view("I"));
    static const std::vector<std::string> names{"id", "ID", "Title", "TITLE", "INDIGO", "s\xc4", "s\xe4", "stra\xc3\x9f""e", "I", "i", "name", "k1", "K1"};
    for (auto n = r.below(40); n > 0; --n) {
        auto what = r.below(12);
        auto a = r.next(), b = r.next();
        auto name = names[r.below(names.size())];
        if (r.chance(30)) name += std::to_string(r.below(5));
        auto& o = objects[a % objects.size()];
        switch (what) {
        case 0: {
            auto child = pool->newObject(b % 5);
            o->addField(name, child);
            objects.push_back(child);
            break;
        }
        case 1: arrays.push_back(pool->newArray(b % 5)); o->addField(name, arrays.back()); break;
        case 2: o->addField(name, (int64_t)b); break;
        case 3: o->addField(name, (double)(int64_t)b / 1024.); break;
        case 4: o->addField(name, std::string_view(name)); break;
        case 5: o->addBool(name, b & 1); break;
        case 6: o->addField(name, (uint16_t)b); break;
        case 7: o->addField(name, (int16_t)b); break;
        case 8: o->extend(flat); break;
        case 9: if (!arrays.empty()) arrays[b % arrays.size()]->append((double)(int32_t)b / 8.); break;
        case 10: if (!arrays.empty()) arrays[b % arrays.size()]->append(std::string_view(name)); break;
        default: if (!arrays.empty()) arrays[a % arrays.size()]->extend(arrays[b % arrays.size()]); break;
        }
    }
    pool->addRoot(simfil::ModelNode::Ptr(objects[0]));
    return pool->root(0)->toJson().dump(-1, ' ', true, nlohmann::json::error_handler_t::replace) + " " + saved(*pool, *pool->strings());
}
static std::string names(const std::string& seed)
{
    Rng r(vh::hashStr(seed));
    simfil::StringPool p;
    std::string s;
    static const std::vector<std::string> base{"id", "title", "INDIGO", "i", "name", "s\xc4", "\xdd\xde", "\xc3\x84pfel", "iiiI", "_", "a b"};
    auto name = [&] {
        auto n = base[r.below(base.size())];
        if (r.chance(50)) n = randCase(r, n);
        if (r.chance(40)) n += std::to_string(r.below(30));
        if (r.chance(10)) n += (char)r.range(128, 255);
        return n;
    };
    for (auto n = r.below(60); n > 0; --n) {
        auto a = name();
        if (r.chance(60)) s += "+" + std::to_string(p.emplace(a));
        else s += "?" + std::to_string(p.get(a));
    }
    std::ostringstream o;
    p.write(o);
    simfil::StringPool q;
    std::istringstream in(o.str());
    q.read(in);
    std::ostringstream o2;
    q.write(o2);
    s += " " + std::to_string(p.size()) + "," + std::to_string(p.bytes()) + "," + std::to_string(p.highest()) + "," + std::to_string(p.hits()) + "," + std::to_string(p.misses());
    return s + " " + sum(o.str()) + " " + sum(o2.str()) + (p == q ? " same" : " different");
}
static Results observe(const Case& c)
{
    Results out;
    std::shared_ptr<simfil::ModelPool> pool;
    std::unique_ptr<simfil::Environment> env;
    auto use = [&] { env = pool ? std::make_unique<simfil::Environment>(pool->strings()) : nullptr; };
    for (auto& i : c) {
        out.push_back(guarded([&]() -> std::string {
            switch (i.kind) {
            case 'T': {
                std::string s;
                for (auto& t : simfil::tokenize(i.data))
                    s += std::to_string((int)t.type) + "@" + std::to_string(t.begin) + "-" + std::to_string(t.end) + " " + t.toString() + "\n";
                return s;
            }
            case 'J':
                pool.reset();
                env.reset();
                pool = simfil::json::parse(i.data);
                use();
                return pool->root(0)->toJson().dump(-1, ' ', true, nlohmann::json::error_handler_t::replace) + " " + saved(*pool, *pool->strings());
            case 'S': {
                auto s = build(i.data, pool);
                use();
                return s;
            }
            case 'P': return names(i.data);
            default: {
                if (!env) return "no document";
                auto traces = env->traces.size();
                auto warnings = env->warnings.size();
                auto e = simfil::compile(*env, i.data.substr(1), i.data[0] & 1, i.data[0] & 2);
                std::string s = e->toString() + "\n";
                s += guarded([&] {
                    std::string t;
                    for (auto& v : simfil::eval(*env, *e, *pool->root(0))) t += show(v) + "\n";
                    return t;
                });
                (void)traces;
                for (auto& [n, t] : env->traces) {
                    s += "trace " + n + " " + std::to_string(t.calls);
                    for (auto& v : t.values) s += " " + show(v);
                    s += "\n";
                }
                for (auto k = warnings; k < env->warnings.size(); ++k) s += "warning " + env->warnings[k].first + " " + env->warnings[k].second + "\n";
                return s;
            }
            }
        }));
    }
    return out;
}

// ---------------------------------------------------------------- other builds, in processes of their own
static bool writeAll(int fd, const std::string& s)
{
    for (size_t p = 0; p < s.size();) {
        auto n = write(fd, s.data() + p, s.size() - p);
        if (n <= 0) return false;
        p += (size_t)n;
    }
    return true;
}
static bool readAll(int fd, size_t n, std::string& s)
{
    s.resize(n);
    for (size_t p = 0; p < n;) {
        auto k = read(fd, s.data() + p, n - p);
        if (k <= 0) return false;
        p += (size_t)k;
    }
    return true;
}
static bool sendText(int fd, const std::string& s) { std::string l; putInt(l, (uint32_t)s.size()); return writeAll(fd, l + s); }
static bool recvText(int fd, std::string& s)
{
    std::string l;
    if (!readAll(fd, 4, l)) return false;
    size_t p = 0;
    return readAll(fd, getInt(l, p), s);
}
static int peer()
{
    std::string s;
    while (recvText(0, s)) {
        Case answer;
        for (auto& o : observe(unpack(s))) answer.push_back({'O', o});
        if (!sendText(1, pack(answer))) break;
    }
    return 0;
}
struct Peer
{
    std::string exe;
    bool memcheck = false;  // run by valgrind: reports every use of memory that was never written
    std::string log;
    pid_t pid = 0;
    int in = -1, out = -1;
    void stop()
    {
        if (!pid) return;
        close(in);
        close(out);
        kill(pid, SIGKILL);
        waitpid(pid, nullptr, 0);
        pid = 0;
    }
    void start(unsigned perturb)
    {
        int a[2], b[2];
        if (pipe2(a, O_CLOEXEC) || pipe2(b, O_CLOEXEC)) { perror("HARNESS pipe"); exit(2); }
        auto p = "MALLOC_PERTURB_=" + std::to_string(perturb);
        std::vector<std::string> env{p, "LC_ALL=C"};
        std::vector<char*> ev;
        for (auto& e : env) ev.push_back(e.data());
        ev.push_back(nullptr);
        char arg[] = "--peer";
        char tool[] = "/usr/bin/valgrind", o1[] = "-q", o2[] = "--error-exitcode=97", o3[] = "--exit-on-first-error=yes", o4[] = "--leak-check=no", o5[] = "--max-stackframe=8000000";
        auto o6 = "--log-file=" + log;
        char* direct[] = {exe.data(), arg, nullptr};
        char* checked[] = {tool, o1, o2, o3, o4, o5, o6.data(), exe.data(), arg, nullptr};
        if (memcheck) ev[0] = nullptr;
        pid = vfork();
        if (pid == 0) {
            dup2(a[0], 0);
            dup2(b[1], 1);
            execve(memcheck ? tool : exe.c_str(), memcheck ? checked : direct, ev.data());
            _exit(127);
        }
        close(a[0]);
        close(b[1]);
        in = a[1];
        out = b[0];
    }
    bool ask(const Case& c, Results& o)
    {
        std::string s;
        if (!sendText(in, pack(c)) || !recvText(out, s)) return false;
        o.clear();
        for (auto& i : unpack(s)) o.push_back(i.data);
        return true;
    }
    std::string end()
    {
        int st = 0;
        close(in);
        close(out);
        waitpid(pid, &st, 0);
        pid = 0;
        std::string text;
        if (memcheck)
            if (FILE* f = fopen(log.c_str(), "r")) {
                char buf[3000];
                text.assign(buf, fread(buf, 1, sizeof buf, f));
                fclose(f);
            }
        return (WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st))) + " " + text;
    }
};

// ---------------------------------------------------------------- locales
struct Grouping : std::numpunct<char>
{
    char do_decimal_point() const override { return ';'; }
    char do_thousands_sep() const override { return '\''; }
    std::string do_grouping() const override { return "\1"; }
    std::string do_truename() const override { return "ja"; }
};
struct Reverse : std::collate<char>
{
    int do_compare(const char* a, const char* ae, const char* b, const char* be) const override { return std::string(b, be).compare(std::string(a, ae)); }
    string_type do_transform(const char* a, const char* ae) const override { std::string s(a, ae); for (auto& c : s) c = (char)~c; return s; }
};
/// A character set of its own: all letters are upper case, high bytes are letters and digits, nothing is a space.
struct Letters : std::ctype<char>
{
    mask table[256];
    Letters() : std::ctype<char>(table)
    {
        for (int i = 0; i < 256; ++i) table[i] = i == ' ' || i == '\n' ? mask(punct) : i > 127 ? mask(alpha | digit | xdigit | lower | print) : classic_table()[i];
    }
    char do_tolower(char c) const override { return c == 'I' || c == 'i' ? c : c >= 'A' && c <= 'Z' ? (char)(c + 32) : (unsigned char)c > 127 ? 'x' : c; }
    const char* do_tolower(char* b, const char* e) const override { for (; b < e; ++b) *b = do_tolower(*b); return e; }
};
static const std::vector<const char*> Named{"tr_TR.UTF-8", "de_DE.UTF-8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1"};
static std::string underLocale(size_t mode, const std::function<void()>& fn)
{
    auto classic = std::locale::classic();
    std::string name;
    if (mode < Named.size()) {
        name = std::string("setlocale ") + Named[mode];
        if (!setlocale(LC_ALL, Named[mode])) { fprintf(stderr, "HARNESS no locale %s in %s\n", Named[mode], getenv("LOCPATH")); exit(2); }
    } else if (mode < 2 * Named.size()) {
        name = std::string("std::locale::global ") + Named[mode - Named.size()];
        std::locale::global(std::locale(Named[mode - Named.size()]));
    } else {
        name = "std::locale::global of own facets";
        std::locale::global(std::locale(std::locale(std::locale(classic, new Grouping), new Letters), new Reverse));
    }
    fn();
    std::locale::global(classic);
    setlocale(LC_ALL, "C");
    return name;
}

// ---------------------------------------------------------------- workload
static std::string doc(Rng& r)
{
    static const std::vector<std::string> docs{
        R"({"Id": 1, "TITLE": "Indigo IIII", "title2": ["I","i","ı","İ"], "pi": 3.25, "fl": [0.1, -1.5e10, 1e-7, 123456.789], "Info": {"INNER": {"iI": true, "li": [1,2.5,"x"]}}})",
        "{\"s\xc3\x84\": 1, \"\xc3\x84pfel\": {\"GR\xc3\x96SSE\": 1.5, \"gr\xc3\xb6sse2\": [2.5, 1]}, \"I\": {\"I1\": 1, \"i2\": 2}, \"Size\": \"1,5\", \"price\": \"1.5\", \"big\": 1234567.875}",
        R"([1.5, 2.25, "1.5", "1,5", 1000000.5, 1234567, {"LIST": ["A,B", "a;b", "I I"], "split": 1}])"};
    if (r.chance(60)) {
        DocGen dg{r};
        return jsonText(r.chance(80) ? *dg.obj(0) : *dg.doc());
    }
    auto d = r.pick(docs);
    return r.chance(15) ? mutate(r, d) : d;
}
static std::string query(Rng& r)
{
    static const std::vector<std::string> fixed{
        "1.5 as string", "FLOAT as STRING", "fl.* as string", "pi as STRING", "\"1.5\" as float", "price as FLOAT", "Size as Float", "title2.*", "TITLE", "Title", "info.inner.II", "INFO.inner.li.*",
        "SPLIT(TITLE, ' ')", "SPLIT('a,b,c', ',')", "split(Size, ',')", "COUNT(fl.* > 0.25)", "SUM(fl.*)", "SUM(INFO.inner.li.*, $sum + 1.5, 0.5)", "TYPEOF pi", "pi == 3.25", "1234567.875", "-1.25e3",
        "\"x\" + 1.5", "2.5 + \"x\"", "big as string + '!'", "trace(pi * 2, NAME='IT')", "TRACE(fl.*, LIMIT=2, name='i')", "ARR(1.5, I, 2.5)", "ANY(fl.* < 0)", "ALL(fl.* < 0.125)", "EACH(fl.* != 0.5)",
        "IS_IT", "INDIGO == 'INDIGO'", "TITLE_I", "KEYS(Info)", "RANGE(1, 5)...", "re'I+'", "TITLE =~ re'\\w+ I*'", "TITLE !~ re'[[:alpha:]]+'", "title2.* =~ re'[a-z]'", "title2.* =~ re'[^a-z]'", "RE'i' =~ 'I'", "title2.* =~ re\"\\\\w+\"",
        "1 AND 2", "NULL", "TRUE", "NOT FALSE", "fl.*?", "I.*", "i.i1", "\\\xc3\xa4pfel", "s\\\xc3\\\x84", "\xc4", "\\\xc4", "a\xe4", "\\\xe4 == 1", "sort(1.5)", "*.LI", "**.*I1", "1.5 as INT", "1 as BOOL", "'I' < 'i'", "a < 'B'", "TITLE < 'indigo'", "title2.* < 'j'", "title2.* >= 'I'", "Info.**.x < 'y'", "KEYS(_)", "KEYS(_) > 'i'", "'\xc4' < 'z'",
        "#fl", "1/3", "1/3.0 as string", "1e300*1e300 as string", "0.0/0.0", "-1e20 as string", "1e5", "0.1+0.2", "100000.0 as string", "pi as STRI", "LIMIT", "trim(TITLE)", "\xa0" "1", "1\xa0+ 2", "\xa0",
        "SIZE", "Info.INNER.Li.* as string", "typeof (1.5)", "** as string", "count(**)", "** == 1.5", "** > 1.25", "sum(fl.*) as string"};
    std::string q;
    if (r.chance(45)) q = r.pick(fixed);
    else {
        QueryGen g{r};
        g.wildness = r.chance(60) ? (int)r.below(80) : 0;
        g.trace = r.chance(30);
        Printer pr;
        pr.rng = &r;
        auto e = g.query((int)r.range(1, 4));
        q = pr.p(*e);
        if (r.chance(20)) q = q + " as string";
    }
    if (r.chance(20)) q = randCase(r, q);
    if (r.chance(15)) for (auto& c : q) if (c == 'i' && r.chance(70)) c = 'I';
    if (r.chance(12)) q = mutate(r, q);
    return q;
}
static bool tooBig(const std::string& q)
{
    // Unpacking a huge range takes its time.
    auto low = q;
    for (auto& c : low) if (c >= 'A' && c <= 'Z') c = (char)(c + 32);
    if (q.size() > 1200) return true;
    if (low.find("range") == std::string::npos) return false;
    size_t digits = 0;
    for (auto c : low) {
        digits = c >= '0' && c <= '9' ? digits + 1 : 0;
        if (digits > 3) return true;
    }
    return low.find("0x") != std::string::npos || low.find('*') != std::string::npos || low.find("<<") != std::string::npos || low.find("int") != std::string::npos
        || low.find("e") != low.rfind("e");
}

int main(int argc, char** argv)
{
    if (argc > 1 && std::string(argv[1]) == "--peer") return peer();
    signal(SIGPIPE, SIG_IGN);
    char cwd[4096];
    if (!getcwd(cwd, sizeof cwd)) return 2;
    setenv("LOCPATH", (std::string(cwd) + "/locales").c_str(), 1);
    std::vector<Peer> peers;
    char self[4096];
    auto len = readlink("/proc/self/exe", self, sizeof self - 1);
    for (int i = 0;; ++i) {
        Peer p;
        p.exe = std::string(self, (size_t)len) + "-v" + std::to_string(i);
        if (access(p.exe.c_str(), X_OK)) break;
        peers.push_back(p);
    }
    if (!access("/usr/bin/valgrind", X_OK) && !peers.empty()) {
        auto p = peers.back();
        p.memcheck = true;
        p.log = std::string(cwd) + "/memcheck-" + std::to_string(getpid());
        peers.push_back(p);
    }
    size_t memchecked = 0;
    Case before;
    return vh::Harness(argc, argv, "C38").run([&](vh::Harness& h, Rng& r, uint64_t i) {
        Case c;
        for (auto docs = r.range(1, 2); docs > 0; --docs) {
            if (r.chance(75)) c.push_back({'J', doc(r)});
            else c.push_back({'S', hex(r.next())});
            for (auto n = r.range(4, 10); n > 0; --n) {
                auto q = query(r);
                if (tooBig(q)) continue;
                c.push_back({'Q', (char)('0' + (r.chance(70) ? 0 : r.below(4))) + q});
            }
        }
        for (auto n = r.below(4); n > 0; --n) c.push_back({'T', r.chance(40) ? hostileBytes(r) : r.chance(50) ? query(r) : tokenSoup(r)});
        if (r.chance(50)) c.push_back({'P', hex(r.next())});
        auto describe = [&](size_t k) {
            std::string doc;
            for (size_t j = 0; j < k; ++j) if (c[j].kind == 'J' || c[j].kind == 'S') doc = c[j].data;
            return std::string(1, c[k].kind) + " " + c[k].data + (c[k].kind == 'Q' ? "   on   " + doc : "");
        };
        h.input("case of " + std::to_string(c.size()) + " items, the first " + describe(0));
        auto want = observe(c);
        for (size_t k = 0; k < c.size(); ++k) {
            h.count(c[k].kind == 'Q' ? "queries" : c[k].kind == 'T' ? "texts" : c[k].kind == 'P' ? "string pools" : "documents");
            if (want[k].rfind("raised", 0) == 0) h.count("errors");
            h.distinct(vh::hashStr(c[k].data, vh::hashStr(want[k])));
        }
        h.sample(describe(c.size() / 2) + " -> " + want[c.size() / 2].substr(0, 200));
        auto compare = [&](const Results& got, const std::string& key, const std::string& where) {
            for (size_t k = 0; k < c.size(); ++k) {
                h.count("outcomes compared");
                if (k < got.size() && got[k] == want[k]) continue;
                h.input(describe(k));
                h.violation(key, where + ": " + (k < got.size() ? got[k].substr(0, 600) : "nothing") + " instead of " + want[k].substr(0, 600));
                return;
            }
        };
        // The same process: again, with other errors pending, on another thread, in any locale
        Results got;
        switch (r.below(3)) {
        case 0: errno = (int)r.pick({ERANGE, EDOM, EINTR}); got = observe(c); break;
        case 1: std::thread([&] { got = observe(c); }).join(); h.count("other threads"); break;
        default: got = observe(c);
        }
        compare(got, "again", "the second time");
        for (int n = 0; n < 2; ++n) {
            auto name = underLocale(r.below(2 * Named.size() + 1), [&] { got = observe(c); });
            h.count("locales");
            compare(got, "locale", "under " + name);
        }
        // Other processes, built in another way
        for (size_t n = 0; n < peers.size(); ++n) {
            auto& p = peers[n];
            if (p.memcheck) {
                if (h.thorough ? !r.chance(2) : memchecked >= 40) continue;
                ++memchecked;
                h.count("answers under memcheck");
            }
            if (p.pid && !p.memcheck && r.chance(6)) p.stop();
            if (!p.pid) { p.start((unsigned)r.range(1, 254)); h.count("processes"); }
            if (!p.memcheck && r.chance(10) && !before.empty()) (void)p.ask(before, got); // what ran before must not matter
            if (!p.ask(c, got)) {
                auto end = p.end();
                h.violation(p.memcheck ? "memcheck" : "other-build", "build " + std::to_string(n) + " of the library ends in " + end);
                continue;
            }
            h.count("answers of other builds");
            compare(got, "other-build", "in build " + std::to_string(n) + " of the library");
        }
        before = c;
        (void)i;
    });
}
