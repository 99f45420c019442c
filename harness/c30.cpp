// C30: the interactive tool prints what the library computes.
#include "qgen.hpp"
#include "lexgen.hpp"
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include <thread>
#include <unistd.h>
using namespace gen;

namespace {

std::string scratch()
{
    auto s = getenv("VERIF_SCRATCH");
    return s ? s : ".";
}
void write(const std::string& file, const std::string& text)
{
    std::ofstream f(file, std::ios::binary);
    f << text;
}
std::string read(const std::string& file)
{
    std::ifstream f(file, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}

struct Outcome30
{
    int status = 0; // exit code, or minus the signal
    bool hung = false;
    std::string out, err;
};

Outcome30 run(const std::vector<std::string>& args, const std::string& script, const std::string& dir)
{
    auto exe = getenv("VERIF_REPL");
    if (!exe || access(exe, X_OK)) { fprintf(stderr, "HARNESS: no repl\n"); exit(2); }
    write(dir + "/in", script);
    std::vector<std::string> all{exe};
    all.insert(all.end(), args.begin(), args.end());
    std::vector<char*> argv;
    for (auto& a : all) argv.push_back(a.data());
    argv.push_back(nullptr);
    auto in = dir + "/in", out = dir + "/out", err = dir + "/err";
    auto tsan = getenv("TSAN_OPTIONS");
    static const bool once = (setenv("TSAN_OPTIONS", (std::string(tsan ? tsan : "") + ":atexit_sleep_ms=0").c_str(), 1), true);
    (void)once;
    pid_t pid = fork();
    if (pid < 0) { fprintf(stderr, "HARNESS: fork\n"); exit(2); }
    if (!pid) {
        int a = open(in.c_str(), O_RDONLY), b = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), c = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        if (a < 0 || b < 0 || c < 0 || chdir(dir.c_str())) _exit(125);
        dup2(a, 0);
        dup2(b, 1);
        dup2(c, 2);
        execv(argv[0], argv.data());
        _exit(126);
    }
    Outcome30 o;
    int st = 0;
    for (int i = 0; waitpid(pid, &st, WNOHANG) == 0; ++i) {
        if (i > 40 * 200) { // 40 s
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            o.hung = true;
            break;
        }
        usleep(i < 200 ? 500 : 5000);
    }
    o.status = WIFEXITED(st) ? WEXITSTATUS(st) : -WTERMSIG(st);
    o.out = read(out);
    o.err = read(err);
    return o;
}

/// Without the time a query took.
std::string timeless(const std::string& s)
{
    std::string r;
    size_t at = 0;
    for (;;) {
        auto p = s.find("Time:\n  ", at);
        if (p == std::string::npos) break;
        auto q = p + 8;
        while (q < s.size() && isdigit((unsigned char)s[q])) ++q;
        r += s.substr(at, p + 8 - at) + "T";
        at = q;
    }
    return r + s.substr(at);
}

struct Options { bool any = false, wildcard = false, verbose = true, mt = true; };

/// What has to be printed for a script.
struct Session
{
    vh::Harness& h;
    std::shared_ptr<simfil::ModelPool> model = std::make_shared<simfil::ModelPool>();
    std::map<std::string, std::string> constants;
    Options o;
    std::string out;

    void toggle(const char* name, bool& flag, std::string cmd)
    {
        while (!cmd.empty() && isspace((unsigned char)cmd.back())) cmd.pop_back();
        if (cmd != std::string("/") + name) return;
        flag = !flag;
        out += std::string(name) + " is " + (flag ? "on" : "off") + "\n";
        h.count("options switched");
    }
    void line(const std::string& cmd)
    {
        out += "> ";
        if (cmd.empty()) return;
        h.count("lines");
        if (cmd[0] == '/') {
            toggle("any", o.any, cmd);
            toggle("wildcard", o.wildcard, cmd);
            toggle("verbose", o.verbose, cmd);
            toggle("mt", o.mt, cmd);
            return;
        }
        simfil::Environment env(model->strings());
        for (auto& [k, v] : constants) env.constants.insert_or_assign(k, simfil::Value::make(v));
        simfil::ExprPtr e;
        try {
            e = simfil::compile(env, cmd, o.any, o.wildcard);
        } catch (const std::exception& x) {
            out += std::string("Compile:\n  ") + x.what() + "\n";
            h.count("compile errors");
            return;
        }
        if (o.verbose) out += "Expression:\n  " + e->toString() + "\n";
        std::string results;
        try {
            if (!model->numRoots())
                model->addRoot(simfil::ModelNode::Ptr::make(model, simfil::ModelNodeAddress{simfil::Model::Null, 1}));
            for (size_t i = 0; i < model->numRoots(); ++i)
                for (auto& v : simfil::eval(env, *e, *model->root(i))) {
                    results += "  " + v.toString() + "\n";
                    h.count("results");
                }
        } catch (const std::exception& x) {
            out += std::string("Error:\n  ") + x.what() + "\n";
            h.count("evaluation errors");
            return;
        }
        out += "Time:\n  T ms\nResult:\n" + results;
        h.count("results printed");
        if (o.mt && model->numRoots() > 1) h.count("concurrent queries");
        h.distinct(vh::hashStr(cmd, 30));
    }
};

} // namespace

int main(int argc, char** argv)
{
    return vh::Harness(argc, argv, "C30").run([](vh::Harness& h, Rng& r, uint64_t) {
        auto dir = scratch() + "/repl";
        (void)system(("mkdir -p '" + dir + "'").c_str());
        Session s{h};
        std::vector<std::string> args;
        std::string start; // what is printed before the first prompt

        // Files.
        int files = r.chance(10) ? 0 : r.chance(20) ? 1 : r.chance(15) ? (int)r.range(9, 24) : (int)r.range(2, 8);
        bool tail = false;
        std::vector<std::string> names;
        std::vector<std::string> texts;
        for (int i = 0; i < files; ++i) {
            DocGen dg{r};
            dg.maxNodes = 40;
            auto name = r.pick({"doc", "a file ", "-dash", "\xc3\xa4"}) + std::to_string(i) + ".json";
            auto text = jsonText(*dg.doc());
            if (!texts.empty() && r.chance(20)) text = r.pick(texts);
            if (r.chance(20)) text = " \n" + text + "\n\n";
            texts.push_back(text);
            names.push_back(name);
            write(dir + "/" + name, text);
        }
        auto define = [&] {
            if (tail || !r.chance(30)) return;
            auto k = std::string(r.pick({"con", "Con", "limit", "n", "a_1"})), v = std::string(r.pick({"5", "text", "", "a=b", "=", "FOO", "x y", "x==", "\xc3\xa4", "-D", "'"}));
            if (r.chance(50)) args.push_back("-D" + k + "=" + v);
            else { args.push_back("-D"); args.push_back(k + "=" + v); }
            bool known = false;
            for (auto& [c, x] : s.constants) known = known || J::ieq(c, k);
            if (!known) s.constants[k] = v;
            h.count("definitions");
        };
        bool stop = false; // ends right away
        for (int i = 0; i < files; ++i) {
            define();
            if (!tail && (names[i][0] == '-' || r.chance(10))) { args.push_back("--"); tail = true; }
            args.push_back(names[i]);
            start += "Parsing " + names[i] + "\n";
            std::istringstream f(texts[i]);
            simfil::json::parse(f, s.model);
        }
        define();
        int status = 0;
        if (!tail && r.chance(10)) { // wrong arguments
            auto k = r.below(4);
            stop = true;
            status = k == 3 ? 0 : 1;
            if (k == 0) args.push_back("-D");
            else if (k == 1) { args.push_back("-D"); args.push_back(r.pick({"name", "=x"})); }
            else args.push_back(k == 2 ? "-x" : "-h");
        }

        // The script.
        std::string script;
        for (int n = (int)r.range(0, 22); n > 0; --n) {
            std::string line;
            switch (r.below(16)) {
            case 0: case 1: line = r.pick({"/any", "/wildcard", "/verbose", "/mt", "/mt  ", "/any\t", "/unknown", "/", "/ any", "/ANY", "/mtx"}); break;
            case 2: line = ""; break;
            case 3: line = r.pick({"1 +", ")", "'", "1 / 0", "nosuch(1)", "1 + null", "a b c", " ", "\t", "n n", "{", "re('(')", "1 % 0", "#", "1 foo 2",
                "typeof _ * 2", "(_ as string) * 1", "count(n) / 0", "count(*) % 0", "n == 1 or typeof n - 1", "*.{typeof _ + {}}", "select(**, typeof _)", "-(typeof _)"}); break;
            case 4:
                if (!s.constants.empty() && r.chance(60)) {
                    auto k = std::next(s.constants.begin(), (long)r.below(s.constants.size()))->first;
                    line = r.chance(50) ? k : k + r.pick({" + 1 + ", " == '5' or ", " == "}) + k;
                    h.count("defined constants used");
                } else
                    line = r.pick({"con", "limit", "Con + 'x'", "n", "a_1", "limit == '5'", "pi"}); break;
            case 5: {
                for (auto n = r.below(10); n > 0; --n) line += anyToken(r) + space(r);
                std::replace(line.begin(), line.end(), '\n', ' ');
                line.resize(std::min<size_t>(line.size(), 300));
                if (!line.empty() && line[0] == '/') line = "";
                if (line.find("range") != std::string::npos || line.find("..") != std::string::npos) line = "1";
                break;
            }
            default: {
                QueryGen q{r};
                q.wildness = r.pick({0, 0, 10, 40});
                q.trace = r.chance(20);
                auto e = q.query((int)r.range(1, 4));
                Printer pr;
                pr.rng = &r;
                line = pr.p(*e);
                std::replace(line.begin(), line.end(), '\n', ' ');
                if (line.size() > 800 || line[0] == '/') line = "typeof _";
            }
            }
            if (!stop) s.line(line);
            script += line;
            if (n > 1 || r.chance(80)) script += "\n";
            else if (line.empty() && !stop) s.out.resize(s.out.size() - 2); // the end, not an empty line
        }
        std::string all;
        for (auto& a : args) all += " " + vh::quote(a);
        h.input("simfil-repl" + all + " with the script " + vh::quote(script) + " and the files " + vh::quote([&] { std::string t; for (auto& x : texts) t += x + " "; return t; }()));
        auto got = run(args, script, dir);
        h.count("sessions");
        for (auto& n : names) unlink((dir + "/" + n).c_str());
        if (got.hung) return h.violation("hang", "the tool does not end");
        if (got.status != status) return h.violation("exit-code", "the tool ended with " + std::to_string(got.status) + " instead of " + std::to_string(status) + ": " + got.err.substr(0, 3000) + got.out.substr(0, 500));
        if (stop) { h.count("refused arguments"); return; }
        auto want = start + s.out + "> ";
        auto out = timeless(got.out);
        if (out != want) {
            size_t i = 0;
            while (i < out.size() && i < want.size() && out[i] == want[i]) ++i;
            auto from = i > 80 ? i - 80 : 0;
            h.violation("output", "at " + std::to_string(i) + " the tool prints " + vh::quote(out.substr(from, 240)) + " instead of " + vh::quote(want.substr(from, 240)));
        }
        h.sample(script.substr(0, 200));
    });
}
