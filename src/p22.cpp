// P22: shared logging set-up under every thread schedule.
// Every execution is a fresh process in which the threads of a small program run under the controlled scheduler; the outcome
// must be one that some one-at-a-time order of the same calls has, and no schedule may deadlock, race or fail.
#include <unistd.h>

#include <thread>

#include "forked.hpp"
#include "novatel_edie/common/logger.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "sched.hpp"

using namespace mc;
using std::string;
using std::vector;

// ---------------------------------------------------------------- calls
struct Call
{
    const char* tag;
    const char* reg; // the name a logger is requested for, or nullptr
};
enum CallNo
{
    REG_A,
    REG_B,
    REG_ROOT,
    INIT,
    INIT_FILE,
    INIT_MISSING,
    LEVEL_DEBUG,
    LEVEL_ERROR,
    SHUTDOWN,
    FRAMER,
    CONSOLE,
    ROTATING,
    OWN_ROTATING,
    OWN_CONSOLE,
    LOG_A,
    CALLS
};
static const Call CALL[CALLS] = {{"register(A)", "A"},      {"register(B)", "B"}, {"register(root)", "root"}, {"init", nullptr},         {"init(file)", nullptr},
                                 {"init(missing)", nullptr}, {"level(debug)", nullptr}, {"level(error)", nullptr}, {"shutdown", nullptr},     {"framers", nullptr},
                                 {"console", nullptr},        {"rotating", nullptr},  {"rotating(own)", nullptr},  {"console(own)", nullptr}, {"log(A)", "A"}};
struct Result
{
    std::shared_ptr<spdlog::logger> lgr;
    string threw;
};
static string dir; // scratch directory of this process
static std::shared_ptr<spdlog::logger> own;

static void doCall(int no, int id, Result& r)
{
    try
    {
        switch (no)
        {
        case REG_A:
        case REG_B:
        case REG_ROOT: r.lgr = Logger::RegisterLogger(CALL[no].reg); break;
        case INIT: Logger::InitLogger(); break;
        case INIT_FILE: Logger::InitLogger(dir + "/config"); break;
        case INIT_MISSING: Logger::InitLogger(dir + "/nothing"); break;
        case LEVEL_DEBUG: Logger::SetLoggingLevel(spdlog::level::debug); break;
        case LEVEL_ERROR: Logger::SetLoggingLevel(spdlog::level::err); break;
        case SHUTDOWN: Logger::Shutdown(); break;
        case FRAMER:
        {
            novatel::edie::oem::Framer f; // registers its own logger
            (void)f;
            break;
        }
        case CONSOLE:
            Logger::AddConsoleLogging(std::make_shared<spdlog::logger>("scratch" + std::to_string(id)));
            break;
        case ROTATING:
        {
            const auto l = std::make_shared<spdlog::logger>("scratch" + std::to_string(id));
            Logger::AddRotatingFileLogger(l, spdlog::level::info, dir + "/rot" + std::to_string(id) + ".log");
            l->info("through the file");
            break;
        }
        case OWN_ROTATING: Logger::AddRotatingFileLogger(own, spdlog::level::info, dir + "/own.log"); break;
        case OWN_CONSOLE: Logger::AddConsoleLogging(own); break;
        case LOG_A:
            r.lgr = Logger::RegisterLogger("A");
            if (r.lgr) { r.lgr->error("call {}", id); }
            break;
        default: break;
        }
    }
    catch (const std::exception& e)
    {
        r.threw = e.what();
    }
    catch (...)
    {
        r.threw = "unknown exception";
    }
}

// ---------------------------------------------------------------- one run of a program, in a fresh process
using Program = vector<vector<int>>; // calls per thread
static string show(const Program& p)
{
    string s;
    for (auto& t : p)
    {
        s += s.empty() ? "" : " || ";
        for (size_t i = 0; i < t.size(); i++) { s += string(i ? "; " : "") + CALL[t[i]].tag; }
    }
    return s;
}
static int outFd = -1;
static void prepare()
{
    // (everything the calls print goes to a file of this process's own)
    char t[] = "/tmp/mc22.XXXXXX";
    dir = mkdtemp(t);
    std::ofstream(dir + "/config") << "\n";
    fflush(stdout);
    fflush(stderr);
    outFd = open((dir + "/out").c_str(), O_CREAT | O_RDWR | O_APPEND, 0600);
    dup2(outFd, 1);
    dup2(outFd, 2);
    own = std::make_shared<spdlog::logger>("own");
}
static void cleanUp()
{
    if (dir.empty()) { return; }
    std::error_code ec;
    std::filesystem::remove_all(dir, ec);
}
static string outcome(const Program& p, const vector<vector<Result>>& rs)
{
    string s;
    std::map<const spdlog::logger*, string> names;
    for (size_t t = 0; t < p.size(); t++)
    {
        for (size_t i = 0; i < p[t].size(); i++)
        {
            const Result& r = rs[t][i];
            const string me_ = fmtf("%zu.%zu", t, i);
            s += me_ + " " + CALL[p[t][i]].tag;
            if (!r.threw.empty()) { s += " threw " + r.threw; }
            if (CALL[p[t][i]].reg)
            {
                if (!r.lgr) { s += " nothing"; }
                else
                {
                    s += " " + r.lgr->name() + " as " + names.emplace(r.lgr.get(), me_).first->second + " level " + std::to_string(r.lgr->level()) + " sinks " + std::to_string(r.lgr->sinks().size()) + " flush " +
                         std::to_string(r.lgr->flush_level());
                }
            }
            s += "\n";
        }
    }
    for (const char* n : {"A", "B", "root", "novatel_framer", "own"})
    {
        const auto l = spdlog::get(n);
        s += string("registered ") + n + ": " + (l ? (names.count(l.get()) ? names[l.get()] : string("some")) + " level " + std::to_string(l->level()) : string("no")) + "\n";
    }
    s += "own sinks " + std::to_string(own->sinks().size()) + "\n";
    const auto d = spdlog::default_logger();
    s += "default " + (d ? d->name() : string("none")) + "\n";
    // what a further request sees
    Result after;
    doCall(REG_A, 9, after);
    s += "after: " + (after.lgr ? (names.count(after.lgr.get()) ? names[after.lgr.get()] : string("another")) + " level " + std::to_string(after.lgr->level()) : "nothing " + after.threw) + "\n";
    if (after.lgr) { after.lgr->critical("still usable"); }
    fflush(stdout);
    fflush(stderr);
    vector<string> lines;
    std::ifstream f(dir + "/out");
    string l;
    bool usable = false;
    while (std::getline(f, l))
    {
        while (!l.empty() && l[0] == '[' && isdigit(static_cast<unsigned char>(l[1]))) { l.erase(0, l.find(']') + 2); }
        for (size_t at; (at = l.find(dir)) != string::npos;) { l.replace(at, dir.size(), "DIR"); }
        usable = usable || l.find("still usable") != string::npos;
        lines.push_back(l);
    }
    MC_REQUIRE(usable, "unusable", "the logger returned for A after all calls does not print");
    std::sort(lines.begin(), lines.end());
    for (auto& x : lines) { s += "out " + x + "\n"; }
    return s;
}
static void direct(const Program& p, const vector<vector<Result>>& rs)
{
    bool shutdown = false;
    for (auto& t : p) { shutdown = shutdown || std::count(t.begin(), t.end(), SHUTDOWN) > 0; }
    std::map<string, spdlog::logger*> byName;
    for (size_t t = 0; t < p.size(); t++)
    {
        for (size_t i = 0; i < p[t].size(); i++)
        {
            const Result& r = rs[t][i];
            MC_REQUIRE(r.threw.empty(), "threw", fmtf("%s of thread %zu failed: %s", CALL[p[t][i]].tag, t, r.threw.c_str()));
            if (!CALL[p[t][i]].reg) { continue; }
            MC_REQUIRE(r.lgr != nullptr, "nothing", fmtf("%s of thread %zu got no logger", CALL[p[t][i]].tag, t));
            MC_REQUIRE(r.lgr->name() == CALL[p[t][i]].reg, "name", "a logger of another name was returned");
            MC_REQUIRE(!r.lgr->sinks().empty(), "sinks", "a logger without any sink was returned");
            if (shutdown) { continue; }
            auto [it, added] = byName.emplace(r.lgr->name(), r.lgr.get());
            MC_REQUIRE(added || it->second == r.lgr.get(), "two", "two requests for logger " + r.lgr->name() + " got different objects");
            MC_REQUIRE(spdlog::get(r.lgr->name()).get() == r.lgr.get(), "registered", "the logger " + r.lgr->name() + " that was returned is not the registered one");
        }
    }
}
static sched::Options options(int preemptions, bool atomics)
{
    sched::Options o{};
    o.choose = [](int n) { return choose(n); };
    o.fatal = [](const char* k, const char* m) {
        note("schedule: " + string(sched::path()));
        cleanUp();
        forkdetail::finish(k, m);
    };
    o.preemptions = preemptions;
    o.atomics = atomics;
    return o;
}
// the outcome of a one-at-a-time order
static string sequential(const Program& p, const vector<int>& order)
{
    // runs in a child of its own, which writes the outcome to a pipe
    int fd[2];
    if (pipe(fd) != 0) { throw std::logic_error("pipe"); }
    fflush(stdout);
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        alarm(60);
        prepare();
        string s;
        try
        {
            vector<vector<Result>> rs;
            for (auto& t : p) { rs.emplace_back(t.size()); }
            vector<size_t> at(p.size(), 0);
            // (on one thread per program thread in the end: the calls use no thread-local state)
            for (int t : order)
            {
                const size_t i = at[static_cast<size_t>(t)]++;
                doCall(p[static_cast<size_t>(t)][i], t * 10 + static_cast<int>(i), rs[static_cast<size_t>(t)][i]);
            }
            direct(p, rs);
            s = "+" + outcome(p, rs);
        }
        catch (const Failure& f)
        {
            s = "-" + f.key + ": " + f.msg;
        }
        cleanUp();
        size_t w = 0;
        while (w < s.size())
        {
            const ssize_t k = write(fd[1], s.data() + w, s.size() - w);
            if (k <= 0) { break; }
            w += static_cast<size_t>(k);
        }
        _exit(0);
    }
    close(fd[1]);
    string s;
    char b[4096];
    for (;;)
    {
        const ssize_t k = read(fd[0], b, sizeof b);
        if (k < 0 && errno == EINTR) { continue; }
        if (k <= 0) { break; }
        s.append(b, static_cast<size_t>(k));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (st != 0 || s.empty()) { return "-crash: the process ended with " + crashName(st); }
    return s;
}
static void orders(const Program& p, vector<size_t>& at, vector<int>& cur, const std::function<void()>& f)
{
    bool any = false;
    for (size_t t = 0; t < p.size(); t++)
    {
        if (at[t] == p[t].size()) { continue; }
        any = true;
        at[t]++;
        cur.push_back(static_cast<int>(t));
        orders(p, at, cur, f);
        cur.pop_back();
        at[t]--;
    }
    if (!any) { f(); }
}
static const std::set<string>& allowed(const Program& p)
{
    static std::map<string, std::set<string>> memo;
    auto [it, added] = memo.emplace(show(p), std::set<string>{});
    if (added)
    {
        vector<size_t> at(p.size(), 0);
        vector<int> cur;
        orders(p, at, cur, [&] {
            const string s = sequential(p, cur);
            if (s[0] != '+')
            {
                string o;
                for (int t : cur) { o += std::to_string(t); }
                const string why = s.substr(1);
                memo.erase(it);
                fail("one-at-a-time", "already one at a time (order of threads " + o + ") " + show(p) + ": " + why);
            }
            it->second.insert(s.substr(1));
            addStates(1);
        });
    }
    return it->second;
}
static void runProgram(const Program& p, int preemptions, bool atomics)
{
    note("program: " + show(p));
    const auto& ok = allowed(p);
    forked([&] {
        prepare();
        vector<vector<Result>> rs;
        for (auto& t : p) { rs.emplace_back(t.size()); }
        sched::begin(options(preemptions, atomics));
        {
            vector<std::thread> ts;
            for (size_t t = 0; t < p.size(); t++)
            {
                ts.emplace_back([&p, &rs, t] {
                    for (size_t i = 0; i < p[t].size(); i++) { doCall(p[t][i], static_cast<int>(t * 10 + i), rs[t][i]); }
                });
            }
            for (auto& t : ts) { t.join(); }
        }
        sched::end();
        const auto c = sched::counts();
        addTransitions(c.switches);
        addStates(1);
        stat("scheduling points", c.points);
        stat("synchronisation operations", c.syncs);
        stat("memory accesses checked", c.accesses - c.unchecked);
        stat("memory accesses not checked", c.unchecked);
        note("schedule: " + string(sched::path()));
        forkDistinct(hashStr(choicesStr(ctl.c), hashStr(show(p))));
        string o;
        try
        {
            direct(p, rs);
            o = outcome(p, rs);
        }
        catch (...)
        {
            cleanUp();
            throw;
        }
        cleanUp();
        if (ok.count(o) == 0)
        {
            // the closest one-at-a-time outcome tells what differs
            size_t best = 0;
            string at;
            for (auto& a : ok)
            {
                size_t i = 0;
                while (i < a.size() && i < o.size() && a[i] == o[i]) { i++; }
                if (i >= best)
                {
                    best = i;
                    const size_t b = o.rfind('\n', i ? i - 1 : 0);
                    at = o.substr(b == string::npos ? 0 : b + 1, 160);
                }
            }
            fail("no such order", show(p) + ": the outcome is that of no one-at-a-time order, at: " + printable(at));
        }
    });
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P22";
    ck.level = "model_checking";
    ck.rule = "Every schedule of threads that register loggers, initialise, set the level, add outputs, create framers and shut down ends, without a data race, and with the outcome of some one-at-a-time order of the same calls "
              "(determined by running those orders); without a shutdown every request for a name gets the one registered logger.";
    ck.assumptions = {"a schedule is a sequence of the synchronisation operations (mutex, once, guard, thread; with atomics also every atomic access); between them no thread is left",
                      "data races are looked for in the library's own code, not within libspdlog.so", "sinks are not added to a logger in use by another thread (spdlog excludes that)"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    const bool deep = ck.thorough();
    const auto name = [](const Program& p) { return show(p); };
    const auto add = [&](const Program& p, int pre, bool atomics) {
        ck.unit(name(p) + (atomics ? " (atomics)" : ""), [=] { runProgram(p, pre, atomics); });
    };
    // all pairs of calls
    const std::set<int> core = {REG_A, REG_B, INIT, LEVEL_DEBUG, SHUTDOWN, FRAMER, OWN_ROTATING, OWN_CONSOLE};
    for (int a = 0; a < CALLS; a++)
    {
        for (int b = a; b < CALLS; b++) { add({{a}, {b}}, (core.count(a) && core.count(b) ? 2 : 1) + deep, false); }
    }
    // (with every atomic access a scheduling point)
    for (auto& p : vector<Program>{{{REG_A}, {REG_A}}, {{INIT}, {REG_A}}, {{INIT}, {INIT}}, {{REG_A}, {SHUTDOWN}}, {{LEVEL_DEBUG}, {REG_A}}, {{FRAMER}, {FRAMER}}}) { add(p, deep ? 2 : 1, true); }
    // two calls of one thread against one of another
    const vector<int> firsts = deep ? vector<int>{REG_A, INIT, LEVEL_DEBUG, SHUTDOWN, ROTATING, FRAMER} : vector<int>{REG_A, INIT, SHUTDOWN};
    for (int a : firsts)
    {
        for (int b : firsts)
        {
            for (int c : deep ? vector<int>{REG_A, INIT, LEVEL_DEBUG, SHUTDOWN, ROTATING, LOG_A} : vector<int>{REG_A, SHUTDOWN}) { add({{a, b}, {c}}, deep ? 2 : 1, false); }
        }
    }
    // three threads
    for (int a : {REG_A, INIT, LEVEL_DEBUG, SHUTDOWN})
    {
        for (int b : {REG_A, INIT, LEVEL_DEBUG, SHUTDOWN})
        {
            for (int c : {REG_A, INIT, LEVEL_DEBUG, SHUTDOWN})
            {
                if (a <= b && b <= c) { add({{a}, {b}, {c}}, deep ? 2 : 1, false); }
            }
        }
    }
    if (deep)
    {
        for (auto& p : vector<Program>{{{REG_A, SHUTDOWN}, {REG_A, REG_B}}, {{INIT, REG_A}, {INIT, REG_A}}, {{REG_A, LEVEL_DEBUG}, {REG_A, LEVEL_ERROR}}, {{ROTATING, SHUTDOWN}, {ROTATING, SHUTDOWN}}, {{LOG_A, LOG_A}, {LEVEL_DEBUG, REG_B}}})
        {
            add(p, 2, false);
        }
    }
    return runCheck(ck, argc, argv);
}
