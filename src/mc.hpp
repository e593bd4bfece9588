// Bounded exhaustive exploration of the real code.
//
// A check is a list of units; a unit is a function that asks choose(n) for every decision.
// The engine runs the function once per complete choice sequence (depth-first odometer), so
// a unit is explored completely. Units are distributed over forked workers. Every failing
// execution is replayed alone in a fresh process before it is reported, and the replay file
// holds the choice sequence plus the human readable history of that execution.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <poll.h>

#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace mc {

// ---------------------------------------------------------------- failure of an execution
struct Failure
{
    std::string key; // stable identification of what fails (for the known-findings file)
    std::string msg;
};

// ---------------------------------------------------------------- shared worker status
constexpr int MAX_CHOICES = 1024;
constexpr int MAX_WORKERS = 16;
struct Slot
{
    std::atomic<uint64_t> beat; // executions finished + progress marks
    std::atomic<uint64_t> evals;
    std::atomic<uint64_t> states;
    std::atomic<uint64_t> transitions;
    std::atomic<uint64_t> nontrivial;
    std::atomic<int> unit; // current unit, -1 when idle
    std::atomic<int> n;
    int choice[MAX_CHOICES];
};
struct Shared
{
    std::atomic<int> nextUnit;
    std::atomic<int> stop;
    std::atomic<int> unitsDone;
    Slot slot[MAX_WORKERS];
};

inline Shared* sh = nullptr;
inline Slot* me = nullptr;

// ---------------------------------------------------------------- choices
struct Ctl
{
    std::vector<int> c;   // choices of the current execution
    std::vector<int> lim; // alternatives at each
    size_t pos = 0;
    size_t changed = 0; // first position that differs from the previous execution
    bool replay = false; // a fixed sequence: out of range is an error
    bool tracing = false;
    std::string trace;
    std::vector<std::string> samples;
    std::unordered_set<uint64_t> distinct;
    std::map<std::string, uint64_t> stat;
    std::map<std::string, std::string> knownHit;
    std::set<std::string> known;
    int unitSamples = 0;
};
inline Ctl ctl;

inline int choose(int n)
{
    if (n <= 0) { throw std::logic_error("choose(0)"); }
    if (ctl.pos == ctl.c.size())
    {
        if (ctl.replay && ctl.pos >= ctl.lim.size() && !ctl.lim.empty()) {}
        ctl.c.push_back(0);
        ctl.lim.push_back(n);
    }
    else if (ctl.pos >= ctl.lim.size()) { ctl.lim.push_back(n); }
    else if (ctl.lim[ctl.pos] != n)
    {
        fprintf(stderr, "DIVERGENCE: choice %zu had %d alternatives, now %d\n", ctl.pos, ctl.lim[ctl.pos], n);
        throw Failure{"divergence", "the same choice prefix led to a different number of alternatives (nondeterminism)"};
    }
    int v = ctl.c[ctl.pos];
    if (v >= n)
    {
        fprintf(stderr, "replay: choice %zu = %d out of range %d\n", ctl.pos, v, n);
        throw Failure{"divergence", "replayed choice out of range"};
    }
    if (me && ctl.pos < MAX_CHOICES)
    {
        me->choice[ctl.pos] = v;
        me->n.store(static_cast<int>(ctl.pos) + 1, std::memory_order_relaxed);
    }
    ctl.pos++;
    return v;
}
template <typename C> inline const auto& pick(const C& c) { return c[static_cast<size_t>(choose(static_cast<int>(c.size())))]; }

// true when the choices made so far were not all made (and checked) by the previous execution
inline bool fresh() { return ctl.replay || ctl.pos > ctl.changed; }
inline bool tracing() { return ctl.tracing; }
inline void note(const std::string& s)
{
    if (ctl.tracing) { ctl.trace += s + "\n"; }
}

// ---------------------------------------------------------------- counting
inline uint64_t hashBytes(const void* p, size_t n, uint64_t h = 1469598103934665603ULL)
{
    const auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; i++)
    {
        h ^= b[i];
        h *= 1099511628211ULL;
    }
    return h;
}
inline uint64_t hashStr(std::string_view s, uint64_t h = 1469598103934665603ULL) { return hashBytes(s.data(), s.size(), h); }
inline uint64_t mix(uint64_t h, uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    return h * 0xff51afd7ed558ccdULL;
}
constexpr size_t DISTINCT_CAP = 4000000;
// records an observed outcome/state; duplicates count once
inline bool distinct(uint64_t h)
{
    if (ctl.distinct.size() < DISTINCT_CAP) { return ctl.distinct.insert(h).second; }
    return ctl.distinct.count(h) == 0 ? (ctl.stat["distinct_cap_hit"] = 1, false) : false;
}
inline void addStates(uint64_t n)
{
    if (me) { me->states += n; }
}
inline void addTransitions(uint64_t n)
{
    if (me) { me->transitions += n; }
}
inline void addEvals(uint64_t n) // evaluations beyond the one per execution
{
    if (me)
    {
        me->evals += n;
        me->beat++;
    }
}
inline void beat()
{
    if (me) { me->beat++; }
}
inline void stat(const std::string& k, uint64_t n = 1) { ctl.stat[k] += n; }
inline void sample(const std::string& s)
{
    if (ctl.unitSamples < 1)
    {
        ctl.unitSamples++;
        if (ctl.samples.size() < 40) { ctl.samples.push_back(s); }
    }
}

inline std::string hex(const void* p, size_t n, size_t cap = 400)
{
    static const char* d = "0123456789abcdef";
    std::string s;
    const auto* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n && i < cap; i++)
    {
        s += d[b[i] >> 4];
        s += d[b[i] & 15];
    }
    if (n > cap) { s += "..."; }
    return s;
}
inline std::string hex(std::string_view s, size_t cap = 400) { return hex(s.data(), s.size(), cap); }
inline std::string printable(std::string_view s, size_t cap = 400)
{
    std::string o;
    for (size_t i = 0; i < s.size() && i < cap; i++)
    {
        const auto c = static_cast<unsigned char>(s[i]);
        if (c >= 32 && c < 127 && c != '\\') { o += static_cast<char>(c); }
        else
        {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    if (s.size() > cap) { o += "..."; }
    return o;
}
inline std::string fmtf(const char* f, ...)
{
    char b[2048];
    va_list a;
    va_start(a, f);
    vsnprintf(b, sizeof b, f, a);
    va_end(a);
    return b;
}

// ---------------------------------------------------------------- failing
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) { throw Failure{key, msg}; }
inline void require(bool ok, const char* key, const std::string& msg)
{
    if (!ok) { fail(key, msg); }
}
#define MC_REQUIRE(cond, key, msg)                                                                                                                   \
    do {                                                                                                                                             \
        if (!(cond)) { ::mc::fail((key), (msg)); }                                                                                                   \
    } while (0)

// ---------------------------------------------------------------- the check
struct Unit
{
    std::string name;
    std::function<void()> fn;
};

struct Check
{
    std::string id;
    std::string level; // exploration | model_checking | fault_enumeration
    std::string rule;
    std::string tier = "quick";
    std::vector<std::string> assumptions;
    std::vector<Unit> units;
    std::map<std::string, std::string> info; // extra, literal strings for the evidence
    bool thorough() const { return tier == "thorough"; }
    void unit(std::string name, std::function<void()> fn) { units.push_back({std::move(name), std::move(fn)}); }
};

inline double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

inline std::string jsonStr(const std::string& s)
{
    std::string o = "\"";
    for (char ch : s)
    {
        const auto c = static_cast<unsigned char>(ch);
        if (c == '"' || c == '\\')
        {
            o += '\\';
            o += ch;
        }
        else if (c < 32 || c > 126)
        {
            char b[8];
            snprintf(b, sizeof b, "\\u%04x", c);
            o += b;
        }
        else { o += ch; }
    }
    return o + "\"";
}

enum Outcome
{
    OK = 0,
    FAILED = 3
};

// Runs one execution with the current ctl.c; returns false and fills f on failure.
inline bool runOnce(const Unit& u, Failure& f)
{
    ctl.pos = 0;
    if (me) { me->n = 0; }
    try
    {
        u.fn();
        return true;
    }
    catch (const Failure& x)
    {
        f = x;
    }
    catch (const std::exception& x)
    {
        f = {"exception", std::string("uncaught exception: ") + x.what()};
    }
    catch (...)
    {
        f = {"exception", "uncaught exception of unknown type"};
    }
    return false;
}

// Explores one unit completely. Returns false on an unlisted failure.
inline bool exploreUnit(const Unit& u, Failure& f, const std::vector<int>* upTo = nullptr)
{
    ctl.c.clear();
    ctl.lim.clear();
    ctl.replay = false;
    ctl.changed = 0;
    ctl.unitSamples = 0;
    while (true)
    {
        const bool ok = runOnce(u, f);
        if (me)
        {
            me->evals++;
            me->beat++;
        }
        if (!ok)
        {
            if (ctl.known.count(f.key)) { ctl.knownHit.emplace(f.key, f.msg); }
            else if (getenv("MC_TRIAGE")) { ctl.knownHit.emplace("TRIAGE " + f.key + " in " + u.name, f.msg); }
            else { return false; }
        }
        if (upTo && ctl.c == *upTo) { return true; }
        if (ok && ctl.pos != ctl.c.size())
        {
            f = {"divergence", "execution ended before using all its recorded choices (nondeterminism)"};
            return false;
        }
        ctl.c.resize(ctl.pos);
        ctl.lim.resize(ctl.pos);
        while (!ctl.c.empty() && ctl.c.back() + 1 >= ctl.lim.back())
        {
            ctl.c.pop_back();
            ctl.lim.pop_back();
        }
        if (ctl.c.empty()) { return true; }
        ctl.c.back()++;
        ctl.changed = ctl.c.size() - 1;
        if (sh && sh->stop) { return true; }
    }
}

inline std::string choicesStr(const std::vector<int>& c)
{
    std::string s;
    for (int x : c) { s += std::to_string(x) + " "; }
    return s;
}

inline std::string slurp(const std::string& p)
{
    std::ifstream f(p, std::ios::binary);
    std::stringstream ss;
    ss << f.rdbuf();
    return ss.str();
}

inline std::string tmpDir()
{
    static std::string d;
    if (d.empty())
    {
        char t[] = "/tmp/mcXXXXXX";
        d = mkdtemp(t);
    }
    return d;
}

struct ChildResult
{
    bool exited = false, failed = false, crashed = false, hung = false;
    int status = 0;
    std::string key, msg, trace, err;
};

// Replays one execution (or a unit up to it) in a fresh child, with tracing.
inline ChildResult replayChild(const Check& ck, int unit, const std::vector<int>& c, bool wholeUnit, double limit)
{
    ChildResult r;
    const std::string base = tmpDir() + "/replay";
    const std::string fout = base + ".out", ferr = base + ".err";
    fflush(stdout);
    fflush(stderr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        int fd = open(ferr.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
        dup2(fd, 2);
        dup2(fd, 1);
        me = nullptr;
        Failure f;
        bool ok;
        ctl.tracing = true;
        std::ofstream o(fout, std::ios::binary | std::ios::trunc);
        if (wholeUnit)
        {
            ctl.tracing = false;
            ok = exploreUnit(ck.units[static_cast<size_t>(unit)], f, &c);
        }
        else
        {
            ctl.c = c;
            ctl.lim.clear();
            ctl.replay = true;
            ok = runOnce(ck.units[static_cast<size_t>(unit)], f);
        }
        if (!ok)
        {
            o << f.key << "\n" << f.msg << "\n--trace--\n" << ctl.trace;
            o.close();
            _exit(FAILED);
        }
        o << "\n\n--trace--\n" << ctl.trace;
        o.close();
        _exit(OK);
    }
    const double t0 = now();
    int st = 0;
    while (true)
    {
        const pid_t w = waitpid(pid, &st, WNOHANG);
        if (w == pid) { break; }
        if (now() - t0 > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &st, 0);
            r.hung = true;
            break;
        }
        usleep(2000);
    }
    r.status = st;
    r.err = slurp(ferr);
    const std::string out = slurp(fout);
    if (!r.hung)
    {
        if (WIFEXITED(st) && WEXITSTATUS(st) == OK) { r.exited = true; }
        else if (WIFEXITED(st) && WEXITSTATUS(st) == FAILED) { r.failed = true; }
        else { r.crashed = true; }
    }
    const size_t a = out.find('\n');
    const size_t b = out.find("\n--trace--\n");
    if (a != std::string::npos && b != std::string::npos)
    {
        r.key = out.substr(0, a);
        r.msg = b > a ? out.substr(a + 1, b - a - 1) : "";
        r.trace = out.substr(b + 11);
    }
    return r;
}

inline std::string verifDir()
{
    const char* v = getenv("VERIF_DIR");
    return v ? v : "/verif";
}

inline std::set<std::string> loadKnown(const std::string& id, std::map<std::string, std::string>& text)
{
    std::set<std::string> k;
    std::ifstream f(verifDir() + "/known_findings.txt");
    std::string line;
    while (std::getline(f, line))
    {
        // known: property=<id> key=<key> <text>
        if (line.rfind("known: property=" + id + " key=", 0) != 0) { continue; }
        const size_t s = line.find(" key=") + 5;
        const size_t e = line.find(' ', s);
        const std::string key = line.substr(s, e == std::string::npos ? e : e - s);
        k.insert(key);
        text[key] = e == std::string::npos ? "" : line.substr(e + 1);
    }
    return k;
}

inline std::string crashKey(const std::string& err)
{
    // a short stable description of a sanitizer report or signal
    std::string kind = "crash";
    const size_t p = err.find("ERROR: AddressSanitizer: ");
    if (p != std::string::npos)
    {
        const size_t e = err.find_first_of(" \n", p + 25);
        kind = err.substr(p + 25, e - p - 25);
    }
    std::string site;
    size_t q = 0;
    while ((q = err.find(" in ", q)) != std::string::npos)
    {
        const size_t eol = err.find('\n', q);
        const std::string l = err.substr(q + 4, eol - q - 4);
        if (l.find("/repo/") != std::string::npos)
        {
            site = l.substr(0, l.find_first_of("( "));
            break;
        }
        q = eol;
        if (eol == std::string::npos) { break; }
    }
    return kind + ":" + site;
}

inline int reportViolation(const Check& ck, int unit, const std::vector<int>& c, const std::string& key, const std::string& msg, const std::string& trace,
                           const std::string& err)
{
    const std::string dir = verifDir() + "/evidence/replay";
    mkdir((verifDir() + "/evidence").c_str(), 0755);
    mkdir(dir.c_str(), 0755);
    const std::string path = dir + "/" + ck.id + ".txt";
    std::ofstream o(path, std::ios::trunc);
    o << "property: " << ck.id << "\nunit: " << ck.units[static_cast<size_t>(unit)].name << "\nchoices: " << choicesStr(c) << "\ntier: " << ck.tier
      << "\nkey: " << key << "\nwhat: " << msg << "\nreplay with: /verif/check.sh " << ck.id << " " << ck.tier << " --replay " << path
      << "\n\nhistory:\n"
      << trace << "\n";
    if (!err.empty()) { o << "\nstderr:\n" << err.substr(0, 6000) << "\n"; }
    o.close();
    std::cout << "counterexample (" << ck.units[static_cast<size_t>(unit)].name << "): " << msg << "\n";
    if (!trace.empty())
    {
        std::istringstream lines(trace.substr(0, 40000));
        std::string l;
        for (int n = 0; n < 60 && std::getline(lines, l); n++) { std::cout << l.substr(0, 300) << "\n"; }
    }
    if (!err.empty()) { std::cout << err.substr(0, 3000) << "\n"; }
    std::cout << "VIOLATION property=" << ck.id << " replay=" << path << std::endl;
    return 1;
}

inline int runCheck(Check& ck, int argc, char** argv)
{
    const double t0 = now();
    std::string replayFile, onlyUnit;
    bool list = false;
    int jobs = 8;
    if (const char* j = getenv("MC_JOBS")) { jobs = atoi(j); }
    for (int i = 1; i < argc; i++)
    {
        const std::string a = argv[i];
        if (a == "--replay" && i + 1 < argc) { replayFile = argv[++i]; }
        else if (a == "--unit" && i + 1 < argc) { onlyUnit = argv[++i]; }
        else if (a == "--list") { list = true; }
    }
    jobs = std::max(1, std::min(jobs, MAX_WORKERS));
    std::map<std::string, std::string> knownText;
    ctl.known = loadKnown(ck.id, knownText);

    if (list)
    {
        for (const auto& u : ck.units) { std::cout << u.name << "\n"; }
        return 0;
    }
    if (!replayFile.empty())
    {
        std::ifstream f(replayFile);
        std::string line, unit;
        std::vector<int> c;
        while (std::getline(f, line))
        {
            if (line.rfind("unit: ", 0) == 0) { unit = line.substr(6); }
            if (line.rfind("choices: ", 0) == 0)
            {
                std::istringstream is(line.substr(9));
                int x;
                while (is >> x) { c.push_back(x); }
            }
        }
        for (size_t i = 0; i < ck.units.size(); i++)
        {
            if (ck.units[i].name != unit) { continue; }
            const auto r = replayChild(ck, static_cast<int>(i), c, false, 600);
            std::cout << r.trace << "\n" << r.key << ": " << r.msg << "\n" << r.err.substr(0, 4000) << "\n";
            if (r.failed || r.crashed || r.hung)
            {
                std::cout << "VIOLATION property=" << ck.id << " replay=" << replayFile << std::endl;
                return 1;
            }
            std::cout << "the recorded execution passes\n";
            return 0;
        }
        std::cerr << "no unit " << unit << "\n";
        return 2;
    }
    if (!onlyUnit.empty())
    {
        std::vector<Unit> v;
        for (auto& u : ck.units)
        {
            if (u.name.find(onlyUnit) != std::string::npos) { v.push_back(u); }
        }
        ck.units = v;
    }

    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const std::string tmp = tmpDir();
    std::vector<pid_t> pids(static_cast<size_t>(jobs), -1);
    struct Problem
    {
        int unit;
        std::vector<int> c;
        std::string kind; // failed, crashed, hung
        Failure f;
        int worker;
        std::string err;
    };
    std::vector<Problem> problems;
    fflush(stdout);
    for (int w = 0; w < jobs; w++)
    {
        sh->slot[w].unit = -1;
        const pid_t pid = fork();
        if (pid == 0)
        {
            const std::string base = tmp + "/w" + std::to_string(w);
            int fd = open((base + ".err").c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
            dup2(fd, 2);
            dup2(fd, 1);
            me = &sh->slot[w];
            int code = OK;
            while (!sh->stop)
            {
                const int u = sh->nextUnit++;
                if (u >= static_cast<int>(ck.units.size())) { break; }
                me->unit = u;
                Failure f;
                if (!exploreUnit(ck.units[static_cast<size_t>(u)], f))
                {
                    std::ofstream o(base + ".fail", std::ios::binary);
                    o << u << "\n" << choicesStr(ctl.c) << "\n" << f.key << "\n" << f.msg;
                    o.close();
                    sh->stop = 1;
                    code = FAILED;
                    break;
                }
                sh->unitsDone++;
            }
            me->unit = -1;
            std::ofstream o(base + ".res", std::ios::binary);
            const uint64_t n = ctl.distinct.size();
            o.write(reinterpret_cast<const char*>(&n), 8);
            for (uint64_t h : ctl.distinct) { o.write(reinterpret_cast<const char*>(&h), 8); }
            auto put = [&](const std::string& s) {
                const uint64_t l = s.size();
                o.write(reinterpret_cast<const char*>(&l), 8);
                o << s;
            };
            uint64_t k = ctl.samples.size();
            o.write(reinterpret_cast<const char*>(&k), 8);
            for (auto& s : ctl.samples) { put(s); }
            k = ctl.stat.size();
            o.write(reinterpret_cast<const char*>(&k), 8);
            for (auto& s : ctl.stat)
            {
                put(s.first);
                o.write(reinterpret_cast<const char*>(&s.second), 8);
            }
            k = ctl.knownHit.size();
            o.write(reinterpret_cast<const char*>(&k), 8);
            for (auto& s : ctl.knownHit)
            {
                put(s.first);
                put(s.second);
            }
            o.close();
            _exit(code);
        }
        pids[static_cast<size_t>(w)] = pid;
    }
    std::vector<uint64_t> lastBeat(static_cast<size_t>(jobs), 0);
    std::vector<double> lastTime(static_cast<size_t>(jobs), now());
    int alive = jobs;
    const double hangLimit = 150;
    while (alive > 0)
    {
        for (int w = 0; w < jobs; w++)
        {
            const auto i = static_cast<size_t>(w);
            if (pids[i] < 0) { continue; }
            int st = 0;
            const pid_t r = waitpid(pids[i], &st, WNOHANG);
            Slot& s = sh->slot[w];
            auto grab = [&](const std::string& kind) {
                Problem p;
                p.unit = s.unit;
                const int n = std::min<int>(s.n, MAX_CHOICES);
                p.c.assign(s.choice, s.choice + n);
                p.kind = kind;
                p.worker = w;
                p.err = slurp(tmp + "/w" + std::to_string(w) + ".err");
                problems.push_back(p);
                sh->stop = 1;
            };
            if (r == pids[i])
            {
                pids[i] = -1;
                alive--;
                if (WIFEXITED(st) && WEXITSTATUS(st) == FAILED)
                {
                    std::ifstream f(tmp + "/w" + std::to_string(w) + ".fail", std::ios::binary);
                    std::string l;
                    Problem p;
                    std::getline(f, l);
                    p.unit = atoi(l.c_str());
                    std::getline(f, l);
                    std::istringstream is(l);
                    int x;
                    while (is >> x) { p.c.push_back(x); }
                    std::getline(f, p.f.key);
                    std::stringstream rest;
                    rest << f.rdbuf();
                    p.f.msg = rest.str();
                    p.kind = "failed";
                    p.worker = w;
                    problems.push_back(p);
                }
                else if (!(WIFEXITED(st) && WEXITSTATUS(st) == OK)) { grab("crashed"); }
                continue;
            }
            const uint64_t b = s.beat;
            if (b != lastBeat[i])
            {
                lastBeat[i] = b;
                lastTime[i] = now();
            }
            else if (now() - lastTime[i] > hangLimit)
            {
                grab("hung");
                kill(pids[i], SIGKILL);
                waitpid(pids[i], &st, 0);
                pids[i] = -1;
                alive--;
            }
        }
        usleep(5000);
    }

    int rc = 0;
    std::map<std::string, std::string> knownHit;
    std::sort(problems.begin(), problems.end(), [](const Problem& a, const Problem& b) { return a.unit < b.unit; });
    for (auto& p : problems)
    {
        if (p.unit < 0)
        {
            std::cerr << "worker " << p.worker << " died outside a unit\n" << p.err.substr(0, 3000) << "\n";
            rc = 2;
            continue;
        }
        ChildResult r = replayChild(ck, p.unit, p.c, false, hangLimit * 2);
        if (r.exited) // not reproduced alone: does it depend on the executions before it?
        {
            if (p.kind == "hung")
            {
                std::cerr << "a slow execution finished when run alone; no verdict for it\n";
                if (rc == 0) { rc = 2; }
                continue;
            }
            r = replayChild(ck, p.unit, p.c, true, hangLimit * 4);
            if (r.exited)
            {
                r.msg = p.f.msg + " (only reproduced after other units had run in the same process)";
                r.key = p.f.key;
                r.err = p.err;
                r.failed = true;
            }
            else { r.msg += " (depends on earlier executions in the same process)"; }
        }
        if (r.hung) { r.key = "hang", r.msg = "the execution does not terminate"; }
        if (r.crashed)
        {
            r.key = crashKey(r.err);
            r.msg = "crash: " + r.key + (WIFSIGNALED(r.status) ? " signal " + std::to_string(WTERMSIG(r.status)) : "");
        }
        if (ctl.known.count(r.key))
        {
            knownHit.emplace(r.key, r.msg);
            continue;
        }
        if (getenv("MC_TRIAGE"))
        {
            knownHit.emplace("TRIAGE " + r.key + " in " + std::to_string(p.unit), r.msg);
            continue;
        }
        rc = reportViolation(ck, p.unit, p.c, r.key, r.msg, r.trace, r.err);
        break;
    }

    uint64_t evals = 0, states = 0, transitions = 0;
    std::unordered_set<uint64_t> distinctSet;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> stats;
    for (int w = 0; w < jobs; w++)
    {
        evals += sh->slot[w].evals;
        states += sh->slot[w].states;
        transitions += sh->slot[w].transitions;
        std::ifstream f(tmp + "/w" + std::to_string(w) + ".res", std::ios::binary);
        if (!f) { continue; }
        auto get64 = [&] {
            uint64_t x = 0;
            f.read(reinterpret_cast<char*>(&x), 8);
            return x;
        };
        auto getS = [&] {
            std::string s(get64(), 0);
            f.read(s.data(), static_cast<std::streamsize>(s.size()));
            return s;
        };
        for (uint64_t n = get64(); n > 0 && f; n--) { distinctSet.insert(get64()); }
        for (uint64_t n = get64(); n > 0 && f; n--)
        {
            auto s = getS();
            if (samples.size() < 24) { samples.push_back(s); }
        }
        for (uint64_t n = get64(); n > 0 && f; n--)
        {
            auto s = getS();
            stats[s] += get64();
        }
        for (uint64_t n = get64(); n > 0 && f; n--)
        {
            auto k = getS();
            auto m = getS();
            knownHit.emplace(k, m);
        }
    }
    if (getenv("MC_TRIAGE"))
    { // working aid: list every kind of failure of every unit instead of stopping at the first
        for (auto& k : knownHit) { std::cout << k.first << "\n    " << k.second << "\n"; }
        return 1;
    }
    for (auto& k : knownHit) { std::cout << "KNOWN-FINDING: property=" << ck.id << " key=" << k.first << " " << knownText[k.first] << "\n"; }
    if (samples.empty()) { samples.push_back("(no sample recorded)"); }
    const bool complete = rc == 0 && sh->unitsDone == static_cast<int>(ck.units.size()) && onlyUnit.empty();
    if (rc == 0 && !complete && onlyUnit.empty() && knownHit.empty())
    {
        std::cerr << "not all units were completed\n";
        rc = 2;
    }
    const double wall = now() - t0;
    if (onlyUnit.empty())
    {
        mkdir((verifDir() + "/evidence").c_str(), 0755);
        std::ofstream o(verifDir() + "/evidence/" + ck.id + ".json", std::ios::trunc);
        const char* seed = getenv("VERIF_SEED");
        o << "{\"property\": " << jsonStr(ck.id) << ", \"tier\": " << jsonStr(ck.tier) << ", \"seed\": " << (seed ? atoi(seed) : 0)
          << ", \"level\": " << jsonStr(ck.level) << ",\n \"coverage\": {\n";
        if (ck.level == "model_checking")
        {
            o << "  \"states\": " << (states ? states : distinctSet.size()) << ",\n  \"transitions\": " << (transitions ? transitions : evals)
              << ",\n  \"traces_validated_against_impl\": " << evals << ",\n";
            o << "  \"distinct_outcomes\": " << distinctSet.size() << ",\n";
        }
        else { o << "  \"evaluations\": " << evals << ",\n  \"distinct_nontrivial\": " << distinctSet.size() << ",\n"; }
        o << "  \"rule\": " << jsonStr(ck.rule) << ",\n  \"exhaustive\": " << (complete ? "true" : "false") << ",\n  \"units\": " << sh->unitsDone.load()
          << ",\n";
        for (auto& s : stats) { o << "  " << jsonStr(s.first) << ": " << s.second << ",\n"; }
        for (auto& s : ck.info) { o << "  " << jsonStr(s.first) << ": " << jsonStr(s.second) << ",\n"; }
        o << "  \"samples\": [";
        for (size_t i = 0; i < samples.size(); i++) { o << (i ? ",\n    " : "\n    ") << jsonStr(samples[i].substr(0, 1500)); }
        o << "]\n },\n \"assumptions\": [";
        for (size_t i = 0; i < ck.assumptions.size(); i++) { o << (i ? ", " : "") << jsonStr(ck.assumptions[i]); }
        o << "],\n \"wall_s\": " << wall << ",\n \"violations\": " << (rc == 1 ? 1 : 0) << "\n}\n";
    }
    std::cout << ck.id << " " << ck.tier << ": executions=" << evals << " units=" << sh->unitsDone.load() << "/" << ck.units.size()
              << " distinct=" << distinctSet.size() << " states=" << states << " transitions=" << transitions << " wall=" << wall << "s\n";
    for (auto& s : stats) { std::cout << "  " << s.first << " = " << s.second << "\n"; }
    for (const char* e : {".err", ".res", ".fail"})
    {
        for (int w = 0; w < jobs; w++) { unlink((tmp + "/w" + std::to_string(w) + e).c_str()); }
    }
    unlink((tmp + "/replay.out").c_str());
    unlink((tmp + "/replay.err").c_str());
    rmdir(tmp.c_str());
    return rc;
}

} // namespace mc
