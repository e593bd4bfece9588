// One execution in a fresh process: process-wide state (singletons, once flags, function statics) starts anew every time.
#pragma once
#include "mc.hpp"

namespace mc {
namespace forkdetail {
inline int fd = -1;
inline void put(const std::string& s)
{
    const uint64_t n = s.size();
    if (write(fd, &n, 8) != 8) { _exit(97); }
    size_t w = 0;
    while (w < s.size())
    {
        const ssize_t k = write(fd, s.data() + w, s.size() - w);
        if (k <= 0) { _exit(97); }
        w += static_cast<size_t>(k);
    }
}
inline void putInts(const std::vector<int>& v)
{
    std::string s;
    for (int x : v) { s += std::to_string(x) + " "; }
    put(s);
}
inline std::vector<int> ints(const std::string& s)
{
    std::vector<int> v;
    std::istringstream i(s);
    int x;
    while (i >> x) { v.push_back(x); }
    return v;
}
inline std::vector<uint64_t>* seen = nullptr;
// Ends the child: how it went goes to the parent.
[[noreturn]] inline void finish(const char* key, const char* msg)
{
    putInts(ctl.c);
    putInts(ctl.lim);
    put(std::to_string(ctl.pos));
    put(ctl.trace);
    std::string d;
    for (uint64_t h : *seen) { d += std::to_string(h) + " "; }
    put(d);
    std::string st;
    for (auto& [k, v] : ctl.stat) { st += k + " " + std::to_string(v) + "\n"; }
    put(st);
    put(key ? key : "");
    put(msg ? msg : "");
    _exit(0);
}
} // namespace forkdetail

inline void forkDistinct(uint64_t h)
{
    if (forkdetail::seen) { forkdetail::seen->push_back(h); }
}
inline std::string crashName(int status)
{
    if (WIFSIGNALED(status)) { return fmtf("signal-%d", WTERMSIG(status)); }
    return fmtf("exit-%d", WEXITSTATUS(status));
}
// Runs fn (which may choose) in a child; its choices become those of this execution, its failure is thrown here.
inline void forked(const std::function<void()>& fn, double limit = 60)
{
    using namespace forkdetail;
    int p[2];
    if (pipe(p) != 0) { throw std::logic_error("pipe"); }
    fflush(stdout);
    fflush(stderr);
    const pid_t pid = fork();
    if (pid < 0) { throw std::logic_error("fork"); }
    if (pid == 0)
    {
        close(p[0]);
        fd = p[1];
        seen = new std::vector<uint64_t>;
        ctl.trace.clear();
        ctl.stat.clear();
        alarm(static_cast<unsigned>(limit));
        try
        {
            fn();
        }
        catch (const Failure& f)
        {
            finish(f.key.c_str(), f.msg.c_str());
        }
        catch (const std::exception& e)
        {
            finish("exception", e.what());
        }
        catch (...)
        {
            finish("exception", "unknown exception");
        }
        finish(nullptr, nullptr);
    }
    close(p[1]);
    std::string all;
    char b[8192];
    for (;;)
    {
        const ssize_t k = read(p[0], b, sizeof b);
        if (k < 0 && errno == EINTR) { continue; }
        if (k <= 0) { break; }
        all.append(b, static_cast<size_t>(k));
    }
    close(p[0]);
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    size_t at = 0;
    std::vector<std::string> parts;
    while (at + 8 <= all.size())
    {
        uint64_t n;
        memcpy(&n, all.data() + at, 8);
        at += 8;
        if (at + n > all.size()) { break; }
        parts.push_back(all.substr(at, n));
        at += n;
    }
    if (parts.size() != 8)
    {
        // it died: its choices are in the shared slot
        if (me)
        {
            const int n = std::min(me->n.load(), MAX_CHOICES);
            for (int i = 0; i < n; i++)
            {
                if (static_cast<size_t>(i) >= ctl.c.size())
                {
                    ctl.c.push_back(me->choice[i]);
                    ctl.lim.push_back(me->choice[i] + 1);
                }
            }
            ctl.pos = ctl.c.size();
        }
        fail(WIFSIGNALED(status) && WTERMSIG(status) == SIGALRM ? "hang" : "crash:" + crashName(status), "the process ended with " + crashName(status) + " in this schedule");
    }
    ctl.c = ints(parts[0]);
    ctl.lim = ints(parts[1]);
    ctl.pos = std::stoul(parts[2]);
    if (me) { me->n = static_cast<int>(std::min<size_t>(ctl.pos, MAX_CHOICES)); }
    if (ctl.tracing) { ctl.trace += parts[3]; }
    std::istringstream ds(parts[4]);
    uint64_t h;
    while (ds >> h) { distinct(h); }
    std::istringstream ss(parts[5]);
    std::string k;
    uint64_t v;
    while (ss >> k >> v) { stat(k, v); }
    if (!parts[6].empty()) { fail(parts[6], parts[7]); }
}
} // namespace mc
