// P20: lock times and reference blocks over the history of one decompressor.
#include "ranges.hpp"

using namespace rg;

static bool TH = false;
static const int64_t WEEK_MS = 604800000;
struct Clock
{
    int64_t t = 2000 * WEEK_MS + 123456;
    void set(Msg& m) const
    {
        m.week = static_cast<int>(t / WEEK_MS);
        m.ms = t % WEEK_MS;
    }
};
struct Who // one signal of one satellite
{
    const Sig* sig;
    int id, src;
};
static Msg m2(const Who& w, uint64_t lock, const Clock& c)
{
    Msg m;
    m.ver = 2;
    c.set(m);
    m.src = w.src;
    Sat2 t{w.sig, nom2s(*w.sig), {{w.sig, nom2(*w.sig)}}};
    t.r[1] = static_cast<uint64_t>(w.id);
    t.sigs[0].second[4] = lock;
    m.m2 = {t};
    return m;
}
static Msg m4(int ver, const Who& w, uint64_t lock, const Clock& c, bool diff = false, int ref = 0, uint64_t psr = 0)
{
    Msg m;
    m.ver = ver;
    c.set(m);
    m.src = w.src;
    Sat4 t;
    t.id = w.id;
    t.slot = w.sig->sys == 1 ? 9 : 0;
    t.diff = diff;
    t.ref = ref;
    Raw r = nom4(ver == 5 ? V5P : diff ? DIF1 : REF1);
    r[3] = lock;
    r[6] += psr;
    t.sigs = {{w.sig->sig4, r}};
    m.m4 = {{w.sig->sys, {t}, 0}};
    return m;
}
static string whoStr(const Who& w) { return fmtf("%s satellite %d source %d", w.sig->name, w.id, w.src); }

// ---------------------------------------------------------------- one signal, all histories
static void saturation(size_t start)
{
    static const vector<uint64_t> codes = {0, 1000, 131070, 131071};
    static const vector<int64_t> steps = {0, 1, 1000, 131072};
    const Who w{&SIGS[0], 12, 0};
    RangeDecompressor d(db());
    Model model;
    Clock c;
    if (start) { c.t = 2001 * WEEK_MS - 500; }
    const int n = TH ? 5 : 4;
    string h;
    for (int i = 0; i < n; i++)
    {
        const int e = choose(static_cast<int>(codes.size() * steps.size()) + 1);
        if (e == static_cast<int>(codes.size() * steps.size()))
        {
            d.Reset();
            model.reset();
            h += " reset";
            continue;
        }
        const uint64_t code = codes[static_cast<size_t>(e) % codes.size()];
        c.t += steps[static_cast<size_t>(e) / codes.size()];
        h += fmtf(" %llu at %lld", static_cast<unsigned long long>(code), static_cast<long long>(c.t - 2000 * WEEK_MS));
        const Msg m = m2(w, code, c);
        if (fresh()) { expect(d, model, m, "RANGECMP2 lock times" + h); }
        else
        {
            model.apply(m);
            (void)decompress(d, m.binary());
        }
    }
    addStates(1);
}
static void codes4(size_t start)
{
    static const vector<int> all = TH ? vector<int>{0, 1, 2, 5, 6, 14, 15} : vector<int>{0, 2, 5, 6, 15};
    static const vector<int64_t> steps = TH ? vector<int64_t>{0, 16, 400, 200000} : vector<int64_t>{0, 400, 200000};
    const Who w{&SIGS[0], 12, 0};
    RangeDecompressor d(db());
    Model model;
    Clock c;
    if (start % 2) { c.t = 2001 * WEEK_MS - 300; }
    const int n = 4, versions = start / 2 ? 2 : 1; // one variant only, or both mixed (they describe the same signals)
    string h;
    for (int i = 0; i < n; i++)
    {
        const int e = choose(static_cast<int>(all.size() * steps.size()) + 1);
        if (e == static_cast<int>(all.size() * steps.size()))
        {
            d.Reset();
            model.reset();
            h += " reset";
            continue;
        }
        const int ver = versions == 2 ? (i % 2 ? 5 : 4) : 4;
        const int code = all[static_cast<size_t>(e) % all.size()];
        c.t += steps[static_cast<size_t>(e) / all.size()];
        h += fmtf(" %d at %lld", code, static_cast<long long>(c.t - 2000 * WEEK_MS));
        const Msg m = m4(ver, w, static_cast<uint64_t>(code), c);
        if (fresh()) { expect(d, model, m, fmtf("RANGECMP%d lock codes", ver) + h); }
        else
        {
            model.apply(m);
            (void)decompress(d, m.binary());
        }
    }
    addStates(1);
}
// every pair and triple of codes at the borders of their ranges
static void ladder()
{
    const Who w{&SIGS[0], 12, 0};
    RangeDecompressor d(db());
    const int ver = std::array<int, 3>{3, 4, 5}[static_cast<size_t>(choose(3))], a = choose(16), b = choose(16);
    for (int c3 = 0; c3 < 16; c3++)
    {
        for (int64_t s : {int64_t{0}, int64_t{1}, static_cast<int64_t>(LOCK4[b]), static_cast<int64_t>(LOCK4[std::min(b + 1, 15)]), static_cast<int64_t>(LOCK4[std::min(b + 1, 15)]) + 1})
        {
            d.Reset();
            Model model;
            Clock c;
            expect(d, model, m4(ver, w, static_cast<uint64_t>(a), c), fmtf("code %d", a));
            c.t += 50;
            expect(d, model, m4(ver, w, static_cast<uint64_t>(b), c), fmtf("codes %d, %d after 50 ms", a, b));
            c.t += s;
            expect(d, model, m4(ver, w, static_cast<uint64_t>(c3), c), fmtf("codes %d, %d after 50 ms, %d after %lld ms", a, b, c3, static_cast<long long>(s)));
            c.t += s;
            expect(d, model, m4(ver, w, static_cast<uint64_t>(c3), c), fmtf("codes %d, %d after 50 ms, %d after %lld ms and again", a, b, c3, static_cast<long long>(s)));
            addStates(1);
        }
    }
}
// ---------------------------------------------------------------- one signal's history is its own
static vector<Who> everyone(int ver)
{
    vector<Who> v;
    for (auto& s : SIGS)
    {
        for (int id = ver == 2 ? 0 : 1; id <= (ver == 2 ? 255 : 64); id++)
        {
            if (ver != 2 && prn4(s.sys, id) < 0) { continue; }
            for (int src = 0; src < 2; src++) { v.push_back({&s, id, src}); }
        }
    }
    return v;
}
static void everySignal(int what)
{
    const int order = choose(2);
    RangeDecompressor d(db());
    Model model;
    vector<Who> v = everyone(what == 2 ? 2 : 4);
    const vector<Who> all = v;
    if (order) { std::reverse(v.begin(), v.end()); }
    Clock c;
    c.t = 2000 * WEEK_MS + 1;
    auto msg = [&](const Who& w, int round) {
        if (what == 2) { return m2(w, 131071, c); }
        if (what == 4) { return m4(4, w, 5, c); }
        if (what == 5) { return m4(5, w, 5, c); }
        // references and differences: each of its own value
        const uint64_t n = static_cast<uint64_t>(&w - v.data());
        return m4(4, w, 0, c, round == 1, static_cast<int>(n % 8), round == 0 ? n * 1000 : n % 100);
    };
    for (int round = 0; round < 2; round++)
    {
        for (auto& w : v)
        {
            c.t += 1;
            if (c.t % 1000 == 0) { c.t += what == 0 ? 1 : 1; }
            if (what == 0) { c.t = 2000 * WEEK_MS + 500; } // no whole second in between
            const Msg m = msg(w, round);
            expect(d, model, m, fmtf("round %d, ", round) + whoStr(w));
            addStates(1);
        }
    }
    for (size_t i = 0; i < all.size(); i += 997) { distinct(hashStr(whoStr(all[i]))); }
}
// interleavings of two signals
static void two(int ver)
{
    static const Sig &g1 = SIGS[0], &g2 = SIGS[1], &r1 = SIGS[6];
    static const vector<std::pair<Who, Who>> pairs = {{{&g1, 12, 0}, {&g1, 13, 0}}, {{&g1, 12, 0}, {&g2, 12, 0}}, {{&g1, 12, 0}, {&g1, 12, 1}}, {{&g1, 12, 0}, {&r1, 12, 0}}, {{&g1, 64, 0}, {&r1, 64, 0}}};
    const auto& p = pick(pairs);
    static const vector<int64_t> steps = {1, 600};
    static const vector<uint64_t> c2 = {5, 131071}, c4 = {0, 4, 5};
    const vector<uint64_t>& codes = ver == 2 ? c2 : c4;
    RangeDecompressor d(db());
    Model model;
    Clock c;
    string h;
    const int n = TH ? 5 : 4;
    for (int i = 0; i < n; i++)
    {
        const int e = choose(static_cast<int>(codes.size() * 4));
        const Who& w = e % 2 ? p.second : p.first;
        c.t += steps[static_cast<size_t>(e / 2 % 2)];
        const uint64_t code = codes[static_cast<size_t>(e / 4)];
        const Msg m = ver == 2 ? m2(w, code, c) : m4(ver, w, code, c);
        h += fmtf(" [%s %llu at %lld]", whoStr(w).c_str(), static_cast<unsigned long long>(code), static_cast<long long>(c.t - 2000 * WEEK_MS));
        if (fresh()) { expect(d, model, m, fmtf("RANGECMP%d", ver) + h); }
        else
        {
            model.apply(m);
            (void)decompress(d, m.binary());
        }
    }
    addStates(1);
}
// ---------------------------------------------------------------- references
static void references(int start, int first)
{
    static const Who ws[] = {{&SIGS[0], 12, 0}, {&SIGS[0], 12, 1}, {&SIGS[6], 3, 0}};
    RangeDecompressor d(db());
    Model model;
    Clock c;
    c.t = start == 1 ? 2001 * WEEK_MS - 500 : 2000 * WEEK_MS + 123500;
    string h;
    const int n = TH ? 4 : start == 0 ? 4 : 3;
    for (int i = 0; i < n; i++)
    {
        // reference or difference, of one of three, with one of two ids, at the same time / half a second later / on the next whole second; a RANGECMP5; a reset; a refused message
        const int e = i == 0 ? first : choose(2 * 3 * 2 * 2 + 4);
        if (e == 24)
        {
            d.Reset();
            model.reset();
            h += " reset";
            continue;
        }
        Msg m;
        if (e == 25) { m = m4(5, ws[0], 3, c); h += " RANGECMP5"; }
        else if (e == 26)
        {
            // an empty message on the whole second
            c.t = (c.t / 1000 + 1) * 1000;
            m.ver = 4;
            m.src = 0;
            c.set(m);
            h += fmtf(" empty at %lld", static_cast<long long>(c.t - 2000 * WEEK_MS));
        }
        else if (e == 27)
        {
            m = m4(4, ws[0], 3, c, true, 0); // no reference is ever needed for the other signal of the same satellite
            m.m4[0].sats[0].sigs.push_back({15, nom4(DIF2)});
            h += " two signals";
        }
        else
        {
            const Who& w = ws[e / 2 % 3];
            c.t += e / 6 % 2 ? 250 : 0;
            m = m4(start == 2 ? 3 : 4, w, 3, c, e % 2, e / 12, static_cast<uint64_t>(i) * 10000 % 5000);
            h += fmtf(" [%s %s id %d at %lld]", e % 2 ? "difference" : "reference", whoStr(w).c_str(), e / 12, static_cast<long long>(c.t - 2000 * WEEK_MS));
        }
        if (fresh()) { expect(d, model, m, "RANGECMP4" + h); }
        else
        {
            model.apply(m);
            (void)decompress(d, m.binary());
        }
    }
    addStates(1);
    distinct(hashStr(h));
}
// whole satellites: references of several signals, later differences of some of them
static void satellites()
{
    const int have = choose(8), ask = choose(8), ids = choose(4), src = choose(2), where = choose(3);
    static const int sg[] = {1, 4, 15};
    auto make = [&](int mask, bool diff, int ref) {
        Msg m;
        m.ver = 4;
        m.src = src;
        Sat4 t, o;
        t.id = 12;
        t.diff = diff;
        t.ref = ref;
        for (int i = 0; i < 3; i++)
        {
            if (mask >> i & 1)
            {
                Raw r = nom4(diff ? (t.sigs.empty() ? DIF1 : DIF2) : t.sigs.empty() ? REF1 : REF2);
                r[6] += static_cast<uint64_t>(i) * 100;
                t.sigs.push_back({sg[i], r});
            }
        }
        o.id = 33;
        o.ref = 1;
        o.sigs = {{1, nom4(REF1)}, {15, nom4(REF2)}};
        m.m4 = {{0, {}, 0}};
        if (where == 1) { o.id = 3; m.m4[0].sats = {o, t}; }
        else if (where == 2) { m.m4[0].sats = {t, o}; }
        else { m.m4[0].sats = {t}; }
        return m;
    };
    RangeDecompressor d(db());
    Model model;
    Clock c;
    c.t = 2000 * WEEK_MS + 5000;
    Msg a = make(have, false, ids & 1), b = make(ask, true, ids >> 1);
    c.set(a);
    expect(d, model, a, fmtf("references of signals %d", have));
    c.t += 400;
    c.set(b);
    expect(d, model, b, fmtf("differences of signals %d with references of %d, ids %d and %d", ask, have, ids >> 1, ids & 1));
    // the same again, after a new reference of one signal
    Msg again = make(1 << (choose(3)), false, ids >> 1);
    c.t += 100;
    c.set(again);
    expect(d, model, again, "a newer reference");
    c.t += 100;
    c.set(b);
    expect(d, model, b, fmtf("differences of signals %d after a newer reference", ask));
    addStates(1);
}
// ---------------------------------------------------------------- reset, new objects
static void resets()
{
    // any three messages, Reset, then any two: as with a new object, byte by byte
    auto any = [](int k, Clock& c) {
        c.t += 700;
        static const Who ws[] = {{&SIGS[0], 12, 0}, {&SIGS[6], 3, 0}};
        const Who& w = ws[k % 2];
        switch (k / 2)
        {
        case 0: return m2(w, 131071, c);
        case 1: return m4(4, w, 5, c);
        case 2: return m4(4, w, 6, c, true, 0);
        case 3: return m4(5, w, 7, c);
        default: return m4(3, w, 15, c);
        }
    };
    RangeDecompressor d(db()), e(db());
    Clock c;
    c.t = 2000 * WEEK_MS + 100050;
    const int before = choose(TH ? 4 : 3);
    for (int i = 0; i < before; i++) { (void)decompress(d, any(choose(10), c).binary()); }
    d.Reset();
    for (int i = 0; i < 2; i++)
    {
        const Msg m = any(choose(10), c);
        const Result a = decompress(d, m.binary()), b = decompress(e, m.binary());
        MC_REQUIRE(a.st == b.st && a.bytes == b.bytes, "reset", fmtf("after Reset message %d (RANGECMP%d) gives ", i, m.ver) + hex(a.bytes) + " instead of what a new decompressor gives: " + hex(b.bytes));
    }
    addStates(1);
}
// refused messages leave the lock times of others alone
static void refused()
{
    static const Who w{&SIGS[0], 12, 0};
    const int how = choose(4), ver = choose(2) ? 4 : 2;
    RangeDecompressor d(db());
    Model model;
    Clock c;
    auto good = [&](uint64_t code) { return ver == 2 ? m2(w, code == 5 ? 131071 : 7, c) : m4(4, w, code, c); };
    expect(d, model, good(5), "first");
    c.t += 300;
    string bad = good(9).binary();
    if (how == 0) { bad.resize(30); bad[8] = 2; bad[9] = 0; }
    if (how == 1) { bad[28] = '\xFF'; bad[29] = '\xFF'; }
    if (how == 2) { bad[4] = 1; bad[5] = 0; }
    if (how == 3) { bad[6] = static_cast<char>(0x80); }
    const Result r = decompress(d, bad);
    MC_REQUIRE(r.st != STATUS::SUCCESS, "refused", fmtf("damaged message %d gives status %d", how, static_cast<int>(r.st)));
    c.t += 300;
    expect(d, model, good(5), fmtf("after refused message %d", how));
    addStates(1);
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P20";
    ck.level = "model_checking";
    ck.rule = "One execution is one history of compressed range messages (lock time codes, time steps across whole seconds and the week's end, sources, reference and differential blocks with ids, refused messages, Reset) given to one real "
              "decompressor; at every message the whole RANGE log is compared with an explicit-state model of the documented rules (saturation, relative and absolute lock times, reference blocks by signal, id, source and second). A sweep gives "
              "every signal of every satellite and source its own state and reads all of them back.";
    ck.assumptions = {"the rule for a code that falls back and rises again is the one the implementation documents (lock time counts from the last code that was reported as changed)"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    quietLogs();
    TH = ck.thorough();
    for (size_t i = 0; i < 2; i++) { ck.unit(fmtf("saturation/%zu", i), [i] { saturation(i); }); }
    for (size_t i = 0; i < 4; i++) { ck.unit(fmtf("codes/%zu", i), [i] { codes4(i); }); }
    for (int v : {2, 4, 5}) { ck.unit(fmtf("two/%d", v), [v] { two(v); }); }
    for (int i = 0; i < 3; i++)
    {
        for (int f = 0; f < 28; f++) { ck.unit(fmtf("references/%d/%d", i, f), [i, f] { references(i, f); }); }
    }
    for (int v : {0, 2, 4, 5}) { ck.unit(fmtf("every signal/%d", v), [v] { everySignal(v); }); }
    ck.unit("ladder", [] { ladder(); });
    ck.unit("satellites", [] { satellites(); });
    ck.unit("resets", [] { resets(); });
    ck.unit("refused", [] { refused(); });
    return runCheck(ck, argc, argv);
}
