// P14: a filter passes exactly the messages its settings describe.
#include "mc.hpp"

#include "novatel_edie/decoders/oem/filter.hpp"

using namespace mc;
using namespace novatel::edie;
using namespace novatel::edie::oem;
using HF = HEADER_FORMAT;
using std::string;
using std::vector;

// ---------------------------------------------------------------- the specification
struct Spec
{
    bool lower = false, upper = false, invTime = false;
    int64_t lo = 0, up = 0; // ms on one time line
    bool dec = false, invDec = false;
    uint32_t period = 0;
    std::set<int> ts;
    bool invTs = false;
    std::set<std::tuple<uint32_t, HF, int>> ids;
    bool invIds = false;
    std::set<std::tuple<string, HF, int>> names;
    bool invNames = false;
    bool nmea = false, resp = true, nonResp = true;

    // 1 pass, 0 reject, -1 not specified
    int pass(const MetaDataStruct& m) const
    {
        if (m.eFormat == HF::UNKNOWN) { return 0; }
        if (m.eFormat == HF::NMEA) { return nmea; } // NMEA logs carry none of the other attributes
        if (m.bResponse ? !resp : !nonResp) { return 0; }
        const int64_t t = int64_t{m.usWeek} * 604800000 + static_cast<int64_t>(m.dMilliseconds);
        if (lower || upper)
        {
            bool ok;
            if (!invTime) { ok = (!lower || t >= lo) && (!upper || t <= up); }
            else if (lower && upper) { ok = t < lo || t > up; }
            else { ok = lower ? t < lo : t > up; } // each bound acts as the opposite one and excludes itself
            if (!ok) { return 0; }
        }
        if (!ts.empty() && (ts.count(static_cast<int>(m.eTimeStatus)) != 0) == invTs) { return 0; }
        if (!ids.empty())
        {
            const bool in = ids.count({m.usMessageId, HF::ALL, m.ucSiblingId}) || ids.count({m.usMessageId, m.eFormat, m.ucSiblingId});
            if (in == invIds) { return 0; }
        }
        if (!names.empty())
        {
            const bool in = names.count({string(m.messageName), HF::ALL, m.ucSiblingId}) || names.count({string(m.messageName), m.eFormat, m.ucSiblingId});
            if (in == invNames) { return 0; }
        }
        if (dec)
        {
            if (period == 0) { return -1; }
            const bool on = static_cast<uint64_t>(m.dMilliseconds) % period == 0;
            if (on == invDec) { return 0; }
        }
        return 1;
    }
    uint64_t hash() const
    {
        uint64_t h = lower | upper << 1 | invTime << 2 | dec << 3 | invDec << 4 | invTs << 5 | invIds << 6 | invNames << 7 | nmea << 8 | resp << 9 | nonResp << 10;
        h = mix(h, lower ? lo : 0);
        h = mix(h, upper ? up : 0);
        h = mix(h, dec ? period : 0);
        for (int t : ts) { h = mix(h, t); }
        for (auto& [i, f, s] : ids) { h = mix(mix(h, i), static_cast<int>(f) * 256 + s); }
        for (auto& [n, f, s] : names) { h = mix(mix(h, hashStr(n)), static_cast<int>(f) * 256 + s); }
        return h;
    }
};

struct Op
{
    string text;
    std::function<void(Filter&)> run;
    std::function<void(Spec&)> spec;
};
static const int64_t WEEK = 604800000;

// the caller's string goes away right after the call
template <typename Fn> static void withName(const string& n, Fn fn)
{
    std::unique_ptr<char[]> p(new char[n.size()]);
    memcpy(p.get(), n.data(), n.size());
    fn(std::string_view(p.get(), n.size()));
}
static const char* fs(HF f)
{
    return f == HF::ALL ? "ALL" : f == HF::BINARY ? "BINARY" : f == HF::ASCII ? "ASCII" : f == HF::NMEA ? "NMEA" : "other";
}

static Op lowerOp(uint32_t w, double s, int64_t ms)
{
    return {fmtf("SetIncludeLowerTimeBound(%u, %.3f)", w, s), [=](Filter& f) { f.SetIncludeLowerTimeBound(w, s); }, [=](Spec& m) { m.lower = true; m.lo = w * WEEK + ms; }};
}
static Op upperOp(uint32_t w, double s, int64_t ms)
{
    return {fmtf("SetIncludeUpperTimeBound(%u, %.3f)", w, s), [=](Filter& f) { f.SetIncludeUpperTimeBound(w, s); }, [=](Spec& m) { m.upper = true; m.up = w * WEEK + ms; }};
}
static vector<Op> timeOps()
{
    vector<Op> v = {lowerOp(1, 5.0, 5000), lowerOp(2, 0.002, 2), upperOp(1, 5.0, 5000), upperOp(2, 0.003, 3), upperOp(0, 604799.999, 604799999), lowerOp(1, 1.001, 1001)};
    for (bool b : {true, false})
    {
        v.push_back({fmtf("InvertTimeFilter(%d)", b), [=](Filter& f) { f.InvertTimeFilter(b); }, [=](Spec& m) { m.invTime = b; }});
    }
    v.push_back({"ClearLowerTimeBound()", [](Filter& f) { f.ClearLowerTimeBound(); }, [](Spec& m) { m.lower = false; }});
    v.push_back({"ClearUpperTimeBound()", [](Filter& f) { f.ClearUpperTimeBound(); }, [](Spec& m) { m.upper = false; }});
    v.push_back({"ClearTimeBounds()", [](Filter& f) { f.ClearTimeBounds(); }, [](Spec& m) { m.lower = m.upper = false; }});
    return v;
}
static vector<Op> decOps()
{
    vector<Op> v;
    for (uint32_t p : {0u, 1u, 2u, 500u, 1001u, 604800000u})
    {
        v.push_back({fmtf("SetIncludeDecimationMs(%u)", p), [=](Filter& f) { f.SetIncludeDecimationMs(p); }, [=](Spec& m) { m.dec = true; m.period = p; }});
    }
    for (auto [s, p] : {std::pair<double, uint32_t>{0.5, 500}, {1.001, 1001}, {2.0, 2000}})
    {
        v.push_back({fmtf("SetIncludeDecimation(%.3f)", s), [s = s](Filter& f) { f.SetIncludeDecimation(s); }, [p = p](Spec& m) { m.dec = true; m.period = p; }});
    }
    for (bool b : {true, false})
    {
        v.push_back({fmtf("InvertDecimationFilter(%d)", b), [=](Filter& f) { f.InvertDecimationFilter(b); }, [=](Spec& m) { m.invDec = b; }});
    }
    v.push_back({"ClearDecimationFilter()", [](Filter& f) { f.ClearDecimationFilter(); }, [](Spec& m) { m.dec = false; }});
    return v;
}
static vector<Op> statusOps()
{
    vector<Op> v;
    for (TIME_STATUS s : {TIME_STATUS::FINE, TIME_STATUS::COARSE})
    {
        v.push_back({fmtf("IncludeTimeStatus(%d)", int(s)), [=](Filter& f) { f.IncludeTimeStatus(s); }, [=](Spec& m) { m.ts.insert(int(s)); }});
        v.push_back({fmtf("RemoveTimeStatus(%d)", int(s)), [=](Filter& f) { f.RemoveTimeStatus(s); }, [=](Spec& m) { m.ts.erase(int(s)); }});
    }
    v.push_back({"IncludeTimeStatus({})", [](Filter& f) { f.IncludeTimeStatus(vector<TIME_STATUS>{}); }, [](Spec&) {}});
    v.push_back({"IncludeTimeStatus({FINE, UNKNOWN, FINE})", [](Filter& f) { f.IncludeTimeStatus(vector<TIME_STATUS>{TIME_STATUS::FINE, TIME_STATUS::UNKNOWN, TIME_STATUS::FINE}); },
                 [](Spec& m) { m.ts.insert(int(TIME_STATUS::FINE)); m.ts.insert(int(TIME_STATUS::UNKNOWN)); }});
    for (bool b : {true, false})
    {
        v.push_back({fmtf("InvertTimeStatusFilter(%d)", b), [=](Filter& f) { f.InvertTimeStatusFilter(b); }, [=](Spec& m) { m.invTs = b; }});
    }
    v.push_back({"ClearTimeStatuses()", [](Filter& f) { f.ClearTimeStatuses(); }, [](Spec& m) { m.ts.clear(); m.invTs = false; }});
    return v;
}
using IdT = std::tuple<uint32_t, HF, uint8_t>;
using NameT = std::tuple<string, HF, uint8_t>;
static vector<Op> idOps()
{
    vector<Op> v;
    for (IdT t : {IdT{42, HF::ALL, 0}, IdT{42, HF::BINARY, 0}, IdT{42, HF::ALL, 1}, IdT{65536 + 43, HF::ALL, 0}, IdT{43, HF::ASCII, 0}})
    {
        auto [i, f, s] = t;
        v.push_back({fmtf("IncludeMessageId(%u, %s, %u)", i, fs(f), s), [=](Filter& x) { auto [i, f, s] = t; x.IncludeMessageId(i, f, s); }, [=](Spec& m) { auto [i, f, s] = t; m.ids.insert({i, f, s}); }});
        if (i < 65536)
        {
            v.push_back({fmtf("RemoveMessageId(%u, %s, %u)", i, fs(f), s), [=](Filter& x) { auto [i, f, s] = t; x.RemoveMessageId(i, f, s); }, [=](Spec& m) { auto [i, f, s] = t; m.ids.erase({i, f, s}); }});
        }
    }
    v.push_back({"IncludeMessageId({})", [](Filter& f) { vector<IdT> e; f.IncludeMessageId(e); }, [](Spec&) {}});
    v.push_back({"IncludeMessageId({42 ALL 0, 43 ASCII 0, 42 ALL 0})",
                 [](Filter& f) { vector<IdT> e{{42, HF::ALL, 0}, {43, HF::ASCII, 0}, {42, HF::ALL, 0}}; f.IncludeMessageId(e); },
                 [](Spec& m) { m.ids.insert({42, HF::ALL, 0}); m.ids.insert({43, HF::ASCII, 0}); }});
    for (bool b : {true, false})
    {
        v.push_back({fmtf("InvertMessageIdFilter(%d)", b), [=](Filter& f) { f.InvertMessageIdFilter(b); }, [=](Spec& m) { m.invIds = b; }});
    }
    v.push_back({"ClearMessageIds()", [](Filter& f) { f.ClearMessageIds(); }, [](Spec& m) { m.ids.clear(); m.invIds = false; }});
    return v;
}
static vector<Op> nameOps()
{
    vector<Op> v;
    for (NameT t : {NameT{"BESTPOS", HF::ALL, 0}, NameT{"BESTPOS", HF::BINARY, 0}, NameT{"BESTPOS", HF::ALL, 1}, NameT{"BESTPO", HF::ALL, 0}, NameT{"RANGECMP_OF_A_VERY_LONG_NAME", HF::ASCII, 0}})
    {
        auto [n, f, s] = t;
        v.push_back({fmtf("IncludeMessageName(%s, %s, %u)", n.c_str(), fs(f), s), [=](Filter& x) { withName(std::get<0>(t), [&](std::string_view sv) { x.IncludeMessageName(sv, std::get<1>(t), std::get<2>(t)); }); },
                     [=](Spec& m) { auto [n, f, s] = t; m.names.insert({n, f, s}); }});
        if (n != "BESTPO")
        {
            v.push_back({fmtf("RemoveMessageName(%s, %s, %u)", n.c_str(), fs(f), s), [=](Filter& x) { withName(std::get<0>(t), [&](std::string_view sv) { x.RemoveMessageName(sv, std::get<1>(t), std::get<2>(t)); }); },
                         [=](Spec& m) { auto [n, f, s] = t; m.names.erase({n, f, s}); }});
        }
    }
    v.push_back({"IncludeMessageName({})", [](Filter& f) { vector<NameT> e; f.IncludeMessageName(e); }, [](Spec&) {}});
    v.push_back({"IncludeMessageName({BESTPOS ALL 0, BESTPOS BINARY 0, BESTPOS ALL 0})",
                 [](Filter& f) { vector<NameT> e{{"BESTPOS", HF::ALL, 0}, {"BESTPOS", HF::BINARY, 0}, {"BESTPOS", HF::ALL, 0}}; f.IncludeMessageName(e); },
                 [](Spec& m) { m.names.insert({"BESTPOS", HF::ALL, 0}); m.names.insert({"BESTPOS", HF::BINARY, 0}); }});
    for (bool b : {true, false})
    {
        v.push_back({fmtf("InvertMessageNameFilter(%d)", b), [=](Filter& f) { f.InvertMessageNameFilter(b); }, [=](Spec& m) { m.invNames = b; }});
    }
    v.push_back({"ClearMessageNames()", [](Filter& f) { f.ClearMessageNames(); }, [](Spec& m) { m.names.clear(); m.invNames = false; }});
    return v;
}
static vector<Op> flagOps()
{
    vector<Op> v;
    for (bool b : {true, false})
    {
        v.push_back({fmtf("IncludeNmeaMessages(%d)", b), [=](Filter& f) { f.IncludeNmeaMessages(b); }, [=](Spec& m) { m.nmea = b; }});
        v.push_back({fmtf("IncludeResponses(%d)", b), [=](Filter& f) { f.IncludeResponses(b); }, [=](Spec& m) { m.resp = b; }});
        v.push_back({fmtf("IncludeNonResponses(%d)", b), [=](Filter& f) { f.IncludeNonResponses(b); }, [=](Spec& m) { m.nonResp = b; }});
    }
    v.push_back({"ClearFilters()", [](Filter& f) { f.ClearFilters(); }, [](Spec& m) { m = Spec(); }});
    return v;
}

// ---------------------------------------------------------------- messages
struct Dim
{
    vector<std::pair<uint16_t, double>> times{{1, 5000}};
    vector<TIME_STATUS> ts{TIME_STATUS::FINE};
    vector<uint16_t> ids{42};
    vector<string> names{"BESTPOS"};
    vector<uint8_t> sib{0};
    vector<HF> fmts{HF::BINARY};
    vector<bool> resp{false};
};
static vector<MetaDataStruct> grid(const Dim& d)
{
    vector<MetaDataStruct> v;
    for (auto& t : d.times)
        for (auto s : d.ts)
            for (auto i : d.ids)
                for (auto& n : d.names)
                    for (auto b : d.sib)
                        for (auto f : d.fmts)
                            for (bool r : d.resp)
                            {
                                MetaDataStruct m;
                                m.usWeek = t.first;
                                m.dMilliseconds = t.second;
                                m.eTimeStatus = s;
                                m.usMessageId = i;
                                m.messageName = n;
                                m.ucSiblingId = b;
                                m.eFormat = f;
                                m.bResponse = r;
                                v.push_back(m);
                            }
    return v;
}
static string show(const MetaDataStruct& m)
{
    return fmtf("{week %u ms %.0f status %d id %u name %s sibling %u format %d response %d}", m.usWeek, m.dMilliseconds, int(m.eTimeStatus), m.usMessageId,
                string(m.messageName).c_str(), m.ucSiblingId, int(m.eFormat), m.bResponse);
}
static void judge(const Filter& f, const Spec& m, const vector<MetaDataStruct>& g, const string& last)
{
    static vector<char> first;
    first.assign(g.size(), 0);
    for (size_t i = 0; i < g.size(); i++)
    {
        const bool got = f.DoFiltering(g[i]);
        first[i] = got;
        const int want = m.pass(g[i]);
        if (want >= 0 && got != (want != 0))
        {
            fail("predicate", fmtf("after %s the filter %s %s", last.c_str(), got ? "passes" : "rejects", show(g[i]).c_str()));
        }
    }
    for (size_t i = g.size(); i-- > 0;)
    {
        if (f.DoFiltering(g[i]) != (first[i] != 0)) { fail("memory", fmtf("after %s a second look at %s gives another answer", last.c_str(), show(g[i]).c_str())); }
    }
    addEvals(2 * g.size());
}
static void explore(const vector<Op>& ops, const vector<MetaDataStruct>& g, int depth, int firstOp)
{
    Filter f;
    Spec m;
    if (fresh()) { judge(f, m, g, "construction"); }
    for (int d = 0; d < depth; d++)
    {
        const Op& o = d == 0 && firstOp >= 0 ? ops[static_cast<size_t>(firstOp)] : pick(ops);
        o.run(f);
        o.spec(m);
        if (tracing()) { note(o.text); }
        if (fresh() || d == 0)
        {
            addTransitions(1);
            distinct(m.hash());
            judge(f, m, g, o.text);
        }
    }
}
static void group(Check& ck, const string& name, vector<Op> ops, vector<MetaDataStruct> g, int depth)
{
    auto po = std::make_shared<vector<Op>>(std::move(ops));
    auto pg = std::make_shared<vector<MetaDataStruct>>(std::move(g));
    for (size_t i = 0; i < po->size(); i++)
    {
        ck.unit(fmtf("%s/%s", name.c_str(), (*po)[i].text.c_str()), [=] { explore(*po, *pg, depth, static_cast<int>(i)); });
    }
}
static void add(vector<Op>& v, const vector<Op>& w, std::initializer_list<const char*> pre)
{
    for (auto p : pre)
    {
        bool hit = false;
        for (auto& o : w)
        {
            if (o.text.rfind(p, 0) == 0) { v.push_back(o); hit = true; break; }
        }
        if (!hit) { fprintf(stderr, "no op %s\n", p); abort(); }
    }
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P14";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    ck.rule = "all sequences of configuration calls up to the depth, per criterion over its full call alphabet and across criteria over one or two calls of each; after every call "
              "every message of a grid around the configured values is put to the real Filter and to an independent predicate, twice and in two orders. outcome = settings reached.";
    ck.assumptions = {"message times are whole milliseconds, as receivers send them", "a decimation period of zero is only required not to crash"};
    GetBaseLoggerManager()->RegisterLogger("explorer");
    spdlog::set_level(spdlog::level::off);
    const bool T = ck.thorough();
    {
        Dim d;
        d.times = {{0, 604799999.0}, {0, 604799998.0}, {0, 5000.0}, {1, 0.0}, {1, 1000.0}, {1, 1001.0}, {1, 4999.0}, {1, 5000.0}, {1, 5001.0}, {1, 604799999.0}, {2, 0.0}, {2, 1.0}, {2, 2.0}, {2, 3.0}, {2, 4.0}, {2, 5000.0}, {3, 0.0}, {3, 2.0}};
        d.fmts = {HF::BINARY, HF::NMEA};
        group(ck, "time", timeOps(), grid(d), T ? 6 : 5);
    }
    {
        Dim d;
        d.times = {{1, 0.0}, {1, 1.0}, {1, 2.0}, {1, 499.0}, {1, 500.0}, {1, 501.0}, {1, 1000.0}, {1, 1001.0}, {1, 2000.0}, {1, 2002.0}, {1, 604799999.0}};
        group(ck, "decimation", decOps(), grid(d), T ? 6 : 5);
    }
    {
        Dim d;
        d.ts = {TIME_STATUS::FINE, TIME_STATUS::COARSE, TIME_STATUS::UNKNOWN, TIME_STATUS::EXACT};
        d.fmts = {HF::BINARY, HF::NMEA, HF::UNKNOWN};
        group(ck, "status", statusOps(), grid(d), T ? 7 : 5);
    }
    {
        Dim d;
        d.ids = {42, 43, 44, 0};
        d.sib = {0, 1};
        d.fmts = {HF::BINARY, HF::ASCII, HF::NMEA, HF::JSON};
        group(ck, "id", idOps(), grid(d), T ? 6 : 4);
        d.ids = {42};
        d.names = {"BESTPOS", "BESTPOSA", "BESTPO", "RANGECMP_OF_A_VERY_LONG_NAME", ""};
        group(ck, "name", nameOps(), grid(d), T ? 6 : 4);
    }
    {
        Dim d;
        d.times = {{1, 5000}, {1, 4999}, {2, 500}};
        d.ts = {TIME_STATUS::FINE, TIME_STATUS::COARSE};
        d.ids = {42, 44};
        d.names = {"BESTPOS", "OTHER"};
        d.fmts = {HF::BINARY, HF::NMEA, HF::UNKNOWN};
        d.resp = {false, true};
        vector<Op> v;
        add(v, timeOps(), {"SetIncludeLower", "SetIncludeUpper", "InvertTimeFilter(1)", "ClearLower", "ClearTimeBounds"});
        add(v, decOps(), {"SetIncludeDecimationMs(500", "InvertDecimationFilter(1)", "ClearDecimation"});
        add(v, statusOps(), {"IncludeTimeStatus(", "RemoveTimeStatus(", "InvertTimeStatusFilter(1)", "ClearTimeStatuses"});
        add(v, idOps(), {"IncludeMessageId(42, ALL, 0", "RemoveMessageId(42, ALL, 0", "InvertMessageIdFilter(1)", "ClearMessageIds"});
        add(v, nameOps(), {"IncludeMessageName(BESTPOS, ALL, 0", "RemoveMessageName(BESTPOS, ALL, 0", "InvertMessageNameFilter(1)", "ClearMessageNames"});
        for (auto& o : flagOps()) { v.push_back(o); }
        group(ck, "mixed", v, grid(d), T ? 5 : 4);
    }
    // every whole-millisecond bound is taken exactly
    {
        const uint32_t step = T ? 1 : 60;
        const uint32_t parts = 64, per = 604800000 / parts;
        for (uint32_t p = 0; p < parts; p++)
        {
            ck.unit(fmtf("bounds/%02u", p), [=] {
                Filter lo, up, de;
                MetaDataStruct m;
                m.eFormat = HF::BINARY;
                m.usWeek = 7;
                uint64_t n = 0;
                // the quick tier moves the offset of its stride with the part, and covers the first seconds of each part completely
                for (uint32_t k = p * per; k < (p + 1) * per; k += (k - p * per < 200000 ? 1 : step))
                {
                    const double s = k / 1000.0;
                    lo.SetIncludeLowerTimeBound(7, s);
                    up.SetIncludeUpperTimeBound(7, s);
                    m.dMilliseconds = k;
                    bool a = lo.DoFiltering(m), b = up.DoFiltering(m);
                    m.dMilliseconds = double(k) + 1;
                    bool c = up.DoFiltering(m);
                    bool d = false;
                    if (k) { m.dMilliseconds = double(k) - 1; d = lo.DoFiltering(m); }
                    if (!a || !b || c || d) { fail("bound", fmtf("time bound %.3f s is not taken as %u ms (at: %d %d, after upper: %d, before lower: %d)", s, k, a, b, c, d)); }
                    if (k)
                    {
                        de.SetIncludeDecimation(s);
                        m.dMilliseconds = k;
                        a = de.DoFiltering(m);
                        m.dMilliseconds = double(k) - 1;
                        b = k > 1 && de.DoFiltering(m);
                        if (!a || b) { fail("period", fmtf("decimation period %.3f s is not taken as %u ms", s, k)); }
                    }
                    n++;
                }
                addEvals(6 * n);
                addStates(n);
                distinct(p);
            });
        }
    }
    return runCheck(ck, argc, argv);
}
