// P03: message statistics count exactly what was decoded.
#include <sstream>

#include "edie.hpp"

#include "novatel_edie/decoders/common/message_counts_tracker.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"

using namespace mc;
using namespace ed;
using namespace novatel::edie::oem;
using HF = HEADER_FORMAT;
using std::string;
using std::vector;

using Id = std::tuple<int, int, int>; // message number, format, sibling
using Model = std::map<Id, uint64_t>;

static string show(const Model& m)
{
    string s = "{";
    for (auto& [k, n] : m) { s += fmtf(" (id %d, format %d, sibling %d)=%llu", std::get<0>(k), std::get<1>(k), std::get<2>(k), (unsigned long long)n); }
    return s + " }";
}
template <typename Map> static Model toModel(const Map& c)
{
    Model m;
    for (auto& [k, n] : c) { m[{static_cast<int>(std::get<0>(k)), static_cast<int>(std::get<1>(k)), static_cast<int>(std::get<2>(k))}] = n; }
    return m;
}
template <typename Map> static void judge(const Map& c, const Model& want, const string& who, const string& after)
{
    const Model got = toModel(c);
    MC_REQUIRE(got == want && c.size() == want.size(), "counts", fmtf("%s after %s: counts are %s, expected %s", who.c_str(), after.c_str(), show(got).c_str(), show(want).c_str()));
    for (auto& [k, n] : c) { MC_REQUIRE(c.count(k) == 1 && c.at(k) == n, "lookup", who + ": a listed identity is not found by its key"); }
    addEvals(1);
}
static uint64_t hashOf(const Model& m)
{
    uint64_t h = 1;
    for (auto& [k, n] : m) { h = mix(mix(mix(mix(h, std::get<0>(k)), std::get<1>(k)), std::get<2>(k)), n); }
    return h;
}

// ---------------------------------------------------------------- the tracker alone
struct Collide
{
    size_t operator()(int k) const { return static_cast<size_t>(k & 1); }
};
template <typename H> static void trackerUnit(int depth)
{
    MessageCountsTracker<int, H> t, other;
    other.Increment(3);
    const auto& kept = t.GetCounts(); // stays valid for the life of the tracker
    std::map<int, uint64_t> want;
    for (int d = 0; d < depth; d++)
    {
        const int op = choose(7);
        if (op < 5) { t.Increment(op == 4 ? -1 : op); want[op == 4 ? -1 : op]++; if (tracing()) { note(fmtf("Increment(%d)", op)); } }
        else if (op == 5) { t.Reset(); want.clear(); if (tracing()) { note("Reset()"); } }
        else
        {
            if (tracing()) { note("copy taken and changed"); }
            auto copy = t; // a copy is independent
            copy.Increment(77);
            copy.Reset();
        }
        if (!fresh()) { continue; }
        addTransitions(1);
        const auto& c = t.GetCounts();
        MC_REQUIRE(&c == &kept, "reference", "the reference to the counts changed");
        std::map<int, uint64_t> got(c.begin(), c.end());
        MC_REQUIRE(got == want && c.size() == want.size(), "tracker", fmtf("the tracker holds %zu identities, expected %zu, or a wrong count", c.size(), want.size()));
        MC_REQUIRE(other.GetCounts().size() == 1 && other.GetCounts().at(3) == 1, "tracker-shared", "another tracker changed");
        uint64_t h = 0;
        for (auto& [k, n] : want) { h = mix(mix(h, static_cast<uint64_t>(k)), n); }
        distinct(h);
    }
}

// ---------------------------------------------------------------- headers
static const vector<M>& defs()
{
    static const vector<M> v = {{42, "BESTPOS", {}}, {43, "RANGE", {{"a", "SIMPLE", "UINT", 4, "%u"}}}, {65535, "LAST", {}}, {1, "LOG", {}}, {298, "COLLIDE", {}}};
    return v;
}
static MessageDatabase::Ptr db()
{
    static MessageDatabase::Ptr p = makeDb(defs());
    return p;
}
struct Ev
{
    string text;
    string bytes; // header (and body)
    bool counted;
    Id id;
};
static string binHdr(uint16_t id, uint8_t type)
{
    bld::Hdr h;
    h.id = id;
    h.type = type;
    return bld::binary(h, string("\0\0\0\0", 4));
}
static string json(int id, const string& name) { return "{\"header\": " + jsonHeader(static_cast<uint32_t>(id), name) + ",\"body\": {}}"; }
static const vector<Ev>& events()
{
    static vector<Ev> v;
    if (!v.empty()) { return v; }
    auto add = [&](const string& t, const string& b, bool c = false, Id id = {}) { v.push_back({t, b, c, id}); };
    add("binary 42", binHdr(42, 0), true, {42, int(HF::BINARY), 0});
    add("binary 42 sibling 1", binHdr(42, 1), true, {42, int(HF::BINARY), 1});
    add("binary 42 response format bits", binHdr(42, 0xE0), true, {42, int(HF::BINARY), 0});
    add("binary 298 (42+256)", binHdr(298, 0), true, {298, int(HF::BINARY), 0});
    add("binary 999 (unknown)", binHdr(999, 31), true, {999, int(HF::BINARY), 31});
    add("binary 0", binHdr(0, 0));
    add("short binary 42", bld::shortBinary(42, string("\0\0\0\0", 4)), true, {42, int(HF::SHORT_BINARY), 0});
    add("short binary 65535", bld::shortBinary(65535, string("\0\0\0\0", 4)), true, {65535, int(HF::SHORT_BINARY), 0});
    add("short binary 0", bld::shortBinary(0, string("\0\0\0\0", 4)));
    add("ascii BESTPOSA", "#" + asciiHeader("BESTPOSA") + "1*00000000\r\n", true, {42, int(HF::ASCII), 0});
    add("ascii BESTPOSA_1", "#" + asciiHeader("BESTPOSA_1") + "1*00000000\r\n", true, {42, int(HF::ASCII), 1});
    add("ascii BESTPOSR", "#" + asciiHeader("BESTPOSR") + "OK*00000000\r\n", true, {42, int(HF::ASCII), 0});
    add("ascii unknown name", "#" + asciiHeader("NOSUCHA") + "1*00000000\r\n");
    add("ascii cut header", "#BESTPOSA,COM1,0;1*00000000\r\n");
    add("ascii bad sequence", "#" + asciiHeader("BESTPOSA", "COM1", 70000) + "1*00000000\r\n");
    add("short ascii RANGEA", "%" + shortAsciiHeader("RANGEA") + "1*00000000\r\n", true, {43, int(HF::SHORT_ASCII), 0});
    add("short ascii bad week", "%" + shortAsciiHeader("RANGEA", 70000) + "1*00000000\r\n");
    add("abbreviated BESTPOS", abbHeader("BESTPOS") + "<     1\r\n", true, {42, int(HF::ABB_ASCII), 0});
    add("abbreviated BESTPOS_1", abbHeader("BESTPOS_1") + "<     1\r\n", true, {42, int(HF::ABB_ASCII), 1});
    add("short abbreviated BESTPOS", shortAbbHeader("BESTPOS") + "<     1\r\n", true, {42, int(HF::SHORT_ABB_ASCII), 0});
    add("abbreviated cut", "<BESTPOS COM1 0 40.0\r\n");
    add("abbreviated response", "<OK\r\n");
    add("abbreviated error response", "<ERROR:Invalid Message ID\r\n");
    add("json 42", json(42, "BESTPOS"), true, {42, int(HF::JSON), 0});
    add("json 0", json(0, "NONE"));
    add("nmea", bld::nmea("GPGGA,1"));
    add("garbage", string(32, '?'));
    return v;
}
static STATUS decode(const HeaderDecoder& d, const string& s, IntermediateHeader& h, MetaDataStruct& m)
{
    string padded = s + string(64, '\0'); // the header decoder reads a whole binary header before it knows the format
    return d.Decode(reinterpret_cast<const unsigned char*>(padded.data()), h, m);
}
static void decoderUnit(int depth, int first, bool reuse)
{
    HeaderDecoder a(db());
    HeaderDecoder b(db());
    Model ma, mb;
    IntermediateHeader keptH;
    MetaDataStruct keptM;
    const auto& ref = a.GetMessageCounts();
    const int nEv = static_cast<int>(events().size());
    for (int d = 0; d < depth; d++)
    {
        const int op = d == 0 && first >= 0 ? first : choose(nEv + 3);
        string what;
        if (op < nEv)
        {
            const Ev& e = events()[static_cast<size_t>(op)];
            IntermediateHeader h;
            MetaDataStruct m;
            const STATUS st = decode(a, e.bytes, reuse ? keptH : h, reuse ? keptM : m);
            what = fmtf("decoding %s (%s)", e.text.c_str(), string(StatusToString(st)).c_str());
            MC_REQUIRE(!e.counted || st == STATUS::SUCCESS, "status", what);
            if (st == STATUS::SUCCESS && e.counted) { ma[e.id]++; }
        }
        else if (op == nEv) { a.ResetMessageCounts(); ma.clear(); what = "reset"; }
        else if (op == nEv + 1)
        {
            IntermediateHeader h;
            MetaDataStruct m;
            (void)decode(b, events()[0].bytes, h, m);
            mb[events()[0].id]++;
            what = "decoding with another decoder";
        }
        else { a.LoadJsonDb(db()); what = "reloading the database"; }
        if (tracing()) { note(what); }
        if (!fresh()) { continue; }
        addTransitions(1);
        distinct(hashOf(ma));
        MC_REQUIRE(&a.GetMessageCounts() == &ref, "reference", "the reference to the counts changed");
        judge(a.GetMessageCounts(), ma, "decoder", what);
        judge(a.GetMessageCounts(), ma, "decoder (second look)", what);
        judge(b.GetMessageCounts(), mb, "other decoder", what);
    }
}
// every identity on its own: none aliases another
static void allIds(vector<int> siblings, uint32_t lo, uint32_t hi)
{
    HeaderDecoder d(db());
    uint64_t n = 0;
    IntermediateHeader h;
    MetaDataStruct m;
    string pb = binHdr(0, 0) + string(64, '\0'), ps = bld::shortBinary(0, string(4, '\0')) + string(64, '\0');
    for (int rep = 0; rep < 2; rep++)
    {
        for (uint32_t id = lo; id < hi; id++)
        {
            pb[4] = static_cast<char>(id); pb[5] = static_cast<char>(id >> 8);
            ps[4] = pb[4]; ps[5] = pb[5];
            for (int s : siblings)
            {
                pb[6] = static_cast<char>(s);
                MC_REQUIRE(d.Decode(reinterpret_cast<const unsigned char*>(pb.data()), h, m) == STATUS::SUCCESS, "status", "binary");
                n++;
            }
            MC_REQUIRE(d.Decode(reinterpret_cast<const unsigned char*>(ps.data()), h, m) == STATUS::SUCCESS, "status", "short binary");
            n++;
        }
    }
    const auto& c = d.GetMessageCounts();
    const size_t ids = hi - lo - (lo == 0 ? 1 : 0);
    MC_REQUIRE(c.size() == ids * (siblings.size() + 1), "alias", fmtf("%zu identities are listed, expected %zu", c.size(), ids * (siblings.size() + 1)));
    for (auto& [k, v] : c)
    {
        MC_REQUIRE(v == 2, "alias", fmtf("identity (%u, %d, %u) counted %llu times, expected 2", std::get<0>(k), int(std::get<1>(k)), std::get<2>(k), (unsigned long long)v));
        MC_REQUIRE(std::get<0>(k) >= lo && std::get<0>(k) < hi && std::get<0>(k) != 0, "alias", "an identity that was never decoded is listed");
    }
    addEvals(n);
    distinct(mix(lo, siblings[0]));
}

// ---------------------------------------------------------------- parsers
static const vector<Ev>& frames()
{
    static vector<Ev> v;
    if (!v.empty()) { return v; }
    auto add = [&](const string& t, const string& b, bool c = false, Id id = {}) { v.push_back({t, b, c, id}); };
    add("binary RANGE", binHdr(43, 0), true, {43, int(HF::BINARY), 0});
    add("binary RANGE sibling 2", binHdr(43, 2), true, {43, int(HF::BINARY), 2});
    add("binary unknown 999", binHdr(999, 0), true, {999, int(HF::BINARY), 0});
    add("short binary RANGE", bld::shortBinary(43, string("\0\0\0\0", 4)), true, {43, int(HF::SHORT_BINARY), 0});
    add("ascii RANGEA", bld::ascii(asciiHeader("RANGEA") + "7"), true, {43, int(HF::ASCII), 0});
    add("ascii RANGEA bad body", bld::ascii(asciiHeader("RANGEA") + "zz"), true, {43, int(HF::ASCII), 0});
    add("ascii unknown name", bld::ascii(asciiHeader("NOSUCHA") + "7"));
    add("ascii bad header", bld::ascii("RANGEA,COM1,0;7"));
    add("nmea", bld::nmea("GPGGA,1"));
    add("noise", "zzzz");
    add("corrupt binary", [] { string s = binHdr(43, 0); s[30] ^= 1; return s; }());
    return v;
}
template <typename P> static void drain(P& p)
{
    MessageDataStruct md;
    MetaDataStruct meta;
    for (int i = 0; i < 64; i++)
    {
        const STATUS st = p.Read(md, meta);
        if (st == STATUS::BUFFER_EMPTY || st == STATUS::STREAM_EMPTY) { return; }
    }
    fail("drain", "reading does not come to an end");
}
static void parserUnit(int depth, int first)
{
    static std::unique_ptr<Parser> pa, pb;
    if (!pa) { pa = std::make_unique<Parser>(db()); pb = std::make_unique<Parser>(db()); }
    for (auto* p : {pa.get(), pb.get()})
    {
        p->Flush(nullptr, 1 << 20);
        p->ResetMessageCounts();
        p->SetFilter(nullptr);
        p->SetReturnUnknownBytes(true);
    }
    static const auto filter = [] { auto f = std::make_shared<Filter>(); f->IncludeMessageId(1); return f; }();
    Model ma, mb;
    const int nEv = static_cast<int>(frames().size());
    for (int d = 0; d < depth; d++)
    {
        const int op = d == 0 && first >= 0 ? first : choose(nEv + 5);
        string what;
        if (op < nEv)
        {
            const Ev& e = frames()[static_cast<size_t>(op)];
            what = "reading " + e.text;
            MC_REQUIRE(pa->Write(reinterpret_cast<const unsigned char*>(e.bytes.data()), e.bytes.size()) == e.bytes.size(), "write", "refused");
            drain(*pa);
            pa->Flush(nullptr, 1 << 20); // what is left is no message
            if (e.counted) { ma[e.id]++; }
        }
        else if (op == nEv) { pa->ResetMessageCounts(); ma.clear(); what = "reset"; }
        else if (op == nEv + 1)
        {
            const string& s = frames()[0].bytes;
            pb->Write(reinterpret_cast<const unsigned char*>(s.data()), s.size());
            drain(*pb);
            mb[frames()[0].id]++;
            what = "reading with another parser";
        }
        else if (op == nEv + 2) { pa->SetFilter(filter); what = "setting a filter that rejects everything"; } // counted before filtering
        else if (op == nEv + 3) { pa->SetReturnUnknownBytes(false); what = "no unknown bytes"; }
        else { pa->Flush(nullptr, 1 << 20); what = "flush"; }
        if (tracing()) { note(what); }
        if (!fresh()) { continue; }
        addTransitions(1);
        distinct(mix(hashOf(ma), 7));
        judge(pa->GetMessageCounts(), ma, "parser", what);
        judge(pb->GetMessageCounts(), mb, "other parser", what);
    }
}
static void fileUnit(int depth)
{
    static std::unique_ptr<FileParser> f, g;
    if (!f) { f = std::make_unique<FileParser>(db()); g = std::make_unique<FileParser>(db()); }
    auto stream = [](const string& s) { return std::make_shared<std::istringstream>(s); };
    (void)g->SetStream(stream(frames()[0].bytes));
    const int sa = choose(static_cast<int>(frames().size())), sb = choose(static_cast<int>(frames().size()));
    const string text = frames()[sa].bytes + frames()[sb].bytes;
    // what the stream holds when read from the beginning
    static const string other = frames()[3].bytes + frames()[3].bytes;
    bool onOther = false;
    auto total = [&](bool o) {
        Model m;
        if (o) { m[frames()[3].id] = 2; }
        else
        {
            for (int i : {sa, sb}) { if (frames()[i].counted) { m[frames()[i].id]++; } }
        }
        return m;
    };
    MC_REQUIRE(f->SetStream(stream(text)), "stream", "refused");
    Model want;
    MessageDataStruct md;
    MetaDataStruct meta;
    if (tracing()) { note("stream: " + frames()[sa].text + ", " + frames()[sb].text); }
    if (fresh()) { judge(f->GetMessageCounts(), want, "file parser", "SetStream"); }
    for (int d = 0; d < depth; d++)
    {
        string what;
        switch (choose(7))
        {
        case 0: drain(*f); want = total(onOther); what = "reading to the end"; break; // a second pass over a drained stream adds nothing
        case 1: f->Reset(); want.clear(); what = "Reset"; break;
        case 2: f->ResetMessageCounts(); drain(*f); drain(*f); f->ResetMessageCounts(); want.clear(); what = "ResetMessageCounts at the end"; goto check2;
        case 3: MC_REQUIRE(f->SetStream(stream(other)), "stream", "refused"); onOther = true; want.clear(); what = "SetStream(other)"; break;
        case 4: MC_REQUIRE(!f->SetStream(nullptr), "stream", "null accepted"); what = "SetStream(nullptr)"; break;
        case 5: drain(*g); what = "reading another file parser"; break;
        default: MC_REQUIRE(f->SetStream(stream(text)), "stream", "refused"); onOther = false; want.clear(); what = "SetStream(again)"; break;
        }
        if (tracing()) { note(what); }
        if (fresh()) { addTransitions(1); distinct(mix(hashOf(want), 9)); judge(f->GetMessageCounts(), want, "file parser", what); }
        continue;
    check2:
        if (tracing()) { note(what); }
        judge(f->GetMessageCounts(), want, "file parser", what);
        return; // the position in the stream is past the end now
    }
    MC_REQUIRE(g->GetMessageCounts().size() <= 1, "shared", "another file parser's counts changed");
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P03";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    ck.rule = "all sequences up to the depth of increments and resets on the real tracker (ordinary and colliding hash), of decodes of headers in all formats (valid, invalid, unknown, "
              "zero id, responses), resets and other decoders on the real header decoder with fresh and with re-used output structures, and of reads, resets, flushes, filters and other "
              "instances on the real parser and file parser; after every step the whole statistics map is compared with a counting model. In addition every message number with every "
              "listed source is decoded and counted. outcome = statistics contents reached.";
    ck.assumptions = {"headers are handed over with at least a binary header's worth of readable bytes behind them"};
    quietLogs();
    const bool T = ck.thorough();
    db();
    ck.unit("tracker/plain", [T] { trackerUnit<std::hash<int>>(T ? 8 : 6); });
    ck.unit("tracker/colliding", [T] { trackerUnit<Collide>(T ? 8 : 6); });
    for (int reuse = 0; reuse < 2; reuse++)
    {
        for (int i = 0; i < static_cast<int>(events().size()) + 3; i++) { ck.unit(fmtf("decoder/%s/%02d", reuse ? "reused" : "fresh", i), [=] { decoderUnit(T ? 5 : 4, i, reuse != 0); }); }
    }
    if (T)
    {
        for (int s = 0; s < 32; s += 8) { ck.unit(fmtf("ids/%02d", s), [s] { allIds({s, s + 1, s + 2, s + 3, s + 4, s + 5, s + 6, s + 7}, 0, 65536); }); }
    }
    else { ck.unit("ids/few-sources", [] { allIds({0, 1, 31}, 0, 65536); }); }
    {
        vector<int> all;
        for (int s = 0; s < 32; s++) { all.push_back(s); }
        for (uint32_t base : {0u, 0x1F00u, 0xFF00u}) { ck.unit(fmtf("ids/all-sources-%04x", base), [=] { allIds(all, base, std::min(base + 512, 65536u)); }); }
    }
    for (int i = 0; i < static_cast<int>(frames().size()) + 5; i++) { ck.unit(fmtf("parser/%02d", i), [=] { parserUnit(T ? 5 : 4, i); }); }
    ck.unit("file-parser", [T] { fileUnit(T ? 6 : 4); });
    return runCheck(ck, argc, argv);
}
