// P15: parsers deliver every message once, filtered and converted, as the separate components would.
#include <sstream>

#include "corpus.hpp"
#include "ranges.hpp"

#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/filter.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"

using namespace mc;
using namespace co;
using bld::le;

static bool TH = false;
static const ENCODE_FORMAT EFS[] = {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::JSON, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::FLATTENED_BINARY, ENCODE_FORMAT::UNSPECIFIED};
static const char* const EFNAME[] = {"ASCII", "binary", "JSON", "abbreviated ASCII", "flattened binary", "unspecified"};

// ---------------------------------------------------------------- messages
struct Seg
{
    string name, bytes;
    int schema = -1, fmt = 0; // of those whose conversion is rendered independently
    Body body;
};
struct World
{
    Codec c{{{{"u8", "SIMPLE", "UCHAR", 1, "%UB"}, {"u32", "SIMPLE", "ULONG", 4, "%lu"}}, {{"s", "STRING", "CHAR", 1, "%s", "", 32}}}};
    MessageDatabase::Ptr db, other;
    vector<Seg> segs;
    vector<Filter::Ptr> filters;
    vector<string> filterName;
    World()
    {
        const F rows = {"obs", "FIELD_ARRAY", "UNKNOWN", 44, "", "", 325, -1, "",
                        {{"prn", "SIMPLE", "USHORT", 2, "%hu"}, {"slot", "SIMPLE", "USHORT", 2, "%hu"}, {"psr", "SIMPLE", "DOUBLE", 8, "%.3lf"}, {"psd", "SIMPLE", "FLOAT", 4, "%.3f"}, {"adr", "SIMPLE", "DOUBLE", 8, "%.6lf"},
                         {"add", "SIMPLE", "FLOAT", 4, "%.3f"}, {"dop", "SIMPLE", "FLOAT", 4, "%.3f"}, {"cn0", "SIMPLE", "FLOAT", 4, "%.1f"}, {"lock", "SIMPLE", "FLOAT", 4, "%.3f"}, {"tstat", "SIMPLE", "ULONG", 4, "%lx"}}};
        const F raw = {"raw", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%R", "", 4096};
        vector<M> ms;
        for (auto& s : c.schemas) { ms.push_back({s.id, s.name, s.f}); }
        ms.push_back({42, "BESTPOS", {{"a", "SIMPLE", "ULONG", 4, "%lu"}}});
        ms.push_back({43, "RANGE", {rows}});
        ms.push_back({140, "RANGECMP", {{"data", "FIELD_ARRAY", "UNKNOWN", 24, "", "", 325, -1, "", {{"r", "FIXED_LENGTH_ARRAY", "UCHAR", 1, "%Z", "", 24}}}}});
        ms.push_back({128, "RXCONFIG", {raw}});
        ms.push_back({2474, "RXCONFIGUSER", {raw}});
        db = makeDb(ms);
        ms[0] = {1000, "RENAMED", {{"w", "SIMPLE", "USHORT", 2, "%hu"}}};
        ms.push_back({999, "KNOWN", {{"w", "SIMPLE", "UCHAR", 1, "%UB"}}});
        other = makeDb(ms);
        segments();
        auto filter = [&](const char* n, auto set) { filterName.push_back(n); filters.push_back(std::make_shared<Filter>()); set(*filters.back()); };
        filterName.push_back("none");
        filters.push_back(nullptr);
        filter("only 1000", [](Filter& f) { f.IncludeMessageId(1000); });
        filter("not 1000", [](Filter& f) { f.IncludeMessageId(1000); f.InvertMessageIdFilter(true); });
        filter("no responses", [](Filter& f) { f.IncludeResponses(false); });
        filter("only RANGE", [](Filter& f) { f.IncludeMessageName("RANGE"); f.IncludeMessageName("LOG1001"); });
        filter("not RANGECMP", [](Filter& f) { f.IncludeMessageName("RANGECMP"); f.InvertMessageNameFilter(true); });
        filter("time", [](Filter& f) { f.SetIncludeLowerTimeBound(2000, 200.0); });
    }
    static string head(uint32_t id, size_t len, uint32_t ms = 123456, int type = 0)
    {
        return "\xAA\x44\x12\x1C" + le(id, 2) + le(static_cast<uint64_t>(type), 1) + le(32, 1) + le(len, 2) + le(0, 2) + le(80, 1) + le(180, 1) + le(2000, 2) + le(ms, 4) + le(0x02000000, 4) + le(0x1234, 2) + le(12816, 2);
    }
    static string bin(uint32_t id, const string& body, uint32_t ms = 123456, int type = 0) { return bld::withCrc(head(id, body.size(), ms, type) + body); }
    // a RANGECMP record: channel tracking status, doppler / pseudorange, accumulated range, ...
    static string cmp(int prn, uint32_t lock)
    {
        return le(0x08109C04, 4) + le(0x0123456, 4) + le(0x456789AB, 4) + le(0x0000ABCD, 4) + le(static_cast<uint64_t>(0x12 | prn << 8), 2) + le(lock | 20u << 21, 4) + le(0, 2);
    }
    void segments()
    {
        const Schema &a = c.schemas[0], &b = c.schemas[1];
        const Body ba{N1(7), N1(70000)}, bb{{{}, "some text", {}}};
        auto known = [&](const char* n, int s, int f, const Body& v) {
            const Schema& x = c.schemas[static_cast<size_t>(s)];
            segs.push_back({n, c.message(x, f, c.body(x, f, v)), s, f, v});
        };
        auto add = [&](const char* n, const string& s) { segs.push_back({n, s, -1, 0, {}}); };
        known("binary", 0, BIN, ba);
        known("ASCII", 1, ASC, bb);
        known("abbreviated", 0, ABB, ba);
        known("short binary", 1, SBIN, bb);
        known("short ASCII", 0, SASC, {N1(255), N1(4294967295u)});
        known("short abbreviated", 0, SABB, {N1(0), N1(1)});
        add("unknown id", bin(999, "\x05"));
        add("unknown name", bld::ascii(asciiHeader("NOSUCHA") + "1"));
        add("short body", bin(1000, "\x05"));
        add("bad field", bld::ascii(asciiHeader("LOG1000A") + "1,x"));
        add("junk", "junk");
        add("NMEA", bld::nmea("GPALM,1,1"));
        add("OK", "\r\n<OK\r\n");
        add("ERROR", "\r\n<ERROR:Invalid Message. Field = 1\r\n");
        add("ASCII response", bld::ascii(asciiHeader("LOG1000R") + "OK"));
        add("binary response", bin(1000, le(1, 4) + "OK", 123456, 0x80));
        add("range", bin(140, le(1, 4) + cmp(12, 1000)));
        add("range again", bin(140, le(2, 4) + cmp(12, 1) + cmp(13, 5000), 124456));
        add("range of the second antenna", bin(140, le(1, 4) + cmp(12, 1000), 123456, 1));
        add("range response", bin(140, le(1, 4) + "OK", 123456, 0x80));
        add("bad range", bin(2050, "\x01\x02"));
        add("later", bin(1000, "\x09" + le(9, 4), 250000));
        const string e = head(1000, 5) + "\x07" + le(70000, 4), p = e + le(bld::crc32(e) ^ 0xFFFFFFFF, 4);
        add("binary configuration", bin(128, p));
        const string eh = asciiHeader("LOG1001A") + "\"text\"", ap = asciiHeader("RXCONFIGUSERA") + "#" + eh + "*" + fmtf("%08x", bld::crc32(eh) ^ 0xFFFFFFFFu);
        add("ASCII configuration", bld::ascii(ap));
        add("unknown command", bin(128, [&] { const string u = head(999, 1) + "\x07"; return u + le(bld::crc32(u) ^ 0xFFFFFFFF, 4); }()));
        string bad = bin(1000, "\x07" + le(70000, 4));
        bad[30] = static_cast<char>(bad[30] ^ 1);
        add("bad checksum", bad);
        add("cut header", "<LOG1000 COM1 0 40.0\r\n<     7 8\r\n");
        add("half", string(segs[0].bytes).substr(0, 20));
        (void)a;
        (void)b;
    }
};
static World& W()
{
    static World w;
    return w;
}

// ---------------------------------------------------------------- results
struct Opt
{
    size_t ef = 0;
    bool unknown = true, ignore = true, decompress = true;
    size_t filter = 0;
    string show() const { return fmtf("to %s, unknown bytes %s, abbreviated responses %s, ranges %s, filter %s", EFNAME[ef], unknown ? "on" : "off", ignore ? "ignored" : "kept", decompress ? "decompressed" : "kept", W().filterName[filter].c_str()); }
};
struct Out
{
    STATUS st = STATUS::FAILURE;
    string bytes, meta;
    string show() const { return fmtf("[%d %s %s]", static_cast<int>(st), meta.c_str(), printable(bytes).c_str()); }
};
static string metaText(const MetaDataStruct& m)
{
    return fmtf("id %u %s format %d length %u header %u response %d source %d week %u ms %.0f", m.usMessageId, m.messageName.c_str(), static_cast<int>(m.eFormat), m.uiLength, m.uiHeaderLength, m.bResponse, static_cast<int>(m.ucSiblingId), m.usWeek, m.dMilliseconds);
}
// what can be told from a result: the message, its parts, its metadata
static Out result(STATUS st, const MessageDataStruct& d, const MetaDataStruct& m, bool parts)
{
    Out o;
    o.st = st;
    if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN && st != STATUS::NO_DEFINITION) { return o; }
    o.bytes.assign(reinterpret_cast<const char*>(d.pucMessage), d.uiMessageLength);
    if (st == STATUS::UNKNOWN) { return o; }
    o.meta = metaText(m);
    if (parts && st == STATUS::SUCCESS)
    {
        o.meta += fmtf(" parts %td+%u %td+%u", d.pucMessageHeader - d.pucMessage, d.uiMessageHeaderLength, d.pucMessageBody - d.pucMessage, d.uiMessageBodyLength);
    }
    return o;
}

// ---------------------------------------------------------------- the components, put together as documented
struct Pipe
{
    static constexpr uint32_t CAP = MESSAGE_SIZE_MAX;
    MessageDatabase::Ptr db;
    Framer framer;
    std::unique_ptr<HeaderDecoder> header;
    std::unique_ptr<MessageDecoder> body;
    std::unique_ptr<Encoder> encoder;
    std::unique_ptr<RangeDecompressor> range;
    std::unique_ptr<RxConfigHandler> config;
    Opt o;
    vector<unsigned char> frame = vector<unsigned char>(CAP), out = vector<unsigned char>(CAP);
    explicit Pipe(const MessageDatabase::Ptr& d = W().db) { load(d); }
    void load(const MessageDatabase::Ptr& d)
    {
        db = d;
        header.reset(new HeaderDecoder(d));
        body.reset(new MessageDecoder(d));
        encoder.reset(new Encoder(d));
        range.reset(new RangeDecompressor(d));
        config.reset(new RxConfigHandler(d));
    }
    static bool compressed(const MetaDataStruct& m)
    {
        static const uint32_t ids[] = {140, 1273, 1734, 2050, 2537};
        return !m.bResponse && std::find(std::begin(ids), std::end(ids), m.usMessageId) != std::end(ids);
    }
    static bool configuration(uint32_t id) { return id == 128 || id == 2474; }
    Out intermediate(bool last, IntermediateHeader& ih, CompositeField& cf, MetaDataStruct& m)
    {
        MessageDataStruct d;
        d.pucMessage = frame.data();
        for (;;)
        {
            ih = IntermediateHeader();
            cf = CompositeField();
            m = MetaDataStruct();
            STATUS st = framer.GetFrame(frame.data(), CAP, m);
            if (last && st == STATUS::INCOMPLETE && (m.eFormat == HEADER_FORMAT::ABB_ASCII || m.eFormat == HEADER_FORMAT::SHORT_ABB_ASCII))
            {
                m.uiLength = framer.Flush(frame.data(), CAP);
                st = STATUS::SUCCESS;
            }
            d.uiMessageLength = m.uiLength;
            if (st == STATUS::INCOMPLETE || st == STATUS::BUFFER_EMPTY) { return result(STATUS::BUFFER_EMPTY, d, m, false); }
            MC_REQUIRE(st == STATUS::UNKNOWN || st == STATUS::SUCCESS, "framer-status", fmtf("the framer returns %d", static_cast<int>(st)));
            const auto unknown = [&] { return result(STATUS::UNKNOWN, d, m, false); };
            if (st == STATUS::UNKNOWN)
            {
                if (o.unknown) { return unknown(); }
                continue;
            }
            if (o.ignore && m.bResponse && m.eFormat == HEADER_FORMAT::ABB_ASCII) { continue; }
            if (header->Decode(frame.data(), ih, m) != STATUS::SUCCESS)
            {
                if (o.unknown) { return unknown(); }
                continue;
            }
            const Filter::Ptr& f = W().filters[o.filter];
            if (f && !f->DoFiltering(m)) { continue; }
            if (o.decompress && compressed(m))
            {
                st = range->Decompress(frame.data(), CAP, m);
                if (st != STATUS::SUCCESS) { return result(st, d, m, false); }
                ih.usMessageId = 43;
                d.uiMessageLength = m.uiLength;
            }
            st = configuration(ih.usMessageId) ? config->Decode(frame.data() + m.uiHeaderLength, cf, m) : body->Decode(frame.data() + m.uiHeaderLength, cf, m);
            if (st == STATUS::SUCCESS || st == STATUS::NO_DEFINITION) { return result(st, d, m, false); }
            if (o.unknown) { return unknown(); }
        }
    }
    Out read(bool last)
    {
        for (;;)
        {
            IntermediateHeader ih;
            CompositeField cf;
            MetaDataStruct m;
            const Out r = intermediate(last, ih, cf, m);
            if (r.st != STATUS::SUCCESS) { return r; }
            MessageDataStruct d;
            unsigned char* p = out.data();
            const STATUS st = configuration(ih.usMessageId) ? config->Encode(&p, CAP, ih, cf, d, EFS[o.ef]) : encoder->Encode(&p, CAP, ih, cf, d, m.eFormat, EFS[o.ef]);
            if (st == STATUS::SUCCESS) { return result(st, d, m, true); }
        }
    }
    string flush()
    {
        vector<unsigned char> b(CAP);
        range->Reset();
        const uint32_t n = framer.Flush(b.data(), CAP);
        return string(reinterpret_cast<char*>(b.data()), n);
    }
};
// a decoded message as bytes
static string render(Pipe& p, const IntermediateHeader& ih, const CompositeField& cf, const MetaDataStruct& m)
{
    vector<unsigned char> b(MESSAGE_SIZE_MAX);
    unsigned char* q = b.data();
    MessageDataStruct d;
    const STATUS st = Pipe::configuration(ih.usMessageId) ? p.config->Encode(&q, MESSAGE_SIZE_MAX, ih, cf, d, ENCODE_FORMAT::JSON) : p.encoder->Encode(&q, MESSAGE_SIZE_MAX, ih, cf, d, m.eFormat, ENCODE_FORMAT::JSON);
    if (st != STATUS::SUCCESS) { return fmtf("(status %d)", static_cast<int>(st)); }
    return string(reinterpret_cast<char*>(d.pucMessage), d.uiMessageLength);
}

// ---------------------------------------------------------------- lockstep
static void configure(Parser& p, const Opt& o)
{
    p.SetEncodeFormat(EFS[o.ef]);
    p.SetReturnUnknownBytes(o.unknown);
    p.SetIgnoreAbbreviatedAsciiResponses(o.ignore);
    p.SetDecompressRangeCmp(o.decompress);
    p.SetFilter(W().filters[o.filter]);
    MC_REQUIRE(p.GetEncodeFormat() == EFS[o.ef] && p.GetReturnUnknownBytes() == o.unknown && p.GetIgnoreAbbreviatedAsciiResponses() == o.ignore && p.GetDecompressRangeCmp() == o.decompress && p.GetFilter() == W().filters[o.filter], "settings",
               "the parser reports other settings");
}
struct Pair
{
    Parser p;
    Pipe ref;
    explicit Pair(const MessageDatabase::Ptr& d = W().db) : p(d), ref(d) {}
    string history;
    MessageDataStruct d; // used again and again, as callers do
    MetaDataStruct m;
    void start(const Opt& o)
    {
        p.Flush();
        p.ResetMessageCounts();
        configure(p, o);
        ref.flush();
        ref.header->ResetMessageCounts();
        ref.o = o;
        history = o.show() + ":";
        d = MessageDataStruct();
        m = MetaDataStruct();
    }
    void set(const Opt& o)
    {
        configure(p, o);
        ref.o = o;
        history += "\n  " + o.show();
    }
    void write(std::string_view s)
    {
        addTransitions(1);
        history += "\n  write " + printable(string(s));
        const size_t n = p.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size());
        const size_t w = ref.framer.Write(reinterpret_cast<const unsigned char*>(s.data()), static_cast<uint32_t>(s.size()));
        MC_REQUIRE(n == w && p.GetAvailableSpace() == ref.framer.GetAvailableSpace(), "write", history + fmtf(": %zu bytes taken instead of %zu", n, w));
    }
    void same(const Out& g, const Out& w)
    {
        MC_REQUIRE(g.st == w.st, "status", history + "\ngives " + g.show() + "\ninstead of " + w.show());
        MC_REQUIRE(g.bytes == w.bytes, "message", history + "\ngives " + g.show() + "\ninstead of " + w.show());
        MC_REQUIRE(g.meta == w.meta, "metadata", history + "\ngives " + g.show() + "\ninstead of " + w.show());
    }
    Out read(bool last = false)
    {
        addTransitions(1);
        history += last ? "\n  read the last" : "\n  read";
        Out g;
        try { const STATUS st = last ? p.Read(d, m, true) : p.Read(d, m); g = result(st, d, m, true); }
        catch (const std::exception& e) { fail("exception", history + " throws " + e.what()); }
        same(g, ref.read(last));
        return g;
    }
    Out readIntermediate(bool last = false)
    {
        addTransitions(1);
        history += last ? "\n  read the last intermediate" : "\n  read intermediate";
        IntermediateHeader ih, wh;
        CompositeField cf, wf;
        MetaDataStruct wm;
        Out g;
        try { const STATUS st = p.ReadIntermediate(d, ih, cf, m, last); g = result(st, d, m, false); }
        catch (const std::exception& e) { fail("exception", history + " throws " + e.what()); }
        same(g, ref.intermediate(last, wh, wf, wm));
        if (g.st == STATUS::SUCCESS)
        {
            MC_REQUIRE(d.pucMessageBody == d.pucMessage + m.uiHeaderLength && d.uiMessageBodyLength == m.uiLength - m.uiHeaderLength, "parts", history + "\nplaces the body elsewhere");
            const string a = render(ref, ih, cf, m), b = render(ref, wh, wf, wm);
            MC_REQUIRE(a == b, "intermediate", history + "\ngives " + a + "\ninstead of " + b);
        }
        return g;
    }
    void flush()
    {
        history += "\n  flush";
        vector<unsigned char> b(MESSAGE_SIZE_MAX);
        const uint32_t n = p.Flush(b.data(), MESSAGE_SIZE_MAX);
        const string g(reinterpret_cast<char*>(b.data()), n), w = ref.flush();
        MC_REQUIRE(g == w, "flush", history + "\ngives " + printable(g) + "\ninstead of " + printable(w));
    }
    void counts()
    {
        MC_REQUIRE(p.GetMessageCounts() == ref.header->GetMessageCounts(), "counts", history + "\ncounts messages differently");
    }
};
static Pair& pairOf()
{
    static Pair* p = nullptr;
    if (!p) { p = new Pair(); }
    return *p;
}
// what a reader sees, whichever way the unknown bytes are divided
struct Seq
{
    vector<string> items;
    string pending;
    void add(const Out& o)
    {
        if (o.st == STATUS::UNKNOWN) { pending += o.bytes; return; }
        close();
        items.push_back(o.show());
    }
    void close()
    {
        if (!pending.empty()) { items.push_back("unknown " + printable(pending)); }
        pending.clear();
    }
    string text()
    {
        close();
        string s;
        for (auto& i : items) { s += i + "\n"; }
        return s;
    }
};
static bool more(const Out& o) { return o.st != STATUS::BUFFER_EMPTY && o.st != STATUS::STREAM_EMPTY; }
// 0: Read, 1: ReadIntermediate, 2: in turn
static string drive(Pair& x, const Opt& o, const vector<std::string_view>& chunks, int how)
{
    x.start(o);
    Seq s;
    int turn = 0;
    auto one = [&](bool last) {
        const bool inter = how == 1 || (how == 2 && (turn++ & 1));
        const Out g = inter ? x.readIntermediate(last) : x.read(last);
        if (more(g)) { s.add(g); }
        return more(g);
    };
    for (auto& c : chunks)
    {
        x.write(c);
        while (one(false)) {}
    }
    while (one(true)) {}
    x.counts();
    x.flush();
    return s.text();
}
static string join(const vector<size_t>& v)
{
    string s;
    for (size_t i : v) { s += W().segs[i].bytes; }
    return s;
}
static void uniqueMsgs(const string& s) { addStates(1); distinct(hashStr(s)); }

// ---------------------------------------------------------------- explorers
// the components convert as an independent rendering says
static void oracle()
{
    World& w = W();
    Pair& x = pairOf();
    vector<size_t> known;
    for (size_t i = 0; i < w.segs.size(); i++) { if (w.segs[i].schema >= 0) { known.push_back(i); } }
    const Seg& s = w.segs[pick(known)];
    Opt o;
    o.ef = static_cast<size_t>(choose(4));
    x.start(o);
    x.write(s.bytes);
    x.write("  "); // ends an abbreviated message
    const Out g = x.read();
    const Schema& sc = w.c.schemas[static_cast<size_t>(s.schema)];
    const int to[] = {ASC, BIN, JSN, ABB};
    int t = to[o.ef];
    if (shortFmt(s.fmt))
    {
        if (t == JSN) { return; } // short headers in JSON: P10
        t = t == ASC ? SASC : t == BIN ? SBIN : SABB;
    }
    const string want = w.c.message(sc, t, w.c.body(sc, t, s.body));
    MC_REQUIRE(g.st == STATUS::SUCCESS && g.bytes == want, "converted", s.name + " " + o.show() + " gives " + g.show() + " instead of " + printable(want));
    uniqueMsgs(want);
}
static void options(size_t first)
{
    const size_t n = W().segs.size();
    vector<size_t> v{first};
    const int len = choose(TH ? 3 : 2);
    for (int i = 0; i < len; i++) { v.push_back(static_cast<size_t>(choose(static_cast<int>(n)))); }
    const string s = join(v);
    Opt o;
    const int how = TH && len < 2 ? choose(3) : static_cast<int>(v.size() + v.back()) % 3;
    for (o.ef = 0; o.ef < 6; o.ef++)
    {
        for (int bits = 0; bits < 8; bits++)
        {
            o.unknown = !(bits & 1);
            o.ignore = !(bits & 2);
            o.decompress = !(bits & 4);
            for (o.filter = 0; o.filter < W().filters.size(); o.filter++)
            {
                if (len > 1 && (o.ef + static_cast<size_t>(bits) + o.filter) % 7) { continue; }
                drive(pairOf(), o, {s}, how);
            }
        }
    }
    uniqueMsgs(s);
}
static void chunks(size_t first)
{
    const size_t n = W().segs.size();
    vector<size_t> v{first};
    const int len = choose(2);
    for (int i = 0; i < len; i++) { v.push_back(static_cast<size_t>(choose(static_cast<int>(n)))); }
    const string s = join(v);
    Opt o;
    o.ef = (v.back() + first) % 4;
    o.ignore = choose(2) == 1;
    const int how = static_cast<int>(v.back()) % 2;
    Pair& x = pairOf();
    const string whole = drive(x, o, {s}, how);
    auto compare = [&](const vector<std::string_view>& c) {
        const string got = drive(x, o, c, how);
        MC_REQUIRE(got == whole, "chunks", x.history + "\ngives\n" + got + "instead of\n" + whole);
    };
    const std::string_view z(s);
    const size_t step = len && !TH ? 3 : 1;
    for (size_t k = 1 + (first + v.back()) % step; k < s.size(); k += step) { compare({z.substr(0, k), z.substr(k)}); }
    for (size_t u : {1, 2, 5, 16})
    {
        vector<std::string_view> c;
        for (size_t k = 0; k < s.size(); k += u) { c.push_back(z.substr(k, u)); }
        compare(c);
    }
    if (TH && !len)
    {
        for (size_t i = 1; i < s.size(); i++) { for (size_t k = i + 1; k < s.size(); k++) { compare({z.substr(0, i), z.substr(i, k - i), z.substr(k)}); } }
    }
    uniqueMsgs(s);
}
// any order of calls
static void histories(int first)
{
    World& w = W();
    Pair& x = pairOf();
    if (x.ref.db != w.db) { x.p.LoadJsonDb(w.db); x.ref.load(w.db); }
    Opt o;
    x.start(o);
    static const vector<string> pieces = [] {
        auto& g = W().segs;
        auto of = [&](const char* n) { for (auto& s : g) { if (s.name == n) { return s.bytes; } } abort(); };
        const string b = of("binary"), a = of("abbreviated");
        return vector<string>{b, of("range"), of("range again"), of("binary configuration") + of("OK") + of("short body"), a + b.substr(0, 30), b.substr(30) + a.substr(0, 80), a.substr(80), of("unknown id")};
    }();
    const int P = static_cast<int>(pieces.size()), OPS = P + 11;
    const int depth = TH ? 5 : 4;
    uint64_t h = 0;
    for (int i = 0; i < depth; i++)
    {
        const int op = i == 0 ? first : choose(OPS);
        h = h * 31 + static_cast<uint64_t>(op);
        if (op < P) { x.write(pieces[static_cast<size_t>(op)]); continue; }
        switch (op - P)
        {
        case 0: x.read(); break;
        case 1: x.readIntermediate(); break;
        case 2: x.read(true); break;
        case 3: o.ef = (o.ef + 1) % 6; x.set(o); break;
        case 4: o.filter = (o.filter + 1) % w.filters.size(); x.set(o); break;
        case 5: o.unknown = !o.unknown; x.set(o); break;
        case 6: o.ignore = !o.ignore; x.set(o); break;
        case 7: o.decompress = !o.decompress; x.set(o); break;
        case 8: x.flush(); break;
        case 9: {
            const auto& d = x.ref.db == w.db ? w.other : w.db;
            x.history += "\n  load another database";
            x.p.LoadJsonDb(d);
            const auto counts = x.ref.header->GetMessageCounts();
            x.ref.load(d);
            x.ref.range->Reset();
            MC_REQUIRE(x.p.MessageDb() == d, "database", x.history + "\nreports another database");
            break;
        }
        default: x.p.LoadJsonDb(nullptr); MC_REQUIRE(x.p.MessageDb() == x.ref.db, "database", x.history + "\nan absent database replaces the loaded one"); break;
        }
    }
    for (int i = 0; i < 3; i++) { x.read(i == 2); }
    addStates(1);
    distinct(h);
}
// ---------------------------------------------------------------- files
static string reference(const Opt& o, const string& s, int how)
{
    static Pipe* p = nullptr;
    if (!p) { p = new Pipe(); }
    p->flush();
    p->o = o;
    Seq q;
    auto one = [&](bool last) {
        IntermediateHeader ih;
        CompositeField cf;
        MetaDataStruct m;
        Out r = how == 1 ? p->intermediate(last, ih, cf, m) : p->read(last);
        if (more(r)) { q.add(r); }
        return more(r);
    };
    for (size_t at = 0; at < s.size();)
    {
        const size_t n = std::min({s.size() - at, static_cast<size_t>(p->framer.GetAvailableSpace()), size_t{20000}}); // not the file parser's own division
        MC_REQUIRE(n > 0, "stuck", "the framer takes nothing more");
        MC_REQUIRE(p->framer.Write(reinterpret_cast<const unsigned char*>(s.data()) + at, static_cast<uint32_t>(n)) == n, "write", "not all bytes are taken");
        at += n;
        while (one(false)) {}
    }
    while (one(true)) {}
    q.close();
    q.items.push_back("left " + printable(p->flush()));
    return q.text();
}
struct File
{
    FileParser f{W().db};
    MessageDataStruct d;
    MetaDataStruct m;
    void set(const Opt& o)
    {
        f.SetEncodeFormat(EFS[o.ef]);
        f.SetReturnUnknownBytes(o.unknown);
        f.SetIgnoreAbbreviatedAsciiResponses(o.ignore);
        f.SetDecompressRangeCmp(o.decompress);
        f.SetFilter(W().filters[o.filter]);
        MC_REQUIRE(f.GetEncodeFormat() == EFS[o.ef] && f.GetReturnUnknownBytes() == o.unknown && f.GetIgnoreAbbreviatedAsciiResponses() == o.ignore && f.GetDecompressRangeCmp() == o.decompress && f.GetFilter() == W().filters[o.filter], "settings",
                   "the file parser reports other settings");
    }
    Out read(int how)
    {
        addTransitions(1);
        if (how == 0) { const STATUS st = f.Read(d, m); return result(st, d, m, true); }
        IntermediateHeader ih;
        CompositeField cf;
        const STATUS st = f.ReadIntermediate(d, ih, cf, m);
        return result(st, d, m, false);
    }
    string rest(int how, int limit = 1000000)
    {
        Seq q;
        for (; limit > 0; limit--)
        {
            const Out r = read(how);
            if (!more(r)) { MC_REQUIRE(r.st == STATUS::STREAM_EMPTY, "end", fmtf("the end of the stream is status %d", static_cast<int>(r.st))); break; }
            q.add(r);
        }
        MC_REQUIRE(limit > 0, "endless", "the file parser does not end");
        const Out again = read(how);
        MC_REQUIRE(again.st == STATUS::STREAM_EMPTY, "end", fmtf("after the end of the stream, reading gives %s", again.show().c_str()));
        q.close();
        vector<unsigned char> b(MESSAGE_SIZE_MAX);
        const uint32_t n = f.Flush(b.data(), MESSAGE_SIZE_MAX);
        q.items.push_back("left " + printable(string(reinterpret_cast<char*>(b.data()), n)));
        return q.text();
    }
};
static File& fileOf()
{
    static File* f = nullptr;
    if (!f) { f = new File(); }
    return *f;
}
static string brief(const string& s) { return s.size() < 1500 ? printable(s, 1500) : fmtf("%zu bytes ending in ", s.size()) + printable(s.substr(s.size() - 700), 1000); }
static void fileIs(const Opt& o, const string& s, int how, const char* what)
{
    File& f = fileOf();
    f.set(o);
    MC_REQUIRE(f.f.SetStream(std::make_shared<std::istringstream>(s)), "stream", "a stream is refused");
    string got;
    try { got = f.rest(how); }
    catch (const std::exception& e) { fail("exception", string("reading threw ") + e.what() + ": " + brief(s)); }
    const string want = reference(o, s, how);
    auto end = [](const string& t) { return t.size() < 3000 ? t : "..." + t.substr(t.size() - 3000); };
    MC_REQUIRE(got == want, what, o.show() + (how ? ", intermediate: " : ": ") + brief(s) + "\ngives\n" + end(got) + "instead of\n" + end(want));
}
static void files(size_t first)
{
    const size_t n = W().segs.size();
    vector<size_t> v{first};
    const int len = choose(3);
    for (int i = 0; i < len; i++) { v.push_back(static_cast<size_t>(choose(static_cast<int>(n)))); }
    const string s = join(v);
    Opt o;
    o.ef = (v.back() + first) % 4;
    const int bits = len == 2 && !TH ? static_cast<int>(v[1] + v[2]) % 8 : choose(8);
    o.unknown = !(bits & 1);
    o.ignore = !(bits & 2);
    o.decompress = !(bits & 4);
    fileIs(o, s, static_cast<int>(v.back()) % 2, "file");
    uniqueMsgs(s);
}
// a message across the end of what is read at a time, at every offset
static void borders(size_t first)
{
    World& w = W();
    const size_t second = TH ? static_cast<size_t>(choose(static_cast<int>(w.segs.size()))) : (first + 1) % w.segs.size();
    const string s = w.segs[first].bytes + w.segs[second].bytes;
    const bool valid = choose(2) == 1; // the bytes before it: messages or noise
    Opt o;
    o.ef = first % 4;
    o.ignore = false;
    o.unknown = choose(2) == 1;
    const string unit = w.segs[1].bytes;
    for (size_t k = 1; k <= s.size(); k += TH || s.size() < 60 ? 1 : 3)
    {
        string pre;
        while (valid && pre.size() + unit.size() <= 0x8000 - k) { pre += unit; }
        pre += string(0x8000 - k - pre.size(), 'x');
        fileIs(o, pre + s, static_cast<int>(k + first) % 2, "border");
    }
    uniqueMsgs(s);
}
// long candidates, which fill the buffer before they are decided
static void big(int which)
{
    static const char* const starts[] = {"#", "%", "<LOG1000 COM1 0 40.0 FINESTEERING 2000 123.456 02000000 1234 12816\r\n<     ", "$", "<LOG1000 ", "\xAA\x44\x12\x1C", "\xAA\x44\x13\xFF", "#LOG1001A,", "\xAA\x44\x12\xFF", "\xAA\x44\x12"};
    const string st = starts[which];
    static const int sizes[] = {100, 0x7F00, 0x7FFF, 0x8000, 0x8001, 0x8100, 0xFFFF, 0x10000, 0x10001, 0x18000};
    const int size = sizes[choose(10)];
    static const char* const fills[] = {"a", "<     1 2\r\n", "a,", "\x7F", "#23456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"};
    const string fill = fills[choose(5)];
    string s = st;
    if (st.size() == 4 && st[2] == 0x12) { s = World::head(1000, static_cast<size_t>(std::min(size, 0xFFFF))); }
    while (s.size() < static_cast<size_t>(size)) { s += fill; }
    s.resize(static_cast<size_t>(size));
    const int tail = choose(3);
    if (tail) { s += (tail == 2 ? "\r\n" : "") + W().segs[0].bytes + W().segs[1].bytes; }
    Opt o;
    o.unknown = choose(2) == 1;
    fileIs(o, s, 0, "long");
    uniqueMsgs(s);
}
// whole messages about as long as the longest there can be
static void limit(int which)
{
    World& w = W();
    const int n = (TH ? 32740 : 32764) + choose(TH ? 60 : 10); // the length of the message
    string pre, post;
    std::function<string(const string&)> make;
    const string t = "\"text";
    switch (which)
    {
    case 0: make = [&](const string& x) { return bld::ascii(asciiHeader("LOG1001A") + t + x + "\""); }; break;
    case 1: make = [&](const string& x) { return bld::ascii("LOG1001A,2000,123.456;" + t + x + "\"", '%'); }; break;
    case 2: make = [&](const string& x) { return "<LOG1001 COM1 0 40.0 FINESTEERING 2000 123.456 02000000 1234 12816\r\n<     " + t + x + "\"\r\n"; }; break;
    case 3: make = [&](const string& x) { return "<OK" + x + "\r\n"; }; break;
    case 4: make = [&](const string& x) { return World::bin(1001, t.substr(1) + x); }; break;
    case 5: make = [&](const string& x) { return bld::ascii("NOSUCHA,COM1,0,40.0,FINESTEERING,2000,123.456,02000000,1234,12816;" + x); }; break;
    case 6: make = [&](const string& x) { return World::bin(999, x); }; break;
    }
    const size_t l = make("").size();
    const string m = make(string(static_cast<size_t>(n) - l, choose(2) ? 'x' : '<'));
    string s = choose(2) ? "" : w.segs[0].bytes + "ab";
    s += m;
    if (choose(2)) { s += w.segs[1].bytes + w.segs[0].bytes; }
    Opt o;
    o.unknown = choose(2) == 1;
    o.ef = static_cast<size_t>(choose(3));
    fileIs(o, s, 0, "limit");
    uniqueMsgs(s);
}
// streams set, replaced and begun again
static void streams()
{
    World& w = W();
    static File* fp = nullptr;
    static std::shared_ptr<std::istream> ended;
    if (!fp) { fp = new File(); ended = std::make_shared<std::istringstream>("x"); string t; *ended >> t; }
    File& f = *new File(); // a new file parser: nothing is set
    std::unique_ptr<File> hold(&f);
    Opt o;
    o.ignore = false;
    f.set(o);
    const string S[] = {w.segs[0].bytes + w.segs[1].bytes + "xx", w.segs[16].bytes + w.segs[17].bytes + w.segs[6].bytes, "", w.segs[0].bytes + w.segs[2].bytes};
    // the rest of the stream that is set
    vector<string> exp;
    auto items = [&](const string& s) {
        vector<string> v;
        string t = reference(o, s, 0);
        for (size_t at = 0; at < t.size();) { const size_t e = t.find('\n', at); v.push_back(t.substr(at, e - at)); at = e + 1; }
        v.pop_back();
        return v;
    };
    bool any = false;
    size_t cur = 0, pos = 0;
    string hist;
    const int depth = TH ? 6 : 4;
    for (int i = 0; i < depth; i++)
    {
        const int op = choose(8);
        switch (op)
        {
        case 0: case 1: case 2: case 3: {
            hist += fmtf(" set %d", op);
            MC_REQUIRE(f.f.SetStream(std::make_shared<std::istringstream>(S[op])), "stream", hist + ": refused");
            cur = static_cast<size_t>(op);
            any = true;
            exp = items(S[cur]);
            pos = 0;
            break;
        }
        case 4: hist += " set null"; MC_REQUIRE(!f.f.SetStream(nullptr), "stream", hist + ": no stream is taken"); break;
        case 5: hist += " set ended"; MC_REQUIRE(!f.f.SetStream(ended), "stream", hist + ": a stream at its end is taken"); break;
        case 6: {
            hist += " reset";
            MC_REQUIRE(f.f.Reset(), "reset", hist + ": fails");
            pos = 0;
            MC_REQUIRE(f.f.GetMessageCounts().empty(), "counts", hist + ": counts are kept");
            break;
        }
        default: {
            hist += " read";
            const Out r = f.read(0);
            const bool end = !any || pos == exp.size();
            if (end) { MC_REQUIRE(r.st == STATUS::STREAM_EMPTY, "end", hist + ": gives " + r.show() + " at the end"); }
            else
            {
                const string g = r.st == STATUS::UNKNOWN ? "unknown " + printable(r.bytes) : r.show();
                MC_REQUIRE(g == exp[pos], "streams", hist + ": gives " + g + " instead of " + exp[pos]);
                pos++;
            }
        }
        }
    }
    addStates(1);
    distinct(hashStr(hist));
}

// a parser that has no database, alone and after it is given one
static void noDatabase()
{
    static Pair* x = nullptr;
    if (!x) { x = new Pair(nullptr); }
    const size_t n = W().segs.size();
    const size_t a = static_cast<size_t>(choose(static_cast<int>(n))), b = static_cast<size_t>(choose(static_cast<int>(n)));
    Opt o;
    for (o.ef = 0; o.ef < 4; o.ef++)
    {
        for (int bits = 0; bits < 8; bits++)
        {
            o.unknown = !(bits & 1);
            o.ignore = !(bits & 2);
            o.decompress = !(bits & 4);
            o.filter = (a + b + static_cast<size_t>(bits)) % W().filters.size();
            drive(*x, o, {join({a, b})}, static_cast<int>(o.ef + static_cast<size_t>(bits)) % 3);
        }
    }
    uniqueMsgs(join({a, b}));
}
// every compressed range message from every source, in every way, with histories that need the right source
static rg::Msg rangeSample(int ver, bool diff)
{
    using namespace rg;
    Msg m;
    m.ver = ver;
    if (ver == 1) { m.m1 = {{&SIGS[0], nom1(SIGS[0])}, {&SIGS[6], nom1(SIGS[6])}}; }
    else if (ver == 2) { m.m2 = {{&SIGS[0], nom2s(SIGS[0]), {{&SIGS[0], nom2(SIGS[0])}, {&SIGS[1], nom2(SIGS[1])}}}}; }
    else
    {
        Sat4 a;
        a.id = 12;
        a.diff = diff;
        a.sigs = {{1, nom4(ver == 5 ? V5P : diff ? DIF1 : REF1)}, {4, nom4(ver == 5 ? V5S : diff ? DIF2 : REF2)}};
        m.m4 = {{0, {a}, 0}};
    }
    return m;
}
static void compressedRanges(int ver, int src)
{
    static const MessageDatabase::Ptr db = rg::db();
    static Pair* x = nullptr;
    if (!x) { x = new Pair(db); }
    static const char* const NAMES[] = {"RANGECMP", "RANGECMP2", "RANGECMP3", "RANGECMP4", "RANGECMP5"};
    // kinds: reference, differential, cut body, no body, response
    auto text = [&](int v, int s, int kind, bool asc, int64_t ms) {
        rg::Msg m = rangeSample(v, kind == 1);
        m.src = s;
        m.ms = ms;
        string b = m.body();
        if (kind == 2) { b.resize(b.size() - 5); }
        if (kind == 3) { b = v == 1 ? le(0, 4) : le(4, 4) + le(0, 4); }
        if (kind == 4)
        {
            m.src |= 0x80;
            b = le(1, 4) + "OK";
        }
        if (!asc) { return bld::withCrc(m.head(m.id(), b.size()) + b); }
        const string name = string(NAMES[v - 1]) + (kind == 4 ? "R" : "A") + (s ? "_1" : "");
        string t = fmtf("%u", static_cast<unsigned>(static_cast<unsigned char>(b[0]))), hexed;
        for (size_t i = 4; i < b.size(); i++) { hexed += fmtf("%02x", static_cast<unsigned>(static_cast<unsigned char>(b[i]))); }
        if (v == 1) { for (size_t i = 0; i + 48 <= hexed.size(); i += 48) { t += "," + hexed.substr(i, 48); } }
        else { t += "," + hexed; }
        return bld::ascii(asciiHeader(name, "COM1", 0, "40.0", "FINESTEERING", 2000, fmtf("%.3f", static_cast<double>(ms) / 1000)) + (kind == 4 ? string("OK") : t));
    };
    const int kind = choose(5), second = choose(1 + 5 * 2 * 2);
    const bool asc = choose(2);
    const string one = text(ver, src, kind, asc, 123456);
    string s = one, two;
    if (second)
    {
        const int v = 1 + (second - 1) % 5, s2 = (second - 1) / 5 % 2, diff = (second - 1) / 10;
        two = text(v, s2, diff, choose(2), 124456);
        s += two;
    }
    Opt o;
    // the filters that keep everything, drop responses, and look at names
    static const size_t filters[] = {0, 3, 4, 5};
    for (o.ef = 0; o.ef < 6; o.ef++)
    {
        for (int bits = 0; bits < 4; bits++)
        {
            o.unknown = bits & 1;
            o.decompress = !(bits & 2);
            for (size_t f : filters)
            {
                o.filter = f;
                if (second && !TH && (o.ef + static_cast<size_t>(bits) + f + static_cast<size_t>(second)) % 5) { continue; }
                drive(*x, o, {s}, static_cast<int>(o.ef + static_cast<size_t>(bits)) % 3);
            }
        }
    }
    if (second)
    {
        // nothing of the first is used for the second when the parser is flushed between them
        Opt d;
        d.ef = 1;
        x->start(d);
        x->write(one);
        while (more(x->read())) {}
        x->flush();
        x->write(two);
        while (more(x->read())) {}
    }
    // at least the plain ones are reported as ranges, by the parser itself
    if ((kind == 0 || (kind == 3 && ver != 2)) && !second)
    {
        Opt d;
        d.ef = 1;
        x->start(d);
        x->write(s);
        const Out g = x->read();
        MC_REQUIRE(g.st == STATUS::SUCCESS && x->m.usMessageId == 43 && x->m.messageName == "RANGE" && static_cast<int>(x->m.ucSiblingId) == src, "ranges", x->history + "\ngives " + g.show() + " instead of the ranges");
    }
    uniqueMsgs(s);
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P15";
    ck.level = "model_checking";
    ck.rule = "One execution is a stream of messages, damaged messages, responses and noise (or a sequence of calls) given to the real Parser or FileParser in lockstep with the separate components (framer, header decoder, filter, range decompressor, "
              "message decoder or configuration handler, encoder) put together as documented: every call must give the same status, the same message bytes and parts, the same metadata and decoded fields, the same statistics. Conversions of "
              "well-formed messages are compared with an independent rendering. Chunked streams must give the sequence of the whole stream; files the sequence of the components.";
    ck.assumptions = {"adjacent unknown bytes may be divided over several reports", "bytes that are still undecided at the end of a stream are handed out by Flush, not by reading"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    for (int i = 1; i < argc; i++) { if (string(argv[i]) == "thorough" || string(argv[i]) == "quick") { ck.tier = argv[i]; } }
    quietLogs();
    TH = ck.thorough();
    const size_t n = W().segs.size();
    ck.unit("oracle", [] { oracle(); });
    ck.unit("streams", [] { streams(); });
    ck.unit("no database", [] { noDatabase(); });
    for (int i = 0; i < 10; i++) { ck.unit(fmtf("ranges/%d-%d", i / 2 + 1, i % 2), [i] { compressedRanges(i / 2 + 1, i % 2); }); }
    for (int i = 0; i < 10; i++) { ck.unit(fmtf("long/%d", i), [i] { big(i); }); }
    for (int i = 0; i < 7; i++) { ck.unit(fmtf("limit/%d", i), [i] { limit(i); }); }
    for (int i = 0; i < 19; i++) { ck.unit(fmtf("histories/%d", i), [i] { histories(i); }); }
    for (size_t i = 0; i < n; i++)
    {
        ck.unit(fmtf("options/%zu", i), [i] { options(i); });
        ck.unit(fmtf("chunks/%zu", i), [i] { chunks(i); });
        ck.unit(fmtf("files/%zu", i), [i] { files(i); });
        ck.unit(fmtf("borders/%zu", i), [i] { borders(i); });
    }
    return runCheck(ck, argc, argv);
}
