// P23: component instances never influence one another, whether side by side, on threads, or re-used.
// Every execution is a fresh process, so process-wide state starts anew and what one instance leaves behind shows.
#include <sstream>
#include <thread>

#include "forked.hpp"
#include "corpus.hpp"
#include "ranges.hpp"
#include "sched.hpp"

#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/file_parser.hpp"
#include "novatel_edie/decoders/oem/filter.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/parser.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"

using namespace mc;
using namespace co;
using bld::le;

// ---------------------------------------------------------------- two databases that give the same messages different meanings
static vector<vector<F>> fieldsOf(int db)
{
    const F rows = {"rows", "FIELD_ARRAY", "UNKNOWN", 4, "", "", 4, -1, "", {{"p", "SIMPLE", "ULONG", 4, "%lu"}, {"q", "SIMPLE", "SHORT", 2, "%hd"}}};
    if (db == 0)
    {
        return {{{"u8", "SIMPLE", "UCHAR", 1, "%UB"}, {"x", "SIMPLE", "ULONG", 4, "%lx"}, {"e", "ENUM", "ULONG", 4, "%d", "e-sol"}},
                {{"s", "STRING", "CHAR", 1, "%s", "", 32}, {"d", "SIMPLE", "DOUBLE", 8, "%.4lf"}},
                {rows, {"z", "FIXED_LENGTH_ARRAY", "UCHAR", 1, "%Z", "", 3}, {"v", "VARIABLE_LENGTH_ARRAY", "ULONG", 4, "%lu", "", 3}}};
    }
    return {{{"w", "SIMPLE", "USHORT", 2, "%hu"}, {"e", "ENUM", "UCHAR", 1, "%d", "e-sol"}},
            {{"f", "SIMPLE", "FLOAT", 4, "%.3f"}, {"c", "FIXED_LENGTH_ARRAY", "CHAR", 1, "%s", "", 4}},
            {{"s", "STRING", "CHAR", 1, "%s", "", 8}, rows}};
}
static vector<Body> bodiesOf(int db, int variant)
{
    const uint64_t k = static_cast<uint64_t>(variant);
    if (db == 0)
    {
        return {{N1(7 + k), N1(0xBEEF + k), N1(k ? 2 : 0)},
                {{{}, k ? "some text" : "q,r", {}}, N1(bo::bitsD(-12.25 + variant))},
                {{{}, "", k ? vector<Body>{{N1(1), N1(2)}, {N1(3), N1(0xFFFF)}} : vector<Body>{{N1(9), N1(8)}}}, {{1, 0xAB, 255 - k}, "", {}}, {k ? vector<uint64_t>{5, 6} : vector<uint64_t>{}, "", {}}}};
    }
    return {{N1(70 + k), N1(k ? 7 : 1)}, {N1(bo::bitsF(0.5f)), {{'a', 'b', k ? 'c' : 0u, 0}, "", {}}}, {{{}, k ? "k" : "longer", {}}, {{}, "", k ? vector<Body>{} : vector<Body>{{N1(1), N1(2)}}}}};
}
static string dbText(int db)
{
    vector<M> ms;
    uint32_t id = 1000;
    for (auto& f : fieldsOf(db)) { ms.push_back({id, fmtf("LOG%u", id), f}); id++; }
    const F rows = {"obs", "FIELD_ARRAY", "UNKNOWN", 44, "", "", 325, -1, "",
                    {{"prn", "SIMPLE", "USHORT", 2, "%hu"}, {"slot", "SIMPLE", "USHORT", 2, "%hu"}, {"psr", "SIMPLE", "DOUBLE", 8, "%.3lf"}, {"psd", "SIMPLE", "FLOAT", 4, "%.3f"}, {"adr", "SIMPLE", "DOUBLE", 8, "%.6lf"},
                     {"add", "SIMPLE", "FLOAT", 4, "%.3f"}, {"dop", "SIMPLE", "FLOAT", 4, "%.3f"}, {"cn0", "SIMPLE", "FLOAT", 4, "%.1f"}, {"lock", "SIMPLE", "FLOAT", 4, "%.3f"}, {"tstat", "SIMPLE", "ULONG", 4, "%lx"}}};
    const F raw = {"raw", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%R", "", 4096}, data = {"data", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%Z", "", 7200};
    ms.push_back({42, "BESTPOS", {{"a", "SIMPLE", "ULONG", 4, "%lu"}}});
    ms.push_back({43, "RANGE", {rows}});
    ms.push_back({1273, "RANGECMP2", {data}});
    ms.push_back({2050, "RANGECMP4", {data}});
    ms.push_back({128, "RXCONFIG", {raw}});
    auto es = stdEnums();
    if (db == 1)
    {
        es[0] = {"e-resp", "Responses", {{1, "FINE"}, {4, "WHO"}, {7, "OTHER"}}, {"Fine", "Who", "Other"}};
        es[4] = {"e-sol", "SolStatus", {{0, "ZERO"}, {1, "ONE"}, {2, "TWO"}, {7, "SEVEN"}}, {}};
    }
    return dbJson(ms, es);
}

// ---------------------------------------------------------------- messages (rendered independently of the code)
struct Texts
{
    // per database and variant: message x format
    string msg[2][2][3][FMTS];
    Texts()
    {
        // (a child renders them: the codec's construction touches process-wide state)
        for (int d = 0; d < 2; d++)
        {
            const Codec c(fieldsOf(d));
            for (int v = 0; v < 2; v++)
            {
                const auto b = bodiesOf(d, v);
                for (int m = 0; m < 3; m++)
                {
                    for (int f = 0; f < FMTS; f++) { msg[d][v][m][f] = c.message(c.schemas[static_cast<size_t>(m)], f, c.body(c.schemas[static_cast<size_t>(m)], f, b[static_cast<size_t>(m)])); }
                }
            }
        }
    }
};
static string inChild(const std::function<string()>& fn)
{
    int fd[2];
    if (pipe(fd) != 0) { throw std::logic_error("pipe"); }
    fflush(stdout);
    fflush(stderr);
    const pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        alarm(60);
        string s;
        try { s = "+" + fn(); }
        catch (const Failure& f) { s = "-" + f.key + ": " + f.msg; }
        catch (const std::exception& e) { s = string("-exception: ") + e.what(); }
        size_t w = 0;
        while (w < s.size())
        {
            const ssize_t k = write(fd[1], s.data() + w, s.size() - w);
            if (k <= 0) { break; }
            w += static_cast<size_t>(k);
        }
        _exit(0);
    }
    close(fd[1]);
    string s;
    char b[65536];
    for (;;)
    {
        const ssize_t k = read(fd[0], b, sizeof b);
        if (k < 0 && errno == EINTR) { continue; }
        if (k <= 0) { break; }
        s.append(b, static_cast<size_t>(k));
    }
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (st != 0 || s.empty()) { fail("crash:" + crashName(st), "alone, the process ended with " + crashName(st)); }
    if (s[0] != '+') { fail("alone", s.substr(1)); }
    return s.substr(1);
}
static void packStr(string& o, const string& s)
{
    o += le(s.size(), 8) + s;
}
static const string& text(int db, int variant, int m, int fmt)
{
    static std::map<std::tuple<int, int, int, int>, string> all;
    if (all.empty())
    {
        const string s = inChild([] {
            const Texts t;
            string o;
            for (auto& a : t.msg) { for (auto& b : a) { for (auto& c : b) { for (auto& d : c) { packStr(o, d); } } } }
            return o;
        });
        size_t at = 0;
        for (int a = 0; a < 2; a++)
        {
            for (int b = 0; b < 2; b++)
            {
                for (int c = 0; c < 3; c++)
                {
                    for (int d = 0; d < FMTS; d++)
                    {
                        uint64_t n;
                        memcpy(&n, s.data() + at, 8);
                        all[{a, b, c, d}] = s.substr(at + 8, n);
                        at += 8 + n;
                    }
                }
            }
        }
    }
    return all.at({db, variant, m, fmt});
}
static string head(uint32_t id, size_t len, uint32_t ms, int type)
{
    return "\xAA\x44\x12\x1C" + le(id, 2) + le(static_cast<uint64_t>(type), 1) + le(32, 1) + le(len, 2) + le(0, 2) + le(80, 1) + le(180, 1) + le(2000, 2) + le(ms, 4) + le(0x02000000, 4) + le(0x1234, 2) + le(12816, 2);
}
static string bin(uint32_t id, const string& body, uint32_t ms = 123456, int type = 0) { return bld::withCrc(head(id, body.size(), ms, type) + body); }
static string response(int variant) { return bin(1000, le(variant ? 4 : 1, 4) + (variant ? "Who" : "OK"), 123456, 0x80); }
static string asciiResponse(int variant) { return bld::ascii(asciiHeader("LOG1001R") + (variant ? "WHO" : "OK")); }
// compressed ranges: a reference block or a difference of one satellite
static string range(int variant, int step)
{
    rg::Msg m;
    m.ver = variant == 2 ? 2 : 4;
    m.week = 2000;
    m.ms = 100000 + 1000 * step + variant * 7;
    if (m.ver == 2)
    {
        rg::Sat2 t{&rg::SIGS[0], rg::nom2s(rg::SIGS[0]), {{&rg::SIGS[0], rg::nom2(rg::SIGS[0])}}};
        t.r[1] = 12;
        t.sigs[0].second[4] = static_cast<uint64_t>(131000 + 71 * step); // runs into saturation
        m.m2 = {t};
        return m.binary();
    }
    rg::Sat4 t;
    t.id = 12;
    t.diff = step > 0;
    t.ref = 0;
    rg::Raw r = rg::nom4(t.diff ? rg::DIF1 : rg::REF1);
    r[3] = step ? 15 : 2;
    r[6] += static_cast<uint64_t>(variant * 1000 + step);
    t.sigs = {{rg::SIGS[0].sig4, r}};
    m.m4 = {{rg::SIGS[0].sys, {t}, 0}};
    return m.binary();
}
static string config(int db, int variant)
{
    const string whole = text(db, variant, 0, BIN), e = whole.substr(0, whole.size() - 4);
    return bin(128, e + le(bld::crc32(e) ^ 0xFFFFFFFF, 4));
}

// ---------------------------------------------------------------- what a component shows
static string showMeta(const MetaDataStruct& m)
{
    return fmtf("id %u %s format %d length %u header %u response %d source %d week %u ms %.0f status %d crc %x", m.usMessageId, m.messageName.c_str(), static_cast<int>(m.eFormat), m.uiLength, m.uiHeaderLength, m.bResponse, static_cast<int>(m.ucSiblingId), m.usWeek,
                m.dMilliseconds, static_cast<int>(m.eTimeStatus), m.uiMessageCrc);
}
static string showHeader(const IntermediateHeader& h)
{
    return fmtf("id %u type %u port %u length %u seq %u idle %u status %u week %u ms %.3f receiver %x crc %x version %u", h.usMessageId, h.ucMessageType, h.uiPortAddress, h.usLength, h.usSequence, h.ucIdleTime, h.uiTimeStatus, h.usWeek, h.dMilliseconds,
                h.uiReceiverStatus, h.uiMessageDefinitionCrc, h.usReceiverSwVersion);
}
static string showCounts(const HeaderDecoder::MessageCountsMap& c)
{
    std::map<string, uint64_t> m;
    for (auto& [k, n] : c) { m[fmtf("%d/%d/%d", static_cast<int>(std::get<0>(k)), static_cast<int>(std::get<1>(k)), static_cast<int>(std::get<2>(k)))] = n; }
    string s;
    for (auto& [k, n] : m) { s += " " + k + ":" + std::to_string(n); }
    return s;
}
static vector<F> responseFields() { return {{"id", "ENUM", "INT", 4, "%d", "e-resp"}, {"str", "STRING", "CHAR", 1, "%s", "", 64}}; }
static string showCf(const CompositeField& cf, int db, const MetaDataStruct& m)
{
    if (!cf.GetFieldInfo()) { return "(nothing)"; }
    const auto all = fieldsOf(db);
    if (m.bResponse) { return show(readBody(cf, responseFields(), *cf.GetFieldInfo())); }
    if (m.usMessageId < 1000 || m.usMessageId > 1002) { return fmtf("%zu variable fields", cf.GetVarFields().size()); }
    return show(readBody(cf, all[m.usMessageId - 1000u], *cf.GetFieldInfo()));
}

// ---------------------------------------------------------------- instances
struct World
{
    MessageDatabase::Ptr db[2];
    const MessageDatabase::Ptr& get(int d)
    {
        if (!db[d]) { db[d] = ParseJsonDb(dbText(d)); }
        return db[d];
    }
};
struct Inst
{
    virtual ~Inst() = default;
    virtual string step(int i) = 0;
};
struct Framing : Inst
{
    Framer f;
    string all;
    bool unknown;
    Framing(int db, int v) : unknown(v == 0)
    {
        f.SetReportUnknownBytes(unknown);
        for (int x : {ABB, BIN, SASC, JSN, SBIN}) { all += text(db, v, v, x); }
        all += v ? "$GPALM,1,1*5C\r\n#BAD" : "xx<OK\r\n";
    }
    string step(int i) override
    {
        const size_t a = all.size() * static_cast<size_t>(i) / 3 + (i ? 5 : 0), b = i == 2 ? all.size() : all.size() * static_cast<size_t>(i + 1) / 3 + 5;
        string s = fmtf("%zu\n", static_cast<size_t>(f.Write(reinterpret_cast<const unsigned char*>(all.data()) + a, static_cast<uint32_t>(b - a))));
        vector<unsigned char> buf(4096);
        for (int k = 0; k < 50; k++)
        {
            MetaDataStruct m;
            const STATUS st = f.GetFrame(buf.data(), static_cast<uint32_t>(buf.size()), m);
            s += fmtf("%d ", static_cast<int>(st));
            if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN) { break; }
            s += printable(string(reinterpret_cast<char*>(buf.data()), m.uiLength)) + showMeta(m) + "\n";
        }
        if (i == 2)
        {
            const uint32_t n = f.Flush(buf.data(), static_cast<uint32_t>(buf.size()));
            s += "rest " + printable(string(reinterpret_cast<char*>(buf.data()), n));
        }
        return s;
    }
};
struct Managing : Inst
{
    novatel::edie::FramerManager f{{"OEM"}};
    string all;
    Managing(int db, int v)
    {
        f.SetReportUnknownBytes(v == 1);
        for (int x : {ASC, SBIN, ABB, BIN}) { all += text(db, v, v, x); }
        all += "<x";
    }
    string step(int i) override
    {
        const size_t a = all.size() * static_cast<size_t>(i) / 3, b = all.size() * static_cast<size_t>(i + 1) / 3;
        string s = fmtf("%zu\n", f.Write(reinterpret_cast<const unsigned char*>(all.data()) + a, b - a));
        vector<unsigned char> buf(4096);
        for (int k = 0; k < 50; k++)
        {
            MetaDataBase* m = nullptr;
            const STATUS st = f.GetFrame(buf.data(), static_cast<uint32_t>(buf.size()), m);
            s += fmtf("%d ", static_cast<int>(st));
            if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN) { break; }
            s += m ? printable(string(reinterpret_cast<char*>(buf.data()), m->uiLength)) : "-";
        }
        return s;
    }
};
// the messages that the decoding components handle, by number
static const int MSGS = 10;
static string message(int db, int n)
{
    switch (n)
    {
    case 0: return text(db, 0, 0, BIN);
    case 1: return text(db, 1, 1, ASC);
    case 2: return text(db, 0, 2, ABB);
    case 3: return response(0);
    case 4: return asciiResponse(1 - db);
    case 5: return text(db, 1, 2, SBIN);
    case 6: return text(db, 1, 0, JSN);
    case 7: return text(db, 0, 2, SASC);
    case 8: return bin(1001, "\x01");                          // too short
    default: return bld::ascii(asciiHeader("NOSUCHA") + "1,2"); // unknown
    }
}
struct Decoding : Inst
{
    int db;
    vector<int> which;
    HeaderDecoder hd;
    MessageDecoder md;
    Encoder en;
    bool encode;
    // kept and used again and again when `keep`
    bool keep = false;
    IntermediateHeader ih;
    CompositeField cf;
    MetaDataStruct m;
    vector<std::pair<CompositeField, MetaDataStruct>> all; // earlier results
    Decoding(World& w, int d, vector<int> n, bool e) : db(d), which(std::move(n)), hd(w.get(d)), md(w.get(d)), en(w.get(d)), encode(e) {}
    string one(const string& msg)
    {
        if (!keep)
        {
            ih = IntermediateHeader();
            cf = CompositeField();
            m = MetaDataStruct();
        }
        const Exact in(msg);
        m.uiLength = static_cast<uint32_t>(in.n);
        STATUS st = hd.Decode(in.get(), ih, m);
        string s = fmtf("%d ", static_cast<int>(st));
        if (st != STATUS::SUCCESS) { return s; }
        s += showHeader(ih) + "; " + showMeta(m);
        st = md.Decode(in.get() + (m.eFormat == HEADER_FORMAT::JSON ? 0 : m.uiHeaderLength), cf, m);
        s += fmtf("; %d ", static_cast<int>(st));
        if (st != STATUS::SUCCESS) { return s; }
        s += showCf(cf, db, m);
        if (encode)
        {
            for (ENCODE_FORMAT f : {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::JSON, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::FLATTENED_BINARY})
            {
                vector<unsigned char> out(2048);
                unsigned char* p = out.data();
                MessageDataStruct d;
                st = en.Encode(&p, static_cast<uint32_t>(out.size()), ih, cf, d, m.eFormat, f);
                s += fmtf("\n  %d ", static_cast<int>(st));
                if (st == STATUS::SUCCESS) { s += printable(string(reinterpret_cast<char*>(d.pucMessage), d.uiMessageLength)); }
            }
        }
        return s;
    }
    string step(int i) override
    {
        string s = one(message(db, which[static_cast<size_t>(i)])) + " counts" + showCounts(hd.GetMessageCounts());
        all.emplace_back(cf, m);
        for (auto& [c, k] : all) { s += "\n  still " + showCf(c, db, k); }
        return s;
    }
};
struct Filtering : Inst
{
    Filter f;
    int v;
    explicit Filtering(int variant) : v(variant) {}
    string step(int i) override
    {
        if (i == 0)
        {
            if (v) { f.IncludeMessageId(1000); f.SetIncludeLowerTimeBound(2000, 100.0); f.IncludeResponses(false); }
            else { f.IncludeMessageName("LOG1001", HEADER_FORMAT::ASCII); f.InvertMessageNameFilter(true); f.SetIncludeDecimation(2.0); }
        }
        if (i == 1)
        {
            if (v) { f.IncludeTimeStatus(TIME_STATUS::FINESTEERING); f.SetIncludeUpperTimeBound(2000, 200.0); }
            else { f.IncludeNmeaMessages(true); f.IncludeMessageId(1001); }
        }
        if (i == 2) { f.ClearFilters(); if (!v) { f.IncludeMessageId(1001); } }
        string s;
        for (int k = 0; k < 64; k++)
        {
            MetaDataStruct m;
            m.eFormat = k & 1 ? HEADER_FORMAT::ASCII : HEADER_FORMAT::BINARY;
            m.usMessageId = k & 2 ? 1001 : 1000;
            m.messageName = k & 2 ? "LOG1001" : "LOG1000";
            m.usWeek = 2000;
            m.dMilliseconds = k & 4 ? 150000 : k & 8 ? 251000 : 50000;
            m.bResponse = (k & 16) != 0;
            m.eTimeStatus = k & 32 ? TIME_STATUS::FINESTEERING : TIME_STATUS::COARSE;
            s += f.DoFiltering(m) ? '1' : '0';
        }
        return s;
    }
};
static string showOut(STATUS st, const MessageDataStruct& d, const MetaDataStruct& m)
{
    string s = fmtf("%d ", static_cast<int>(st));
    if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN && st != STATUS::NO_DEFINITION) { return s; }
    s += printable(string(reinterpret_cast<char*>(d.pucMessage), d.uiMessageLength));
    return st == STATUS::UNKNOWN ? s : s + " " + showMeta(m);
}
static string stream(int db, int v, int part)
{
    switch (part)
    {
    case 0: return text(db, v, v, BIN) + "junk" + asciiResponse(1 - db) + range(v, 0);
    case 1: return text(db, v, 1 - v, ABB) + config(db, v) + range(v, 1);
    default: return text(db, v, 2, SASC) + "\r\n<OK\r\n" + range(v, 2) + text(db, v, 1, JSN) + text(db, v, 0, ABB);
    }
}
struct Parsing : Inst
{
    Parser p;
    Filter::Ptr filter = std::make_shared<Filter>();
    int db, v;
    Parsing(World& w, int d, int variant) : p(w.get(d)), db(d), v(variant)
    {
        p.SetEncodeFormat(v ? ENCODE_FORMAT::ASCII : ENCODE_FORMAT::JSON);
        p.SetReturnUnknownBytes(v == 0);
        p.SetIgnoreAbbreviatedAsciiResponses(v == 0);
        p.SetDecompressRangeCmp(true);
        if (v) { filter->IncludeMessageName("LOG1001"); filter->InvertMessageNameFilter(true); p.SetFilter(filter); }
    }
    string step(int i) override
    {
        const string in = stream(db, v, i);
        string s = fmtf("%zu\n", p.Write(reinterpret_cast<const unsigned char*>(in.data()), in.size()));
        for (int k = 0; k < 40; k++)
        {
            MessageDataStruct d;
            MetaDataStruct m;
            const STATUS st = p.Read(d, m);
            s += showOut(st, d, m) + "\n";
            if (st == STATUS::BUFFER_EMPTY) { break; }
        }
        return s + showCounts(p.GetMessageCounts());
    }
};
struct FileParsing : Inst
{
    FileParser p;
    int db, v;
    FileParsing(World& w, int d, int variant) : p(w.get(d)), db(d), v(variant)
    {
        p.SetEncodeFormat(v ? ENCODE_FORMAT::ABBREV_ASCII : ENCODE_FORMAT::BINARY);
        p.SetReturnUnknownBytes(true);
        p.SetDecompressRangeCmp(v == 1);
    }
    string step(int i) override
    {
        string s;
        if (i != 1)
        {
            s = fmtf("%d\n", p.SetStream(std::make_shared<std::stringstream>(stream(db, v, 0) + stream(db, v, i ? 2 : 1))));
        }
        for (int k = 0; k < (i == 0 ? 3 : 40); k++)
        {
            MessageDataStruct d;
            MetaDataStruct m;
            const STATUS st = p.Read(d, m);
            s += showOut(st, d, m) + "\n";
            if (st == STATUS::STREAM_EMPTY || st == STATUS::BUFFER_EMPTY) { break; }
        }
        return s + showCounts(p.GetMessageCounts());
    }
};
struct Decompressing : Inst
{
    RangeDecompressor d;
    int v;
    Decompressing(World& w, int dbNo, int variant) : d(w.get(dbNo)), v(variant) {}
    string step(int i) override
    {
        string s;
        for (const string& in : {range(v, i), range(2, i + v)})
        {
            vector<unsigned char> b(2048);
            memcpy(b.data(), in.data(), in.size());
            MetaDataStruct m;
            const STATUS st = d.Decompress(b.data(), static_cast<uint32_t>(b.size()), m, v ? ENCODE_FORMAT::ASCII : ENCODE_FORMAT::BINARY);
            s += fmtf("%d ", static_cast<int>(st));
            if (st == STATUS::SUCCESS) { s += v ? printable(string(reinterpret_cast<char*>(b.data()), m.uiLength)) : hex(string(reinterpret_cast<char*>(b.data()), m.uiLength)); }
            s += "\n";
        }
        return s;
    }
};
struct Configuring : Inst
{
    RxConfigHandler h;
    int db, v;
    Configuring(World& w, int d, int variant) : h(w.get(d)), db(d), v(variant) {}
    string step(int i) override
    {
        const string in = config(db, i == 1 ? 1 - v : v) + (i == 1 ? text(db, v, 1, ASC) : "") + bld::ascii(asciiHeader("RXCONFIGA") + [&] {
            const string t = text(db, v, 1, ASC), inner = t.substr(0, t.find('*'));
            return inner + fmtf("*%08x", bld::crc32(inner.substr(1)) ^ 0xFFFFFFFFu);
        }());
        string s = fmtf("%zu\n", h.Write(reinterpret_cast<const unsigned char*>(in.data()), static_cast<uint32_t>(in.size())));
        for (int k = 0; k < 20; k++)
        {
            MessageDataStruct a, b;
            MetaDataStruct m, e;
            const STATUS st = h.Convert(a, m, b, e, v ? ENCODE_FORMAT::ASCII : ENCODE_FORMAT::JSON);
            s += fmtf("%d ", static_cast<int>(st));
            if (st == STATUS::SUCCESS) { s += printable(string(reinterpret_cast<char*>(a.pucMessage), a.uiMessageLength)) + " / " + printable(string(reinterpret_cast<char*>(b.pucMessage), b.uiMessageLength)) + showMeta(m) + showMeta(e) + "\n"; }
            if (st == STATUS::BUFFER_EMPTY) { break; }
        }
        return s;
    }
};
static string commandText(int db, int n)
{
    static const char* const C[2][4] = {{"LOG1000 7 BEEF SOL_COMPUTED", "LOG1001 \"a b\" 1.5", "LOG1000 7", "NOSUCH 1"}, {"LOG1000 65535 TWO", "LOG1001 0.5 \"ab\"", "LOG1000 1 NONE", "LOG1001"}};
    return C[db][n];
}
struct Commanding : Inst
{
    Commander c;
    int db, v;
    Commanding(World& w, int d, int variant) : c(w.get(d)), db(d), v(variant) {}
    string one(const string& t, ENCODE_FORMAT f)
    {
        char out[1024];
        uint32_t n = sizeof out;
        const STATUS st = c.Encode(t.data(), static_cast<uint32_t>(t.size()), out, n, f);
        string s = fmtf("%d ", static_cast<int>(st));
        if (st == STATUS::SUCCESS) { s += printable(string(out, n)); }
        return s;
    }
    string step(int i) override { return one(commandText(db, (i + v) % 4), i % 2 ? ENCODE_FORMAT::BINARY : ENCODE_FORMAT::ASCII) + "\n" + one(commandText(db, (i + v + 1) % 4), i % 2 ? ENCODE_FORMAT::ASCII : ENCODE_FORMAT::BINARY); }
};
static string inventory(const MessageDatabase& d)
{
    string s;
    for (const char* n : {"LOG1000", "LOG1001", "LOG1002", "RANGE", "NOSUCH"})
    {
        const auto def = d.GetMsgDef(std::string_view(n));
        s += string(n) + (def ? fmtf(" %u %x", def->logID, def->latestMessageCrc) : " none");
        if (def)
        {
            for (auto& f : def->GetMsgDefFromCrc(def->latestMessageCrc).messageOrderedFields) { s += " " + f->name + ":" + f->conversion + fmtf("@%zu", f->index); }
            const auto byId = d.GetMsgDef(static_cast<int32_t>(def->logID));
            s += byId == def ? " same" : " another";
            s += " " + d.MsgIdToMsgName(d.MsgNameToMsgId(string(n) + "A"));
        }
        s += "\n";
    }
    for (const char* n : {"SolStatus", "Responses"})
    {
        const auto e = d.GetEnumDefName(n);
        s += n;
        if (e) { for (auto& x : e->enumerators) { s += fmtf(" %u %s", x.value, x.name.c_str()); } }
        s += "\n";
    }
    return s;
}
struct Databasing : Inst // a database of its own, loaded and edited
{
    MessageDatabase::Ptr d;
    int db, v;
    Databasing(int dbNo, int variant) : db(dbNo), v(variant) {}
    string step(int i) override
    {
        if (i == 0) { d = ParseJsonDb(dbText(db)); }
        if (i == 1)
        {
            if (v) { d->RemoveMessage(1000); d->RemoveEnumeration("SolStatus"); }
            else { d->Merge(*ParseJsonDb(dbJson({{1000, "LOG1000", {{"n", "SIMPLE", "UCHAR", 1, "%UB"}}, 0x99}}, {}))); }
        }
        if (i == 2) { d = ParseJsonDb(dbText(v ? 1 - db : db)); }
        return inventory(*d);
    }
};

struct Reading : Inst // of the shared database
{
    MessageDatabase::Ptr d;
    int v;
    Reading(World& w, int dbNo, int variant) : d(w.get(dbNo)), v(variant) {}
    string step(int i) override { return i == v ? inventory(*std::make_shared<MessageDatabase>(*d)) : inventory(*d); }
};
struct Loading : Inst
{
    int db;
    explicit Loading(int dbNo) : db(dbNo) {}
    string step(int i) override { return i ? "" : inventory(*ParseJsonDb(dbText(db))); }
};

// ---------------------------------------------------------------- kinds of instances
struct Component
{
    const char* name;
    std::function<std::unique_ptr<Inst>(World&, int db, int variant)> make;
};
template <class T> static std::unique_ptr<Inst> with(T* t) { return std::unique_ptr<Inst>(t); }
static const vector<Component>& kinds2()
{
    static const vector<Component> k = {
        {"framer", [](World&, int d, int v) { return with(new Framing(d, v)); }},
        {"framer manager", [](World&, int d, int v) { return with(new Managing(d, v)); }},
        {"decoder", [](World& w, int d, int v) { return with(new Decoding(w, d, v ? vector<int>{3, 2, 5} : vector<int>{0, 4, 7}, false)); }},
        {"encoder", [](World& w, int d, int v) { return with(new Decoding(w, d, v ? vector<int>{2, 4, 0} : vector<int>{3, 6, 1}, true)); }},
        {"filter", [](World&, int, int v) { return with(new Filtering(v)); }},
        {"parser", [](World& w, int d, int v) { return with(new Parsing(w, d, v)); }},
        {"file parser", [](World& w, int d, int v) { return with(new FileParsing(w, d, v)); }},
        {"decompressor", [](World& w, int d, int v) { return with(new Decompressing(w, d, v)); }},
        {"configuration handler", [](World& w, int d, int v) { return with(new Configuring(w, d, v)); }},
        {"commander", [](World& w, int d, int v) { return with(new Commanding(w, d, v)); }},
        {"reader", [](World& w, int d, int v) { return with(new Reading(w, d, v)); }},
        {"loader", [](World&, int d, int) { return with(new Loading(d)); }},
        {"database", [](World&, int d, int v) { return with(new Databasing(d, v)); }},
    };
    return k;
}
static const int STEPS = 3;
struct Role
{
    size_t kind;
    int db, variant;
    string show() const { return string(kinds2()[kind].name) + fmtf(" %c on database %d", 'a' + variant, db); }
};
// what an instance shows in a process of its own
static const vector<string>& alone(const Role& r)
{
    static std::map<std::tuple<size_t, int, int>, vector<string>> memo;
    auto [it, added] = memo.emplace(std::tuple(r.kind, r.db, r.variant), vector<string>{});
    if (added)
    {
        try
        {
            const string s = inChild([&] {
                ed::quietLogs();
                World w;
                auto x = kinds2()[r.kind].make(w, r.db, r.variant);
                string o;
                for (int i = 0; i < STEPS; i++) { packStr(o, x->step(i)); }
                return o;
            });
            for (size_t at = 0; at + 8 <= s.size();)
            {
                uint64_t n;
                memcpy(&n, s.data() + at, 8);
                it->second.push_back(s.substr(at + 8, n));
                at += 8 + n;
            }
        }
        catch (...)
        {
            memo.erase(it);
            throw;
        }
    }
    return it->second;
}
static string firstDifference(const string& a, const string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { i++; }
    const size_t from = i > 60 ? i - 60 : 0;
    return "..." + a.substr(from, 200) + "\ninstead of\n..." + b.substr(from, 200);
}
// all interleavings of the construction, the steps and the destruction of two instances
static void sideBySide(const Role& a, const Role& b)
{
    note(a.show() + " beside " + b.show());
    const Role r[2] = {a, b};
    const vector<string>* want[2] = {&alone(a), &alone(b)};
    forked([&] {
        ed::quietLogs();
        World w;
        std::unique_ptr<Inst> x[2];
        int at[2] = {0, 0}; // 0: not yet there, 1..STEPS: steps done + 1, STEPS + 1: gone
        string order;
        // (constructed together: a construction is a step of its own only in the middle of the other's life)
        while (at[0] <= STEPS || at[1] <= STEPS)
        {
            int t;
            if (at[0] > STEPS) { t = 1; }
            else if (at[1] > STEPS) { t = 0; }
            else { t = choose(2); }
            order += static_cast<char>('A' + t);
            addTransitions(1);
            if (at[t] == 0) { x[t] = kinds2()[r[t].kind].make(w, r[t].db, r[t].variant); }
            else
            {
                const int i = at[t] - 1;
                string g;
                try { g = x[t]->step(i); }
                catch (const Failure&) { throw; }
                catch (const std::exception& e) { fail("exception", order + " (" + a.show() + " beside " + b.show() + ") throws " + e.what()); }
                const string& y = (*want[t])[static_cast<size_t>(i)];
                MC_REQUIRE(g == y, "influence", "in the order " + order + " step " + std::to_string(i + 1) + " of " + (t ? b : a).show() + ", beside " + (t ? a : b).show() + ", gives\n" + firstDifference(g, y));
            }
            if (++at[t] > STEPS) { x[t].reset(); }
        }
        addStates(1);
        forkDistinct(hashStr(order, hashStr(a.show() + b.show())));
    });
}
// messages one after the other through one instance give what a new one gives
static string fresh1(int comp, int db, int n)
{
    ed::quietLogs();
    World w;
    switch (comp)
    {
    case 0: { Decoding d(w, db, {}, true); return d.one(message(db, n)); }
    case 1: { Commanding c(w, db, 0); return c.one(commandText(db, n % 4), n / 4 ? ENCODE_FORMAT::BINARY : ENCODE_FORMAT::ASCII); }
    default: return "";
    }
}
static string feed(Parser& p, const string& in)
{
    string s = fmtf("%zu\n", p.Write(reinterpret_cast<const unsigned char*>(in.data()), in.size()));
    for (int k = 0; k < 40; k++)
    {
        MessageDataStruct d;
        MetaDataStruct m;
        const STATUS st = p.Read(d, m, true);
        s += showOut(st, d, m) + "\n";
        if (st == STATUS::BUFFER_EMPTY) { break; }
    }
    return s;
}
static string feed(RxConfigHandler& h, const string& in)
{
    string s = fmtf("%zu\n", h.Write(reinterpret_cast<const unsigned char*>(in.data()), static_cast<uint32_t>(in.size())));
    for (int k = 0; k < 20; k++)
    {
        MessageDataStruct a, b;
        MetaDataStruct m, e;
        const STATUS st = h.Convert(a, m, b, e, ENCODE_FORMAT::JSON);
        s += fmtf("%d ", static_cast<int>(st));
        if (st == STATUS::SUCCESS) { s += printable(string(reinterpret_cast<char*>(a.pucMessage), a.uiMessageLength)) + " / " + printable(string(reinterpret_cast<char*>(b.pucMessage), b.uiMessageLength)) + showMeta(m) + showMeta(e) + "\n"; }
        if (st == STATUS::BUFFER_EMPTY) { break; }
    }
    return s;
}
static string configMessage(int db, int n)
{
    switch (n)
    {
    case 0: return config(db, 0);
    case 1: return config(db, 1);
    case 2: return bin(128, "\x01\x02");
    case 3: return text(db, 0, 0, BIN);
    case 4: return bin(128, [] { const string u = head(999, 1, 1, 0) + "\x07"; return u + le(bld::crc32(u) ^ 0xFFFFFFFF, 4); }());
    default: return bld::ascii(asciiHeader("RXCONFIGA") + [&] {
        const string t = text(db, 1, 1, ASC), inner = t.substr(0, t.find('*'));
        return inner + fmtf("*%08x", bld::crc32(inner.substr(1)) ^ 0xFFFFFFFFu);
    }());
    }
}
enum Comp { CODEC, COMMANDER, PARSER, HANDLER, FRAMER, COMPS };
static const char* const COMP[] = {"decoders and encoder", "commander", "parser", "configuration handler", "framer"};
static const int ITEMS[] = {MSGS, 8, MSGS + 2, 6, MSGS};
static string parserMessage(int db, int n) { return n < MSGS ? message(db, n) : n == MSGS ? config(db, 1) : "\r\n<OK\r\n"; }
static string feed(Framer& f, const string& in)
{
    string s = fmtf("%zu\n", static_cast<size_t>(f.Write(reinterpret_cast<const unsigned char*>(in.data()), static_cast<uint32_t>(in.size()))));
    vector<unsigned char> buf(4096);
    for (int k = 0; k < 20; k++)
    {
        MetaDataStruct m;
        const STATUS st = f.GetFrame(buf.data(), static_cast<uint32_t>(buf.size()), m);
        s += fmtf("%d ", static_cast<int>(st));
        if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN) { break; }
        s += printable(string(reinterpret_cast<char*>(buf.data()), m.uiLength)) + showMeta(m) + "\n";
    }
    return s + fmtf("rest %u", f.Flush(buf.data(), static_cast<uint32_t>(buf.size())));
}
struct Reused
{
    World w;
    int comp, db;
    std::unique_ptr<Decoding> d;
    std::unique_ptr<Commanding> c;
    std::unique_ptr<Parser> p;
    std::unique_ptr<RxConfigHandler> h;
    std::unique_ptr<Framer> f;
    Reused(int k, int n, bool keep) : comp(k), db(n)
    {
        ed::quietLogs();
        if (k == CODEC) { d.reset(new Decoding(w, n, {}, true)); d->keep = keep; }
        if (k == COMMANDER) { c.reset(new Commanding(w, n, 0)); }
        if (k == PARSER) { p.reset(new Parser(w.get(n))); p->SetEncodeFormat(ENCODE_FORMAT::ASCII); p->SetReturnUnknownBytes(true); p->SetIgnoreAbbreviatedAsciiResponses(keep); }
        if (k == HANDLER) { h.reset(new RxConfigHandler(w.get(n))); }
        if (k == FRAMER) { f.reset(new Framer); f->SetReportUnknownBytes(true); }
    }
    string one(int i)
    {
        switch (comp)
        {
        case CODEC: return d->one(message(db, i));
        case COMMANDER: return c->one(commandText(db, i % 4), i / 4 ? ENCODE_FORMAT::BINARY : ENCODE_FORMAT::ASCII);
        case PARSER: return feed(*p, parserMessage(db, i));
        case HANDLER: return feed(*h, configMessage(db, i));
        default: return feed(*f, message(db, i));
        }
    }
};
static const string& aloneItem(int comp, int db, bool keep, int i)
{
    static std::map<std::tuple<int, int, bool, int>, string> memo;
    const auto k = std::tuple(comp, db, keep, i);
    const auto it = memo.find(k);
    if (it != memo.end()) { return it->second; }
    const string s = inChild([&] { return Reused(comp, db, keep).one(i); });
    return memo.emplace(k, s).first->second;
}
static void reuse(int comp, int db, bool keep, int first, int depth)
{
    for (int i = 0; i < ITEMS[comp]; i++) { (void)aloneItem(comp, db, keep, i); }
    note(string(COMP[comp]) + fmtf(" on database %d, results %s", db, keep ? "in the same objects" : "in new objects"));
    forked([&] {
        Reused r(comp, db, keep);
        string h;
        for (int i = 0; i < depth; i++)
        {
            const int n = i ? choose(ITEMS[comp]) : first;
            h += fmtf(" %d", n);
            addTransitions(1);
            string g;
            try { g = r.one(n); }
            catch (const Failure&) { throw; }
            catch (const std::exception& e) { fail("exception", string(COMP[comp]) + h + " throws " + e.what()); }
            const string& want = aloneItem(comp, db, keep, n);
            MC_REQUIRE(g == want, "reuse", string(COMP[comp]) + fmtf(" on database %d (results %s) after the messages", db, keep ? "in the same objects" : "in new objects") + h + ": the last one gives\n" + firstDifference(g, want));
        }
        addStates(1);
        forkDistinct(hashStr(h, hashStr(COMP[comp]) + static_cast<uint64_t>(db * 2 + keep)));
    });
}
// on threads of their own
static sched::Options options(int preemptions, bool atomics)
{
    sched::Options o{};
    o.choose = [](int n) { return choose(n); };
    o.fatal = [](const char* k, const char* m) {
        note("schedule: " + string(sched::path()));
        forkdetail::finish(k, m);
    };
    o.preemptions = preemptions;
    o.atomics = atomics;
    return o;
}
static void onThreads(const vector<Role>& roles, int preemptions, bool atomics, bool first)
{
    string what;
    vector<const vector<string>*> want;
    for (auto& r : roles)
    {
        what += (what.empty() ? "" : " || ") + r.show();
        want.push_back(&alone(r));
        for (int v = 0; v < 2; v++) { for (int d = 0; d < 2; d++) { (void)text(d, v, 0, BIN); } }
    }
    note("threads: " + what);
    forked([&] {
        if (!first) { ed::quietLogs(); }
        World w; // read by all
        for (auto& r : roles) { w.get(r.db); }
        vector<vector<string>> got(roles.size());
        vector<string> threw(roles.size());
        for (auto& g : got) { g.resize(STEPS); }
        sched::begin(options(preemptions, atomics));
        {
            vector<std::thread> ts;
            for (size_t t = 0; t < roles.size(); t++)
            {
                ts.emplace_back([&, t] {
                    try
                    {
                        auto x = kinds2()[roles[t].kind].make(w, roles[t].db, roles[t].variant);
                        for (int i = 0; i < STEPS; i++) { got[t][static_cast<size_t>(i)] = x->step(i); }
                    }
                    catch (const std::exception& e) { threw[t] = e.what(); }
                });
            }
            for (auto& t : ts) { t.join(); }
        }
        sched::end();
        const auto c = sched::counts();
        addTransitions(c.switches);
        addStates(1);
        stat("scheduling points", c.points);
        stat("synchronisation operations", c.syncs);
        stat("memory accesses checked", c.accesses - c.unchecked);
        stat("memory accesses not checked", c.unchecked);
        note("schedule: " + string(sched::path()));
        forkDistinct(hashStr(choicesStr(ctl.c), hashStr(what)));
        for (size_t t = 0; t < roles.size(); t++)
        {
            MC_REQUIRE(threw[t].empty(), "exception", what + ": thread " + std::to_string(t) + " throws " + threw[t]);
            for (size_t i = 0; i < STEPS; i++)
            {
                MC_REQUIRE(got[t][i] == (*want[t])[i], "influence", what + fmtf(": step %zu of thread %zu gives\n", i + 1, t) + firstDifference(got[t][i], (*want[t])[i]));
            }
        }
    });
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P23";
    ck.level = "model_checking";
    ck.rule = "Every step of an instance gives, beside any other instance (in every interleaving of their constructions, steps and ends) and on a thread of its own beside others that read the same database, exactly what it gives alone in a fresh process; "
              "every message through a re-used instance gives what it gives through a new one; no thread schedule has a data race.";
    ck.assumptions = {"an instance is used by one thread at a time; the database is not edited while it is shared", "message counters and the reference state of a decompressor or parser are meant to accumulate and are compared only with the same history",
                      "data races are looked for in the library's own code, not within libspdlog.so and libfmt.so"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    const bool deep = ck.thorough();
    const auto& K = kinds2();
    for (size_t a = 0; a < K.size(); a++)
    {
        for (size_t b = a; b < K.size(); b++)
        {
            for (int v = 0; v < 2; v++)
            {
                for (int d = 0; d < 2; d++)
                {
                    const Role x{a, 0, 0}, y{b, d, v};
                    if (!deep && a != b && v == 0) { continue; }
                    ck.unit(x.show() + " beside " + y.show(), [=] { sideBySide(x, y); });
                    if (deep && a != b) { const Role p{a, d, v}, q{b, 0, 0}; ck.unit(p.show() + " beside " + q.show() + " (2)", [=] { sideBySide(p, q); }); }
                }
            }
        }
    }
    for (int c = 0; c < COMPS; c++)
    {
        for (int db = 0; db < 2; db++)
        {
            for (int keep = 0; keep < 2; keep++)
            {
                if (keep && c != CODEC && c != PARSER) { continue; }
                for (int f = 0; f < ITEMS[c]; f++)
                {
                    ck.unit(fmtf("%s on database %d%s from message %d", COMP[c], db, keep ? " (same objects)" : "", f), [=] { reuse(c, db, keep != 0, f, deep ? 4 : 3); });
                }
            }
        }
    }
    for (size_t a = 0; a < K.size(); a++)
    {
        for (size_t b = a; b < K.size(); b++)
        {
            if (b + 1 == K.size() || (a != b && b + 2 == K.size() && string(K[a].name) != "decoder")) { continue; } // (loading starts threads itself: once is enough)
            const bool nested = string(K[b].name) == "loader";
            if (nested && a == b && !deep) { continue; }
            const vector<Role> two = {{a, 0, 0}, {b, 0, 1}};
            const int bound = nested ? 0 : deep ? 2 : 1;
            ck.unit("threads " + two[0].show() + " || " + two[1].show(), [=] { onThreads(two, bound, false, false); });
            if (a == b)
            {
                ck.unit("threads " + two[0].show() + " || " + two[1].show() + " (first use)", [=] { onThreads(two, bound, false, true); });
                const vector<Role> same = {{a, 0, 0}, {a, 0, 0}};
                ck.unit("threads " + same[0].show() + " twice", [=] { onThreads(same, bound, false, false); });
                const vector<Role> other = {{a, 0, 0}, {a, 1, 0}};
                ck.unit("threads " + other[0].show() + " || " + other[1].show(), [=] { onThreads(other, nested ? 0 : 1, false, false); });
            }
        }
    }
    return runCheck(ck, argc, argv);
}
