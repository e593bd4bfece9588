// P10: headers survive decoding and re-encoding in every format.
#include "edie.hpp"

#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"

using namespace mc;
using namespace ed;
using namespace novatel::edie::oem;
using std::string;
using std::vector;

// ---------------------------------------------------------------- what a header says
enum Field { NAME, SIB, RSP, PORT, SEQ, IDLE, TSTAT, WEEK, MS, RXSTAT, CRC, SWV, FIELDS };
static const char* FIELD_NAME[] = {"message", "source", "response", "port", "sequence", "idle", "time status", "week", "milliseconds", "receiver status", "definition crc", "version"};
struct H
{
    uint32_t v[FIELDS] = {0, 0, 0, 32, 0, 80, 180, 2000, 123456, 0x02000000, 0x1234, 12816};
};
struct Msg
{
    uint32_t id;
    const char* name;
    bool def; // has a message definition; otherwise only a command
};
static const vector<Msg> MSGS = {{42, "BESTPOS", true}, {1, "LOG", false}, {100, "ALPHA", true}, {101, "SENSOR", true}, {102, "RX_STATUS", true}, {103, "GLOB", true}, {104, "AUX1", true}, {65535, "LAST", true}, {105, "RXSTATUS_1B", true}, {106, "R", true}};

// a port name for every address of one byte, and some beyond
static string portName(uint32_t p) { return p < 32 ? fmtf("NP_%u", p) : fmtf("COM%u_%u", p / 32, p % 32); }
static const vector<uint32_t> WIDE_PORTS = {256, 287, 1440, 1455, 65535, 0x01000020};

static vector<E> enums()
{
    vector<E> v = stdEnums();
    for (auto& e : v)
    {
        if (e.name == "PortAddress")
        {
            e.values.clear();
            for (uint32_t p = 0; p < 256; p++) { e.values.push_back({p, portName(p)}); }
            for (uint32_t p : WIDE_PORTS) { e.values.push_back({p, portName(p)}); }
        }
    }
    return v;
}
static vector<uint32_t> timeStatuses()
{
    vector<uint32_t> r;
    for (auto& e : stdEnums())
    {
        if (e.name == "GPSTimeStatus") { for (auto& x : e.values) { r.push_back(x.first); } }
    }
    return r;
}
static string tstatName(uint32_t t)
{
    for (auto& e : stdEnums())
    {
        if (e.name == "GPSTimeStatus") { for (auto& x : e.values) { if (x.first == t) { return x.second; } } }
    }
    return "UNKNOWN";
}

// ---------------------------------------------------------------- the documented renderings
enum Fmt { ASC, ABB, BIN, JSN, SASC, SABB, SBIN, FMTS };
static const char* FMT_NAME[] = {"ASCII", "abbreviated ASCII", "binary", "JSON", "short ASCII", "short abbreviated ASCII", "short binary"};
static const HEADER_FORMAT HF[] = {HEADER_FORMAT::ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::BINARY, HEADER_FORMAT::JSON, HEADER_FORMAT::SHORT_ASCII, HEADER_FORMAT::SHORT_ABB_ASCII, HEADER_FORMAT::SHORT_BINARY};
static const ENCODE_FORMAT EF[] = {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::JSON, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::BINARY};

static bool carries(int f, int field)
{
    switch (field)
    {
    case NAME: case WEEK: case MS: return true;
    case SIB: return f != SBIN;
    case RSP: return f == ASC || f == BIN || f == SASC;
    default: return f == ASC || f == ABB || f == BIN || f == JSN;
    }
}
static string secs(uint32_t ms) { return fmtf("%u.%03u", ms / 1000, ms % 1000); }
static void put(string& s, uint64_t v, int n) { for (int i = 0; i < n; i++) { s += static_cast<char>(v >> (8 * i)); } }
// length: of the payload, in the binary formats
static string render(int f, const H& h, uint32_t length)
{
    const Msg& m = MSGS[h.v[NAME]];
    const string sib = h.v[SIB] ? fmtf("_%u", h.v[SIB]) : "";
    const string full = string(m.name) + (h.v[RSP] ? "R" : "A") + sib, abb = m.name + sib;
    const string idle = fmtf("%u.%u", h.v[IDLE] / 2, h.v[IDLE] % 2 * 5);
    const char sp = f == ASC || f == SASC ? ',' : ' ';
    const string tail = string(1, sp) + portName(h.v[PORT]) + sp + fmtf("%u", h.v[SEQ]) + sp + idle + sp + tstatName(h.v[TSTAT]) + sp + fmtf("%u", h.v[WEEK]) + sp + secs(h.v[MS]) + sp +
                        fmtf("%08x", h.v[RXSTAT]) + sp + fmtf("%04x", h.v[CRC]) + sp + fmtf("%u", h.v[SWV]);
    switch (f)
    {
    case ASC: return "#" + full + tail + ";";
    case ABB: return "<" + abb + tail + "\r\n";
    case SASC: return "%" + full + "," + fmtf("%u", h.v[WEEK]) + "," + secs(h.v[MS]) + ";";
    case SABB: return "<" + abb + " " + fmtf("%u", h.v[WEEK]) + " " + secs(h.v[MS]) + "\r\n";
    case JSN:
        return "{\"message\": \"" + abb + "\",\"id\": " + fmtf("%u", m.id) + ",\"port\": \"" + portName(h.v[PORT]) + "\",\"sequence_num\": " + fmtf("%u", h.v[SEQ]) + ",\"percent_idle_time\": " + idle +
               ",\"time_status\": \"" + tstatName(h.v[TSTAT]) + "\",\"week\": " + fmtf("%u", h.v[WEEK]) + ",\"seconds\": " + secs(h.v[MS]) + ",\"receiver_status\": " + fmtf("%u", h.v[RXSTAT]) +
               ",\"HEADER_reserved1\": " + fmtf("%u", h.v[CRC]) + ",\"receiver_sw_version\": " + fmtf("%u", h.v[SWV]) + "}";
    case BIN: {
        string s = "\xAA\x44\x12\x1C";
        put(s, m.id, 2);
        put(s, h.v[SIB] | h.v[RSP] << 7, 1);
        put(s, h.v[PORT], 1);
        put(s, length, 2);
        put(s, h.v[SEQ], 2);
        put(s, h.v[IDLE], 1);
        put(s, h.v[TSTAT], 1);
        put(s, h.v[WEEK], 2);
        put(s, h.v[MS], 4);
        put(s, h.v[RXSTAT], 4);
        put(s, h.v[CRC], 2);
        put(s, h.v[SWV], 2);
        return s;
    }
    default: {
        string s = "\xAA\x44\x13";
        put(s, length, 1);
        put(s, m.id, 2);
        put(s, h.v[WEEK], 2);
        put(s, h.v[MS], 4);
        return s;
    }
    }
}
static string jsonShort(const H& h)
{
    const Msg& m = MSGS[h.v[NAME]];
    return "{\"message\": \"" + string(m.name) + (h.v[SIB] ? fmtf("_%u", h.v[SIB]) : "") + "\",\"id\": " + fmtf("%u", m.id) + ",\"week\": " + fmtf("%u", h.v[WEEK]) + ",\"seconds\": " + secs(h.v[MS]) + "}";
}
static string show(int f, const string& s) { return f == BIN || f == SBIN ? hex(s) : printable(s); }

// ---------------------------------------------------------------- the real thing
struct Real
{
    MessageDatabase::Ptr db;
    HeaderDecoder dec;
    Encoder enc;
    Real() : db(make()), dec(db), enc(db) {}
    static MessageDatabase::Ptr make()
    {
        vector<M> ms;
        for (auto& m : MSGS) { if (m.def) { ms.push_back({m.id, m.name, {{"a", "SIMPLE", "ULONG", 4, "%lu"}}}); } }
        return ParseJsonDb(dbJson(ms, enums()));
    }
};
static Real& real()
{
    static Real r;
    return r;
}
static const uint32_t LENGTH = 0x3A5;

static string encode(const IntermediateHeader& ih, int dst, HEADER_FORMAT as)
{
    static vector<unsigned char> buf(4096);
    memset(buf.data(), 0xEE, 512);
    unsigned char* p = buf.data();
    MessageDataStruct md;
    const STATUS st = real().enc.EncodeHeader(&p, 4096, ih, md, as, EF[dst]);
    MC_REQUIRE(st == STATUS::SUCCESS, "encode-status", fmtf("encoding to %s returned status %d", FMT_NAME[dst], static_cast<int>(st)));
    MC_REQUIRE(md.pucMessageHeader == buf.data(), "encode-extent", "header pointer is not the start of the buffer");
    return string(reinterpret_cast<char*>(md.pucMessageHeader), md.uiMessageHeaderLength);
}

// Decodes the header h given in format src; judges everything the decoder reports.
static IntermediateHeader decode(int src, const H& h, const string& text)
{
    const Msg& m = MSGS[h.v[NAME]];
    string in = src == JSN ? "{\"header\": " + text + ",\"body\": {}}" : text;
    string padded = in;
    if (src != JSN) { padded += "1,2,3*00000000\r\n                     "; }
    IntermediateHeader ih;
    ih.usSequence = 0xDEAD; // stale contents
    ih.ucMessageType = 0xFF;
    MetaDataStruct md;
    Exact e(padded);
    const STATUS st = real().dec.Decode(e.get(), ih, md);
    const string at = fmtf("%s header %s: ", FMT_NAME[src], show(src, text).c_str());
    MC_REQUIRE(st == STATUS::SUCCESS, "decode-status", at + fmtf("decoding returned status %d", static_cast<int>(st)));
    auto eq = [&](const char* key, uint64_t got, uint64_t want) { MC_REQUIRE(got == want, string(key) + "-" + FMT_NAME[src], at + fmtf("%s is %llu, expected %llu", key, (unsigned long long)got, (unsigned long long)want)); };
    auto has = [&](int f) { return carries(src, f); };
    eq("id", ih.usMessageId, m.id);
    if (has(SIB)) { eq("source", ih.ucMessageType & 31, h.v[SIB]); }
    else { eq("source", ih.ucMessageType & 31, 0); }
    eq("response", ih.ucMessageType >> 7, has(RSP) ? h.v[RSP] : 0);
    eq("week", ih.usWeek, h.v[WEEK]);
    MC_REQUIRE(std::fabs(ih.dMilliseconds - h.v[MS]) < 0.001, string("milliseconds-") + FMT_NAME[src], at + fmtf("milliseconds are %.6f", ih.dMilliseconds));
    if (has(PORT))
    {
        eq("port", ih.uiPortAddress, h.v[PORT]);
        eq("sequence", ih.usSequence, h.v[SEQ]);
        eq("idle", ih.ucIdleTime, h.v[IDLE]);
        eq("time status", ih.uiTimeStatus, h.v[TSTAT]);
        eq("receiver status", ih.uiReceiverStatus, h.v[RXSTAT]);
        eq("definition crc", ih.uiMessageDefinitionCrc, h.v[CRC]);
        eq("version", ih.usReceiverSwVersion, h.v[SWV]);
    }
    if (src == BIN) { eq("length", ih.usLength, LENGTH); }
    if (src == SBIN) { eq("length", ih.usLength, LENGTH & 255); }
    // the metadata says the same
    eq("metadata format", static_cast<uint64_t>(md.eFormat), static_cast<uint64_t>(HF[src]));
    eq("metadata id", md.usMessageId, m.id);
    eq("metadata source", md.ucSiblingId, has(SIB) ? h.v[SIB] : 0);
    eq("metadata response", md.bResponse, has(RSP) ? h.v[RSP] : 0);
    eq("metadata week", md.usWeek, h.v[WEEK]);
    MC_REQUIRE(md.dMilliseconds == h.v[MS], string("metadata-ms-") + FMT_NAME[src], at + fmtf("metadata milliseconds are %.6f", md.dMilliseconds));
    if (has(TSTAT)) { eq("metadata time status", static_cast<uint64_t>(md.eTimeStatus), h.v[TSTAT]); }
    if (has(CRC)) { eq("metadata crc", md.uiMessageCrc, h.v[CRC]); }
    if (src != JSN) { eq("metadata header length", md.uiHeaderLength, text.size()); }
    if (src == BIN) { eq("metadata payload length", md.uiBinaryMsgLength, LENGTH); }
    MC_REQUIRE(md.messageName == (m.def ? m.name : "UNKNOWN"), string("metadata-name-") + FMT_NAME[src], at + "metadata message name is " + md.messageName);
    addTransitions(1);
    return ih;
}

// can the header be written in the format at all, so that the text means this header
static bool valid(int f, const H& h)
{
    if ((f == BIN) && h.v[PORT] > 255) { return false; }
    if (!carries(f, RSP) && h.v[RSP]) { return false; } // a response in an abbreviated format or JSON has no marker
    return true;
}
// what arrives when only the fields that f carries are transported
static H through(int f, H h)
{
    const H dflt;
    for (int i = 0; i < FIELDS; i++) { if (!carries(f, i)) { h.v[i] = i == SIB || i == RSP ? 0 : dflt.v[i]; } }
    if (f == BIN) { h.v[PORT] &= 255; }
    return h;
}

static void judge(const H& h, int src)
{
    if (!valid(src, h)) { return; }
    const string text = render(src, h, LENGTH);
    if (tracing()) { note(fmtf("%s: %s", FMT_NAME[src], show(src, text).c_str())); }
    const IntermediateHeader ih = decode(src, h, text);
    const bool srcShort = src >= SASC;
    for (int dst = 0; dst < FMTS; dst++)
    {
        if (srcShort && dst < SASC) { continue; } // a short header does not have what a long one needs
        const H seen = through(src, h);
        string want = render(dst, seen, src == BIN ? LENGTH : 0), got = encode(ih, dst, HF[dst]);
        if (dst == SBIN && got.size() > 3) { want[3] = got[3]; } // filled in with the body
        if (dst == BIN && src != BIN && got.size() > 9) { want[8] = got[8]; want[9] = got[9]; }
        MC_REQUIRE(got == want, fmtf("encode-%s-%s", FMT_NAME[src], FMT_NAME[dst]),
                   fmtf("%s header %s encoded to %s is %s, expected %s", FMT_NAME[src], show(src, text).c_str(), FMT_NAME[dst], show(dst, got).c_str(), show(dst, want).c_str()));
        // and back
        if (!valid(dst, seen) && dst != BIN) { continue; }
        const H back = through(dst, seen);
        const IntermediateHeader again = decode(dst, back, dst == BIN || dst == SBIN ? render(dst, back, LENGTH) : got);
        const int home = src;
        if ((dst >= SASC) != srcShort) { continue; }
        const H last = through(dst, seen);
        string want2 = render(home, last, LENGTH), got2 = encode(again, home, HF[home]);
        if (home == SBIN && got2.size() > 3) { want2[3] = got2[3]; }
        if (home == BIN && got2.size() > 9) { want2[8] = got2[8]; want2[9] = got2[9]; }
        MC_REQUIRE(got2 == want2, fmtf("back-%s-%s", FMT_NAME[src], FMT_NAME[dst]),
                   fmtf("%s header %s by way of %s comes back as %s, expected %s", FMT_NAME[src], show(src, text).c_str(), FMT_NAME[dst], show(home, got2).c_str(), show(home, want2).c_str()));
        addTransitions(3);
    }
    if (srcShort || src == JSN || src == ASC)
    {
        const string got = encode(ih, JSN, HEADER_FORMAT::SHORT_ASCII), want = jsonShort(through(src, h));
        MC_REQUIRE(got == want, "encode-short-json", fmtf("%s header %s encoded to short JSON is %s, expected %s", FMT_NAME[src], show(src, text).c_str(), got.c_str(), want.c_str()));
    }
    addStates(1);
    distinct(hashStr(text));
    sample(fmtf("%s: %s", FMT_NAME[src], show(src, text).c_str()));
}

// ---------------------------------------------------------------- values
static vector<vector<uint32_t>> values(bool wide)
{
    vector<vector<uint32_t>> v(FIELDS);
    for (uint32_t i = 0; i < MSGS.size(); i++) { v[NAME].push_back(i); }
    for (uint32_t i = 0; i < 32; i++) { v[SIB].push_back(i); }
    v[RSP] = {0, 1};
    for (uint32_t i = 0; i < 256; i++) { v[PORT].push_back(i); }
    for (uint32_t p : WIDE_PORTS) { v[PORT].push_back(p); }
    v[SEQ] = {0, 1, 9, 10, 99, 255, 256, 32767, 32768, 65534, 65535};
    for (uint32_t i = 0; i < 256; i++) { v[IDLE].push_back(i); }
    v[TSTAT] = timeStatuses();
    v[WEEK] = {0, 1, 9, 10, 1023, 1024, 2047, 2048, 4095, 32768, 65534, 65535};
    v[MS] = {0, 1, 4, 9, 10, 99, 100, 250, 500, 999, 1000, 1001, 1005, 4350, 4353, 8190, 59999, 60000, 86399999, 86400000, 128001, 262143, 262144999, 524288001, 599999999, 604799998, 604799999, 604800000, 4294967295u};
    v[RXSTAT] = {0, 1, 0xF, 0x10, 0x02000000, 0x7FFFFFFF, 0x80000000u, 0xABCDEF01u, 0xFFFFFFFFu};
    v[CRC] = {0, 1, 0xF, 0x10, 0xFF, 0x100, 0xFFF, 0x1000, 0x7FFF, 0x8000, 0xABCD, 0xFFFF};
    v[SWV] = {0, 1, 9, 10, 255, 256, 12816, 32768, 65535};
    if (!wide)
    {
        v[PORT] = {0, 1, 6, 31, 32, 33, 63, 64, 160, 192, 255, 256, 1440};
        v[IDLE] = {0, 1, 2, 3, 19, 80, 199, 200, 201, 255};
        v[SIB] = {0, 1, 2, 9, 10, 15, 16, 30, 31};
    }
    return v;
}

static void pairUnit(int a, int b, int src)
{
    static const auto v = values(true);
    H h;
    h.v[a] = pick(v[static_cast<size_t>(a)]);
    h.v[b] = pick(v[static_cast<size_t>(b)]);
    if (tracing()) { note(fmtf("%s = %u, %s = %u", FIELD_NAME[a], h.v[a], FIELD_NAME[b], h.v[b])); }
    judge(h, src);
}
static void tripleUnit(int a, int b, int c, int src)
{
    static const auto v = values(false);
    H h;
    for (int f : {a, b, c}) { h.v[f] = pick(v[static_cast<size_t>(f)]); }
    judge(h, src);
}

// every millisecond of the given seconds through a text format
static void msUnit(int src, uint32_t s0, uint32_t s1, uint32_t step)
{
    for (uint32_t s = s0; s < s1; s += step)
    {
        for (uint32_t ms = 0; ms < 1000; ms++)
        {
            H h;
            h.v[MS] = s * 1000 + ms;
            const string text = render(src, h, LENGTH);
            const IntermediateHeader ih = decode(src, h, text);
            const int via[] = {src >= SASC ? SBIN : BIN, src};
            for (int dst : via)
            {
                string want = render(dst, through(src, h), 0), got = encode(ih, dst, HF[dst]);
                if (dst == BIN) { want[8] = got[8]; want[9] = got[9]; }
                if (dst == SBIN) { want[3] = got[3]; }
                MC_REQUIRE(got == want, fmtf("ms-%s-%s", FMT_NAME[src], FMT_NAME[dst]),
                           fmtf("%s header %s encoded to %s is %s, expected %s", FMT_NAME[src], show(src, text).c_str(), FMT_NAME[dst], show(dst, got).c_str(), show(dst, want).c_str()));
            }
        }
        addEvals(1000);
        addStates(1000);
        addTransitions(3000);
    }
    distinct(mix(s0, static_cast<uint64_t>(src)));
    sample(fmtf("every millisecond of second %u in %s", s0, FMT_NAME[src]));
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P10";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    ck.rule = "every header that differs from a base header in at most two of twelve fields (thorough: and in three, over boundary values), each field over its boundary values or whole domain "
              "(256 ports and six wider ones, 32 sources, 13 time statuses, 256 idle times, ten message names), given in seven formats: decoded fields and metadata, the encoding in every "
              "format, and the way back are compared with independently rendered headers; all 1000 millisecond fractions of a spread of seconds in the text formats. outcome = headers.";
    ck.assumptions = {"port names, time statuses and message names are those of the loaded database", "binary headers have the format bits of the message type clear, as receivers send them",
                      "a wide port is truncated to one byte by the binary format, as documented", "no message name begins with OK or ERROR"};
    quietLogs();
    real();
    for (int src = 0; src < FMTS; src++)
    {
        for (int a = 0; a < FIELDS; a++)
        {
            for (int b = a + 1; b < FIELDS; b++)
            {
                if (!carries(src, a) || !carries(src, b)) { continue; }
                ck.unit(fmtf("%s/%s+%s", FMT_NAME[src], FIELD_NAME[a], FIELD_NAME[b]), [=] { pairUnit(a, b, src); });
                for (int c = b + 1; c < FIELDS && ck.thorough(); c++)
                {
                    if (carries(src, c)) { ck.unit(fmtf("%s/%s+%s+%s", FMT_NAME[src], FIELD_NAME[a], FIELD_NAME[b], FIELD_NAME[c]), [=] { tripleUnit(a, b, c, src); }); }
                }
            }
        }
        if (src == BIN || src == SBIN) { continue; }
        const uint32_t blocks = 64, step = ck.thorough() ? 7 : 6047;
        for (uint32_t k = 0; k < blocks; k++)
        {
            const uint32_t s0 = 604800 / blocks * k, s1 = 604800 / blocks * (k + 1);
            ck.unit(fmtf("%s/ms/%02u", FMT_NAME[src], k), [=] { msUnit(src, s0 + k % 7, s1, step); });
        }
    }
    return runCheck(ck, argc, argv);
}
