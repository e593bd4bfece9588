// P12: encoding stays inside the output buffer, is deterministic, and reports extents, length and checksum correctly.
#include "corpus.hpp"

#include <simdjson.h>
using namespace co;

static const F U8 = {"u8", "SIMPLE", "UCHAR", 1, "%UB"}, U32 = {"u32", "SIMPLE", "ULONG", 4, "%lu"}, U16 = {"u16", "SIMPLE", "USHORT", 2, "%hu"};

struct Out
{
    const char* name;
    HEADER_FORMAT h;
    ENCODE_FORMAT e;
    bool shortHdr;
};
static const Out OUTS[] = {
    {"ASCII", HEADER_FORMAT::ASCII, ENCODE_FORMAT::ASCII, false},
    {"short ASCII", HEADER_FORMAT::SHORT_ASCII, ENCODE_FORMAT::ASCII, true},
    {"abbreviated ASCII", HEADER_FORMAT::ABB_ASCII, ENCODE_FORMAT::ABBREV_ASCII, false},
    {"short abbreviated ASCII", HEADER_FORMAT::SHORT_ABB_ASCII, ENCODE_FORMAT::ABBREV_ASCII, true},
    {"binary", HEADER_FORMAT::BINARY, ENCODE_FORMAT::BINARY, false},
    {"short binary", HEADER_FORMAT::SHORT_BINARY, ENCODE_FORMAT::BINARY, true},
    {"flattened binary", HEADER_FORMAT::BINARY, ENCODE_FORMAT::FLATTENED_BINARY, false},
    {"short flattened binary", HEADER_FORMAT::SHORT_BINARY, ENCODE_FORMAT::FLATTENED_BINARY, true},
    {"JSON", HEADER_FORMAT::JSON, ENCODE_FORMAT::JSON, false},
};

// One encoding into exactly `size` bytes that start `off` bytes behind an aligned address; everything around them is
// guarded: by the allocation's end behind, by a pattern in front.
struct Shot
{
    STATUS st = STATUS::UNKNOWN;
    string msg; // what the call reported as its message
    size_t hdr = 0, hdrLen = 0, body = 0, bodyLen = 0;
};
static Shot shoot(const Codec& c, const Codec::Decoded& d, const Out& o, size_t size, size_t off, unsigned char fill, const string& at, MessageDataStruct md = {})
{
    // operator new aligns to 16, so off is the address modulo 16
    std::unique_ptr<unsigned char[]> mem(new unsigned char[off + size]);
    memset(mem.get(), 0x5A, off);
    memset(mem.get() + off, fill, size);
    unsigned char* p = mem.get() + off;
    unsigned char* const given = p;
    Shot r;
    try { r.st = c.enc->Encode(&p, static_cast<uint32_t>(size), d.ih, d.cf, md, o.h, o.e); }
    catch (const std::exception& x) { fail(string("throws-") + o.name, at + "throws: " + x.what()); }
    addTransitions(1);
    MC_REQUIRE(p == given, "buffer-pointer", at + "moved the caller's buffer pointer");
    for (size_t i = 0; i < off; i++) { MC_REQUIRE(mem[i] == 0x5A, "before", at + "wrote in front of the buffer"); }
    if (r.st != STATUS::SUCCESS) { return r; }
    MC_REQUIRE(md.pucMessage == given, "message-start", at + "does not report the buffer as the start of the message");
    MC_REQUIRE(md.uiMessageLength <= size, "message-length", at + fmtf("reports %u bytes in a buffer of %zu", md.uiMessageLength, size));
    r.msg.assign(reinterpret_cast<char*>(md.pucMessage), md.uiMessageLength);
    MC_REQUIRE(md.pucMessageHeader >= given && md.pucMessageHeader + md.uiMessageHeaderLength <= given + md.uiMessageLength, "header-extent", at + "reports a header outside the message");
    MC_REQUIRE(md.pucMessageBody >= given && md.pucMessageBody + md.uiMessageBodyLength <= given + md.uiMessageLength, "body-extent", at + "reports a body outside the message");
    r.hdr = static_cast<size_t>(md.pucMessageHeader - given);
    r.hdrLen = md.uiMessageHeaderLength;
    r.body = static_cast<size_t>(md.pucMessageBody - given);
    r.bodyLen = md.uiMessageBodyLength;
    return r;
}

static void extents(const Shot& r, const Out& o, bool response, const string& at)
{
    const string& m = r.msg;
    const size_t n = m.size();
    if (o.e == ENCODE_FORMAT::JSON)
    {
        const string pre = "{\"header\": ", mid = ",\"body\": ";
        MC_REQUIRE(m.substr(0, pre.size()) == pre && r.hdr == pre.size(), "json-tiles", at + "the JSON header is not where it is reported: " + printable(m));
        MC_REQUIRE(m.substr(r.hdr + r.hdrLen, mid.size()) == mid && r.body == r.hdr + r.hdrLen + mid.size(), "json-tiles", at + "the JSON body is not where it is reported: " + printable(m));
        MC_REQUIRE(r.body + r.bodyLen + 1 == n && m.back() == '}', "json-tiles", at + "the JSON text does not end behind its body: " + printable(m));
        MC_REQUIRE(m[r.hdr] == '{' && m[r.hdr + r.hdrLen - 1] == '}' && m[r.body] == '{' && m[r.body + r.bodyLen - 1] == '}', "json-tiles", at + "header or body is not an object: " + printable(m));
        simdjson::dom::parser ps;
        simdjson::dom::element e;
        MC_REQUIRE(!ps.parse(m).get(e), "json-valid", at + "is not valid JSON: " + printable(m));
        return;
    }
    MC_REQUIRE(r.hdr == 0 && r.body == r.hdrLen && r.body + r.bodyLen == n, "tiles", at + fmtf("header %zu+%zu and body %zu+%zu do not tile the %zu bytes", r.hdr, r.hdrLen, r.body, r.bodyLen, n));
    switch (o.e)
    {
    case ENCODE_FORMAT::ASCII: {
        MC_REQUIRE(n > 12 && m.substr(n - 2) == "\r\n" && m[n - 11] == '*', "ascii-end", at + "does not end in a checksum: " + printable(m));
        MC_REQUIRE(m[0] == (o.shortHdr ? '%' : '#') && m[r.hdrLen - 1] == ';', "ascii-header", at + "header: " + printable(m));
        const string want = fmtf("%08x", bld::crc32(std::string_view(m).substr(1, n - 12)));
        MC_REQUIRE(m.substr(n - 10, 8) == want, "ascii-crc", at + "checksum " + m.substr(n - 10, 8) + " should be " + want);
        break;
    }
    case ENCODE_FORMAT::ABBREV_ASCII:
        MC_REQUIRE(n > 2 && m.substr(n - 2) == "\r\n" && m[0] == '<', "abb-end", at + "does not start with '<' and end in a line end: " + printable(m));
        if (response) { MC_REQUIRE(r.hdrLen == 1, "abb-response", at + "header of a response is not '<'"); }
        else { MC_REQUIRE(m.substr(r.hdrLen - 2, 2) == "\r\n" && m[r.hdrLen] == '<', "abb-header", at + "the header does not end its line: " + printable(m)); }
        break;
    default: {
        const size_t hl = o.shortHdr ? 12 : 28;
        MC_REQUIRE(r.hdrLen == hl && r.bodyLen >= 4, "binary-header", at + fmtf("header of %zu bytes, body of %zu", r.hdrLen, r.bodyLen));
        const size_t len = o.shortHdr ? static_cast<unsigned char>(m[3]) : static_cast<unsigned char>(m[8]) | static_cast<size_t>(static_cast<unsigned char>(m[9])) << 8;
        if (!o.shortHdr) { MC_REQUIRE(m[3] == 28, "binary-header", at + "header length byte"); }
        MC_REQUIRE(m.substr(0, 3) == (o.shortHdr ? "\xAA\x44\x13" : "\xAA\x44\x12"), "binary-header", at + "sync bytes");
        MC_REQUIRE(len == r.bodyLen - 4, "binary-length", at + fmtf("length field %zu for a body of %zu", len, r.bodyLen - 4));
        MC_REQUIRE(m.substr(n - 4) == bld::le(bld::crc32(std::string_view(m).substr(0, n - 4)), 4), "binary-crc", at + "checksum " + hex(m.substr(n - 4)));
    }
    }
}

static void same(const Shot& r, const Shot& ref, const string& at)
{
    MC_REQUIRE(r.msg == ref.msg, "depends", at + "gives " + hex(r.msg) + ", a large buffer " + hex(ref.msg));
    MC_REQUIRE(r.hdr == ref.hdr && r.hdrLen == ref.hdrLen && r.body == ref.body && r.bodyLen == ref.bodyLen, "depends-extents", at + "reports other extents than in a large buffer");
}

// Numbers are printed in place and need some room beyond the text they leave; a buffer that much larger must do.
static const size_t SLACK = 64;

static void judge(const Codec& c, const string& msg, bool sizes, bool response = false)
{
    Exact e(msg);
    Codec::Decoded d;
    try { c.decode(e.get(), e.n, d); }
    catch (const std::exception& x) { fail("decode-throws", string("decoding throws: ") + x.what() + " " + hex(msg)); }
    MC_REQUIRE(d.st == STATUS::SUCCESS, "decode", fmtf("decoding returned status %d: ", static_cast<int>(d.st)) + hex(msg));
    for (const Out& o : OUTS)
    {
        const string to = string("encoding ") + (static_cast<unsigned char>(msg[0]) == 0xAA ? hex(msg) : printable(msg)) + " to " + o.name + ": ";
        const Shot ref = shoot(c, d, o, 65536 + 1024, 0, 0, to);
        if (o.shortHdr && o.e != ENCODE_FORMAT::ASCII && o.e != ENCODE_FORMAT::ABBREV_ASCII && ref.st == STATUS::UNSUPPORTED) { continue; } // longer than the header can say
        MC_REQUIRE(ref.st == STATUS::SUCCESS, "status", to + fmtf("status %d with a large buffer", static_cast<int>(ref.st)));
        extents(ref, o, response, to);
        note(to + fmtf("%zu bytes", ref.msg.size()));
        const size_t n = ref.msg.size();
        MessageDataStruct stale;
        unsigned char junk[4] = {9, 9, 9, 9};
        stale.pucMessage = stale.pucMessageHeader = stale.pucMessageBody = junk;
        stale.uiMessageLength = stale.uiMessageHeaderLength = stale.uiMessageBodyLength = 3;
        auto one = [&](size_t size, size_t off, unsigned char fill, bool old) {
            const string at = to + fmtf("buffer of %zu of %zu bytes at offset %zu filled with %02x: ", size, n, off, fill);
            const Shot r = shoot(c, d, o, size, off, fill, at, old ? stale : MessageDataStruct{});
            if (r.st == STATUS::SUCCESS)
            {
                MC_REQUIRE(size >= n, "too-small", at + "succeeds");
                same(r, ref, at);
            }
            else
            {
                MC_REQUIRE(r.st == STATUS::BUFFER_FULL, "full-status", at + fmtf("status %d", static_cast<int>(r.st)));
                MC_REQUIRE(size < n + SLACK, "too-large", at + "reports a full buffer");
            }
        };
        if (sizes) { for (size_t s = 0; s <= n + 2; s++) { one(s, s % 4, s % 3 ? 0xFF : 0x00, s & 1); } }
        for (size_t off = 0; off < 8; off++)
        {
            one(n + SLACK, off, off & 1 ? 0xEE : 0xFF, off & 2);
            one(n - 1, off, 0xEE, false);
        }
    }
}
static void judge(const Codec& c, const Schema& s, const Body& b, bool sizes)
{
    judge(c, c.message(s, BIN, c.body(s, BIN, b)), sizes);
    judge(c, c.message(s, ASC, c.body(s, ASC, b)), false);
    addStates(1);
    distinct(hashStr(s.name + show(b)));
}

static void kindUnit(size_t ki, bool all)
{
    static std::map<size_t, Codec*> cs;
    Codec*& c = cs[ki];
    const Kind& k = KINDS[ki];
    auto arr = [&](const char* t, int n) { F a = k.f; a.type = t; a.arrayLength = n; return a; };
    const bool arrays = k.f.type != "ENUM" && k.f.dt != "BOOL"; // arrays of BOOL: known finding of P11
    if (!c)
    {
        vector<vector<F>> fs = {{k.f}, {U8, k.f, U32}, {U8, k.f, {"tail", "STRING", "CHAR", 1, "%s", "", 32}}};
        if (arrays) { fs.push_back({U8, arr("FIXED_LENGTH_ARRAY", 3)}); fs.push_back({U8, arr("VARIABLE_LENGTH_ARRAY", 3), named(U8, "after")}); }
        c = new Codec(fs);
    }
    const size_t form = static_cast<size_t>(choose(static_cast<int>(c->schemas.size())));
    const Schema& s = c->schemas[form];
    auto value = [&] {
        if (all) { return pick(k.v); }
        const int i = choose(3); // the first, the middle and the last of the boundary values
        return k.v[i == 0 ? 0 : i == 1 ? k.v.size() / 2 : k.v.size() - 1];
    };
    switch (form)
    {
    case 0: judge(*c, s, {{{value()}, "", {}}}, true); break;
    case 1: judge(*c, s, {{{7}, "", {}}, {{value()}, "", {}}, {{0x01020304}, "", {}}}, true); break;
    case 2: judge(*c, s, {{{7}, "", {}}, {{value()}, "", {}}, {{}, string(static_cast<size_t>(choose(5)), 'z'), {}}}, true); break;
    case 3: { const uint64_t v = value(); judge(*c, s, {{{7}, "", {}}, {{v, k.v[0], v}, "", {}}}, true); break; }
    default: {
        Val x;
        const int n = choose(4);
        if (n) { const uint64_t v = value(); for (int i = 0; i < n; i++) { x.n.push_back(v); } }
        judge(*c, s, {{{7}, "", {}}, x, {{8}, "", {}}}, true);
    }
    }
}

// every pair (thorough: triple) of representative fields
static void seqUnit(size_t first, int len, bool sizes)
{
    static std::map<size_t, Codec*> cs;
    const auto& R = reps();
    const size_t m = R.size();
    Codec*& c = cs[first * 8 + static_cast<size_t>(len)];
    size_t total = 1;
    for (int i = 1; i < len; i++) { total *= m; }
    auto digits = [&](size_t x) { vector<size_t> d{first}; for (int i = 1; i < len; i++) { d.push_back(x % m); x /= m; } return d; };
    if (!c)
    {
        vector<vector<F>> fs;
        for (size_t x = 0; x < total; x++) { vector<F> f; int i = 0; for (size_t d : digits(x)) { f.push_back(named(R[d].f, fmtf("f%d", i++).c_str())); } fs.push_back(f); }
        c = new Codec(fs);
    }
    const size_t x = static_cast<size_t>(choose(static_cast<int>(total)));
    Body b;
    for (size_t d : digits(x)) { b.push_back(pick(R[d].v)); }
    judge(*c, c->schemas[x], b, sizes);
}

// rows around every representative field, 0 to 3 of them, and rows of rows
static void rowsUnit(size_t p)
{
    static std::map<size_t, Codec*> cs;
    const auto& R = reps();
    Codec*& c = cs[p];
    if (!c)
    {
        const F in = named(R[p].f, "in");
        c = new Codec({{rowsOf("r", {in, U8}), U16}, {U8, rowsOf("r", {U8, in})}, {rowsOf("r", {rowsOf("rr", {in}, 2), U8}), U8}});
    }
    const size_t form = static_cast<size_t>(choose(3));
    const int n = choose(4);
    auto v = [&] { return pick(R[p].v); };
    Val rows;
    for (int i = 0; i < n; i++)
    {
        if (form == 0) { rows.rows.push_back({v(), {{static_cast<uint64_t>(i)}, "", {}}}); }
        else if (form == 1) { rows.rows.push_back({{{static_cast<uint64_t>(i)}, "", {}}, v()}); }
        else { Val rr; for (int j = choose(3); j > 0; j--) { rr.rows.push_back({R[p].v.back()}); } rows.rows.push_back({rr, {{5}, "", {}}}); }
    }
    if (form == 1) { judge(*c, c->schemas[form], {{{1}, "", {}}, rows}, true); }
    else { judge(*c, c->schemas[form], {rows, {{9}, "", {}}}, true); }
}

static void stringUnit()
{
    static Codec* c = nullptr;
    const F S = {"s", "STRING", "CHAR", 1, "%s", "", 64};
    if (!c) { c = new Codec({{S}, {U8, S, U32}, {S, named(S, "t"), U8}, {U8, rowsOf("r", {S, U8}), U16}}); }
    const size_t form = static_cast<size_t>(choose(4));
    const string alphabet = "a\\\t";
    auto str = [&] { const int n = choose(10); const char ch = n ? alphabet[static_cast<size_t>(choose(3))] : 'a'; return Val{{}, string(static_cast<size_t>(n), ch), {}}; };
    const Schema& s = c->schemas[form];
    switch (form)
    {
    case 0: judge(*c, s, {str()}, true); break;
    case 1: judge(*c, s, {{{7}, "", {}}, str(), {{77}, "", {}}}, true); break;
    case 2: { Val a = str(), b = str(); judge(*c, s, {a, b, {{1}, "", {}}}, false); break; }
    default: { Val r; for (int n = choose(3); n > 0; n--) { r.rows.push_back({str(), {{1}, "", {}}}); } judge(*c, s, {{{1}, "", {}}, r, {{2}, "", {}}}, false); }
    }
}

// bodies around the lengths their headers can state
static void limitUnit(size_t lo, size_t hi)
{
    static Codec* c = nullptr;
    const F A = {"v", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%Z", "", 70000};
    if (!c) { c = new Codec({{A}}); }
    const Schema& s = c->schemas[0];
    const size_t bytes = lo + static_cast<size_t>(choose(static_cast<int>(hi - lo + 1))); // of the binary body, a four byte length in front
    Val x;
    for (size_t i = 4; i < bytes; i++) { x.n.push_back(i & 255); }
    const string text = c->message(s, ASC, c->body(s, ASC, {x}));
    Exact e(text);
    Codec::Decoded d;
    c->decode(e.get(), e.n, d);
    MC_REQUIRE(d.st == STATUS::SUCCESS, "decode", fmtf("decoding %zu values returned status %d", x.n.size(), static_cast<int>(d.st)));
    for (const Out& o : OUTS)
    {
        const bool flat = o.e == ENCODE_FORMAT::FLATTENED_BINARY;
        const size_t body = flat ? 70004 : bytes;
        const bool bin = o.e == ENCODE_FORMAT::BINARY || flat;
        const bool fits = !bin || body <= (o.shortHdr ? 255u : 65535u);
        const string at = fmtf("encoding %zu body bytes to %s: ", body, o.name);
        const Shot r = shoot(*c, d, o, 1 << 20, 0, 0, at);
        if (!fits)
        {
            MC_REQUIRE(r.st != STATUS::SUCCESS, "long-length", at + "succeeds although the header can not state the length");
            continue;
        }
        MC_REQUIRE(r.st == STATUS::SUCCESS, "status", at + fmtf("status %d", static_cast<int>(r.st)));
        extents(r, o, false, at);
        for (size_t size : {r.msg.size() - 1, r.msg.size(), r.msg.size() + SLACK})
        {
            const Shot t = shoot(*c, d, o, size, 1, 0xFF, at);
            if (t.st == STATUS::SUCCESS) { same(t, r, at); }
            MC_REQUIRE((t.st == STATUS::SUCCESS) ? size >= r.msg.size() : t.st == STATUS::BUFFER_FULL && size < r.msg.size() + SLACK, "full-status", at + fmtf("status %d with %zu bytes of %zu", static_cast<int>(t.st), size, r.msg.size()));
        }
    }
    addStates(1);
}

// responses in every format they arrive in, messages without fields, unusual widths
static void responseUnit()
{
    static Codec* c = nullptr;
    if (!c) { c = new Codec({{U32}}); }
    const char* texts[] = {"OK", "ERROR:Message invalid, bad field", "ERROR:Checksum", "ERROR:something else", "ERROR:Invalid Message. Field = 3"};
    const uint32_t ids[] = {1, 5, 6, 0, 4};
    const int i = choose(5);
    const Schema& s = c->schemas[0];
    const string t = texts[i];
    switch (choose(3))
    {
    case 0: {
        const string body = bld::le(ids[i], 4) + t;
        string m = c->message(s, BIN, body);
        m.resize(m.size() - 4);
        m[6] = static_cast<char>(0x80);
        judge(*c, bld::withCrc(m), true, true);
        break;
    }
    case 1: judge(*c, bld::ascii(asciiHeader(s.name + "R") + t), true, true); break;
    default: judge(*c, "<" + t + "\r\n", true, true);
    }
    addStates(1);
}
static void emptyUnit()
{
    static Codec* c = nullptr;
    if (!c) { c = new Codec({{}, {rowsOf("r", {U8})}}); }
    const Schema& s = c->schemas[static_cast<size_t>(choose(2))];
    if (s.f.empty()) { judge(*c, c->message(s, BIN, ""), true); }
    else { judge(*c, s, {{}}, true); }
    addStates(1);
}
static void widthUnit()
{
    static Codec* c = nullptr;
    static const char* conv[] = {"%15.3lf", "%16.3lf", "%17.9lf", "%20.10lf", "%40.1lf", "%0.1lf", "%1.40lf", "%300.3lf", "%310.3lf", "%.120le", "%999.999lg"};
    if (!c)
    {
        vector<vector<F>> fs;
        for (auto cv : conv) { fs.push_back({{"d", "SIMPLE", "DOUBLE", 8, cv}, U8}); }
        fs.push_back({{"d", "SIMPLE", "ULONG", 4, "%20lx"}, U8});
        fs.push_back({{"d", "SIMPLE", "UCHAR", 1, "%40x"}, U8});
        c = new Codec(fs);
    }
    const Schema& s = pick(c->schemas);
    const double vs[] = {0, 1, -1.5, 1e14, 1e15, 1e16, 1e17, 123456789012345678.0, 1e-15, 1e-16, 1e-17, 1e308, 2.3e-308, -1e300};
    string body;
    if (s.f[0].dt == "DOUBLE") { body = bld::le(bo::bitsD(vs[choose(14)]), 8) + "\x07"; }
    else { body = string(static_cast<size_t>(s.f[0].len), static_cast<char>(choose(2) ? 0xAB : 0)) + "\x07"; }
    judge(*c, c->message(s, BIN, body), true);
    addStates(1);
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P12";
    ck.level = "model_checking";
    ck.rule = "One execution is one definition with one value, decoded from binary and from ASCII by the real decoder; it is encoded to all nine output formats into exact-size allocations under AddressSanitizer, for every buffer size "
              "from 0 to the size needed plus two, with alternating prefills, address offsets and stale MessageDataStructs, and additionally at eight offsets just below and comfortably above the size. States are definitions with a "
              "value, transitions calls of Encode. Oracle: no byte outside the buffer (red zones behind, pattern in front), BUFFER_FULL below the size, success comfortably above it, the bytes and extents of the large-buffer result on "
              "every success, extents that tile the message, length field and checksum recomputed bitwise, valid JSON.";
    ck.assumptions = {"a buffer 64 bytes larger than the message must suffice; between the size and that, numbers printed in place may need more room and reporting a full buffer is accepted",
                      "arrays of BOOL are left out (known finding of P11)"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    quietLogs();
    const bool th = ck.thorough();
    for (size_t k = 0; k < KINDS.size(); k++) { ck.unit("kind/" + kindName(KINDS[k]), [k, th] { kindUnit(k, th); }); }
    for (size_t i = 0; i < reps().size(); i++)
    {
        ck.unit(fmtf("seq2/%zu", i), [i] { seqUnit(i, 2, true); });
        if (th) { ck.unit(fmtf("seq3/%zu", i), [i] { seqUnit(i, 3, false); }); }
        ck.unit(fmtf("rows/%zu", i), [i] { rowsUnit(i); });
    }
    ck.unit("strings", [] { stringUnit(); });
    ck.unit("limit/short", [] { limitUnit(248, 262); });
    ck.unit("limit/long", [] { limitUnit(65530, 65540); });
    ck.unit("responses", [] { responseUnit(); });
    ck.unit("empty", [] { emptyUnit(); });
    ck.unit("widths", [] { widthUnit(); });
    return runCheck(ck, argc, argv);
}
