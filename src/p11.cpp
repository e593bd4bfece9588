// P11: message bodies survive conversion between formats.
#include "corpus.hpp"

#include <functional>
using namespace co;

// ---------------------------------------------------------------- the judge
static void judge(const Codec& c, const Schema& s, const Body& b, bool text = true)
{
    for (int src = 0; src < FMTS; src++)
    {
        if (!text && src != BIN) { continue; }
        if ((src == ABB || src == SABB) && indentation(s.f, b)) { continue; }
        const string msg = c.message(s, src, c.body(s, src, b));
        if (src == SBIN && c.body(s, src, b).size() > 255) { continue; }
        if (tracing()) { note(fmtf("%s: %s", FMT_NAME[src], showFmt(src, msg).c_str())); }
        Exact e(msg);
        Codec::Decoded d;
        const string at = fmtf("%s %s: ", FMT_NAME[src], showFmt(src, msg).c_str());
        try { c.decode(e.get(), e.n, d); }
        catch (const std::exception& x) { fail(string("decode-throws-") + FMT_NAME[src], at + "decoding throws: " + x.what()); }
        MC_REQUIRE(d.st == STATUS::SUCCESS, string("decode-status-") + FMT_NAME[src], at + fmtf("decoding returned status %d", static_cast<int>(d.st)));
        const Body carried = src == BIN || src == SBIN ? b : bo::viaText(s.f, b, src == JSN, c.names);
        const Body got = readBody(d.cf, s.f, *d.cf.GetFieldInfo());
        MC_REQUIRE(show(canon(s.f, got)) == show(canon(s.f, carried)), string("values-") + FMT_NAME[src], at + "decoded as " + show(got) + ", expected " + show(carried));
        for (int dst = 0; dst < FMTS; dst++)
        {
            if (!text && dst != BIN) { continue; }
            if (shortFmt(src) && !shortFmt(dst)) { continue; }
            if (shortFmt(dst) && !shortFmt(src) && src != BIN) { continue; }
            const string want = c.body(s, dst, carried);
            if (dst == SBIN && want.size() > 255) { continue; }
            vector<unsigned char> buf(4096 + 4 * msg.size(), 0xEE);
            unsigned char* p = buf.data() + (reinterpret_cast<uintptr_t>(buf.data()) & 3 ? 4 - (reinterpret_cast<uintptr_t>(buf.data()) & 3) : 0);
            MessageDataStruct md;
            STATUS st;
            const string to = at + fmtf("encoding to %s ", FMT_NAME[dst]);
            try { st = c.enc->Encode(&p, static_cast<uint32_t>(buf.size() - 8), d.ih, d.cf, md, HF[dst], EF[dst]); }
            catch (const std::exception& x) { fail(fmtf("encode-throws-%s", FMT_NAME[dst]), to + "throws: " + x.what()); }
            MC_REQUIRE(st == STATUS::SUCCESS, fmtf("encode-status-%s", FMT_NAME[dst]), to + fmtf("returned status %d", static_cast<int>(st)));
            string out(reinterpret_cast<char*>(md.pucMessageBody), md.uiMessageBodyLength);
            string expect = want;
            switch (dst)
            {
            case ASC: case SASC: expect += "*" + fmtf("%08x", bld::crc32(std::string_view(reinterpret_cast<char*>(md.pucMessage) + 1, md.uiMessageLength - 1 - std::min<size_t>(md.uiMessageLength - 1, 11)))) + "\r\n"; break;
            case BIN: case SBIN:
                MC_REQUIRE(out.size() >= 4, "encode-short", to + "gives a body without checksum");
                expect += bld::le(bld::crc32(std::string_view(reinterpret_cast<char*>(md.pucMessage), md.uiMessageLength - 4)), 4);
                break;
            case ABB: case SABB:
                out = trimLines(out);
                expect = trimLines(expect);
                break;
            }
            MC_REQUIRE(out == expect, fmtf("encode-%s-%s", FMT_NAME[src], FMT_NAME[dst]), to + "gives " + showFmt(dst, out) + ", expected " + showFmt(dst, expect));
            addTransitions(1);
        }
    }
    addStates(1);
    distinct(mix(s.id, hashStr(show(b))));
    sample(s.name + " " + show(b));
}

// ---------------------------------------------------------------- units
static const F U8 = {"u8", "SIMPLE", "UCHAR", 1, "%UB"}, U32 = {"u32", "SIMPLE", "ULONG", 4, "%lu"}, U16 = {"u16", "SIMPLE", "USHORT", 2, "%hu"};

// one field of every kind with every boundary value, alone and between others
static void scalarUnit(size_t ki, bool all)
{
    static Codec* c = nullptr;
    if (!c)
    {
        vector<vector<F>> fs;
        for (auto& k : KINDS)
        {
            fs.push_back({k.f});
            fs.push_back({U8, k.f, U32});
            fs.push_back({k.f, U8, named(k.f, "w")});
            fs.push_back({U8, k.f, {"tail", "STRING", "CHAR", 1, "%s", "", 32}});
        }
        c = new Codec(fs);
    }
    const Kind& k = KINDS[ki];
    const int form = all && k.f.len > 1 ? 0 : choose(4);
    const Schema& s = c->schemas[ki * 4 + static_cast<size_t>(form)];
    uint64_t v;
    if (all) { v = static_cast<uint64_t>(choose(k.f.len == 1 ? 256 : 65536)); }
    else { v = pick(k.v); }
    const Val x{{v}, "", {}};
    switch (form)
    {
    case 0: judge(*c, s, {x}); break;
    case 1: judge(*c, s, {{{7}, "", {}}, x, {{0x01020304}, "", {}}}); break;
    case 2: judge(*c, s, {x, {{255}, "", {}}, {{pick(k.v)}, "", {}}}); break;
    default: judge(*c, s, {{{7}, "", {}}, x, {{}, "end", {}}}); break;
    }
}

// arrays of every kind
static void arrayUnit(size_t ki, int maxLen)
{
    static std::map<size_t, Codec*> cs;
    const Kind& k = KINDS[ki];
    Codec*& c = cs[ki];
    static const int N = 4; // fixed lengths 1..4
    if (!c)
    {
        vector<vector<F>> fs;
        for (int n = 1; n <= N; n++)
        {
            F a = k.f;
            a.type = "FIXED_LENGTH_ARRAY";
            a.arrayLength = n;
            fs.push_back({a});
            fs.push_back({U8, a, named(U8, "after")});
        }
        for (int lf : {4, 2, 1})
        {
            F a = k.f;
            a.type = "VARIABLE_LENGTH_ARRAY";
            a.arrayLength = 4;
            a.lenField = lf;
            fs.push_back({a});
            fs.push_back({U8, a, named(U8, "after")});
        }
        c = new Codec(fs);
    }
    const size_t form = static_cast<size_t>(choose(static_cast<int>(c->schemas.size())));
    const Schema& s = c->schemas[form];
    const bool wrapped = form & 1;
    const F& a = s.f[wrapped ? 1 : 0];
    const int n = a.type == "FIXED_LENGTH_ARRAY" ? a.arrayLength : choose(5);
    // elements that differ in length and leading characters
    const vector<uint64_t> v = {k.v.front(), k.v.back(), k.v[k.v.size() / 2], k.v[k.v.size() / 3], k.v[k.v.size() * 2 / 3]};
    Val x;
    for (int i = 0; i < n; i++) { x.n.push_back(i < maxLen ? v[static_cast<size_t>(choose(5))] : v[static_cast<size_t>(i) % 5]); }
    if (wrapped) { judge(*c, s, {{{7}, "", {}}, x, {{9}, "", {}}}); }
    else { judge(*c, s, {x}); }
}

// byte arrays in hexadecimal, escaped and quoted form
static void bytesUnit(const char* cv, const char* dt, int maxN, const string& alphabet)
{
    static std::map<string, Codec*> cs;
    Codec*& c = cs[string(cv) + dt + fmtf("%d", maxN)];
    if (!c)
    {
        vector<vector<F>> fs;
        for (int n = 1; n <= maxN; n++)
        {
            F a{"v", "FIXED_LENGTH_ARRAY", dt, 1, cv, "", n};
            fs.push_back({a});
            fs.push_back({U8, a, U16});
        }
        F a{"v", "VARIABLE_LENGTH_ARRAY", dt, 1, cv, "", maxN};
        fs.push_back({a});
        fs.push_back({U8, a, U16});
        c = new Codec(fs);
    }
    const size_t form = static_cast<size_t>(choose(static_cast<int>(c->schemas.size())));
    const Schema& s = c->schemas[form];
    const bool wrapped = form & 1;
    const F& a = s.f[wrapped ? 1 : 0];
    const int n = a.type == "FIXED_LENGTH_ARRAY" ? a.arrayLength : choose(maxN + 1);
    Val x;
    bool ended = false;
    for (int i = 0; i < n; i++)
    {
        if (string(cv) == "%s")
        { // a string shorter than its array is filled up with NULs
            if (ended) { x.n.push_back(0); continue; }
            const int k = choose(static_cast<int>(alphabet.size()) + (a.type == "FIXED_LENGTH_ARRAY" ? 1 : 0));
            if (k == static_cast<int>(alphabet.size())) { ended = true; x.n.push_back(0); continue; }
            x.n.push_back(static_cast<unsigned char>(alphabet[static_cast<size_t>(k)]));
        }
        else { x.n.push_back(static_cast<unsigned char>(alphabet[static_cast<size_t>(choose(static_cast<int>(alphabet.size())))])); }
    }
    if (wrapped) { judge(*c, s, {{{7}, "", {}}, x, {{999}, "", {}}}); }
    else { judge(*c, s, {x}); }
}

// strings
static void stringUnit(int n, const string& alphabet)
{
    static Codec* c = nullptr;
    const F S = {"s", "STRING", "CHAR", 1, "%s", "", 64};
    if (!c) { c = new Codec({{S}, {U8, S, U32}, {S, named(S, "t")}, {S, U8}}); }
    const int form = choose(4);
    Val x;
    for (int i = 0; i < n; i++) { x.s += alphabet[static_cast<size_t>(choose(static_cast<int>(alphabet.size())))]; }
    const Schema& s = c->schemas[static_cast<size_t>(form)];
    switch (form)
    {
    case 0: judge(*c, s, {x}); break;
    case 1: judge(*c, s, {{{7}, "", {}}, x, {{77}, "", {}}}); break;
    case 2: judge(*c, s, {x, {{}, string(static_cast<size_t>(choose(5)), 'z'), {}}}); break;
    default: judge(*c, s, {x, {{200}, "", {}}}); break;
    }
}

static void seqUnit(size_t first, int len)
{
    static std::map<size_t, Codec*> cs;
    const auto& R = reps();
    const size_t m = R.size();
    Codec*& c = cs[first * 8 + static_cast<size_t>(len)];
    size_t total = 1;
    for (int i = 1; i < len; i++) { total *= m; }
    auto digits = [&](size_t x) {
        vector<size_t> d{first};
        for (int i = 1; i < len; i++) { d.push_back(x % m); x /= m; }
        return d;
    };
    if (!c)
    {
        vector<vector<F>> fs;
        for (size_t x = 0; x < total; x++)
        {
            vector<F> f;
            int i = 0;
            for (size_t d : digits(x)) { f.push_back(named(R[d].f, fmtf("f%d", i++).c_str())); }
            fs.push_back(f);
        }
        c = new Codec(fs);
    }
    const size_t x = static_cast<size_t>(choose(static_cast<int>(total)));
    Body b;
    for (size_t d : digits(x)) { b.push_back(pick(R[d].v)); }
    judge(*c, c->schemas[x], b);
}

// rows of every pair of representative sub-fields, with 0 to 3 rows, followed by another field; nested rows
static void rowsUnit(size_t p)
{
    static std::map<size_t, Codec*> cs;
    const auto& R = reps();
    Codec*& c = cs[p];
    if (!c)
    {
        vector<vector<F>> fs;
        for (size_t q = 0; q < R.size(); q++)
        {
            fs.push_back({rowsOf("r", {named(R[p].f, "p"), named(R[q].f, "q")}), named(U16, "after")});
            fs.push_back({named(U8, "before"), rowsOf("r", {named(R[q].f, "q"), named(R[p].f, "p"), named(U8, "z")})});
        }
        c = new Codec(fs);
    }
    const size_t form = static_cast<size_t>(choose(static_cast<int>(c->schemas.size())));
    const size_t q = form / 2;
    const int n = choose(4);
    Val rows;
    for (int i = 0; i < n; i++)
    {
        const Val vp = R[p].v[static_cast<size_t>(i + 1) % R[p].v.size()], vq = i == 0 ? pick(R[q].v) : R[q].v[static_cast<size_t>(i) % R[q].v.size()];
        if (form & 1) { rows.rows.push_back({vq, vp, N1(static_cast<uint64_t>(i + 250))}); }
        else { rows.rows.push_back({vp, vq}); }
    }
    if (form & 1) { judge(*c, c->schemas[form], {N1(3), rows}); }
    else { judge(*c, c->schemas[form], {rows, N1(500)}); }
}

// the length of an array given by an earlier field
static void refUnit()
{
    static Codec* c = nullptr;
    struct L { const char* dt; int len; const char* cv; };
    static const vector<L> ls = {{"UCHAR", 1, "%UB"}, {"USHORT", 2, "%hu"}, {"ULONG", 4, "%lu"}, {"LONG", 4, "%ld"}, {"ULONGLONG", 8, "%llu"}};
    if (!c)
    {
        vector<vector<F>> fs;
        for (auto& l : ls)
        {
            F n{"n", "SIMPLE", l.dt, l.len, l.cv};
            F a{"v", "VARIABLE_LENGTH_ARRAY", "USHORT", 2, "%hu", "", 5};
            a.ref = "n";
            F r = rowsOf("v", {{"p", "SIMPLE", "UCHAR", 1, "%UB"}, {"q", "SIMPLE", "UCHAR", 1, "%UB"}});
            r.ref = "n";
            fs.push_back({n, a, U8});
            fs.push_back({n, U8, r});
        }
        c = new Codec(fs);
    }
    const size_t form = static_cast<size_t>(choose(static_cast<int>(c->schemas.size())));
    const int n = choose(5);
    Val x;
    if (form & 1)
    {
        for (int i = 0; i < n; i++) { x.rows.push_back({N1(static_cast<uint64_t>(i)), N1(static_cast<uint64_t>(255 - i))}); }
        judge(*c, c->schemas[form], {N1(static_cast<uint64_t>(n)), N1(8), x});
    }
    else
    {
        for (int i = 0; i < n; i++) { x.n.push_back(static_cast<uint64_t>(1000 * i)); }
        judge(*c, c->schemas[form], {N1(static_cast<uint64_t>(n)), x, N1(8)});
    }
}

// responses: an identity and a text, in the three formats that carry them
static void responseUnit()
{
    static Codec* c = nullptr;
    if (!c) { c = new Codec({{U32}}); }
    static const std::pair<int, const char*> R[] = {{1, "OK"}, {4, "ERROR:Invalid Message. Field = 3"}, {5, "ERROR:Message invalid, bad field"}, {6, "ERROR:Checksum"}, {0, "ERROR:"}, {0, "ERROR:Checksum "}, {0, "ERROR:something, else"}};
    const auto& r = R[choose(7)];
    const string t = r.second;
    const int src = choose(3);
    const int id = src == 0 ? (choose(2) ? r.first : 77) : r.first == 4 ? 0 : r.first; // texts with parameters are not recognised
    auto bin = [&](int i) {
        string m = c->message(c->schemas[0], BIN, bld::le(static_cast<uint64_t>(i), 4) + t);
        m.resize(m.size() - 4);
        m[6] = static_cast<char>(0x80);
        return bld::withCrc(m);
    };
    const string msg = src == 0 ? bin(id) : src == 1 ? bld::ascii(asciiHeader(c->schemas[0].name + "R") + t) : "<" + t + "\r\n";
    Exact e(msg);
    Codec::Decoded d;
    const string at = (src ? printable(msg) : hex(msg)) + ": ";
    c->decode(e.get(), e.n, d);
    MC_REQUIRE(d.st == STATUS::SUCCESS, "response-status", at + fmtf("decoding returned status %d", static_cast<int>(d.st)));
    const auto& f = d.cf.GetFieldInfo()->messageOrderedFields;
    MC_REQUIRE(f.size() == 2, "response-fields", at + "a response has two fields");
    const int32_t gotId = d.cf.GetFieldValue<int32_t>(*f[0]);
    const string gotText = d.cf.GetFieldValue<string>(*f[1]);
    MC_REQUIRE(gotId == id, "response-id", at + fmtf("response id %d, expected %d", gotId, id));
    MC_REQUIRE(gotText == t, "response-text", at + "response text " + printable(gotText));
    const Fmt outs[] = {BIN, ASC, ABB, JSN};
    for (int o : outs)
    {
        vector<unsigned char> buf(1024, 0xEE);
        unsigned char* p = buf.data();
        MessageDataStruct md;
        const STATUS st = c->enc->Encode(&p, static_cast<uint32_t>(buf.size()), d.ih, d.cf, md, HF[o], EF[o]);
        MC_REQUIRE(st == STATUS::SUCCESS, "response-encode", at + fmtf("encoding to %s returned status %d", FMT_NAME[o], static_cast<int>(st)));
        const string out(reinterpret_cast<char*>(md.pucMessageBody), md.uiMessageBodyLength);
        string want;
        switch (o)
        {
        case BIN: want = bld::le(static_cast<uint64_t>(id), 4) + t + bld::le(bld::crc32(std::string_view(reinterpret_cast<char*>(md.pucMessage), md.uiMessageLength - 4)), 4); break;
        case ASC: want = t + "*" + fmtf("%08x", bld::crc32(std::string_view(reinterpret_cast<char*>(md.pucMessage) + 1, md.uiMessageLength - 12))) + "\r\n"; break;
        case ABB: want = t + "\r\n"; break;
        default: want = fmtf("{\"response_id\": %d,\"response_str\": \"", id) + t + "\"}";
        }
        MC_REQUIRE(out == want, "response-body", at + "encoding to " + FMT_NAME[o] + " gives " + printable(out) + ", expected " + printable(want));
        addTransitions(1);
    }
    addStates(1);
    distinct(hashStr(msg));
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P11";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    ck.rule = "message definitions enumerated from the field kinds (every data type with every conversion, scalars, fixed and variable arrays, hexadecimal, escaped and quoted bytes, strings, enums, rows, nested rows, lengths "
              "held in other fields; all sequences of 2, thorough 3, of 16 representative fields) x boundary values (thorough: all values of 8 and 16 bit kinds): every body is given in all seven formats, the decoded values and "
              "the encoding to every format compared with an independent rendering. outcome = message definitions and values.";
    ck.assumptions = {"definitions pair data types with conversions of their width", "texts hold no double quotes in ASCII strings, no infinities or NaNs",
                      "abbreviated ASCII is compared up to blanks at line ends"};
    quietLogs();
    for (size_t k = 0; k < KINDS.size(); k++)
    {
        ck.unit("scalar/" + kindName(KINDS[k]), [k] { scalarUnit(k, false); });
        const bool whole = KINDS[k].f.type != "ENUM" && string(KINDS[k].tag) != "%c" && (KINDS[k].f.len == 1 || (KINDS[k].f.len == 2 && ck.thorough()));
        if (whole) { ck.unit("all/" + kindName(KINDS[k]), [k] { scalarUnit(k, true); }); }
        if (noArray(KINDS[k])) { continue; }
        ck.unit("array/" + kindName(KINDS[k]), [k, &ck] {
            if (KINDS[k].f.dt != "BOOL") { return arrayUnit(k, ck.thorough() ? 4 : 2); }
            // Known finding: the four byte elements of BOOL arrays are stored and loaded with a stride of one byte.
            try { arrayUnit(k, 2); }
            catch (const Failure& f) { fail("bool-array", f.msg); }
            catch (const std::exception& x) { fail("bool-array", x.what()); }
        });
    }
    const bool th = ck.thorough();
    for (const char* dt : {"UCHAR", "HEXBYTE"}) { ck.unit(string("bytes/Z/") + dt, [=] { bytesUnit("%Z", dt, th ? 4 : 3, string("\x00\x01\x10\x7F\x80\xFFq", 7)); }); }
    for (const char* dt : {"UCHAR", "CHAR"})
    {
        ck.unit(string("bytes/P/") + dt, [=] { bytesUnit("%P", dt, th ? 4 : 3, string("\x00\x1F x\\,*\"\x7F\x80\xFF\r", 12)); });
        ck.unit(string("bytes/s/") + dt, [=] { bytesUnit("%s", dt, th ? 5 : 4, "a ,*;x'"); });
    }
    for (int n = 0; n <= (th ? 5 : 4); n++) { ck.unit(fmtf("string/%d", n), [=] { stringUnit(n, "a ,*;#\\<"); }); }
    for (int n = 5; n <= 9; n++) { ck.unit(fmtf("stringlen/%d", n), [=] { stringUnit(n, "a"); }); }
    for (size_t i = 0; i < reps().size(); i++)
    {
        ck.unit(fmtf("seq2/%zu", i), [=] { seqUnit(i, 2); });
        if (th) { ck.unit(fmtf("seq3/%zu", i), [=] { seqUnit(i, 3); }); }
        ck.unit(fmtf("rows/%zu", i), [=] { rowsUnit(i); });
    }
    ck.unit("responses", [] { responseUnit(); });
    ck.unit("lengthref", [] { refUnit(); });
    return runCheck(ck, argc, argv);
}
