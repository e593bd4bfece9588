// P13: decoding malformed messages is safe and total, and never yields values the message does not have.
#include "corpus.hpp"
using namespace co;

static const F U8 = {"u8", "SIMPLE", "UCHAR", 1, "%UB"}, U32 = {"u32", "SIMPLE", "ULONG", 4, "%lu"}, U16 = {"u16", "SIMPLE", "USHORT", 2, "%hu"};

// exactly these bytes, nothing behind them
struct Tight
{
    std::unique_ptr<unsigned char[]> p;
    size_t n;
    explicit Tight(std::string_view s) : p(new unsigned char[s.size()]), n(s.size()) { memcpy(p.get(), s.data(), s.size()); }
};

static string show(const IntermediateHeader& h)
{
    return fmtf("%u %u %u %u %u %u %u %u %llx %u %x %u", h.usMessageId, h.ucMessageType, h.uiPortAddress, h.usLength, h.usSequence, h.ucIdleTime, h.uiTimeStatus, h.usWeek,
                static_cast<unsigned long long>(bo::bitsD(h.dMilliseconds)), h.uiReceiverStatus, h.uiMessageDefinitionCrc, h.usReceiverSwVersion);
}
static string show(const MetaDataStruct& m)
{
    return fmtf("%d %u %u %d %u %llx %u %u %u %u %x ", static_cast<int>(m.eFormat), m.ucSiblingId, static_cast<unsigned>(m.eTimeStatus), m.bResponse, m.usWeek, static_cast<unsigned long long>(bo::bitsD(m.dMilliseconds)), m.uiLength, m.uiBinaryMsgLength, m.uiHeaderLength, m.usMessageId, m.uiMessageCrc) +
           m.messageName;
}
struct Result
{
    STATUS st = STATUS::UNKNOWN;
    bool header = false;
    string head;
    bool response = false, known = false;
    Body body;
    string rid;
};
// the statuses the two decoders document
static bool statusOk(STATUS s)
{
    switch (s)
    {
    case STATUS::SUCCESS: case STATUS::FAILURE: case STATUS::UNKNOWN: case STATUS::NO_DEFINITION: case STATUS::UNSUPPORTED: case STATUS::MALFORMED_INPUT: return true;
    default: return false;
    }
}
static Result decodeInto(const Codec& c, const Schema& s, const string& msg, Codec::Decoded& d, const char* how)
{
    Tight t(msg);
    Result r;
    d.st = STATUS::UNKNOWN;
    try { c.decode(t.p.get(), t.n, d); }
    catch (const std::exception& x) { fail(string("throws-") + (static_cast<unsigned char>(msg[0]) == 0xAA ? "binary" : msg[0] == '{' ? "json" : "text"), string(how) + "decoding throws: " + x.what() + ": " + printable(msg)); }
    addTransitions(1);
    r.st = d.st;
    r.header = d.header;
    MC_REQUIRE(statusOk(d.st), "status", string(how) + fmtf("status %d: ", static_cast<int>(d.st)) + printable(msg));
    if (d.header || d.st != STATUS::SUCCESS) { return r; }
    r.head = show(d.ih) + " / " + show(d.md);
    r.response = d.md.bResponse;
    const auto& info = d.cf.GetFieldInfo();
    MC_REQUIRE(info != nullptr, "field-info", string(how) + "decoded without field definitions: " + printable(msg));
    if (r.response)
    {
        r.rid = fmtf("%d ", d.cf.GetFieldValue<int32_t>(*info->messageOrderedFields[0])) + d.cf.GetFieldValue<string>(*info->messageOrderedFields[1]);
        return r;
    }
    r.known = d.md.usMessageId == s.id;
    if (r.known) { r.body = readBody(d.cf, s.f, *info); }
    return r;
}
static string text(const Result& r)
{
    string s = fmtf("status %d%s ", static_cast<int>(r.st), r.header ? " (header)" : "");
    if (r.st == STATUS::SUCCESS && !r.header) { s += r.head + " " + (r.response ? r.rid : show(r.body)); }
    return s;
}

// ---------------------------------------------------------------- an independent reading of binary bodies
// Fields the bytes do not reach are zero or empty; a field that is only partly there makes the body malformed.
struct Unbin
{
    const string& s;
    bool bad = false;
    uint64_t get(size_t at, int n) const { uint64_t v = 0; for (int i = 0; i < n; i++) { v |= static_cast<uint64_t>(static_cast<unsigned char>(s[at + static_cast<size_t>(i)])) << (8 * i); } return v; }
    static Val zero(const F& f)
    {
        Val v;
        if (f.type == "FIXED_LENGTH_ARRAY") { v.n.assign(static_cast<size_t>(f.arrayLength), 0); }
        else if (f.type == "SIMPLE" || f.type == "ENUM") { v.n.push_back(0); }
        return v;
    }
    static bool var(const F& f)
    {
        for (auto& x : f.fields) { if (x.type == "STRING" || x.type == "FIELD_ARRAY" || x.type == "VARIABLE_LENGTH_ARRAY") { return true; } }
        return false;
    }
    Body body(const vector<F>& fs, size_t& pos)
    {
        const size_t start = pos, end = s.size();
        auto align = [&](size_t a) { while (a > 1 && (pos - start) % a) { pos++; } };
        Body b;
        for (auto& f : fs)
        {
            Val v = zero(f);
            align(static_cast<size_t>(std::min(4, f.len)));
            auto left = [&] { return pos < end ? end - pos : 0; };
            if (bad || !left()) { b.push_back(v); continue; }
            auto element = [&](size_t i, size_t n) { v.n.resize(n); v.n[i] = get(pos, f.len); pos += static_cast<size_t>(f.len); };
            if (f.type == "STRING")
            {
                const size_t z = s.find('\0', pos);
                if (z == string::npos) { bad = true; }
                else { v.s = s.substr(pos, z - pos); pos = z + 1; align(4); }
            }
            else if (f.type == "VARIABLE_LENGTH_ARRAY" || f.type == "FIELD_ARRAY")
            {
                const size_t lf = static_cast<size_t>(f.lenField < 0 ? 4 : f.lenField);
                align(lf);
                if (left() < lf) { bad = true; b.push_back(v); continue; }
                const uint64_t n = get(pos, static_cast<int>(lf));
                pos += lf;
                if (f.type == "FIELD_ARRAY")
                {
                    for (uint64_t i = 0; i < n && !bad; i++)
                    {
                        if (var(f)) { align(static_cast<size_t>(std::min(4, f.len))); }
                        if (!left()) { bad = true; break; }
                        const size_t at = pos;
                        v.rows.push_back(body(f.fields, pos));
                        if (!var(f) && !bad)
                        {
                            string w;
                            bo::bin(w, f.fields, v.rows.back()); // rows without variable fields have one size
                            if (at + w.size() > end) { bad = true; }
                        }
                    }
                }
                else if (n > left() / static_cast<size_t>(f.len)) { bad = true; }
                else { for (size_t i = 0; i < n; i++) { element(i, n); } }
            }
            else
            {
                const size_t n = v.n.size();
                if (left() < n * static_cast<size_t>(f.len)) { bad = true; }
                else { for (size_t i = 0; i < n; i++) { element(i, n); } }
            }
            b.push_back(v);
        }
        return b;
    }
};

// A BOOL that is neither 0 nor 1 has no meaning: any value will do.
static void booleans(const F& f, Val& want, const Val& got)
{
    if (f.dt == "BOOL") { for (size_t i = 0; i < want.n.size() && i < got.n.size(); i++) { if (want.n[i] > 1) { want.n[i] = got.n[i]; } } }
    for (size_t i = 0; i < want.rows.size() && i < got.rows.size(); i++) { for (size_t j = 0; j < f.fields.size(); j++) { booleans(f.fields[j], want.rows[i][j], got.rows[i][j]); } }
}

// ---------------------------------------------------------------- what a cut text may still have
static void flatten(const vector<F>& fs, const Body& b, vector<string>& out)
{
    for (size_t i = 0; i < fs.size(); i++)
    {
        const F& f = fs[i];
        const Val& v = b[i];
        if (f.type == "STRING") { out.push_back(v.s); }
        else if (f.type == "FIELD_ARRAY") { out.push_back(v.rows.empty() ? "" : fmtf("#%zu", v.rows.size())); for (auto& r : v.rows) { flatten(f.fields, r, out); } }
        else
        {
            if (f.type == "VARIABLE_LENGTH_ARRAY") { out.push_back(v.n.empty() ? "" : fmtf("#%zu", v.n.size())); }
            if (bo::arrayKind(f) && bo::quoted(f)) { string s; for (uint64_t x : v.n) { s += static_cast<char>(x); } while (!s.empty() && !s.back()) { s.pop_back(); } out.push_back(s); }
            else { for (uint64_t x : v.n) { out.push_back(x ? fmtf("%llx", static_cast<unsigned long long>(x)) : ""); } }
        }
    }
}
static void prefixOf(const vector<F>& fs, const Body& got, const Body& whole, const string& at)
{
    vector<string> g, w;
    flatten(fs, got, g);
    flatten(fs, whole, w);
    size_t i = 0;
    while (i < g.size() && i < w.size() && g[i] == w[i]) { i++; }
    // the token that was cut may have any value; behind it, nothing was there to be read
    if (i < g.size() && g[i][0] == '#') { fail("cut-count", at + "an array has the wrong number of elements: " + co::show(got)); }
    for (size_t k = i + 1; k < g.size(); k++) { MC_REQUIRE(g[k].empty(), "cut-value", at + "a field behind the end of the text has a value: " + co::show(got) + " of " + co::show(whole)); }
}

// ---------------------------------------------------------------- one message
// content of a message between what its framing consists of
struct Framed
{
    string head, content; // head: what precedes the content and is never changed (sync)
    int fmt;
    size_t bodyAt;        // in the content
};
static string frame(const Framed& f, const string& content, unsigned crcXor = 0)
{
    switch (f.fmt)
    {
    case BIN: case SBIN: {
        string m = f.head + content;
        const size_t hl = f.fmt == BIN ? 28 : 12;
        if (m.size() < hl) { return ""; }
        const size_t n = m.size() - hl;
        if (f.fmt == BIN) { m[8] = static_cast<char>(n); m[9] = static_cast<char>(n >> 8); }
        else { if (n > 255) { return ""; } m[3] = static_cast<char>(n); }
        return m + bld::le(bld::crc32(m) ^ (crcXor * 0x01010101u), 4);
    }
    case ASC: case SASC: return f.head + content + fmtf("*%08x\r\n", bld::crc32(content) ^ crcXor * 0x11111111u);
    case ABB: case SABB: return f.head + content + "\r\n";
    default: return content;
    }
}
static Framed parts(const Codec& c, const Schema& s, int fmt, const string& body)
{
    Framed f;
    f.fmt = fmt;
    const string m = c.message(s, fmt, body);
    size_t pre = 0, post = 0;
    switch (fmt)
    {
    case BIN: case SBIN: pre = 3; post = 4; break;
    case ASC: case SASC: pre = 1; post = 11; break;
    case ABB: case SABB: pre = 1; post = 2; break;
    default: break;
    }
    f.head = m.substr(0, pre);
    f.content = m.substr(pre, m.size() - pre - post);
    const size_t at = fmt == JSN ? m.find("\"body\"") : m.size() - post - (body.size() - ((fmt == ABB || fmt == SABB) ? 2 : 0));
    f.bodyAt = at - pre;
    return f;
}

static bool TH = false; // the thorough tier
struct Judge
{
    const Codec& c;
    const Schema& s;
    Framed f;
    Body whole;                 // what the unchanged message decodes to
    string rich;                // another message of the definition, decoded into the re-used objects first
    Codec::Decoded used;
    uint64_t ok = 0, bad = 0;

    Judge(const Codec& c_, const Schema& s_, int fmt, const Body& b, const string& rich_) : c(c_), s(s_), f(parts(c_, s_, fmt, c_.body(s_, fmt, b))), rich(rich_)
    {
        const string m = frame(f, f.content);
        MC_REQUIRE(m == c.message(s, fmt, c.body(s, fmt, b)), "harness", "taking the message apart changed it");
        Codec::Decoded d;
        const Result r = decodeInto(c, s, m, d, "");
        MC_REQUIRE(r.st == STATUS::SUCCESS && r.known, "decode", fmtf("status %d: ", static_cast<int>(r.st)) + printable(m));
        whole = r.body;
    }
    Result one(const string& content)
    {
        const string m = frame(f, content);
        if (m.empty()) { return {}; }
        Codec::Decoded d;
        const Result r = decodeInto(c, s, m, d, "");
        (r.st == STATUS::SUCCESS ? ok : bad)++;
        if (r.st == STATUS::SUCCESS && r.known && !r.response && (f.fmt == BIN || f.fmt == SBIN))
        {
            const string body = m.substr(f.head.size() + f.bodyAt, m.size() - 4 - f.head.size() - f.bodyAt);
            Unbin u{body};
            size_t pos = 0;
            Body want = u.body(s.f, pos);
            MC_REQUIRE(!u.bad, "malformed-binary", "a body that is not all there or has impossible counts is decoded: " + hex(m) + " as " + co::show(r.body));
            for (size_t i = 0; i < want.size(); i++) { booleans(s.f[i], want[i], r.body[i]); }
            MC_REQUIRE(co::show(want) == co::show(r.body), "binary-values", "the bytes " + hex(body) + " are decoded as " + co::show(r.body) + " instead of " + co::show(want));
        }
        // objects that have been used before
        decodeInto(c, s, rich, used, "");
        const Result u = decodeInto(c, s, m, used, "with used objects: ");
        MC_REQUIRE(text(u) == text(r), "stale", "depends on the message decoded before: " + text(u) + " instead of " + text(r) + ": " + printable(m));
        // the checksum is not part of the content
        if (f.fmt != ABB && f.fmt != SABB && f.fmt != JSN)
        {
            Codec::Decoded e;
            const Result x = decodeInto(c, s, frame(f, content, 0x5), e, "with another checksum: ");
            MC_REQUIRE(text(x) == text(r), "checksum-read", "depends on its checksum: " + text(x) + " instead of " + text(r) + ": " + printable(m));
        }
        return r;
    }
    void cuts(size_t from)
    {
        for (size_t n = f.content.size(); n-- > from;)
        {
            const string content = f.content.substr(0, n);
            const Result r = one(content);
            if (r.st == STATUS::SUCCESS && r.known && !r.response && n >= f.bodyAt) { prefixOf(s.f, r.body, whole, "cut to " + printable(frame(f, content)) + ": "); }
        }
    }
    const string& alphabet() const
    {
        static const string t("09-.+,* \"\\xAF#<:;\0\r\n\t{]\xFF", 24), b("\0\x01\x02\x03\x04\x10\x41\x7F\x80\xFE\xFF", 11);
        return f.fmt == BIN || f.fmt == SBIN ? b : t;
    }
    static const vector<string>& words()
    {
        static const vector<string> w = {"4294967295", "4294967296", "-1", "99999999999999999999", "1e999", "nan", "\\x", "\\xG", "\\", "\"", "\"\"", ",,", "  ", "\r\n<     ", string(400, '7'), "ERROR:", "OK", "null", "[[", "{}", "true"};
        return w;
    }
    void edits(size_t from, size_t to)
    {
        to = std::min(to, f.content.size());
        for (size_t i = from; i < to; i++)
        {
            string m = f.content;
            const char old = m[i];
            for (char ch : alphabet())
            {
                if (ch == old) { continue; }
                m[i] = ch;
                one(m);
            }
            if (f.fmt == BIN || f.fmt == SBIN) { for (int d : {1, -1, 0x10}) { m[i] = static_cast<char>(old + d); one(m); } }
            m = f.content;
            m.erase(i, 1);
            one(m);
            for (char ch : TH ? alphabet() : f.fmt == BIN || f.fmt == SBIN ? string("\0\x01\xFF", 3) : string("\",\\ 0\xFF")) { m = f.content; m.insert(i, 1, ch); one(m); }
        }
    }
    void splices(size_t from)
    {
        if (f.fmt == BIN || f.fmt == SBIN)
        {
            for (size_t n = 1; n <= 9; n++) { one(f.content + string(n, '\0')); one(f.content + string(n, '\x7F')); }
            return;
        }
        for (size_t i = from; i <= f.content.size(); i++)
        {
            const char prev = i ? f.content[i - 1] : ' ';
            if (isalnum(static_cast<unsigned char>(prev))) { continue; } // starts of tokens
            for (auto& w : words())
            {
                string m = f.content;
                m.insert(i, w);
                one(m);
                m = f.content.substr(0, i) + w; // and nothing behind it
                if (TH || i == f.content.size()) { one(m); }
                size_t e = i;
                while (e < f.content.size() && (isalnum(static_cast<unsigned char>(f.content[e])) || f.content[e] == '.' || f.content[e] == '-')) { e++; }
                if (e > i) { m = f.content; m.replace(i, e - i, w); one(m); }
            }
        }
    }
    void pairs(size_t from)
    {
        for (size_t i = from; i < f.content.size(); i++)
        {
            for (char a : alphabet())
            {
                string m = f.content;
                if (m[i] == a) { continue; }
                m[i] = a;
                for (size_t k = i + 1; k < m.size(); k++)
                {
                    const char old = m[k];
                    for (char b : alphabet()) { if (b != old) { m[k] = b; one(m); } }
                    m[k] = old;
                }
                for (size_t n = m.size(); n-- > i + 1;) { one(m.substr(0, n)); } // and cut
            }
        }
    }
};

enum Depth { BODY, HEADER, PAIRS };
static void judge(const Codec& c, const Schema& s, int fmt, const Body& b, const Body& other, Depth depth)
{
    if (fmt == SBIN) { string t; bo::bin(t, s.f, b); if (t.size() > 240) { return; } }
    Judge j(c, s, fmt, b, c.message(s, ASC, c.body(s, ASC, other)));
    const size_t at = j.f.bodyAt;
    if (depth == PAIRS) { j.pairs(at); }
    else
    {
        j.cuts(depth == HEADER ? 0 : at);
        j.edits(depth == HEADER ? 0 : at, depth == HEADER ? at + 2 : string::npos);
        j.splices(depth == HEADER ? 0 : at);
    }
    addStates(1);
    distinct(hashStr(s.name + co::show(b) + FMT_NAME[fmt]));
    stat("decoded", static_cast<int64_t>(j.ok));
    stat("refused", static_cast<int64_t>(j.bad));
    note(string(FMT_NAME[fmt]) + " " + printable(frame(j.f, j.f.content)) + fmtf(": %llu changed messages decoded, %llu refused", static_cast<unsigned long long>(j.ok), static_cast<unsigned long long>(j.bad)));
}
static int pickFmt(bool all)
{
    static const int some[] = {BIN, ASC, ABB, JSN};
    return all ? choose(FMTS) : some[choose(4)];
}

static void kindUnit(size_t ki, bool th)
{
    static std::map<size_t, Codec*> cs;
    Codec*& c = cs[ki];
    const Kind& k = KINDS[ki];
    auto arr = [&](const char* t, int n) { F a = k.f; a.type = t; a.arrayLength = n; return a; };
    const bool arrays = k.f.type != "ENUM" && k.f.dt != "BOOL"; // arrays of BOOL: known finding of P11
    if (!c)
    {
        vector<vector<F>> fs = {{k.f}, {U8, k.f, U32}};
        if (arrays) { fs.push_back({U8, arr("FIXED_LENGTH_ARRAY", 3), named(U8, "z")}); fs.push_back({arr("VARIABLE_LENGTH_ARRAY", 3), named(U8, "after")}); }
        c = new Codec(fs);
    }
    const size_t form = static_cast<size_t>(choose(static_cast<int>(c->schemas.size())));
    const int fmt = pickFmt(th);
    const Schema& s = c->schemas[form];
    const uint64_t lo = k.v[k.v.size() / 3], hi = k.v.back();
    auto val = [&](uint64_t x) -> Body {
        switch (form)
        {
        case 0: return {N1(x)};
        case 1: return {N1(7), N1(x), N1(0x01020304)};
        case 2: return {N1(7), {{x, k.v[1], x}, "", {}}, N1(5)};
        default: return {{{x, k.v[1]}, "", {}}, N1(6)};
        }
    };
    const bool first = !TH || choose(2);
    judge(*c, s, fmt, val(first ? lo : hi), val(first ? hi : lo), BODY);
}
static Body repBody(const vector<size_t>& d, bool last)
{
    Body b;
    for (size_t x : d) { b.push_back(last ? reps()[x].v.back() : reps()[x].v.front()); }
    return b;
}
static void seqUnit(size_t first, bool th)
{
    static std::map<size_t, Codec*> cs;
    const auto& R = reps();
    Codec*& c = cs[first];
    if (!c)
    {
        vector<vector<F>> fs;
        for (size_t x = 0; x < R.size(); x++) { fs.push_back({named(R[first].f, "f0"), named(R[x].f, "f1")}); }
        c = new Codec(fs);
    }
    const size_t x = static_cast<size_t>(choose(static_cast<int>(R.size())));
    const bool last = !TH || choose(2);
    judge(*c, c->schemas[x], pickFmt(th), repBody({first, x}, last), repBody({first, x}, true), BODY);
}
static void rowsUnit(size_t p, bool th)
{
    static std::map<size_t, Codec*> cs;
    const auto& R = reps();
    Codec*& c = cs[p];
    if (!c)
    {
        const F in = named(R[p].f, "in");
        c = new Codec({{rowsOf("r", {in, U8}), U16}, {U8, rowsOf("r", {U8, in})}, {rowsOf("r", {rowsOf("rr", {in}, 2), U8}), U8}});
    }
    const int form = choose(3), fmt = pickFmt(th);
    auto make = [&](int n, bool last) {
        const Val v = last ? R[p].v.back() : R[p].v.front();
        Val rows;
        for (int i = 0; i < n; i++)
        {
            const Val no = N1(static_cast<uint64_t>(i) + 1);
            if (form == 0) { rows.rows.push_back({v, no}); }
            else if (form == 1) { rows.rows.push_back({no, v}); }
            else { Val rr; for (int j = 0; j <= i; j++) { rr.rows.push_back({v}); } rows.rows.push_back({rr, N1(5)}); }
        }
        return form == 1 ? Body{N1(1), rows} : Body{rows, N1(9)};
    };
    judge(*c, c->schemas[static_cast<size_t>(form)], fmt, make(TH ? 1 + choose(2) : 2, TH && choose(2)), make(3 - (form == 2), true), BODY);
}
static void headerUnit(int fmt)
{
    static Codec* c = nullptr;
    if (!c) { c = new Codec({{U32}, {{"s", "STRING", "CHAR", 1, "%s", "", 16}}}); }
    const Schema& s = pick(c->schemas);
    if (s.f[0].type == "STRING") { judge(*c, s, fmt, {{{}, "abc", {}}}, {{{}, "other", {}}}, HEADER); }
    else { judge(*c, s, fmt, {N1(1234567)}, {N1(0xFFFFFFFF)}, HEADER); }
}
static void pairUnit(size_t p, int fmt)
{
    static std::map<size_t, Codec*> cs;
    Codec*& c = cs[p];
    if (!c) { c = new Codec({{named(reps()[p].f, "in")}}); }
    judge(*c, c->schemas[0], fmt, repBody({p}, true), repBody({p}, false), PAIRS);
}
// responses in the formats they have
static void responseUnit()
{
    static Codec* c = nullptr;
    if (!c) { c = new Codec({{U32}}); }
    const Schema& s = c->schemas[0];
    const string rich = c->message(s, ASC, c->body(s, ASC, {N1(77)}));
    static const char* texts[] = {"OK", "ERROR:Message invalid, bad field", "ERROR", "ERROR:"};
    const string t = texts[choose(4)];
    Framed f;
    switch (choose(3))
    {
    case 0: {
        const string m = c->message(s, BIN, bld::le(5, 4) + t);
        f = {m.substr(0, 3), m.substr(3, m.size() - 7), BIN, 25};
        f.content[3] = static_cast<char>(0x80);
        break;
    }
    case 1: f = {"#", asciiHeader(s.name + "R") + t, ASC, 0}; break;
    default: f = {"<", t, ABB, 0};
    }
    Codec::Decoded used;
    auto one = [&](const string& content) {
        const string m = frame(f, content);
        if (m.empty()) { return; }
        Codec::Decoded d;
        const Result r = decodeInto(*c, s, m, d, "");
        decodeInto(*c, s, rich, used, "");
        const Result u = decodeInto(*c, s, m, used, "with used objects: ");
        MC_REQUIRE(text(u) == text(r), "stale", "depends on the message decoded before: " + text(u) + " instead of " + text(r) + ": " + printable(m));
        if (f.fmt != ABB)
        {
            Codec::Decoded e;
            const Result x = decodeInto(*c, s, frame(f, content, 0x5), e, "with another checksum: ");
            MC_REQUIRE(text(x) == text(r), "checksum-read", "depends on its checksum: " + text(x) + " instead of " + text(r) + ": " + printable(m));
        }
        // a decoded response's text is part of the message
        if (r.st == STATUS::SUCCESS && r.response) { MC_REQUIRE(m.find(r.rid.substr(r.rid.find(' ') + 1)) != string::npos, "response-text", "the response text is not in the message: " + r.rid); }
    };
    one(f.content);
    for (size_t n = f.content.size(); n-- > 0;) { one(f.content.substr(0, n)); }
    const string al("09-.+,* \"\\xAF#<:;\0\r\n\t{]\xFF\x80\x81\x05", 28);
    for (size_t i = 0; i < f.content.size(); i++)
    {
        for (char ch : al)
        {
            string m = f.content;
            m[i] = ch;
            one(m);
            m = f.content;
            m.insert(i, 1, ch);
            one(m);
        }
        string m = f.content;
        m.erase(i, 1);
        one(m);
    }
    addStates(1);
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P13";
    ck.level = "fault_enumeration";
    ck.rule = "One execution is one message (definition, value, format); its content is cut at every length, and at every byte replaced by and extended with every character of a class alphabet, shortened by one, and spliced with "
              "hostile words (counts past any limit, huge numbers, unfinished escapes and quotes, line ends), then framed again so that length fields and checksum fit. Every such message is decoded by the real header and message "
              "decoders from an allocation of exactly its length under AddressSanitizer, into fresh objects, into objects that decoded another message before, and with another checksum. States are messages, transitions decodings. "
              "Oracle: a documented status, no exception, no read outside the message; the three decodings agree; binary bodies agree with an independent reading that demands whole fields; a cut text has the original values in front "
              "of the cut and nothing behind it.";
    ck.assumptions = {"only cut texts and binary bodies are judged by their values; for other edits of texts and JSON the oracle is safety, status, and independence of earlier messages, of the checksum and of the surroundings",
                      "arrays of BOOL are left out (known finding of P11)"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    quietLogs();
    const bool th = TH = ck.thorough();
    for (int f = 0; f < FMTS; f++) { ck.unit(string("header/") + FMT_NAME[f], [f] { headerUnit(f); }); }
    ck.unit("responses", [] { responseUnit(); });
    for (size_t k = 0; k < KINDS.size(); k++) { ck.unit("kind/" + kindName(KINDS[k]), [k, th] { kindUnit(k, th); }); }
    for (size_t i = 0; i < reps().size(); i++)
    {
        ck.unit(fmtf("rows/%zu", i), [i, th] { rowsUnit(i, th); });
        ck.unit(fmtf("seq2/%zu", i), [i, th] { seqUnit(i, th); });
        if (th) { for (int f : {BIN, ASC, ABB}) { ck.unit(fmtf("pairs/%zu/", i) + FMT_NAME[f], [i, f] { pairUnit(i, f); }); } }
    }
    return runCheck(ck, argc, argv);
}
