// P05 soundness, P06 conservation, P07 chunk invariance, P08 recovery: the same exploration of
// streams, each with its own oracle (macro PROP selects the property).
#include "frames.hpp"
using namespace fr;

static uint64_t outHash(const Out& o)
{
    uint64_t h = 7;
    for (const auto& m : o.msgs) { h = mix(mix(mix(h, m.at), m.len), static_cast<uint64_t>(m.f) * 2 + m.resp); }
    return h;
}
static const char* joined(const vector<Seg>& v, string& out)
{
    out.clear();
    for (const auto& s : v) { out += s.bytes; }
    return out.c_str();
}

static void checkSound(Kind k, const Rules& r, const string& s, const Out& o)
{
    size_t end = 0;
    for (const auto& m : o.msgs)
    {
        if (m.at < end) { fail("overlap", fmtf("%s: messages overlap: %s in %s", KIND_NAME[k], show(o.msgs).c_str(), hex(s).c_str())); }
        end = m.at + m.len;
        const Cand c = classify(std::string_view(s).substr(m.at), r);
        if (c.v != V::VALID || c.f != m.f || c.resp != m.resp || c.len != m.len)
        {
            fail(fmtf("unsound:%s:%s", KIND_NAME[k], fmtName(m.f)).c_str(),
                 fmtf("%s reported %s%s of %zu bytes at offset %zu, which is no such message: %s   stream %s", KIND_NAME[k], fmtName(m.f), m.resp ? " response" : "", m.len,
                      m.at, printable(s.substr(m.at, m.len)).c_str(), printable(s).c_str()));
        }
        if (o.bytes.compare(m.at, m.len, s, m.at, m.len) != 0)
        {
            fail("altered", fmtf("%s returned %s for the piece %s", KIND_NAME[k], printable(o.bytes.substr(m.at, m.len)).c_str(), printable(s.substr(m.at, m.len)).c_str()));
        }
    }
}
static void checkConserved(Kind k, const string& s, const Out& o)
{
    if (o.bytes != s || o.taken != s.size())
    {
        fail(fmtf("conservation:%s", KIND_NAME[k]).c_str(), fmtf("%s returned %s for the stream %s", KIND_NAME[k], printable(o.bytes, 900).c_str(), printable(s, 900).c_str()));
    }
}
static void checkRecovered(Kind k, const Rules& r, const string& s, const Out& o, bool padded)
{
    const RefOut ref = reference(s, r);
    const bool exact = padded || ref.pendingAt == string::npos || ref.pendingFmt != HF::ABB_ASCII;
    // every message the reference finds must have been found
    size_t j = 0;
    for (const auto& m : ref.msgs)
    {
        while (j < o.msgs.size() && !(o.msgs[j] == m)) { j++; }
        if (j == o.msgs.size())
        {
            if (!exact && &m == &ref.msgs.back()) { break; }
            fail(fmtf("lost:%s:%s", KIND_NAME[k], fmtName(m.f)).c_str(), fmtf("%s did not return the %s%s at offset %zu (%zu bytes) of %s; it returned %s", KIND_NAME[k], fmtName(m.f),
                                                                             m.resp ? " response" : "", m.at, m.len, printable(s, 900).c_str(), show(o.msgs).c_str()));
        }
    }
}

static vector<std::string_view> cut(const string& s, const vector<size_t>& at)
{
    vector<std::string_view> v;
    size_t p = 0;
    for (size_t a : at)
    {
        v.push_back(std::string_view(s).substr(p, a - p));
        p = a;
    }
    v.push_back(std::string_view(s).substr(p));
    return v;
}
static vector<std::string_view> uniform(const string& s, size_t n)
{
    vector<std::string_view> v;
    for (size_t p = 0; p < s.size(); p += n) { v.push_back(std::string_view(s).substr(p, n)); }
    return v;
}

static void noteStream(Kind k, const string& s) { note(fmtf("framer %s, stream %s", KIND_NAME[k], printable(s, 1000).c_str())); }

// decide the property for one stream
static void judge(Kind k, const string& body, bool json, int effort)
{
    std::unique_ptr<Fr> hold;
    auto go = [&](const string& s, const vector<std::string_view>& chunks, bool report) {
        Fr& f = instance(k, hold);
        if (json) { f.json(true); }
        if (tracing())
        {
            noteStream(k, s);
            string c;
            for (auto x : chunks) { c += fmtf("%zu ", x.size()); }
            note("chunks: " + c);
        }
        addEvals(1);
        return run(f, chunks, report);
    };
    if (body.find("\xAA\x45\x13") != string::npos) { return; } // undocumented sync (see assumptions)
    Rules r = kindRules(k);
    r.json = json;
    const string padded = body + PAD;
    (void)padded;
    (void)effort;
#if PROP == 5
    Out a = go(body, {body}, true);
    checkSound(k, r, body, a);
    Out b = go(body, uniform(body, 1), true);
    checkSound(k, r, body, b);
    Out c = go(padded, uniform(padded, 3), true);
    checkSound(k, r, padded, c);
    distinct(mix(outHash(a), mix(outHash(b), outHash(c))));
#elif PROP == 6
    for (int rep = 0; rep < (effort >= 1 ? 2 : 1); rep++)
    {
        Out a = go(body, {body}, rep == 0);
        checkConserved(k, body, a);
        Out b = go(body, uniform(body, 1), rep == 0);
        checkConserved(k, body, b);
        Out c = go(padded, uniform(padded, 5), rep == 0);
        checkConserved(k, padded, c);
        distinct(mix(outHash(a), a.flushed));
        if (k < M_OEM && effort >= 1)
        {
            static const size_t CAPS[] = {7, 40, 64};
            for (size_t cap : CAPS)
            {
                auto t = make(k, cap);
                if (json) { t->json(true); }
                Drive d(*t, rep == 0);
                d.small = true;
                note(fmtf("internal buffer of %zu bytes", cap));
                for (auto c : uniform(padded, cap == 7 ? 1 : 5)) { d.step(c); }
                d.finish();
                addEvals(1);
                checkConserved(k, padded, d.o);
            }
        }
    }
#elif PROP == 7
    const Out whole = go(body, {body}, true);
    auto same = [&](const vector<std::string_view>& ch, const string& how) {
        const Out o = go(body, ch, true);
        if (!(o.msgs == whole.msgs))
        {
            fail(fmtf("chunks:%s", KIND_NAME[k]).c_str(), fmtf("%s: stream %s written at once gives %s, written %s gives %s", KIND_NAME[k], printable(body, 900).c_str(),
                                                              show(whole.msgs).c_str(), how.c_str(), show(o.msgs).c_str()));
        }
    };
    same(uniform(body, 1), "byte by byte");
    same(uniform(body, 2), "in pairs");
    same(uniform(body, 7), "in sevens");
    if (effort >= 1)
    {
        for (size_t i = 1; i < body.size(); i++) { same(cut(body, {i}), fmtf("in two parts (%zu first)", i)); }
    }
    if (effort >= 2 && body.size() <= 60)
    {
        for (size_t i = 1; i < body.size(); i++)
        {
            for (size_t j = i + 1; j < body.size(); j++) { same(cut(body, {i, j}), fmtf("in three parts (%zu, %zu)", i, j)); }
        }
    }
    distinct(outHash(whole));
#elif PROP == 8
    Out a = go(padded, {padded}, true);
    checkRecovered(k, r, padded, a, true);
    Out b = go(padded, uniform(padded, 1), true);
    checkRecovered(k, r, padded, b, true);
    Out c = go(body, {body}, true);
    checkRecovered(k, r, body, c, false);
    distinct(mix(outHash(a), mix(outHash(b), outHash(c))));
#endif
}

// ---------------------------------------------------------------- stream families
static const vector<Seg>& tier(int t)
{
    static const vector<Seg> small = [] {
        vector<Seg> o;
        for (const auto& s : valid())
        {
            for (const char* n : {"binary", "short", "ascii", "nmea", "abb", "ok"})
            {
                if (s.name == n) { o.push_back(s); }
            }
        }
        for (const auto& s : noise())
        {
            for (const char* n : {"z", "#", "AA", "<", "$", "80", "crlf", "AA44", "badascii", "badbinary", "badnmea", "<Acrlf", "%"})
            {
                if (s.name == n) { o.push_back(s); }
            }
        }
        return o;
    }();
    static const vector<Seg> big = [] {
        vector<Seg> o = valid();
        for (const auto& s : noise()) { o.push_back(s); }
        return o;
    }();
    static const vector<Seg> json = [] {
        vector<Seg> o = jsonSegs();
        for (const auto& s : small) { o.push_back(s); }
        return o;
    }();
    return t == 0 ? small : t == 1 ? big : json;
}

static void seqUnit(Kind k, int t, int first, int depth, bool json, int effort)
{
    const auto& al = tier(t);
    string s = al[static_cast<size_t>(first)].bytes;
    for (int i = 1; i < depth; i++) { s += al[static_cast<size_t>(choose(static_cast<int>(al.size())))].bytes; }
    judge(k, s, json, effort);
    if (distinct(hashStr(s))) { sample(printable(s, 160)); }
}
// every truncation and single-byte change of one message between two neighbours
static void damageUnit(Kind k, size_t which, int effort)
{
    const string m = valid()[which].bytes;
    static const vector<string> pre = {"", "z", bld::ascii("P;1"), "#", "\xAA", "<P Q\r\n"};
    static const vector<string> post = {"", bld::ascii("N;1"), bld::binary(7, "\x80\x80"), bld::nmea("GPZDA,2"), "<N X\r\n< 5\r\n", bld::shortBinary(9, ""), "<OK\r\n"};
    static const unsigned char X[] = {0x01, 0x20, 0x80};
    static const char REP[] = {'*', '\r', '\n', '#', '<', ' ', '$', '\xAA'};
    const size_t at = static_cast<size_t>(choose(static_cast<int>(m.size())));
    const int how = choose(1 + 3 + 8 + 1);
    string d = m;
    if (how == 0) { d = m.substr(0, at); }
    else if (how < 4) { d[at] = static_cast<char>(d[at] ^ X[how - 1]); }
    else if (how < 12) { d[at] = REP[how - 4]; }
    else { d.insert(at, 1, d[at]); }
    const string s = pick(pre) + d + pick(post);
    judge(k, s, false, effort);
}
// the difference of the stored checksum that leaves the given remainder after the whole message
static uint32_t fieldDifference(uint32_t remainder)
{
    static const vector<std::pair<uint32_t, uint32_t>> basis = [] { // (remainder, difference), by leading bit of the remainder
        vector<std::pair<uint32_t, uint32_t>> v(32, {0, 0});
        for (int k = 0; k < 32; k++)
        {
            uint32_t d = 1u << k, g = bld::crc32(bld::le(d, 4));
            for (int b = 31; b >= 0 && g; b--)
            {
                if (!(g >> b & 1)) { continue; }
                if (!v[static_cast<size_t>(b)].first)
                {
                    v[static_cast<size_t>(b)] = {g, d};
                    break;
                }
                g ^= v[static_cast<size_t>(b)].first;
                d ^= v[static_cast<size_t>(b)].second;
            }
        }
        return v;
    }();
    uint32_t d = 0;
    for (int b = 31; b >= 0; b--)
    {
        if (remainder >> b & 1)
        {
            d ^= basis[static_cast<size_t>(b)].second;
            remainder ^= basis[static_cast<size_t>(b)].first;
        }
    }
    return d;
}
// wrong checksums: every single wrong byte (so every single wrong bit) of the stored value, and of what remains after the whole message
static void checksumUnit(Kind k)
{
    const int what = choose(5), place = choose(4), rest = choose(2), follow = choose(2);
    const string foll = follow ? bld::ascii("N;1") + bld::binary(7, "\x80\x80") : "";
    for (uint32_t v = 1; v < 256; v++)
    {
        const uint32_t r = v << (8 * place), d = rest ? fieldDifference(r) : r;
        string m;
        if (what < 2)
        {
            m = what ? bld::shortBinary(9, "\x01\x02\x03") : bld::binary(7, "\x80\x80");
            for (size_t i = 0; i < 4; i++) { m[m.size() - 4 + i] = static_cast<char>(m[m.size() - 4 + i] ^ static_cast<char>(d >> (8 * i))); }
        }
        else if (what < 4)
        {
            m = bld::ascii("P;1", what == 2 ? '#' : '%');
            const uint32_t c = static_cast<uint32_t>(strtoul(m.substr(m.size() - 10, 8).c_str(), nullptr, 16)) ^ d;
            m.replace(m.size() - 10, 8, fmtf("%08x", c));
        }
        else
        {
            if (place || rest) { return; }
            m = bld::nmea("GPZDA,2");
            const uint32_t c = static_cast<uint32_t>(strtoul(m.substr(m.size() - 4, 2).c_str(), nullptr, 16)) ^ v;
            m.replace(m.size() - 4, 2, fmtf("%02X", c));
        }
        judge(k, m + foll, false, 0);
    }
}
// all byte strings over an alphabet of framing bytes
static void bytesUnit(Kind k, const string& al, int first, int len, int effort)
{
    string s(1, al[static_cast<size_t>(first)]);
    for (int i = 1; i < len; i++) { s += al[static_cast<size_t>(choose(static_cast<int>(al.size())))]; }
    judge(k, s, false, effort);
}
// messages around the length limits of each format
static void limitUnit(Kind k)
{
    const int what = choose(6);
    const int delta = choose(9) - 4;
    const bool follow = choose(2) == 1;
    const size_t cap = 262144;
    const Rules r = kindRules(k);
    string m;
    bool must = false;
    HF f = HF::UNKNOWN;
    switch (what)
    {
    case 0: { // ASCII
        const size_t tot = MAX_ASCII_MESSAGE_LENGTH + delta * 3;
        m = bld::ascii("A;" + string(tot - 14, 'x') + "");
        must = m.size() <= MAX_ASCII_MESSAGE_LENGTH && r.ascii;
        f = HF::ASCII;
        break;
    }
    case 1: {
        const size_t tot = MAX_BINARY_MESSAGE_LENGTH + delta;
        m = bld::binary(42, string(tot - 32, 'x'));
        must = tot <= MAX_BINARY_MESSAGE_LENGTH && r.bin;
        f = HF::BINARY;
        break;
    }
    case 2: {
        m = bld::shortBinary(42, string(static_cast<size_t>(251 + (delta > 0 ? delta : 0)), 'x'));
        must = r.sbin;
        f = HF::SHORT_BINARY;
        break;
    }
    case 3: {
        const size_t tot = MAX_NMEA_MESSAGE_LENGTH + delta * 2;
        m = bld::nmea("GPGGA," + string(tot - 12, 'x'));
        must = m.size() <= MAX_NMEA_MESSAGE_LENGTH && r.nmea;
        f = HF::NMEA;
        break;
    }
    case 4: {
        const size_t tot = MAX_ABB_ASCII_RESPONSE_LENGTH + delta * 2;
        m = "<A B\r\n< " + string(tot - 10, 'x') + "\r\n";
        must = m.size() < MAX_ABB_ASCII_RESPONSE_LENGTH - 2 && r.abb;
        f = HF::ABB_ASCII;
        break;
    }
    default: {
        const size_t tot = MAX_ABB_ASCII_RESPONSE_LENGTH + delta * 2;
        m = "<ERROR:" + string(tot - 9, 'x') + "\r\n";
        must = m.size() < MAX_ABB_ASCII_RESPONSE_LENGTH - 2 && r.abb;
        f = HF::ABB_ASCII;
        break;
    }
    }
    string s = m;
    const size_t fAt = s.size();
    string foll = r.ascii ? bld::ascii("F;1") : r.sbin ? bld::shortBinary(5, "") : r.bin ? bld::binary(5, "") : r.sascii ? bld::ascii("F;1", '%') : string("<OK\r\n");
    if (follow) { s += foll; }
    s += string(20, 'z');
    auto f1 = make(k, cap);
    f1->report(true);
    Drive d(*f1, true);
    static const size_t CH[] = {1000000, 4096, 1000};
    const size_t ch = CH[choose(3)];
    note(fmtf("case %d, message of %zu bytes, follow=%d, written in chunks of %zu", what, m.size(), follow, ch));
    // GetFrame is called after each chunk
    for (size_t p = 0; p < s.size(); p += ch) { d.step(std::string_view(s).substr(p, ch)); }
    d.finish();
    const Out& o = d.o;
    distinct(mix(outHash(o), hashStr(fmtf("%d %d %d", what, delta, follow))));
#if PROP == 5
    for (const auto& g : o.msgs)
    {
        Rules big = r;
        big.maxAscii = big.maxBin = big.maxNmea = 1000000; // nothing but intact messages, whatever their length
        const Cand c = classify(std::string_view(s).substr(g.at), big);
        MC_REQUIRE(c.v == V::VALID && c.len == g.len && c.f == g.f, "limit-unsound", fmtf("case %d size %zu: reported %s", what, m.size(), show(o.msgs).c_str()));
        MC_REQUIRE(o.bytes.compare(g.at, g.len, s, g.at, g.len) == 0, "limit-altered", "altered");
    }
#elif PROP == 6
    MC_REQUIRE(o.bytes == s, "limit-conservation", fmtf("case %d size %zu", what, m.size()));
#elif PROP == 7
    auto f2 = make(k, cap);
    Drive e(*f2, true);
    e.step(s);
    e.finish();
    MC_REQUIRE(e.o.msgs == o.msgs, "limit-chunks", fmtf("case %d size %zu: at once %s, in chunks %s", what, m.size(), show(e.o.msgs).c_str(), show(o.msgs).c_str()));
#elif PROP == 8
    bool got = false, gotF = false;
    for (const auto& g : o.msgs)
    {
        got = got || (g.at == 0 && g.len == m.size() && g.f == f);
        gotF = gotF || (g.at == fAt && g.len == foll.size());
    }
    if (must) { MC_REQUIRE(got, "limit-lost", fmtf("case %d: a valid message of %zu bytes was not returned: %s", what, m.size(), show(o.msgs).c_str())); }
    if (follow && (must || r.textOnly)) { MC_REQUIRE(gotF, "limit-follower", fmtf("case %d: the message after one of %zu bytes was not returned: %s", what, m.size(), show(o.msgs).c_str())); }
#endif
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = fmtf("P%02d", PROP);
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    const bool th = ck.thorough();
    ck.rule = "one evaluation = one stream written to one framer in one chunking and read to the end; distinct = distinct message sequences obtained";
    ck.assumptions = {"streams longer than the bound combine the same segment kinds; internal buffers smaller than the default are used except in the limit units",
                      "the byte pattern AA 45 13, for which the documentation defines no format, is left out"};
    const Kind kinds[] = {OEM, OEM_MD, BIN, SBIN, ASC, SASC, ABB, M_OEM, M_FIVE, M_FIVE_REV, M_OEM_FIVE, M_BIN_ABB};
    for (Kind k : kinds)
    {
        const bool main = k == OEM;
        const bool mgr = k == M_FIVE || k == M_FIVE_REV;
        const int nb = static_cast<int>(tier(1).size()), ns = static_cast<int>(tier(0).size()), nj = static_cast<int>(tier(2).size());
        for (int i = 0; i < nb; i++)
        {
            ck.unit(fmtf("%s/pairs/%s", KIND_NAME[k], tier(1)[i].name.c_str()), [=] { seqUnit(k, 1, i, 2, false, th ? 2 : (main || k == ABB || PROP == 6) ? 1 : 0); });
            if ((main && PROP != 6) || th) { ck.unit(fmtf("%s/triples/%s", KIND_NAME[k], tier(1)[i].name.c_str()), [=] { seqUnit(k, 1, i, 3, false, 0); }); }
        }
        for (int i = 0; i < ns; i++)
        {
            ck.unit(fmtf("%s/small-triples/%s", KIND_NAME[k], tier(0)[i].name.c_str()), [=] { seqUnit(k, 0, i, 3, false, main ? 1 : 0); });
            if ((main && PROP != 7) || th) { ck.unit(fmtf("%s/small-quads/%s", KIND_NAME[k], tier(0)[i].name.c_str()), [=] { seqUnit(k, 0, i, 4, false, 0); }); }
        }
        if (main)
        {
            for (int i = 0; i < nj; i++) { ck.unit(fmtf("oem/json/%s", tier(2)[i].name.c_str()), [=] { seqUnit(k, 2, i, 3, true, 0); }); }
        }
        if (main || mgr || k == ABB || th)
        {
            for (size_t i = 0; i < valid().size(); i++) { ck.unit(fmtf("%s/damage/%s", KIND_NAME[k], valid()[i].name.c_str()), [=] { damageUnit(k, i, 0); }); }
        }
        const string al = k == BIN || k == SBIN ? string("\xAA\x44\x12\x13z", 5)
                          : k == ABB            ? string("<A \r\nO\x80", 7)
                          : k == ASC || k == SASC ? string("#*\r\n%z", 6)
                                                  : string("\xAA\x44\x12#*\r\n< A$\x80", 12);
        const int len = (main ? 5 : k < M_OEM ? 6 : 4) + (th ? 1 : 0);
        for (size_t i = 0; i < al.size(); i++)
        {
            for (int l = 1; l <= len; l++) { ck.unit(fmtf("%s/bytes%d/%zu", KIND_NAME[k], l, i), [=] { bytesUnit(k, al, static_cast<int>(i), l, 0); }); }
        }
        if (main)
        {
            const string abb = string("<A \r\nO\x80", 7);
            for (size_t i = 0; i < abb.size(); i++)
            {
                for (int l = 1; l <= (th ? 8 : 6); l++) { ck.unit(fmtf("%s/abbbytes%d/%zu", KIND_NAME[k], l, i), [=] { bytesUnit(k, abb, static_cast<int>(i), l, 0); }); }
            }
        }
        ck.unit(fmtf("%s/checksums", KIND_NAME[k]), [=] { checksumUnit(k); });
        ck.unit(fmtf("%s/limits", KIND_NAME[k]), [=] { limitUnit(k); });
    }
    return runCheck(ck, argc, argv);
}
