// P19: decompressed ranges are the documented observations.
#include "ranges.hpp"

using namespace rg;

static bool TH = false;

static Raw nomOf(int ver, const Sig& s, int part) // part: 0, 1 (second block), 2, 3 (differential)
{
    if (ver == 1) { return nom1(s); }
    if (ver == 2) { return part == 0 ? nom2s(s) : nom2(s); }
    if (ver == 5) { return nom4(part ? V5S : V5P); }
    return nom4(static_cast<Kind4>(part));
}
static const vector<Fld>& fieldsOf(int ver, int part)
{
    if (ver == 1) { return F1; }
    if (ver == 2) { return part == 0 ? F2S : F2; }
    if (ver == 5) { return fields4(part ? V5S : V5P); }
    return fields4(static_cast<Kind4>(part));
}
// another signal of the same system, below or above; the same if there is none
static const Sig& mate(const Sig& s)
{
    for (auto& x : SIGS) { if (x.sys == s.sys && x.sig4 != s.sig4) { return x; } }
    return s;
}
// the fields that say what is reported, and so are not varied freely
static bool fixedField(int ver, int part, size_t f, const Sig& s)
{
    if (ver == 1) { return f == 0 || (s.sys == 1 && f == 9); }
    if (ver == 2) { return part == 0 ? f == 3 || (s.sys == 1 && f == 1) : f == 0; }
    return false;
}
static Msg one(int ver, const Sig& s, int part, const Raw& r, int slot)
{
    Msg m;
    m.ver = ver;
    if (ver == 1)
    {
        m.m1.push_back({&s, r});
        if (s.sys == 1) { m.m1[0].r[9] = static_cast<uint64_t>(slot); }
    }
    else if (ver == 2)
    {
        Sat2 t{&s, nom2s(s), {{&s, nom2(s)}, {&s, nom2(s)}}};
        if (part == 0) { t.r = r; }
        else { t.sigs[0].second = r; }
        if (s.sys == 1) { t.r[2] = static_cast<uint64_t>(slot); }
        m.m2.push_back(t);
    }
    else
    {
        Sat4 t;
        t.id = s.sys == 2 ? 5 : 12;
        t.slot = s.sys == 1 ? slot : 0;
        t.diff = part >= 2;
        t.ref = 3;
        // the varied block is first or second of its satellite
        if (part == 0 || part == 2) { t.sigs.push_back({s.sig4, r}); }
        const Sig& x = mate(s);
        if (part == 1 || part == 3)
        {
            // the lower signal bit comes first
            const Raw p = nomOf(ver, x, part - 1), sec = r;
            if (&x == &s) { return Msg{0, {}, {}, {}, 0, 0, 0}; }
            const int lo = std::min(x.sig4, s.sig4), hi = std::max(x.sig4, s.sig4);
            t.sigs = {{lo, p}, {hi, sec}};
        }
        m.m4 = {{s.sys, {t}, 0}};
    }
    return m;
}
static Msg refFor(const Msg& m) // the reference blocks its differential blocks need, half a second before
{
    Msg r = m;
    r.ms = m.ms - 250;
    for (auto& y : r.m4)
    {
        for (auto& t : y.sats)
        {
            t.diff = false;
            bool first = true;
            for (auto& g : t.sigs)
            {
                g.second = nom4(first ? REF1 : REF2);
                first = false;
            }
        }
    }
    return r;
}
static void check(const Msg& m, const string& what)
{
    RangeDecompressor d(db());
    Model model;
    bool diff = false;
    for (auto& y : m.m4) { for (auto& t : y.sats) { diff |= t.diff; } }
    if (diff && m.ver != 5) { expect(d, model, refFor(m), what + " (references)"); }
    expect(d, model, m, what);
    addStates(1);
    distinct(hashStr(m.binary(), static_cast<uint64_t>(diff)));
}

// ---------------------------------------------------------------- units
struct Place { int ver, part; };
static const vector<Place> PLACES = {{1, 0}, {2, 0}, {2, 1}, {3, 0}, {3, 1}, {4, 0}, {4, 1}, {4, 2}, {4, 3}, {5, 0}, {5, 1}, {3, 2}};

static void fields(size_t pl)
{
    const Place p = PLACES[pl];
    const auto& fs = fieldsOf(p.ver, p.part);
    const Sig& s = pick(SIGS);
    const size_t f = static_cast<size_t>(choose(static_cast<int>(fs.size())));
    if (fixedField(p.ver, p.part, f, s)) { return; }
    for (uint64_t v : valuesOf(fs[f].width))
    {
        Raw r = nomOf(p.ver, s, p.part);
        r[f] = v;
        const Msg m = one(p.ver, s, p.part, r, p.ver == 2 && f == 2 && p.part == 0 ? static_cast<int>(v) : 9);
        if (m.ver == 0) { return; }
        check(m, fmtf("RANGECMP%d %s, %s %llx", p.ver, s.name, fs[f].name, static_cast<unsigned long long>(v)));
    }
}
static void pairs(size_t pl)
{
    const Place p = PLACES[pl];
    const auto& fs = fieldsOf(p.ver, p.part);
    static const vector<size_t> some = {0, 6, 9, 18};
    const Sig& s = TH ? pick(SIGS) : SIGS[pick(some)];
    const size_t a = static_cast<size_t>(choose(static_cast<int>(fs.size()))), b = static_cast<size_t>(choose(static_cast<int>(fs.size())));
    if (a >= b || fixedField(p.ver, p.part, a, s) || fixedField(p.ver, p.part, b, s)) { return; }
    for (uint64_t va : bordersOf(fs[a].width))
    {
        for (uint64_t vb : bordersOf(fs[b].width))
        {
            Raw r = nomOf(p.ver, s, p.part);
            r[a] = va;
            r[b] = vb;
            const Msg m = one(p.ver, s, p.part, r, 9);
            if (m.ver == 0) { return; }
            check(m, fmtf("RANGECMP%d %s, %s %llx and %s %llx", p.ver, s.name, fs[a].name, static_cast<unsigned long long>(va), fs[b].name, static_cast<unsigned long long>(vb)));
        }
    }
}
// every signal of every satellite, and every frequency number
static void satellites(int ver)
{
    const Sig& s = pick(SIGS);
    const int last = ver == 1 || ver == 2 ? 255 : 64;
    for (int id = ver <= 2 ? 0 : 1; id <= last; id++)
    {
        for (int slot = 0; slot <= (s.sys == 1 ? (ver == 2 ? 15 : 20) : 0); slot++)
        {
            if (slot > 0 && id != 12 && id != last && id != 1) { continue; }
            Msg m;
            m.ver = ver;
            if (ver == 1)
            {
                m.m1 = {{&s, nom1(s)}};
                m.m1[0].r[6] = static_cast<uint64_t>(id);
                m.m1[0].r[9] = static_cast<uint64_t>(slot);
            }
            else if (ver == 2)
            {
                m.m2 = {{&s, nom2s(s), {{&s, nom2(s)}}}};
                m.m2[0].r[1] = static_cast<uint64_t>(id);
                m.m2[0].r[2] = static_cast<uint64_t>(slot);
            }
            else
            {
                if (prn4(s.sys, id) < 0) { continue; }
                Sat4 t;
                t.id = id;
                t.slot = slot;
                t.sigs = {{s.sig4, nom4(ver == 5 ? V5P : REF1)}};
                m.m4 = {{s.sys, {t}, 0}};
            }
            check(m, fmtf("RANGECMP%d %s satellite %d frequency %d", ver, s.name, id, slot));
            if (ver == 3 || ver == 4)
            {
                m.m4[0].sats[0].diff = true;
                m.m4[0].sats[0].sigs[0].second = nom4(DIF1);
                check(m, fmtf("RANGECMP%d differences of %s satellite %d frequency %d", ver, s.name, id, slot));
            }
        }
    }
}
// how systems, satellites and signals are put together
static Raw vary(Raw r, size_t f, size_t n)
{
    r[f] += n * 64; // tells the observations apart
    return r;
}
static void structures(int ver)
{
    Msg m;
    m.ver = ver;
    size_t n = 0;
    if (ver == 1)
    {
        const int k = choose(4);
        for (int i = 0; i < k; i++)
        {
            const Sig& s = pick(SIGS);
            m.m1.push_back({&s, vary(nom1(s), 2, n++)});
        }
    }
    else if (ver == 2)
    {
        const int k = choose(4);
        static const vector<int> counts = {0, 1, 2, 3, 15};
        static const vector<size_t> which = {0, 9, 10};
        for (int i = 0; i < k; i++)
        {
            const Sig& s = SIGS[pick(which)];
            Sat2 t{&s, nom2s(s), {}};
            const int c = pick(counts);
            for (int j = 0; j < c; j++) { t.sigs.push_back({&s, vary(nom2(s), 13, n++)}); }
            m.m2.push_back(t);
        }
    }
    else
    {
        // one to three systems, satellites of each, each with a subset of the signals
        static const vector<vector<int>> sysSets = {{0}, {1}, {0, 1}, {6, 9}, {0, 1, 9}, {}};
        static const vector<vector<int>> satSets = {{1}, {64}, {1, 2}, {1, 33, 64}, {}};
        static const vector<vector<int>> satSetsBig = {{1}, {2, 64}, {}};
        const auto& systems = pick(sysSets);
        for (int sys : systems)
        {
            Sys4 y;
            y.sys = sys;
            vector<int> sg;
            for (auto& s : SIGS) { if (s.sys == sys) { sg.push_back(s.sig4); } }
            if (sg.size() > 2) { sg = {sg[0], sg[1], sg.back()}; }
            const bool big = systems.size() > 1 && !TH;
            if (big && sg.size() > 2) { sg.erase(sg.begin() + 1); }
            const auto& ids = pick(big || systems.size() > 2 ? satSetsBig : satSets);
            for (int g : sg) { y.extra |= 1u << g; }
            if (choose(2)) { y.extra = 0; }
            for (int id : ids)
            {
                Sat4 t;
                t.id = id;
                t.slot = sys == 1 ? 3 + id % 7 : 0;
                t.ref = id % 8;
                const int mask = choose(1 << sg.size());
                for (size_t i = 0; i < sg.size(); i++)
                {
                    if (mask >> i & 1) { t.sigs.push_back({sg[i], vary(nom4(ver == 5 ? (t.sigs.empty() ? V5P : V5S) : (t.sigs.empty() ? REF1 : REF2)), 6, n++)}); }
                }
                y.sats.push_back(t);
            }
            m.m4.push_back(y);
        }
    }
    check(m, fmtf("RANGECMP%d of %zu observations", ver, n));
    if (ver == 3 || ver == 4)
    {
        // the same as differences, all or each satellite alone
        Msg all = m;
        n = 0;
        for (auto& y : all.m4)
        {
            for (auto& t : y.sats)
            {
                t.diff = true;
                for (size_t i = 0; i < t.sigs.size(); i++) { t.sigs[i].second = vary(nom4(i ? DIF2 : DIF1), 7, n++); }
            }
        }
        check(all, fmtf("RANGECMP%d of %zu differences", ver, n));
        size_t k = 0;
        for (size_t y = 0; y < m.m4.size(); y++)
        {
            for (size_t t = 0; t < m.m4[y].sats.size(); t++, k++)
            {
                Msg mixed = m;
                mixed.m4[y].sats[t] = all.m4[y].sats[t];
                check(mixed, fmtf("RANGECMP%d with differences of satellite %zu only", ver, k));
                // differences without a reference are left out, the others are not affected
                RangeDecompressor d(db());
                Model model;
                expect(d, model, mixed, fmtf("RANGECMP%d without the reference of satellite %zu", ver, k));
            }
        }
    }
}
// numbers of observations
static void counts(int ver)
{
    const int n = ver == 1 || TH ? choose(328) : std::array<int, 12>{0, 1, 2, 15, 16, 64, 65, 255, 324, 325, 326, 327}[static_cast<size_t>(choose(12))];
    Msg m;
    m.ver = ver;
    size_t bytes = 0;
    if (ver == 1) { for (int i = 0; i < n; i++) { m.m1.push_back({&SIGS[0], vary(nom1(SIGS[0]), 2, static_cast<size_t>(i))}); } }
    else if (ver == 2)
    {
        const int per = choose(2) ? 15 : 1;
        for (int i = 0; i < n; i++)
        {
            if (i % per == 0) { m.m2.push_back({&SIGS[0], nom2s(SIGS[0]), {}}); }
            m.m2.back().sigs.push_back({&SIGS[0], vary(nom2(SIGS[0]), 13, static_cast<size_t>(i))});
        }
        bytes = m.m2.size() * 10 + static_cast<size_t>(n) * 12;
    }
    else
    {
        int left = n;
        for (int sys : {0, 1, 5, 6, 7, 9})
        {
            if (left == 0) { break; }
            Sys4 y;
            y.sys = sys;
            vector<int> sg;
            for (auto& s : SIGS) { if (s.sys == sys && sg.size() < 2) { sg.push_back(s.sig4); } }
            for (int id = 1; id <= 64 && left; id++)
            {
                Sat4 t;
                t.id = id;
                for (int g : sg)
                {
                    if (!left) { break; }
                    left--;
                    t.sigs.push_back({g, vary(nom4(ver == 5 ? (t.sigs.empty() ? V5P : V5S) : (t.sigs.empty() ? REF1 : REF2)), 6, static_cast<size_t>(left))});
                }
                y.sats.push_back(t);
            }
            m.m4.push_back(y);
        }
    }
    if (n <= 325) { check(m, fmtf("RANGECMP%d of %d observations", ver, n)); }
    else
    {
        RangeDecompressor d(db());
        const Result r = decompress(d, m.binary());
        MC_REQUIRE(r.st == STATUS::DECOMPRESSION_FAILURE, "too-many", fmtf("RANGECMP%d of %d observations (%zu bytes): status %d", ver, n, bytes, static_cast<int>(r.st)));
        addStates(1);
    }
}
// differences at every millisecond of a second, in binary and in text
static string text(const Msg& m, int fmt, const string& sec)
{
    static const char* const NAMES[] = {"", "RANGECMP", "RANGECMP2", "RANGECMP3", "RANGECMP4", "RANGECMP5"};
    const string name = NAMES[m.ver], b = m.body(), sep = fmt == 1 ? "," : " ";
    const string port = m.src ? "" : "";
    auto hexs = [](std::string_view s) { string o; for (char c : s) { o += fmtf("%02x", static_cast<unsigned>(static_cast<unsigned char>(c))); } return o; };
    if (fmt == 1)
    {
        string s = asciiHeader(name + "A" + (m.src ? "_1" : ""), "COM1", 7, "40.0", "FINESTEERING", m.week, sec);
        if (m.ver == 1) { s += fmtf("%zu", m.m1.size()); for (size_t i = 0; i < m.m1.size(); i++) { s += "," + hexs(b.substr(4 + i * 24, 24)); } }
        else { s += fmtf("%zu,", b.size() - 4) + hexs(b.substr(4)); }
        return bld::ascii(s);
    }
    if (fmt == 2)
    {
        string s = abbHeader(name, "COM1", 7, "40.0", "FINESTEERING", m.week, sec);
        if (m.ver == 1) { s += fmtf("<     %zu\r\n", m.m1.size()); for (size_t i = 0; i < m.m1.size(); i++) { s += "<          " + hexs(b.substr(4 + i * 24, 24)) + "\r\n"; } }
        else { s += fmtf("<     %zu ", b.size() - 4) + hexs(b.substr(4)) + "\r\n"; }
        return s;
    }
    string s = "{\"header\": " + jsonHeader(m.id(), name, "COM1", 7, "40.0", "FINESTEERING", m.week, sec) + ",\"body\": {\"data\":[";
    auto arr = [](std::string_view v) { string o; for (char c : v) { o += fmtf("%s%u", o.empty() ? "" : ",", static_cast<unsigned>(static_cast<unsigned char>(c))); } return o; };
    if (m.ver == 1) { for (size_t i = 0; i < m.m1.size(); i++) { s += (i ? ",{\"r\":[" : "{\"r\":[") + arr(b.substr(4 + i * 24, 24)) + "]}"; } }
    else { s += arr(b.substr(4)); }
    return s + "]}}";
}
static Msg sample(int ver)
{
    Msg m;
    m.ver = ver;
    if (ver == 1) { m.m1 = {{&SIGS[0], nom1(SIGS[0])}, {&SIGS[6], nom1(SIGS[6])}}; }
    else if (ver == 2) { m.m2 = {{&SIGS[0], nom2s(SIGS[0]), {{&SIGS[0], nom2(SIGS[0])}, {&SIGS[1], nom2(SIGS[1])}}}, {&SIGS[6], nom2s(SIGS[6]), {{&SIGS[6], nom2(SIGS[6])}}}}; }
    else
    {
        Sat4 a, b;
        a.id = 12;
        a.sigs = {{1, nom4(ver == 5 ? V5P : REF1)}, {4, nom4(ver == 5 ? V5S : REF2)}};
        b.id = 3;
        b.slot = 9;
        b.sigs = {{1, nom4(ver == 5 ? V5P : REF1)}};
        m.m4 = {{0, {a}, 0}, {1, {b}, 0}};
    }
    return m;
}
static string binaryOf(RangeDecompressor& d, const string& in, const string& what)
{
    const Result r = decompress(d, in, 0, ENCODE_FORMAT::BINARY);
    MC_REQUIRE(r.st == STATUS::SUCCESS, "refused", what + fmtf(": status %d: ", static_cast<int>(r.st)) + printable(in));
    return r.bytes;
}
static void milliseconds()
{
    static const vector<int> bases = {0, 123, 604799};
    const int base = pick(bases), fmt = choose(4), hundred = choose(10);
    RangeDecompressor d(db());
    for (int k = 0; k < 100; k++)
    {
        const int ms = hundred * 100 + k;
        Msg ref = sample(4), m = ref;
        ref.ms = base * 1000ll + ms - (ms ? 1 : 0);
        m.ms = base * 1000ll + ms;
        for (auto& y : m.m4) { for (auto& t : y.sats) { t.diff = ms != 0; for (size_t i = 0; i < t.sigs.size() && ms; i++) { t.sigs[i].second = nom4(i ? DIF2 : DIF1); } } }
        Model model;
        d.Reset();
        model.apply(ref);
        const string what = fmtf("differences %d.%03d s into the week, format %d", base, ms, fmt);
        binaryOf(d, ref.binary(), what);
        const string sec = fmtf("%lld.%03lld", static_cast<long long>(m.ms / 1000), static_cast<long long>(m.ms % 1000));
        const string out = binaryOf(d, fmt ? text(m, fmt, sec) : m.binary(), what);
        const auto want = model.apply(m);
        MC_REQUIRE(out.size() == 36 + want.size() * 44, "observations", what + fmtf(": %zu bytes are reported for %zu observations", out.size(), want.size()));
        compareRows(want, out.substr(32, out.size() - 36), what);
        addStates(1);
    }
}
// a whole second read from text starts new references, whatever its value
static void wholeSeconds()
{
    const int fmt = choose(4), block = choose(TH ? 64 : 16);
    RangeDecompressor d(db());
    for (int k = 0; k < 200; k++)
    {
        const int64_t sec = (static_cast<int64_t>(block) * 200 + k) * (TH ? 47 : 189) % 604800;
        Msg ref = sample(4), m = ref;
        ref.ms = (sec ? sec * 1000 - 100 : 100);
        m.ms = sec * 1000;
        for (auto& y : m.m4) { for (auto& t : y.sats) { t.diff = true; for (size_t i = 0; i < t.sigs.size(); i++) { t.sigs[i].second = nom4(i ? DIF2 : DIF1); } } }
        Model model;
        d.Reset();
        model.apply(ref);
        const string what = fmtf("differences at the whole second %lld, format %d", static_cast<long long>(sec), fmt);
        binaryOf(d, ref.binary(), what);
        const string out = binaryOf(d, fmt ? text(m, fmt, fmtf("%lld.000", static_cast<long long>(sec))) : m.binary(), what);
        const auto want = model.apply(m);
        MC_REQUIRE(out.size() == 36 + want.size() * 44, "observations", what + fmtf(": %zu bytes are reported for %zu observations", out.size(), want.size()));
        addStates(1);
    }
}
// input formats x output formats
static void formats(int ver)
{
    static const ENCODE_FORMAT EF[] = {ENCODE_FORMAT::UNSPECIFIED, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY};
    static const ENCODE_FORMAT SAME[] = {ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON};
    const int in = choose(4), out = choose(6);
    Msg m = sample(ver);
    m.src = in == 1 || in == 0 ? choose(2) : 0;
    const string what = fmtf("RANGECMP%d from format %d to %d, source %d", ver, in, out, m.src);
    RangeDecompressor d(db()), d2(db());
    Model model;
    const auto want = model.apply(m);
    const string src = in ? text(m, in, "123.456") : m.binary();
    // the binary log is right
    const string bin = binaryOf(d2, src, what);
    MC_REQUIRE(bin.size() == 36 + want.size() * 44, "observations", what + fmtf(": %zu bytes are reported for %zu observations", bin.size(), want.size()));
    compareRows(want, bin.substr(32, bin.size() - 36), what);
    // and the requested format is what the decoder and encoder make of it
    const Result r = decompress(d, src, 0, EF[out]);
    MC_REQUIRE(r.st == STATUS::SUCCESS, "refused", what + fmtf(": status %d", static_cast<int>(r.st)));
    HeaderDecoder hd(db());
    MessageDecoder mdec(db());
    Encoder enc(db());
    IntermediateHeader h, hb;
    CompositeField body;
    MetaDataStruct meta, meta0;
    // the header comes from the input, with the new message in it
    MC_REQUIRE(hd.Decode(reinterpret_cast<const unsigned char*>(src.c_str()), h, meta0) == STATUS::SUCCESS, "oracle", what + ": header");
    MC_REQUIRE(hd.Decode(reinterpret_cast<const unsigned char*>(bin.c_str()), hb, meta) == STATUS::SUCCESS, "oracle", what + ": header of the result");
    MC_REQUIRE(mdec.Decode(reinterpret_cast<const unsigned char*>(bin.c_str()) + meta.uiHeaderLength, body, meta) == STATUS::SUCCESS, "oracle", what + ": body of the result");
    h.usMessageId = 43;
    meta.eFormat = meta0.eFormat;
    vector<unsigned char> buf(40000);
    unsigned char* p = buf.data();
    MessageDataStruct md;
    const ENCODE_FORMAT ef = out == 0 ? SAME[in] : EF[out];
    MC_REQUIRE(enc.Encode(&p, 40000, h, body, md, meta.eFormat, ef) == STATUS::SUCCESS, "oracle", what + ": encoding");
    const string exp(reinterpret_cast<char*>(md.pucMessage), md.uiMessageLength);
    MC_REQUIRE(r.bytes == exp, "format", what + " gives " + printable(r.bytes) + " instead of " + printable(exp));
    MC_REQUIRE(r.meta.uiLength == exp.size() && r.meta.uiHeaderLength == md.uiMessageHeaderLength, "metadata", what + fmtf(": lengths %u and %u are reported instead of %zu and %u", r.meta.uiLength, r.meta.uiHeaderLength, exp.size(), md.uiMessageHeaderLength));
    MC_REQUIRE(r.meta.usMessageId == 43 && r.meta.messageName == "RANGE" && static_cast<int>(r.meta.ucSiblingId) == m.src, "metadata", what + ": wrong message in the metadata");
    addStates(1);
    distinct(hashStr(src, static_cast<uint64_t>(out)));
}
// buffers of every size
static void sizes(int ver)
{
    static const ENCODE_FORMAT EF[] = {ENCODE_FORMAT::UNSPECIFIED, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::FLATTENED_BINARY};
    const int out = choose(5);
    const string src = sample(ver).binary();
    RangeDecompressor d(db());
    const Result whole = decompress(d, src, 0, EF[out]);
    MC_REQUIRE(whole.st == STATUS::SUCCESS, "refused", fmtf("RANGECMP%d: status %d", ver, static_cast<int>(whole.st)));
    for (size_t n = src.size() - 4; n <= whole.bytes.size() + 3; n++)
    {
        d.Reset();
        const Result r = decompress(d, src, n, EF[out]);
        if (r.st == STATUS::SUCCESS) { MC_REQUIRE(r.bytes == whole.bytes, "size-changes", fmtf("RANGECMP%d in %zu bytes gives ", ver, n) + printable(r.bytes)); }
        else
        {
            MC_REQUIRE(r.st == STATUS::BUFFER_FULL, "full-status", fmtf("RANGECMP%d to format %d in %zu of %zu bytes: status %d", ver, out, n, whole.bytes.size(), static_cast<int>(r.st)));
            MC_REQUIRE(n <= whole.bytes.size(), "full-early", fmtf("RANGECMP%d to format %d in %zu bytes is refused for %zu", ver, out, n, whole.bytes.size()));
        }
        addStates(1);
    }
}
// cut bodies, counts that lie, single faults: refused or handled within the message
static void damage(int ver)
{
    Msg m = sample(ver);
    const string body = m.body();
    const int kind = choose(3);
    auto run = [&](const string& b, bool mustFail, const string& what) {
        const string head = m.head(m.id(), b.size());
        string res[2];
        for (int fill = 0; fill < 2; fill++)
        {
            // nothing behind the message may matter: once with a tail, once in a buffer that ends with it
            RangeDecompressor d(db());
            const string in = bld::withCrc(head + b);
            const Result r = fill ? decompress(d, in, in.size()) : decompress(d, in + string(400, '\xFF'));
            MC_REQUIRE(r.st == STATUS::SUCCESS || r.st == STATUS::DECOMPRESSION_FAILURE || (fill && r.st == STATUS::BUFFER_FULL), "damage-status", what + fmtf(": status %d", static_cast<int>(r.st)));
            MC_REQUIRE(!mustFail || r.st == STATUS::DECOMPRESSION_FAILURE, "damage-accepted", what + fmtf(": status %d for a message that claims more than it has", static_cast<int>(r.st)));
            res[fill] = r.st == STATUS::DECOMPRESSION_FAILURE ? "refused" : "accepted";
        }
        MC_REQUIRE(res[0] == res[1], "foreign", what + ": " + res[0] + " with data behind the message, " + res[1] + " without");
        RangeDecompressor a(db()), c(db());
        const string in = head + b;
        const Result x = decompress(a, in + string(500, '\0')), z = decompress(c, in + string(500, '\xA5'));
        MC_REQUIRE(x.st == z.st && x.bytes == z.bytes, "foreign", what + ": what is behind the message changes the result");
        addStates(1);
    };
    if (kind == 0)
    {
        for (size_t n = 0; n < body.size(); n++)
        {
            run(body.substr(0, n), true, fmtf("RANGECMP%d cut to %zu of %zu bytes", ver, n, body.size()));
            // with the count of bytes put right, where there is one
            if (ver != 1 && n >= 4) { run(le(n - 4, 4) + body.substr(4, n - 4), n + 4 < body.size() && ver != 2, fmtf("RANGECMP%d shortened to %zu of %zu bytes", ver, n, body.size())); }
        }
    }
    else if (kind == 1)
    {
        const uint64_t c = ver == 1 ? m.m1.size() : body.size() - 4;
        for (uint64_t v : {c + 1, c + 2, c + 4, uint64_t{325}, uint64_t{326}, uint64_t{7150}, uint64_t{7151}, uint64_t{0x7FFF}, uint64_t{0x8000}, uint64_t{0x10000}, uint64_t{0x0AAAAAAB}, uint64_t{0x15555556}, uint64_t{0x7FFFFFFF}, uint64_t{0x80000000}, uint64_t{0xFFFFFFF0}, uint64_t{0xFFFFFFFC}, uint64_t{0xFFFFFFFF}})
        {
            run(le(v, 4) + body.substr(4), v > c, fmtf("RANGECMP%d with a count of %llu instead of %llu", ver, static_cast<unsigned long long>(v), static_cast<unsigned long long>(c)));
        }
        for (uint64_t v = 0; v < c; v++) { run(le(v, 4) + body.substr(4), false, fmtf("RANGECMP%d with a count of %llu instead of %llu", ver, static_cast<unsigned long long>(v), static_cast<unsigned long long>(c))); }
    }
    else
    {
        const size_t at = static_cast<size_t>(choose(static_cast<int>(body.size())));
        for (int v = 0; v < 256; v++)
        {
            if (!TH && __builtin_popcount(static_cast<unsigned>(v ^ static_cast<unsigned char>(body[at]))) > 1 && v != 0xFF && v != 0 && v != 0x7F && v != 0xAA) { continue; }
            string b = body;
            b[at] = static_cast<char>(v);
            run(b, false, fmtf("RANGECMP%d with byte %zu = %02x", ver, at, static_cast<unsigned>(v)));
        }
    }
    distinct(hashStr(body, static_cast<uint64_t>(kind)));
}
// what is not a compressed range message
static void others()
{
    const string rows = le(0, 4);
    const Msg m = sample(4);
    const int k = choose(5);
    RangeDecompressor d(db());
    string in = m.binary();
    STATUS want = STATUS::UNSUPPORTED;
    if (k == 0) { in = bld::withCrc(m.head(43, 4) + rows); }
    if (k == 1) { string h = m.head(2050, 6); h[6] = static_cast<char>(0x80); in = bld::withCrc(h + le(1, 4) + "OK"); }
    if (k == 2) { string h = m.head(2049, m.body().size()); in = bld::withCrc(h + m.body()); }
    if (k == 3)
    {
        RangeDecompressor e;
        MetaDataStruct meta;
        string b = in;
        MC_REQUIRE(e.Decompress(reinterpret_cast<unsigned char*>(b.data()), static_cast<uint32_t>(b.size()), meta) == STATUS::NO_DATABASE, "no-database", "no database is not reported");
        MC_REQUIRE(e.Decompress(nullptr, 100, meta) == STATUS::NULL_PROVIDED, "null", "a null buffer is not reported");
        e.LoadJsonDb(db());
        Model model;
        expect(e, model, m, "after loading a database");
        return;
    }
    if (k == 4) { in = bld::ascii(asciiHeader("NOSUCHA") + "1"); want = STATUS::NO_DEFINITION; }
    const Result r = decompress(d, in);
    MC_REQUIRE(k == 4 ? r.st != STATUS::SUCCESS : r.st == want, "others", fmtf("status %d for message %d that is no compressed range message", static_cast<int>(r.st), k));
    addStates(1);
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P19";
    ck.level = "model_checking";
    ck.rule = "One execution is one compressed range message (variant, signals, raw bit fields) built by an independent bit writer and decompressed by the real decompressor; the RANGE log is compared field by field (tolerance a quarter of the "
              "field's resolution) with a model written from the published layouts, scale factors, carrier frequencies, deviation tables and channel tracking status word. All values of fields up to 11 bits, all basis and border values of wider "
              "fields, for every signal; pairs of fields; every satellite number and frequency number; all small matrices of systems, satellites and signals; every count; every millisecond of a second; every buffer size; every cut and single fault.";
    ck.assumptions = {"not judged: values relative to an invalid primary or reference value, the grouping flag of satellites some of whose differences lack a reference, satellite numbers and frequency numbers outside the documented ranges",
                      "carrier phase of RANGECMP exactly between two rollovers"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    quietLogs();
    TH = ck.thorough();
    for (size_t i = 0; i < PLACES.size(); i++)
    {
        ck.unit(fmtf("fields/%d/%d", PLACES[i].ver, PLACES[i].part), [i] { fields(i); });
        ck.unit(fmtf("pairs/%d/%d", PLACES[i].ver, PLACES[i].part), [i] { pairs(i); });
    }
    for (int v = 1; v <= 5; v++)
    {
        ck.unit(fmtf("satellites/%d", v), [v] { satellites(v); });
        ck.unit(fmtf("structures/%d", v), [v] { structures(v); });
        ck.unit(fmtf("counts/%d", v), [v] { counts(v); });
        ck.unit(fmtf("formats/%d", v), [v] { formats(v); });
        ck.unit(fmtf("sizes/%d", v), [v] { sizes(v); });
        ck.unit(fmtf("damage/%d", v), [v] { damage(v); });
    }
    ck.unit("milliseconds", [] { milliseconds(); });
    ck.unit("whole seconds", [] { wholeSeconds(); });
    ck.unit("others", [] { others(); });
    return runCheck(ck, argc, argv);
}
