// Compressed range messages: independent builders, and a model of what they report.
#pragma once
#include <array>
#include <cmath>
#include <map>

#include "edie.hpp"

#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"
#include "novatel_edie/decoders/oem/rangecmp/range_decompressor.hpp"

namespace rg {
using namespace novatel::edie;
using namespace novatel::edie::oem;
using namespace ed;
using bld::le;
using std::string;
using std::vector;
using namespace mc;

// ---------------------------------------------------------------- signals (published tables)
constexpr double GLO_L1 = -1, GLO_L2 = -2; // carriers that depend on the frequency number
struct Sig
{
    const char* name;
    int sys, sig2, sig4, ctsSys, ctsSig;
    double mhz, scale;
};
inline const vector<Sig> SIGS = {
    {"GPS L1CA", 0, 1, 1, 0, 0, 1575.42, 1},       {"GPS L2Y", 0, 4, 4, 0, 9, 1227.6, 154 / 120.0},        {"GPS L2C", 0, 5, 5, 0, 17, 1227.6, 154 / 120.0},
    {"GPS L2P", 0, 6, 6, 0, 5, 1227.6, 154 / 120.0}, {"GPS L5Q", 0, 7, 7, 0, 14, 1176.45, 154 / 115.0},     {"GPS L1C", 0, 15, 15, 0, 16, 1575.42, 1},
    {"GLONASS L1CA", 1, 1, 1, 1, 0, GLO_L1, 1},     {"GLONASS L2CA", 1, 3, 3, 1, 1, GLO_L2, 9 / 7.0},       {"GLONASS L2P", 1, 4, 4, 1, 5, GLO_L2, 9 / 7.0},
    {"GLONASS L3", 1, 6, 6, 1, 6, 1202.025, 313 / 235.0},
    {"SBAS L1CA", 2, 1, 1, 2, 0, 1575.42, 1},       {"SBAS L5I", 2, 2, 2, 2, 6, 1176.45, 154 / 115.0},
    {"Galileo E1", 5, 1, 1, 3, 2, 1575.42, 1},      {"Galileo E5A", 5, 2, 2, 3, 12, 1176.45, 154 / 115.0},  {"Galileo E5B", 5, 3, 3, 3, 17, 1207.14, 154 / 118.0},
    {"Galileo AltBOC", 5, 4, 4, 3, 20, 1191.795, 154 / 116.5}, {"Galileo E6C", 5, 5, 5, 3, 7, 1278.75, 154 / 125.0}, {"Galileo E6B", 5, 12, 12, 3, 6, 1278.75, 154 / 125.0},
    {"BeiDou B1I", 6, 1, 1, 4, 0, 1561.098, 1},     {"BeiDou B1GEO", 6, 2, 2, 4, 4, 1561.098, 1},           {"BeiDou B2I", 6, 3, 3, 4, 1, 1207.14, 1526 / 1180.0},
    {"BeiDou B2GEO", 6, 4, 4, 4, 5, 1207.14, 1526 / 1180.0}, {"BeiDou B3I", 6, 13, 5, 4, 2, 1268.52, 1526 / 1240.0}, {"BeiDou B3GEO", 6, 16, 6, 4, 6, 1268.52, 1526 / 1240.0},
    {"BeiDou B1CP", 6, 19, 7, 4, 7, 1575.42, 1526 / 1540.0}, {"BeiDou B2AP", 6, 20, 9, 4, 9, 1176.45, 1526 / 1150.0}, {"BeiDou B2BI", 6, 21, 11, 4, 11, 1207.14, 1526 / 1180.0},
    {"QZSS L1CA", 7, 1, 1, 5, 0, 1575.42, 1},       {"QZSS L1CB", 7, 2, 2, 5, 24, 1575.42, 1},              {"QZSS L2C", 7, 3, 3, 5, 17, 1227.6, 154 / 120.0},
    {"QZSS L5Q", 7, 4, 4, 5, 14, 1176.45, 154 / 115.0}, {"QZSS L1C", 7, 8, 8, 5, 16, 1575.42, 1},           {"QZSS L6D", 7, 10, 10, 5, 28, 1278.75, 154 / 125.0},
    {"QZSS L6P", 7, 11, 11, 5, 27, 1278.75, 154 / 125.0},
    {"NavIC L5", 9, 1, 1, 6, 0, 1176.45, 1}};
inline const Sig* sigOf(int sys, int sig4)
{
    for (auto& s : SIGS) { if (s.sys == sys && s.sig4 == sig4) { return &s; } }
    return nullptr;
}
inline double lambda(const Sig& s, int slot)
{
    const double mhz = s.mhz == GLO_L1 ? 1602 + 0.5625 * (slot - 7) : s.mhz == GLO_L2 ? 1246 + 0.4375 * (slot - 7) : s.mhz;
    return 299.792458 / mhz;
}
// the PRN a RANGE log reports for the satellite numbers 1..64 of RANGECMP3/4/5; -1: no such satellite
inline int prn4(int sys, int id)
{
    if (sys == 1) { return id >= 43 ? 0 : id + 37; }
    if (sys == 2) { return id <= 39 ? id + 119 : id >= 54 && id <= 62 ? id + 129 : -1; }
    if (sys == 7) { return id + 192; }
    return id;
}

// ---------------------------------------------------------------- fields
struct Bits // least significant bit first
{
    string s;
    size_t n = 0;
    void put(uint64_t v, int width)
    {
        for (int i = 0; i < width; i++, n++)
        {
            if (n / 8 == s.size()) { s += '\0'; }
            if (v >> i & 1) { s[n / 8] = static_cast<char>(s[n / 8] | 1 << (n % 8)); }
        }
    }
};
inline int64_t sx(uint64_t v, int width) { return static_cast<int64_t>(v << (64 - width)) >> (64 - width); }
struct Fld
{
    const char* name;
    int width;
};
using Raw = vector<uint64_t>;
inline const vector<Fld> F1 = {{"status", 32}, {"doppler", 28}, {"pseudorange", 36}, {"carrier phase", 32}, {"psr deviation", 4}, {"adr deviation", 4}, {"PRN", 8}, {"lock time", 21}, {"C/No", 5}, {"frequency", 6}, {"reserved", 16}};
inline const vector<Fld> F2S = {{"channel", 8}, {"satellite", 8}, {"frequency", 4}, {"system", 5}, {"reserved", 1}, {"pseudorange base", 29}, {"doppler base", 21}};
inline const vector<Fld> F2 = {{"signal", 5}, {"phase lock", 1}, {"parity", 1}, {"code lock", 1}, {"lock time", 17}, {"correlator", 4}, {"primary", 1}, {"half cycle", 1}, {"reserved", 1}, {"C/No", 5}, {"psr deviation", 4}, {"adr deviation", 4}, {"pseudorange", 14}, {"carrier phase", 20}, {"doppler", 17}};
enum Kind4 { REF1, REF2, DIF1, DIF2, V5P, V5S };
inline const vector<Fld>& fields4(Kind4 k)
{
    static const vector<Fld> f[] = {
        {{"parity", 1}, {"half cycle", 1}, {"C/No", 11}, {"lock time", 4}, {"psr deviation", 4}, {"adr deviation", 4}, {"pseudorange", 37}, {"carrier phase", 23}, {"doppler", 26}},
        {{"parity", 1}, {"half cycle", 1}, {"C/No", 11}, {"lock time", 4}, {"psr deviation", 4}, {"adr deviation", 4}, {"pseudorange", 20}, {"carrier phase", 23}, {"doppler", 14}},
        {{"parity", 1}, {"half cycle", 1}, {"C/No", 11}, {"lock time", 4}, {"psr deviation", 4}, {"adr deviation", 4}, {"pseudorange", 19}, {"carrier phase", 16}, {"doppler", 18}},
        {{"parity", 1}, {"half cycle", 1}, {"C/No", 11}, {"lock time", 4}, {"psr deviation", 4}, {"adr deviation", 4}, {"pseudorange", 19}, {"carrier phase", 16}, {"doppler", 14}},
        {{"parity", 1}, {"half cycle", 1}, {"C/No", 11}, {"lock time", 4}, {"psr deviation", 5}, {"adr deviation", 5}, {"pseudorange", 37}, {"carrier phase", 23}, {"doppler", 28}},
        {{"parity", 1}, {"half cycle", 1}, {"C/No", 11}, {"lock time", 4}, {"psr deviation", 5}, {"adr deviation", 5}, {"pseudorange", 20}, {"carrier phase", 23}, {"doppler", 16}}};
    return f[k];
}
inline void putAll(Bits& b, const vector<Fld>& f, const Raw& r)
{
    for (size_t i = 0; i < f.size(); i++) { b.put(r[i], f[i].width); }
}

// ---------------------------------------------------------------- messages
struct Obs1 { const Sig* sig; Raw r; };
struct Sat2 { const Sig* any; Raw r; vector<std::pair<const Sig*, Raw>> sigs; };
struct Sat4
{
    int id = 1;
    bool diff = false;
    int ref = 0, slot = 0;
    vector<std::pair<int, Raw>> sigs; // by signal bit, ascending
};
struct Sys4
{
    int sys = 0;
    vector<Sat4> sats;
    uint32_t extra = 0; // signals of the mask that no satellite has
};
struct Msg
{
    int ver = 4;
    vector<Obs1> m1;
    vector<Sat2> m2;
    vector<Sys4> m4;
    int week = 2000;
    int64_t ms = 123456;
    int src = 0;
    string body() const
    {
        if (ver == 1)
        {
            string s = le(m1.size(), 4);
            for (auto& o : m1)
            {
                Bits b;
                putAll(b, F1, o.r);
                s += b.s;
            }
            return s;
        }
        string d;
        if (ver == 2)
        {
            for (auto& t : m2)
            {
                Bits b;
                putAll(b, F2S, t.r);
                b.put(t.sigs.size(), 4);
                for (auto& g : t.sigs) { putAll(b, F2, g.second); }
                d += b.s;
            }
            return le(d.size(), 4) + d;
        }
        Bits b;
        uint64_t systems = 0;
        for (auto& y : m4) { systems |= 1ull << y.sys; }
        b.put(systems, 16);
        for (auto& y : m4)
        {
            uint64_t sats = 0, mask = y.extra;
            for (auto& t : y.sats)
            {
                sats |= 1ull << (t.id - 1);
                for (auto& g : t.sigs) { mask |= 1ull << g.first; }
            }
            b.put(sats, 64);
            b.put(mask, 16);
            for (auto& t : y.sats)
            {
                for (int i = 0; i < 16; i++)
                {
                    if (!(mask >> i & 1)) { continue; }
                    bool has = false;
                    for (auto& g : t.sigs) { has |= g.first == i; }
                    b.put(has, 1);
                }
            }
            for (auto& t : y.sats)
            {
                b.put(t.diff, 1);
                b.put(static_cast<uint64_t>(t.ref), 3);
                if (y.sys == 1 && (!t.diff || ver == 5)) { b.put(static_cast<uint64_t>(t.slot), 5); }
                bool first = true;
                for (auto& g : t.sigs)
                {
                    putAll(b, fields4(kind(t, first)), g.second);
                    first = false;
                }
            }
        }
        while (b.s.size() % 4) { b.s += '\0'; }
        return le(b.s.size(), 4) + b.s;
    }
    Kind4 kind(const Sat4& t, bool first) const { return ver == 5 ? (first ? V5P : V5S) : t.diff ? (first ? DIF1 : DIF2) : first ? REF1 : REF2; }
    uint32_t id() const { return ver == 1 ? 140 : ver == 2 ? 1273 : ver == 3 ? 1734 : ver == 4 ? 2050 : 2537; }
    string head(uint32_t msgId, size_t len) const
    {
        return "\xAA\x44\x12\x1C" + le(msgId, 2) + le(static_cast<uint64_t>(src), 1) + le(32, 1) + le(len, 2) + le(7, 2) + le(80, 1) + le(180, 1) + le(static_cast<uint64_t>(week), 2) + le(static_cast<uint64_t>(ms), 4) + le(0x02000000, 4) + le(0x1234, 2) + le(12816, 2);
    }
    string binary() const { const string b = body(); return bld::withCrc(head(id(), b.size()) + b); }
};

// ---------------------------------------------------------------- what is reported
struct Row
{
    int prn = 0, slot = 0;
    double psr = 0, psd = 0, adr = 0, add = 0, dop = 0, cn0 = 0, lock = 0;
    uint32_t cts = 0;
    bool freeAdr = false, freePsr = false, freeDop = false, freeGroup = false; // not defined by the layout
    double adrTol = 0, dopTol = 0, psrTol = 0;
    string what;
};
constexpr double PSD1[16] = {0.050, 0.075, 0.113, 0.169, 0.253, 0.380, 0.570, 0.854, 1.281, 2.375, 4.750, 9.500, 19.000, 38.000, 76.000, 152.000};
constexpr double PSD2[16] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 5.409};
constexpr double ADS2[16] = {0.00391, 0.00521, 0.00696, 0.00929, 0.01239, 0.01654, 0.02208, 0.02947, 0.03933, 0.05249, 0.07006, 0.09350, 0.12480, 0.16656, 0.22230, 0.22230};
constexpr double ADS4[16] = {0.003, 0.005, 0.007, 0.009, 0.012, 0.016, 0.022, 0.029, 0.039, 0.052, 0.070, 0.093, 0.124, 0.166, 0.222, 0.222};
constexpr double PSD5[32] = {0.020, 0.030, 0.045, 0.066, 0.099, 0.148, 0.220, 0.329, 0.491, 0.732, 1.092, 1.629, 2.430, 3.625, 5.409, 6.876, 8.741, 11.111, 14.125, 17.957, 22.828, 29.020, 36.891, 46.898, 59.619, 75.791, 96.349, 122.484, 155.707, 197.943, 251.634, 251.634};
constexpr double ADS5[32] = {0.00391, 0.00458, 0.00536, 0.00628, 0.00735, 0.00861, 0.01001, 0.01182, 0.01385, 0.01621, 0.01900, 0.02223, 0.02607, 0.03054, 0.03577, 0.04190, 0.04908, 0.05749, 0.06734, 0.07889, 0.09240, 0.10824, 0.12679, 0.14851, 0.17396, 0.20378, 0.23870, 0.27961, 0.32753, 0.38366, 0.44940, 0.44940};
constexpr double LOCK4[16] = {0, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144};

// The documented evolution of the data of one decompressor.
struct Model
{
    struct L2 { bool sat = false; int64_t at = 0; };
    struct L4 { int bits = 255; bool absolute = false; int64_t since = 0; };
    struct Ref { int id = 0, slot = 0; double psr = 0, phr = 0, dop = 0; bool ok = true; };
    using Key = std::array<int, 4>; // system, satellite, signal, source
    std::map<Key, L2> l2;
    std::map<Key, L4> l4;
    std::map<Key, Ref> refs;

    static int64_t time(const Msg& m) { return static_cast<int64_t>(m.week) * 604800000 + m.ms; }
    double lock2(const Key& k, uint64_t bits, int64_t t)
    {
        L2& s = l2[k];
        if (bits != 0x1FFFF) { s.sat = false; return static_cast<double>(bits) / 1000; }
        if (!s.sat) { s = {true, t}; }
        return static_cast<double>(131071 + t - s.at) / 1000;
    }
    double lock4(const Key& k, int b, int64_t t)
    {
        L4& s = l4[k];
        if (!s.absolute && b != s.bits)
        {
            if (b == 0 || b > s.bits) { s.absolute = true; } // a change upwards tells the exact time, from now on
            s.since = t;
            s.bits = b;
        }
        else if (b < s.bits) { s = {b, false, t}; } // an outage
        else if (s.absolute && b < 15 && static_cast<double>(t - s.since) > LOCK4[b + 1]) { s.since = t; }
        return (static_cast<double>(t - s.since) + LOCK4[s.bits]) / 1000;
    }
    vector<Row> apply(const Msg& m)
    {
        vector<Row> out;
        const int64_t t = time(m);
        if (m.ver == 1)
        {
            for (auto& o : m.m1)
            {
                const Raw& r = o.r;
                Row w;
                w.what = o.sig->name;
                w.cts = static_cast<uint32_t>(r[0]);
                w.prn = static_cast<int>(r[6]);
                w.slot = static_cast<int>(r[9]);
                w.dop = static_cast<double>(sx(r[1], 28)) / 256;
                w.psr = static_cast<double>(r[2]) / 128;
                w.psd = PSD1[r[4]];
                w.add = static_cast<double>(r[5] + 1) / 512;
                w.lock = static_cast<double>(r[7]) / 32;
                w.cn0 = static_cast<double>(r[8]) + 20;
                const double l = lambda(*o.sig, w.slot), M = 8388608, x = (w.psr / l + static_cast<double>(r[3]) / 256) / M;
                w.freeAdr = std::abs(x - std::floor(x) - 0.5) < 1e-6;
                w.adr = static_cast<double>(r[3]) / 256 - M * std::round(x);
                w.adrTol = 1.0 / 1024;
                w.dopTol = 1.0 / 1024;
                w.psrTol = 1.0 / 1024;
                out.push_back(w);
            }
            return out;
        }
        if (m.ver == 2)
        {
            for (auto& y : m.m2)
            {
                for (auto& g : y.sigs)
                {
                    const Raw& r = g.second;
                    const Sig& s = *g.first;
                    Row w;
                    w.what = s.name;
                    w.prn = static_cast<int>(y.r[1]) + (s.sys == 1 ? 37 : 0);
                    w.slot = static_cast<int>(y.r[2]);
                    const double base = static_cast<double>(sx(y.r[5], 29)), dbase = static_cast<double>(sx(y.r[6], 21));
                    w.psr = base + static_cast<double>(r[12]) / 128;
                    w.adr = -(base + static_cast<double>(r[13]) / 2048) / lambda(s, w.slot);
                    w.dop = (dbase + static_cast<double>(sx(r[14], 17)) / 256) / s.scale;
                    w.psd = PSD2[r[10]];
                    w.add = ADS2[r[11]];
                    w.cn0 = static_cast<double>(r[9]) + 20;
                    w.lock = lock2({s.ctsSys, w.prn, s.ctsSig, m.src}, r[4], t);
                    w.cts = (r[6] ? 4u : 11u) | static_cast<uint32_t>(y.r[0] & 31) << 5 | static_cast<uint32_t>(r[1]) << 10 | static_cast<uint32_t>(r[2]) << 11 | static_cast<uint32_t>(r[3]) << 12 | static_cast<uint32_t>(r[5] & 7) << 13 |
                            static_cast<uint32_t>(s.ctsSys) << 16 | (y.sigs.size() > 1 ? 1u << 20 : 0) | static_cast<uint32_t>(s.ctsSig) << 21 | static_cast<uint32_t>(r[6]) << 27 | static_cast<uint32_t>(r[7]) << 28;
                    w.psrTol = 1.0 / 1024;
                    w.adrTol = 1.0 / 2048 / 4 / lambda(s, w.slot);
                    w.dopTol = 1.0 / 1024;
                    out.push_back(w);
                }
            }
            return out;
        }
        const double dt = static_cast<double>(m.ms % 1000) / 1000;
        if (m.ver != 5 && m.ms % 1000 == 0)
        {
            for (auto it = refs.begin(); it != refs.end();) { it = it->first[3] == m.src ? refs.erase(it) : std::next(it); }
        }
        for (auto& y : m.m4)
        {
            for (auto& x : y.sats)
            {
                bool first = true, skipped = false;
                double p0 = 0, d0 = 0;
                bool pOk = true, dOk = true;
                const size_t from = out.size();
                for (auto& g : x.sigs)
                {
                    const bool prim = first;
                    first = false;
                    const Raw& r = g.second;
                    const Sig& s = *sigOf(y.sys, g.first);
                    const vector<Fld>& f = fields4(m.kind(x, prim));
                    const Key k{y.sys, x.id, g.first, m.src};
                    Row w;
                    w.what = string(s.name) + fmtf(" satellite %d", x.id);
                    const int64_t ip = m.kind(x, prim) == REF1 || m.kind(x, prim) == V5P ? static_cast<int64_t>(r[6]) : sx(r[6], f[6].width);
                    const int64_t ih = sx(r[7], f[7].width), id = sx(r[8], f[8].width);
                    const bool vp = m.kind(x, prim) == REF1 || m.kind(x, prim) == V5P ? r[6] != (1ull << 37) - 1 : ip != -(1ll << (f[6].width - 1));
                    const bool vh = ih != -(1ll << (f[7].width - 1)), vd = id != -(1ll << (f[8].width - 1));
                    double psr, phr, dop;
                    bool okP = true, okD = true; // what the values are relative to is valid
                    int slot = x.slot;
                    if (m.ver != 5 && x.diff)
                    {
                        const auto it = refs.find(k);
                        if (it == refs.end() || it->second.id != x.ref) { skipped = true; continue; }
                        const Ref& q = it->second;
                        psr = static_cast<double>(ip) * 0.0005 + q.psr + q.dop * dt;
                        phr = static_cast<double>(ih) * 0.0001 + q.phr + q.dop * dt;
                        dop = static_cast<double>(id) * 0.0001 + q.dop;
                        okP = okD = q.ok;
                        slot = q.slot;
                    }
                    else
                    {
                        psr = static_cast<double>(ip) * 0.0005 + (prim ? 0 : p0);
                        phr = static_cast<double>(ih) * 0.0001 + psr;
                        dop = static_cast<double>(id) * 0.0001 + (prim ? 0 : d0);
                        okP = prim || pOk;
                        okD = prim || dOk;
                        if (prim) { p0 = psr; d0 = dop; pOk = vp; dOk = vd; }
                        if (m.ver != 5) { refs[k] = {x.ref, x.slot, psr, phr, dop, vp && vh && vd && okP && okD}; }
                    }
                    if (y.sys != 1) { slot = 0; }
                    const double l = lambda(s, slot);
                    w.prn = prn4(y.sys, x.id);
                    w.slot = slot;
                    w.psr = vp ? psr : NAN;
                    w.adr = vh ? -phr / l : NAN;
                    w.dop = vd ? -dop / l : NAN;
                    w.freePsr = vp && !okP;
                    w.freeAdr = vh && (!okP || (!vp && !x.diff));
                    w.freeDop = vd && !okD;
                    w.psd = m.ver == 5 ? PSD5[r[4]] : PSD2[r[4]];
                    w.add = m.ver == 5 ? ADS5[r[5]] : ADS4[r[5]];
                    w.cn0 = static_cast<double>(r[2]) * 0.05;
                    w.lock = lock4({s.ctsSys, x.id, s.ctsSig, m.src}, static_cast<int>(r[3]), t);
                    const bool primary = g.first == 1 || ((y.sys == 6 || y.sys == 7) && g.first == 2);
                    w.cts = (primary ? 4u : 11u) | (vh ? 1u << 10 : 0) | static_cast<uint32_t>(r[0]) << 11 | (vp ? 1u << 12 : 0) | static_cast<uint32_t>(s.ctsSys) << 16 | static_cast<uint32_t>(s.ctsSig) << 21 | (primary ? 1u << 27 : 0) | static_cast<uint32_t>(r[1]) << 28 |
                            (x.sigs.size() > 1 ? 1u << 20 : 0);
                    w.psrTol = 0.000125;
                    w.adrTol = 0.000025 / l;
                    w.dopTol = 0.000025 / l;
                    out.push_back(w);
                }
                for (size_t i = from; i < out.size(); i++) { out[i].freeGroup = skipped; }
            }
        }
        return out;
    }
    void reset() { *this = Model(); }
};

// ---------------------------------------------------------------- running the decompressor
inline const MessageDatabase::Ptr& db()
{
    static const MessageDatabase::Ptr p = [] {
        const F rows = {"obs", "FIELD_ARRAY", "UNKNOWN", 44, "", "", 325, -1, "",
                        {{"prn", "SIMPLE", "USHORT", 2, "%hu"}, {"slot", "SIMPLE", "USHORT", 2, "%hu"}, {"psr", "SIMPLE", "DOUBLE", 8, "%.3lf"}, {"psd", "SIMPLE", "FLOAT", 4, "%.3f"}, {"adr", "SIMPLE", "DOUBLE", 8, "%.6lf"},
                         {"add", "SIMPLE", "FLOAT", 4, "%.3f"}, {"dop", "SIMPLE", "FLOAT", 4, "%.3f"}, {"cn0", "SIMPLE", "FLOAT", 4, "%.1f"}, {"lock", "SIMPLE", "FLOAT", 4, "%.3f"}, {"tstat", "SIMPLE", "ULONG", 4, "%lx"}}};
        const F raw = {"data", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%Z", "", 7200};
        vector<M> ms;
        ms.push_back({43, "RANGE", {rows}});
        ms.push_back({140, "RANGECMP", {{"data", "FIELD_ARRAY", "UNKNOWN", 24, "", "", 325, -1, "", {{"r", "FIXED_LENGTH_ARRAY", "UCHAR", 1, "%Z", "", 24}}}}});
        ms.push_back({1273, "RANGECMP2", {raw}});
        ms.push_back({1734, "RANGECMP3", {raw}});
        ms.push_back({2050, "RANGECMP4", {raw}});
        ms.push_back({2537, "RANGECMP5", {raw}});
        return makeDb(ms);
    }();
    return p;
}
struct Result
{
    STATUS st = STATUS::FAILURE;
    string bytes;
    MetaDataStruct meta;
};
// In a buffer of exactly `size` bytes when size is not 0.
inline Result decompress(RangeDecompressor& d, const string& msg, size_t size = 0, ENCODE_FORMAT f = ENCODE_FORMAT::UNSPECIFIED)
{
    static vector<unsigned char> big(40000);
    std::unique_ptr<unsigned char[]> own;
    unsigned char* p = big.data();
    Result r;
    if (size)
    {
        own.reset(new unsigned char[size]);
        p = own.get();
        memset(p, 0xEE, size);
        memcpy(p, msg.data(), std::min(size, msg.size()));
    }
    else
    {
        size = big.size();
        memcpy(p, msg.data(), msg.size());
        p[msg.size()] = 0;
    }
    addTransitions(1);
    try { r.st = d.Decompress(p, static_cast<uint32_t>(size), r.meta, f); }
    catch (const std::exception& e) { fail("exception", string("Decompress threw ") + e.what() + ": " + hex(msg)); }
    if (r.st == STATUS::SUCCESS)
    {
        MC_REQUIRE(r.meta.uiLength <= size, "length", fmtf("a length of %u is reported in a buffer of %zu bytes", r.meta.uiLength, size));
        r.bytes.assign(reinterpret_cast<char*>(p), r.meta.uiLength);
    }
    return r;
}
inline Row readRow(const string& b, size_t at)
{
    auto rd = [&](auto v, size_t o) { memcpy(&v, b.data() + at + o, sizeof v); return v; };
    Row r;
    r.prn = rd(uint16_t(), 0);
    r.slot = rd(int16_t(), 2);
    r.psr = rd(double(), 4);
    r.psd = static_cast<double>(rd(float(), 12));
    r.adr = rd(double(), 16);
    r.add = static_cast<double>(rd(float(), 24));
    r.dop = static_cast<double>(rd(float(), 28));
    r.cn0 = static_cast<double>(rd(float(), 32));
    r.lock = static_cast<double>(rd(float(), 36));
    r.cts = rd(uint32_t(), 40);
    return r;
}
inline bool near(double a, double b, double tol) { return std::isnan(a) || std::isnan(b) ? std::isnan(a) && std::isnan(b) : std::abs(a - b) <= tol; }
inline void compareRows(const vector<Row>& want, const string& rows, const string& what)
{
    MC_REQUIRE(rows.size() == want.size() * 44, "observations", what + fmtf(": %zu bytes of observations are reported instead of %zu observations", rows.size(), want.size()));
    for (size_t i = 0; i < want.size(); i++)
    {
        const Row& w = want[i];
        const Row g = readRow(rows, i * 44);
        auto bad = [&](const char* key, const char* f, double a, double b) { fail(key, what + fmtf(": observation %zu (%s) reports the %s %.9g instead of %.9g", i, w.what.c_str(), f, a, b)); };
        if (g.prn != w.prn) { bad("prn", "PRN", g.prn, w.prn); }
        if (g.slot != w.slot) { bad("slot", "frequency number", g.slot, w.slot); }
        const uint32_t mask = w.freeGroup ? ~(1u << 20) : ~0u;
        if ((g.cts & mask) != (w.cts & mask)) { fail("status", what + fmtf(": observation %zu (%s) reports the status %08x instead of %08x", i, w.what.c_str(), g.cts, w.cts)); }
        if (!w.freePsr && !near(g.psr, w.psr, w.psrTol)) { bad("psr", "pseudorange", g.psr, w.psr); }
        if (!near(g.psd, w.psd, w.psd * 1e-6)) { bad("psd", "pseudorange deviation", g.psd, w.psd); }
        if (!w.freeAdr && !near(g.adr, w.adr, w.adrTol + std::abs(w.adr) * 1e-14)) { bad("adr", "carrier phase", g.adr, w.adr); }
        if (!near(g.add, w.add, w.add * 1e-6)) { bad("add", "carrier phase deviation", g.add, w.add); }
        if (!w.freeDop && !near(g.dop, w.dop, w.dopTol + std::abs(w.dop) * 2e-7)) { bad("dop", "Doppler", g.dop, w.dop); }
        if (!near(g.cn0, w.cn0, 1e-6 * w.cn0)) { bad("cn0", "C/No", g.cn0, w.cn0); }
        if (!near(g.lock, w.lock, 2e-7 * w.lock)) { bad("lock", "lock time", g.lock, w.lock); }
    }
}
// Decompresses the message and compares everything with the model.
inline void expect(RangeDecompressor& d, Model& model, const Msg& m, const string& what)
{
    const vector<Row> want = model.apply(m);
    const Result r = decompress(d, m.binary());
    MC_REQUIRE(r.st == STATUS::SUCCESS, "refused", what + fmtf(": status %d for a well-formed message of %zu observations: ", static_cast<int>(r.st), want.size()) + hex(m.binary()));
    const string exp = m.head(43, 4 + want.size() * 44) + le(want.size(), 4);
    MC_REQUIRE(r.bytes.size() == exp.size() + want.size() * 44 + 4, "size", what + fmtf(": %zu bytes are reported for %zu observations", r.bytes.size(), want.size()));
    MC_REQUIRE(r.bytes.compare(0, exp.size(), exp) == 0, "header", what + ": the header " + hex(r.bytes.substr(0, exp.size())) + " instead of " + hex(exp));
    MC_REQUIRE(bld::withCrc(r.bytes.substr(0, r.bytes.size() - 4)) == r.bytes, "crc", what + ": wrong checksum");
    MC_REQUIRE(r.meta.usMessageId == 43 && r.meta.messageName == "RANGE" && r.meta.uiBinaryMsgLength == 4 + want.size() * 44 && r.meta.uiHeaderLength == 28 && r.meta.usWeek == m.week && r.meta.dMilliseconds == static_cast<double>(m.ms),
               "metadata", what + fmtf(": metadata of %u %s, %u bytes", r.meta.usMessageId, r.meta.messageName.c_str(), r.meta.uiBinaryMsgLength));
    compareRows(want, r.bytes.substr(exp.size(), want.size() * 44), what);
}

// ---------------------------------------------------------------- nominal values
inline Raw nom1(const Sig& s) { return {0x08101C04u | static_cast<uint32_t>(s.ctsSys) << 16 | static_cast<uint32_t>(s.ctsSig) << 21, 0x0012345, 0x0B1234567 & 0xFFFFFFFFF, 0x1234567, 3, 2, 12, 32000, 21, s.sys == 1 ? 9u : 0u, 0}; }
inline Raw nom2s(const Sig& s) { return {5, 12, s.sys == 1 ? 9u : 0u, static_cast<uint64_t>(s.sys), 0, 22000000, 0x1FF000}; }
inline Raw nom2(const Sig& s) { return {static_cast<uint64_t>(s.sig2), 1, 1, 1, 70000, 2, 1, 0, 0, 20, 4, 5, 0x1234, 0x12345, 0x1234}; }
inline Raw nom4(Kind4 k)
{
    switch (k)
    {
    case REF1: return {1, 0, 900, 0, 3, 2, 44000000000, 5000, 12345678};
    case REF2: return {1, 1, 850, 0, 4, 3, 20000, 0x7FF000, 500};
    case DIF1: return {1, 0, 910, 0, 3, 2, 1234, 0xF123, 1000};
    case DIF2: return {1, 1, 820, 0, 5, 1, 0x7F234, 77, 0x3F00};
    case V5P: return {1, 0, 900, 0, 17, 20, 44000000000, 5000, 0x8123456};
    default: return {1, 1, 850, 0, 30, 3, 20000, 0x7FF000, 0xF500};
    }
}
// every value of narrow fields; basis, complements and the borders of the sign for wide ones
inline const vector<uint64_t>& valuesOf(int width)
{
    static std::map<int, vector<uint64_t>> memo;
    vector<uint64_t>& v = memo[width];
    if (v.empty())
    {
        const uint64_t all = (1ull << width) - 1;
        if (width <= 11) { for (uint64_t x = 0; x <= all; x++) { v.push_back(x); } }
        else
        {
            std::set<uint64_t> s{0, all, all - 1, 1ull << (width - 1), (1ull << (width - 1)) - 1, (1ull << (width - 1)) + 1, (1ull << (width - 1)) - 2};
            for (int i = 0; i < width; i++) { s.insert(1ull << i); s.insert(all ^ 1ull << i); s.insert((1ull << i) - 1); }
            v.assign(s.begin(), s.end());
        }
    }
    return v;
}
inline const vector<uint64_t>& bordersOf(int width)
{
    static std::map<int, vector<uint64_t>> memo;
    vector<uint64_t>& v = memo[width];
    if (v.empty())
    {
        const uint64_t all = (1ull << width) - 1;
        std::set<uint64_t> s{0, 1 & all, all, 1ull << (width - 1), (1ull << (width - 1)) - 1, 0x5555555555555555ull & all, 0xAAAAAAAAAAAAAAAAull & all};
        v.assign(s.begin(), s.end());
    }
    return v;
}
} // namespace rg
