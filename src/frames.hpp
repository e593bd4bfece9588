// Message builders, an independent reference framer and drivers for the framer checks.
#pragma once
#include "mc.hpp"

#include "novatel_edie/common/logger.hpp"
#include "novatel_edie/decoders/common/framer_manager.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/framer_abb_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii.hpp"
#include "novatel_edie/decoders/oem/framer_ascii_short.hpp"
#include "novatel_edie/decoders/oem/framer_binary.hpp"
#include "novatel_edie/decoders/oem/framer_binary_short.hpp"

#include "build.hpp"

namespace fr {
using namespace novatel::edie;
using namespace mc;
using HF = HEADER_FORMAT;
using std::string;
using std::vector;

inline void quiet()
{
    static bool done = false;
    if (!done)
    {
        done = true;
        CPPLoggerManager* m = GetLoggerManager();
        // the first registration prints a line: keep stdout for the verdict
        int keep = dup(1), nul = open("/dev/null", O_WRONLY);
        fflush(stdout);
        dup2(nul, 1);
        m->InitLogger();
        fflush(stdout);
        dup2(keep, 1);
        close(nul);
        close(keep);
        m->SetLoggingLevel(spdlog::level::off);
        spdlog::get("root")->set_level(spdlog::level::off);
    }
}

inline const char* fmtName(HF f)
{
    switch (f)
    {
    case HF::UNKNOWN: return "UNKNOWN";
    case HF::BINARY: return "BINARY";
    case HF::SHORT_BINARY: return "SHORT_BINARY";
    case HF::PROPRIETARY_BINARY: return "PROPRIETARY";
    case HF::ASCII: return "ASCII";
    case HF::SHORT_ASCII: return "SHORT_ASCII";
    case HF::ABB_ASCII: return "ABB_ASCII";
    case HF::NMEA: return "NMEA";
    case HF::JSON: return "JSON";
    default: return "?";
    }
}

// ---------------------------------------------------------------- reference framing
struct Rules
{
    bool bin = true, prop = true, sbin = true, ascii = true, sascii = true, abb = true, nmea = true, json = false;
    bool textOnly = true; // a byte above 127 ends an ASCII candidate
    bool abbAlpha = true; // an abbreviated header starts with a letter
    uint32_t maxAscii = MAX_ASCII_MESSAGE_LENGTH, maxBin = MAX_BINARY_MESSAGE_LENGTH, maxNmea = MAX_NMEA_MESSAGE_LENGTH;
};
enum class V { NONE, VALID, INVALID, PENDING };
struct Cand
{
    V v = V::NONE;
    size_t len = 0;
    HF f = HF::UNKNOWN;
    bool resp = false;
};

inline int hexv(unsigned char c)
{
    if (c >= '0' && c <= '9') return c - '0';
    if (c >= 'a' && c <= 'f') return c - 'a' + 10;
    if (c >= 'A' && c <= 'F') return c - 'A' + 10;
    return -1;
}

// what starts at s[0]?
inline Cand classify(std::string_view s, const Rules& r)
{
    auto u = [&](size_t i) { return static_cast<unsigned char>(s[i]); };
    Cand c;
    if (s.empty()) { return c; }
    const unsigned char b0 = u(0);
    const size_t n = s.size();
    if (b0 == 0xAA && (r.bin || r.prop || r.sbin))
    {
        c.f = HF::UNKNOWN;
        if (n < 2) { c.v = V::PENDING; return c; }
        if (u(1) != 0x44 && !(u(1) == 0x45 && r.prop)) { return c; }
        if (u(1) == 0x44 && !r.bin && !r.sbin) { return c; }
        if (n < 3) { c.v = V::PENDING; return c; }
        size_t hdr, len;
        if (u(2) == 0x12 && (u(1) == 0x44 ? r.bin : r.prop)) { hdr = 28; c.f = u(1) == 0x44 ? HF::BINARY : HF::PROPRIETARY_BINARY; }
        else if (u(2) == 0x13 && u(1) == 0x44 && r.sbin) { hdr = 12; c.f = HF::SHORT_BINARY; }
        else { return c; }
        if (n < hdr) { c.v = V::PENDING; return c; }
        len = hdr == 28 ? u(8) + 256u * u(9) : u(3);
        const size_t tot = hdr + len + 4;
        if (hdr == 28 && tot > r.maxBin) { c.v = V::INVALID; return c; }
        if (n < tot) { c.v = V::PENDING; return c; }
        const uint32_t crc = bld::crc32(s.substr(0, tot - 4));
        const uint32_t got = u(tot - 4) | u(tot - 3) << 8 | u(tot - 2) << 16 | static_cast<uint32_t>(u(tot - 1)) << 24;
        c.v = crc == got ? V::VALID : V::INVALID;
        c.len = tot;
        return c;
    }
    if ((b0 == '#' && r.ascii) || (b0 == '%' && r.sascii))
    {
        c.f = b0 == '#' ? HF::ASCII : HF::SHORT_ASCII;
        for (size_t i = 1;; i++)
        {
            if (i >= n) { c.v = i >= r.maxAscii ? V::INVALID : V::PENDING; return c; }
            if (r.textOnly && u(i) > 127) { c.v = V::INVALID; return c; }
            if (u(i) == '*')
            {
                if (i + 11 > n) { c.v = V::PENDING; return c; }
                if (s[i + 9] == '\r' && s[i + 10] == '\n')
                {
                    uint32_t v = 0;
                    bool ok = true;
                    for (int k = 1; k <= 8; k++)
                    {
                        const int h = hexv(u(i + k));
                        ok = ok && h >= 0;
                        v = v << 4 | (h & 15);
                    }
                    c.v = ok && v == bld::crc32(s.substr(1, i - 1)) ? V::VALID : V::INVALID;
                    c.len = i + 11;
                    return c;
                }
            }
            else if (i + 1 >= r.maxAscii) { c.v = V::INVALID; return c; }
        }
    }
    if (b0 == '$' && r.nmea)
    {
        c.f = HF::NMEA;
        unsigned x = 0;
        for (size_t i = 1;; i++)
        {
            if (i >= n) { c.v = V::PENDING; return c; }
            if (i >= r.maxNmea) { c.v = V::INVALID; return c; }
            if (r.textOnly && u(i) > 127) { c.v = V::INVALID; return c; }
            if (u(i) == '*')
            {
                // *HH CR LF, decided as soon as the line ends
                for (size_t k = i + 1;; k++)
                {
                    if (k >= n) { c.v = V::PENDING; return c; }
                    if (k >= r.maxNmea) { c.v = V::INVALID; return c; }
                    if (r.textOnly && u(k) > 127) { c.v = V::INVALID; return c; }
                    if (u(k) == '\n')
                    {
                        const bool ok = k == i + 4 && s[k - 1] == '\r' && hexv(u(i + 1)) >= 0 && hexv(u(i + 2)) >= 0 &&
                                        static_cast<unsigned>(hexv(u(i + 1)) * 16 + hexv(u(i + 2))) == x && k + 1 >= MIN_NMEA_MESSAGE_LENGTH;
                        c.v = ok ? V::VALID : V::INVALID;
                        c.len = k + 1;
                        return c;
                    }
                }
            }
            x ^= u(i);
        }
    }
    if (b0 == '<' && r.abb)
    {
        c.f = HF::ABB_ASCII;
        if (n < 2) { c.v = V::PENDING; return c; }
        if (u(1) == ' ' || (r.abbAlpha && !isalpha(u(1)))) { return c; }
        size_t i = 1;
        for (;; i++) // header line
        {
            if (i >= n) { c.v = i >= r.maxAscii ? V::INVALID : V::PENDING; return c; }
            if (r.textOnly && u(i) > 127) { c.v = V::INVALID; return c; }
            if (s[i] == '\r' && i + 1 >= n) { c.v = V::PENDING; return c; }
            if (s[i] == '\r' && s[i + 1] == '\n') { break; }
            if (i + 1 >= r.maxAscii) { c.v = V::INVALID; return c; }
        }
        size_t eol = i + 2;
        if (s.substr(1, 2) == "OK" || s.substr(1, 5) == "ERROR")
        {
            c.v = V::VALID;
            c.resp = true;
            c.len = eol;
            return c;
        }
        bool first = true;
        for (;;)
        {
            if (eol + 1 >= n) { c.v = V::PENDING; return c; }
            if (!(s[eol] == '<' && s[eol + 1] == ' '))
            {
                c.v = first ? V::INVALID : V::VALID;
                c.len = eol;
                return c;
            }
            first = false;
            for (i = eol;; i++)
            {
                if (i >= n) { c.v = i >= r.maxAscii ? V::INVALID : V::PENDING; return c; }
                if (r.textOnly && u(i) > 127) { c.v = V::INVALID; return c; }
                if (s[i] == '\r' && i + 1 >= n) { c.v = V::PENDING; return c; }
                if (s[i] == '\r' && s[i + 1] == '\n') { break; }
                if (i + 1 >= r.maxAscii) { c.v = V::INVALID; return c; }
            }
            eol = i + 2;
        }
    }
    if (b0 == '{' && r.json)
    {
        c.f = HF::JSON;
        int d = 0;
        for (size_t i = 0; i < n; i++)
        {
            if (r.textOnly && u(i) > 127) { c.v = V::INVALID; return c; }
            d += s[i] == '{' ? 1 : s[i] == '}' ? -1 : 0;
            if (d == 0) { c.v = V::VALID; c.len = i + 1; return c; }
        }
        c.v = V::PENDING;
        return c;
    }
    return c;
}

struct Msg
{
    HF f;
    bool resp;
    size_t at, len;
    bool operator==(const Msg& o) const { return f == o.f && resp == o.resp && at == o.at && len == o.len; }
};
inline string show(const vector<Msg>& v)
{
    string s;
    for (const auto& m : v) { s += fmtf("%s%s@%zu+%zu ", fmtName(m.f), m.resp ? "(resp)" : "", m.at, m.len); }
    return s.empty() ? "(none)" : s;
}
struct RefOut
{
    vector<Msg> msgs;
    size_t pendingAt = string::npos; // where the reference waits for more data
    HF pendingFmt = HF::UNKNOWN;
};
inline RefOut reference(std::string_view s, const Rules& r)
{
    RefOut o;
    for (size_t p = 0; p < s.size();)
    {
        const Cand c = classify(s.substr(p), r);
        if (c.v == V::VALID)
        {
            o.msgs.push_back({c.f, c.resp, p, c.len});
            p += c.len;
        }
        else if (c.v == V::PENDING)
        {
            o.pendingAt = p;
            o.pendingFmt = c.f;
            break;
        }
        else { p++; }
    }
    return o;
}

// ---------------------------------------------------------------- framers under test
struct Fr
{
    virtual ~Fr() = default;
    virtual size_t write(const char* p, size_t n) = 0;
    virtual STATUS get(unsigned char* buf, uint32_t size, uint32_t& len, HF& f, bool& resp) = 0;
    virtual uint32_t flush(unsigned char* buf, uint32_t size) = 0;
    virtual void report(bool on) = 0;
    virtual void json(bool) {}
    virtual void payloadOnly(bool) {}
    virtual Rules rules() const = 0;
    virtual size_t pendingBytes() const = 0;
};
template <typename F> struct FrSingle : Fr
{
    std::shared_ptr<UCharFixedBuffer> b;
    F f;
    oem::MetaDataStruct md;
    Rules r;
    bool poison; // the metadata handed in is an output: fill it with rubbish before every call
    int turn = 0;
    explicit FrSingle(size_t cap, Rules rr, bool p = false) : b(std::make_shared<UCharFixedBuffer>(cap)), f(b), r(rr), poison(p) {}
    size_t write(const char* p, size_t n) override { return f.Write(reinterpret_cast<const unsigned char*>(p), n); }
    STATUS get(unsigned char* buf, uint32_t size, uint32_t& len, HF& fm, bool& resp) override
    {
        if (poison)
        {
            static const HF FM[] = {HF::ASCII, HF::UNKNOWN, HF::PROPRIETARY_BINARY, HF::ABB_ASCII, HF::BINARY, HF::JSON};
            md = oem::MetaDataStruct();
            md.eFormat = FM[turn++ % 6];
            md.bResponse = turn % 2;
            md.uiLength = 77777;
        }
        const STATUS st = f.GetFrame(buf, size, md);
        len = md.uiLength;
        fm = md.eFormat;
        resp = md.bResponse;
        return st;
    }
    uint32_t flush(unsigned char* buf, uint32_t size) override { return f.Flush(buf, size); }
    void report(bool on) override { f.SetReportUnknownBytes(on); }
    void json(bool on) override { f.SetFrameJson(on); r.json = on; }
    void payloadOnly(bool on) override { f.SetPayloadOnly(on); }
    Rules rules() const override { return r; }
    size_t pendingBytes() const override { return b->size(); }
};
struct FrManager : Fr
{
    FramerManager m;
    Rules r;
    FrManager(const vector<string>& names, Rules rr) : m(names), r(rr) {}
    void fresh() // as new: FramerManager owns a large buffer, so one object serves many executions
    {
        m.GetFixedBuffer()->erase_begin(m.GetFixedBuffer()->size());
        m.ResetAllFramerStates();
        m.SetReportUnknownBytes(true);
    }
    size_t write(const char* p, size_t n) override { return m.Write(reinterpret_cast<const unsigned char*>(p), n); }
    STATUS get(unsigned char* buf, uint32_t size, uint32_t& len, HF& fm, bool& resp) override
    {
        MetaDataBase* md = nullptr;
        const STATUS st = m.GetFrame(buf, size, md);
        if (md)
        {
            len = md->uiLength;
            fm = md->eFormat;
            resp = md->bResponse;
        }
        else { len = 0; }
        return st;
    }
    uint32_t flush(unsigned char* buf, uint32_t size) override { return m.Flush(buf, size); }
    void report(bool on) override { m.SetReportUnknownBytes(on); }
    Rules rules() const override { return r; }
    size_t pendingBytes() const override { return m.GetFixedBuffer()->size(); }
};

enum Kind { OEM, OEM_MD, BIN, SBIN, ASC, SASC, ABB, M_OEM, M_FIVE, M_FIVE_REV, M_OEM_FIVE, M_BIN_ABB, KINDS };
inline const char* KIND_NAME[] = {"oem", "oem-foreign-metadata", "binary", "short-binary", "ascii", "short-ascii", "abb-ascii", "manager(oem)", "manager(five)", "manager(five-reversed)",
                                  "manager(oem+five)", "manager(binary+abb)"};
inline Rules kindRules(Kind k)
{
    Rules r;
    if (k == OEM || k == OEM_MD || k == M_OEM) { return r; }
    r.bin = r.prop = r.sbin = r.ascii = r.sascii = r.abb = r.nmea = false;
    r.textOnly = r.abbAlpha = false;
    switch (k)
    {
    case BIN: r.bin = true; break;
    case SBIN: r.sbin = true; break;
    case ASC: r.ascii = true; break;
    case SASC: r.sascii = true; break;
    case ABB: r.abb = true; break;
    case M_BIN_ABB: r.bin = r.abb = true; break;
    case M_OEM_FIVE: r.bin = r.prop = r.sbin = r.ascii = r.sascii = r.abb = r.nmea = true; break;
    default: r.bin = r.sbin = r.ascii = r.sascii = r.abb = true; break;
    }
    return r;
}
inline std::unique_ptr<Fr> make(Kind k, size_t cap = 4096)
{
    quiet();
    const Rules r = kindRules(k);
    switch (k)
    {
    case OEM: return std::make_unique<FrSingle<oem::Framer>>(cap, r);
    case OEM_MD: return std::make_unique<FrSingle<oem::Framer>>(cap, r, true);
    case BIN: return std::make_unique<FrSingle<oem::FramerBinary>>(cap, r);
    case SBIN: return std::make_unique<FrSingle<oem::FramerBinaryShort>>(cap, r);
    case ASC: return std::make_unique<FrSingle<oem::FramerAscii>>(cap, r);
    case SASC: return std::make_unique<FrSingle<oem::FramerAsciiShort>>(cap, r);
    case ABB: return std::make_unique<FrSingle<oem::FramerAbbAscii>>(cap, r);
    case M_OEM: return std::make_unique<FrManager>(vector<string>{"OEM"}, r);
    case M_FIVE: return std::make_unique<FrManager>(vector<string>{"OEM_BINARY", "OEM_BINARY_SHORT", "OEM_ASCII", "OEM_ASCII_SHORT", "OEM_ABB_ASCII"}, r);
    case M_FIVE_REV: return std::make_unique<FrManager>(vector<string>{"OEM_ABB_ASCII", "OEM_ASCII_SHORT", "OEM_ASCII", "OEM_BINARY_SHORT", "OEM_BINARY"}, r);
    case M_OEM_FIVE:
        return std::make_unique<FrManager>(vector<string>{"OEM", "OEM_BINARY", "OEM_BINARY_SHORT", "OEM_ASCII", "OEM_ASCII_SHORT", "OEM_ABB_ASCII"}, r);
    default: return std::make_unique<FrManager>(vector<string>{"OEM_BINARY", "OEM_ABB_ASCII"}, r);
    }
}
// a framer for one execution; managers are kept and reset
inline Fr& instance(Kind k, std::unique_ptr<Fr>& hold)
{
    if (k < M_OEM)
    {
        hold = make(k);
        return *hold;
    }
    static std::unique_ptr<Fr> kept[KINDS];
    if (!kept[k]) { kept[k] = make(k); }
    static_cast<FrManager&>(*kept[k]).fresh();
    return *kept[k];
}

// ---------------------------------------------------------------- driving
struct Out
{
    vector<Msg> msgs;
    string bytes;     // everything returned, in order (framed, unknown, flushed)
    size_t taken = 0; // bytes accounted for so far
    size_t flushed = 0;
    int calls = 0;
};
struct Drive
{
    Fr& f;
    bool report;
    std::vector<unsigned char>& buf;
    string stream;
    bool small = false; // the internal buffer may fill up
    Out o;
    static std::vector<unsigned char>& shared()
    {
        static std::vector<unsigned char> b(70000); // larger than any message
        return b;
    }
    Drive(Fr& f_, bool rep) : f(f_), report(rep), buf(shared()) { f.report(rep); }
    // read until the framer wants more data
    STATUS drain()
    {
        const size_t limit = 8 * stream.size() + 64;
        for (size_t i = 0;; i++)
        {
            if (i > limit) { fail("no-progress", fmtf("GetFrame called %zu times without the stream being used up: %s", i, hex(stream).c_str())); }
            uint32_t len = 0;
            HF fm = HF::UNKNOWN;
            bool resp = false;
            static const unsigned char FILL = 0xC5;
            const size_t before = f.pendingBytes();
            if (!report) { memset(buf.data(), FILL, std::min<size_t>(buf.size(), before + 8)); }
            const STATUS st = f.get(buf.data(), static_cast<uint32_t>(buf.size()), len, fm, resp);
            o.calls++;
            if (tracing()) { note(fmtf("  GetFrame -> %s format=%s length=%u", string(StatusToString(st)).c_str(), fmtName(fm), len)); }
            if (st == STATUS::SUCCESS || st == STATUS::UNKNOWN)
            {
                if (len == 0 && st == STATUS::UNKNOWN) { fail("empty-unknown", "UNKNOWN reported with no bytes"); }
                if (len > buf.size()) { fail("length", fmtf("reported length %u exceeds the caller's buffer of %zu", len, buf.size())); }
                const size_t after = f.pendingBytes();
                if (before - after != len)
                {
                    fail("consumed", fmtf("a call that reported %u bytes (%s) removed %zu bytes from the stream %s", len, string(StatusToString(st)).c_str(), before - after,
                                          hex(stream).c_str()));
                }
                if (st == STATUS::SUCCESS) { o.msgs.push_back({fm, resp, o.taken, len}); }
                if (st == STATUS::SUCCESS || report) { o.bytes.append(reinterpret_cast<char*>(buf.data()), len); }
                else
                {
                    for (size_t k = 0; k < len; k++)
                    {
                        if (buf[k] != FILL) { fail("reported-anyway", "unknown bytes were returned although their reporting is off"); }
                    }
                    o.bytes.append(stream, o.taken, len); // dropped by request
                }
                o.taken += len;
                continue;
            }
            if (f.pendingBytes() != before) { fail("consumed", fmtf("a call that returned %s removed bytes", string(StatusToString(st)).c_str())); }
            return st;
        }
    }
    void write(std::string_view s)
    {
        if (tracing()) { note(fmtf("write %s", printable(s).c_str())); }
        stream.append(s);
        if (s.empty() || f.write(s.data(), s.size()) == s.size()) { return; }
        if (!small) { fail("write", "write refused although it fits"); }
        finish(); // a full internal buffer is emptied the documented way
        if (f.write(s.data(), s.size()) != s.size()) { fail("write", "write refused although it fits"); }
    }
    void step(std::string_view s)
    {
        write(s);
        const STATUS st = drain();
        if (st != STATUS::INCOMPLETE && st != STATUS::BUFFER_EMPTY)
        {
            fail("status", fmtf("reading %s ended with %s", hex(stream).c_str(), string(StatusToString(st)).c_str()));
        }
    }
    void finish()
    {
        for (int i = 0; i < 4 && f.pendingBytes() > 0; i++)
        {
            const uint32_t n = f.flush(buf.data(), static_cast<uint32_t>(buf.size()));
            if (report) { o.bytes.append(reinterpret_cast<char*>(buf.data()), n); }
            else { o.bytes.append(stream, o.taken, n); }
            o.taken += n;
            o.flushed += n;
        }
    }
};
inline Out run(Fr& f, const vector<std::string_view>& chunks, bool report = true)
{
    Drive d(f, report);
    for (auto c : chunks) { d.step(c); }
    d.finish();
    return d.o;
}

// ---------------------------------------------------------------- segments
struct Seg
{
    string name, bytes;
};
inline string flip(string s, size_t at, unsigned char x)
{
    s[at] = static_cast<char>(s[at] ^ x);
    return s;
}
// one valid message of every format
inline const vector<Seg>& valid()
{
    static const vector<Seg> v = [] {
        vector<Seg> o;
        o.push_back({"binary", bld::binary(42, "")});
        o.push_back({"binary4", bld::binary(43, string("\x01\x00\xAA\x44", 4))});
        o.push_back({"proprietary", bld::binary(44, "zz", 0x45)});
        o.push_back({"short", bld::shortBinary(45, "")});
        o.push_back({"short3", bld::shortBinary(46, "#$\xAA")});
        o.push_back({"ascii", bld::ascii("A,C;1")});
        o.push_back({"shortascii", bld::ascii("B,1;x", '%')});
        o.push_back({"rxconfig", bld::ascii("R;#c;1*01234567")});
        o.push_back({"nmea", bld::nmea("GPGGA,1")});
        o.push_back({"nmea-min", bld::nmea("GPGGA")});
        o.push_back({"abb", "<T C\r\n<     1\r\n"});
        o.push_back({"abb2", "<T C\r\n<     1\r\n< 2\r\n"});
        o.push_back({"ok", "<OK\r\n"});
        o.push_back({"error", "<ERROR:a\r\n"});
        return o;
    }();
    return v;
}
inline const vector<Seg>& jsonSegs()
{
    static const vector<Seg> v = {{"json", "{\"a\":1}"}, {"json-nested", "{\"a\":{\"b\":[1]}}"}, {"{", "{"}, {"}", "}"}, {"{#", "{#"}};
    return v;
}
// pieces that are no message by themselves
inline const vector<Seg>& noise()
{
    static const vector<Seg> v = [] {
        vector<Seg> o;
        auto add = [&](const char* n, string s) { o.push_back({n, std::move(s)}); };
        add("z", "z");
        add("#", "#");
        add("AA", "\xAA");
        add("<", "<");
        add("$", "$");
        add("80", "\x80");
        add("crlf", "\r\n");
        add("AA44", "\xAA\x44");
        add("%", "%");
        add("AA4412", "\xAA\x44\x12");
        add("AA4413", "\xAA\x44\x13");
        add("AA45", "\xAA\x45");
        add("AA4512", "\xAA\x45\x12");
        add("*", "*");
        add("cr", "\r");
        add("lf", "\n");
        add("<sp", "< ");
        add("<A", "<A");
        add("<Acrlf", "<A\r\n");
        add("bodyline", "< 1\r\n");
        add("<OK", "<OK");
        add("badascii", flip(bld::ascii("A,C;1"), 3, 1));
        add("badbinary", flip(bld::binary(42, ""), 20, 1));
        add("badbinary-nested", flip(bld::binary(42, bld::ascii("Q;2")), 20, 1));
        add("badshort", flip(bld::shortBinary(45, "ab"), 5, 1));
        add("badprop", flip(bld::binary(44, "zz", 0x45), 21, 1));
        add("badnmea", flip(bld::nmea("GPGGA,1"), 4, 1));
        add("nmea-nocr", "$GPGGA,1*" + bld::nmea("GPGGA,1").substr(9, 2) + "z\n");
        add("nmea-junk", "$GPGGA,1*z" + bld::nmea("GPGGA,1").substr(9, 2) + "\r\n");
        add("nmea-hex", bld::nmeaSum(0x05, "*5\x67\r\n"));
        add("ascii-hex", bld::asciiShortHex());
        add("huge-binary", bld::binaryHeaderOnly(42, 0xFFF0) + "zz");
        add("huge-fit", bld::binaryHeaderOnly(42, 200));
        add("short-len", bld::shortBinaryHeaderOnly(42, 90));
        add("80#", "\x80#");
        add("#\x80", "#\x80");
        add("#x*", "#x*");
        add("$*\\n", "$*\n");
        add("long", string(300, 'z'));
        add("#long", "#" + string(40, 'z'));
        return o;
    }();
    return v;
}
constexpr const char* PAD = "zzzzzzzzzzzzzzzz";
} // namespace fr
