// Decoding and encoding whole messages of a database built from a list of field lists.
#pragma once
#include "bodies.hpp"

#include "novatel_edie/decoders/oem/encoder.hpp"
#include "novatel_edie/decoders/oem/header_decoder.hpp"
#include "novatel_edie/decoders/oem/message_decoder.hpp"

namespace co {
using namespace mc;
using namespace ed;
using namespace novatel::edie::oem;
using bo::Body;
using bo::Names;
using bo::Val;
using std::string;
using std::vector;

enum Fmt { BIN, ASC, ABB, JSN, SBIN, SASC, SABB, FMTS };
static const char* const FMT_NAME[] = {"binary", "ASCII", "abbreviated ASCII", "JSON", "short binary", "short ASCII", "short abbreviated ASCII"};
static const HEADER_FORMAT HF[] = {HEADER_FORMAT::BINARY, HEADER_FORMAT::ASCII, HEADER_FORMAT::ABB_ASCII, HEADER_FORMAT::JSON, HEADER_FORMAT::SHORT_BINARY, HEADER_FORMAT::SHORT_ASCII, HEADER_FORMAT::SHORT_ABB_ASCII};
static const ENCODE_FORMAT EF[] = {ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::BINARY, ENCODE_FORMAT::ASCII, ENCODE_FORMAT::ABBREV_ASCII};

struct Schema
{
    vector<F> f;
    uint32_t id = 0;
    string name;
};

// %m fields name messages of the database; identity numbers pack id, source, format and response
inline uint32_t packed(uint32_t id, uint32_t sib, uint32_t format, uint32_t resp) { return id | (sib | format << 5 | resp << 7) << 16; }

struct Codec
{
    vector<Schema> schemas;
    Names names;
    MessageDatabase::Ptr db;
    std::unique_ptr<HeaderDecoder> hdr;
    std::unique_ptr<MessageDecoder> dec;
    std::unique_ptr<Encoder> enc;

    explicit Codec(const vector<vector<F>>& fields)
    {
        vector<M> ms;
        uint32_t id = 1000;
        for (auto& f : fields)
        {
            Schema s{f, id, fmtf("LOG%u", id)};
            ms.push_back({s.id, s.name, s.f});
            schemas.push_back(s);
            id++;
        }
        ms.push_back({42, "BESTPOS", {{"a", "SIMPLE", "ULONG", 4, "%lu"}}});
        db = makeDb(ms);
        hdr.reset(new HeaderDecoder(db));
        dec.reset(new MessageDecoder(db));
        enc.reset(new Encoder(db));
        for (uint32_t sib : {0u, 1u, 10u, 31u})
        {
            const string tail = sib ? fmtf("_%u", sib) : "";
            names[packed(42, sib, 0, 0)] = "BESTPOSB" + tail;
            names[packed(42, sib, 1, 0)] = "BESTPOSA" + tail;
            names[packed(42, sib, 2, 0)] = "BESTPOS" + tail;
            names[packed(42, sib, 1, 1)] = "BESTPOSR" + tail;
        }
    }

    string body(const Schema& s, int fmt, const Body& b) const
    {
        string t;
        switch (fmt)
        {
        case BIN: case SBIN: bo::bin(t, s.f, b); return t;
        case ASC: case SASC: return bo::ascii(s.f, b, names);
        case ABB: case SABB: return bo::abb(s.f, b, names);
        default: return bo::json(s.f, b, names);
        }
    }
    // the whole message around a body
    string message(const Schema& s, int fmt, const string& body) const
    {
        switch (fmt)
        {
        case BIN: {
            string t = "\xAA\x44\x12\x1C";
            auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) { t += static_cast<char>(v >> (8 * i)); } };
            put(s.id, 2); put(0, 1); put(32, 1); put(body.size(), 2); put(0, 2); put(80, 1); put(180, 1); put(2000, 2); put(123456, 4); put(0x02000000, 4); put(0x1234, 2); put(12816, 2);
            return bld::withCrc(t + body);
        }
        case SBIN: {
            string t = "\xAA\x44\x13";
            auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) { t += static_cast<char>(v >> (8 * i)); } };
            put(body.size(), 1); put(s.id, 2); put(2000, 2); put(123456, 4);
            return bld::withCrc(t + body);
        }
        case ASC: return bld::ascii(asciiHeader(s.name + "A") + body);
        case SASC: return bld::ascii(shortAsciiHeader(s.name + "A") + body, '%');
        case ABB: return abbHeader(s.name) + body;
        case SABB: return shortAbbHeader(s.name) + body;
        default:
            return "{\"header\": {\"message\": \"" + s.name + fmtf("\",\"id\": %u,\"port\": \"COM1\",\"sequence_num\": 0,\"percent_idle_time\": 40.0,\"time_status\": \"FINESTEERING\",\"week\": 2000,"
                   "\"seconds\": 123.456,\"receiver_status\": 33554432,\"HEADER_reserved1\": 4660,\"receiver_sw_version\": 12816}", s.id) + ",\"body\": " + body + "}";
        }
    }

    struct Decoded
    {
        STATUS st = STATUS::UNKNOWN;
        bool header = false; // failed in the header
        IntermediateHeader ih;
        MetaDataStruct md;
        CompositeField cf;
    };
    // msg must be NUL-terminated just behind its n bytes
    void decode(const unsigned char* msg, size_t n, Decoded& d) const
    {
        d.md.uiLength = static_cast<uint32_t>(n); // as the framer reports
        d.st = hdr->Decode(msg, d.ih, d.md);
        d.header = d.st != STATUS::SUCCESS;
        if (d.header) { return; }
        d.st = dec->Decode(msg + (d.md.eFormat == HEADER_FORMAT::JSON ? 0 : d.md.uiHeaderLength), d.cf, d.md);
    }
};

// ---------------------------------------------------------------- reading decoded fields
template <class C> inline Body readBody(const C& cf, const vector<F>& fs, const FieldInfo& info);
template <class T> inline uint64_t bitsOf(T v)
{
    if constexpr (std::is_same_v<T, float>) { return bo::bitsF(v); }
    else if constexpr (std::is_same_v<T, double>) { return bo::bitsD(v); }
    else { return static_cast<uint64_t>(v); }
}
template <class C> inline Val readField(const C& cf, const F& f, const BaseField& def)
{
    Val v;
    constexpr bool whole = std::is_same_v<C, CompositeField>;
    if (f.type == "STRING")
    {
        if constexpr (whole) { v.s = cf.template GetFieldValue<string>(def); }
        else { fail("field-kind", "a string inside a flat row"); }
        return v;
    }
    if (f.type == "FIELD_ARRAY")
    {
        if constexpr (whole)
        {
            const FieldArray fa = cf.template GetFieldValue<FieldArray>(def);
            const auto& info = *static_cast<const FieldArrayField&>(def).fieldInfo;
            const auto& var = cf.GetVarFields()[def.index];
            if (auto* rows = std::get_if<CompositeFieldArray>(&var))
            {
                for (auto& r : *rows) { v.rows.push_back(readBody(r, f.fields, info)); }
                MC_REQUIRE(fa.size() == rows->size(), "row-count", "the row view and the stored rows differ in number");
            }
            else { for (size_t i = 0; i < fa.size(); i++) { v.rows.push_back(readBody(fa[i], f.fields, info)); } }
        }
        else { fail("field-kind", "rows inside a flat row"); }
        return v;
    }
    size_t n = 1;
    if (f.type == "FIXED_LENGTH_ARRAY") { n = static_cast<size_t>(f.arrayLength); }
    if (f.type == "VARIABLE_LENGTH_ARRAY")
    {
        if constexpr (whole)
        {
            std::visit([&](const auto& x) {
                using X = std::decay_t<decltype(x)>;
                if constexpr (std::is_same_v<X, string>) { for (char c : x) { v.n.push_back(static_cast<unsigned char>(c)); } }
                else if constexpr (novatel::edie::is_specialization_of_v<X, std::vector> && !std::is_same_v<X, CompositeFieldArray>) { for (auto e : x) { v.n.push_back(bo::trunc(bitsOf(e), f.len)); } }
                else { fail("field-kind", "a variable-length array is not stored as an array"); }
            }, cf.GetVarFields()[def.index]);
            return v;
        }
        else { fail("field-kind", "a variable-length array inside a row is not reachable"); }
    }
    SimpleTypeVisitor(def, [&](auto tag) {
        using T = std::decay_t<decltype(tag)>;
        for (size_t i = 0; i < n; i++) { v.n.push_back(bo::trunc(bitsOf(cf.template GetFieldValue<T>(def, i)), f.len)); }
    });
    return v;
}
template <class C> inline Body readBody(const C& cf, const vector<F>& fs, const FieldInfo& info)
{
    Body b;
    MC_REQUIRE(info.messageOrderedFields.size() == fs.size(), "field-count", fmtf("%zu fields instead of %zu", info.messageOrderedFields.size(), fs.size()));
    for (size_t i = 0; i < fs.size(); i++) { b.push_back(readField(cf, fs[i], *info.messageOrderedFields[i])); }
    return b;
}
inline string show(const Body& b)
{
    string s = "(";
    for (size_t i = 0; i < b.size(); i++)
    {
        s += i ? ", " : "";
        for (size_t k = 0; k < b[i].n.size(); k++) { s += (k ? " " : "") + fmtf("%llx", static_cast<unsigned long long>(b[i].n[k])); }
        if (!b[i].s.empty()) { s += "\"" + printable(b[i].s) + "\""; }
        for (auto& r : b[i].rows) { s += show(r); }
    }
    return s + ")";
}
// strings in character arrays end at the first NUL
inline Body canon(const vector<F>& fs, Body b)
{
    for (size_t i = 0; i < fs.size() && i < b.size(); i++)
    {
        if (bo::arrayKind(fs[i]) && bo::quoted(fs[i])) { while (!b[i].n.empty() && !b[i].n.back()) { b[i].n.pop_back(); } }
        for (auto& r : b[i].rows) { r = canon(fs[i].fields, r); }
    }
    return b;
}
inline string showFmt(int f, const string& s) { return f == BIN || f == SBIN ? hex(s) : printable(s, 1200); }
inline bool shortFmt(int f) { return f >= SBIN; }

// abbreviated ASCII: blanks at the end of a line carry nothing
inline string trimLines(const string& s)
{
    string r;
    for (char c : s)
    {
        if (c == '\r') { while (!r.empty() && r.back() == ' ') { r.pop_back(); } }
        r += c;
    }
    return r;
}
} // namespace co
