// Field kinds, values and representative fields shared by the codec checks.
#pragma once
#include "codec.hpp"

namespace co {
// ---------------------------------------------------------------- field kinds
struct Kind
{
    const char* tag;
    F f;                      // scalar
    vector<uint64_t> v;       // boundary values
};
inline vector<uint64_t> ints(int len, bool sgn)
{
    vector<uint64_t> v = {0, 1, 9, 10, 100};
    const uint64_t top = len >= 8 ? ~0ull : (1ull << (8 * len)) - 1;
    v.push_back(top);
    v.push_back(top - 1);
    v.push_back(top >> 1);
    v.push_back((top >> 1) + 1);
    for (uint64_t x : {0x7Full, 0x80ull, 0xA5ull, 255ull, 256ull, 0x1234ull, 0x8001ull, 65535ull, 65536ull, 0x12345678ull, 0x80000001ull, 0xFEDCBA98ull, 4294967296ull, 9007199254740993ull, 0x8123456789ABCDEFull})
    {
        if (x <= top) { v.push_back(x); }
    }
    (void)sgn;
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
inline vector<uint64_t> floats()
{
    vector<uint64_t> v;
    for (float x : {0.0f, -0.0f, 1.0f, -1.0f, 0.5f, 0.1f, -0.015625f, 3.14159274f, 1e-3f, 9.9999e-4f, 12345.678f, -99999.5f, 16777216.0f, 1.5e10f, 3.4e38f, 2e-38f, 1e-10f, 2.5e-7f, 123456789.0f})
    {
        v.push_back(bo::bitsF(x));
    }
    return v;
}
inline vector<uint64_t> doubles()
{
    vector<uint64_t> v;
    for (double x : {0.0, -0.0, 1.0, -1.0, 0.5, 0.1, -0.015625, 3.141592653589793, 1e-3, 9.9999e-4, 51.11643567654, -114.03887332, 12345.678, -99999.5, 9007199254740993.0, 1.5e10, 1.7e308, 2.3e-308, 1e-10, 2.5e-7,
                     604799.999, 26559425.980})
    {
        v.push_back(bo::bitsD(x));
    }
    return v;
}
inline F scalar(const char* dt, int len, const char* conv) { return {"v", "SIMPLE", dt, len, conv}; }
inline vector<Kind> kinds()
{
    vector<Kind> k;
    auto add = [&](const char* dt, int len, const char* conv, vector<uint64_t> v) { k.push_back({conv, scalar(dt, len, conv), std::move(v)}); };
    add("BOOL", 4, "%d", {0, 1});
    add("CHAR", 1, "%B", ints(1, true));
    add("UCHAR", 1, "%UB", ints(1, false));
    add("UCHAR", 1, "%XB", ints(1, false));
    add("HEXBYTE", 1, "%XB", ints(1, false));
    add("SHORT", 2, "%hd", ints(2, true));
    add("USHORT", 2, "%hu", ints(2, false));
    add("INT", 4, "%d", ints(4, true));
    add("UINT", 4, "%u", ints(4, false));
    add("LONG", 4, "%ld", ints(4, true));
    add("ULONG", 4, "%lu", ints(4, false));
    add("LONGLONG", 8, "%lld", ints(8, true));
    add("ULONGLONG", 8, "%llu", ints(8, false));
    add("UCHAR", 1, "%x", ints(1, false));
    add("USHORT", 2, "%x", ints(2, false));
    add("ULONG", 4, "%x", ints(4, false));
    add("ULONG", 4, "%08x", ints(4, false));
    add("UCHAR", 1, "%02X", ints(1, false));
    add("ULONGLONG", 8, "%X", ints(8, false));
    add("ULONG", 4, "%lx", ints(4, false));
    add("ULONGLONG", 8, "%llx", ints(8, false));
    add("UCHAR", 1, "%u", ints(1, false));
    add("USHORT", 2, "%u", ints(2, false));
    add("ULONGLONG", 8, "%u", ints(8, false));
    add("FLOAT", 4, "%f", floats());
    add("FLOAT", 4, "%.3f", floats());
    add("DOUBLE", 8, "%.4f", doubles());
    add("DOUBLE", 8, "%lf", doubles());
    add("DOUBLE", 8, "%.11lf", doubles());
    add("FLOAT", 4, "%e", floats());
    add("FLOAT", 4, "%.8e", floats());
    add("DOUBLE", 8, "%.9e", doubles());
    add("DOUBLE", 8, "%le", doubles());
    add("DOUBLE", 8, "%.16le", doubles());
    add("FLOAT", 4, "%5.3k", floats());
    add("DOUBLE", 8, "%6.4lk", doubles());
    add("FLOAT", 4, "%g", floats());
    add("DOUBLE", 8, "%lg", doubles());
    {
        vector<uint64_t> v = ints(4, false);
        for (uint64_t x : {4999ull, 86399999ull, 604799999ull, 123456ull}) { v.push_back(x); }
        add("ULONG", 4, "%T", v);
    }
    {
        vector<uint64_t> v;
        for (uint64_t slot : {0ull, 1ull, 37ull, 61ull, 65535ull}) { for (uint64_t f : {0ull, 1ull, 6ull, 0xFFF9ull, 0xFFFFull, 0x8000ull, 0x7FFFull}) { v.push_back(slot | f << 16); } }
        add("SATELLITEID", 4, "%id", v);
    }
    {
        vector<uint64_t> v;
        for (uint32_t sib : {0u, 1u, 10u, 31u}) { for (auto p : {packed(42, sib, 0, 0), packed(42, sib, 1, 0), packed(42, sib, 2, 0), packed(42, sib, 1, 1)}) { v.push_back(p); } }
        add("ULONG", 4, "%m", v);
    }
    {
        vector<uint64_t> v;
        for (uint64_t c = 33; c < 127; c++) { if (c != ',' && c != '*') { v.push_back(c); } }
        add("CHAR", 1, "%c", v);
        add("UCHAR", 1, "%c", v);
        add("ULONG", 4, "%c", v);
    }
    for (int len : {1, 2, 4})
    {
        Kind e{len == 1 ? "ENUM1" : len == 2 ? "ENUM2" : "ENUM4", {"v", "ENUM", len == 1 ? "UCHAR" : len == 2 ? "USHORT" : "ULONG", len, "%d", "e-sol"}, {0, 1, 2, 7}};
        e.v.push_back(200);
        k.push_back(e);
    }
    return k;
}
inline const vector<Kind>& kindsOf() { static const vector<Kind> k = kinds(); return k; }
static const vector<Kind>& KINDS = kindsOf();
inline string kindName(const Kind& k) { return k.f.dt + " " + k.tag; }

inline bool noArray(const Kind& k) { return k.f.type == "ENUM"; }

inline F named(F f, const char* n)
{
    f.name = n;
    return f;
}
// all sequences of representative fields
inline F rowsOf(const char* name, vector<F> sub, int max = 4)
{
    F f{name, "FIELD_ARRAY", "UNKNOWN", 4, ""};
    f.arrayLength = max;
    f.fields = std::move(sub);
    return f;
}
struct Rep
{
    F f;
    vector<Val> v;
};
inline Val N1(uint64_t v) { return {{v}, "", {}}; }
inline const vector<Rep>& reps()
{
    static const vector<Rep> r = [] {
        vector<Rep> r;
        r.push_back({{"a", "SIMPLE", "UCHAR", 1, "%UB"}, {N1(200)}});
        r.push_back({{"a", "SIMPLE", "SHORT", 2, "%hd"}, {N1(0xFFFE)}});
        r.push_back({{"a", "SIMPLE", "ULONG", 4, "%lx"}, {N1(0xBEEF)}});
        r.push_back({{"a", "SIMPLE", "DOUBLE", 8, "%.4lf"}, {N1(bo::bitsD(-12.25))}});
        r.push_back({{"a", "SIMPLE", "BOOL", 4, "%d"}, {N1(1)}});
        r.push_back({{"a", "ENUM", "ULONG", 4, "%d", "e-sol"}, {N1(2)}});
        r.push_back({{"a", "ENUM", "UCHAR", 1, "%d", "e-sol"}, {N1(1)}});
        r.push_back({{"a", "FIXED_LENGTH_ARRAY", "CHAR", 1, "%s", "", 4}, {{{'a', 'b', 0, 0}, "", {}}, {{0, 0, 0, 0}, "", {}}}});
        r.push_back({{"a", "FIXED_LENGTH_ARRAY", "UCHAR", 1, "%Z", "", 3}, {{{1, 0xAB, 255}, "", {}}}});
        r.push_back({{"a", "FIXED_LENGTH_ARRAY", "USHORT", 2, "%hu", "", 2}, {{{1, 65535}, "", {}}}});
        r.push_back({{"a", "VARIABLE_LENGTH_ARRAY", "ULONG", 4, "%lu", "", 3}, {{{}, "", {}}, {{5, 6}, "", {}}}});
        r.push_back({{"a", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%P", "", 5}, {{{}, "", {}}, {{'x', 1, '\\'}, "", {}}}});
        r.push_back({{"a", "STRING", "CHAR", 1, "%s", "", 16}, {{{}, "", {}}, {{}, "q,r", {}}}});
        r.push_back({rowsOf("a", {{"p", "SIMPLE", "ULONG", 4, "%lu"}, {"q", "SIMPLE", "SHORT", 2, "%hd"}}), {{{}, "", {}}, {{}, "", {{N1(1), N1(2)}, {N1(3), N1(0xFFFF)}}}}});
        r.push_back({rowsOf("a", {{"p", "SIMPLE", "UCHAR", 1, "%UB"}, {"q", "STRING", "CHAR", 1, "%s", "", 8}}), {{{}, "", {{N1(1), {{}, "k", {}}}, {N1(3), {{}, "longer", {}}}}}}});
        r.push_back({rowsOf("a", {{"p", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%UB", "", 3}}), {{{}, "", {{{{1, 2, 3}, "", {}}}, {{{}, "", {}}}, {{{9}, "", {}}}}}}});
        return r;
    }();
    return r;
}

// Abbreviated ASCII indents with '<', ' ' and line ends, so a raw character field that begins with one of them has no
// reading of its own in that format.
inline bool indentation(const vector<F>& fs, const Body& b)
{
    for (size_t i = 0; i < fs.size(); i++)
    {
        const bool raw = fs[i].conv == "%c" || fs[i].conv == "%P";
        if (raw && !b[i].n.empty() && b[i].n[0] && strchr("< \r\n", static_cast<int>(b[i].n[0]))) { return true; }
    }
    return false;
}
} // namespace co
