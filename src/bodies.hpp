// An independent rendering of message bodies: from a list of field definitions and values to the binary layout and
// the ASCII, abbreviated ASCII and JSON texts.  Written from the documented formats, not from the library.
#pragma once
#include <cmath>
#include <cstring>

#include "edie.hpp"

namespace bo {
using ed::F;
using std::string;
using std::vector;

struct Val
{
    vector<uint64_t> n;         // elements, as bit patterns of the field's width
    string s;                   // STRING
    vector<vector<Val>> rows;   // FIELD_ARRAY
};
using Body = vector<Val>;

inline uint64_t bitsF(float v) { uint32_t u; memcpy(&u, &v, 4); return u; }
inline uint64_t bitsD(double v) { uint64_t u; memcpy(&u, &v, 8); return u; }
inline float asF(uint64_t b) { uint32_t u = static_cast<uint32_t>(b); float v; memcpy(&v, &u, 4); return v; }
inline double asD(uint64_t b) { double v; memcpy(&v, &b, 8); return v; }
inline bool isFloat(const F& f) { return f.dt == "FLOAT" || f.dt == "DOUBLE"; }
inline bool isSigned(const F& f) { return f.dt == "CHAR" || f.dt == "SHORT" || f.dt == "INT" || f.dt == "LONG" || f.dt == "LONGLONG"; }
inline uint64_t trunc(uint64_t v, int len) { return len >= 8 ? v : v & ((1ull << (8 * len)) - 1); }
inline int64_t sext(uint64_t v, int len) { return len >= 8 ? static_cast<int64_t>(v) : static_cast<int64_t>(v << (64 - 8 * len)) >> (64 - 8 * len); }
inline bool arrayKind(const F& f) { return f.type == "FIXED_LENGTH_ARRAY" || f.type == "VARIABLE_LENGTH_ARRAY"; }

struct Conv
{
    string c;                   // letters
    int width = -1, prec = -1;
};
inline Conv conv(const F& f)
{
    Conv r;
    size_t i = 1;
    auto num = [&] { int v = 0; while (i < f.conv.size() && isdigit(static_cast<unsigned char>(f.conv[i]))) { v = v * 10 + f.conv[i++] - '0'; } return v; };
    if (i < f.conv.size() && isdigit(static_cast<unsigned char>(f.conv[i]))) { r.width = num(); }
    if (i < f.conv.size() && f.conv[i] == '.') { i++; r.prec = num(); }
    r.c = f.conv.substr(i);
    return r;
}
inline bool quoted(const F& f) { const string c = conv(f).c; return c == "s" || c == "S"; }

// names used by %m, by identity number
using Names = std::map<uint32_t, string>;

// ---------------------------------------------------------------- binary
inline void pad(string& s, size_t start, size_t align) { while (align > 1 && (s.size() - start) % align) { s += '\0'; } }
inline void bin(string& s, const vector<F>& fs, const Body& b)
{
    const size_t start = s.size();
    auto put = [&](uint64_t v, int n) { for (int i = 0; i < n; i++) { s += static_cast<char>(v >> (8 * i)); } };
    for (size_t k = 0; k < fs.size(); k++)
    {
        const F& f = fs[k];
        const Val& v = b[k];
        pad(s, start, static_cast<size_t>(std::min(4, f.len)));
        if (f.type == "STRING")
        {
            s += v.s;
            s += '\0';
            pad(s, start, 4);
        }
        else if (f.type == "FIELD_ARRAY")
        {
            const int lf = f.lenField < 0 ? 4 : f.lenField;
            if (f.ref.empty())
            {
                pad(s, start, static_cast<size_t>(lf));
                put(v.rows.size(), lf);
            }
            for (auto& r : v.rows)
            {
                bool var = false;
                for (auto& x : f.fields) { var = var || x.type == "STRING" || x.type == "FIELD_ARRAY" || x.type == "VARIABLE_LENGTH_ARRAY"; }
                if (var) { pad(s, start, static_cast<size_t>(std::min(4, f.len))); }
                bin(s, f.fields, r);
            }
        }
        else
        {
            if (f.type == "VARIABLE_LENGTH_ARRAY" && f.ref.empty())
            {
                const int lf = f.lenField < 0 ? 4 : f.lenField;
                pad(s, start, static_cast<size_t>(lf));
                put(v.n.size(), lf);
            }
            for (uint64_t x : v.n) { put(x, f.len); }
        }
    }
}

// ---------------------------------------------------------------- text of one element
inline string floatText(const F& f, uint64_t bits)
{
    const Conv c = conv(f);
    const double v = f.len == 4 ? asF(bits) : asD(bits);
    const int prec = c.prec < 0 ? 6 : c.prec;
    bool sci = c.c == "e" || c.c == "le";
    if (c.c == "g" || c.c == "lg") { sci = true; }
    if (c.c == "k" || c.c == "lk")
    {
        const double a = std::fabs(v);
        sci = c.width < 0 || (a != 0 && (a > std::pow(10.0, c.width) || a < std::pow(10.0, -c.width)));
    }
    char buf[512];
    snprintf(buf, sizeof buf, sci ? "%.*e" : "%.*f", prec, v);
    return buf;
}
inline string satText(uint64_t v)
{
    const int freq = static_cast<int16_t>(v >> 16);
    string s = std::to_string(v & 0xFFFF);
    if (freq > 0) { s += "+"; }
    if (freq != 0) { s += std::to_string(freq); }
    return s;
}
inline string hexN(uint64_t v, int digits)
{
    char b[32];
    snprintf(b, sizeof b, "%0*llx", digits, static_cast<unsigned long long>(v));
    return b;
}
inline string jsonChar(unsigned char c)
{
    if (c == '"') { return "\\\""; }
    if (c == '\\') { return "\\\\"; }
    switch (c)
    {
    case '\b': return "\\b";
    case '\f': return "\\f";
    case '\n': return "\\n";
    case '\r': return "\\r";
    case '\t': return "\\t";
    }
    if (c < 32) { return "\\u" + hexN(c, 4); }
    return string(1, static_cast<char>(c));
}
inline string element(const F& f, uint64_t v, bool json, const Names& names)
{
    const string c = conv(f).c;
    auto q = [&](const string& t) { return json ? "\"" + t + "\"" : t; };
    if (f.type == "ENUM")
    {
        for (auto& e : ed::stdEnums())
        {
            if (e.id == f.enumId) { for (auto& x : e.values) { if (x.first == v) { return q(x.second); } } }
        }
        return q("UNKNOWN");
    }
    if (c == "m") { auto it = names.find(static_cast<uint32_t>(v)); return q(it == names.end() ? "?" : it->second); }
    if (c == "id") { return q(satText(v)); }
    if (c == "T")
    {
        char b[32];
        snprintf(b, sizeof b, "%llu.%03llu", static_cast<unsigned long long>(v / 1000), static_cast<unsigned long long>(v % 1000));
        return b;
    }
    if (c == "c") { return json ? "\"" + jsonChar(static_cast<unsigned char>(v)) + "\"" : string(1, static_cast<char>(v)); }
    if (f.dt == "BOOL") { return json ? (v ? "true" : "false") : (v ? "TRUE" : "FALSE"); }
    if (isFloat(f)) { return floatText(f, v); }
    if (!json)
    {
        if (c == "x" || c == "X") { return hexN(v, 2 * f.len); }
        if (c == "lx") { return hexN(v, 8); }
        if (c == "llx") { return hexN(v, 16); }
        if (c == "XB" || c == "Z") { return hexN(v, 2); }
        if (c == "P")
        {
            if (v == '\\') { return "\\\\"; }
            return v > 31 && v < 127 ? string(1, static_cast<char>(v)) : "\\x" + hexN(v, 2);
        }
    }
    return isSigned(f) && c != "P" ? std::to_string(sext(v, f.len)) : std::to_string(v);
}
inline string stringOf(const Val& v)
{
    string s;
    for (uint64_t x : v.n)
    {
        if (!x) { break; }
        s += static_cast<char>(x);
    }
    return s;
}

// ---------------------------------------------------------------- bodies
inline void asciiFields(string& s, const vector<F>& fs, const Body& b, bool abb, int indent, const Names& names)
{
    const char sep = abb ? ' ' : ',';
    auto newLine = [&](int k) { s += "\r\n<" + string(static_cast<size_t>(5 * k), ' '); };
    bool pending = false;
    for (size_t k = 0; k < fs.size(); k++)
    {
        const F& f = fs[k];
        const Val& v = b[k];
        if (pending && abb) { newLine(indent); }
        pending = false;
        if (f.type == "STRING") { s += "\"" + v.s + "\"" + sep; }
        else if (f.type == "FIELD_ARRAY")
        {
            s += std::to_string(v.rows.size()) + sep;
            if (abb && v.rows.empty()) { newLine(indent + 1); }
            for (auto& r : v.rows)
            {
                if (abb) { newLine(indent + 1); }
                asciiFields(s, f.fields, r, abb, indent + 1, names);
            }
            pending = true;
        }
        else if (arrayKind(f))
        {
            if (f.type == "VARIABLE_LENGTH_ARRAY") { s += std::to_string(v.n.size()) + sep; }
            const string c = conv(f).c;
            if (quoted(f)) { s += "\"" + stringOf(v) + "\"" + sep; }
            else if (c == "Z" || c == "P")
            {
                for (uint64_t x : v.n) { s += element(f, x, false, names); }
                s += sep;
            }
            else { for (uint64_t x : v.n) { s += element(f, x, false, names) + sep; } }
        }
        else { s += element(f, v.n[0], false, names) + sep; }
    }
}
inline string ascii(const vector<F>& fs, const Body& b, const Names& names)
{
    string s;
    asciiFields(s, fs, b, false, 1, names);
    if (!s.empty()) { s.pop_back(); }
    return s; // without checksum
}
inline string abb(const vector<F>& fs, const Body& b, const Names& names)
{
    string s = "<     ";
    asciiFields(s, fs, b, true, 1, names);
    s.pop_back();
    return s + "\r\n";
}
inline string json(const vector<F>& fs, const Body& b, const Names& names)
{
    string s = "{";
    for (size_t k = 0; k < fs.size(); k++)
    {
        const F& f = fs[k];
        const Val& v = b[k];
        if (k) { s += ","; }
        s += "\"" + f.name + "\": ";
        if (f.type == "STRING" || (arrayKind(f) && quoted(f)))
        {
            s += "\"";
            for (char c : f.type == "STRING" ? v.s : stringOf(v)) { s += jsonChar(static_cast<unsigned char>(c)); }
            s += "\"";
        }
        else if (f.type == "FIELD_ARRAY")
        {
            s += "[";
            for (size_t i = 0; i < v.rows.size(); i++) { s += (i ? "," : "") + json(f.fields, v.rows[i], names); }
            s += "]";
        }
        else if (arrayKind(f))
        {
            s += "[";
            for (size_t i = 0; i < v.n.size(); i++) { s += (i ? "," : "") + element(f, v.n[i], true, names); }
            s += "]";
        }
        else { s += element(f, v.n[0], true, names); }
    }
    return s + "}";
}

// ---------------------------------------------------------------- what survives the text formats
inline uint64_t viaText(const F& f, uint64_t v, bool jsonText, const Names& names)
{
    if (!isFloat(f)) { return v; }
    const string t = element(f, v, jsonText, names);
    return f.len == 4 ? bitsF(strtof(t.c_str(), nullptr)) : bitsD(strtod(t.c_str(), nullptr));
}
inline Body viaText(const vector<F>& fs, Body b, bool jsonText, const Names& names)
{
    for (size_t k = 0; k < fs.size(); k++)
    {
        for (auto& x : b[k].n) { x = viaText(fs[k], x, jsonText, names); }
        for (auto& r : b[k].rows) { r = viaText(fs[k].fields, r, jsonText, names); }
    }
    return b;
}
} // namespace bo
