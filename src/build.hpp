// Builders of well-formed messages, independent of the library.
#pragma once
#include <cstdint>
#include <cstdio>
#include <string>
#include <string_view>

namespace bld {
inline uint32_t crc32(std::string_view s, uint32_t c = 0)
{
    struct Table
    {
        uint32_t t[256];
    };
    static const Table table = [] {
        Table x{};
        for (uint32_t i = 0; i < 256; i++)
        {
            uint32_t v = i;
            for (int k = 0; k < 8; k++) { v = (v >> 1) ^ (v & 1 ? 0xEDB88320u : 0); }
            x.t[i] = v;
        }
        return x;
    }();
    const uint32_t* t = table.t;
    for (unsigned char b : s) { c = (c >> 8) ^ t[(c ^ b) & 0xFF]; }
    return c;
}
inline std::string le(uint64_t v, int n)
{
    std::string s;
    for (int i = 0; i < n; i++) { s += static_cast<char>(v >> (8 * i)); }
    return s;
}
inline std::string withCrc(std::string s) { return s + le(crc32(s), 4); }
struct Hdr
{
    uint16_t id = 42;
    uint8_t type = 0;
    uint8_t port = 0x20;
    uint16_t seq = 0;
    uint8_t idle = 0x50;
    uint8_t tstat = 180;
    uint16_t week = 2000;
    uint32_t ms = 123456;
    uint32_t rxstat = 0;
    uint16_t defcrc = 0x1234;
    uint16_t sw = 0x3210;
};
inline std::string binaryHeader(const Hdr& h, size_t bodyLen, uint8_t sync2 = 0x44)
{
    std::string s = "\xAA";
    s += static_cast<char>(sync2);
    s += '\x12';
    s += '\x1C';
    s += le(h.id, 2) + le(h.type, 1) + le(h.port, 1) + le(bodyLen, 2) + le(h.seq, 2) + le(h.idle, 1) + le(h.tstat, 1) + le(h.week, 2) + le(h.ms, 4) +
         le(h.rxstat, 4) + le(h.defcrc, 2) + le(h.sw, 2);
    return s;
}
inline std::string binary(const Hdr& h, std::string_view body, uint8_t sync2 = 0x44) { return withCrc(binaryHeader(h, body.size(), sync2) + std::string(body)); }
inline std::string binary(uint16_t id, std::string_view body, uint8_t sync2 = 0x44)
{
    Hdr h;
    h.id = id;
    return binary(h, body, sync2);
}
inline std::string binaryHeaderOnly(uint16_t id, size_t len)
{
    Hdr h;
    h.id = id;
    return binaryHeader(h, len);
}
inline std::string shortBinaryHeaderOnly(uint16_t id, size_t len, uint16_t week = 2000, uint32_t ms = 123456)
{
    std::string s("\xAA\x44\x13", 3);
    return s + le(len, 1) + le(id, 2) + le(week, 2) + le(ms, 4);
}
inline std::string shortBinary(uint16_t id, std::string_view body, uint16_t week = 2000, uint32_t ms = 123456)
{
    return withCrc(shortBinaryHeaderOnly(id, body.size(), week, ms) + std::string(body));
}
// inner: what lies between the sync character and '*'
inline std::string ascii(std::string_view inner, char sync = '#')
{
    char t[24];
    snprintf(t, sizeof(t), "*%08x\r\n", crc32(inner));
    return sync + std::string(inner) + t;
}
inline std::string nmea(std::string_view inner)
{
    unsigned x = 0;
    for (unsigned char c : inner) { x ^= c; }
    char t[16];
    snprintf(t, sizeof(t), "*%02X\r\n", x);
    return "$" + std::string(inner) + t;
}
// a line whose XOR is `sum`, ending in `tail`
inline std::string nmeaSum(unsigned sum, std::string_view tail)
{
    std::string in = "GPGGA,";
    unsigned x = 0;
    for (unsigned char c : in) { x ^= c; }
    // two printable characters whose XOR makes up the difference
    const unsigned d = x ^ sum;
    for (unsigned a = 0x41; a < 0x7B; a++)
    {
        const unsigned b = a ^ d;
        if (b >= 0x30 && b < 0x7B) { return "$" + in + static_cast<char>(a) + static_cast<char>(b) + std::string(tail); }
    }
    return "$";
}
// a line whose CRC field is no 8-digit hexadecimal number although its leading digits have the right value
inline std::string asciiShortHex()
{
    for (int i = 0; i < 100000; i++)
    {
        const std::string in = "A;" + std::to_string(i);
        const uint32_t c = crc32(in);
        if (c < 0x10000000u)
        {
            char t[24];
            snprintf(t, sizeof(t), "*%07xg\r\n", c);
            return "#" + in + t;
        }
    }
    return "#";
}
} // namespace bld
