// P01: every CRC routine equals the bit-by-bit definition.
#include "mc.hpp"

#include "novatel_edie/common/crc.hpp"
#include "novatel_edie/decoders/oem/crc.hpp"

#include <memory>
#include <utility>

using namespace mc;

// ---- reference: one bit at a time, straight from the definition
template <typename T> T refByte(T crc, unsigned char c, T poly, bool rev)
{
    const unsigned w = sizeof(T) * 8;
    for (unsigned k = 0; k < 8; k++)
    {
        if (rev)
        {
            const unsigned bit = (c >> k) & 1u;
            const unsigned fb = (static_cast<unsigned>(crc) & 1u) ^ bit;
            crc = static_cast<T>(crc >> 1);
            if (fb) { crc = static_cast<T>(crc ^ poly); }
        }
        else
        {
            const unsigned bit = (c >> (7 - k)) & 1u;
            const unsigned fb = (static_cast<unsigned>(crc >> (w - 1)) & 1u) ^ bit;
            crc = static_cast<T>(crc << 1);
            if (fb) { crc = static_cast<T>(crc ^ poly); }
        }
    }
    return crc;
}
template <typename T> T ref(const unsigned char* p, size_t n, T init, T poly, bool rev)
{
    T c = init;
    for (size_t i = 0; i < n; i++) { c = refByte<T>(c, p[i], poly, rev); }
    return c;
}

// bytes placed so that they end exactly at the end of a heap block and start at a chosen alignment
struct Placed
{
    std::unique_ptr<unsigned char[]> mem;
    unsigned char* p;
    size_t n;
    Placed(size_t len, size_t align) : mem(new unsigned char[len + align ? len + align : 1]), p(mem.get() + align), n(len) { memset(mem.get(), 0xA5, align), memset(p, 0, len); }
};

static void patt(unsigned char* p, size_t n, int which)
{
    for (size_t i = 0; i < n; i++)
    {
        switch (which)
        {
        case 0: p[i] = 0; break;
        case 1: p[i] = 0xFF; break;
        case 2: p[i] = static_cast<unsigned char>(i * 37 + 11); break;
        default: p[i] = static_cast<unsigned char>((i * i * 7 + 3 * i) >> 2); break;
        }
    }
}

template <typename T, T Poly, bool Rev> struct Gen
{
    static T block(const unsigned char* p, size_t n, T init) { return novatel::edie::CalculateBlockCrc<T, Poly, Rev>(p, static_cast<uint32_t>(n), init); }
    static T chars(const unsigned char* p, size_t n, T init)
    {
        T c = init;
        for (size_t i = 0; i < n; i++) { novatel::edie::CalculateCharacterCrc<T, Poly, Rev>(c, p[i]); }
        return c;
    }
    static T view(const unsigned char* p, size_t n, T init)
    {
        return novatel::edie::CalculateBlockCrc<T, Poly, Rev>(std::string_view(reinterpret_cast<const char*>(p), n), init);
    }
    static constexpr T poly = Poly;
    static constexpr bool rev = Rev;
    using type = T;
};
struct Oem
{
    static uint32_t block(const unsigned char* p, size_t n, uint32_t init) { return novatel::edie::oem::CalculateBlockCrc32(p, static_cast<uint32_t>(n), init); }
    static uint32_t chars(const unsigned char* p, size_t n, uint32_t init)
    {
        uint32_t c = init;
        for (size_t i = 0; i < n; i++) { novatel::edie::oem::CalculateCharacterCrc32(c, p[i]); }
        return c;
    }
    static uint32_t view(const unsigned char* p, size_t n, uint32_t init)
    {
        if (init != 0) { return chars(p, n, init); }
        return novatel::edie::oem::CalculateBlockCrc32(std::string_view(reinterpret_cast<const char*>(p), n));
    }
    static constexpr uint32_t poly = 0xEDB88320u;
    static constexpr bool rev = true;
    using type = uint32_t;
};
struct Compat // the backward compatible CRC-32 entry points
{
    static uint32_t block(const unsigned char* p, size_t n, uint32_t init) { return novatel::edie::CalculateBlockCrc32(p, static_cast<uint32_t>(n), init); }
    static uint32_t chars(const unsigned char* p, size_t n, uint32_t init)
    {
        uint32_t c = init;
        for (size_t i = 0; i < n; i++) { novatel::edie::CalculateCharacterCrc32(c, p[i]); }
        return c;
    }
    static uint32_t view(const unsigned char* p, size_t n, uint32_t init)
    {
        if (init != 0) { return chars(p, n, init); }
        return novatel::edie::CalculateBlockCrc32(std::string_view(reinterpret_cast<const char*>(p), n));
    }
    static constexpr uint32_t poly = 0xEDB88320u;
    static constexpr bool rev = true;
    using type = uint32_t;
};

template <typename R> void compare(const unsigned char* p, size_t n, typename R::type init, const char* what)
{
    using T = typename R::type;
    const T want = ref<T>(p, n, init, R::poly, R::rev);
    const T b = R::block(p, n, init), c = R::chars(p, n, init), v = R::view(p, n, init);
    addEvals(3);
    distinct(mix(mix(static_cast<uint64_t>(want), n), sizeof(T) * 2 + R::rev));
    if (b == want && c == want && v == want) { return; }
    fail("mismatch", fmtf("%s: length %zu address%%16=%zu init=%llx data=%s: bitwise=%llx block=%llx per-character=%llx string=%llx", what, n,
                          reinterpret_cast<uintptr_t>(p) % 16, (unsigned long long)init, hex(p, n).c_str(), (unsigned long long)want, (unsigned long long)b,
                          (unsigned long long)c, (unsigned long long)v));
}

// For one length: every alignment, every byte position, every byte value on top of a background.
template <typename R> void lengthUnit(const char* name, size_t n, bool allValues, int backgrounds)
{
    using T = typename R::type;
    const size_t align = static_cast<size_t>(choose(8));
    Placed d(n, align);
    for (int bg = 0; bg < backgrounds; bg++)
    {
        patt(d.p, n, bg);
        for (T init : {T(0), T(~T(0)), T(T(1) << (sizeof(T) * 8 - 1)), T(0x5A)})
        {
            compare<R>(d.p, n, init, name);
            if (align == 0)
            {
                for (unsigned b = 0; b < sizeof(T) * 8; b++) { compare<R>(d.p, n, T(T(1) << b), name); }
            }
        }
        for (size_t i = 0; i < n; i++)
        {
            const unsigned char keep = d.p[i];
            if (allValues && align == 0)
            {
                for (int v = 0; v < 256; v++)
                {
                    d.p[i] = static_cast<unsigned char>(v);
                    compare<R>(d.p, n, 0, name);
                }
            }
            else
            {
                for (int k = 0; k < 8; k++)
                {
                    d.p[i] = static_cast<unsigned char>(keep ^ (1 << k));
                    compare<R>(d.p, n, 0, name);
                }
            }
            d.p[i] = keep;
        }
    }
    sample(fmtf("%s length %zu alignment %zu: every position x value compared with the bitwise CRC", name, n, align));
}

// every two-way split, block/char mixes
template <typename R> void splitUnit(const char* name, size_t n)
{
    using T = typename R::type;
    Placed d(n, 1);
    for (int bg = 1; bg < 4; bg++)
    {
        patt(d.p, n, bg);
        const T want = ref<T>(d.p, n, 0, R::poly, R::rev);
        for (size_t k = 0; k <= n; k++)
        {
            const T a1 = R::block(d.p, k, 0), a2 = R::chars(d.p, k, 0);
            const T w[4] = {R::block(d.p + k, n - k, a1), R::chars(d.p + k, n - k, a1), R::block(d.p + k, n - k, a2), R::view(d.p + k, n - k, a1)};
            addEvals(4);
            for (int q = 0; q < 4; q++)
            {
                if (w[q] != want)
                {
                    fail("split", fmtf("%s: length %zu split at %zu (mode %d): %llx, whole is %llx", name, n, k, q, (unsigned long long)w[q],
                                       (unsigned long long)want));
                }
            }
        }
        for (size_t step = 1; step <= n && step < 70; step++)
        {
            T c = 0;
            for (size_t i = 0; i < n; i += step) { c = R::block(d.p + i, std::min(step, n - i), c); }
            addEvals(1);
            if (c != want) { fail("split", fmtf("%s: length %zu in pieces of %zu: %llx, whole is %llx", name, n, step, (unsigned long long)c, (unsigned long long)want)); }
        }
    }
}

// compile-time evaluation
constexpr char TEXT[] = "#BESTPOSA,COM1,0,72.5,FINESTEERING,2000,202512.000,02000020,b1f6,32768;\"\\/~!@$%^&*()_+|";
template <typename R, size_t... I> constexpr std::array<uint32_t, sizeof...(I)> ctTable(std::index_sequence<I...>)
{
    return {novatel::edie::CalculateBlockCrc32(std::string_view(TEXT, I))...};
}
constexpr auto CT = ctTable<Compat>(std::make_index_sequence<sizeof(TEXT)>());
template <size_t... I> constexpr std::array<uint32_t, sizeof...(I)> ctTableOem(std::index_sequence<I...>)
{
    return {novatel::edie::oem::CalculateBlockCrc32(std::string_view(TEXT, I))...};
}
constexpr auto CTO = ctTableOem(std::make_index_sequence<sizeof(TEXT)>());

template <typename R> void add(Check& ck, const std::string& name, size_t maxLen, bool allValues, int bgs, size_t maxSplit)
{
    for (size_t n = 0; n <= maxLen; n++)
    {
        ck.unit(name + "/len" + std::to_string(n), [=] { lengthUnit<R>(name.c_str(), n, allValues, bgs); });
    }
    for (size_t n = 0; n <= maxSplit; n++)
    {
        ck.unit(name + "/split" + std::to_string(n), [=] { splitUnit<R>(name.c_str(), n); });
    }
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P01";
    ck.level = "exploration";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    const bool th = ck.thorough();
    ck.rule = "every length up to the bound x 8 alignments x byte position x byte value (all 256, or all single-bit flips) x backgrounds x initial values, and "
              "all two-way splits and uniform piece sizes; outcome = (value, length, routine family). Buffers end at the end of their heap block (ASan).";
    ck.assumptions = {"lengths above the bound behave like the bounded ones of the same residue (the routines loop over fixed-size blocks); long lengths are "
                      "covered on four contents only"};
    add<Gen<uint32_t, 0xEDB88320u, true>>(ck, "crc32r", th ? 40 : 26, true, 3, 64);
    add<Gen<uint32_t, 0x04C11DB7u, false>>(ck, "crc32n", th ? 40 : 26, true, 2, 64);
    add<Gen<uint16_t, 0x1021, false>>(ck, "crc16n", th ? 40 : 26, true, 2, 40);
    add<Gen<uint16_t, 0x8408, true>>(ck, "crc16r", th ? 40 : 26, true, 2, 40);
    add<Gen<uint8_t, 0x07, false>>(ck, "crc8n", th ? 40 : 26, true, 2, 40);
    add<Gen<uint8_t, 0xE0, true>>(ck, "crc8r", th ? 40 : 26, true, 2, 40);
    add<Gen<uint64_t, 0x42F0E1EBA9EA3693ull, false>>(ck, "crc64n", th ? 40 : 26, true, 2, 40);
    add<Gen<uint64_t, 0xC96C5795D7870F42ull, true>>(ck, "crc64r", th ? 40 : 26, true, 2, 40);
    add<Gen<uint32_t, 0x00864CFBu, false>>(ck, "crc32n-864cfb", 17, true, 1, 20);
    add<Compat>(ck, "crc32", 26, true, 1, 64);
    add<Oem>(ck, "oem", th ? 640 : 300, th, 2, th ? 600 : 300);
    ck.unit("oem/long", [=] {
        const int which = choose(4);
        const size_t n0 = static_cast<size_t>(choose(th ? 200 : 64)) * 64;
        for (size_t n = n0; n < n0 + 64; n++)
        {
            Placed d(n + 170, n % 8);
            patt(d.p, d.n, which);
            compare<Oem>(d.p, d.n, which == 2 ? 0x12345678u : 0u, "oem long");
        }
    });
    ck.unit("oem/max-message", [] {
        static const size_t L[] = {4095, 4096, 4097, 16384, 32767, 32768, 65535, 65536, 65537, 65564};
        const size_t n = L[choose(10)];
        Placed d(n, static_cast<size_t>(choose(8)));
        patt(d.p, n, choose(4));
        compare<Oem>(d.p, n, 0, "oem max");
        compare<Gen<uint32_t, 0xEDB88320u, true>>(d.p, n, 0, "crc32r max");
    });
    ck.unit("constexpr", [] {
        const size_t n = static_cast<size_t>(choose(static_cast<int>(CT.size())));
        const uint32_t want = ref<uint32_t>(reinterpret_cast<const unsigned char*>(TEXT), n, 0, 0xEDB88320u, true);
        addEvals(1);
        MC_REQUIRE(CT[n] == want && CTO[n] == want, "constexpr", fmtf("compile-time CRC of the first %zu characters: %x / oem %x, bitwise %x", n, CT[n], CTO[n], want));
    });
    return runCheck(ck, argc, argv);
}
