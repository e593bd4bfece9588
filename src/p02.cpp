// P02: FixedBuffer behaves as a bounded FIFO (reference: std::deque stepped in lockstep).
#include "mc.hpp"

#include <array>
#include <deque>
#include <memory>

#include "novatel_edie/common/fixed_buffer.hpp"

using namespace mc;

template <typename T> struct Model
{
    size_t cap;
    std::deque<T> q;
};

template <typename T> std::string show(const std::deque<T>& q)
{
    std::string s = "[";
    for (auto x : q) { s += std::to_string(static_cast<unsigned long long>(x)) + " "; }
    return s + "]";
}

// all observers, every argument
template <typename T> void observe(const FixedBuffer<T>& b, const Model<T>& m, const std::string& after)
{
    auto bad = [&](const std::string& what) { fail("observer", "after " + after + ": " + what + "; model " + show(m.q)); };
    const size_t n = m.q.size();
    if (b.size() != n) { bad("size() = " + std::to_string(b.size())); }
    if (b.capacity() != m.cap) { bad("capacity() = " + std::to_string(b.capacity())); }
    if (b.available_space() != m.cap - n) { bad("available_space() = " + std::to_string(b.available_space())); }
    if (b.empty() != (n == 0)) { bad("empty()"); }
    if (b.full() != (n == m.cap)) { bad("full()"); }
    for (size_t i = 0; i < n; i++)
    {
        if (b[i] != m.q[i]) { bad("element " + std::to_string(i) + " = " + std::to_string(static_cast<unsigned long long>(b[i]))); }
        if (b.data()[i] != m.q[i]) { bad("data()[" + std::to_string(i) + "]"); }
        auto rd = [&](auto tag) {
            using U = decltype(tag);
            constexpr size_t k = sizeof(U) / sizeof(T);
            if constexpr (k > 0)
            {
                if (i + k > n) { return; }
                const U got = b.template read_value<U>(i);
                std::vector<T> w;
                for (size_t j = 0; j < k; j++) { w.push_back(m.q[i + j]); }
                if (memcmp(&got, w.data(), sizeof(U)) != 0) { bad("read_value<" + std::to_string(sizeof(U)) + "> at " + std::to_string(i)); }
            }
        };
        rd(uint16_t{});
        rd(uint32_t{});
        rd(uint64_t{});
    }
    for (size_t c = 0; c <= m.cap + 1; c++)
    {
        const size_t take = std::min(c, n);
        std::unique_ptr<T[]> dst(new T[take ? take : 1]); // exact size: an overlong copy is a sanitizer error
        if (take == 0) { dst[0] = static_cast<T>(0x77); }
        b.copy_out(dst.get(), c);
        for (size_t i = 0; i < take; i++)
        {
            if (dst[i] != m.q[i]) { bad("copy_out(" + std::to_string(c) + ") element " + std::to_string(i)); }
        }
        if (take == 0 && dst[0] != static_cast<T>(0x77)) { bad("copy_out of nothing wrote something"); }
    }
    b.copy_out(nullptr, n);
    addTransitions(1);
}

template <typename T> void step(FixedBuffer<T>& b, Model<T>& m, unsigned& ctr, int op)
{
    const int W = static_cast<int>(m.cap) + 2; // 0..cap+1
    if (op < W)
    {
        const size_t k = static_cast<size_t>(op);
        std::unique_ptr<T[]> src(new T[k ? k : 1]);
        for (size_t i = 0; i < k; i++) { src[i] = static_cast<T>(++ctr * 2654435761u >> 8); }
        const size_t got = b.write(src.get(), k);
        const size_t want = k <= m.cap - m.q.size() ? k : 0;
        if (got != want) { fail("write", fmtf("write(%zu) with %zu of %zu used returned %zu", k, m.q.size(), m.cap, got)); }
        for (size_t i = 0; i < want; i++) { m.q.push_back(src[i]); }
    }
    else if (op < 2 * W)
    {
        const size_t k = static_cast<size_t>(op - W);
        b.erase_begin(k);
        for (size_t i = 0; i < k && !m.q.empty(); i++) { m.q.pop_front(); }
    }
    else
    {
        const size_t got = b.write(nullptr, 1);
        if (got != 0) { fail("write", "write(nullptr) returned " + std::to_string(got)); }
    }
    if (!fresh()) { return; }
    const std::string name = op < W ? "write(" + std::to_string(op) + ")" : op < 2 * W ? "erase_begin(" + std::to_string(op - W) + ")" : "write(nullptr,1)";
    if (tracing()) { note(name + " -> " + show(m.q)); }
    observe(b, m, name);
}

template <typename T> void historyUnit(size_t cap, int depth, int first)
{
    FixedBuffer<T> b(cap);
    Model<T> m{cap, {}};
    unsigned ctr = 0;
    const int nops = static_cast<int>(2 * (cap + 2) + 1);
    if (fresh()) { observe(b, m, "construction"); }
    const T* base = b.data();
    uint64_t h = cap;
    for (int d = 0; d < depth; d++)
    {
        step(b, m, ctr, d == 0 && first >= 0 ? first : choose(nops));
        h = mix(mix(cap * 64 + sizeof(T), m.q.size()), static_cast<uint64_t>(b.data() - base));
        if (distinct(h)) { addStates(1); }
    }
    sample(fmtf("capacity %zu, %d operations ending with %zu elements at offset %td", cap, depth, m.q.size(), b.data() - base));
}

// Larger capacities: reach every (offset,size) position by a canonical prefix, then every pair of operations.
template <typename T> void positionUnit(size_t cap)
{
    FixedBuffer<T> b(cap);
    Model<T> m{cap, {}};
    unsigned ctr = 0;
    // walk: keep one element alive so that the offset grows, by filling and draining
    const size_t keep = 1 + static_cast<size_t>(choose(static_cast<int>(cap)));
    const size_t rounds = static_cast<size_t>(choose(static_cast<int>(2 * cap) + 2));
    const int W = static_cast<int>(cap) + 2;
    step(b, m, ctr, static_cast<int>(keep));
    for (size_t i = 0; i < rounds; i++)
    {
        if (keep < cap)
        {
            step(b, m, ctr, 1);
            step(b, m, ctr, W + 1);
        }
        else
        {
            step(b, m, ctr, W + 1);
            step(b, m, ctr, 1);
        }
    }
    const T* base = b.data();
    (void)base;
    step(b, m, ctr, choose(2 * W + 1));
    step(b, m, ctr, choose(2 * W + 1));
    step(b, m, ctr, choose(W));
    if (distinct(mix(mix(cap * 131 + keep, rounds), m.q.size()))) { addStates(1); }
}

template <size_t M> void searchOne(const FixedBuffer<unsigned char>& b, const std::string& text, const std::array<unsigned char, M>& pat, size_t start, size_t count)
{
    // definition: first index i>=start in the searched range [start, min(size,start+count)) such that
    // the pattern, cut at the end of the range, matches there
    size_t want = FixedBuffer<unsigned char>::npos;
    if (start < text.size())
    {
        const size_t end = count > text.size() - start ? text.size() : start + count;
        for (size_t i = start; i < end && want == FixedBuffer<unsigned char>::npos; i++)
        {
            const size_t l = std::min(M, end - i);
            if (memcmp(text.data() + i, pat.data(), l) == 0) { want = i; }
        }
    }
    const size_t got = b.search_chars(pat, start, count);
    addEvals(1);
    if (got != want)
    {
        fail("search", fmtf("search of %s in %s from %zu count %zd: got %zd, expected %zd", hex(pat.data(), M).c_str(), hex(text).c_str(), start,
                            (ssize_t)count, (ssize_t)got, (ssize_t)want));
    }
    if constexpr (M == 1)
    {
        if (b.search_char(pat[0], start, count) != want) { fail("search", "search_char disagrees with search_chars"); }
    }
    distinct(mix(mix(got, start), mix(text.size(), M)));
}

void searchUnit(size_t len)
{
    FixedBuffer<unsigned char> b(len ? len : 1);
    // offset of the contents inside the storage
    const size_t off = static_cast<size_t>(choose(static_cast<int>(len) + 1));
    std::vector<unsigned char> junk(b.capacity(), 'a');
    if (off > 0 && len > 1)
    {
        // advance the head: write cap, drop, keeping one byte so that the head is not reset
        (void)!b.write(junk.data(), b.capacity());
        b.erase_begin(b.capacity() - 1);
        for (size_t i = 0; i < off; i++)
        {
            (void)!b.write(junk.data(), 1);
            b.erase_begin(1);
        }
    }
    const int contents = 1 << len;
    const int c = choose(contents);
    std::string t;
    for (size_t i = 0; i < len; i++) { t += static_cast<char>((c >> i) & 1 ? 0xAA : 'a'); }
    if (!b.empty())
    {
        // shift the real contents in behind the kept byte, then drop it
        if (b.write(reinterpret_cast<const unsigned char*>(t.data()), len - 1) != (len - 1) && len > 1) { fail("write", "refused a write that fits"); }
        b.erase_begin(1);
        if (len > 0 && b.write(reinterpret_cast<const unsigned char*>(t.data()) + len - 1, 1) != 1) { fail("write", "refused a write that fits"); }
    }
    else if (len > 0 && b.write(reinterpret_cast<const unsigned char*>(t.data()), len) != len) { fail("write", "refused a write that fits"); }
    for (size_t start = 0; start <= len + 1; start++)
    {
        std::vector<size_t> counts;
        for (size_t k = 0; k <= len + 1; k++) { counts.push_back(k); }
        counts.push_back(FixedBuffer<unsigned char>::npos);
        for (size_t count : counts)
        {
            for (int p = 0; p < 8; p++)
            {
                auto ch = [&](int i) { return static_cast<unsigned char>((p >> i) & 1 ? 0xAA : 'a'); };
                if (p < 2) { searchOne<1>(b, t, {ch(0)}, start, count); }
                if (p < 4) { searchOne<2>(b, t, {ch(0), ch(1)}, start, count); }
                searchOne<3>(b, t, {ch(0), ch(1), ch(2)}, start, count);
            }
        }
    }
    sample(fmtf("searching all 1-3 byte patterns in %s", hex(t).c_str()));
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P02";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    const bool th = ck.thorough();
    ck.rule = "states = (capacity, element size, size, head offset) reached; a transition = one operation followed by every observer with every argument, compared "
              "with a deque; every operation sequence to the depth bound is run on the real buffer";
    ck.assumptions = {"behaviour depends on capacity only through comparisons (checked for all capacities up to the bound and the default one)"};
    for (size_t cap = 1; cap <= (th ? 4u : 3u); cap++)
    {
        const int nops = static_cast<int>(2 * (cap + 2) + 1);
        const int depth = cap == 1 ? (th ? 7 : 6) : cap == 2 ? (th ? 7 : 6) : (th ? 6 : 5);
        for (int f = 0; f < nops; f++)
        {
            ck.unit(fmtf("u8/cap%zu/first%d", cap, f), [=] { historyUnit<unsigned char>(cap, depth, f); });
            ck.unit(fmtf("u16/cap%zu/first%d", cap, f), [=] { historyUnit<uint16_t>(cap, depth - 1, f); });
        }
    }
    for (size_t cap = 1; cap <= (th ? 12u : 8u); cap++)
    {
        ck.unit(fmtf("u8/positions/cap%zu", cap), [=] { positionUnit<unsigned char>(cap); });
        ck.unit(fmtf("u32/positions/cap%zu", cap), [=] { positionUnit<uint32_t>(cap); });
    }
    for (size_t len = 0; len <= (th ? 9u : 7u); len++) { ck.unit(fmtf("search/len%zu", len), [=] { searchUnit(len); }); }
    ck.unit("default-capacity", [] {
        FixedBuffer<unsigned char> b;
        const size_t cap = b.capacity();
        MC_REQUIRE(cap == RECOMMENDED_FRAME_BUFFER_SIZE && b.size() == 0, "default", "default capacity is not the documented one");
        static const int FR[] = {0, 1, 2};
        std::vector<unsigned char> big(cap + 1);
        for (size_t i = 0; i < big.size(); i++) { big[i] = static_cast<unsigned char>(i * 31 + (i >> 8)); }
        const int delta = FR[choose(3)];
        const size_t first = cap - static_cast<size_t>(delta), drop = static_cast<size_t>(choose(4)) * (cap / 3) + static_cast<size_t>(choose(2));
        MC_REQUIRE(b.write(big.data(), cap + 1) == 0, "default", "accepted more than its capacity");
        MC_REQUIRE(b.write(big.data(), first) == first, "default", "refused a write that fits");
        b.erase_begin(drop);
        const size_t d = std::min(drop, first);
        std::string model(reinterpret_cast<char*>(big.data()) + d, first - d);
        for (int i = 0; i < 3; i++)
        {
            static const size_t K[] = {1, 100, 0};
            const int c = choose(3);
            const size_t k = c == 2 ? cap - model.size() : K[c];
            const size_t want = k <= cap - model.size() ? k : 0;
            MC_REQUIRE(b.write(big.data() + 7, std::min(k, cap - 7)) == std::min(want, std::min(k, cap - 7)), "default", "write took a wrong amount");
            if (want) { model.append(reinterpret_cast<char*>(big.data()) + 7, std::min(k, cap - 7)); }
            b.erase_begin(5);
            model.erase(0, std::min<size_t>(5, model.size()));
        }
        MC_REQUIRE(b.size() == model.size() && memcmp(b.data(), model.data(), model.size()) == 0, "default", "contents differ from the model");
    });
    return runCheck(ck, argc, argv);
}
