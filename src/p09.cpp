// P09: the caller's buffer is never overrun, whatever its size, and nothing is lost for it.
#include "frames.hpp"
#include <sanitizer/asan_interface.h>
#include <unordered_map>
using namespace fr;

// exact-size blocks, so that one byte too many is a heap overflow
static unsigned char* block(size_t n)
{
    static std::map<size_t, unsigned char*> m;
    unsigned char*& p = m[n];
    if (!p) { p = static_cast<unsigned char*>(malloc(n ? n : 1)); }
    static unsigned char* zero = [] { auto* q = static_cast<unsigned char*>(malloc(1)); __asan_poison_memory_region(q, 1); return q; }();
    return n ? p : zero;
}
struct Step
{
    Kind k;
    Fr& f;
    bool report, payload;
    const string& s; // whole stream
    const Rules r;
    size_t written = 0;
    string bytes;
    vector<Msg> msgs;
    size_t taken = 0;
    STATUS call(size_t size)
    {
        unsigned char* b = block(size);
        uint32_t len = 0;
        HF fm = HF::UNKNOWN;
        bool resp = false;
        const size_t before = f.pendingBytes();
        if (size) { memset(b, 0xC5, size); }
        const STATUS st = f.get(b, static_cast<uint32_t>(size), len, fm, resp);
        addTransitions(1);
        const size_t used = before - f.pendingBytes();
        if (tracing()) { note(fmtf("  GetFrame(size %zu) -> %s format=%s length=%u, removed %zu", size, string(StatusToString(st)).c_str(), fmtName(fm), len, used)); }
        const char* kn = KIND_NAME[k];
        // what lies next, as far as written
        const Cand c = classify(std::string_view(s).substr(taken, written - taken), r);
        if (st == STATUS::SUCCESS)
        {
            if (len > size) { fail(fmtf("size:%s", kn).c_str(), fmtf("%s returned a message of %u bytes into a buffer of %zu", kn, len, size)); }
            const bool bin = fm == HF::BINARY || fm == HF::SHORT_BINARY || fm == HF::PROPRIETARY_BINARY;
            const size_t hdr = fm == HF::SHORT_BINARY ? 12 : 28;
            const size_t total = payload && bin ? hdr + len + 4 : len;
            if (used != total) { fail(fmtf("used:%s", kn).c_str(), fmtf("%s removed %zu bytes for a message of %zu", kn, used, total)); }
            if (memcmp(b, s.data() + taken + (payload && bin ? hdr : 0), len) != 0)
            {
                fail(fmtf("altered:%s", kn).c_str(), fmtf("%s returned %s", kn, hex(string(reinterpret_cast<char*>(b), len)).c_str()));
            }
            msgs.push_back({fm, resp, taken, total});
        }
        else if (st == STATUS::UNKNOWN)
        {
            if (len > size) { fail(fmtf("size:%s", kn).c_str(), fmtf("%s returned %u unknown bytes into a buffer of %zu", kn, len, size)); }
            if (used != len || len == 0) { fail(fmtf("used:%s", kn).c_str(), fmtf("%s removed %zu bytes, reported %u", kn, used, len)); }
            if (report && memcmp(b, s.data() + taken, len) != 0) { fail(fmtf("altered:%s", kn).c_str(), fmtf("%s returned other unknown bytes", kn)); }
            if (!report)
            {
                for (size_t i = 0; i < size; i++)
                {
                    if (b[i] != 0xC5) { fail(fmtf("touched:%s", kn).c_str(), "unknown bytes were copied although their reporting is off"); }
                }
            }
        }
        else
        {
            if (used) { fail(fmtf("side-effect:%s", kn).c_str(), fmtf("%s: %s removed %zu bytes", kn, string(StatusToString(st)).c_str(), used)); }
            for (size_t i = 0; i < size; i++)
            {
                if (b[i] != 0xC5) { fail(fmtf("touched:%s", kn).c_str(), fmtf("%s wrote into the buffer although it returned %s", kn, string(StatusToString(st)).c_str())); }
            }
        }
        if (c.v == V::VALID && (k != ABB || true))
        {
            const bool bin = c.f == HF::BINARY || c.f == HF::SHORT_BINARY || c.f == HF::PROPRIETARY_BINARY;
            const size_t need = payload && bin ? c.len - 4 - (c.f == HF::SHORT_BINARY ? 12 : 28) : c.len;
            if (size >= c.len && st != STATUS::SUCCESS && st != STATUS::UNKNOWN)
            {
                fail(fmtf("refused:%s", kn).c_str(), fmtf("%s: a message of %zu bytes is next and the buffer has %zu, but the call returned %s", kn, c.len, size, string(StatusToString(st)).c_str()));
            }
            if (size < need && st != STATUS::BUFFER_FULL && st != STATUS::UNKNOWN)
            {
                fail(fmtf("not-full:%s", kn).c_str(), fmtf("%s: a message of %zu bytes is next, the buffer has %zu and the call returned %s", kn, c.len, size, string(StatusToString(st)).c_str()));
            }
        }
        if (st == STATUS::BUFFER_FULL && size >= 70000) { fail(fmtf("refused:%s", kn).c_str(), fmtf("%s: BUFFER_FULL for a buffer of %zu", kn, size)); }
        bytes.append(s, taken, used);
        taken += used;
        return st;
    }
    void nullCall()
    {
        uint32_t len = 0;
        HF fm = HF::UNKNOWN;
        bool resp = false;
        const size_t before = f.pendingBytes();
        const STATUS st = f.get(nullptr, 100, len, fm, resp);
        note(fmtf("  GetFrame(nullptr) -> %s", string(StatusToString(st)).c_str()));
        if (st != STATUS::NULL_PROVIDED && !(before == 0 && st == STATUS::BUFFER_EMPTY)) { fail(fmtf("null:%s", KIND_NAME[k]).c_str(), fmtf("a null buffer gave %s", string(StatusToString(st)).c_str())); }
        if (f.pendingBytes() != before) { fail(fmtf("null:%s", KIND_NAME[k]).c_str(), "a refused call removed bytes"); }
    }
    void write(size_t n)
    {
        if (tracing()) { note(fmtf("write %s", printable(s.substr(written, n)).c_str())); }
        if (f.write(s.data() + written, n) != n && n) { fail("write", "write refused"); }
        written += n;
    }
    void drain(size_t size)
    {
        for (size_t i = 0;; i++)
        {
            if (i > 8 * s.size() + 64) { fail("no-progress", fmtf("%s makes no progress on %s", KIND_NAME[k], hex(s).c_str())); }
            const STATUS st = call(size);
            if (st != STATUS::SUCCESS && st != STATUS::UNKNOWN) { return; }
        }
    }
    void flushAll()
    {
        static const size_t sizes[] = {3, 0, 70000};
        for (size_t size : sizes)
        {
            unsigned char* b = block(size);
            if (size) { memset(b, 0xC5, size); }
            const size_t before = f.pendingBytes();
            const uint32_t n = f.flush(b, static_cast<uint32_t>(size));
            if (n != std::min(before, size)) { fail("flush", fmtf("%s: Flush into %zu bytes with %zu pending returned %u", KIND_NAME[k], size, before, n)); }
            if (report && memcmp(b, s.data() + taken, n) != 0) { fail("flush", fmtf("%s: Flush returned other bytes", KIND_NAME[k])); }
            bytes.append(s, taken, n);
            taken += n;
        }
    }
};

static vector<Seg> family()
{
    vector<Seg> v = valid();
    for (const auto& s : noise()) { v.push_back(s); }
    v.push_back({"binary-long", bld::binary(77, string(90, 'q'))});
    v.push_back({"short-255", bld::shortBinary(78, string(255, 'q'))});
    v.push_back({"noise-300", string(300, 'n')});
    v.push_back({"abb-long", "<T C\r\n<     1\r\n<   " + string(40, '7') + "\r\n"});
    return v;
}
static const vector<Seg>& fam()
{
    static const vector<Seg> v = family();
    return v;
}
static const vector<Seg>& brief()
{
    static const vector<Seg> v = [] {
        vector<Seg> o;
        for (const auto& s : fam())
        {
            for (const char* n : {"binary", "short3", "ascii", "nmea", "abb", "ok", "z", "badascii", "<"})
            {
                if (s.name == n) { o.push_back(s); }
            }
        }
        return o;
    }();
    return v;
}
static bool special(const string& s) { return s.find("\xAA\x45\x13") != string::npos; }

static Fr& prep(Kind k, std::unique_ptr<Fr>& hold, bool report, bool payload)
{
    Fr& f = instance(k, hold);
    f.report(report);
    if (payload) { f.payloadOnly(true); }
    return f;
}
static void finishAndCompare(Step& st, const vector<Msg>& want, int caseNo)
{
    st.drain(70000);
    st.flushAll();
    if (st.bytes != st.s) { fail(fmtf("lost:%s", KIND_NAME[st.k]).c_str(), fmtf("%s: bytes lost", KIND_NAME[st.k])); }
    if (!(st.msgs == want))
    {
        fail(fmtf("messages:%s", KIND_NAME[st.k]).c_str(), fmtf("%s: stream %s read with one large buffer gives %s, read with smaller ones %s", KIND_NAME[st.k], printable(st.s, 600).c_str(),
                                                              show(want).c_str(), show(st.msgs).c_str()));
    }
    uint64_t h = static_cast<uint64_t>(caseNo);
    for (const auto& m : st.msgs) { h = mix(mix(h, m.at), m.len); }
    distinct(h);
    addEvals(1);
}
// messages the same framer returns when there is always room
static const vector<Msg>& wanted(Kind k, const string& s, bool payload)
{
    static std::unordered_map<string, vector<Msg>> memo;
    const string key = fmtf("%d%d", k, payload) + s;
    auto it = memo.find(key);
    if (it != memo.end()) { return it->second; }
    if (memo.size() > 3000) { memo.clear(); }
    std::unique_ptr<Fr> hold;
    Fr& f = prep(k, hold, true, payload);
    Step st{k, f, true, payload, s, kindRules(k)};
    st.write(s.size());
    st.drain(70000);
    return memo[key] = st.msgs;
}
static const vector<size_t>& sizesFor(const string& s, const vector<Msg>& w)
{
    static vector<size_t> v;
    std::set<size_t> o = {0, 1, 2, 5, 11, 27, 28, 40};
    for (const auto& m : w)
    {
        o.insert(m.len - 1);
        o.insert(m.len);
    }
    o.insert(s.size());
    v.assign(o.begin(), o.end());
    return v;
}
// everything written, then up to `depth` calls with chosen sizes, then large ones
static void schedule(Kind k, const string& s, bool all, int depth)
{
    if (special(s)) { return; }
    const bool payload = k == OEM && choose(2) == 1;
    const bool report = choose(2) == 0;
    const auto& want = wanted(k, s, payload);
    std::unique_ptr<Fr> hold;
    Fr& f = prep(k, hold, report, payload);
    Step st{k, f, report, payload, s, kindRules(k)};
    note(fmtf("framer %s%s%s", KIND_NAME[k], payload ? ", payload only" : "", report ? "" : ", unknown bytes not reported"));
    const vector<size_t> sz = sizesFor(s, want);
    st.write(s.size());
    for (int i = 0; i < depth; i++)
    {
        const int n = all ? static_cast<int>(s.size()) + 2 : static_cast<int>(sz.size());
        const int c = choose(n + 1); // the last alternative is a null buffer
        if (c == n) { st.nullCall(); }
        else { st.call(all ? static_cast<size_t>(c) : sz[static_cast<size_t>(c)]); }
    }
    finishAndCompare(st, want, payload);
}
// split write: a small call between the parts and one after
static void split(Kind k, const string& s, bool twice, bool few = false)
{
    if (special(s)) { return; }
    const bool payload = k == OEM && choose(2) == 1;
    const auto& want = wanted(k, s, payload);
    std::unique_ptr<Fr> hold;
    Fr& f = prep(k, hold, true, payload);
    Step st{k, f, true, payload, s, kindRules(k)};
    note(fmtf("framer %s%s", KIND_NAME[k], payload ? ", payload only" : ""));
    vector<size_t> sz = sizesFor(s, want);
    if (few && sz.size() > 4) { sz = {0, 5, want.empty() ? 11 : want[0].len - 1, 28}; }
    const size_t at = 1 + static_cast<size_t>(choose(static_cast<int>(s.size()) - 1));
    st.write(at);
    const size_t a = pick(sz);
    st.call(a);
    if (twice) { st.call(pick(sz)); }
    st.write(s.size() - at);
    st.call(pick(sz));
    finishAndCompare(st, want, payload);
}
// one fixed small size until it no longer helps, then one large call, and so on; bytes arrive in chunks
static void constant(Kind k, const string& s, bool all)
{
    if (special(s)) { return; }
    const bool payload = k == OEM && choose(2) == 1;
    const bool report = choose(2) == 0;
    const auto& want = wanted(k, s, payload);
    std::unique_ptr<Fr> hold;
    Fr& f = prep(k, hold, report, payload);
    Step st{k, f, report, payload, s, kindRules(k)};
    static const vector<size_t> few = {0, 1, 2, 4, 6, 9, 11, 16, 27, 28, 31, 32, 34, 40};
    const size_t size = all ? static_cast<size_t>(choose(static_cast<int>(std::min<size_t>(s.size(), 80)) + 1)) : pick(few);
    static const size_t CH[] = {1, 100000, 9, 3};
    const size_t ch = CH[choose(all ? 4 : 2)];
    note(fmtf("framer %s, buffer %zu, chunks of %zu", KIND_NAME[k], size, ch));
    for (size_t p = 0; p < s.size(); p += ch)
    {
        st.write(std::min(ch, s.size() - p));
        for (int i = 0; i < 2000; i++)
        {
            const STATUS a = st.call(size);
            if (a == STATUS::BUFFER_FULL)
            {
                const STATUS b = st.call(70000);
                if (b != STATUS::SUCCESS && b != STATUS::UNKNOWN) { break; }
            }
            else if (a != STATUS::SUCCESS && a != STATUS::UNKNOWN) { break; }
        }
    }
    finishAndCompare(st, want, 2 + payload);
}
// a manager none of whose framers exists
static void noFramers()
{
    quiet();
    static FramerManager m({"NO_SUCH_FRAMER"});
    m.GetFixedBuffer()->erase_begin(m.GetFixedBuffer()->size());
    const string s = string("ab#cd") + "\xAA\x44\x12";
    if (m.Write(reinterpret_cast<const unsigned char*>(s.data()), s.size()) != s.size()) { fail("write", "refused"); }
    string got;
    for (int i = 0; i < 3; i++)
    {
        const size_t size = static_cast<size_t>(choose(10));
        unsigned char* b = block(size);
        MetaDataBase* md = nullptr;
        const STATUS st = m.GetFrame(b, static_cast<uint32_t>(size), md);
        note(fmtf("GetFrame(%zu) -> %s", size, string(StatusToString(st)).c_str()));
        if (st == STATUS::UNKNOWN) { got.append(reinterpret_cast<char*>(b), md->uiLength); }
    }
    const size_t left = m.GetFixedBuffer()->size();
    if (got != s.substr(0, s.size() - left)) { fail("nofr", fmtf("returned %s, %zu left", printable(got).c_str(), left)); }
    addEvals(1);
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P09";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    const bool th = ck.thorough();
    ck.rule = "one evaluation = one stream read by one framer with one sequence of buffer sizes (each an exact-size heap block under AddressSanitizer); distinct = distinct message sequences";
    ck.assumptions = {"BUFFER_FULL may also be returned for a pending candidate larger than the buffer that later turns out to be no message",
                      "a heap write past the block is detected by AddressSanitizer"};
    const Kind kinds[] = {OEM, OEM_MD, BIN, SBIN, ASC, SASC, ABB, M_OEM, M_FIVE, M_FIVE_REV, M_OEM_FIVE, M_BIN_ABB};
    for (Kind k : kinds)
    {
        const bool mgr = k >= M_OEM;
        for (size_t i = 0; i < fam().size(); i++)
        {
            const string a = fam()[i].bytes;
            const char* kn = KIND_NAME[k];
            const char* an = fam()[i].name.c_str();
            const vector<Seg>& second = th ? fam() : brief();
            ck.unit(fmtf("%s/one/%s", kn, an), [=] { schedule(k, a, true, a.size() < 60 && (!mgr || th) ? 2 : 1); });
            ck.unit(fmtf("%s/one-deep/%s", kn, an), [=] { schedule(k, a, false, (th ? 3 : 2) + (k == OEM)); });
            ck.unit(fmtf("%s/pairs-any/%s", kn, an), [=, &second] { schedule(k, a + pick(second).bytes, true, 1); });
            if (th) { ck.unit(fmtf("%s/pairs/%s", kn, an), [=] { schedule(k, a + pick(fam()).bytes, false, mgr ? 1 : 2); }); }
            if (a.size() > 1) { ck.unit(fmtf("%s/split/%s", kn, an), [=] { split(k, a, th && a.size() < 60, !th && a.size() > 150); }); }
            if (th || ((k == OEM || k == ABB) && a.size() < 100))
            {
                ck.unit(fmtf("%s/split-pairs/%s", kn, an), [=, &second] {
                    const string s = a + pick(second).bytes;
                    if (s.size() > 1) { split(k, s, false, !th || s.size() > 150); }
                });
            }
            if (th || a.size() < 200) { ck.unit(fmtf("%s/constant/%s", kn, an), [=, &second] { constant(k, a + pick(second).bytes, th); }); }
        }
    }
    ck.unit("manager(none)", [] { noFramers(); });
    return runCheck(ck, argc, argv);
}
