// P21: receiver configuration logs keep their command, header and checksums through every conversion.
#include "corpus.hpp"

#include "novatel_edie/decoders/oem/framer.hpp"
#include "novatel_edie/decoders/oem/rxconfig/rxconfig_handler.hpp"

using namespace mc;
using namespace co;

static const F U8 = {"u8", "SIMPLE", "UCHAR", 1, "%UB"}, U32 = {"u32", "SIMPLE", "ULONG", 4, "%lu"};
static bool TH = false;

struct Head
{
    const char* port;
    int portId, seq, idle;
    const char* time;
    int timeId, week;
    uint32_t ms, status, crc;
    int sw;
};
static const Head HEADS[] = {
    {"COM1", 32, 0, 80, "FINESTEERING", 180, 2000, 123456, 0x02000000, 0x1234, 12816},
    {"COM2", 64, 78, 157, "UNKNOWN", 20, 0, 727, 0x024c0020, 0x1234, 32768},
    {"THISPORT", 192, 65535, 200, "EXACT", 220, 2235, 604799999, 0xFFFFFFFF, 0x1234, 0},
};
static string headText(const Head& h, char sep)
{
    const string s(1, sep);
    return s + h.port + s + std::to_string(h.seq) + s + fmtf("%d.%d", h.idle / 2, h.idle % 2 * 5) + s + h.time + s + std::to_string(h.week) + s + fmtf("%u.%03u", h.ms / 1000, h.ms % 1000) + s + fmtf("%08x", h.status) + s +
           fmtf("%04x", h.crc) + s + std::to_string(h.sw);
}
static string headBin(const Head& h, uint32_t id, size_t len)
{
    using bld::le;
    return "\xAA\x44\x12\x1C" + le(id, 2) + le(0, 1) + le(static_cast<uint64_t>(h.portId), 1) + le(len, 2) + le(static_cast<uint64_t>(h.seq), 2) + le(static_cast<uint64_t>(h.idle), 1) + le(static_cast<uint64_t>(h.timeId), 1) +
           le(static_cast<uint64_t>(h.week), 2) + le(h.ms, 4) + le(h.status, 4) + le(h.crc, 2) + le(static_cast<uint64_t>(h.sw), 2);
}
static string headJson(const Head& h, uint32_t id, const string& name)
{
    return "{\"message\": \"" + name + fmtf("\",\"id\": %u,\"port\": \"%s\",\"sequence_num\": %d,\"percent_idle_time\": %d.%d,\"time_status\": \"%s\",\"week\": %d,\"seconds\": %u.%03u,\"receiver_status\": %u,\"HEADER_reserved1\": %u,\"receiver_sw_version\": %d}",
                                            id, h.port, h.seq, h.idle / 2, h.idle % 2 * 5, h.time, h.week, h.ms / 1000, h.ms % 1000, h.status, h.crc, h.sw);
}

// a whole log, with the places of its parts
struct Log
{
    string msg;
    size_t head = 0, body = 0;               // lengths of the log's own header and of what follows
    size_t headAt = 0, bodyAt = 0;
    size_t embAt = 0, embLen = 0, embHeadAt = 0, embHead = 0, embBodyAt = 0, embBody = 0;
    string embedded;                         // the command as a message of its own
};
static const uint32_t RX[] = {128, 2474};
static const char* const RXNAME[] = {"RXCONFIG", "RXCONFIGUSER"};
struct Rx
{
    std::unique_ptr<Codec> c;
    MessageDatabase::Ptr db;
    std::unique_ptr<HeaderDecoder> hdr;
    std::unique_ptr<MessageDecoder> dec;
    std::unique_ptr<RxConfigHandler> h;
    explicit Rx(const vector<vector<F>>& fs) : c(new Codec(fs))
    {
        vector<M> ms;
        for (auto& s : c->schemas) { ms.push_back({s.id, s.name, s.f}); }
        ms.push_back({42, "BESTPOS", {U32}});
        F raw{"raw", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%R", "", 2048};
        for (int i = 0; i < 2; i++) { ms.push_back({RX[i], RXNAME[i], {raw}}); }
        db = makeDb(ms);
        hdr.reset(new HeaderDecoder(db));
        dec.reset(new MessageDecoder(db));
        h.reset(new RxConfigHandler(db));
    }
};
static Log render(const Rx& x, int which, const Head& out, const Head& in, const Schema& s, const Body& b, int fmt)
{
    Log l;
    const string body = x.c->body(s, fmt, b), rx = RXNAME[which];
    switch (fmt)
    {
    case BIN: {
        const string e = headBin(in, s.id, body.size()) + body;
        l.embedded = bld::withCrc(e);
        const string p = e + bld::le(bld::crc32(e) ^ 0xFFFFFFFF, 4);
        l.msg = bld::withCrc(headBin(out, RX[which], p.size()) + p);
        l.head = l.embHead = l.embAt = l.embHeadAt = 28;
        l.embBodyAt = 56;
        l.embBody = body.size() + 4;
        break;
    }
    case ASC: {
        const string h = rx + "A" + headText(out, ',') + ";", eh = s.name + "A" + headText(in, ',') + ";";
        l.embedded = "#" + eh + body + "*" + fmtf("%08x", bld::crc32(eh + body)) + "\r\n";
        const string p = h + "#" + eh + body + "*" + fmtf("%08x", bld::crc32(eh + body) ^ 0xFFFFFFFFu);
        l.msg = "#" + p + "*" + fmtf("%08x", bld::crc32(p)) + "\r\n";
        l.head = l.embAt = l.embHeadAt = h.size() + 1;
        l.embHead = eh.size() + 1;
        l.embBodyAt = l.embAt + l.embHead;
        l.embBody = body.size() + 9;
        break;
    }
    case ABB: {
        const string h = "<" + rx + headText(out, ' ') + "\r\n", eh = "<     " + s.name + headText(in, ' ') + " \r\n";
        l.embedded = "<" + eh.substr(6) + body;
        l.msg = h + eh + body;
        l.head = l.embAt = l.embHeadAt = h.size();
        l.embHead = eh.size();
        l.embBodyAt = l.embAt + eh.size();
        l.embBody = body.size();
        break;
    }
    default: {
        const string a = "{\"header\": ", m = ",\"body\": ", h = headJson(out, RX[which], rx), eh = headJson(in, s.id, s.name);
        l.msg = a + h + m + a + eh + m + body + "}}";
        l.headAt = a.size();
        l.head = h.size();
        l.embAt = a.size() + h.size() + m.size();
        l.embHeadAt = l.embAt + a.size();
        l.embHead = eh.size();
        l.embBodyAt = l.embHeadAt + eh.size() + m.size();
        l.embBody = body.size();
        l.embLen = a.size() + eh.size() + m.size() + body.size() + 1;
        l.embedded = a + eh + m + body + "}";
    }
    }
    l.bodyAt = fmt == JSN ? l.embAt : l.head;
    l.body = fmt == JSN ? l.embLen : l.msg.size() - l.head;
    if (fmt != JSN) { l.embLen = l.embHead + l.embBody; }
    return l;
}
static string showMsg(int fmt, const string& m) { return fmt == BIN ? hex(m) : printable(m); }

static void parts(const Log& w, const MessageDataStruct& d, const string& what)
{
    const unsigned char* m = d.pucMessage;
    MC_REQUIRE(d.pucMessageHeader == m + w.headAt && d.uiMessageHeaderLength == w.head, "parts", what + fmtf("the header is at %td, %u long, instead of %zu, %zu", d.pucMessageHeader - m, d.uiMessageHeaderLength, w.headAt, w.head));
    MC_REQUIRE(d.pucMessageBody == m + w.bodyAt && d.uiMessageBodyLength == w.body, "parts", what + fmtf("the body is at %td, %u long, instead of %zu, %zu", d.pucMessageBody - m, d.uiMessageBodyLength, w.bodyAt, w.body));
}
struct Decoded
{
    STATUS st;
    bool header = false;
    IntermediateHeader ih;
    MetaDataStruct md;
    CompositeField cf;
};
static void decode(const Rx& x, const string& m, Decoded& d)
{
    std::unique_ptr<unsigned char[]> p(new unsigned char[m.size()]); // ends where the message ends
    memcpy(p.get(), m.data(), m.size());
    d.md.uiLength = static_cast<uint32_t>(m.size());
    addTransitions(1);
    try
    {
        d.st = x.hdr->Decode(p.get(), d.ih, d.md);
        d.header = d.st != STATUS::SUCCESS;
        if (!d.header) { d.st = x.h->Decode(p.get() + d.md.uiHeaderLength, d.cf, d.md); }
    }
    catch (const std::exception& e) { fail("exception", string("decoding threw ") + e.what() + ": " + printable(m)); }
}
struct Enc
{
    STATUS st;
    string msg;
};
static Enc encode(const Rx& x, const Decoded& d, ENCODE_FORMAT ef, size_t size, const Log* want, const string& what)
{
    std::unique_ptr<unsigned char[]> buf(new unsigned char[size ? size : 1]);
    memset(buf.get(), 0x5A, size);
    unsigned char* p = buf.get();
    MessageDataStruct md;
    Enc e;
    addTransitions(1);
    try { e.st = x.h->Encode(&p, static_cast<uint32_t>(size), d.ih, d.cf, md, ef); }
    catch (const std::exception& ex) { fail("exception", string("encoding threw ") + ex.what() + ": " + what); }
    MC_REQUIRE(p == buf.get(), "pointer", what + "the caller's buffer pointer moved");
    if (e.st != STATUS::SUCCESS) { return e; }
    MC_REQUIRE(md.pucMessage == buf.get() && md.uiMessageLength <= size, "extent", what + fmtf("a message of %u bytes is reported in a buffer of %zu", md.uiMessageLength, size));
    e.msg.assign(reinterpret_cast<char*>(buf.get()), md.uiMessageLength);
    if (want && e.msg == want->msg) { parts(*want, md, what); }
    return e;
}
static const int TO[] = {ASC, BIN, ABB, JSN};
static void convert(Rx& x, int which, const Head& out, const Head& in, const Schema& s, const Body& b, int from, bool sizes)
{
    const Log src = render(x, which, out, in, s, b, from);
    const Body t = from == BIN ? b : bo::viaText(s.f, b, false, x.c->names);
    Decoded d;
    decode(x, src.msg, d);
    const string what0 = showMsg(from, src.msg) + ": ";
    MC_REQUIRE(d.st == STATUS::SUCCESS, "decode", what0 + fmtf("status %d%s", static_cast<int>(d.st), d.header ? " of the header" : ""));
    // the command itself
    const auto raw = d.cf.GetFieldValue<vector<uint8_t>>(*x.db->GetMsgDef(RX[which])->GetMsgDefFromCrc(0x1234).messageOrderedFields[0]);
    const string emb(raw.begin(), raw.end());
    MC_REQUIRE(emb == src.embedded, "embedded", what0 + "the embedded command is " + showMsg(from, emb) + " instead of " + showMsg(from, src.embedded));
    for (int to : TO)
    {
        const Log want = render(x, which, out, in, s, t, to);
        const string what = what0 + "to " + FMT_NAME[to] + ": ";
        const Enc e = encode(x, d, EF[to], 4 * want.msg.size() + 512, &want, what);
        MC_REQUIRE(e.st == STATUS::SUCCESS, "encode", what + fmtf("status %d", static_cast<int>(e.st)));
        MC_REQUIRE(e.msg == want.msg, "converted", what + showMsg(to, e.msg) + " instead of " + showMsg(to, want.msg));
        // through the handler's own buffers
        x.h->Flush();
        const string in2 = src.msg + (from == ABB ? "\r\nxx" : "");
        MC_REQUIRE(x.h->Write(reinterpret_cast<const unsigned char*>(in2.data()), static_cast<uint32_t>(in2.size())) == in2.size(), "write", what + "not all bytes are taken");
        MessageDataStruct md, emd;
        MetaDataStruct meta, emeta;
        STATUS st;
        addTransitions(1);
        try { st = x.h->Convert(md, meta, emd, emeta, EF[to]); }
        catch (const std::exception& ex) { fail("exception", string("converting threw ") + ex.what() + ": " + what); }
        MC_REQUIRE(st == STATUS::SUCCESS, "convert", what + fmtf("Convert gives status %d", static_cast<int>(st)));
        const string got(reinterpret_cast<char*>(md.pucMessage), md.uiMessageLength);
        MC_REQUIRE(got == want.msg, "converted", what + "Convert gives " + showMsg(to, got) + " instead of " + showMsg(to, want.msg));
        parts(want, md, what);
        const unsigned char* m = md.pucMessage;
        MC_REQUIRE(emd.pucMessage == m + want.embAt && emd.uiMessageLength == want.embLen && emd.pucMessageHeader == m + want.embHeadAt && emd.uiMessageHeaderLength == want.embHead && emd.pucMessageBody == m + want.embBodyAt && emd.uiMessageBodyLength == want.embBody,
                   "embedded-parts", what + fmtf("the command is reported at %td+%u, header %td+%u, body %td+%u instead of %zu+%zu, %zu+%zu, %zu+%zu", emd.pucMessage - m, emd.uiMessageLength, emd.pucMessageHeader - m, emd.uiMessageHeaderLength,
                                                 emd.pucMessageBody - m, emd.uiMessageBodyLength, want.embAt, want.embLen, want.embHeadAt, want.embHead, want.embBodyAt, want.embBody));
        MC_REQUIRE(meta.usMessageId == RX[which] && emeta.usMessageId == s.id && emeta.messageName == s.name, "metadata", what + fmtf("messages %u and %u (%s)", meta.usMessageId, emeta.usMessageId, emeta.messageName.c_str()));
        MC_REQUIRE(meta.usWeek == out.week && meta.dMilliseconds == out.ms && emeta.usWeek == in.week && emeta.dMilliseconds == in.ms, "metadata", what + "the times of the metadata");
        if (!sizes) { continue; }
        for (size_t size = 0; size <= want.msg.size() + 2; size++)
        {
            const Enc z = encode(x, d, EF[to], size, &want, what + fmtf("into %zu bytes: ", size));
            if (z.st == STATUS::SUCCESS) { MC_REQUIRE(z.msg == want.msg, "size-changes", what + fmtf("into %zu bytes: ", size) + showMsg(to, z.msg)); }
            else
            {
                MC_REQUIRE(z.st == STATUS::BUFFER_FULL, "full-status", what + fmtf("status %d for a buffer of %zu bytes", static_cast<int>(z.st), size));
                MC_REQUIRE(size <= want.msg.size(), "full-early", what + fmtf("a buffer of %zu bytes is refused for %zu", size, want.msg.size()));
            }
        }
    }
    const Enc u = encode(x, d, ENCODE_FORMAT::UNSPECIFIED, 4000, nullptr, what0);
    MC_REQUIRE(u.st == STATUS::UNSUPPORTED, "unsupported", what0 + "an unspecified format is encoded");
    addStates(1);
    distinct(hashStr(src.msg));
}
static Rx& single(size_t i)
{
    static std::map<size_t, Rx*> m;
    Rx*& k = m[i];
    if (!k)
    {
        vector<vector<F>> fs{{named(reps()[i].f, "f0")}};
        for (auto& r : reps()) { fs.push_back({named(reps()[i].f, "f0"), named(r.f, "f1")}); }
        fs.push_back({named(U8, "f0"), named(reps()[i].f, "f1"), named(U32, "f2")});
        fs.push_back({});
        k = new Rx(fs);
    }
    return *k;
}
static const int FROM[] = {ASC, BIN, ABB};
static void commands(size_t i)
{
    Rx& x = single(i);
    const size_t R = reps().size(), form = static_cast<size_t>(choose(static_cast<int>(R) + 2));
    const Schema& s = x.c->schemas[form];
    const Val v = pick(reps()[i].v);
    Body b = form == 0 ? Body{v} : form <= R ? Body{v, pick(reps()[form - 1].v)} : Body{N1(7), v, N1(0x01020304)};
    const int from = FROM[choose(3)], which = form == 0 ? choose(2) : 0;
    const int ho = form == 0 || TH ? choose(3) : 0, hi = form == 0 || TH ? choose(3) : 1;
    convert(x, which, HEADS[ho], HEADS[hi], s, b, from, TH || form == 0 || form == R + 1 || (ho == 0 && hi == 1 && form % 4 == i % 4));
}
static void kindValues(size_t ki)
{
    static std::map<size_t, Rx*> m;
    Rx*& k = m[ki];
    const Kind& kd = KINDS[ki];
    if (!k) { k = new Rx({{U8, kd.f}}); }
    const Val v = N1(pick(kd.v));
    const int from = FROM[choose(3)];
    if (from == ABB && indentation(k->c->schemas[0].f, {N1(5), v})) { return; }
    convert(*k, 0, HEADS[0], HEADS[0], k->c->schemas[0], {N1(5), v}, from, false);
}
// every sequence of checksum nibbles that a value can give: leading zeros in particular
static void checksums()
{
    static Rx* x = nullptr;
    if (!x) { x = new Rx({{U32}}); }
    const int block = choose(64);
    const int from = FROM[choose(3)];
    for (uint32_t v = 0; v < (TH ? 256u : 32u); v++)
    {
        const Body b{N1(static_cast<uint32_t>(block) * 256 + v)};
        convert(*x, 0, HEADS[1], HEADS[0], x->c->schemas[0], b, from, false);
    }
}
// faults inside of the payload: refused or converted, without reading or writing anywhere else
static string reframe(int fmt, const Head& out, int which, const string& payload)
{
    switch (fmt)
    {
    case BIN: return bld::withCrc(headBin(out, RX[which], payload.size()) + payload);
    case ASC: { const string p = string(RXNAME[which]) + "A" + headText(out, ',') + ";" + payload; return "#" + p + "*" + fmtf("%08x", bld::crc32(p)) + "\r\n"; }
    default: return "<" + string(RXNAME[which]) + headText(out, ' ') + "\r\n" + payload;
    }
}
static void faulty(Rx& x, int fmt, const string& m)
{
    Decoded d;
    decode(x, m, d);
    stat(d.st == STATUS::SUCCESS ? "decoded" : "refused", 1);
    if (d.st != STATUS::SUCCESS) { return; }
    string a[4];
    for (int k = 0; k < 4; k++)
    {
        const Enc e = encode(x, d, EF[TO[k]], 4 * m.size() + 2048, nullptr, showMsg(fmt, m) + ": ");
        stat(e.st == STATUS::SUCCESS ? "encoded" : "not encoded", 1);
        if (e.st != STATUS::SUCCESS) { continue; }
        a[k] = e.msg;
        // never more than the buffer
        for (size_t size : {e.msg.size() / 2, e.msg.size() - 1})
        {
            const Enc z = encode(x, d, EF[TO[k]], size, nullptr, showMsg(fmt, m) + ": ");
            MC_REQUIRE(z.st != STATUS::SUCCESS || z.msg.size() <= size, "extent", "too long");
        }
        if (TO[k] == BIN || TO[k] == ASC)
        {
            // what comes out frames
            Framer fr;
            fr.Write(reinterpret_cast<const unsigned char*>(e.msg.data()), static_cast<uint32_t>(e.msg.size()));
            vector<unsigned char> buf(e.msg.size() + 1);
            MetaDataStruct md;
            const STATUS st = fr.GetFrame(buf.data(), static_cast<uint32_t>(e.msg.size()), md);
            bool plain = true;
            for (char ch : m) { plain = plain && (fmt == BIN || (static_cast<unsigned char>(ch) >= 32 && static_cast<unsigned char>(ch) < 127) || strchr("\r\n", ch)); }
            if (plain && fmt != BIN) { MC_REQUIRE(st == STATUS::SUCCESS && md.uiLength == e.msg.size(), "frames", showMsg(fmt, m) + " is converted to " + showMsg(TO[k], e.msg) + fmtf(", framed as %u bytes (%d)", md.uiLength, static_cast<int>(st))); }
        }
    }
}
static void faults(size_t i)
{
    Rx& x = single(i);
    const size_t R = reps().size();
    const int form = choose(TH ? 3 : 2);
    const size_t at = form == 0 ? 0 : form == 1 ? R + 1 : 1 + (i + 5) % R;
    const Schema& s = x.c->schemas[at];
    const Val v = pick(reps()[i].v);
    const Body b = at == 0 ? Body{v} : at <= R ? Body{v, reps()[at - 1].v.back()} : Body{N1(7), v, N1(0x01020304)};
    const int fmt = FROM[choose(3)];
    const Log l = render(x, 0, HEADS[0], HEADS[1], s, b, fmt);
    const string p = fmt == BIN ? l.msg.substr(28, l.msg.size() - 32) : fmt == ASC ? l.msg.substr(l.head, l.msg.size() - l.head - 11) : l.msg.substr(l.head);
    static const string at1("09-.+,* \"\\#<:;\r\n\xFF", 17), ab("\0\x01\x04\x10\x7F\x80\xFF\xAA", 8);
    const string& al = fmt == BIN ? ab : at1;
    auto one = [&](const string& payload) { const string m = reframe(fmt, HEADS[0], 0, payload); faulty(x, fmt, m); };
    for (size_t n = 0; n <= p.size(); n++) { one(p.substr(0, n)); }
    for (size_t k = 0; k < p.size(); k++)
    {
        string m = p;
        for (char ch : al) { if (ch != p[k]) { m[k] = ch; one(m); } }
        m = p;
        m.erase(k, 1);
        one(m);
        if (TH) { for (char ch : al) { m = p; m.insert(k, 1, ch); one(m); } }
        else { m = p; m.insert(k, 1, al[k % al.size()]); one(m); }
    }
    addStates(1);
    distinct(hashStr(l.msg));
}
// sequences of things written to one handler
static void histories()
{
    static Rx *x = nullptr, *none = nullptr;
    static vector<string> items;
    static vector<int> kind; // 0: a log, 1: another message, 2: noise, 3: a log whose command is unknown
    static vector<Log> want;
    if (!x)
    {
        x = new Rx({{U8, U32}, {{"s", "STRING", "CHAR", 1, "%s", "", 16}}});
        none = new Rx({{U32}});
        none->db = makeDb({{42, "BESTPOS", {U32}}});
        none->hdr.reset(new HeaderDecoder(none->db));
        none->h.reset(new RxConfigHandler(none->db));
        const Schema &a = x->c->schemas[0], &b = x->c->schemas[1];
        auto add = [&](int k, const string& s, const Log& w) { kind.push_back(k); items.push_back(s); want.push_back(w); };
        const Body ba{N1(1), N1(70000)}, bb{{{}, "text", {}}};
        for (int f : FROM) { add(0, render(*x, 0, HEADS[0], HEADS[1], a, ba, f).msg, render(*x, 0, HEADS[0], HEADS[1], a, ba, JSN)); }
        for (int f : FROM) { add(0, render(*x, 1, HEADS[1], HEADS[0], b, bb, f).msg, render(*x, 1, HEADS[1], HEADS[0], b, bb, JSN)); }
        add(1, x->c->message(a, ASC, x->c->body(a, ASC, ba)), {});
        add(2, "noise", {});
        Schema u = a;
        u.id = 999;
        u.name = "NOSUCH";
        add(3, render(*x, 0, HEADS[0], HEADS[0], u, ba, BIN).msg, {});
        add(3, render(*x, 0, HEADS[0], HEADS[0], u, ba, ASC).msg, {});
    }
    const int n = choose(TH ? 4 : 3) + 1;
    x->h->Flush();
    vector<string> exp, got;
    string all;
    for (int i = 0; i < n; i++)
    {
        const size_t k = static_cast<size_t>(choose(static_cast<int>(items.size())));
        all += items[k];
        if (kind[k] == 0) { exp.push_back(want[k].msg); }
    }
    all += "#AA"; // ends a last abbreviated log
    x->h->Write(reinterpret_cast<const unsigned char*>(all.data()), static_cast<uint32_t>(all.size()));
    MessageDataStruct md, emd;
    string statuses;
    MetaDataStruct meta, emeta; // used again and again
    for (int i = 0; i < 4 * n + 8; i++)
    {
        STATUS st;
        addTransitions(1);
        try { st = x->h->Convert(md, meta, emd, emeta, ENCODE_FORMAT::JSON); }
        catch (const std::exception& ex) { fail("exception", string("converting threw ") + ex.what() + ": " + printable(all)); }
        if (st == STATUS::SUCCESS) { got.push_back(string(reinterpret_cast<char*>(md.pucMessage), md.uiMessageLength)); }
        statuses += fmtf(" %d", static_cast<int>(st));
        if (st == STATUS::BUFFER_EMPTY) { break; }
        MC_REQUIRE(i < 4 * n + 7, "endless", "the handler never runs empty: " + printable(all));
    }
    auto join = [](const vector<string>& v) { string s; for (auto& e : v) { s += e + "\n"; } return s; };
    MC_REQUIRE(join(exp) == join(got), "sequence", printable(all) + " gives\n" + join(got) + "instead of\n" + join(exp) + "statuses:" + statuses);
    // without definitions
    Decoded d;
    decode(*none, items[1], d);
    MC_REQUIRE(d.st == STATUS::NO_DEFINITION, "no-definition", fmtf("status %d without a definition of RXCONFIG", static_cast<int>(d.st)));
    addStates(1);
    distinct(hashStr(all));
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P21";
    ck.level = "model_checking";
    ck.rule = "One execution is one RXCONFIG or RXCONFIGUSER log (command definition, values, both headers, input format) built independently with its inverted embedded and its outer checksum; it is decoded and encoded to all four formats with "
              "every buffer size up to the log's (exact allocations, AddressSanitizer) and through Convert. Oracle: byte equality with the independently built log in the target format, equality of the extracted command, of the reported parts and "
              "metadata. Fault executions apply every cut and single-byte fault to the payload; history executions write all sequences of logs, other messages and noise to one handler.";
    ck.assumptions = {"buffers of exactly the message's size may be refused (the encoder terminates text)"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    quietLogs();
    TH = ck.thorough();
    ck.unit("histories", [] { histories(); });
    ck.unit("checksums", [] { checksums(); });
    for (size_t i = 0; i < reps().size(); i++)
    {
        ck.unit(fmtf("commands/%zu", i), [i] { commands(i); });
        ck.unit(fmtf("faults/%zu", i), [i] { faults(i); });
    }
    for (size_t i = 0; i < KINDS.size(); i++) { ck.unit("values/" + kindName(KINDS[i]), [i] { kindValues(i); }); }
    return runCheck(ck, argc, argv);
}
