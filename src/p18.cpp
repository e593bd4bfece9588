// P18: abbreviated commands become the ASCII or binary message that says the same, or are refused.
#include "corpus.hpp"

#include "novatel_edie/decoders/oem/commander.hpp"
#include "novatel_edie/decoders/oem/framer.hpp"

using namespace mc;
using namespace co;

static const F U8 = {"u8", "SIMPLE", "UCHAR", 1, "%UB"}, U32 = {"u32", "SIMPLE", "ULONG", 4, "%lu"};
static bool TH = false;
struct Cmd
{
    std::unique_ptr<Codec> c;
    std::unique_ptr<Commander> com;
    explicit Cmd(const vector<vector<F>>& fs) : c(new Codec(fs)), com(new Commander(c->db)) {}
};
static string params(const Codec& c, const Schema& s, const Body& b)
{
    // the body of the abbreviated ASCII message on one line
    string t = c.body(s, ABB, b).substr(6), out;
    for (size_t i = 0; i < t.size(); i++)
    {
        if (t.compare(i, 3, "\r\n<") == 0) { i += 2; while (i + 1 < t.size() && t[i + 1] == ' ') { i++; } continue; }
        out += t[i];
    }
    out.resize(out.size() - 2);
    return out;
}
struct Out
{
    STATUS st = STATUS::UNKNOWN;
    uint32_t n = 0;
    string msg;
};
// the command text ends at the end of its allocation (without a NUL); the buffer is exactly `size` bytes
static Out encode(Cmd& k, const string& text, ENCODE_FORMAT ef, uint32_t size, int how)
{
    std::unique_ptr<char[]> in(new char[text.size() + (how == 2 ? 8 : 0)]), out(new char[size ? size : 1]);
    memcpy(in.get(), text.data(), text.size());
    if (how == 2) { memcpy(in.get() + text.size(), "9 \"z\" 9", 8); } // the command ends before its buffer does
    memset(out.get(), 0x5A, size);
    Out o;
    o.n = size;
    addTransitions(1);
    try
    {
        o.st = how == 1 ? Commander::Encode(*k.c->db, *k.c->dec, *k.c->enc, in.get(), static_cast<uint32_t>(text.size()), out.get(), o.n, ef)
                        : k.com->Encode(in.get(), static_cast<uint32_t>(text.size()), out.get(), o.n, ef);
    }
    catch (const std::exception& e) { fail("exception", string("threw ") + e.what() + ": " + printable(text)); }
    if (o.st != STATUS::SUCCESS) { return o; }
    MC_REQUIRE(o.n <= size, "size", fmtf("a message of %u bytes is reported in a buffer of %u: ", o.n, size) + printable(text));
    o.msg.assign(out.get(), o.n);
    if (o.n < size) { MC_REQUIRE(out[o.n] == 0, "terminator", "there is room behind the message but no NUL: " + printable(text)); }
    for (size_t i = o.n + 1; i < size; i++) { MC_REQUIRE(out[i] == 0x5A, "written-past", fmtf("byte %zu behind the message of %u bytes was written: ", i, o.n) + printable(text)); }
    return o;
}
// what the message says, read by the framer and the decoders
static Body read(Cmd& k, const Schema& s, const string& m, ENCODE_FORMAT ef, const string& text)
{
    const string what = printable(text) + " encoded as " + (ef == ENCODE_FORMAT::ASCII ? printable(m) : hex(m)) + ": ";
    Framer fr;
    fr.SetReportUnknownBytes(true);
    fr.Write(reinterpret_cast<const unsigned char*>(m.data()), static_cast<uint32_t>(m.size()));
    vector<unsigned char> buf(m.size() + 1);
    MetaDataStruct md;
    STATUS st = fr.GetFrame(buf.data(), static_cast<uint32_t>(m.size()), md);
    MC_REQUIRE(st == STATUS::SUCCESS && md.uiLength == m.size(), "frame", what + fmtf("the framer reports %d for %u of %zu bytes", static_cast<int>(st), md.uiLength, m.size()));
    MC_REQUIRE(md.eFormat == (ef == ENCODE_FORMAT::ASCII ? HEADER_FORMAT::ASCII : HEADER_FORMAT::BINARY), "format", what + "another format");
    IntermediateHeader ih;
    CompositeField cf;
    buf[m.size()] = 0;
    st = k.c->hdr->Decode(buf.data(), ih, md);
    MC_REQUIRE(st == STATUS::SUCCESS, "header", what + fmtf("header status %d", static_cast<int>(st)));
    MC_REQUIRE(md.messageName == s.name && ih.usMessageId == s.id, "name", what + "message " + md.messageName);
    MC_REQUIRE(ih.uiPortAddress == 0xC0, "port", what + fmtf("port 0x%X", ih.uiPortAddress));
    MC_REQUIRE(!md.bResponse && ih.uiMessageDefinitionCrc == 0x1234, "definition", what + fmtf("definition %X", ih.uiMessageDefinitionCrc));
    MC_REQUIRE((ih.ucMessageType & ~0x60) == 0 && static_cast<int>(ih.ucMessageType >> 5 & 3) == (ef == ENCODE_FORMAT::ASCII ? 1 : 0), "type", what + fmtf("message type 0x%X", ih.ucMessageType));
    st = k.c->dec->Decode(buf.data() + md.uiHeaderLength, cf, md);
    MC_REQUIRE(st == STATUS::SUCCESS, "body", what + fmtf("body status %d", static_cast<int>(st)));
    const auto def = k.c->db->GetMsgDef(s.id);
    return readBody(cf, s.f, def->GetMsgDefFromCrc(0x1234));
}
// a double quote inside a word has no meaning in any text format
static bool oddQuotes(const string& t)
{
    bool in = false;
    for (size_t i = 0; i < t.size(); i++)
    {
        if (t[i] != '"') { continue; }
        if (!in && i && !strchr(" \r\n<", t[i - 1])) { return true; }
        if (in && i + 1 < t.size() && !strchr(" \r\n", t[i + 1])) { return true; }
        in = !in;
    }
    return in;
}
static bool hasQuote(const Body& b)
{
    for (auto& v : b)
    {
        if (v.s.find('"') != string::npos) { return true; }
        for (auto& r : v.rows) { if (hasQuote(r)) { return true; } }
    }
    return false;
}
static string cutText(const string& t) { return printable(t.size() > 200 ? t.substr(0, 200) : t); }

static const ENCODE_FORMAT EFS[] = {ENCODE_FORMAT::ASCII, ENCODE_FORMAT::BINARY};
static const uint32_t ROOM = 2 * MESSAGE_SIZE_MAX;
static void wellFormed(Cmd& k, const Schema& s, const Body& b, bool sizes)
{
    const string p = params(*k.c, s, b);
    const Body want = bo::viaText(s.f, b, false, k.c->names);
    for (int tail = 0; tail < 4; tail++)
    {
        const string text = s.name + " " + p + (tail == 1 ? "\r\n" : tail == 2 ? "\r" : tail == 3 ? " \r\n" : "");
        for (auto ef : EFS)
        {
            Out o;
            for (int how = tail ? 1 : 2; how >= 0; how--)
            {
                if (how == 2 && !p.empty() && p.back() != '"' ) { /* digits behind the end would change the value if they were read */ }
                const Out x = encode(k, text, ef, ROOM, how);
                MC_REQUIRE(x.st == STATUS::SUCCESS, "refused", fmtf("a well-formed command is refused with status %d: ", static_cast<int>(x.st)) + printable(text));
                MC_REQUIRE(o.msg.empty() || o.msg == x.msg, "overloads", "the two ways of encoding, or what lies behind the command, change the message: " + printable(o.msg) + " and " + printable(x.msg));
                o = x;
            }
            const Body got = read(k, s, o.msg, ef, text);
            const Body& exp = ef == ENCODE_FORMAT::ASCII ? bo::viaText(s.f, want, false, k.c->names) : want;
            MC_REQUIRE(show(got) == show(exp), "values", printable(text) + " says " + show(exp) + ", its message " + show(got));
            if (sizes)
            {
                const uint32_t len = static_cast<uint32_t>(o.msg.size());
                for (uint32_t size = 0; size <= len + 2; size++)
                {
                    const Out x = encode(k, text, ef, size, static_cast<int>(size & 1));
                    if (x.st == STATUS::SUCCESS) { MC_REQUIRE(x.msg == o.msg, "size-changes", fmtf("with a buffer of %u bytes the message is ", size) + printable(x.msg) + " instead of " + printable(o.msg)); }
                    else
                    {
                        MC_REQUIRE(x.st == STATUS::BUFFER_FULL, "full-status", fmtf("status %d for a buffer of %u bytes", static_cast<int>(x.st), size));
                        MC_REQUIRE(size <= len, "full-early", fmtf("a buffer of %u bytes is refused for a message of %u: ", size, len) + printable(text));
                    }
                    MC_REQUIRE(x.st != STATUS::SUCCESS || size >= len, "size", "a message longer than the buffer");
                }
            }
        }
    }
    addStates(1);
    distinct(hashStr(s.name + p));
}
// any text at all: refused, or a message that says the same in both formats
static void anyText(Cmd& k, const string& text)
{
    Out a[2];
    for (int i = 0; i < 2; i++)
    {
        a[i] = encode(k, text, EFS[i], ROOM, i);
        if (a[i].st != STATUS::SUCCESS || oddQuotes(text)) { continue; }
        const string name = text.substr(0, text.find(' '));
        const Schema* s = nullptr;
        for (auto& x : k.c->schemas) { if (name.compare(0, x.name.size(), x.name) == 0) { s = &x; } }
        MC_REQUIRE(s, "unknown-name", "a command that is not defined is encoded: " + printable(text) + " as " + printable(a[i].msg));
        const Body b = read(k, *s, a[i].msg, EFS[i], text);
        // fewer parameters than fields can not say a command
        size_t tokens = 0;
        bool plain = true;
        for (auto& f : s->f) { plain = plain && (f.type == "SIMPLE" || f.type == "ENUM") && f.dt != "CHAR"; }
        const string rest = text.find(' ') == string::npos ? "" : text.substr(text.find(' ') + 1);
        if (plain)
        {
            bool in = false;
            for (char ch : rest) { if (ch == '\0') { break; } const bool sp = strchr(" \r\n<", ch); if (!sp && !in) { tokens++; } in = !sp; }
            MC_REQUIRE(tokens >= s->f.size(), "missing-parameters", "a command without all of its parameters is encoded: " + printable(text) + " as " + printable(a[i].msg));
        }
        else { MC_REQUIRE(!rest.empty(), "missing-parameters", "a command without parameters is encoded: " + printable(text) + " as " + printable(a[i].msg)); }
        if (i == 1 && a[0].st == STATUS::SUCCESS)
        {
            const Body x = read(k, *s, a[0].msg, EFS[0], text);
            const Body t = bo::viaText(s->f, b, false, k.c->names);
            if (show(t) != show(x) && hasQuote(b)) { continue; } // strings with double quotes: see P11
            MC_REQUIRE(show(t) == show(x), "formats-differ", printable(text) + " says " + show(x) + " in ASCII but " + show(b) + " in binary");
        }
    }
    stat(a[0].st == STATUS::SUCCESS ? "accepted" : "refused", 1);
}

static Cmd& single(size_t i)
{
    static std::map<size_t, Cmd*> m;
    Cmd*& k = m[i];
    if (!k)
    {
        vector<vector<F>> fs{{named(reps()[i].f, "f0")}};
        for (auto& r : reps()) { fs.push_back({named(reps()[i].f, "f0"), named(r.f, "f1")}); }
        fs.push_back({named(U8, "f0"), named(reps()[i].f, "f1"), named(U32, "f2")});
        k = new Cmd(fs);
    }
    return *k;
}
static void commands(size_t i)
{
    Cmd& k = single(i);
    const size_t R = reps().size(), form = static_cast<size_t>(choose(static_cast<int>(R) + 2));
    const Schema& s = k.c->schemas[form];
    const Val v = pick(reps()[i].v);
    Body b;
    if (form == 0) { b = {v}; }
    else if (form <= R) { b = {v, pick(reps()[form - 1].v)}; }
    else { b = {N1(7), v, N1(0x01020304)}; }
    wellFormed(k, s, b, true);
}
static void kindValues(size_t ki)
{
    static std::map<size_t, Cmd*> m;
    Cmd*& k = m[ki];
    const Kind& kd = KINDS[ki];
    if (!k) { k = new Cmd({{kd.f}, {U8, kd.f}}); }
    const size_t form = static_cast<size_t>(choose(2));
    const Val v = N1(pick(kd.v));
    if (kd.f.conv == "%c" && strchr("< \r\n", static_cast<int>(v.n[0]))) { return; } // formatting of abbreviated ASCII: see P11
    wellFormed(*k, k->c->schemas[form], form ? Body{N1(5), v} : Body{v}, false);
}
static void garbled(size_t i)
{
    Cmd& k = single(i);
    const size_t R = reps().size();
    const int form = choose(TH ? static_cast<int>(R) + 2 : 2);
    const size_t at = form == 0 ? 0 : form == 1 ? R + 1 : static_cast<size_t>(form - 1);
    const Schema& s = k.c->schemas[at];
    const Val v = pick(reps()[i].v);
    Body b = at == 0 ? Body{v} : at <= R ? Body{v, reps()[at - 1].v.back()} : Body{N1(7), v, N1(0x01020304)};
    const string text = s.name + " " + params(*k.c, s, b);
    static const string al("09-.+,* \"\\xA#<:;\0\r\n\t\xFF", 21);
    static const vector<string> words{"4294967296", "-1", "99999999999999999999", "1e999", "nan", "\\x", "\"", "\"\"", "  ", "\r\n", string(400, '7'), "9999999999 1", " 1 2 3 4 5"};
    anyText(k, text);
    for (size_t n = 0; n < text.size(); n++) { anyText(k, text.substr(0, n)); }
    for (size_t p = 0; p <= text.size(); p++)
    {
        string m;
        for (char ch : al)
        {
            if (p < text.size() && text[p] != ch) { m = text; m[p] = ch; anyText(k, m); }
            m = text; m.insert(p, 1, ch); anyText(k, m);
        }
        if (p < text.size()) { m = text; m.erase(p, 1); anyText(k, m); }
        if (p >= s.name.size()) { for (auto& w : words) { m = text; m.insert(p, w); anyText(k, m); m = text.substr(0, p) + w; anyText(k, m); } }
    }
    addStates(1);
    distinct(hashStr(text));
}
// parameters as long as, and longer than, any message
static void longParams()
{
    static Cmd* k = nullptr;
    if (!k)
    {
        F str{"s", "STRING", "CHAR", 1, "%s", "", 100000}, var{"v", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, "%P", "", 100000}, num{"n", "VARIABLE_LENGTH_ARRAY", "ULONG", 4, "%lu", "", 100000};
        k = new Cmd({{str}, {U8, str}, {var}, {num}, {U8}});
    }
    const size_t form = static_cast<size_t>(choose(5));
    const Schema& s = k->c->schemas[form];
    static const int lens[] = {100, 4000, MESSAGE_SIZE_MAX - 100, MESSAGE_SIZE_MAX - 40, MESSAGE_SIZE_MAX - 1, MESSAGE_SIZE_MAX, MESSAGE_SIZE_MAX + 1, MAX_ASCII_MESSAGE_LENGTH - 3, MAX_ASCII_MESSAGE_LENGTH - 2, MAX_ASCII_MESSAGE_LENGTH - 1, MAX_ASCII_MESSAGE_LENGTH,
                               MAX_ASCII_MESSAGE_LENGTH + 1, MAX_ASCII_MESSAGE_LENGTH + 2, MAX_ASCII_MESSAGE_LENGTH + 3, 2 * MAX_ASCII_MESSAGE_LENGTH, 70000, 200000};
    const size_t len = static_cast<size_t>(lens[choose(static_cast<int>(sizeof lens / sizeof *lens))]);
    const int shape = choose(2);
    string p;
    if (form == 0 || form == 1) { p = (form ? "5 " : "") + string("\"") + string(len - 2, 'x') + "\""; }
    else if (form == 2) { p = fmtf("%zu ", len - 7) + string(len - 7, 'y'); }
    else if (form == 3) { p = fmtf("%zu", len / 2); for (size_t i = 0; i < len / 2; i++) { p += " 7"; } }
    else { p = string(len - 1, ' ') + "3"; }
    if (shape) { p += "\r\n"; }
    const string text = s.name + " " + p;
    for (auto ef : EFS)
    {
        for (int how = 0; how < 2; how++)
        {
            for (uint32_t size : {ROOM, static_cast<uint32_t>(MESSAGE_SIZE_MAX), 100u})
            {
                const Out o = encode(*k, text, ef, size, how);
                note(cutText(text) + fmtf(" of %zu bytes: %d", text.size(), static_cast<int>(o.st)));
                stat(o.st == STATUS::SUCCESS ? "accepted" : "refused", 1);
                if (o.st == STATUS::SUCCESS && o.msg.size() <= MESSAGE_SIZE_MAX - 100)
                {
                    const Body b = read(*k, s, o.msg, ef, cutText(text));
                    if (form == 0) { MC_REQUIRE(b[0].s == string(len - 2, 'x'), "values", "a long string changed"); }
                    if (form == 2) { MC_REQUIRE(b[0].n.size() == len - 7, "values", "a long array changed"); }
                    if (form == 3) { MC_REQUIRE(b[0].n.size() == len / 2, "values", "a long array changed"); }
                    if (form == 4) { MC_REQUIRE(b[0].n[0] == 3, "values", "a padded parameter changed"); }
                }
                if (len <= 4000 && size == ROOM) { MC_REQUIRE(o.st == STATUS::SUCCESS, "refused", "a long command is refused"); }
            }
        }
    }
    addStates(1);
    distinct(hashStr(fmtf("%zu/%zu/%d", form, len, shape)));
}
// which database a commander has used is the one loaded last; arguments are checked
static void databases()
{
    static MessageDatabase::Ptr dbs[2];
    static std::unique_ptr<Cmd> ks[2];
    if (!dbs[0])
    {
        // the same enumeration with other values
        vector<E> es = stdEnums();
        for (auto& e : es) { if (e.name == "SolStatus") { for (auto& v : e.values) { v.first += 3; } } }
        const F en{"a", "ENUM", "ULONG", 4, "%d", "e-sol"};
        dbs[0] = makeDb({{1000, "ALPHA", {en}}});
        dbs[1] = ParseJsonDb(dbJson({{1001, "ALPHA", {U8, en}}}, es));
    }
    const int first = choose(3), second = choose(3), third = choose(3); // 2: none
    Commander com(first == 2 ? nullptr : dbs[first]);
    int now = first;
    for (int x : {second, third}) { if (x != 2) { com.LoadJsonDb(dbs[x]); now = x; } }
    const auto ef = choose(2) ? ENCODE_FORMAT::BINARY : ENCODE_FORMAT::ASCII;
    for (int t = 0; t < 2; t++)
    {
        const string text = t ? "ALPHA 9 NO_CONVERGENCE" : "ALPHA NO_CONVERGENCE";
        vector<char> buf(500);
        uint32_t n = 500;
        STATUS st;
        addTransitions(1);
        try { st = com.Encode(text.data(), static_cast<uint32_t>(text.size()), buf.data(), n, ef); }
        catch (const std::exception& e) { fail("exception", string("threw ") + e.what()); }
        if (now == 2) { MC_REQUIRE(st == STATUS::NO_DATABASE, "no-database", fmtf("status %d without a database", static_cast<int>(st))); }
        else if (now == t)
        {
            MC_REQUIRE(st == STATUS::SUCCESS, "database", fmtf("status %d for a command of the database loaded last (%d, %d, %d)", static_cast<int>(st), first, second, third));
            HeaderDecoder h(dbs[now]);
            MessageDecoder d(dbs[now]);
            MetaDataStruct md;
            IntermediateHeader ih;
            CompositeField cf;
            md.uiLength = n;
            MC_REQUIRE(h.Decode(reinterpret_cast<unsigned char*>(buf.data()), ih, md) == STATUS::SUCCESS && d.Decode(reinterpret_cast<unsigned char*>(buf.data()) + md.uiHeaderLength, cf, md) == STATUS::SUCCESS, "database", "the message does not decode with the database loaded last");
            MC_REQUIRE(ih.usMessageId == 1000 + t && ih.uiPortAddress == 0xC0, "database", fmtf("message %u, port %u", ih.usMessageId, ih.uiPortAddress));
            const auto& info = dbs[now]->GetMsgDef("ALPHA")->GetMsgDefFromCrc(0x1234);
            const int v = cf.GetFieldValue<int32_t>(*info.messageOrderedFields[static_cast<size_t>(t)]);
            MC_REQUIRE(v == (t ? 5 : 2), "database", fmtf("the enumerator is %d", v));
        }
        else if (now == 1) { MC_REQUIRE(st != STATUS::SUCCESS, "database", "a command that is not well-formed for the database loaded last is encoded: " + text); }
    }
    // arguments
    char buf[100];
    uint32_t n = sizeof buf;
    MC_REQUIRE(com.Encode(nullptr, 4, buf, n, ENCODE_FORMAT::ASCII) == STATUS::NULL_PROVIDED && com.Encode("ALPHA 1", 7, nullptr, n, ENCODE_FORMAT::ASCII) == STATUS::NULL_PROVIDED, "null", "null arguments are not refused");
    for (auto f : {ENCODE_FORMAT::FLATTENED_BINARY, ENCODE_FORMAT::ABBREV_ASCII, ENCODE_FORMAT::JSON, ENCODE_FORMAT::UNSPECIFIED})
    {
        MC_REQUIRE(com.Encode("ALPHA 1", 7, buf, n, f) == STATUS::UNSUPPORTED, "unsupported", fmtf("format %d is not refused", static_cast<int>(f)));
    }
    if (now != 2)
    {
        for (const char* t : {"", " ", "BETA", "BETA 1", "alpha NO_CONVERGENCE", "ALPH", "ALPHA", "ALPHA ", " ALPHA NO_CONVERGENCE", "ALPHAX 1", "LPHA 1"})
        {
            n = sizeof buf;
            STATUS st;
            try { st = com.Encode(t, static_cast<uint32_t>(strlen(t)), buf, n, ef); }
            catch (const std::exception& e) { fail("exception", string("threw ") + e.what() + ": " + t); }
            MC_REQUIRE(st != STATUS::SUCCESS, "unknown-name", string("encoded: ") + t);
            if (!strncmp(t, "BETA", 4)) { MC_REQUIRE(st == STATUS::NO_DEFINITION, "no-definition", fmtf("status %d: ", static_cast<int>(st)) + t); }
        }
    }
    addStates(1);
    distinct(static_cast<uint64_t>(first * 100 + second * 10 + third));
}
// several definitions of one command: the latest one is meant
static void latest()
{
    static MessageDatabase::Ptr dbs[4];
    const int which = choose(4);
    MessageDatabase::Ptr& db = dbs[which];
    static const uint32_t old[4] = {0x1111, 0x2222, 0x00000001, 0xFFFFFFFE};
    if (!db)
    {
        M m{1000, "ALPHA", {U8, U32}};
        m.more.push_back({old[which], {U8}});
        m.more.push_back({old[which] ^ 0x77, {U8, U32, named(U8, "x")}});
        db = makeDb({m});
    }
    Commander com(db);
    char buf[300];
    uint32_t n = sizeof buf;
    const bool bin = choose(2);
    const STATUS st = com.Encode("ALPHA 3 70000", 13, buf, n, bin ? ENCODE_FORMAT::BINARY : ENCODE_FORMAT::ASCII);
    MC_REQUIRE(st == STATUS::SUCCESS, "latest", fmtf("status %d for a command of the latest definition", static_cast<int>(st)));
    const string m(buf, n);
    if (!bin) { MC_REQUIRE(m.find(",1234,0;3,70000*") != string::npos, "latest", "not the latest definition: " + printable(m)); }
    else { MC_REQUIRE(m.size() == 28 + 8 + 4 && m.substr(24, 2) == "\x34\x12" && m.substr(28, 8) == string("\x03\0\0\0\x70\x11\x01\0", 8), "latest", "not the latest definition: " + hex(m)); }
    addStates(1);
    distinct(static_cast<uint64_t>(which * 2 + bin));
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P18";
    ck.level = "model_checking";
    ck.rule = "One execution is one command (definition, parameter values); its text is built independently of the code, encoded by both Commander::Encode overloads to ASCII and binary, with every buffer size up to the message's, and read back by "
              "the real framer and decoders; garbled executions apply every cut, single-character fault and hostile word to a command's text. Oracle: well-formed commands are encoded to a message that frames whole and says the same name, port and "
              "values; other texts are refused or, when lenient parsing accepts them, give a message that frames and decodes, says the same in both formats and has all parameters; nothing is written outside the buffer (exact allocations, AddressSanitizer).";
    ck.assumptions = {"text behind the last parameter, and what commands with double quotes inside of words say, are not judged", "parameters that only lenient parsing accepts (unknown enumerators, trailing characters of numbers) mean what the decoder reads", "the framer and decoders that read the messages back are checked by P05-P13"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    quietLogs();
    TH = ck.thorough();
    ck.unit("databases", [] { databases(); });
    ck.unit("latest", [] { latest(); });
    ck.unit("long", [] { longParams(); });
    for (size_t i = 0; i < reps().size(); i++)
    {
        ck.unit(fmtf("commands/%zu", i), [i] { commands(i); });
        ck.unit(fmtf("garbled/%zu", i), [i] { garbled(i); });
    }
    for (size_t i = 0; i < KINDS.size(); i++) { ck.unit("values/" + kindName(KINDS[i]), [i] { kindValues(i); }); }
    return runCheck(ck, argc, argv);
}
