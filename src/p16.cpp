// P16: the message database answers like a map after any edit history.
#include "edie.hpp"

using namespace mc;
using namespace ed;
using std::string;
using std::vector;

// ---------------------------------------------------------------- material
// Each message has a fixed part whose layout depends on the family's alignment, an enum field and a nested enum field.
static size_t align4(size_t len, const uintptr_t, const uintptr_t p)
{
    const size_t a = std::min<size_t>(4, len);
    return a == 0 || p % a == 0 ? 0 : a - p % a;
}
struct MsgTok
{
    const char* tag;
    uint32_t id;
    const char* name;
    const char* enumId; // of the enum field, nullptr for none
    const char* nestedEnumId;
};
static const MsgTok MSG[] = {
    {"m1", 1, "ACE", "I1", nullptr}, {"m2", 1, "ACE", "I2", "I1"}, {"m3", 1, "BEE", nullptr, "I1"}, {"m4", 2, "ACE", "I1", nullptr}, {"m5", 2, "ACEA", nullptr, nullptr}, {"m6", 3, "CAT_1", "I2", nullptr},
};
constexpr int MSGS = 6;
struct EnumTok
{
    const char* tag;
    const char* id;
    const char* name;
};
static const EnumTok ENM[] = {{"e1", "I1", "N1"}, {"e2", "I1", "N1"}, {"e3", "I2", "N1"}, {"e4", "I1", "N2"}, {"e5", "I2", "N3"}};
constexpr int ENUMS = 5;

static MessageDefinition::ConstPtr makeMsg(int i)
{
    const MsgTok& t = MSG[i];
    vector<BaseField::Ptr> fs;
    fs.push_back(std::make_shared<BaseField>("a", FIELD_TYPE::SIMPLE, "%uc", DATA_TYPE::UCHAR));
    fs.push_back(std::make_shared<BaseField>("b", FIELD_TYPE::SIMPLE, "%u", DATA_TYPE::UINT));
    if (t.enumId) { fs.push_back(std::make_shared<EnumField>("e", FIELD_TYPE::ENUM, "%d", DATA_TYPE::UINT, t.enumId)); }
    if (t.nestedEnumId)
    {
        vector<BaseField::Ptr> in;
        in.push_back(std::make_shared<BaseField>("x", FIELD_TYPE::SIMPLE, "%uc", DATA_TYPE::UCHAR));
        in.push_back(std::make_shared<EnumField>("y", FIELD_TYPE::ENUM, "%d", DATA_TYPE::UINT, t.nestedEnumId));
        fs.push_back(std::make_shared<FieldArrayField>("arr", FIELD_TYPE::FIELD_ARRAY, "", DATA_TYPE::UNKNOWN, 4, BuildFieldInfo(in)));
    }
    // the other kinds that have a place of their own in the layout
    if (i % 2 == 0)
    {
        fs.push_back(std::make_shared<BaseField>("c", FIELD_TYPE::SIMPLE, "%uc", DATA_TYPE::UCHAR));
        fs.push_back(std::make_shared<ArrayField>("fa", FIELD_TYPE::FIXED_LENGTH_ARRAY, "%hu", DATA_TYPE::USHORT, 3));
        fs.push_back(std::make_shared<ArrayField>("s", FIELD_TYPE::STRING, "%s", DATA_TYPE::CHAR, 16));
        fs.push_back(std::make_shared<BaseField>("d", FIELD_TYPE::SIMPLE, "%lf", DATA_TYPE::DOUBLE));
    }
    if (i % 3 == 0)
    {
        fs.push_back(std::make_shared<ArrayField>("fc", FIELD_TYPE::FIXED_LENGTH_ARRAY, "%c", DATA_TYPE::UCHAR, 5));
        fs.push_back(std::make_shared<ArrayField>("va", FIELD_TYPE::VARIABLE_LENGTH_ARRAY, "%lu", DATA_TYPE::ULONG, 4));
        fs.push_back(std::make_shared<ArrayField>("fd", FIELD_TYPE::FIXED_LENGTH_ARRAY, "%lf", DATA_TYPE::DOUBLE, 2));
        fs.push_back(std::make_shared<BaseField>("r", FIELD_TYPE::RESPONSE_ID, "%d", DATA_TYPE::INT));
    }
    std::unordered_map<uint32_t, FieldInfo::ConstPtr> fi;
    fi[7] = BuildFieldInfo(fs);
    return std::make_shared<MessageDefinition>(string("id-") + t.tag, t.id, t.name, t.tag, 7, fi);
}
static EnumDefinition::ConstPtr makeEnum(int i)
{
    return std::make_shared<EnumDefinition>(ENM[i].id, ENM[i].name, vector<EnumDataType>{{static_cast<uint32_t>(i), ENM[i].tag, ENM[i].tag}});
}
static MessageDefinition::ConstPtr msg(int i)
{
    static vector<MessageDefinition::ConstPtr> v = [] { vector<MessageDefinition::ConstPtr> r; for (int k = 0; k < MSGS; k++) { r.push_back(makeMsg(k)); } return r; }();
    return v[static_cast<size_t>(i)];
}
static EnumDefinition::ConstPtr enm(int i)
{
    static vector<EnumDefinition::ConstPtr> v = [] { vector<EnumDefinition::ConstPtr> r; for (int k = 0; k < ENUMS; k++) { r.push_back(makeEnum(k)); } return r; }();
    return v[static_cast<size_t>(i)];
}

// ---------------------------------------------------------------- the specification
struct Spec
{
    vector<int> msgs; // definitions in force, oldest first; one per message id
    vector<int> enums; // one per enum name
    // 0: layout as built by the caller (unaligned), 1: OEM
    std::map<int, int> layout; // of each definition in force
    int family = 0;
    bool repeats = false; // built from lists in which ids and names repeat: the older entries stay in the lists
    bool meta = false;
    void addMsg(int i)
    {
        delMsg(MSG[i].id);
        msgs.push_back(i);
        layout[i] = family;
    }
    void delMsg(uint32_t id)
    {
        msgs.erase(std::remove_if(msgs.begin(), msgs.end(), [&](int k) { return MSG[k].id == id; }), msgs.end());
    }
    void addEnum(int i)
    {
        delEnum(ENM[i].name);
        enums.push_back(i);
    }
    void delEnum(const string& n)
    {
        enums.erase(std::remove_if(enums.begin(), enums.end(), [&](int k) { return n == ENM[k].name; }), enums.end());
    }
    int byId(uint32_t id) const
    {
        for (int i : msgs) { if (MSG[i].id == id) { return i; } }
        return -1;
    }
    int byName(const string& n) const
    {
        int r = -1;
        for (int i : msgs) { if (n == MSG[i].name) { r = i; } }
        return r;
    }
    int enumById(const string& n) const
    {
        int r = -1;
        for (int i : enums) { if (n == ENM[i].id) { r = i; } }
        return r;
    }
    int enumByName(const string& n) const
    {
        int r = -1;
        for (int i : enums) { if (n == ENM[i].name) { r = i; } }
        return r;
    }
    uint64_t hash() const
    {
        uint64_t h = mix(family, meta);
        for (int i : msgs) { h = mix(h, i + 1 + 100 * layout.at(i)); }
        for (int i : enums) { h = mix(h, i + 50); }
        return h;
    }
};
// full name -> identity; 0 when unknown
static uint32_t refNameToId(const Spec& s, string n)
{
    uint32_t sib = 0;
    const size_t u = n.find_last_of('_');
    if (u != string::npos && u + 1 < n.size())
    {
        const string d = n.substr(u + 1);
        if (d.find_first_not_of("0123456789") == string::npos && d.size() <= 2 && atoi(d.c_str()) < 32)
        {
            sib = static_cast<uint32_t>(atoi(d.c_str()));
            n.resize(u);
        }
    }
    int i = s.byName(n);
    if (i >= 0) { return MSG[i].id + sib * 65536u + 2u * 2097152u; }
    if (n.empty()) { return 0; }
    const char c = n.back();
    if (c != 'A' && c != 'B' && c != 'R') { return 0; }
    n.pop_back();
    i = s.byName(n);
    return i < 0 ? 0 : MSG[i].id + sib * 65536u + (c == 'B' ? 0u : 1u) * 2097152u + (c == 'R' ? 8388608u : 0u);
}

static string tagOf(const MessageDefinition::ConstPtr& p) { return p ? p->description : "none"; }
static string tagOf(const EnumDefinition::ConstPtr& p) { return p ? p->enumerators.at(0).name : "none"; }
static string want(int i, bool enumTok = false) { return i < 0 ? "none" : enumTok ? ENM[i].tag : MSG[i].tag; }

static void judgeDef(const MessageDefinition& d, int i, const Spec& s, const string& who)
{
    const MsgTok& t = MSG[i];
    MC_REQUIRE(d.logID == t.id && d.name == t.name && d._id == string("id-") + t.tag && d.latestMessageCrc == 7, "content", who + ": the definition of " + t.tag + " changed");
    const FieldInfo& f = d.GetMsgDefFromCrc(7);
    const bool oem = s.layout.at(i) == 1;
    size_t off = 0, var = 0;
    for (auto& p : f.messageOrderedFields)
    {
        if (p->type == FIELD_TYPE::FIELD_ARRAY)
        {
            MC_REQUIRE(p->index == var, "layout", who + ": wrong index of a variable field of " + t.tag);
            var++;
            const auto* fa = dynamic_cast<const FieldArrayField*>(p.get());
            MC_REQUIRE(fa && fa->fieldInfo && fa->fieldInfo->messageOrderedFields.size() == 2, "content", who + ": nested fields lost");
            const auto& in = *fa->fieldInfo;
            const size_t y = oem ? 4 : 1;
            MC_REQUIRE(in.messageOrderedFields[1]->index == y && in.fixedFieldBytes == y + 4, "nested-layout",
                       fmtf("%s: nested field of %s at offset %zu of %zu bytes, expected %zu", who.c_str(), t.tag, in.messageOrderedFields[1]->index, in.fixedFieldBytes, y));
        }
        else
        {
            if (p->type == FIELD_TYPE::STRING || p->type == FIELD_TYPE::VARIABLE_LENGTH_ARRAY)
            {
                MC_REQUIRE(p->index == var, "layout", who + ": wrong index of " + p->name + " of " + t.tag);
                var++;
                continue;
            }
            if (oem) { off += align4(p->dataType.length, 0, off); }
            MC_REQUIRE(p->index == off, "layout", fmtf("%s: field %s of %s at offset %zu, expected %zu", who.c_str(), p->name.c_str(), t.tag, p->index, off));
            const auto* fixed = p->type == FIELD_TYPE::FIXED_LENGTH_ARRAY ? dynamic_cast<const ArrayField*>(p.get()) : nullptr;
            MC_REQUIRE(fixed != nullptr || p->type != FIELD_TYPE::FIXED_LENGTH_ARRAY, "content", "an array field lost its type");
            off += p->dataType.length * (fixed ? fixed->arrayLength : 1);
        }
    }
    MC_REQUIRE(f.fixedFieldBytes == off && f.varFieldCount == var, "layout", who + ": wrong size of the layout of " + t.tag);
}
static void judgeEnumRefs(const FieldInfo& f, const Spec& s, const string& who, const char* tag)
{
    for (auto& p : f.messageOrderedFields)
    {
        if (p->type == FIELD_TYPE::ENUM)
        {
            const auto* e = dynamic_cast<const EnumField*>(p.get());
            MC_REQUIRE(e, "content", "an enum field lost its type");
            const int w = s.enumById(e->enumId);
            MC_REQUIRE(tagOf(e->enumDef) == want(w, true), "enum-ref",
                       fmtf("%s: the enum field of %s with enum id %s refers to %s, in force is %s", who.c_str(), tag, e->enumId.c_str(), tagOf(e->enumDef).c_str(), want(w, true).c_str()));
        }
        else if (const auto* fa = dynamic_cast<const FieldArrayField*>(p.get())) { judgeEnumRefs(*fa->fieldInfo, s, who, tag); }
    }
}
static void judge(const MessageDatabase& db, const Spec& s, const string& who)
{
    for (uint32_t id = 0; id < 5; id++)
    {
        const auto d = db.GetMsgDef(static_cast<int32_t>(id));
        const int w = s.byId(id);
        MC_REQUIRE(tagOf(d) == want(w), "by-id", fmtf("%s: message id %u gives %s, expected %s", who.c_str(), id, tagOf(d).c_str(), want(w).c_str()));
        if (d)
        {
            judgeDef(*d, w, s, who);
            judgeEnumRefs(d->GetMsgDefFromCrc(7), s, who, MSG[w].tag);
        }
        const string n = db.MsgIdToMsgName(id | 2u * 2097152u | 12u * 65536u);
        const string wn = (w < 0 ? string("UNKNOWN") : string(MSG[w].name)) + "_12";
        MC_REQUIRE(n == wn, "id-to-name", who + ": MsgIdToMsgName gives " + n + ", expected " + wn);
    }
    for (const char* n : {"ACE", "BEE", "ACEA", "CAT_1", "", "CAT", "A"})
    {
        const auto d = db.GetMsgDef(std::string_view(n));
        const int w = s.byName(n);
        MC_REQUIRE(tagOf(d) == want(w), "by-name", fmtf("%s: message name \"%s\" gives %s, expected %s", who.c_str(), n, tagOf(d).c_str(), want(w).c_str()));
        if (d) { MC_REQUIRE(d == db.GetMsgDef(static_cast<int32_t>(d->logID)), "by-name", who + ": lookup by name and by id give different definitions of the same message"); }
    }
    for (const char* n : {"ACE", "ACEA", "ACEB", "ACER", "ACEAA", "ACE_3", "ACEA_12", "ACEB_31", "ACER_9", "ACE_32", "ACE_X", "ACE_", "_1", "", "A", "BEER_1", "BEE", "CAT_1", "ACE_007"})
    {
        if (string(n) == "CAT_1") { continue; } // a name that itself ends like a sibling suffix is ambiguous
        const uint32_t got = db.MsgNameToMsgId(n), w = refNameToId(s, n);
        MC_REQUIRE(got == w, "name-to-id", fmtf("%s: MsgNameToMsgId(\"%s\") = 0x%06x, expected 0x%06x", who.c_str(), n, got, w));
    }
    for (const char* n : {"N1", "N2", "N3", "zz"})
    {
        const auto e = db.GetEnumDefName(n);
        MC_REQUIRE(tagOf(e) == want(s.enumByName(n), true), "enum-by-name",
                   fmtf("%s: enum name %s gives %s, expected %s", who.c_str(), n, tagOf(e).c_str(), want(s.enumByName(n), true).c_str()));
    }
    for (const char* n : {"I1", "I2", "zz"})
    {
        const auto e = db.GetEnumDefId(n);
        MC_REQUIRE(tagOf(e) == want(s.enumById(n), true), "enum-by-id",
                   fmtf("%s: enum id %s gives %s, expected %s", who.c_str(), n, tagOf(e).c_str(), want(s.enumById(n), true).c_str()));
    }
    // the lists hold exactly what the lookups answer
    std::set<string> a, b;
    for (auto& d : db.MessageDefinitions()) { a.insert(tagOf(d)); }
    for (int i : s.msgs) { b.insert(MSG[i].tag); }
    if (s.repeats) { for (const string& t : b) { MC_REQUIRE(a.count(t), "list", who + ": a definition that can be looked up is not listed"); } }
    else MC_REQUIRE(a == b, "list", who + ": the list of message definitions differs from what can be looked up");
    a.clear(); b.clear();
    for (auto& d : db.EnumDefinitions()) { a.insert(tagOf(d)); }
    for (int i : s.enums) { b.insert(ENM[i].tag); }
    if (!s.repeats) MC_REQUIRE(a == b, "list", who + ": the list of enum definitions differs from what can be looked up");
    const auto m = db.GetDbMetadata();
    MC_REQUIRE((m && m->messageFamily == "OEM") == (s.family == 1), "family", who + ": the message family changed");
}

struct Pair
{
    MessageDatabase db;
    Spec s;
};
static const Pair& other()
{
    static Pair p = [] {
        Pair q{MessageDatabase({makeMsg(1), makeMsg(3)}, {makeEnum(2), makeEnum(3)}), {}};
        for (int i : {1, 3}) { q.s.addMsg(i); }
        for (int i : {2, 3}) { q.s.addEnum(i); }
        return q;
    }();
    return p;
}
static Pair start(int k)
{
    Pair p;
    if (k == 1) // shared definitions handed to the constructor
    {
        p.db = MessageDatabase({msg(0), msg(4), msg(5)}, {enm(0), enm(4)});
        for (int i : {0, 4, 5}) { p.s.addMsg(i); }
        for (int i : {0, 4}) { p.s.addEnum(i); }
    }
    if (k == 2) // repeated ids and names: the last one counts
    {
        p.db = MessageDatabase({makeMsg(0), makeMsg(1), makeMsg(3)}, {makeEnum(0), makeEnum(1), makeEnum(3)});
        p.s.addMsg(1); p.s.addMsg(3);
        p.s.repeats = true;
        p.s.addEnum(1); p.s.addEnum(3);
    }
    return p;
}
constexpr int OPS = MSGS + 2 + ENUMS + 1 + 4 + 4 + 2 + 2 + 2;
static void apply(Pair& act, Pair& kept, int op, string& what)
{
    MessageDatabase& d = act.db;
    Spec& s = act.s;
    int o = op;
    if (o < MSGS) { what = fmtf("AppendMessages({%s})", MSG[o].tag); d.AppendMessages({msg(o)}); s.addMsg(o); return; }
    o -= MSGS;
    if (o == 0) { what = "AppendMessages({m2, m4})"; d.AppendMessages({msg(1), msg(3)}); s.addMsg(1); s.addMsg(3); return; }
    if (o == 1) { what = "AppendMessages({m1, m3})"; d.AppendMessages({msg(0), msg(2)}); s.addMsg(0); s.addMsg(2); return; }
    o -= 2;
    if (o < ENUMS) { what = fmtf("AppendEnumerations({%s})", ENM[o].tag); d.AppendEnumerations({enm(o)}); s.addEnum(o); return; }
    o -= ENUMS;
    if (o == 0) { what = "AppendEnumerations({e4, e3})"; d.AppendEnumerations({enm(3), enm(2)}); s.addEnum(3); s.addEnum(2); return; }
    o -= 1;
    if (o < 4) { what = fmtf("RemoveMessage(%d)", o + 1); d.RemoveMessage(static_cast<uint32_t>(o + 1)); s.delMsg(static_cast<uint32_t>(o + 1)); return; }
    o -= 4;
    if (o < 4)
    {
        const char* n[] = {"N1", "N2", "N3", ""};
        what = fmtf("RemoveEnumeration(%s)", n[o]);
        string tmp = n[o];
        d.RemoveEnumeration(tmp);
        s.delEnum(n[o]);
        return;
    }
    o -= 4;
    if (o == 0)
    {
        what = "Merge({m2, m4; e3, e4})";
        d.Merge(other().db);
        for (int i : other().s.enums) { s.addEnum(i); }
        for (int i : other().s.msgs) { s.addMsg(i); }
        return;
    }
    o -= 1;
    if (o == 0)
    {
        what = "Merge(itself)";
        const Spec was = s;
        d.Merge(d);
        for (int i : was.enums) { s.addEnum(i); }
        for (int i : was.msgs) { s.addMsg(i); }
        return;
    }
    o -= 1;
    if (o < 2)
    {
        what = fmtf("SetMessageFamily(%s)", o ? "NONE" : "OEM");
        d.SetMessageFamily(o ? "NONE" : "OEM");
        s.family = o ? 0 : 1;
        s.meta = true;
        for (auto& [i, l] : s.layout) { l = s.family; }
        return;
    }
    o -= 2;
    if (o == 0) { what = "keep a copy"; kept = act; return; }
    what = "swap with the copy";
    std::swap(act, kept);
}
static void unit(int st, int first, int depth)
{
    Pair act = start(st), kept = start(st == 1 ? 1 : 0);
    const MessageDefinition::ConstPtr held = act.db.GetMsgDef(int32_t{1}); // a definition handed out stays usable
    const string heldTag = tagOf(held);
    if (fresh()) { judge(act.db, act.s, "start"); }
    for (int d = 0; d < depth; d++)
    {
        string what;
        apply(act, kept, d == 0 ? first : choose(OPS), what);
        if (tracing()) { note(what); }
        if (!fresh() && d > 0) { continue; }
        addTransitions(1);
        distinct(mix(act.s.hash(), kept.s.hash()));
        judge(act.db, act.s, "after " + what);
        judge(kept.db, kept.s, "the copy, after " + what);
        judge(other().db, other().s, "a database merged from");
        for (int i = 0; i < MSGS; i++)
        {
            Spec none;
            none.layout[i] = 0;
            judgeDef(*msg(i), i, none, "the caller's own definition");
            judgeEnumRefs(msg(i)->GetMsgDefFromCrc(7), none, "the caller's own definition", MSG[i].tag);
        }
        if (held) { MC_REQUIRE(tagOf(held) == heldTag && held->GetMsgDefFromCrc(7).messageOrderedFields.size() >= 2, "held", "a definition that was handed out changed"); }
    }
}

int main(int argc, char** argv)
{
    Check ck;
    ck.id = "P16";
    ck.level = "model_checking";
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    ck.rule = "all sequences of edits up to the depth (appends of six message and five enum definitions that collide in id, name and enum id, alone and in batches, removals, a merge, "
              "family changes, copies and swaps with the copy) from three starting databases; after every edit every lookup of the database, its copy, the merged-from database and "
              "the caller's definitions is compared with a map model, including field layouts and enum references. outcome = model states reached.";
    ck.assumptions = {"message ids key the messages and enum names key the enums; a name shared by several messages means the one added last"};
    quietLogs();
    MessageDatabase::RegisterAlignmentFunction("OEM", align4);
    other();
    const int depth = ck.thorough() ? 4 : 3;
    for (int st = 0; st < 3; st++)
    {
        for (int o = 0; o < OPS; o++) { ck.unit(fmtf("start%d/op%02d", st, o), [=] { unit(st, o, depth); }); }
    }
    return runCheck(ck, argc, argv);
}
