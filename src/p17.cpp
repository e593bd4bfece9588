// P17: loading a JSON database yields exactly what the document describes, or the documented failure.
#include <dlfcn.h>
#include <pthread.h>

#include <condition_variable>
#include <filesystem>
#include <mutex>
#include <optional>

#include "edie.hpp"
#include "novatel_edie/decoders/oem/common.hpp"

using namespace mc;
using namespace ed;
using std::string;
using std::vector;

// ---------------------------------------------------------------- an own JSON value
struct J
{
    enum K
    {
        NUL,
        BOOL,
        NUM, // text of the number
        STR,
        ARR,
        OBJ
    } k = NUL;
    bool b = false;
    string s;
    vector<J> a;
    vector<std::pair<string, J>> o;
    static J null() { return J{}; }
    static J boolean(bool v)
    {
        J j;
        j.k = BOOL;
        j.b = v;
        return j;
    }
    static J num(string t)
    {
        J j;
        j.k = NUM;
        j.s = std::move(t);
        return j;
    }
    static J num(uint64_t v) { return num(std::to_string(v)); }
    static J str(string t)
    {
        J j;
        j.k = STR;
        j.s = std::move(t);
        return j;
    }
    static J arr(vector<J> v = {})
    {
        J j;
        j.k = ARR;
        j.a = std::move(v);
        return j;
    }
    static J obj(vector<std::pair<string, J>> v = {})
    {
        J j;
        j.k = OBJ;
        j.o = std::move(v);
        return j;
    }
    const J* get(const string& key) const
    {
        if (k != OBJ) { return nullptr; }
        for (auto& m : o)
        {
            if (m.first == key) { return &m.second; }
        }
        return nullptr;
    }
};
static string text(const J& j)
{
    string s;
    switch (j.k)
    {
    case J::NUL: return "null";
    case J::BOOL: return j.b ? "true" : "false";
    case J::NUM: return j.s;
    case J::STR: return q(j.s);
    case J::ARR:
        for (auto& x : j.a) { s += (s.empty() ? "" : ",") + text(x); }
        return "[" + s + "]";
    default:
        for (auto& x : j.o) { s += (s.empty() ? "" : ",") + q(x.first) + ":" + text(x.second); }
        return "{" + s + "}";
    }
}
// Strict RFC 8259 reader (ASCII and \u00xx are all the documents here use).
struct Reader
{
    const string& t;
    size_t i = 0;
    struct Bad
    {
    };
    void ws()
    {
        while (i < t.size() && (t[i] == ' ' || t[i] == '\t' || t[i] == '\n' || t[i] == '\r')) { i++; }
    }
    char peek() const { return i < t.size() ? t[i] : '\0'; }
    bool lit(const char* w)
    {
        const size_t n = strlen(w);
        if (t.compare(i, n, w) != 0) { throw Bad{}; }
        i += n;
        return true;
    }
    string str()
    {
        string r;
        if (peek() != '"') { throw Bad{}; }
        for (i++;;)
        {
            if (i >= t.size()) { throw Bad{}; }
            const auto c = static_cast<unsigned char>(t[i++]);
            if (c == '"') { return r; }
            if (c < 0x20 || c > 0x7E) { throw Bad{}; } // (bytes above 0x7E are not used validly)
            if (c != '\\')
            {
                r += static_cast<char>(c);
                continue;
            }
            const char e = i < t.size() ? t[i++] : '\0';
            switch (e)
            {
            case '"':
            case '\\':
            case '/': r += e; break;
            case 'b': r += '\b'; break;
            case 'f': r += '\f'; break;
            case 'n': r += '\n'; break;
            case 'r': r += '\r'; break;
            case 't': r += '\t'; break;
            case 'u':
            {
                unsigned v = 0;
                for (int d = 0; d < 4; d++)
                {
                    const char h = peek();
                    if (!isxdigit(static_cast<unsigned char>(h))) { throw Bad{}; }
                    v = v * 16 + static_cast<unsigned>(h <= '9' ? h - '0' : (h | 32) - 'a' + 10);
                    i++;
                }
                if (v > 0x7F) { throw Bad{}; }
                r += static_cast<char>(v);
                break;
            }
            default: throw Bad{};
            }
        }
    }
    J number()
    {
        const size_t b = i;
        if (peek() == '-') { i++; }
        if (peek() == '0') { i++; }
        else
        {
            if (!isdigit(static_cast<unsigned char>(peek()))) { throw Bad{}; }
            while (isdigit(static_cast<unsigned char>(peek()))) { i++; }
        }
        if (peek() == '.')
        {
            i++;
            if (!isdigit(static_cast<unsigned char>(peek()))) { throw Bad{}; }
            while (isdigit(static_cast<unsigned char>(peek()))) { i++; }
        }
        if (peek() == 'e' || peek() == 'E')
        {
            i++;
            if (peek() == '+' || peek() == '-') { i++; }
            if (!isdigit(static_cast<unsigned char>(peek()))) { throw Bad{}; }
            while (isdigit(static_cast<unsigned char>(peek()))) { i++; }
        }
        return J::num(t.substr(b, i - b));
    }
    J value()
    {
        ws();
        switch (peek())
        {
        case 'n': lit("null"); return J::null();
        case 't': lit("true"); return J::boolean(true);
        case 'f': lit("false"); return J::boolean(false);
        case '"': return J::str(str());
        case '[':
        {
            J r = J::arr();
            i++;
            ws();
            if (peek() == ']')
            {
                i++;
                return r;
            }
            for (;;)
            {
                r.a.push_back(value());
                ws();
                if (peek() == ']')
                {
                    i++;
                    return r;
                }
                if (peek() != ',') { throw Bad{}; }
                i++;
            }
        }
        case '{':
        {
            J r = J::obj();
            i++;
            ws();
            if (peek() == '}')
            {
                i++;
                return r;
            }
            for (;;)
            {
                ws();
                string key = str();
                ws();
                if (peek() != ':') { throw Bad{}; }
                i++;
                r.o.emplace_back(std::move(key), value());
                ws();
                if (peek() == '}')
                {
                    i++;
                    return r;
                }
                if (peek() != ',') { throw Bad{}; }
                i++;
            }
        }
        default: return number();
        }
    }
    static std::optional<J> read(const string& t)
    {
        Reader r{t};
        try
        {
            J j = r.value();
            r.ws();
            if (r.i != t.size()) { return std::nullopt; }
            return j;
        }
        catch (const Bad&)
        {
            return std::nullopt;
        }
    }
};

// ---------------------------------------------------------------- what a document describes (the specification)
struct Malformed
{
    string why;
};
static const J& need(const J& j, const char* key)
{
    const J* m = j.get(key);
    if (m == nullptr) { throw Malformed{string("no ") + key}; }
    return *m;
}
static string sStr(const J& j, const char* what)
{
    if (j.k != J::STR) { throw Malformed{string(what) + " is no string"}; }
    return j.s;
}
static string sStrOrNull(const J& j, const char* what) { return j.k == J::NUL ? "" : sStr(j, what); }
static uint64_t digits(const string& t, uint64_t max, const char* what)
{
    if (t.empty() || t.find_first_not_of("0123456789") != string::npos) { throw Malformed{string(what) + " is no number"}; }
    size_t z = 0;
    while (z + 1 < t.size() && t[z] == '0') { z++; }
    if (t.size() - z > 19) { throw Malformed{string(what) + " is too large"}; }
    const uint64_t v = std::stoull(t.substr(z));
    if (v > max) { throw Malformed{string(what) + " is too large"}; }
    return v;
}
static uint64_t sNum(const J& j, uint64_t max, const char* what)
{
    if (j.k != J::NUM) { throw Malformed{string(what) + " is no number"}; }
    return digits(j.s == "-0" ? "0" : j.s, max, what);
}
static constexpr uint64_t U32 = 0xFFFFFFFFull;

static const std::map<string, DATA_TYPE>& typeNames()
{
    static const std::map<string, DATA_TYPE> m = {{"BOOL", DATA_TYPE::BOOL},         {"HEXBYTE", DATA_TYPE::HEXBYTE}, {"CHAR", DATA_TYPE::CHAR},
                                                  {"UCHAR", DATA_TYPE::UCHAR},       {"SHORT", DATA_TYPE::SHORT},     {"USHORT", DATA_TYPE::USHORT},
                                                  {"INT", DATA_TYPE::INT},           {"UINT", DATA_TYPE::UINT},       {"LONG", DATA_TYPE::LONG},
                                                  {"ULONG", DATA_TYPE::ULONG},       {"LONGLONG", DATA_TYPE::LONGLONG}, {"ULONGLONG", DATA_TYPE::ULONGLONG},
                                                  {"FLOAT", DATA_TYPE::FLOAT},       {"DOUBLE", DATA_TYPE::DOUBLE},   {"SATELLITEID", DATA_TYPE::SATELLITEID}};
    return m;
}
static string kindDump(const string& type)
{
    return type == "SIMPLE" ? "base" : type == "ENUM" ? "enum" : type == "FIELD_ARRAY" ? "rows" : "array";
}
// conversion strings: % [width] [.] [precision] letters
static string convDump(const string& conv, const string& type)
{
    if (conv.empty()) { return "-"; }
    size_t i = 1;
    const auto num = [&]() -> std::optional<uint64_t> {
        const size_t b = i;
        while (i < conv.size() && isdigit(static_cast<unsigned char>(conv[i]))) { i++; }
        if (i == b) { return std::nullopt; }
        return digits(conv.substr(b, i - b), 0x7FFFFFFF, "conversion");
    };
    if (conv[0] != '%') { throw Malformed{"conversion"}; }
    const auto w = num();
    bool dot = false;
    if (i < conv.size() && conv[i] == '.')
    {
        i++;
        dot = true;
    }
    const auto p = dot ? num() : std::nullopt;
    const string letters = conv.substr(i);
    if (letters.empty() || !std::all_of(letters.begin(), letters.end(), [](char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }))
    {
        throw Malformed{"conversion"};
    }
    const bool isStr = type == "STRING" || letters == "s" || letters == "S";
    const bool csv = !isStr && letters != "Z" && letters != "P";
    return (w ? std::to_string(*w) : "_") + "." + (p ? std::to_string(*p) : "_") + " " + std::to_string(CalculateBlockCrc32(letters)) + " " + (isStr ? "str" : "") + (csv ? "csv" : "");
}
static size_t padOf(const string& family, size_t len, size_t at)
{
    if (len == 0) { return 0; }
    size_t a = 1;
    if (family == "OEM") { a = std::min<size_t>(len, 4); }
    if (family == "MC") { a = std::min<size_t>(len, 8); }
    return (a - at % a) % a;
}
struct Layout
{
    size_t fixed = 0, var = 0;
    uint64_t size = 0;
    string dump;
};
static const std::set<string>* enumIds = nullptr; // ids of the document
static Layout modelFields(const J& j, const string& family)
{
    Layout l;
    if (j.k != J::ARR) { throw Malformed{"fields"}; }
    for (const J& f : j.a)
    {
        const string type = sStr(need(f, "type"), "type");
        const bool arr = type == "FIXED_LENGTH_ARRAY" || type == "VARIABLE_LENGTH_ARRAY" || type == "STRING";
        if (!arr && type != "SIMPLE" && type != "ENUM" && type != "FIELD_ARRAY") { throw Malformed{"field type"}; }
        const J& dt = need(f, "dataType");
        const auto it = typeNames().find(sStr(need(dt, "name"), "dataType name"));
        const DATA_TYPE d = it == typeNames().end() ? DATA_TYPE::UNKNOWN : it->second;
        const uint64_t len = sNum(need(dt, "length"), 0xFFFF, "length");
        const string ddesc = sStrOrNull(need(dt, "description"), "description");
        const string name = sStr(need(f, "name"), "name");
        const string desc = sStrOrNull(need(f, "description"), "description");
        const J* c = f.get("conversionString");
        string conv = c ? sStrOrNull(*c, "conversion") : "";
        if (c && c->k == J::STR && conv.empty()) { throw Malformed{"conversion"}; }
        string s = "(" + kindDump(type) + " " + q(name) + " " + type + " " + q(desc) + " " + q(conv) + " [" + convDump(conv, type) + "] " + string(DataTypeToString(d)) + " " +
                   std::to_string(len) + " " + q(ddesc);
        size_t index = 0;
        const auto fixed = [&](uint64_t n) {
            l.fixed += padOf(family, len, l.fixed);
            index = l.fixed;
            l.fixed += len * n;
        };
        if (type == "SIMPLE" || type == "ENUM")
        {
            fixed(1);
            l.size += len;
        }
        if (type == "ENUM")
        {
            const string id = sStr(need(f, "enumID"), "enumID");
            s += " enum=" + q(id) + (enumIds && enumIds->count(id) ? " found" : " none");
        }
        if (arr || type == "FIELD_ARRAY")
        {
            const J& al = need(f, "arrayLength");
            const uint64_t n = type == "FIELD_ARRAY" && al.k == J::NUL ? 0 : sNum(al, U32, "arrayLength");
            const J* ls = f.get("arrayLengthFieldSize");
            const uint64_t lenSize = ls ? sNum(*ls, 0xFF, "arrayLengthFieldSize") : 4;
            const J* ref = f.get("arrayLengthRef");
            s += " n=" + std::to_string(n) + " l=" + std::to_string(lenSize) + " ref=" + q(ref ? sStrOrNull(*ref, "ref") : "");
            if (type == "FIXED_LENGTH_ARRAY") { fixed(n); }
            else { index = l.var++; }
            if (arr) { l.size += len * n; }
            if (type == "FIELD_ARRAY")
            {
                const Layout in = modelFields(need(f, "fields"), family);
                s += " size=" + std::to_string(n * in.size) + " " + in.dump;
            }
        }
        l.dump += s + " @" + std::to_string(index) + ")";
    }
    l.dump = "{fixed=" + std::to_string(l.fixed) + " var=" + std::to_string(l.var) + " " + l.dump + "}";
    return l;
}
static string modelDb(const J& root)
{
    string out, family;
    if (const J* m = root.get("meta"); m != nullptr)
    {
        // (a null is taken as metadata without contents)
        if (m->k != J::OBJ && m->k != J::NUL) { throw Malformed{"meta"}; }
        const auto opt = [&](const char* key, const char* def) { return m->get(key) ? sStr(*m->get(key), key) : string(def); };
        const string subset = opt("subset", ""), version = opt("version", "0.0.0");
        family = opt("messageFamily", "");
        out += "meta " + q(subset) + " " + q(version) + " " + q(family) + "\n";
    }
    else { out += "no meta\n"; }

    const J& en = need(root, "enums");
    if (en.k != J::ARR) { throw Malformed{"enums"}; }
    std::set<string> ids;
    string enums;
    std::map<string, int> enumById, enumByName;
    int ei = 0;
    for (const J& e : en.a)
    {
        const string id = sStr(need(e, "_id"), "_id"), name = sStr(need(e, "name"), "name");
        ids.insert(id);
        enumById[id] = enumByName[name] = ei++;
        const J& vs = need(e, "enumerators");
        if (vs.k != J::ARR) { throw Malformed{"enumerators"}; }
        enums += "enum " + q(id) + " " + q(name);
        std::map<string, uint64_t> byName, byDesc;
        std::map<uint64_t, string> byValue;
        uint64_t mx = 0;
        for (const J& v : vs.a)
        {
            // (the largest 32-bit value would leave none for "unknown")
            const uint64_t val = sNum(need(v, "value"), U32 - 1, "value");
            const string n = sStr(need(v, "name"), "name"), d = sStrOrNull(need(v, "description"), "description");
            enums += " " + std::to_string(val) + "=" + q(n) + "/" + q(d);
            byName[n] = val;
            byDesc[d] = val;
            byValue[val] = n;
            mx = std::max(mx, val);
        }
        for (auto& [n, v] : byName) { enums += " n:" + q(n) + "=" + std::to_string(v); }
        for (auto& [n, v] : byDesc) { enums += " d:" + q(n) + "=" + std::to_string(v); }
        for (auto& [v, n] : byValue) { enums += " v:" + std::to_string(v) + "=" + q(n); }
        enums += " unknown=" + std::to_string(mx + 1) + "\n";
    }
    const J& ms = need(root, "messages");
    if (ms.k != J::ARR) { throw Malformed{"messages"}; }
    enumIds = &ids;
    std::map<string, int> byName;
    std::map<uint64_t, int> byId;
    int mi = 0;
    for (const J& m : ms.a)
    {
        const string id = sStr(need(m, "_id"), "_id"), name = sStr(need(m, "name"), "name"), desc = sStrOrNull(need(m, "description"), "description");
        const uint64_t num = sNum(need(m, "messageID"), U32, "messageID");
        const uint64_t crc = digits(sStr(need(m, "latestMsgDefCrc"), "crc"), U32, "crc");
        byName[name] = byId[num] = mi++;
        out += "message " + q(id) + " " + std::to_string(num) + " " + q(name) + " " + q(desc) + " latest=" + std::to_string(crc);
        const J& fs = need(m, "fields");
        if (fs.k != J::OBJ) { throw Malformed{"fields"}; }
        std::map<uint64_t, string> defs;
        for (auto& [key, val] : fs.o) { defs[digits(key, U32, "crc")] = modelFields(val, family).dump; }
        for (auto& [c, d] : defs) { out += " " + std::to_string(c) + ":" + d; }
        out += "\n";
    }
    out += enums;
    for (auto& [n, i] : byName) { out += "name " + q(n) + " -> " + std::to_string(i) + "\n"; }
    for (auto& [n, i] : byId) { out += "id " + std::to_string(n) + " -> " + std::to_string(i) + "\n"; }
    for (auto& [n, i] : enumByName) { out += "enum name " + q(n) + " -> " + std::to_string(i) + "\n"; }
    for (auto& [n, i] : enumById) { out += "enum id " + q(n) + " -> " + std::to_string(i) + "\n"; }
    return out;
}
// What must come of a text: the database, or nullopt for a failure. why receives the reason of a failure.
static std::optional<string> model(const string& t, string* why = nullptr)
{
    const auto j = Reader::read(t);
    if (!j)
    {
        if (why) { *why = "no JSON"; }
        return std::nullopt;
    }
    try
    {
        return modelDb(*j);
    }
    catch (const Malformed& m)
    {
        if (why) { *why = m.why; }
        return std::nullopt;
    }
}

// ---------------------------------------------------------------- what was loaded
static string dumpFields(const FieldInfo& fi, const MessageDatabase& db)
{
    string out = "{fixed=" + std::to_string(fi.fixedFieldBytes) + " var=" + std::to_string(fi.varFieldCount) + " ";
    for (auto& p : fi.messageOrderedFields)
    {
        const auto* rows = dynamic_cast<const FieldArrayField*>(p.get());
        const auto* arr = dynamic_cast<const ArrayField*>(p.get());
        const auto* en = dynamic_cast<const EnumField*>(p.get());
        string conv = "-";
        if (!p->conversion.empty())
        {
            conv = (p->width ? std::to_string(*p->width) : "_") + "." + (p->precision ? std::to_string(*p->precision) : "_") + " " + std::to_string(p->conversionHash) + " " +
                   (p->isString ? "str" : "") + (p->isCsv ? "csv" : "");
        }
        else if (p->width || p->precision || p->conversionHash != 0) { conv = "left over"; }
        out += string("(") + (rows ? "rows" : arr ? "array" : en ? "enum" : "base") + " " + q(p->name) + " " + string(FieldTypeToString(p->type)) + " " + q(p->description) + " " +
               q(p->conversion) + " [" + conv + "] " + string(DataTypeToString(p->dataType.name)) + " " + std::to_string(p->dataType.length) + " " + q(p->dataType.description);
        if (en)
        {
            const auto def = db.GetEnumDefId(en->enumId);
            out += " enum=" + q(en->enumId) + (en->enumDef == nullptr ? " none" : en->enumDef == def ? " found" : " other");
        }
        if (arr) { out += " n=" + std::to_string(arr->arrayLength) + " l=" + std::to_string(arr->arrayLengthFieldSize) + " ref=" + q(arr->arrayLengthRef); }
        if (rows) { out += " size=" + std::to_string(rows->fieldSize) + " " + dumpFields(*rows->fieldInfo, db); }
        out += " @" + std::to_string(p->index) + ")";
    }
    return out + "}";
}
static string dump(const MessageDatabase& db)
{
    string out;
    const auto meta = db.GetDbMetadata();
    out += meta ? "meta " + q(meta->subset) + " " + q(meta->version) + " " + q(meta->messageFamily) + "\n" : "no meta\n";
    std::map<string, int> byName, enumByName, enumById;
    std::map<uint64_t, int> byId;
    const auto at = [](const auto& list, const auto& p) {
        const auto it = std::find(list.begin(), list.end(), p);
        return it == list.end() ? -1 : static_cast<int>(it - list.begin());
    };
    for (auto& m : db.MessageDefinitions())
    {
        out += "message " + q(m->_id) + " " + std::to_string(m->logID) + " " + q(m->name) + " " + q(m->description) + " latest=" + std::to_string(m->latestMessageCrc);
        for (auto& [c, f] : std::map<uint32_t, FieldInfo::ConstPtr>(m->fieldInfo.begin(), m->fieldInfo.end())) { out += " " + std::to_string(c) + ":" + dumpFields(*f, db); }
        out += "\n";
        byName[m->name] = at(db.MessageDefinitions(), db.GetMsgDef(std::string_view(m->name)));
        byId[m->logID] = at(db.MessageDefinitions(), db.GetMsgDef(static_cast<int32_t>(m->logID)));
    }
    for (auto& e : db.EnumDefinitions())
    {
        out += "enum " + q(e->_id) + " " + q(e->name);
        for (auto& v : e->enumerators) { out += " " + std::to_string(v.value) + "=" + q(v.name) + "/" + q(v.description); }
        for (auto& [n, v] : std::map<string, uint32_t>(e->nameValue.begin(), e->nameValue.end())) { out += " n:" + q(n) + "=" + std::to_string(v); }
        for (auto& [n, v] : std::map<string, uint32_t>(e->descriptionValue.begin(), e->descriptionValue.end())) { out += " d:" + q(n) + "=" + std::to_string(v); }
        for (auto& [v, n] : std::map<uint32_t, string>(e->valueName.begin(), e->valueName.end())) { out += " v:" + std::to_string(v) + "=" + q(n); }
        out += " unknown=" + std::to_string(e->unknownValue) + "\n";
        enumByName[e->name] = at(db.EnumDefinitions(), db.GetEnumDefName(e->name));
        enumById[e->_id] = at(db.EnumDefinitions(), db.GetEnumDefId(e->_id));
    }
    for (auto& [n, i] : byName) { out += "name " + q(n) + " -> " + std::to_string(i) + "\n"; }
    for (auto& [n, i] : byId) { out += "id " + std::to_string(n) + " -> " + std::to_string(i) + "\n"; }
    for (auto& [n, i] : enumByName) { out += "enum name " + q(n) + " -> " + std::to_string(i) + "\n"; }
    for (auto& [n, i] : enumById) { out += "enum id " + q(n) + " -> " + std::to_string(i) + "\n"; }
    return out;
}
static string firstDifference(const string& a, const string& b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) { i++; }
    const size_t from = i < 60 ? 0 : i - 60;
    return "expected ..." + printable(a.substr(from, 160)) + "... loaded ..." + printable(b.substr(from, 160)) + "...";
}
// nullopt: JsonDbReaderFailure. Anything else thrown is a violation.
static std::optional<string> loadWith(const std::function<MessageDatabase::Ptr()>& f, const char* how)
{
    try
    {
        const auto db = f();
        MC_REQUIRE(db != nullptr, "null", string(how) + " returned no database and did not fail");
        return dump(*db);
    }
    catch (const JsonDbReaderFailure& e)
    {
        MC_REQUIRE(e.what() != nullptr && *e.what() != '\0', "what", string(how) + ": failure without a description");
        return std::nullopt;
    }
    catch (const Failure&)
    {
        throw;
    }
    catch (const std::exception& e)
    {
        fail("exception", string(how) + " threw another exception than JsonDbReaderFailure: " + e.what());
    }
    catch (...)
    {
        fail("exception", string(how) + " threw something else than JsonDbReaderFailure");
    }
    return std::nullopt;
}
struct ScratchFile
{
    string path;
    explicit ScratchFile(const string& t)
    {
        char n[] = "/tmp/mc17.XXXXXX";
        const int fd = mkstemp(n);
        path = n;
        size_t w = 0;
        while (w < t.size())
        {
            const ssize_t k = write(fd, t.data() + w, t.size() - w);
            if (k <= 0) { break; }
            w += static_cast<size_t>(k);
        }
        close(fd);
    }
    ~ScratchFile() { unlink(path.c_str()); }
};
static void same(const std::optional<string>& want, const string& why, const std::optional<string>& got, const char* how, const string& doc)
{
    if (want.has_value() == got.has_value() && (!want || *want == *got)) { return; }
    note("document: " + doc);
    if (!want) { fail("accepted", string(how) + " accepted a malformed document (" + why + "): " + firstDifference("", got->substr(0, 160))); }
    if (!got) { fail("refused", string(how) + " refused a well-formed document"); }
    fail("differs", string(how) + ": " + firstDifference(*want, *got));
}
static int threadsStarted();
static int threadsEnded();
static void check(const string& doc, bool file)
{
    string why;
    const auto want = model(doc, &why);
    addStates(1);
    if (want) { addTransitions(1); }
    distinct(hashStr(want ? *want : "refused: " + why));
    same(want, why, loadWith([&] { return ParseJsonDb(doc); }, "ParseJsonDb"), "ParseJsonDb", doc);
    if (file)
    {
        const ScratchFile f(doc);
        same(want, why, loadWith([&] { return LoadJsonDbFile(f.path); }, "LoadJsonDbFile"), "LoadJsonDbFile", doc);
    }
    MC_REQUIRE(threadsStarted() == threadsEnded(), "running", "a loading task was still running when the call returned");
}

// ---------------------------------------------------------------- orders of the loader's tasks
// pthread_create is interposed (the C++ runtime's threads come through here): each loading task waits for its turn.
enum Order
{
    FREE,         // as it comes
    FIRST_FIRST,  // the first task ends before the second one starts
    SECOND_FIRST, // the first task starts only after the second one has ended
};
namespace gate {
static std::mutex m;
static std::condition_variable cv;
static int order = FREE, failAt = -1, created = 0, started = 0, ended = 0;
static bool done[8];
struct Start
{
    void* (*fn)(void*);
    void* arg;
    int no;
};
static void reset(int o, int f)
{
    std::lock_guard<std::mutex> l(m);
    order = o;
    failAt = f;
    created = started = ended = 0;
    memset(done, 0, sizeof done);
}
static void* run(void* p)
{
    Start s = *static_cast<Start*>(p);
    delete static_cast<Start*>(p);
    {
        std::unique_lock<std::mutex> l(m);
        // (the limit only matters for a loader that waits for its first task before it starts the second one)
        if (order == SECOND_FIRST && s.no == 0) { cv.wait_for(l, std::chrono::milliseconds(500), [] { return done[1]; }); }
        if (order == FIRST_FIRST && s.no == 1) { cv.wait_for(l, std::chrono::milliseconds(500), [] { return done[0]; }); }
    }
    void* r = s.fn(s.arg);
    {
        std::lock_guard<std::mutex> l(m);
        if (s.no < 8) { done[s.no] = true; }
        ended++;
    }
    cv.notify_all();
    return r;
}
} // namespace gate
static int threadsStarted()
{
    std::lock_guard<std::mutex> l(gate::m);
    return gate::started;
}
static int threadsEnded()
{
    std::lock_guard<std::mutex> l(gate::m);
    return gate::ended;
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*fn)(void*), void* arg) noexcept
{
    using Fn = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
    static const Fn real = reinterpret_cast<Fn>(dlsym(RTLD_NEXT, "pthread_create"));
    int no;
    {
        std::lock_guard<std::mutex> l(gate::m);
        no = gate::created++;
        if (no == gate::failAt) { return EAGAIN; }
    }
    auto* s = new gate::Start{fn, arg, no};
    const int r = real(t, a, gate::run, s);
    if (r != 0)
    {
        delete s;
        return r;
    }
    std::lock_guard<std::mutex> l(gate::m);
    gate::started++;
    return r;
}

// ---------------------------------------------------------------- documents
static J field(const string& name, const string& type, const string& dt, int len, const J& conv, vector<std::pair<string, J>> more = {})
{
    vector<std::pair<string, J>> o = {{"name", J::str(name)},
                                      {"type", J::str(type)},
                                      {"description", J::str("d-" + name)},
                                      {"conversionString", conv},
                                      {"dataType", J::obj({{"name", J::str(dt)}, {"length", J::num(static_cast<uint64_t>(len))}, {"description", J::null()}})}};
    for (auto& m : more) { o.push_back(std::move(m)); }
    return J::obj(std::move(o));
}
static J jn(uint64_t v) { return J::num(v); }
static J js(const char* s) { return J::str(s); }
// every field kind of the format, with the sizes that matter for the layout
static vector<J> leaves()
{
    return {
        field("a", "SIMPLE", "UCHAR", 1, js("%UB")),
        field("b", "SIMPLE", "USHORT", 2, js("%u")),
        field("c", "SIMPLE", "INT", 4, js("%d")),
        field("dd", "SIMPLE", "DOUBLE", 8, js("%10.4lf")),
        field("e", "ENUM", "UINT", 4, js("%d"), {{"enumID", js("e1")}}),
        field("e8", "ENUM", "UCHAR", 1, J::null(), {{"enumID", js("nowhere")}}),
        field("fa", "FIXED_LENGTH_ARRAY", "USHORT", 2, js("%Z"), {{"arrayLength", jn(3)}}),
        field("fb", "FIXED_LENGTH_ARRAY", "CHAR", 1, js("%s"), {{"arrayLength", jn(5)}, {"arrayLengthRef", J::null()}}),
        field("va", "VARIABLE_LENGTH_ARRAY", "UCHAR", 1, js("%P"), {{"arrayLength", jn(7)}, {"arrayLengthFieldSize", jn(1)}}),
        field("vb", "VARIABLE_LENGTH_ARRAY", "DOUBLE", 8, js("%.2f"), {{"arrayLength", jn(2)}, {"arrayLengthRef", js("c")}}),
        field("s", "STRING", "CHAR", 1, js("%s"), {{"arrayLength", jn(64)}}),
        field("u", "SIMPLE", "NOSUCHTYPE", 3, js("%3u")),
    };
}
static J rows(const string& name, vector<J> fs, const J& n, vector<std::pair<string, J>> more = {})
{
    J f = field(name, "FIELD_ARRAY", "UNKNOWN", 4, J::null(), {{"arrayLength", n}, {"fields", J::arr(std::move(fs))}});
    for (auto& m : more) { f.o.push_back(std::move(m)); }
    return f;
}
static vector<J> kinds()
{
    auto v = leaves();
    v.push_back(rows("r", {v[0], v[3], v[4]}, jn(6)));
    v.push_back(rows("rr", {rows("in", {v[0], v[2]}, jn(2)), v[1], v[10]}, J::null(), {{"arrayLengthFieldSize", jn(2)}, {"arrayLengthRef", js("c")}}));
    return v;
}
static J message(const string& id, const J& num, const string& name, const string& crc, vector<std::pair<string, J>> defs)
{
    return J::obj({{"_id", J::str(id)}, {"messageID", num}, {"name", J::str(name)}, {"description", J::null()}, {"latestMsgDefCrc", J::str(crc)}, {"fields", J::obj(std::move(defs))}});
}
static J enumOf(const string& id, const string& name, vector<std::pair<uint64_t, string>> vs)
{
    vector<J> a;
    for (auto& v : vs) { a.push_back(J::obj({{"value", jn(v.first)}, {"name", J::str(v.second)}, {"description", v.second.empty() ? J::null() : J::str("d" + v.second)}})); }
    return J::obj({{"_id", J::str(id)}, {"name", J::str(name)}, {"enumerators", J::arr(a)}});
}
static J metaOf(int i)
{
    switch (i)
    {
    case 0: return J::obj({{"subset", js("sub")}, {"version", js("1.2")}, {"messageFamily", js("OEM")}});
    case 1: return J::obj({{"messageFamily", js("MC")}});
    case 2: return J::obj({{"messageFamily", js("NOBODY")}, {"version", js("9")}});
    case 3: return J::obj();
    default: return J::null();
    }
}
static J root(const J* meta, vector<J> ms, vector<J> es)
{
    J r = J::obj();
    if (meta) { r.o.emplace_back("meta", *meta); }
    r.o.emplace_back("messages", J::arr(std::move(ms)));
    r.o.emplace_back("enums", J::arr(std::move(es)));
    return r;
}
static J reference()
{
    const auto k = kinds();
    const J meta = metaOf(0);
    return root(&meta, {message("m1", jn(42), "ALPHA", "7", {{"7", J::arr({k[0], k[3], k[4], k[6], k[8], k[10]})}, {"8", J::arr({k[2]})}}), message("m2", jn(43), "BETA", "1", {{"1", J::arr({k[13]})}})},
                {enumOf("e1", "Colours", {{0, "RED"}, {5, "BLUE"}}), enumOf("e2", "None", {})});
}
// all nodes of a document
static void nodes(J& j, const string& path, vector<std::pair<string, J*>>& out)
{
    out.emplace_back(path, &j);
    if (j.k == J::ARR)
    {
        for (size_t i = 0; i < j.a.size(); i++) { nodes(j.a[i], path + "/" + std::to_string(i), out); }
    }
    if (j.k == J::OBJ)
    {
        for (auto& m : j.o) { nodes(m.second, path + "/" + m.first, out); }
    }
}
static vector<J> replacements()
{
    vector<J> v = {J::null(), J::boolean(true), J::boolean(false), J::str(""), js("x"), js("5"), js("%d"), J::arr(), J::obj(), J::arr({J::null()}), J::arr({J::obj()}), J::obj({{"x", jn(1)}}), J::obj({{"5", J::arr()}})};
    for (const char* n : {"0", "1", "-1", "-0", "1.5", "1e2", "255", "256", "300", "65535", "65536", "2147483648", "4294967294", "4294967295", "4294967296", "4294967338", "18446744073709551615"})
    {
        v.push_back(J::num(n));
    }
    return v;
}

int main(int argc, char** argv)
{
    quietLogs();
    Check ck;
    ck.id = "P17";
    ck.level = "exploration";
    ck.rule = "A document is loaded to exactly the definitions, layout and enums it describes (own JSON reader and own layout model), alike from a string and a file, in every order of the two loading tasks; any malformed document "
              "ends in JsonDbReaderFailure without a database and without a task left running.";
    ck.assumptions = {"the sandbox has no simdjson: the loader runs on this framework's stand-in for its DOM API", "duplicate keys within one object are not judged",
                      "a document whose layout exceeds 2^32 bytes is not judged", "the string flags of fields without a conversion string are not judged"};
    if (const char* t = getenv("VERIF_TIER")) { ck.tier = t; }
    const bool deep = ck.thorough();
    MessageDatabase::RegisterAlignmentFunction("OEM", novatel::edie::oem::OemAlignmentFunction);
    MessageDatabase::RegisterAlignmentFunction("MC", [](size_t len, uintptr_t, uintptr_t p) { return padOf("MC", len, p); });

    const auto oneMessage = [](const J* meta, vector<J> fs) {
        return root(meta, {message("m1", jn(42), "ALPHA", "7", {{"7", J::arr(std::move(fs))}})}, {enumOf("e1", "Colours", {{0, "RED"}, {5, "BLUE"}})});
    };

    // ---- field lists
    for (int m = 0; m < 5; m++)
    {
        ck.unit(fmtf("fields/meta%d", m), [=] {
            gate::reset(FREE, -1);
            const auto ks = kinds();
            const int n = choose(3 + (m < 2) + (deep && m == 0));
            vector<J> fs;
            for (int i = 0; i < n; i++) { fs.push_back(ks[static_cast<size_t>(choose(static_cast<int>(ks.size())))]); }
            const J meta = metaOf(m);
            const int how = m == 4 ? choose(2) : 1; // a null, or no metadata at all
            check(text(oneMessage(how ? &meta : nullptr, fs)), fs.size() < 2);
        });
    }
    for (int m = 0; m < 2; m++)
    {
        ck.unit(fmtf("rows/meta%d", m), [=] {
            gate::reset(FREE, -1);
            const auto ks = leaves();
            const size_t L = ks.size();
            vector<J> in, fs;
            const int before = choose(3);
            if (before) { fs.push_back(ks[before == 1 ? 0 : 10]); }
            const int n = choose(deep ? 4 : 3);
            for (int i = 0; i < n; i++) { in.push_back(ks[static_cast<size_t>(choose(static_cast<int>(L)))]); }
            J r = rows("r", in, choose(2) ? jn(3) : J::null());
            if (choose(2)) { r = rows("outer", {ks[0], r, ks[2]}, jn(2)); }
            fs.push_back(r);
            fs.push_back(ks[3]);
            const J meta = metaOf(m);
            check(text(oneMessage(&meta, fs)), false);
        });
    }
    // ---- several messages, enums and definitions
    ck.unit("several", [=] {
        gate::reset(FREE, -1);
        const auto ks = kinds();
        vector<J> ms, es;
        const int n = choose(deep ? 4 : 3);
        for (int i = 0; i < n; i++)
        {
            vector<std::pair<string, J>> defs;
            const int d = choose(i == 0 ? 3 : 2);
            if (d > 0) { defs.emplace_back("7", J::arr({ks[4]})); }
            if (d > 1) { defs.emplace_back("4294967295", J::arr({ks[12], ks[0]})); }
            ms.push_back(message("m" + std::to_string(i), jn(static_cast<uint64_t>(40 + choose(i + 1))), string("N") + static_cast<char>('A' + choose(i + 1)), i == 1 ? "4294967295" : "7", defs));
        }
        const int e = choose(deep ? 4 : 3);
        for (int i = 0; i < e; i++)
        {
            es.push_back(enumOf("e" + std::to_string(choose(i + 1)), string("E") + static_cast<char>('A' + choose(i + 1)), i == 0 ? vector<std::pair<uint64_t, string>>{{1, "ONE"}} : i == 1 ? vector<std::pair<uint64_t, string>>{} : vector<std::pair<uint64_t, string>>{{3, "X"}, {3, "Y"}, {4, "X"}, {9, ""}}));
        }
        check(text(root(nullptr, ms, es)), n == 2);
    });
    // ---- conversion strings: every string up to a length over the characters that matter
    ck.unit("conversions", [=] {
        gate::reset(FREE, -1);
        static const char AL[] = "%.03d5sZ- ";
        const int n = choose(deep ? 7 : 5);
        string c;
        for (int i = 0; i < n; i++) { c += AL[i == 0 ? (choose(2) ? 0 : 4) : choose(10)]; }
        static const vector<string> types = {"SIMPLE", "STRING"};
        const string type = types[static_cast<size_t>(n < 4 ? choose(2) : 0)];
        J f = field("f", type, "CHAR", 1, J::str(c), {});
        if (type == "STRING") { f.o.emplace_back("arrayLength", jn(4)); }
        check(text(oneMessage(nullptr, {f})), false);
    });
    ck.unit("conversion numbers", [=] {
        gate::reset(FREE, -1);
        static const char* NUMS[] = {"", "0", "1", "9", "10", "00", "01", "010", "007", "2147483647", "2147483648", "4294967297", "99999999999999999999"};
        const string w = NUMS[choose(13)], p = NUMS[choose(13)];
        const bool dot = choose(2);
        if (!dot && !p.empty()) { return; }
        check(text(oneMessage(nullptr, {field("f", "SIMPLE", "DOUBLE", 8, J::str("%" + w + (dot ? "." : "") + p + "lf"))})), false);
    });
    // ---- every number and CRC at its limits
    ck.unit("numbers", [=] {
        gate::reset(FREE, -1);
        static const char* NUMS[] = {"0", "1", "-0", "-1", "127", "128", "255", "256", "257", "32767", "65535", "65536", "65537", "2147483647", "2147483648", "4294967294", "4294967295", "4294967296", "4294967297",
                                     "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "1.0", "1e0", "01", "+1", "0x1", "\"1\"", "null", "true"};
        J doc = reference();
        vector<std::pair<string, J*>> all;
        nodes(doc, "", all);
        vector<std::pair<string, J*>> nums;
        for (auto& n : all)
        {
            if (n.second->k == J::NUM) { nums.push_back(n); }
        }
        auto& n = nums[static_cast<size_t>(choose(static_cast<int>(nums.size())))];
        const string v = NUMS[choose(31)];
        // (sizes that leave 32 bits are not judged)
        const bool isLength = n.first.find("rrayLength") != string::npos && n.first.find("FieldSize") == string::npos;
        if (isLength && v.size() > 5 && v.size() < 11) { return; }
        note(n.first + " = " + v);
        *n.second = J::num(v);
        check(text(doc), true);
    });
    ck.unit("crcs", [=] {
        gate::reset(FREE, -1);
        static const char* CRCS[] = {"0", "1", "007", "4294967295", "4294967296", "4294967303", "18446744073709551615", "18446744073709551616", "99999999999999999999999", "", " 7", "7 ", "+7", "-7", "-1", "0x7", "7x", "x7", "7.0", "7e1", "7,8"};
        J doc = reference();
        J& m = doc.o[1].second.a[0];
        const string v = CRCS[choose(21)];
        note(v);
        if (choose(2)) { m.o[4].second = J::str(v); }
        else { m.o[5].second.o[1].first = v; }
        check(text(doc), true);
    });
    // ---- every structural change of a reference document
    const int nodesOfReference = [] {
        J d = reference();
        vector<std::pair<string, J*>> v;
        nodes(d, "", v);
        return static_cast<int>(v.size());
    }();
    const auto change = [](J& doc, int at, int what, const J* with) {
        vector<std::pair<string, J*>> all;
        nodes(doc, "", all);
        J& n = *all[static_cast<size_t>(at)].second;
        note(all[static_cast<size_t>(at)].first);
        switch (what)
        {
        case 0: n = *with; break;
        case 1: // one member or element gone
        {
            const size_t k = n.k == J::ARR ? n.a.size() : n.k == J::OBJ ? n.o.size() : 0;
            if (k == 0) { return false; }
            const auto i = static_cast<std::ptrdiff_t>(choose(static_cast<int>(k)));
            if (n.k == J::ARR) { n.a.erase(n.a.begin() + i); }
            else { n.o.erase(n.o.begin() + i); }
            break;
        }
        case 2: // a key renamed
        {
            if (n.k != J::OBJ || n.o.empty()) { return false; }
            auto& m = n.o[static_cast<size_t>(choose(static_cast<int>(n.o.size())))];
            switch (choose(4))
            {
            case 0: m.first += "x"; break;
            case 1: m.first = ""; break;
            case 2: m.first[0] = static_cast<char>(m.first[0] ^ 32); break;
            default: m.first.pop_back(); break;
            }
            break;
        }
        case 3: // an additional member that nobody reads
            if (n.k != J::OBJ) { return false; }
            if (all[static_cast<size_t>(at)].first.find("/fields") + 7 == all[static_cast<size_t>(at)].first.size()) { return false; } // (there it would be a definition)
            n.o.insert(n.o.begin() + choose(2) * static_cast<std::ptrdiff_t>(n.o.size()), {"zusatz", choose(2) ? J::obj({{"name", J::null()}}) : J::num("1.5")});
            break;
        case 4: // elements doubled or in the reverse order
            if (n.k != J::ARR || n.a.empty()) { return false; }
            if (choose(2)) { n.a.push_back(n.a[0]); }
            else { std::reverse(n.a.begin(), n.a.end()); }
            break;
        default: // one value behind one more level
            n = choose(2) ? J::arr({n}) : J::obj({{"value", n}});
        }
        return true;
    };
    for (int part = 0; part < 16; part++)
    {
        ck.unit(fmtf("changes/%d", part), [=] {
            gate::reset(FREE, -1);
            J doc = reference();
            const int share = (nodesOfReference + 15) / 16;
            const int at = part * share + choose(std::min(share, nodesOfReference - part * share));
            const auto reps = replacements();
            const int what = choose(6);
            const J* with = what == 0 ? &reps[static_cast<size_t>(choose(static_cast<int>(reps.size())))] : nullptr;
            if (with)
            {
                vector<std::pair<string, J*>> all;
                nodes(doc, "", all);
                const string& p = all[static_cast<size_t>(at)].first;
                const bool isLength = p.size() > 11 && p.compare(p.size() - 11, 11, "arrayLength") == 0;
                if (isLength && with->k == J::NUM && with->s.size() > 5) { return; } // (sizes that leave 32 bits are not judged)
            }
            if (!change(doc, at, what, with)) { return; }
            check(text(doc), choose(2) == 1);
        });
    }
    if (deep)
    {
        // two of the changes at once
        for (int part = 0; part < 16; part++)
        {
            ck.unit(fmtf("two changes/%d", part), [=] {
                gate::reset(FREE, -1);
                const auto ks = kinds();
                const J meta = metaOf(0);
                J doc = root(&meta, {message("m1", jn(42), "ALPHA", "7", {{"7", J::arr({ks[0], ks[4], ks[8], rows("r", {ks[2]}, jn(2))})}})}, {enumOf("e1", "Colours", {{5, "BLUE"}})});
                static const vector<J> reps = {J::null(), js("x"), jn(3), J::arr(), J::obj()};
                vector<std::pair<string, J*>> all;
                nodes(doc, "", all);
                const int n = static_cast<int>(all.size());
                const int share = (n + 15) / 16;
                if (part * share >= n) { return; }
                const int a = part * share + choose(std::min(share, n - part * share));
                const int b = choose(n);
                if (b <= a) { return; }
                const J& ra = reps[static_cast<size_t>(choose(5))];
                const J& rb = reps[static_cast<size_t>(choose(5))];
                note(all[static_cast<size_t>(a)].first + " and " + all[static_cast<size_t>(b)].first);
                // the later one first: it may lie within the earlier one, which then replaces it
                *all[static_cast<size_t>(b)].second = rb;
                *all[static_cast<size_t>(a)].second = ra;
                check(text(doc), false);
            });
        }
    }
    // ---- order of the members
    ck.unit("member order", [=] {
        gate::reset(FREE, -1);
        J doc = reference();
        const auto want = model(text(doc));
        vector<std::pair<string, J*>> all, objs;
        nodes(doc, "", all);
        for (auto& n : all)
        {
            if (n.second->k == J::OBJ && n.second->o.size() > 1) { objs.push_back(n); }
        }
        auto& o = objs[static_cast<size_t>(choose(static_cast<int>(objs.size())))];
        note(o.first);
        vector<std::pair<string, J>> left = o.second->o, perm;
        const size_t full = left.size() <= (deep ? 6u : 4u) ? left.size() : deep ? 3 : 2; // the first three of larger ones, then the rest reversed or not
        for (size_t i = 0; i < full; i++)
        {
            const int c = choose(static_cast<int>(left.size()));
            perm.push_back(left[static_cast<size_t>(c)]);
            left.erase(left.begin() + c);
        }
        if (left.size() > 1 && choose(2)) { std::reverse(left.begin(), left.end()); }
        for (auto& l : left) { perm.push_back(l); }
        o.second->o = perm;
        const string t = text(doc);
        const auto now_ = model(t);
        MC_REQUIRE(want && now_ && *want == *now_, "harness", "the specification depends on the member order");
        check(t, false);
    });
    // ---- texts
    const string refText = text([&] {
        const auto k = kinds();
        const J meta = metaOf(0);
        return root(&meta, {message("m1", jn(42), "ALPHA", "7", {{"7", J::arr({k[0], k[4], rows("r", {k[8]}, jn(2))})}})}, {enumOf("e1", "Colours", {{5, "BLUE"}})});
    }());
    const int L = static_cast<int>(refText.size());
    ck.unit("text/truncated", [=] {
        gate::reset(FREE, -1);
        check(refText.substr(0, static_cast<size_t>(choose(L + 1))), choose(2) == 1);
    });
    ck.unit("text/tail", [=] {
        gate::reset(FREE, -1);
        check(refText.substr(static_cast<size_t>(choose(L))), false);
    });
    ck.unit("text/one byte gone", [=] {
        gate::reset(FREE, -1);
        string t = refText;
        t.erase(static_cast<size_t>(choose(L)), static_cast<size_t>(1 + choose(3)));
        check(t, false);
    });
    for (int part = 0; part < 4; part++)
    {
        ck.unit(fmtf("text/one byte else/%d", part), [=] {
            gate::reset(FREE, -1);
            static const char AL[] = "{}[],:\"\\ \n0-9.eEtnx\x01\x7F\x80\xFF"
                                     "\0";
            string t = refText;
            const int share = (L + 3) / 4;
            const auto at = static_cast<size_t>(part * share + choose(std::min(share, L - part * share)));
            const char c = AL[choose(25)];
            if (choose(2)) { t[at] = c; }
            else { t.insert(t.begin() + static_cast<std::ptrdiff_t>(at), c); }
            if (c == '\x7F') { return; } // (allowed unescaped in JSON; not told apart here)
            check(t, false);
        });
    }
    ck.unit("text/around", [=] {
        gate::reset(FREE, -1);
        static const char* PRE[] = {"", " ", "\r\n\t", "\xEF\xBB\xBF", "x", "{}", "null", ","};
        static const char* POST[] = {"", " \n", "x", "{}", "]", "}", ",", "\""};
        const int p = choose(8);
        if (p == 3) { return; } // (a byte order mark is up to the JSON library)
        check(PRE[p] + refText + POST[choose(8)], true);
    });
    ck.unit("text/small", [=] {
        gate::reset(FREE, -1);
        static const char* T[] = {"", " ", "{}", "[]", "null", "0", "\"x\"", "{\"messages\":[]}", "{\"enums\":[]}", "{\"messages\":[],\"enums\":[]}", "{\"messages\":{},\"enums\":[]}", "{\"messages\":[],\"enums\":{}}", "[{\"messages\":[],\"enums\":[]}]",
                                  "{\"messages\":[null],\"enums\":[]}", "{\"messages\":[],\"enums\":[null]}", "{\"messages\":null,\"enums\":null}", "{\"meta\":null,\"messages\":[],\"enums\":[]}"};
        check(T[choose(17)], true);
    });
    ck.unit("nesting", [=] {
        gate::reset(FREE, -1);
        const auto ks = leaves();
        const int depth = 1 + choose(deep ? 40 : 16);
        J f = ks[static_cast<size_t>(choose(3))];
        for (int i = 0; i < depth; i++) { f = rows("r" + std::to_string(i), {ks[0], f}, jn(static_cast<uint64_t>(1 + (i == 0)))); }
        const J meta = metaOf(0);
        check(text(oneMessage(&meta, {f})), true);
    });
    // ---- files
    ck.unit("files", [=] {
        gate::reset(FREE, -1);
        const ScratchFile f(refText);
        string path;
        bool ok = false;
        switch (choose(8))
        {
        case 0: path = f.path + ".missing"; break;
        case 1: path = ""; break;
        case 2: path = "/tmp"; break;
        case 3: path = f.path + "/below"; break;
        case 4: path = "/tmp/" + string(300, 'n'); break;
        case 5: path = "/dev/null"; break;
        case 6: path = "/tmp/no/such/directory/db.json"; break;
        default:
            path = f.path;
            ok = true;
        }
        note(path);
        const auto got = loadWith([&] { return LoadJsonDbFile(path); }, "LoadJsonDbFile");
        MC_REQUIRE(got.has_value() == ok, "file", "LoadJsonDbFile on " + path + (ok ? " failed" : " did not fail"));
        if (ok) { MC_REQUIRE(got == model(refText), "differs", "LoadJsonDbFile: " + firstDifference(*model(refText), *got)); }
        addStates(1);
        distinct(hashStr(path == f.path ? "ok" : path));
    });
    // ---- task orders and refused threads
    ck.unit("task orders", [=] {
        const int order = choose(3), bad = choose(4), failAt = choose(3) - 1;
        J doc = reference();
        if (bad & 1) { doc.o[1].second.a[1].o.erase(doc.o[1].second.a[1].o.begin() + 2); } // the last message has no name
        if (bad & 2) { doc.o[2].second.a[1].o.erase(doc.o[2].second.a[1].o.begin() + 1); } // the last enum has no name
        note(fmtf("order %d bad %d refused thread %d", order, bad, failAt));
        const string t = text(doc);
        const bool file = choose(2);
        const ScratchFile f(t);
        string why;
        auto want = model(t, &why);
        gate::reset(order, failAt);
        const auto got = file ? loadWith([&] { return LoadJsonDbFile(f.path); }, "LoadJsonDbFile") : loadWith([&] { return ParseJsonDb(t); }, "ParseJsonDb");
        const int made = gate::created;
        MC_REQUIRE(threadsStarted() == threadsEnded(), "running", "a loading task was still running when the call returned");
        // a refused thread may be made up for, or end in the failure
        if (failAt >= 0 && failAt < made && !got) { want = std::nullopt; }
        addStates(1);
        addTransitions(static_cast<uint64_t>(made));
        distinct(hashStr(fmtf("%d/%d/%d/%d/%d", order, bad, failAt, made, got.has_value())));
        same(want, why, got, file ? "LoadJsonDbFile" : "ParseJsonDb", t);
        // and the loader still works afterwards
        gate::reset(FREE, -1);
        same(model(refText), "", loadWith([&] { return ParseJsonDb(refText); }, "ParseJsonDb"), "ParseJsonDb after it", refText);
    });
    // ---- one load does not depend on the loads before it
    ck.unit("histories", [=] {
        gate::reset(FREE, -1);
        static const vector<string> docs = [&] {
            const auto k = kinds();
            vector<string> v;
            for (int m = 0; m < 3; m++)
            {
                const J meta = metaOf(m);
                v.push_back(text(oneMessage(&meta, {k[0], k[3], k[static_cast<size_t>(4 + m)]})));
            }
            v.push_back(text(root(nullptr, {}, {})));
            v.push_back(refText.substr(0, refText.size() - 3));
            v.push_back(refText);
            return v;
        }();
        vector<std::pair<MessageDatabase::Ptr, string>> held;
        const int n = 1 + choose(deep ? 4 : 3);
        for (int i = 0; i < n; i++)
        {
            const string& d = docs[static_cast<size_t>(choose(6))];
            const auto want = model(d);
            try
            {
                held.emplace_back(ParseJsonDb(d), want ? *want : "refused");
            }
            catch (const JsonDbReaderFailure&)
            {
                MC_REQUIRE(!want, "refused", "ParseJsonDb refused a well-formed document");
            }
            for (auto& h : held)
            {
                const string now_ = dump(*h.first);
                MC_REQUIRE(now_ == h.second, "differs", firstDifference(h.second, now_));
            }
            addStates(1);
        }
        distinct(static_cast<uint64_t>(held.size()));
    });
    return runCheck(ck, argc, argv);
}
