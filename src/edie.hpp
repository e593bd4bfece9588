// A small message database and message builders shared by the explorers that link the whole library.
#pragma once
#include "build.hpp"
#include "mc.hpp"

#include <memory>

#include "novatel_edie/common/logger.hpp"
#include "novatel_edie/decoders/common/json_db_reader.hpp"
#include "novatel_edie/decoders/common/message_database.hpp"

namespace ed {
using namespace novatel::edie;

inline void quietLogs()
{
    GetBaseLoggerManager()->RegisterLogger("explorer"); // create the root logger first: it would reset the level otherwise
    spdlog::set_level(spdlog::level::off);
    spdlog::apply_all([](std::shared_ptr<spdlog::logger> l) { l->set_level(spdlog::level::off); });
}

// ---------------------------------------------------------------- JSON text of definitions
struct F
{
    std::string name, type, dt;
    int len = 0;
    std::string conv;        // "" = null
    std::string enumId;      // ENUM
    int arrayLength = -1;    // arrays and strings
    int lenField = -1;       // arrayLengthFieldSize, -1 = absent
    std::string ref;         // arrayLengthRef
    std::vector<F> fields;   // FIELD_ARRAY
};
inline std::string q(const std::string& s) { return mc::jsonStr(s); }
inline std::string fieldsJson(const std::vector<F>& v);
inline std::string fieldJson(const F& f)
{
    std::string s = "{\"name\":" + q(f.name) + ",\"description\":\"d\",\"type\":" + q(f.type);
    s += ",\"conversionString\":" + (f.conv.empty() ? std::string("null") : q(f.conv));
    s += ",\"dataType\":{\"name\":" + q(f.dt) + ",\"length\":" + std::to_string(f.len) + ",\"description\":null}";
    if (f.type == "ENUM") { s += ",\"enumID\":" + q(f.enumId); }
    if (f.arrayLength >= 0) { s += ",\"arrayLength\":" + std::to_string(f.arrayLength); }
    if (f.lenField >= 0) { s += ",\"arrayLengthFieldSize\":" + std::to_string(f.lenField); }
    if (!f.ref.empty()) { s += ",\"arrayLengthRef\":" + q(f.ref); }
    if (f.type == "FIELD_ARRAY") { s += ",\"fields\":" + fieldsJson(f.fields); }
    return s + "}";
}
inline std::string fieldsJson(const std::vector<F>& v)
{
    std::string s = "[";
    for (size_t i = 0; i < v.size(); i++) { s += (i ? "," : "") + fieldJson(v[i]); }
    return s + "]";
}
struct M
{
    uint32_t id;
    std::string name;
    std::vector<F> fields;
    uint32_t crc = 0x1234;
    std::vector<std::pair<uint32_t, std::vector<F>>> more; // further definitions by CRC
};
inline std::string messageJson(const M& m)
{
    std::string s = "{\"_id\":" + q("m" + std::to_string(m.id)) + ",\"messageID\":" + std::to_string(m.id) + ",\"name\":" + q(m.name) +
                    ",\"description\":\"d\",\"latestMsgDefCrc\":\"" + std::to_string(m.crc) + "\",\"fields\":{\"" + std::to_string(m.crc) +
                    "\":" + fieldsJson(m.fields);
    for (auto& x : m.more) { s += ",\"" + std::to_string(x.first) + "\":" + fieldsJson(x.second); }
    return s + "}}";
}
struct E
{
    std::string id, name;
    std::vector<std::pair<uint32_t, std::string>> values;
    std::vector<std::string> desc;
};
inline std::string enumJson(const E& e)
{
    std::string s = "{\"_id\":" + q(e.id) + ",\"name\":" + q(e.name) + ",\"enumerators\":[";
    for (size_t i = 0; i < e.values.size(); i++)
    {
        s += (i ? "," : "") + std::string("{\"value\":") + std::to_string(e.values[i].first) + ",\"name\":" + q(e.values[i].second) +
             ",\"description\":" + q(i < e.desc.size() ? e.desc[i] : e.values[i].second) + "}";
    }
    return s + "]}";
}
inline std::string dbJson(const std::vector<M>& ms, const std::vector<E>& es, const std::string& family = "OEM")
{
    std::string s = "{\"meta\":{\"subset\":\"mc\",\"version\":\"1.2.3\",\"messageFamily\":" + q(family) + "},\"messages\":[";
    for (size_t i = 0; i < ms.size(); i++) { s += (i ? "," : "") + messageJson(ms[i]); }
    s += "],\"enums\":[";
    for (size_t i = 0; i < es.size(); i++) { s += (i ? "," : "") + enumJson(es[i]); }
    return s + "]}";
}

inline const std::vector<E>& stdEnums()
{
    static const std::vector<E> v = {
        {"e-resp", "Responses", {{1, "OK"}, {4, "INVALID_MESSAGE_ID"}, {5, "INVALID_MESSAGE_FIELD"}, {6, "CHECKSUM"}}, {"OK", "Invalid Message. Field = %d", "Message invalid, bad field", "Checksum"}},
        {"e-cmd", "Commands", {{1, "LOG"}, {4, "FIX"}, {20, "UNLOG"}}, {}},
        {"e-port",
         "PortAddress",
         {{0, "NO_PORTS"}, {1, "COM1_ALL"}, {2, "COM2_ALL"}, {6, "THISPORT_ALL"}, {8, "ALL_PORTS"}, {32, "COM1"}, {33, "COM1_1"}, {63, "COM1_31"}, {64, "COM2"}, {65, "COM2_1"}, {160, "SPECIAL"}, {192, "THISPORT"}, {223, "THISPORT_31"}, {224, "FILE"}, {255, "FILE_31"}, {1440, "USB1"}, {1696, "USB2"}},
         {}},
        {"e-time",
         "GPSTimeStatus",
         {{20, "UNKNOWN"}, {60, "APPROXIMATE"}, {80, "COARSEADJUSTING"}, {100, "COARSE"}, {120, "COARSESTEERING"}, {130, "FREEWHEELING"}, {140, "FINEADJUSTING"}, {160, "FINE"}, {170, "FINEBACKUPSTEERING"}, {180, "FINESTEERING"}, {200, "SATTIME"}, {210, "EXTERN"}, {220, "EXACT"}},
         {}},
        {"e-sol", "SolStatus", {{0, "SOL_COMPUTED"}, {1, "INSUFFICIENT_OBS"}, {2, "NO_CONVERGENCE"}, {7, "VARIANCE"}, {200, "HIGH_VALUE"}}, {}},
    };
    return v;
}

inline MessageDatabase::Ptr makeDb(const std::vector<M>& ms, const std::string& family = "OEM") { return ParseJsonDb(dbJson(ms, stdEnums(), family)); }

// ---------------------------------------------------------------- headers
// "#NAMEA,COM1,0,40.0,FINESTEERING,2000,123.456,02000000,1234,12816;"
inline std::string asciiHeader(const std::string& name, const std::string& port = "COM1", int seq = 0, const std::string& idle = "40.0",
                               const std::string& tstat = "FINESTEERING", int week = 2000, const std::string& sec = "123.456",
                               const std::string& stat = "02000000", const std::string& crc = "1234", int sw = 12816)
{
    return name + "," + port + "," + std::to_string(seq) + "," + idle + "," + tstat + "," + std::to_string(week) + "," + sec + "," + stat + "," + crc + "," +
           std::to_string(sw) + ";";
}
inline std::string shortAsciiHeader(const std::string& name, int week = 2000, const std::string& sec = "123.456")
{
    return name + "," + std::to_string(week) + "," + sec + ";";
}
inline std::string abbHeader(const std::string& name, const std::string& port = "COM1", int seq = 0, const std::string& idle = "40.0",
                             const std::string& tstat = "FINESTEERING", int week = 2000, const std::string& sec = "123.456",
                             const std::string& stat = "02000000", const std::string& crc = "1234", int sw = 12816)
{
    return "<" + name + " " + port + " " + std::to_string(seq) + " " + idle + " " + tstat + " " + std::to_string(week) + " " + sec + " " + stat + " " + crc +
           " " + std::to_string(sw) + "\r\n";
}
inline std::string shortAbbHeader(const std::string& name, int week = 2000, const std::string& sec = "123.456")
{
    return "<" + name + " " + std::to_string(week) + " " + sec + "\r\n";
}
inline std::string jsonHeader(uint32_t id, const std::string& name, const std::string& port = "COM1", int seq = 0, const std::string& idle = "40.0",
                              const std::string& tstat = "FINESTEERING", int week = 2000, const std::string& sec = "123.456", uint32_t stat = 33554432,
                              uint32_t crc = 4660, int sw = 12816)
{
    return "{\"message\":" + q(name) + ",\"id\":" + std::to_string(id) + ",\"port\":" + q(port) + ",\"sequence_num\":" + std::to_string(seq) +
           ",\"percent_idle_time\":" + idle + ",\"time_status\":" + q(tstat) + ",\"week\":" + std::to_string(week) + ",\"seconds\":" + sec +
           ",\"receiver_status\":" + std::to_string(stat) + ",\"HEADER_reserved1\":" + std::to_string(crc) + ",\"receiver_sw_version\":" + std::to_string(sw) +
           "}";
}

// a NUL-terminated copy that ends exactly at the end of its heap block
struct Exact
{
    std::unique_ptr<unsigned char[]> p;
    size_t n;
    explicit Exact(std::string_view s) : p(new unsigned char[s.size() + 1]), n(s.size())
    {
        memcpy(p.get(), s.data(), s.size());
        p[s.size()] = 0;
    }
    unsigned char* get() const { return p.get(); }
};
} // namespace ed
