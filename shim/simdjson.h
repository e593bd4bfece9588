// Offline stand-in for simdjson's DOM API (simdjson is not installed in the sandbox).
// It implements the part of the API that novatel_edie uses, with simdjson's documented
// semantics: strict RFC 8259 grammar, no trailing content, UTF-8 validation, tagged
// integers (INT64 / UINT64 / DOUBLE), strict get<T>() conversions, errors by value.
#pragma once
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <limits>
#include <memory>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <utility>
#include <vector>

namespace simdjson {

enum error_code
{
    SUCCESS = 0,
    CAPACITY,
    MEMALLOC,
    TAPE_ERROR,
    DEPTH_ERROR,
    STRING_ERROR,
    T_ATOM_ERROR,
    F_ATOM_ERROR,
    N_ATOM_ERROR,
    NUMBER_ERROR,
    BIGINT_ERROR,
    UTF8_ERROR,
    UNINITIALIZED,
    EMPTY,
    UNESCAPED_CHARS,
    UNCLOSED_STRING,
    UNSUPPORTED_ARCHITECTURE,
    INCORRECT_TYPE,
    NUMBER_OUT_OF_RANGE,
    INDEX_OUT_OF_BOUNDS,
    NO_SUCH_FIELD,
    IO_ERROR,
    INVALID_JSON_POINTER,
    INVALID_URI_FRAGMENT,
    UNEXPECTED_ERROR,
    PARSER_IN_USE,
    OUT_OF_ORDER_ITERATION,
    INSUFFICIENT_PADDING,
    INCOMPLETE_ARRAY_OR_OBJECT,
    SCALAR_DOCUMENT_AS_VALUE,
    OUT_OF_BOUNDS,
    TRAILING_CONTENT,
    NUM_ERROR_CODES
};

inline const char* error_message(error_code e) noexcept
{
    switch (e)
    {
    case SUCCESS: return "No error";
    case INCORRECT_TYPE: return "The JSON element does not have the requested type.";
    case NO_SUCH_FIELD: return "The JSON field referenced does not exist in this object.";
    case IO_ERROR: return "Error reading the file.";
    case EMPTY: return "Empty: no JSON found";
    case UTF8_ERROR: return "The input is not valid UTF-8";
    case NUMBER_ERROR: return "Problem while parsing a number";
    case STRING_ERROR: return "Problem while parsing a string";
    case NUMBER_OUT_OF_RANGE: return "The JSON number is too large or too small to fit within the requested type.";
    case TRAILING_CONTENT: return "Unexpected trailing content in the JSON input.";
    default: return "JSON error";
    }
}
inline std::ostream& operator<<(std::ostream& o, error_code e) { return o << error_message(e); }

struct simdjson_error : public std::exception
{
    explicit simdjson_error(error_code e) : code(e) {}
    const char* what() const noexcept override { return error_message(code); }
    error_code error() const noexcept { return code; }
    error_code code;
};

constexpr size_t SIMDJSON_PADDING = 64;

template <typename T> struct simdjson_result
{
    T first{};
    error_code second{UNINITIALIZED};
    simdjson_result() = default;
    simdjson_result(T&& v) : first(std::move(v)), second(SUCCESS) {}
    simdjson_result(const T& v) : first(v), second(SUCCESS) {}
    simdjson_result(error_code e) : second(e) {}
    error_code error() const noexcept { return second; }
    error_code get(T& out) &&
    {
        if (second == SUCCESS) { out = std::move(first); }
        return second;
    }
    error_code get(T& out) &
    {
        if (second == SUCCESS) { out = std::move(first); }
        return second;
    }
    T& value() &
    {
        if (second) { throw simdjson_error(second); }
        return first;
    }
    T&& value() &&
    {
        if (second) { throw simdjson_error(second); }
        return std::move(first);
    }
    operator T&&() && { return std::move(*this).value(); }
};

class padded_string
{
  public:
    padded_string() = default;
    explicit padded_string(std::string_view s) : d(s) {}
    padded_string(const char* p, size_t n) : d(p, n) {}
    padded_string(const std::string& s) : d(s) {}
    padded_string(const padded_string&) = delete;
    padded_string& operator=(const padded_string&) = delete;
    padded_string(padded_string&&) = default;
    padded_string& operator=(padded_string&&) = default;
    size_t size() const { return d.size(); }
    size_t length() const { return d.size(); }
    const char* data() const { return d.data(); }
    char* data() { return d.data(); }
    operator std::string_view() const { return d; }
    static simdjson_result<padded_string> load(std::string_view path)
    {
        std::ifstream f{std::string(path), std::ios::binary};
        if (!f) { return IO_ERROR; }
        std::stringstream ss;
        ss << f.rdbuf();
        if (f.bad()) { return IO_ERROR; }
        return padded_string(ss.str());
    }

  private:
    std::string d;
};

namespace dom {

enum class element_type
{
    ARRAY = '[',
    OBJECT = '{',
    INT64 = 'l',
    UINT64 = 'u',
    DOUBLE = 'd',
    STRING = '"',
    BOOL = 't',
    NULL_VALUE = 'n'
};

namespace detail {
struct node
{
    element_type type = element_type::NULL_VALUE;
    int64_t i = 0;
    uint64_t u = 0;
    double d = 0;
    bool b = false;
    std::string s;
    std::vector<node> a;
    std::vector<std::pair<std::string, node>> o;
};
} // namespace detail

class array;
class object;
class element;
} // namespace dom

template <> struct simdjson_result<dom::element>;

namespace dom {

class element
{
  public:
    element() = default;
    explicit element(const detail::node* p_) : p(p_) {}
    element_type type() const { return p->type; }
    bool is_null() const { return p->type == element_type::NULL_VALUE; }
    bool is_string() const { return p->type == element_type::STRING; }
    bool is_array() const { return p->type == element_type::ARRAY; }
    bool is_object() const { return p->type == element_type::OBJECT; }
    bool is_bool() const { return p->type == element_type::BOOL; }
    bool is_double() const { return p->type == element_type::DOUBLE; }
    bool is_int64() const { return p->type == element_type::INT64; }
    bool is_uint64() const { return p->type == element_type::UINT64 || (p->type == element_type::INT64 && p->i >= 0); }
    bool is_number() const { return is_double() || is_int64() || is_uint64(); }

    error_code get(int64_t& out) const
    {
        if (p->type == element_type::INT64)
        {
            out = p->i;
            return SUCCESS;
        }
        return p->type == element_type::UINT64 ? NUMBER_OUT_OF_RANGE : INCORRECT_TYPE;
    }
    error_code get(uint64_t& out) const
    {
        if (p->type == element_type::UINT64)
        {
            out = p->u;
            return SUCCESS;
        }
        if (p->type == element_type::INT64)
        {
            if (p->i < 0) { return NUMBER_OUT_OF_RANGE; }
            out = static_cast<uint64_t>(p->i);
            return SUCCESS;
        }
        return INCORRECT_TYPE;
    }
    error_code get(double& out) const
    {
        switch (p->type)
        {
        case element_type::DOUBLE: out = p->d; return SUCCESS;
        case element_type::INT64: out = static_cast<double>(p->i); return SUCCESS;
        case element_type::UINT64: out = static_cast<double>(p->u); return SUCCESS;
        default: return INCORRECT_TYPE;
        }
    }
    error_code get(bool& out) const
    {
        if (p->type != element_type::BOOL) { return INCORRECT_TYPE; }
        out = p->b;
        return SUCCESS;
    }
    error_code get(std::string_view& out) const
    {
        if (p->type != element_type::STRING) { return INCORRECT_TYPE; }
        out = p->s;
        return SUCCESS;
    }
    error_code get(const char*& out) const
    {
        if (p->type != element_type::STRING) { return INCORRECT_TYPE; }
        out = p->s.c_str();
        return SUCCESS;
    }
    error_code get(element& out) const
    {
        out = *this;
        return SUCCESS;
    }
    inline error_code get(array& out) const;
    inline error_code get(object& out) const;
    template <typename T> simdjson_result<T> get() const
    {
        T t{};
        error_code e = get(t);
        if (e) { return e; }
        return t;
    }
    template <typename T> bool is() const
    {
        T t{};
        return get(t) == SUCCESS;
    }
    inline simdjson_result<array> get_array() const;
    inline simdjson_result<object> get_object() const;
    simdjson_result<std::string_view> get_string() const { return get<std::string_view>(); }
    simdjson_result<int64_t> get_int64() const { return get<int64_t>(); }
    simdjson_result<uint64_t> get_uint64() const { return get<uint64_t>(); }
    simdjson_result<double> get_double() const { return get<double>(); }
    simdjson_result<bool> get_bool() const { return get<bool>(); }
    operator int64_t() const { return conv<int64_t>(); }
    operator uint64_t() const { return conv<uint64_t>(); }
    operator double() const { return conv<double>(); }
    explicit operator bool() const { return conv<bool>(); }
    operator std::string_view() const { return conv<std::string_view>(); }
    inline simdjson_result<element> operator[](std::string_view key) const;
    inline simdjson_result<element> operator[](const char* key) const;
    inline simdjson_result<element> at_key(std::string_view key) const;
    inline simdjson_result<element> at(size_t i) const;

  private:
    template <typename T> T conv() const
    {
        T t{};
        error_code e = get(t);
        if (e) { throw simdjson_error(e); }
        return t;
    }
    const detail::node* p = nullptr;
    friend class array;
    friend class object;
};

} // namespace dom

template <> struct simdjson_result<dom::element>
{
    dom::element first{};
    error_code second{UNINITIALIZED};
    simdjson_result() = default;
    simdjson_result(dom::element v) : first(v), second(SUCCESS) {}
    simdjson_result(error_code e) : second(e) {}
    error_code error() const noexcept { return second; }
    template <typename T> error_code get(T& out) const
    {
        if (second) { return second; }
        return first.get(out);
    }
    template <typename T> simdjson_result<T> get() const
    {
        if (second) { return second; }
        return first.get<T>();
    }
    dom::element value() const
    {
        if (second) { throw simdjson_error(second); }
        return first;
    }
    operator dom::element() const { return value(); }
    operator int64_t() const { return int64_t(value()); }
    operator uint64_t() const { return uint64_t(value()); }
    operator double() const { return double(value()); }
    operator std::string_view() const { return std::string_view(value()); }
    bool is_null() const { return !second && first.is_null(); }
    bool is_string() const { return !second && first.is_string(); }
    bool is_array() const { return !second && first.is_array(); }
    bool is_object() const { return !second && first.is_object(); }
    bool is_double() const { return !second && first.is_double(); }
    bool is_int64() const { return !second && first.is_int64(); }
    bool is_uint64() const { return !second && first.is_uint64(); }
    bool is_number() const { return !second && first.is_number(); }
    template <typename T> bool is() const { return !second && first.is<T>(); }
    inline simdjson_result<dom::array> get_array() const;
    inline simdjson_result<dom::object> get_object() const;
    simdjson_result<std::string_view> get_string() const { return get<std::string_view>(); }
    simdjson_result<int64_t> get_int64() const { return get<int64_t>(); }
    simdjson_result<uint64_t> get_uint64() const { return get<uint64_t>(); }
    simdjson_result<double> get_double() const { return get<double>(); }
    simdjson_result<bool> get_bool() const { return get<bool>(); }
    simdjson_result<dom::element> operator[](std::string_view key) const
    {
        if (second) { return second; }
        return first[key];
    }
    simdjson_result<dom::element> operator[](const char* key) const { return (*this)[std::string_view(key)]; }
    simdjson_result<dom::element> at_key(std::string_view key) const { return (*this)[key]; }
};

namespace dom {

class array
{
  public:
    array() = default;
    explicit array(const detail::node* p_) : p(p_) {}
    class iterator
    {
      public:
        using value_type = element;
        using difference_type = std::ptrdiff_t;
        using reference = element;
        using pointer = const element*;
        using iterator_category = std::forward_iterator_tag;
        iterator() = default;
        explicit iterator(const detail::node* n_) : n(n_) {}
        element operator*() const { return element(n); }
        iterator& operator++()
        {
            ++n;
            return *this;
        }
        iterator operator++(int)
        {
            auto c = *this;
            ++n;
            return c;
        }
        bool operator==(const iterator& o) const { return n == o.n; }
        bool operator!=(const iterator& o) const { return n != o.n; }

      private:
        const detail::node* n = nullptr;
    };
    iterator begin() const { return iterator(p->a.data()); }
    iterator end() const { return iterator(p->a.data() + p->a.size()); }
    size_t size() const { return p->a.size(); }
    simdjson_result<element> at(size_t i) const
    {
        if (i >= p->a.size()) { return INDEX_OUT_OF_BOUNDS; }
        return element(&p->a[i]);
    }

  private:
    const detail::node* p = nullptr;
};

struct key_value_pair
{
    std::string_view key;
    element value;
};

class object
{
  public:
    object() = default;
    explicit object(const detail::node* p_) : p(p_) {}
    class iterator
    {
      public:
        using value_type = key_value_pair;
        using difference_type = std::ptrdiff_t;
        using reference = key_value_pair;
        using pointer = const key_value_pair*;
        using iterator_category = std::forward_iterator_tag;
        iterator() = default;
        explicit iterator(const std::pair<std::string, detail::node>* n_) : n(n_) {}
        key_value_pair operator*() const { return key_value_pair{n->first, element(&n->second)}; }
        std::string_view key() const { return n->first; }
        element value() const { return element(&n->second); }
        iterator& operator++()
        {
            ++n;
            return *this;
        }
        iterator operator++(int)
        {
            auto c = *this;
            ++n;
            return c;
        }
        bool operator==(const iterator& o) const { return n == o.n; }
        bool operator!=(const iterator& o) const { return n != o.n; }

      private:
        const std::pair<std::string, detail::node>* n = nullptr;
    };
    iterator begin() const { return iterator(p->o.data()); }
    iterator end() const { return iterator(p->o.data() + p->o.size()); }
    size_t size() const { return p->o.size(); }
    simdjson_result<element> at_key(std::string_view key) const
    {
        for (const auto& kv : p->o)
        {
            if (kv.first == key) { return element(&kv.second); }
        }
        return NO_SUCH_FIELD;
    }
    simdjson_result<element> operator[](std::string_view key) const { return at_key(key); }
    simdjson_result<element> operator[](const char* key) const { return at_key(key); }

  private:
    const detail::node* p = nullptr;
};

inline error_code element::get(array& out) const
{
    if (p->type != element_type::ARRAY) { return INCORRECT_TYPE; }
    out = array(p);
    return SUCCESS;
}
inline error_code element::get(object& out) const
{
    if (p->type != element_type::OBJECT) { return INCORRECT_TYPE; }
    out = object(p);
    return SUCCESS;
}
inline simdjson_result<array> element::get_array() const { return get<array>(); }
inline simdjson_result<object> element::get_object() const { return get<object>(); }
inline simdjson_result<element> element::at_key(std::string_view key) const
{
    object o;
    error_code e = get(o);
    if (e) { return e; }
    return o.at_key(key);
}
inline simdjson_result<element> element::operator[](std::string_view key) const { return at_key(key); }
inline simdjson_result<element> element::operator[](const char* key) const { return at_key(key); }
inline simdjson_result<element> element::at(size_t i) const
{
    array a;
    error_code e = get(a);
    if (e) { return e; }
    return a.at(i);
}

namespace detail {
class reader
{
  public:
    reader(const char* b, const char* e) : p(b), end(e) {}
    error_code document(node& n)
    {
        ws();
        if (p == end) { return EMPTY; }
        error_code e = value(n, 0);
        if (e) { return e; }
        ws();
        return p == end ? SUCCESS : TAPE_ERROR;
    }

  private:
    void ws()
    {
        while (p < end && (*p == ' ' || *p == '\t' || *p == '\n' || *p == '\r')) { ++p; }
    }
    error_code lit(const char* s, error_code bad)
    {
        const size_t n = std::strlen(s);
        if (static_cast<size_t>(end - p) < n || std::memcmp(p, s, n) != 0) { return bad; }
        p += n;
        if (p < end && std::strchr(" \t\r\n,]}:", *p) == nullptr) { return bad; }
        return SUCCESS;
    }
    error_code value(node& n, int depth)
    {
        if (depth > 1024) { return DEPTH_ERROR; }
        if (p == end) { return TAPE_ERROR; }
        switch (*p)
        {
        case '{': {
            n.type = element_type::OBJECT;
            ++p;
            ws();
            if (p < end && *p == '}')
            {
                ++p;
                return SUCCESS;
            }
            while (true)
            {
                ws();
                if (p == end || *p != '"') { return TAPE_ERROR; }
                n.o.emplace_back();
                error_code e = string(n.o.back().first);
                if (e) { return e; }
                ws();
                if (p == end || *p != ':') { return TAPE_ERROR; }
                ++p;
                ws();
                e = value(n.o.back().second, depth + 1);
                if (e) { return e; }
                ws();
                if (p == end) { return TAPE_ERROR; }
                if (*p == ',')
                {
                    ++p;
                    continue;
                }
                if (*p == '}')
                {
                    ++p;
                    return SUCCESS;
                }
                return TAPE_ERROR;
            }
        }
        case '[': {
            n.type = element_type::ARRAY;
            ++p;
            ws();
            if (p < end && *p == ']')
            {
                ++p;
                return SUCCESS;
            }
            while (true)
            {
                ws();
                n.a.emplace_back();
                error_code e = value(n.a.back(), depth + 1);
                if (e) { return e; }
                ws();
                if (p == end) { return TAPE_ERROR; }
                if (*p == ',')
                {
                    ++p;
                    continue;
                }
                if (*p == ']')
                {
                    ++p;
                    return SUCCESS;
                }
                return TAPE_ERROR;
            }
        }
        case '"': n.type = element_type::STRING; return string(n.s);
        case 't':
            n.type = element_type::BOOL;
            n.b = true;
            return lit("true", T_ATOM_ERROR);
        case 'f':
            n.type = element_type::BOOL;
            n.b = false;
            return lit("false", F_ATOM_ERROR);
        case 'n': n.type = element_type::NULL_VALUE; return lit("null", N_ATOM_ERROR);
        default: return number(n);
        }
    }
    error_code number(node& n)
    {
        const char* s = p;
        bool neg = false, dbl = false;
        if (p < end && *p == '-')
        {
            neg = true;
            ++p;
        }
        const char* digits = p;
        while (p < end && *p >= '0' && *p <= '9') { ++p; }
        if (p == digits) { return s == p ? TAPE_ERROR : NUMBER_ERROR; }
        if (*digits == '0' && p - digits > 1) { return NUMBER_ERROR; }
        if (p < end && *p == '.')
        {
            dbl = true;
            ++p;
            const char* f = p;
            while (p < end && *p >= '0' && *p <= '9') { ++p; }
            if (p == f) { return NUMBER_ERROR; }
        }
        if (p < end && (*p == 'e' || *p == 'E'))
        {
            dbl = true;
            ++p;
            if (p < end && (*p == '+' || *p == '-')) { ++p; }
            const char* f = p;
            while (p < end && *p >= '0' && *p <= '9') { ++p; }
            if (p == f) { return NUMBER_ERROR; }
        }
        if (p < end && std::strchr(" \t\r\n,]}:", *p) == nullptr) { return NUMBER_ERROR; }
        const std::string t(s, p);
        if (dbl)
        {
            n.type = element_type::DOUBLE;
            n.d = std::strtod(t.c_str(), nullptr);
            return std::isfinite(n.d) ? SUCCESS : NUMBER_ERROR;
        }
        errno = 0;
        if (neg)
        {
            n.type = element_type::INT64;
            n.i = std::strtoll(t.c_str(), nullptr, 10);
            return errno ? BIGINT_ERROR : SUCCESS;
        }
        const uint64_t u = std::strtoull(t.c_str(), nullptr, 10);
        if (errno) { return BIGINT_ERROR; }
        if (u <= static_cast<uint64_t>(std::numeric_limits<int64_t>::max()))
        {
            n.type = element_type::INT64;
            n.i = static_cast<int64_t>(u);
        }
        else
        {
            n.type = element_type::UINT64;
            n.u = u;
        }
        return SUCCESS;
    }
    static int hex(char c)
    {
        if (c >= '0' && c <= '9') { return c - '0'; }
        if (c >= 'a' && c <= 'f') { return c - 'a' + 10; }
        if (c >= 'A' && c <= 'F') { return c - 'A' + 10; }
        return -1;
    }
    error_code hex4(uint32_t& out)
    {
        out = 0;
        for (int k = 0; k < 4; ++k)
        {
            if (p == end || hex(*p) < 0) { return STRING_ERROR; }
            out = out * 16 + static_cast<uint32_t>(hex(*p++));
        }
        return SUCCESS;
    }
    static void utf8(std::string& o, uint32_t c)
    {
        if (c < 0x80) { o += static_cast<char>(c); }
        else if (c < 0x800)
        {
            o += static_cast<char>(0xC0 | (c >> 6));
            o += static_cast<char>(0x80 | (c & 63));
        }
        else if (c < 0x10000)
        {
            o += static_cast<char>(0xE0 | (c >> 12));
            o += static_cast<char>(0x80 | ((c >> 6) & 63));
            o += static_cast<char>(0x80 | (c & 63));
        }
        else
        {
            o += static_cast<char>(0xF0 | (c >> 18));
            o += static_cast<char>(0x80 | ((c >> 12) & 63));
            o += static_cast<char>(0x80 | ((c >> 6) & 63));
            o += static_cast<char>(0x80 | (c & 63));
        }
    }
    error_code string(std::string& out)
    {
        ++p; // opening quote
        while (true)
        {
            if (p == end) { return UNCLOSED_STRING; }
            const auto c = static_cast<unsigned char>(*p);
            if (c == '"')
            {
                ++p;
                return SUCCESS;
            }
            if (c < 0x20) { return UNESCAPED_CHARS; }
            if (c == '\\')
            {
                ++p;
                if (p == end) { return UNCLOSED_STRING; }
                const char e = *p++;
                switch (e)
                {
                case '"': out += '"'; break;
                case '\\': out += '\\'; break;
                case '/': out += '/'; break;
                case 'b': out += '\b'; break;
                case 'f': out += '\f'; break;
                case 'n': out += '\n'; break;
                case 'r': out += '\r'; break;
                case 't': out += '\t'; break;
                case 'u': {
                    uint32_t u = 0;
                    if (hex4(u)) { return STRING_ERROR; }
                    if (u >= 0xD800 && u < 0xDC00)
                    {
                        if (end - p < 6 || p[0] != '\\' || p[1] != 'u') { return STRING_ERROR; }
                        p += 2;
                        uint32_t lo = 0;
                        if (hex4(lo) || lo < 0xDC00 || lo > 0xDFFF) { return STRING_ERROR; }
                        u = 0x10000 + ((u - 0xD800) << 10) + (lo - 0xDC00);
                    }
                    else if (u >= 0xDC00 && u < 0xE000) { return STRING_ERROR; }
                    utf8(out, u);
                    break;
                }
                default: return STRING_ERROR;
                }
                continue;
            }
            if (c < 0x80)
            {
                out += *p++;
                continue;
            }
            int n = 0;
            uint32_t cp = 0;
            if (c >= 0xC2 && c <= 0xDF) { n = 1, cp = c & 0x1F; }
            else if (c >= 0xE0 && c <= 0xEF) { n = 2, cp = c & 0x0F; }
            else if (c >= 0xF0 && c <= 0xF4) { n = 3, cp = c & 0x07; }
            else { return UTF8_ERROR; }
            if (end - p < n + 1) { return UTF8_ERROR; }
            for (int k = 1; k <= n; ++k)
            {
                const auto d = static_cast<unsigned char>(p[k]);
                if ((d & 0xC0) != 0x80) { return UTF8_ERROR; }
                cp = (cp << 6) | (d & 63);
            }
            if ((n == 2 && cp < 0x800) || (n == 3 && cp < 0x10000) || cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000)) { return UTF8_ERROR; }
            out.append(p, static_cast<size_t>(n) + 1);
            p += n + 1;
        }
    }
    const char* p;
    const char* end;
};
} // namespace detail

class parser
{
  public:
    parser() = default;
    explicit parser(size_t) {}
    parser(parser&&) = default;
    parser& operator=(parser&&) = default;
    simdjson_result<element> parse(const char* buf, size_t len, bool = true)
    {
        root = std::make_unique<detail::node>();
        // simdjson's parser reads the input from its own padded copy; copying also lets the
        // address sanitizer see any over-read of the caller's range.
        const std::string copy(buf, len);
        detail::reader r(copy.data(), copy.data() + copy.size());
        const error_code e = r.document(*root);
        if (e) { return e; }
        return element(root.get());
    }
    simdjson_result<element> parse(const unsigned char* buf, size_t len, bool b = true) { return parse(reinterpret_cast<const char*>(buf), len, b); }
    simdjson_result<element> parse(const std::string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(std::string_view s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const padded_string& s) { return parse(s.data(), s.size()); }
    simdjson_result<element> parse(const char*) = delete;
    simdjson_result<element> load(const std::string& path)
    {
        padded_string s;
        const error_code e = padded_string::load(path).get(s);
        if (e) { return e; }
        return parse(s);
    }

  private:
    std::unique_ptr<detail::node> root;
};

} // namespace dom

inline simdjson_result<dom::array> simdjson_result<dom::element>::get_array() const { return get<dom::array>(); }
inline simdjson_result<dom::object> simdjson_result<dom::element>::get_object() const { return get<dom::object>(); }
inline namespace literals {
inline padded_string operator""_padded(const char* s, size_t n) { return padded_string(s, n); }
} // namespace literals

} // namespace simdjson
