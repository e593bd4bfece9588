// Offline stand-in for the spdlog_setup library (not installed in the sandbox).
// Only the entry point the library under test uses is provided.
#pragma once
#include <fstream>
#include <stdexcept>
#include <string>

namespace spdlog_setup {
class setup_error : public std::runtime_error
{
  public:
    using std::runtime_error::runtime_error;
};
inline void from_file(const std::string& path)
{
    std::ifstream f(path);
    if (!f) { throw setup_error("cannot open " + path); }
}
inline void from_string(const std::string&) {}
} // namespace spdlog_setup
