#pragma once
#include <boost/filesystem.hpp>
#include <fstream>
#include <string>
#include <cstdlib>
namespace Elements {
static const std::string DEFAULT_TMP_KEEP_VAR = "KEEPTEMP";
class TempPath {
public:
  explicit TempPath(const std::string& motif = "%%%%-%%%%-%%%%") {
    m_path = boost::filesystem::temp_directory_path() / boost::filesystem::unique_path(motif.empty() ? "%%%%-%%%%-%%%%" : motif);
  }
  virtual ~TempPath() { boost::system::error_code ec; boost::filesystem::remove_all(m_path, ec); }
  boost::filesystem::path path() const { return m_path; }
protected:
  boost::filesystem::path m_path;
};
class TempDir : public TempPath { public: explicit TempDir(const std::string& m = "", const std::string& = DEFAULT_TMP_KEEP_VAR) : TempPath(m) { boost::filesystem::create_directory(m_path); } };
class TempFile : public TempPath {
public:
  explicit TempFile(const std::string& m = "", const std::string& = DEFAULT_TMP_KEEP_VAR) : TempPath(m) {
    std::ofstream o(m_path.string());
  }
};
}
