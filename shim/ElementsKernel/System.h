#pragma once
#include <cstdlib>
#include <map>
#include <string>
#include <vector>
namespace Elements {
// environment with automatic restoration of the changed variables
class TempEnv {
public:
  class Item {
  public:
    Item(TempEnv& e, std::string n) : m_env(e), m_name(std::move(n)) {}
    Item& operator=(const std::string& v) { m_env.set(m_name, v); return *this; }
    std::string value() const { const char* v = std::getenv(m_name.c_str()); return v ? v : ""; }
    bool empty() const { return value().empty(); }
    operator std::string() const { return value(); }
    friend std::string operator+(const std::string& a, const Item& b) { return a + b.value(); }
    friend std::string operator+(const char* a, const Item& b) { return a + b.value(); }
  private:
    TempEnv& m_env;
    std::string m_name;
  };
  Item operator[](const std::string& n) { return Item(*this, n); }
  void set(const std::string& n, const std::string& v) {
    if (!m_old.count(n)) { const char* o = std::getenv(n.c_str()); m_old[n] = {o != nullptr, o ? o : ""}; }
    ::setenv(n.c_str(), v.c_str(), 1);
  }
  ~TempEnv() { for (auto& p : m_old) { if (p.second.first) ::setenv(p.first.c_str(), p.second.second.c_str(), 1); else ::unsetenv(p.first.c_str()); } }
private:
  std::map<std::string, std::pair<bool, std::string>> m_old;
};
}
#define ELEMENTS_API
