// Stand-in for Alexandria's Configuration framework: same registration / dependency / initialisation protocol.
#pragma once
#include <boost/program_options.hpp>
#include <map>
#include <set>
#include <memory>
#include <string>
#include <tuple>
#include <typeindex>
#include <typeinfo>
#include <utility>
#include <vector>
#include "ElementsKernel/Exception.h"
namespace Euclid { namespace Configuration {
class ConfigManager;
class Configuration {
public:
  using UserValues = std::map<std::string, boost::program_options::variable_value>;
  using OptionDescriptionList = std::vector<boost::program_options::option_description>;
  enum class State { CONSTRUCTED, PRE_INITIALIZED, INITIALIZED, FINAL };
  virtual ~Configuration() = default;
  virtual std::map<std::string, OptionDescriptionList> getProgramOptions();
  virtual void preInitialize(const UserValues&) {}
  virtual void initialize(const UserValues&) {}
  virtual void postInitialize(const UserValues&) {}
  State getCurrentState() const { return m_state; }
protected:
  explicit Configuration(long manager_id) : m_manager_id(manager_id) {}
  template <typename T> void declareDependency();
  template <typename T> T& getDependency();
  template <typename T> const T& getDependency() const;
private:
  friend class ConfigManager;
  long m_manager_id;
  State m_state = State::CONSTRUCTED;
};
class ConfigManager {
public:
  using UserValues = Configuration::UserValues;
  static ConfigManager& getInstance(long id) { static std::map<long, std::unique_ptr<ConfigManager>> m; auto& p = m[id]; if (!p) p.reset(new ConfigManager(id)); return *p; }
  static long getUniqueManagerId() { static long i = 1000; return ++i; }
  template <typename T> void registerConfiguration() {
    std::type_index t(typeid(T));
    if (m_map.count(t)) return;
    m_map[t] = nullptr;
    m_map[t] = std::unique_ptr<Configuration>(new T(m_id));
    m_order.push_back(t);
  }
  template <typename A, typename B> void registerDependency() { registerConfiguration<B>(); m_deps[std::type_index(typeid(A))].insert(std::type_index(typeid(B))); }
  void addDependency(std::type_index a, std::type_index b) { m_deps[a].insert(b); }
  boost::program_options::options_description closeRegistration() {
    std::map<std::string, boost::program_options::options_description> groups;
    boost::program_options::options_description all;
    for (auto& t : m_order) for (auto& g : m_map[t]->getProgramOptions()) {
      auto it = groups.find(g.first);
      if (it == groups.end()) it = groups.emplace(g.first, boost::program_options::options_description(g.first)).first;
      for (auto& o : g.second) it->second.add(boost::shared_ptr<boost::program_options::option_description>(new boost::program_options::option_description(o)));
    }
    for (auto& g : groups) all.add(g.second);
    return all;
  }
  void initialize(const UserValues& v) {
    for (auto& t : m_order) { m_map[t]->preInitialize(v); m_map[t]->m_state = Configuration::State::PRE_INITIALIZED; }
    std::set<std::type_index> done, active;
    for (auto& t : m_order) init(t, v, done, active);
    for (auto& t : m_order) { m_map[t]->postInitialize(v); m_map[t]->m_state = Configuration::State::FINAL; }
  }
  template <typename T> T& getConfiguration() {
    auto it = m_map.find(std::type_index(typeid(T)));
    if (it == m_map.end()) throw Elements::Exception() << "Configuration of type " << typeid(T).name() << " is not registered";
    return dynamic_cast<T&>(*it->second);
  }
private:
  explicit ConfigManager(long id) : m_id(id) {}
  void init(std::type_index t, const UserValues& v, std::set<std::type_index>& done, std::set<std::type_index>& active) {
    if (done.count(t)) return;
    if (!active.insert(t).second) throw Elements::Exception() << "Circular dependency between configurations";
    for (auto& d : m_deps[t]) init(d, v, done, active);
    m_map[t]->initialize(v); m_map[t]->m_state = Configuration::State::INITIALIZED;
    done.insert(t);
  }
  long m_id;
  std::map<std::type_index, std::unique_ptr<Configuration>> m_map;
  std::vector<std::type_index> m_order;
  std::map<std::type_index, std::set<std::type_index>> m_deps;
};
inline std::map<std::string, Configuration::OptionDescriptionList> Configuration::getProgramOptions() { return {}; }
template <typename T> void Configuration::declareDependency() {
  auto& m = ConfigManager::getInstance(m_manager_id);
  m.registerConfiguration<T>();
  m.addDependency(std::type_index(typeid(*this)), std::type_index(typeid(T)));
}
template <typename T> T& Configuration::getDependency() { return ConfigManager::getInstance(m_manager_id).getConfiguration<T>(); }
template <typename T> const T& Configuration::getDependency() const { return ConfigManager::getInstance(m_manager_id).getConfiguration<T>(); }
} }
