#pragma once
#include <cstdio>
#include <cstdarg>
#include <exception>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>
#include "ElementsKernel/Exit.h"
namespace Elements {
class Exception : public std::exception {
public:
  explicit Exception(ExitCode e = ExitCode::NOT_OK) : m_exit_code(e) {}
  explicit Exception(const char* message, ExitCode e = ExitCode::NOT_OK) : m_error_msg(message), m_exit_code(e) {}
  explicit Exception(const std::string& message, ExitCode e = ExitCode::NOT_OK) : m_error_msg(message), m_exit_code(e) {}
  Exception(const Exception&) = default;
  Exception(Exception&&) = default;
  Exception& operator=(const Exception&) = default;
  ~Exception() override = default;
  const char* what() const noexcept override { return m_error_msg.c_str(); }
  ExitCode exitCode() const noexcept { return m_exit_code; }
  void appendMessage(const std::string& m) { m_error_msg += m; }
protected:
  std::string m_error_msg;
  ExitCode m_exit_code{ExitCode::NOT_OK};
};
template <typename Ex, typename T,
          typename = typename std::enable_if<std::is_base_of<Exception, typename std::remove_reference<Ex>::type>::value>::type>
auto operator<<(Ex&& ex, const T& message) -> Ex&& {
  std::stringstream s;
  s << message;
  ex.appendMessage(s.str());
  return std::forward<Ex>(ex);
}
}
