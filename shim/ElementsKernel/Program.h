#pragma once
#include <boost/filesystem.hpp>
#include <boost/program_options.hpp>
#include <map>
#include <string>
#include <utility>
#include "ElementsKernel/Exit.h"
#include "ElementsKernel/Exception.h"
#include "ElementsKernel/Logging.h"
namespace Elements {
class Program {
public:
  using VariablesMap = std::map<std::string, boost::program_options::variable_value>;
  virtual ~Program() = default;
  virtual std::pair<boost::program_options::options_description, boost::program_options::positional_options_description> defineProgramArguments() {
    return {defineSpecificProgramOptions(), boost::program_options::positional_options_description()};
  }
  virtual boost::program_options::options_description defineSpecificProgramOptions() { return {}; }
  virtual ExitCode mainMethod(VariablesMap& args) = 0;
};
}
