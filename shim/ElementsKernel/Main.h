#pragma once
#include <fstream>
#include <iostream>
#include <memory>
#include "ElementsKernel/Program.h"
#include "ElementsKernel/System.h"
namespace Elements {
class ProgramManager {
public:
  ProgramManager(std::unique_ptr<Program> p, std::string name) : m_program(std::move(p)), m_name(std::move(name)) {}
  static void onTerminate() noexcept {
    std::string what = "no active exception";
    if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { what = x.what(); } catch (...) { what = "unknown exception"; } }
    std::cerr << "VSHIM-TERMINATE " << what << std::endl;
    std::abort();
  }
  // command line over configuration file over defaults; an exception of the program becomes its exit code
  ExitCode run(int argc, char* argv[]) {
    namespace po = boost::program_options;
    auto log = Logging::getLogger("ElementsProgram");
    try {
      auto args = m_program->defineProgramArguments();
      po::options_description generic("Generic options"), common("Common options"), cmd, file;
      generic.add_options()("version", "Print version string")("help", "Produce help message")("config-file", po::value<boost::filesystem::path>()->default_value(boost::filesystem::path()), "Name of a configuration file");
      common.add_options()("log-level", po::value<std::string>()->default_value("INFO"), "Log level")("log-file", po::value<boost::filesystem::path>(), "Name of a log file");
      cmd.add(generic).add(common).add(args.first);
      file.add(common).add(args.first);
      po::variables_map vm;
      po::store(po::command_line_parser(argc, argv).options(cmd).positional(args.second).run(), vm);
      if (vm.count("help")) { std::cout << cmd << std::endl; return ExitCode::OK; }
      auto cfg = vm["config-file"].as<boost::filesystem::path>();
      if (!cfg.empty() && boost::filesystem::exists(cfg)) { std::ifstream in(cfg.string()); po::store(po::parse_config_file(in, file), vm); }
      po::notify(vm);
      Program::VariablesMap m(vm.begin(), vm.end());
      return m_program->mainMethod(m);
    } catch (const Exception& e) { log.fatal() << "Elements Exception: " << e.what(); std::cerr << "VSHIM-EXCEPTION " << e.what() << std::endl; return e.exitCode() == ExitCode::OK ? ExitCode::NOT_OK : e.exitCode(); }
    catch (const std::exception& e) { log.fatal() << "Exception: " << e.what(); std::cerr << "VSHIM-EXCEPTION " << e.what() << std::endl; return ExitCode::NOT_OK; }
  }
private:
  std::unique_ptr<Program> m_program;
  std::string m_name;
};
}
#define CREATE_MANAGER_WITH_ARGS(MANAGER, CLASS, ...) Elements::ProgramManager MANAGER(std::unique_ptr<Elements::Program>(new CLASS(__VA_ARGS__)), #CLASS)
