#include <memory>
#include "glue.h"
#include "env.h"
#include "iges_reader.h"
#include "iges_writer.h"
#include "io_converter.h"
#include "irit_reader.h"
#include "irit_writer.h"
#include "vtk_writer.h"
#include "xml_reader.h"
#include "xml_writer.h"
#ifndef SIM_NO_PROGRAMS
#define SIM_PROGRAM(name) extern "C" int sim_main_##name(int, char **);  // main() of the program, renamed in its object file
#include "programs.inc"
#undef SIM_PROGRAM
#endif
namespace sim {
Outcome LibWrite(const std::string &fmt, const std::vector<std::any> &splines, const std::string &file,
                 const std::vector<std::vector<int>> &scat) {
  return Guarded([&]() {
    if (fmt == "iges") io::IGESWriter().WriteFile(splines, file.c_str());
    else if (fmt == "itd") io::IRITWriter().WriteFile(splines, file.c_str());
    else if (fmt == "xml") io::XMLWriter().WriteFile(splines, file.c_str());
    else io::VTKWriter().WriteFile(splines, file, scat);
  });
}
Outcome LibRead(const std::string &fmt, const std::string &file, std::vector<std::any> *out) {
  return Guarded([&]() {
    if (fmt == "iges") *out = io::IGESReader().ReadFile(file.c_str());
    else if (fmt == "itd") *out = io::IRITReader().ReadFile(file.c_str());
    else *out = io::XMLReader().ReadFile(file.c_str());
  });
}
struct Converter::Impl {
  io::IOConverter conv;
  Impl(const char *a, const char *b) : conv(a, b) {}
};
Converter::Converter(const std::string &i, const std::string &o) : impl(nullptr), in(i), out(o) {
  impl = new Impl(in.c_str(), out.c_str());
}
Converter::~Converter() { delete impl; }
Outcome Converter::Convert(const std::vector<int> &pos, const std::vector<std::vector<int>> &scat, std::vector<int> *written) {
  return Guarded([&]() { *written = impl->conv.ConvertFile(pos, scat); });
}
#ifndef SIM_NO_PROGRAMS
struct Prog { const char *name; int (*fn)(int, char **); };
static const Prog kProgs[] = {
#define SIM_PROGRAM(name) {#name, sim_main_##name},
#include "programs.inc"
#undef SIM_PROGRAM
};
std::vector<std::string> ProgramNames() {
  std::vector<std::string> r;
  for (auto &p : kProgs) r.push_back(p.name);
  return r;
}
Outcome RunProgram(const std::string &name, const std::vector<std::string> &args, int *rc) {
  std::vector<char *> argv;
  std::vector<std::string> store = args;
  store.insert(store.begin(), name);
  for (auto &s : store) argv.push_back(&s[0]);
  int argc = static_cast<int>(argv.size());
  argv.push_back(nullptr);
  *rc = -1;
  for (auto &p : kProgs) {
    if (name == p.name) return Guarded([&]() { *rc = p.fn(argc, argv.data()); });
  }
  Outcome o;
  o.what = "no such program";
  return o;
}
#endif
}  // namespace sim
