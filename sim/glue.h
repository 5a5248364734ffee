// Everything that touches SplineLib types for the disk world.
#ifndef SIM_GLUE_H_
#define SIM_GLUE_H_
#include <any>
#include <functional>
#include "model.h"
namespace sim {
std::any BuildAny(const MSpline &s);
// Extracts all observable data through the public interface.  "" on success.
std::string ExtractAny(const std::any &a, MSpline *s);
// Calls Evaluate at a few parameters (corners, middle); the values are returned.
std::string ProbeAny(const std::any &a, std::vector<double> *values);

struct Outcome {
  bool ok = false;
  std::string what;      // exception text or class
  bool bad_alloc = false;
  bool unknown = false;  // something that is no std::exception was thrown
};
Outcome Guarded(const std::function<void()> &f);   // runs f as library code

Outcome LibWrite(const std::string &fmt, const std::vector<std::any> &splines, const std::string &file,
                 const std::vector<std::vector<int>> &scat);
Outcome LibRead(const std::string &fmt, const std::string &file, std::vector<std::any> *out);
struct Converter {
  explicit Converter(const std::string &in, const std::string &out);
  ~Converter();
  Outcome Convert(const std::vector<int> &pos, const std::vector<std::vector<int>> &scat, std::vector<int> *written);
  struct Impl;
  Impl *impl;
  std::string in, out;
};
std::vector<std::string> ProgramNames();
Outcome RunProgram(const std::string &name, const std::vector<std::string> &args, int *rc);
}  // namespace sim
#endif
