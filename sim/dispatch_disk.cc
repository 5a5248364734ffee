#include <sstream>
#include <iomanip>
#include <fstream>
#include <ctime>
#include <clocale>
#include <any>
#include "env.h"
#include "formats.h"
#include "glue.h"
#include "worlds.h"
namespace sim {
Plan GeneratePlan(const std::string &prop, uint64_t seed, const std::string &tier) { return GenerateDisk(prop, seed, tier); }
void Execute(const std::string &prop, const Plan &plan, Result *r) { ExecuteDisk(prop, plan, r); }
void WarmUp() {
  env::InstallPugiHooks();
  env::ResetWorld();
  // what libstdc++ and libc set up once; no library code, so that everything SplineLib sets up lazily is set up in a run
  std::stringstream s;
  struct tm tm {};
  s << 1.5 << " " << 7 << " " << std::put_time(&tm, "%Y%m%d.%H%M%S %a %b") << std::endl;
  double d;
  int i;
  std::string w;
  s >> d >> i >> w;
  std::getline(s, w);
  std::ifstream f("/nonexistent");
  std::ofstream o("/nonexistent/x");
  try { throw std::runtime_error("warm"); } catch (const std::exception &) {}
}
}  // namespace sim
