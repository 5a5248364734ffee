#include "env.h"
#include "glue_work.h"
#include "worlds.h"
namespace sim {
Plan GeneratePlan(const std::string &prop, uint64_t seed, const std::string &tier) { return GenerateWork(prop, seed, tier); }
void Execute(const std::string &prop, const Plan &plan, Result *r) { ExecuteWork(prop, plan, r); }
void WarmUp() { env::ResetWorld(); }
}  // namespace sim
