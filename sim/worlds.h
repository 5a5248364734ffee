#ifndef SIM_WORLDS_H_
#define SIM_WORLDS_H_
#include "common.h"
namespace sim {
void WarmUp();                       // once, before the first run
void PublishPlan(const Plan &p);     // the plan that is about to be run while generating
Plan GenerateDisk(const std::string &prop, uint64_t seed, const std::string &tier);
void ExecuteDisk(const std::string &prop, const Plan &plan, Result *result);
Plan GenerateWork(const std::string &prop, uint64_t seed, const std::string &tier);
void ExecuteWork(const std::string &prop, const Plan &plan, Result *result);
Plan GenerateThread(const std::string &prop, uint64_t seed, const std::string &tier);
void ExecuteThread(const std::string &prop, const Plan &plan, Result *result);
}  // namespace sim
#endif
