#pragma once
#include "plan.h"
extern const ZApi *const all_subjects[]; // generated by the build, null-terminated
const ZApi *find_subject(const std::string &name);
[[noreturn]] void exec_plan(const Plan &p); // in a forked child; leaves its result in *S
