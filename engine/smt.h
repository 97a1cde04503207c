#pragma once
#include "term.h"
struct SmtResult { enum R { VALID, INVALID, UNKNOWN } r; std::map<Id, u128> model; double secs; std::string solver; };
// decide whether (pc => goal) is valid; klo..khi is the range of the bound index
SmtResult smtProve(const std::vector<Id> &pc, Id goal, uint64_t klo, uint64_t khi, unsigned timeoutMs);
// is pc satisfiable
int smtSat(const std::vector<Id> &pc, uint64_t klo, uint64_t khi, unsigned timeoutMs);
extern uint64_t smtQueries, smtCacheHits; extern double smtSecs;
