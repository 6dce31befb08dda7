// What every harness binary provides to main.cpp.
#pragma once
#include <cstdint>
#include <map>
#include <string>

struct CaseResult {
	bool ok = true;
	bool hang = false; // the process must not go on
	bool nontrivial = false;
	std::string msg;
	std::map<std::string, long> stats;
};
std::string genText( const std::string& prop, uint64_t seed, uint64_t idx );
CaseResult execCase( const std::string& prop, const std::string& base, const std::string& text, bool verbose );
std::string ruleText( const std::string& prop );
