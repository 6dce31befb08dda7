// Adapts the generators and the runner of operation histories to main.cpp.
#include "gen.hpp"
#include "harness.hpp"

std::string genText( const std::string& prop, uint64_t seed, uint64_t idx ) { return generate( prop, seed, idx ).text(); }
CaseResult execCase( const std::string& prop, const std::string& base, const std::string& text, bool verbose ) {
	CaseResult c;
	Runner r( prop, base );
	r.verbose = verbose;
	Verdict v = r.run( Case::parse( text ) );
	c.ok = v.ok;
	c.hang = v.hang;
	c.msg = v.msg;
	c.stats = r.stats;
	c.nontrivial = nontrivial( prop, r );
	return c;
}
std::string ruleText( const std::string& prop ) { return nontrivialRule( prop ); }
