// Structured generators of cases: one per property, all driven by splitmix64 from (seed, index).
#pragma once
#include "runner.hpp"

struct Rng {
	uint64_t s;
	explicit Rng( uint64_t seed ) : s( seed ) {}
	uint64_t next() {
		uint64_t z = ( s += 0x9e3779b97f4a7c15ull );
		z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
		z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
		return z ^ ( z >> 31 );
	}
	int below( int n ) { return n <= 0 ? 0 : (int)( next() % (uint64_t)n ); }
	int range( int a, int b ) { return a + below( b - a + 1 ); }
	bool chance( int num, int den ) { return below( den ) < num; }
	template <class T> const T& pick( const std::vector<T>& v ) { return v[below( (int)v.size() )]; }
	int weighted( const std::vector<int>& w ) {
		int t = 0;
		for ( int x : w )
			t += x;
		int r = below( t );
		for ( size_t i = 0; i < w.size(); i++ )
			if ( ( r -= w[i] ) < 0 )
				return (int)i;
		return 0;
	}
};

Case generate( const std::string& prop, uint64_t seed, uint64_t idx );
// whether a finished case counts as non-trivial, and the rule in words
bool nontrivial( const std::string& prop, const Runner& r );
std::string nontrivialRule( const std::string& prop );
