// Command line of the harness binaries:
//   gen PROP SEED IDX
//   run PROP FILE BASE [-v]
//   batch PROP SEED FROM STEP COUNT SECONDS BASE OUT     (OUT.cur holds the case being run)
#include "harness.hpp"
namespace rig {
void registerHarnessThread();
double hangLimit();
}
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <pthread.h>
#include <sstream>
#include <sys/stat.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

static double now() {
	timespec t;
	clock_gettime( CLOCK_MONOTONIC, &t );
	return t.tv_sec + t.tv_nsec / 1e9;
}
static std::string slurp( const char* p ) {
	std::ifstream f( p );
	std::stringstream s;
	s << f.rdbuf();
	return s.str();
}
static void spew( const std::string& p, const std::string& s ) {
	int fd = open( p.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0644 );
	if ( fd < 0 || write( fd, s.data(), s.size() ) != (ssize_t)s.size() )
		exit( 3 );
	close( fd );
}
static std::string oneLine( std::string s ) {
	for ( auto& c : s )
		if ( c == '\n' || c == '\r' )
			c = ' ';
	return s;
}

// A call that never returns cannot be interrupted: the process reports it and ends.
static std::atomic<double> caseStart( 0 );
static bool batchMode = false;
int realOut = 1, realErr = 2; // a case may have redirected 1 and 2
static void* watchdog( void* ) {
	rig::registerHarnessThread();
	double limit = rig::hangLimit() * 1.5 + 5;
	for ( ;; ) {
		usleep( 200000 );
		double s = caseStart;
		if ( s > 0 && now() - s > limit ) {
			if ( !batchMode ) {
				dprintf( realOut, "FAIL HANG: the case did not end in %.0f s\n", limit );
				_exit( 1 );
			}
			dprintf( realErr, "HARNESS HANG: the case did not end in %.0f s\n", limit );
			_exit( 70 );
		}
	}
}

int main( int argc, char** argv ) {
	if ( argc < 2 )
		return 2;
	std::string mode = argv[1];
	rig::registerHarnessThread();
	if ( mode == "gen" && argc >= 5 ) {
		printf( "%s", genText( argv[2], strtoull( argv[3], 0, 10 ), strtoull( argv[4], 0, 10 ) ).c_str() );
		return 0;
	}
	pthread_t wd;
	pthread_create( &wd, nullptr, watchdog, nullptr );
	if ( mode == "run" && argc >= 5 ) {
		std::string t = slurp( argv[3] );
		caseStart = now();
		CaseResult r = execCase( argv[2], argv[4], t, argc > 5 && !strcmp( argv[5], "-v" ) );
		if ( !r.ok )
			printf( "FAIL %s\n", oneLine( r.msg ).c_str() );
		else
			printf( "OK\n" );
		fflush( stdout );
		_exit( r.ok ? 0 : 1 );
	}
	if ( mode == "batch" && argc >= 10 ) {
		batchMode = true;
		std::string prop = argv[2], base = argv[8], out = argv[9];
		uint64_t seed = strtoull( argv[3], 0, 10 );
		long from = atol( argv[4] ), step = atol( argv[5] ), count = atol( argv[6] );
		double limit = atof( argv[7] ), t0 = now();
		FILE* f = fopen( out.c_str(), "w" );
		if ( !f )
			return 3;
		std::map<std::string, long> stats;
		std::unordered_set<std::string> distinct;
		long n = 0, nt = 0, fails = 0;
		for ( long i = from; n < count && now() - t0 < limit; i += step, n++ ) {
			std::string t = genText( prop, seed, (uint64_t)i );
			spew( out + ".cur", t );
			caseStart = now();
			CaseResult r = execCase( prop, base, t, false );
			for ( auto& s : r.stats )
				stats[s.first] += s.second;
			if ( r.nontrivial && distinct.insert( t ).second ) {
				nt++;
				if ( nt == 1 || nt == 17 )
					fprintf( f, "SAMPLE %ld\n", i );
			}
			if ( !r.ok ) {
				fprintf( f, "FAIL %ld %s\n", i, oneLine( r.msg ).c_str() );
				fflush( f );
				if ( r.hang || ++fails >= 5 ) {
					n++;
					break;
				}
			}
		}
		caseStart = 0;
		unlink( ( out + ".cur" ).c_str() );
		fprintf( f, "STAT evaluations %ld\nSTAT distinct_nontrivial %ld\n", n, nt );
		for ( auto& s : stats )
			fprintf( f, "STAT %s %ld\n", s.first.c_str(), s.second );
		fprintf( f, "RULE %s\n", ruleText( prop ).c_str() );
		fprintf( f, "END\n" );
		fclose( f );
		_exit( 0 );
	}
	return 2;
}
