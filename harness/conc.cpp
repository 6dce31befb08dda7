// C17, C18: programs of several threads that use FileWatchers while their events are delivered. The threads are real ones;
// the locks and the system calls of efsw pass through the nz_ functions, which delay them at random. ThreadSanitizer reports
// races and uses of freed memory; here are the oracles of the registry, of the callbacks and of termination.
#include "harness.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <climits>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <efsw/efsw.h>
#include <efsw/efsw.hpp>
#include <fcntl.h>
#include <ftw.h>
#include <functional>
#include <memory>
#include <poll.h>
#include <pthread.h>
#include <set>
#include <sstream>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/vfs.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include <vector>

namespace rig {
void registerHarnessThread() {}
double hangLimit() {
	const char* e = getenv( "RIG_HANG_S" );
	return e ? atof( e ) : 10;
}
} // namespace rig

#define RELAXED std::memory_order_relaxed
#define NO_TSAN __attribute__( ( no_sanitize( "thread" ) ) )

static std::string fmt( const char* f, ... ) {
	char b[700];
	va_list a;
	va_start( a, f );
	vsnprintf( b, sizeof b, f, a );
	va_end( a );
	return b;
}
struct Rng {
	uint64_t s;
	explicit Rng( uint64_t x = 1 ) : s( x * 0x9E3779B97F4A7C15ull + 0x1234567 ) {}
	uint64_t next() {
		uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
		z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
		z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
		return z ^ ( z >> 31 );
	}
	int below( int n ) { return n <= 1 ? 0 : (int)( next() % (uint64_t)n ); }
	bool chance( int pct ) { return below( 100 ) < pct; }
};

// -- noise ----------------------------------------------------------------------------------------------------------
static std::atomic<int> noiseLevel( 0 ), pollCap( 3 );
static std::atomic<uint64_t> noiseSeed( 1 );
static std::atomic<int> threadNo( 0 );
static thread_local uint64_t nzState = 0;
static long nzDone = 0;
NO_TSAN static void noise( int weight ) {
	int level = noiseLevel.load( RELAXED );
	if ( !level )
		return;
	int e = errno;
	if ( !nzState )
		nzState = noiseSeed.load( RELAXED ) * 77777 + threadNo.fetch_add( 1, RELAXED ) * 999983 + 5;
	nzState ^= nzState << 13;
	nzState ^= nzState >> 7;
	nzState ^= nzState << 17;
	unsigned r = ( nzState >> 20 ) % 1000;
	if ( r < (unsigned)( level * weight ) ) {
		timespec t = { 0, (long)( ( nzState >> 33 ) % 100 < 8 ? 1500000 : ( nzState >> 40 ) % 120000 ) };
		if ( ( nzState >> 50 ) & 1 )
			sched_yield();
		else
			nanosleep( &t, nullptr );
	}
	errno = e;
}
extern "C" {
int nz_mutex_lock( pthread_mutex_t* m ) {
	noise( 4 );
	int r = pthread_mutex_lock( m );
	noise( 4 );
	return r;
}
int nz_mutex_unlock( pthread_mutex_t* m ) {
	int r = pthread_mutex_unlock( m );
	noise( 6 );
	return r;
}
int nz_mutex_trylock( pthread_mutex_t* m ) {
	noise( 4 );
	return pthread_mutex_trylock( m );
}
int nz_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const timespec* t ) {
	noise( 10 );
	return pthread_cond_timedwait( c, m, t );
}
int nz_poll( struct pollfd* f, nfds_t n, int timeout ) {
	noise( 10 );
	int cap = pollCap.load( RELAXED );
	return poll( f, n, timeout < 0 || timeout > cap ? cap : timeout );
}
ssize_t nz_read( int fd, void* b, size_t n ) {
	noise( 10 );
	ssize_t r = read( fd, b, n );
	noise( 10 );
	return r;
}
int nz_ioctl( int fd, unsigned long req, ... ) {
	va_list a;
	va_start( a, req );
	void* p = va_arg( a, void* );
	va_end( a );
	return ioctl( fd, req, p );
}
int nz_close( int fd ) {
	noise( 10 );
	return close( fd );
}
// Everything that runs as this user shares the kernel's limits on inotify: wait for others to end,
// at most 20 s per process; what a case shows without what it asked for counts as nothing.
static std::atomic<int> limitMs( 0 );
static std::atomic<bool> limited( false );
static bool limitWait( int e ) {
	if ( e != ENOSPC && e != EMFILE && e != ENFILE && e != ENOMEM )
		return false;
	if ( limitMs.fetch_add( 20 ) >= 20000 ) {
		limited = true;
		return false;
	}
	usleep( 20000 );
	return true;
}
int nz_inotify_init1( int flags ) {
	int r;
	do
		r = inotify_init1( flags );
	while ( r < 0 && limitWait( errno ) );
	return r;
}
int nz_inotify_init() { return nz_inotify_init1( 0 ); }
int nz_inotify_add_watch( int fd, const char* p, uint32_t m ) {
	noise( 10 );
	int r;
	do
		r = inotify_add_watch( fd, p, m );
	while ( r < 0 && limitWait( errno ) );
	noise( 10 );
	return r;
}
int nz_inotify_rm_watch( int fd, int wd ) {
	noise( 10 );
	int r = inotify_rm_watch( fd, wd );
	noise( 10 );
	return r;
}
DIR* nz_opendir( const char* p ) {
	noise( 10 );
	return opendir( p );
}
int nz_stat( const char* p, struct stat* s ) {
	noise( 5 );
	return stat( p, s );
}
int nz_lstat( const char* p, struct stat* s ) {
	noise( 3 );
	return lstat( p, s );
}
int nz_statfs( const char* p, struct statfs* s ) {
	noise( 5 );
	return statfs( p, s );
}
}

// -- programs -------------------------------------------------------------------------------------------------------
// Handles 0..; directories: h<handle>/d<index>. Threads t0.. run their lines in order.
static const int MAXH = 4, MAXD = 6, MAXP = MAXH * MAXD;

std::string genText( const std::string& prop, uint64_t seed, uint64_t idx ) {
	Rng r( seed * 1000003 + idx * 7919 + ( prop == "C17" ? 17 : 18 ) );
	bool c17 = prop == "C17";
	std::string o;
	if ( r.chance( 40 ) )
		o += "#capi\n";
	int T = 2 + r.below( 3 ), H = 1 + r.below( 2 );
	int D = 1 + r.below( c17 ? 3 : 4 );
	o += fmt( "#noise %d\n", r.chance( 15 ) ? 0 : r.chance( 50 ) ? 15 : 50 );
	o += fmt( "#polls %d\n", 1 + r.below( 4 ) );
	std::vector<bool> poll( MAXH );
	for ( int h = 0; h < H; h++ ) {
		poll[h] = r.chance( 40 );
		o += fmt( "new %d %s %d\n", h, poll[h] ? "poll" : "native", 1 + r.below( 8 ) );
		if ( !r.chance( 30 ) )
			o += fmt( "watch %d\n", h );
	}
	// a handle of a thread's own can be released in the middle
	std::vector<int> own( T, -1 );
	int next = H;
	for ( int t = 0; t < T && next < MAXH; t++ )
		if ( r.chance( c17 ? 55 : 15 ) ) {
			own[t] = next;
			poll[next] = r.chance( 45 );
			o += fmt( "%s %d %d %s %d\n", r.chance( 40 ) ? "make" : "own", t, next, poll[next] ? "poll" : "native", 1 + r.below( 8 ) );
			next++;
		}
	// what the callbacks do
	auto behaviour = [&]() -> std::string {
		switch ( r.below( c17 ? 6 : 9 ) ) {
			case 0:
			case 1: return fmt( "slow%d", 20 + r.below( r.chance( 20 ) ? 4000 : 400 ) );
			case 2: return fmt( "rm%d", 1 + r.below( 4 ) );
			case 3: return r.chance( 50 ) ? "dirs" : "err";
			case 4: return c17 ? "-" : "add";
			default: return "-";
		}
	};
	int lines = 4 + r.below( c17 ? 8 : 10 );
	for ( int t = 0; t < T; t++ )
		for ( int k = 0; k < lines; k++ ) {
			int h = own[t] >= 0 && r.chance( 60 ) ? own[t] : r.below( H );
			int d = c17 && r.chance( 70 ) ? std::min( t, MAXD - 1 ) : r.below( D );
			int x = r.below( 100 );
			if ( k == 0 && r.chance( 70 ) )
				x = 0;
			if ( x < 34 )
				o += fmt( "t%d add %d %d %s%s %s\n", t, h, d, r.chance( 70 ) ? "r" : "-", r.chance( 25 ) ? "s" : "-", behaviour().c_str() );
			else if ( x < 54 )
				o += fmt( "t%d rmid %d %d\n", t, h, d );
			else if ( x < 64 )
				o += fmt( "t%d rmpath %d %d\n", t, h, d );
			else if ( x < 74 )
				o += fmt( "t%d dirs %d\n", t, h );
			else if ( x < 80 )
				o += fmt( "t%d watch %d\n", t, h );
			else if ( x < 86 )
				o += fmt( "t%d %s\n", t, r.chance( 60 ) ? "err" : r.chance( 50 ) ? "clear" : "missing 0" );
			else if ( x < 92 && own[t] >= 0 )
				o += fmt( "t%d renew %d\n", t, own[t] );
			else
				o += fmt( "t%d wait %d\n", t, r.below( r.chance( 20 ) ? 6000 : 600 ) );
		}
	// one thread changes the trees
	int fs = 5 + r.below( 40 );
	for ( int k = 0; k < fs; k++ ) {
		int h = r.below( next ), d = r.below( std::max( D, T ) ) % MAXD;
		std::string p = fmt( "h%d/d%d/", h, d );
		static const char* sub[] = { "", "a/", "a/b/", "c/" };
		std::string q = p + sub[r.below( 4 )];
		char n = 'f' + r.below( 3 );
		switch ( r.below( 9 ) ) {
			case 0:
			case 1:
			case 2: o += fmt( "fs touch %s%c\n", q.c_str(), n ); break;
			case 3: o += fmt( "fs rm %s%c\n", q.c_str(), n ); break;
			case 4: o += fmt( "fs mkdir %s%c\n", p.c_str(), "abc"[r.below( 3 )] ); break;
			case 5: o += fmt( "fs mkdir %sa/b\n", p.c_str() ); break;
			case 6: o += fmt( "fs mv %s%c %s%c\n", q.c_str(), n, p.c_str(), 'f' + r.below( 3 ) ); break;
			case 7: o += fmt( "fs mv %s%c %s%c\n", p.c_str(), "abc"[r.below( 3 )], p.c_str(), "abc"[r.below( 3 )] ); break;
			default: o += fmt( "fs wait %d\n", r.below( 1500 ) );
		}
	}
	return o;
}

struct Case;
struct Lst : efsw::FileWatchListener {
	Case* C = nullptr;
	int h = 0, d = 0;
	std::string dir, act;
	int arg = 0;
	long payload[8] = { 0 }; // touched by every callback without any synchronization
	std::atomic<int> inside{ 0 }, gone{ 0 }, calls{ 0 }, badDir{ 0 }, late{ 0 };
	std::atomic<long> id{ 0 }, mixed{ 0 }, returned{ 0 };
	std::atomic<int> hit[2] = {};
	std::vector<char> heap = std::vector<char>( 64, 1 );
	void handleFileAction( efsw::WatchID w, const std::string& dir, const std::string& f, efsw::Action a, const std::string& old ) override;
	void handleMissedFileActions( efsw::WatchID, const std::string& ) override { payload[1]++; }
	~Lst() override { heap[0] = 0; }
};
struct Op {
	int kind; // 0 add, 1 rmid, 2 rmpath, 3 listed or not, 4 the id that reported
	int h, d;
	long id;  // rmid: which; add: result
	bool in;
	long t0, t1;
};
struct Handle {
	efsw::FileWatcher* w = nullptr;
	bool poll = false, capi = false; // capi: only used through the C functions
	int period = 1;
	std::vector<Lst*> lst;   // all of the current FileWatcher, freed with it
	std::vector<Op> cbOps;   // the calls made by callbacks
	std::vector<std::string> dirs;
	int gen = 0;
	bool made = false;
	std::atomic<bool> dying{ false }; // its destructor is called: it adds nothing any more
};
struct ThreadState {
	std::vector<std::vector<std::string>> lines;
	std::vector<Op> ops;
	std::map<std::pair<int, int>, std::pair<long, Lst*>> last; // the last add of this thread
	std::vector<Lst*> made;
	int own = -1;
	bool makes = false; // its FileWatcher itself
};

static std::atomic<long> stampCounter( 1 );
static long stamp() {
	return stampCounter.fetch_add( 1, RELAXED );
}
static double nowS() {
	timespec t;
	clock_gettime( CLOCK_MONOTONIC, &t );
	return t.tv_sec + t.tv_nsec / 1e9;
}

struct Case {
	std::string base;
	Handle H[MAXH];
	std::vector<ThreadState> T;
	std::vector<std::vector<std::string>> fs;
	int maxH = 0;
	bool capi = false;
	bool shared[MAXH][MAXD] = {};
	std::atomic<bool> calm{ false }, go{ false };
	std::atomic<int> failed{ 0 };
	std::string msg; // set by the first one
	std::map<std::string, long> stats;
	std::vector<Lst*> kept;
	void fail( const std::string& m ) {
		if ( limited )
			return;
		if ( !failed.exchange( 1, RELAXED ) )
			msg = m;
	}
	std::string path( int h, int d ) const { return base + fmt( "/h%d/d%d/", h, d ); }
};

static thread_local Lst* delivering = nullptr;

static void onAction( efsw_watcher w, efsw_watchid id, const char* dir, const char* f, enum efsw_action a, const char* old, void* param ) {
	Lst* l = static_cast<Lst*>( param );
	if ( (efsw::FileWatcher*)w != l->C->H[l->h].w && !l->C->H[l->h].dying.load( RELAXED ) )
		l->C->fail( "a callback got a file-watcher that isn't its own" );
	l->handleFileAction( id, dir, f, (efsw::Action)a, old );
}
static void onMissed( efsw_watcher, efsw_watchid, const char* ) {}
static long addTo( Handle& H, const std::string& dir, Lst* l, bool rec, const std::vector<efsw::WatcherOption>& os = {} ) {
	if ( !H.capi )
		return H.w->addWatch( dir, l, rec, os );
	if ( os.empty() )
		return efsw_addwatch( (efsw_watcher)H.w, dir.c_str(), onAction, rec, l );
	std::vector<efsw_watcher_option> v;
	for ( auto& o : os )
		v.push_back( { (enum efsw_option)o.mOption, o.mValue } );
	return efsw_addwatch_withoptions( (efsw_watcher)H.w, dir.c_str(), onAction, rec, v.data(), (int)v.size(), l, onMissed );
}
static void removeId( Handle& H, long id ) { H.capi ? efsw_removewatch_byid( (efsw_watcher)H.w, id ) : H.w->removeWatch( id ); }
static void removePath( Handle& H, const std::string& d ) { H.capi ? efsw_removewatch( (efsw_watcher)H.w, d.c_str() ) : H.w->removeWatch( d ); }
static void watchAll( Handle& H ) { H.capi ? efsw_watch( (efsw_watcher)H.w ) : H.w->watch(); }
static void destroy( Handle& H ) {
	if ( H.capi )
		efsw_release( (efsw_watcher)H.w );
	else
		delete H.w;
}

void Lst::handleFileAction( efsw::WatchID w, const std::string& dr, const std::string& f, efsw::Action a, const std::string& old ) {
	inside.fetch_add( 1, RELAXED );
	Lst* before = delivering;
	delivering = this;
	if ( gone.load( RELAXED ) )
		late.fetch_add( 1, RELAXED );
	payload[0]++;
	payload[2] += (long)( dr.size() + f.size() + old.size() ) + heap[1];
	long none = 0;
	if ( !id.compare_exchange_strong( none, w, RELAXED ) && none != w )
		mixed.store( w, RELAXED );
	if ( dr.compare( 0, dir.size(), dir ) )
		badDir.fetch_add( 1, RELAXED );
	int n = calls.fetch_add( 1, RELAXED ) + 1;
	if ( f.compare( 0, 2, "pr" ) == 0 && a == efsw::Actions::Add && dr == dir )
		hit[f[2] == '1'].fetch_add( 1, RELAXED );
	if ( !C->calm.load( RELAXED ) ) {
		Handle& hd = C->H[h];
		if ( act == "slow" ) {
			timespec t = { 0, arg * 1000L };
			nanosleep( &t, nullptr );
		} else if ( act == "rm" && n == arg ) {
			Op o{ 1, h, d, w, false, stamp(), 0 };
			removeId( hd, w );
			o.t1 = stamp();
			hd.cbOps.push_back( o );
		} else if ( act == "dirs" ) {
			for ( auto& s : hd.w->directories() )
				payload[3] += s.size();
		} else if ( act == "err" ) {
			payload[3] += efsw::Errors::Log::getLastErrorLog().size() + efsw::Errors::Log::getLastErrorCode();
		} else if ( act == "add" && n <= 3 ) {
			std::string p = C->base + fmt( "/h%d/cb", h );
			long r = addTo( hd, p, this, false );
			if ( r > 0 )
				hd.w->removeWatch( r );
			else if ( r != efsw::Errors::FileRepeated && !( r == efsw::Errors::Unspecified && hd.dying.load( RELAXED ) ) )
				C->fail( fmt( "addWatch in a callback returned %ld", r ) );
		}
	}
	payload[0]--;
	delivering = before;
	if ( gone.load( RELAXED ) )
		late.fetch_add( 1, RELAXED );
	inside.fetch_sub( 1, RELAXED );
}

static void spinWait( long us ) {
	timespec t = { 0, us * 1000 };
	nanosleep( &t, nullptr );
}
static void checkGone( Case& C, Lst* l, const char* after ) {
	l->gone.store( 1, RELAXED );
	if ( l->inside.load( RELAXED ) )
		C.fail( fmt( "a callback of the watch on h%d/d%d was running when %s had returned", l->h, l->d, after ) );
}
static void newHandle( Case& C, int h ) {
	Handle& H = C.H[h];
	H.capi = C.capi && !H.poll; // that has no period
	H.w = H.capi ? (efsw::FileWatcher*)efsw_create( 0 ) : H.poll ? new efsw::FileWatcher( true, H.period ) : new efsw::FileWatcher( false );
	H.gen++;
}
static void checkListener( Case& C, Lst* l ) {
	if ( l->late.load( RELAXED ) )
		C.fail( fmt( "a callback of the watch on h%d/d%d ran after its removal had returned", l->h, l->d ) );
	if ( l->badDir.load( RELAXED ) )
		C.fail( fmt( "the watch on h%d/d%d reported a directory that isn't its own", l->h, l->d ) );
	long ret = l->returned.load( RELAXED );
	if ( l->act != "add" && ( l->mixed.load( RELAXED ) || ( ret > 0 && l->id.load( RELAXED ) && l->id.load( RELAXED ) != ret ) || ( ret < 0 && l->calls.load( RELAXED ) ) ) )
		C.fail( fmt( "the watch on h%d/d%d has the id %ld but reported %ld and %ld", l->h, l->d, ret, l->id.load( RELAXED ), l->mixed.load( RELAXED ) ) );
}

static void runOp( Case& C, ThreadState& S, int tno, const std::vector<std::string>& a ) {
	const std::string& k = a[0];
	auto num = [&]( size_t i ) { return i < a.size() ? atoi( a[i].c_str() ) : 0; };
	if ( k == "wait" )
		return spinWait( std::min( num( 1 ), 20000 ) );
	if ( k == "err" ) {
		std::string s = C.capi ? std::string( efsw_getlasterror() ) : efsw::Errors::Log::getLastErrorLog();
		int c = efsw::Errors::Log::getLastErrorCode();
		if ( c > 0 || c < efsw::Errors::WatcherFailed )
			C.fail( fmt( "error code %d", c ) );
		if ( !s.empty() && s.find( C.base ) == std::string::npos )
			C.fail( "error text " + s );
		return;
	}
	if ( k == "clear" )
		return C.capi ? efsw_clearlasterror() : efsw::Errors::Log::clearLastError();
	if ( a.size() < 2 )
		return;
	int h = num( 1 ), d = num( 2 );
	if ( h < 0 || h >= C.maxH || d < 0 || d >= MAXD || !C.H[h].w )
		return;
	efsw::FileWatcher* w = C.H[h].w;
	if ( k == "watch" )
		return watchAll( C.H[h] );
	if ( k == "missing" ) {
		Lst* l = new Lst;
		l->C = &C, l->h = h;
		long r = addTo( C.H[h], C.base + "/missing", l, true );
		if ( r != efsw::Errors::FileNotFound )
			C.fail( fmt( "addWatch of a missing directory returned %ld", r ) );
		if ( C.H[h].capi ) // remembered until the release
			S.made.push_back( l );
		else
			delete l;
		return;
	}
	if ( k == "add" ) {
		Lst* l = new Lst;
		l->C = &C, l->h = h, l->d = d, l->dir = C.path( h, d );
		std::string act = a.size() > 4 ? a[4] : "-";
		for ( auto p : { "slow", "rm" } )
			if ( act.compare( 0, strlen( p ), p ) == 0 )
				l->arg = atoi( act.c_str() + strlen( p ) ), act = p;
		l->act = act;
		S.made.push_back( l );
		std::string opt = a.size() > 3 ? a[3] : "--";
		std::vector<efsw::WatcherOption> os;
		if ( opt.find( 's' ) != std::string::npos )
			os.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
		Op o{ 0, h, d, 0, false, stamp(), 0 };
		long r = addTo( C.H[h], C.path( h, d ), l, opt.find( 'r' ) != std::string::npos, os );
		o.t1 = stamp();
		o.id = r;
		l->returned.store( r, RELAXED );
		S.ops.push_back( o );
		if ( r > 0 )
			S.last[{ h, d }] = { r, l };
		else if ( r != efsw::Errors::FileRepeated )
			C.fail( fmt( "addWatch returned %ld: %s", r, efsw::Errors::Log::getLastErrorLog().c_str() ) );
		return;
	}
	if ( k == "rmid" ) {
		auto it = S.last.find( { h, d } );
		if ( it == S.last.end() )
			return;
		long id = it->second.first;
		Lst* l = it->second.second;
		S.last.erase( it );
		Op o{ 1, h, d, id, false, stamp(), 0 };
		removeId( C.H[h], id );
		o.t1 = stamp();
		S.ops.push_back( o );
		checkGone( C, l, "removeWatch" );
		// nobody else can be inside of a call for it
		if ( !C.shared[h][d] && l->act != "rm" && l->act != "add" ) {
			checkListener( C, l );
			S.made.erase( std::find( S.made.begin(), S.made.end(), l ) );
			delete l;
		}
		return;
	}
	if ( k == "rmpath" ) {
		Op o{ 2, h, d, 0, false, stamp(), 0 };
		removePath( C.H[h], C.path( h, d ) );
		o.t1 = stamp();
		S.ops.push_back( o );
		auto it = S.last.find( { h, d } );
		if ( !C.shared[h][d] && it != S.last.end() ) {
			checkGone( C, it->second.second, "removeWatch" );
			S.last.erase( it );
		}
		return;
	}
	if ( k == "dirs" ) {
		Op o{ 3, h, 0, 0, false, stamp(), 0 };
		std::vector<std::string> v = w->directories();
		o.t1 = stamp();
		std::set<std::string> u( v.begin(), v.end() );
		if ( u.size() != v.size() )
			C.fail( "a directory is listed twice" );
		u.erase( C.base + fmt( "/h%d/cb/", h ) );
		size_t known = 0;
		for ( int i = 0; i < MAXD; i++ ) {
			o.d = i;
			o.in = u.count( C.path( h, i ) );
			known += o.in;
			S.ops.push_back( o );
		}
		if ( known != u.size() )
			C.fail( "a directory that wasn't added is listed" );
		return;
	}
	if ( k == "renew" && h == S.own ) {
		C.H[h].dying.store( true, RELAXED );
		destroy( C.H[h] );
		C.H[h].w = nullptr;
		for ( Lst* l : S.made )
			if ( l->h == h )
				checkGone( C, l, "the destructor" );
		auto mid = std::stable_partition( S.made.begin(), S.made.end(), [&]( Lst* l ) { return l->h != h; } );
		for ( auto it = mid; it != S.made.end(); ++it ) {
			checkListener( C, *it );
			delete *it;
		}
		S.made.erase( mid, S.made.end() );
		for ( auto it = S.last.begin(); it != S.last.end(); )
			it = it->first.first == h ? S.last.erase( it ) : std::next( it );
		// a new registry
		S.ops.erase( std::remove_if( S.ops.begin(), S.ops.end(), [&]( const Op& o ) { return o.h == h; } ), S.ops.end() );
		C.H[h].cbOps.clear();
		C.H[h].dying.store( false, RELAXED );
		newHandle( C, h );
		watchAll( C.H[h] );
	}
}

static void runFs( Case& C, const std::vector<std::string>& a ) {
	if ( a.empty() )
		return;
	auto p = [&]( size_t i ) { return C.base + "/" + ( i < a.size() ? a[i] : "x" ); };
	if ( a[0] == "wait" )
		spinWait( a.size() > 1 ? std::min( atoi( a[1].c_str() ), 20000 ) : 0 );
	else if ( a[0] == "touch" ) {
		int fd = open( p( 1 ).c_str(), O_WRONLY | O_CREAT | O_APPEND | O_CLOEXEC, 0644 );
		if ( fd >= 0 ) {
			if ( write( fd, "x", 1 ) ) {
			}
			close( fd );
		}
	} else if ( a[0] == "rm" )
		unlink( p( 1 ).c_str() );
	else if ( a[0] == "mkdir" )
		mkdir( p( 1 ).c_str(), 0755 );
	else if ( a[0] == "mv" )
		rename( p( 1 ).c_str(), p( 2 ).c_str() );
}

// Is there an order of the calls, compatible with the moments they were made, in which each has its result?
static bool linearizable( std::vector<Op> v, long& steps ) {
	size_t n = v.size();
	if ( n > 40 )
		return true; // not decided
	std::set<std::pair<uint64_t, long>> seen;
	std::function<bool( uint64_t, long )> go = [&]( uint64_t done, long state ) -> bool {
		if ( done == ( n == 64 ? ~0ull : ( 1ull << n ) - 1 ) )
			return true;
		if ( ++steps > 300000 || !seen.insert( { done, state } ).second )
			return steps > 300000;
		long firstEnd = LONG_MAX;
		for ( size_t i = 0; i < n; i++ )
			if ( !( done >> i & 1 ) )
				firstEnd = std::min( firstEnd, v[i].t1 );
		for ( size_t i = 0; i < n; i++ ) {
			const Op& o = v[i];
			if ( ( done >> i & 1 ) || o.t0 > firstEnd )
				continue;
			long s = state;
			if ( o.kind == 0 ) {
				if ( ( o.id > 0 ) != ( s == 0 ) )
					continue;
				if ( o.id > 0 )
					s = o.id;
			} else if ( o.kind == 1 ) {
				if ( s == o.id )
					s = 0;
			} else if ( o.kind == 2 )
				s = 0;
			else if ( o.kind == 3 ) {
				if ( o.in != ( s != 0 ) )
					continue;
			} else if ( s != o.id )
				continue;
			if ( go( done | 1ull << i, s ) )
				return true;
		}
		return false;
	};
	return go( 0, 0 );
}

static int rmOne( const char* p, const struct stat*, int, struct FTW* ) {
	return remove( p );
}
static void wipe( const std::string& p ) {
	nftw( p.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS );
}

std::string ruleText( const std::string& prop ) {
	return "Programs of 2-4 threads with 4-14 calls each on 1-4 FileWatchers of both kinds, one thread that changes their trees, callbacks that wait, remove their watch, "
		   "add watches or query, and random delays at the locks and system calls of efsw. Non-trivial: at least two threads made calls on the same FileWatcher, or "
		   "one was destroyed or a watch removed, while events were being delivered (at least one callback ran); counted distinct by text.";
}

static CaseResult once( const std::string& prop, const std::string& base0, const std::string& text, bool verbose ) {
	CaseResult res;
	static int serial = 0;
	Case& C = *new Case; // never freed while threads could use it
	C.base = base0 + fmt( "/c%d", serial++ );
	mkdir( base0.c_str(), 0755 );
	wipe( C.base );
	mkdir( C.base.c_str(), 0755 );
	C.T.resize( 8 );
	int nt = 0;
	uint64_t hash = 1469598103934665603ull + serial + ( getenv( "CONC_SALT" ) ? 7777 * atoi( getenv( "CONC_SALT" ) ) : 0 );
	for ( char c : text )
		hash = ( hash ^ (unsigned char)c ) * 1099511628211ull;
	noiseLevel.store( 0, RELAXED );
	efsw::Errors::Log::clearLastError();
	std::istringstream is( text );
	std::string line;
	std::vector<int> autowatch;
	int level = 15;
	std::map<std::pair<int, int>, std::set<int>> users;
	while ( std::getline( is, line ) ) {
		std::istringstream ls( line );
		std::vector<std::string> a;
		std::string x;
		while ( ls >> x )
			a.push_back( x );
		if ( a.empty() )
			continue;
		auto num = [&]( size_t i ) { return i < a.size() ? atoi( a[i].c_str() ) : 0; };
		if ( a[0] == "#noise" )
			level = num( 1 );
		else if ( a[0] == "#capi" )
			C.capi = true;
		else if ( a[0] == "#polls" )
			pollCap.store( num( 1 ), RELAXED );
		else if ( a[0] == "new" || a[0] == "own" || a[0] == "make" ) {
			int o = a[0] != "new";
			int h = num( 1 + o );
			if ( h < 0 || h >= MAXH || C.H[h].w || C.H[h].made )
				continue;
			C.H[h].made = true;
			C.H[h].poll = a.size() > 2u + o && a[2 + o] == "poll";
			C.H[h].period = std::max( 1, num( 3 + o ) );
			C.maxH = std::max( C.maxH, h + 1 );
			if ( a[0] == "make" ) { // by its thread
				if ( num( 1 ) >= 0 && num( 1 ) < 8 ) {
					C.T[num( 1 )].own = h;
					C.T[num( 1 )].makes = true;
				} else
					newHandle( C, h );
				continue;
			}
			newHandle( C, h );
			if ( o && num( 1 ) >= 0 && num( 1 ) < 8 ) {
				C.T[num( 1 )].own = h;
				watchAll( C.H[h] );
			}
		} else if ( a[0] == "watch" ) {
			if ( num( 1 ) >= 0 && num( 1 ) < MAXH && C.H[num( 1 )].w )
				watchAll( C.H[num( 1 )] );
		} else if ( a[0] == "fs" )
			C.fs.push_back( std::vector<std::string>( a.begin() + 1, a.end() ) );
		else if ( a[0][0] == 't' && a.size() > 1 && a[0].size() == 2 && a[0][1] >= '0' && a[0][1] < '8' ) {
			int t = a[0][1] - '0';
			nt = std::max( nt, t + 1 );
			C.T[t].lines.push_back( std::vector<std::string>( a.begin() + 1, a.end() ) );
			if ( a.size() > 3 )
				users[{ num( 2 ), num( 3 ) }].insert( t );
		}
	}
	for ( auto& u : users )
		if ( u.second.size() > 1 && u.first.first >= 0 && u.first.first < MAXH && u.first.second >= 0 && u.first.second < MAXD )
			C.shared[u.first.first][u.first.second] = true;
	for ( int h = 0; h < C.maxH; h++ ) {
		mkdir( ( C.base + fmt( "/h%d", h ) ).c_str(), 0755 );
		mkdir( ( C.base + fmt( "/h%d/cb", h ) ).c_str(), 0755 );
		for ( int d = 0; d < MAXD; d++ ) {
			mkdir( C.path( h, d ).c_str(), 0755 );
			mkdir( ( C.path( h, d ) + "a" ).c_str(), 0755 );
			if ( d % 2 )
				mkdir( ( C.path( h, d ) + "a/b" ).c_str(), 0755 );
		}
	}
	noiseSeed.store( hash | 1, RELAXED );
	noiseLevel.store( level, RELAXED );
	std::vector<std::thread> th;
	// no ordering between them other than the one efsw gives
	for ( int t = 0; t < nt; t++ )
		th.emplace_back( [&C, t] {
			while ( !C.go.load( RELAXED ) )
				sched_yield();
			if ( C.T[t].makes ) {
				newHandle( C, C.T[t].own );
				watchAll( C.H[C.T[t].own] );
			}
			for ( auto& l : C.T[t].lines )
				runOp( C, C.T[t], t, l );
		} );
	th.emplace_back( [&C] {
		while ( !C.go.load( RELAXED ) )
			sched_yield();
		for ( auto& l : C.fs )
			runFs( C, l );
	} );
	C.go.store( true, RELAXED );
	for ( auto& t : th )
		t.join();
	C.calm.store( true, RELAXED );
	noiseLevel.store( 0, RELAXED );
	res.nontrivial = false;
	ThreadState F;
	std::vector<Lst*> all;
	long calls = 0;
	for ( int t = 0; t < nt; t++ )
		for ( Lst* l : C.T[t].made )
			all.push_back( l );
	std::set<std::pair<int, int>> probed;
	for ( int h = 0; h < C.maxH; h++ )
		if ( C.H[h].w ) {
			watchAll( C.H[h] );
			runOp( C, F, -1, { "dirs", fmt( "%d", h ) } );
		}
	// a probe in every directory
	for ( int round = 0; round < 2 && !C.failed.load( RELAXED ); round++ ) {
		if ( round == 1 )
			for ( int h = 0; h < C.maxH; h++ )
				if ( C.H[h].poll )
					spinWait( 2000 ); // the generic watcher adds what is there when it's added
		for ( int h = 0; h < C.maxH; h++ )
			for ( int d = 0; d < MAXD; d++ ) {
				int fd = open( ( C.path( h, d ) + "pr" + char( '0' + round ) ).c_str(), O_WRONLY | O_CREAT | O_CLOEXEC, 0644 );
				if ( fd >= 0 )
					close( fd );
			}
		double end = nowS() + 10;
		for ( auto& o : F.ops ) {
			if ( !o.in || o.kind != 3 )
				continue;
			auto got = [&] {
				int n = 0;
				for ( Lst* l : all )
					if ( l->h == o.h && l->d == o.d && l->hit[round].load( RELAXED ) )
						n++;
				return n;
			};
			while ( !got() && nowS() < end )
				spinWait( 300 );
			if ( !got() && round == 1 ) {
				// a callback can have been removing it meanwhile
				bool still = false;
				for ( auto& s : C.H[o.h].w->directories() )
					still = still || s == C.path( o.h, o.d );
				if ( still )
					C.fail( fmt( "h%d/d%d is watched, but a new file in it wasn't reported in 10 s", o.h, o.d ) );
			}
			if ( got() > 1 )
				C.fail( fmt( "a new file in h%d/d%d was reported to %d listeners", o.h, o.d, got() ) );
		}
	}
	std::vector<bool> destroyed;
	for ( int h = 0; h < C.maxH; h++ )
		if ( C.H[h].w ) {
			runOp( C, F, -1, { "dirs", fmt( "%d", h ) } );
			destroy( C.H[h] );
			for ( Lst* l : all )
				if ( l->h == h )
					checkGone( C, l, "the destructor" );
		}
	for ( Lst* l : all ) {
		checkListener( C, l );
		calls += l->calls.load( RELAXED );
		for ( int r = 0; r < 2; r++ )
			if ( l->hit[r].load( RELAXED ) > 1 )
				C.fail( fmt( "one new file in h%d/d%d was reported twice", l->h, l->d ) );
	}
	// the registry
	long ops = 0;
	for ( int h = 0; h < C.maxH; h++ )
		for ( int d = 0; d < MAXD && !C.failed.load( RELAXED ); d++ ) {
			std::vector<Op> v;
			auto take = [&]( const std::vector<Op>& ops ) {
				for ( auto& o : ops )
					if ( o.h == h && o.d == d )
						v.push_back( o );
			};
			for ( int t = 0; t < nt; t++ )
				take( C.T[t].ops );
			take( C.H[h].cbOps );
			take( F.ops );
			long steps = 0;
			ops += v.size();
			std::sort( v.begin(), v.end(), []( const Op& a, const Op& b ) { return a.t0 < b.t0; } );
			if ( !linearizable( v, steps ) ) {
				std::string s;
				static const char* names[] = { "add", "rmid", "rmpath", "listed" };
				for ( auto& o : v )
					s += fmt( " %s%s%ld[%ld,%ld]", names[o.kind], o.kind == 0 ? "=" : " ", o.kind == 3 ? (long)o.in : o.id, o.t0, o.t1 );
				C.fail( fmt( "no order of the calls on h%d/d%d explains their results:", h, d ) + s );
			}
			if ( steps > 300000 || v.size() > 40 )
				res.stats["undecided_histories"]++;
		}
	res.stats["calls"] = ops;
	res.stats["callbacks"] = calls;
	int multi = 0;
	for ( auto& u : users )
		multi = std::max( multi, (int)u.second.size() );
	res.nontrivial = calls > 0 && nt > 1 && ops > 0;
	res.ok = !C.failed.load( RELAXED );
	res.msg = C.msg;
	for ( Lst* l : all )
		delete l;
	wipe( C.base );
	delete &C;
	return res;
}
CaseResult execCase( const std::string& prop, const std::string& base, const std::string& text, bool verbose ) {
	const char* e = getenv( "CONC_REPEAT" );
	int n = e ? std::max( 1, atoi( e ) ) : 1;
	double limit = getenv( "CONC_SECONDS" ) ? atof( getenv( "CONC_SECONDS" ) ) : 1e9, t0 = nowS();
	CaseResult r;
	for ( int i = 0; i < n && ( i == 0 || nowS() - t0 < limit ); i++ ) {
		r = once( prop, base, text, verbose );
		if ( !r.ok )
			break;
	}
	return r;
}
