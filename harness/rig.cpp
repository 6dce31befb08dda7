#include "rig.hpp"
#include <algorithm>
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <dirent.h>
#include <fcntl.h>
#include <mntent.h>
#include <poll.h>
#include <pthread.h>
#include <sched.h>
#include <sys/epoll.h>
#include <sys/inotify.h>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/vfs.h>
#include <thread>
#include <time.h>
#include <atomic>
#include <unistd.h>

namespace rig {

bool g_oobSelect = false;

enum Role { R_UNKNOWN, R_HARNESS, R_WORKER };
enum Decision { D_NONE, D_EVENTS, D_TIMEOUT, D_STOP, D_SIGNAL };

struct Worker {
	int id = 0;
	pthread_t self;
	WState state = W_RUNNING;
	Decision decision = D_NONE;
	std::vector<int> fds;
	bool hasTimeout = false;
	int idleRun = 0; // waits that ended without an event since the last one
	bool stop = false; // drop mode: every wait times out at once
	int stopLoops = 0;
	void* cond = nullptr;
	pthread_cond_t cv;
	Worker() { pthread_cond_init( &cv, nullptr ); }
};

struct InoFd {
	std::deque<std::string> q;
	int visible = 0;
	bool dead = false;
};

static pthread_mutex_t M = PTHREAD_MUTEX_INITIALIZER;
static pthread_cond_t CH = PTHREAD_COND_INITIALIZER; // harness waits here
static std::vector<Worker*> workers;
static std::map<int, InoFd> inofds;
static bool freeMode = false;
static int readCap = 0;
static uint64_t clockBase = 0, clockOff = 0;
static std::vector<SleepRec> sleeps;
static uint64_t fdWaitCount = 0;
static int64_t shortIdle = -1;
static int queueLimit = 0, overflowCount = 0;
static uint64_t delivered = 0;
static std::vector<Fault> faults;
static int faultsFiredN = 0;
static std::vector<std::pair<std::string, std::string>> firedAt;
struct Inj { long at; std::function<void()> f; };
static std::vector<Inj> injections;
static long callNo = 0;
static int injFired = 0;
static std::map<std::string, int> counts;
static std::map<std::string, long> fsTypes;
static std::map<std::string, int> fsTypeErrs;
struct DevRule { uint64_t dev; bool isRoot; };
static std::map<std::string, DevRule> devRules;
static std::string mountsFile;
static std::function<uint64_t( uint64_t )> inoMap;
static std::map<std::string, unsigned> modeClear;
static int uidOverride = -1;
static int openDirsN = 0, openMntN = 0;
static int highFd = 0;
static const char* lastCallName = "";
static long generation = 0;

static thread_local Role t_role = R_UNKNOWN;
static thread_local Worker* t_worker = nullptr;
static thread_local long t_gen = -1;
static thread_local int t_api = 0;
static thread_local bool t_inHook = false;

struct ExitGuard {
	~ExitGuard() {
		if ( t_worker && t_gen == generation ) {
			pthread_mutex_lock( &M );
			t_worker->state = W_EXITED;
			pthread_cond_broadcast( &CH );
			pthread_mutex_unlock( &M );
		}
	}
};
static thread_local ExitGuard* t_exit = nullptr;
static pthread_key_t exitKey;
static void exitDtor( void* p ) { delete (ExitGuard*)p; }
__attribute__( ( constructor ) ) static void initKey() { pthread_key_create( &exitKey, exitDtor ); }

static thread_local int t_noCount = 0;
NoCount::NoCount() { t_noCount++; }
NoCount::~NoCount() { t_noCount--; }

struct Lk {
	NoCount nc; // what the rig keeps is not efsw's
	Lk() { pthread_mutex_lock( &M ); }
	~Lk() { pthread_mutex_unlock( &M ); }
};

// --- memory accounting: address -> size of live blocks that efsw's code allocated ---------------------------------
static const size_t LT = 1 << 18;
static struct LEnt { uintptr_t p; size_t n; } ltab[LT];
static volatile int lspin = 0;
static bool lOn = false;
static void llock() {
	while ( __sync_lock_test_and_set( &lspin, 1 ) )
		sched_yield();
}
static void lunlock() { __sync_lock_release( &lspin ); }
static size_t lslot( uintptr_t p ) { return ( ( p >> 4 ) * 0x9e3779b97f4a7c15ull ) >> 46; }
static void onMalloc( const volatile void* p, size_t n ) {
	if ( !lOn || !p || t_noCount || t_inHook || ( t_role == R_HARNESS && !t_api ) )
		return;
	llock();
	size_t i = lslot( (uintptr_t)p );
	for ( size_t k = 0; k < LT; k++, i = ( i + 1 ) % LT )
		if ( ltab[i].p <= 1 ) {
			ltab[i].p = (uintptr_t)p;
			ltab[i].n = n;
			break;
		}
	lunlock();
}
static void onFree( const volatile void* p ) {
	if ( !lOn || !p )
		return;
	llock();
	size_t i = lslot( (uintptr_t)p );
	for ( size_t k = 0; k < LT && ltab[i].p; k++, i = ( i + 1 ) % LT )
		if ( ltab[i].p == (uintptr_t)p ) {
			ltab[i].p = 1; // tombstone
			break;
		}
	lunlock();
}
extern "C" int __sanitizer_install_malloc_and_free_hooks( void ( * )( const volatile void*, size_t ),
														   void ( * )( const volatile void* ) ) __attribute__( ( weak ) );
extern "C" size_t __asan_get_alloc_stack( void*, void**, size_t, int* ) __attribute__( ( weak ) );
extern "C" void __sanitizer_symbolize_pc( void*, const char*, char*, size_t ) __attribute__( ( weak ) );

void leakStart() {
	static bool installed = false;
	if ( !installed && __sanitizer_install_malloc_and_free_hooks ) {
		installed = true;
		__sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );
	}
	llock();
	memset( ltab, 0, sizeof ltab );
	lunlock();
	lOn = installed;
}
Leak leakNow( bool goOn ) {
	Leak l = { 0, 0, "" };
	lOn = false;
	llock();
	for ( size_t i = 0; i < LT; i++ )
		if ( ltab[i].p > 1 ) {
			l.blocks++;
			l.bytes += ltab[i].n;
			if ( l.where.empty() && __asan_get_alloc_stack && __sanitizer_symbolize_pc ) {
				void* tr[24];
				int tid;
				size_t n = __asan_get_alloc_stack( (void*)ltab[i].p, tr, 24, &tid );
				for ( size_t k = 0; k < n; k++ ) {
					char b[300];
					__sanitizer_symbolize_pc( (char*)tr[k] - 1, "%f", b, sizeof b );
					if ( strstr( b, "efsw" ) ) {
						std::string f( b );
						l.where += ( l.where.empty() ? "" : " < " ) + f.substr( 0, 90 );
					}
				}
				if ( l.where.empty() )
					l.where = "?";
			}
		}
	lunlock();
	lOn = goOn && __sanitizer_install_malloc_and_free_hooks;
	return l;
}

void registerHarnessThread() { t_role = R_HARNESS; }

double hangLimit() {
	const char* e = getenv( "RIG_HANG_S" );
	return e ? atof( e ) : 40.0;
}

static Worker* me() {
	if ( t_role == R_HARNESS )
		return nullptr;
	if ( t_role == R_WORKER && t_gen == generation )
		return t_worker;
	t_role = R_WORKER;
	Lk l;
	t_worker = new Worker();
	t_worker->id = (int)workers.size();
	t_worker->self = pthread_self();
	t_gen = generation;
	workers.push_back( t_worker );
	if ( !t_exit ) {
		t_exit = new ExitGuard();
		pthread_setspecific( exitKey, t_exit );
	}
	return t_worker;
}

static void absDeadline( timespec& ts, double s ) {
	clock_gettime( CLOCK_REALTIME, &ts );
	ts.tv_sec += (long)s;
	ts.tv_nsec += (long)( ( s - (long)s ) * 1e9 );
	if ( ts.tv_nsec >= 1000000000 ) {
		ts.tv_sec++;
		ts.tv_nsec -= 1000000000;
	}
}

void resetCase() {
	Lk l;
	generation++;
	static std::vector<Worker*>* retired = new std::vector<Worker*>(); // stays reachable (exit guards point to them)
	retired->insert( retired->end(), workers.begin(), workers.end() );
	workers.clear();
	inofds.clear();
	freeMode = false;
	readCap = 0;
	clockBase = 1700000000ull * 1000000ull;
	clockOff = 0;
	sleeps.clear();
	fdWaitCount = 0;
	shortIdle = -1;
	queueLimit = 0;
	overflowCount = 0;
	delivered = 0;
	faults.clear();
	faultsFiredN = 0;
	firedAt.clear();
	injections.clear();
	callNo = 0;
	injFired = 0;
	counts.clear();
	fsTypes.clear();
	fsTypeErrs.clear();
	devRules.clear();
	mountsFile.clear();
	inoMap = nullptr;
	modeClear.clear();
	uidOverride = -1;
	openDirsN = openMntN = 0;
	highFd = 0;
	g_oobSelect = false;
}

void setFree( bool on ) {
	Lk l;
	freeMode = on;
	for ( auto w : workers )
		pthread_cond_broadcast( &w->cv );
}

int workerCount() { Lk l; return (int)workers.size(); }
WState workerState( int w ) { Lk l; return workers[w]->state; }

static bool allParkedLocked() {
	for ( auto w : workers )
		if ( w->state == W_RUNNING || w->decision != D_NONE )
			return false;
	return true;
}

bool waitParked( int minWorkers, double timeout_s ) {
	timespec ts;
	absDeadline( ts, timeout_s );
	Lk l;
	while ( !( (int)workers.size() >= minWorkers && allParkedLocked() ) )
		if ( pthread_cond_timedwait( &CH, &M, &ts ) == ETIMEDOUT )
			return (int)workers.size() >= minWorkers && allParkedLocked();
	return true;
}

bool waitExited( int w, double timeout_s ) {
	timespec ts;
	absDeadline( ts, timeout_s );
	Lk l;
	while ( workers[w]->state != W_EXITED )
		if ( pthread_cond_timedwait( &CH, &M, &ts ) == ETIMEDOUT )
			return workers[w]->state == W_EXITED;
	return true;
}

static void drainLocked( int fd ) {
	auto it = inofds.find( fd );
	if ( it == inofds.end() || it->second.dead )
		return;
	static char buf[1 << 16];
	for ( ;; ) {
		int avail = 0;
		if ( ioctl( fd, FIONREAD, &avail ) != 0 || avail <= 0 )
			break;
		ssize_t n = read( fd, buf, sizeof buf );
		if ( n <= 0 )
			break;
		ssize_t i = 0;
		while ( i < n ) {
			inotify_event* e = (inotify_event*)( buf + i );
			size_t sz = sizeof( inotify_event ) + e->len;
			auto& q = it->second.q;
			if ( queueLimit > 0 && (int)q.size() >= queueLimit ) {
				const inotify_event* last = q.empty() ? nullptr : (const inotify_event*)q.back().data();
				if ( !last || !( last->mask & IN_Q_OVERFLOW ) ) {
					inotify_event ov;
					memset( &ov, 0, sizeof ov );
					ov.wd = -1;
					ov.mask = IN_Q_OVERFLOW;
					q.push_back( std::string( (char*)&ov, sizeof ov ) );
				}
			} else
				q.push_back( std::string( buf + i, sz ) );
			i += sz;
		}
	}
}

static int pendingLocked( const std::vector<int>& fds ) {
	int n = 0;
	for ( int fd : fds ) {
		auto it = inofds.find( fd );
		if ( it != inofds.end() ) {
			drainLocked( fd );
			n += (int)it->second.q.size();
		}
	}
	return n;
}

int pendingEvents( int w ) {
	Lk l;
	return pendingLocked( workers[w]->fds );
}

int pendingTotal() {
	Lk l;
	std::vector<int> v;
	for ( auto& p : inofds )
		v.push_back( p.first );
	return pendingLocked( v );
}

static bool releaseAndWait( Worker* w, Decision d ) {
	w->decision = d;
	pthread_cond_broadcast( &w->cv );
	timespec ts;
	absDeadline( ts, hangLimit() );
	while ( w->decision != D_NONE || w->state == W_RUNNING )
		if ( pthread_cond_timedwait( &CH, &M, &ts ) == ETIMEDOUT )
			return w->decision == D_NONE && w->state != W_RUNNING;
	return true;
}

bool pumpEvents( int wi, int n ) {
	Lk l;
	Worker* w = workers[wi];
	if ( w->state != W_PARKED_FD )
		return true;
	if ( pendingLocked( w->fds ) == 0 || n <= 0 )
		return true;
	for ( int fd : w->fds ) {
		auto it = inofds.find( fd );
		if ( it != inofds.end() )
			it->second.visible = std::min<int>( n, (int)it->second.q.size() );
	}
	return releaseAndWait( w, D_EVENTS );
}

bool idleTimeout( int wi ) {
	Lk l;
	Worker* w = workers[wi];
	if ( w->state != W_PARKED_FD || !w->hasTimeout )
		return true;
	return releaseAndWait( w, D_TIMEOUT );
}

bool wakeSleeper( int wi ) {
	Lk l;
	Worker* w = workers[wi];
	if ( w->state != W_PARKED_SLEEP )
		return true;
	return releaseAndWait( w, D_TIMEOUT );
}

bool waitHasTimeout( int wi ) {
	Lk l;
	return workers[wi]->hasTimeout;
}

void setReadCap( int n ) { Lk l; readCap = n; }
uint64_t virtualNowUs() { Lk l; return clockBase + clockOff; }
void setClockBaseUs( uint64_t us ) { Lk l; clockBase = us; clockOff = 0; }
std::vector<SleepRec> takeSleeps() { Lk l; auto s = sleeps; sleeps.clear(); return s; }
uint64_t fdWaits() { Lk l; return fdWaitCount; }
int64_t shortestIdleWait() { Lk l; return shortIdle; }
void setQueueLimit( int n ) { Lk l; queueLimit = n; }
int overflows() { Lk l; return overflowCount; }
uint64_t eventsDelivered() { Lk l; return delivered; }
void armFault( const Fault& f ) { Lk l; faults.push_back( f ); }
void clearFaults() { Lk l; faults.clear(); }
int faultsFired() { Lk l; return faultsFiredN; }
std::vector<int> inotifyFds() {
	Lk l;
	std::vector<int> v;
	for ( auto& p : inofds )
		v.push_back( p.first );
	return v;
}
std::vector<std::pair<std::string, std::string>> firedFaults() { Lk l; return firedAt; }
void injectAtCall( int k, std::function<void()> f ) { Lk l; injections.push_back( { callNo + k, f } ); }
void clearInjections() { Lk l; injections.clear(); }
int injectionsFired() { Lk l; return injFired; }
std::map<std::string, int> callCounts() { Lk l; return counts; }
std::string lastCall() { Lk l; return lastCallName; }
void setFsType( const std::string& p, long t ) { Lk l; fsTypes[p] = t; }
void setFsTypeErr( const std::string& p, int e ) { Lk l; fsTypeErrs[p] = e; }
void setDev( const std::string& p, uint64_t d, bool r ) { Lk l; devRules[p] = { d, r }; }
void setMountsFile( const std::string& p ) { Lk l; mountsFile = p; }
void setInoMap( std::function<uint64_t( uint64_t )> f ) { Lk l; inoMap = f; }
void setModeOverride( const std::string& p, unsigned c ) { Lk l; modeClear[p] = c; }
void setUid( int u ) { Lk l; uidOverride = u; }
int openDirs() { Lk l; return openDirsN; }
int openMnt() { Lk l; return openMntN; }
void setHighFd( int m ) { Lk l; highFd = m; }

ApiScope::ApiScope() { t_api++; }
ApiScope::~ApiScope() { t_api--; }

// Every wrapped call passes here first. Returns an errno to inject, or 0.
static std::string absPath( const char* p );
template <class T> static const T* prefixRule( const std::map<std::string, T>& m, const std::string& p );
static bool isUnder( const std::string& p, const std::string& dir ) {
	return p == dir || ( p.size() > dir.size() && p.compare( 0, dir.size(), dir ) == 0 && p[dir.size()] == '/' );
}
static std::map<void*, std::string> dirPaths;
static int enter( const char* name, const char* path = nullptr ) {
	if ( t_inHook )
		return 0;
	Worker* w = me();
	if ( !w && !t_api )
		return 0;
	std::function<void()> run;
	int err = 0;
	{
		Lk l;
		lastCallName = name;
		counts[name]++;
		if ( w ) {
			callNo++;
			for ( size_t i = 0; i < injections.size(); i++ )
				if ( injections[i].at == callNo ) {
					run = injections[i].f;
					injections.erase( injections.begin() + i );
					break;
				}
		}
	}
	if ( run ) {
		NoCount nc;
		t_inHook = true;
		injFired++;
		run();
		t_inHook = false;
	}
	{
		Lk l;
		for ( auto& f : faults ) {
			if ( f.used || ( f.call != "*" && f.call != name ) )
				continue;
			if ( !f.prefix.empty() && ( !path || !isUnder( absPath( path ), f.prefix ) ) )
				continue;
			if ( --f.nth == 0 ) {
				f.used = true;
				faultsFiredN++;
				err = f.err;
				firedAt.push_back( { name, path ? absPath( path ) : "" } );
				break;
			}
		}
	}
	return err;
}

static void park( Worker* w, WState st ) { // M held
	w->state = st;
	pthread_cond_broadcast( &CH );
}

static void unpark( Worker* w ) {
	w->state = W_RUNNING;
	w->decision = D_NONE;
	w->cond = nullptr;
}

static int realPoll( pollfd* p, nfds_t n, int ms ) { return poll( p, n, ms ); }

// fills revents; timeout_us < 0 = infinite. Returns ready count.
static int fdWait( std::vector<pollfd>& p, int64_t timeout_us ) {
	Worker* w = me();
	bool any = false;
	for ( auto& x : p ) {
		x.revents = 0;
		Lk l;
		if ( inofds.count( x.fd ) )
			any = true;
	}
	if ( !w || !any )
		return realPoll( p.data(), p.size(), timeout_us < 0 ? -1 : (int)( ( timeout_us + 999 ) / 1000 ) );
	auto check = [&]( bool all ) { // M held
		int n = 0;
		for ( auto& x : p ) {
			auto it = inofds.find( x.fd );
			if ( it != inofds.end() ) {
				drainLocked( x.fd );
				if ( all )
					it->second.visible = (int)it->second.q.size();
				if ( ( x.events & POLLIN ) && std::min<int>( it->second.visible, (int)it->second.q.size() ) > 0 ) {
					x.revents = POLLIN;
					n++;
				}
			} else {
				pollfd y = x;
				y.revents = 0;
				if ( realPoll( &y, 1, 0 ) > 0 ) {
					x.revents = y.revents;
					n++;
				}
			}
		}
		return n;
	};
	bool others = false;
	Lk l;
	w->fds.clear();
	for ( auto& x : p ) {
		w->fds.push_back( x.fd );
		if ( !inofds.count( x.fd ) )
			others = true;
	}
	w->hasTimeout = timeout_us >= 0;
	int n = check( false );
	if ( n ) {
		w->idleRun = 0;
		fdWaitCount++;
		return n;
	}
	if ( timeout_us == 0 )
		return 0;
	for ( ;; ) {
		if ( w->stop ) {
			if ( timeout_us >= 0 ) {
				clockOff += timeout_us;
				if ( ++w->stopLoops > 100 ) {
					pthread_mutex_unlock( &M );
					usleep( 500 );
					pthread_mutex_lock( &M );
				}
				return 0;
			}
			// infinite wait: only the other descriptors can wake it
			if ( ( n = check( false ) ) )
				return n;
			pthread_mutex_unlock( &M );
			usleep( 500 );
			pthread_mutex_lock( &M );
			continue;
		}
		if ( freeMode ) {
			n = check( true );
			if ( n ) {
				fdWaitCount++;
				return n;
			}
			std::vector<pollfd> c = p;
			pthread_mutex_unlock( &M );
			int r = realPoll( c.data(), c.size(), 1 );
			pthread_mutex_lock( &M );
			if ( r > 0 )
				continue;
			if ( timeout_us >= 0 ) {
				clockOff += timeout_us;
				return 0;
			}
			continue;
		}
		park( w, W_PARKED_FD );
		while ( w->decision == D_NONE && !freeMode && !w->stop ) {
			if ( others ) {
				timespec ts;
				absDeadline( ts, 0.003 );
				pthread_cond_timedwait( &w->cv, &M, &ts );
				int k = check( false );
				if ( k && w->decision == D_NONE )
					break;
			} else
				pthread_cond_wait( &w->cv, &M );
		}
		Decision d = w->decision;
		unpark( w );
		n = check( false );
		if ( n ) {
			w->idleRun = 0;
			fdWaitCount++;
			return n;
		}
		if ( d == D_TIMEOUT && timeout_us >= 0 ) {
			if ( ++w->idleRun >= 3 && ( shortIdle < 0 || timeout_us < shortIdle ) )
				shortIdle = timeout_us;
			clockOff += timeout_us;
			fdWaitCount++;
			return 0;
		}
	}
}

static void sleepFor( int64_t us, void* cond, pthread_mutex_t* m, int* signaled ) {
	// m (if any) is locked by the caller and must be released while sleeping
	Worker* w = me();
	if ( signaled )
		*signaled = 0;
	if ( !w ) {
		if ( m )
			pthread_mutex_unlock( m );
		usleep( us > 1000 ? 1000 : us > 0 ? us : 1 );
		if ( m )
			pthread_mutex_lock( m );
		return;
	}
	NoCount nc;
	pthread_mutex_lock( &M );
	if ( us < 0 )
		us = 0;
	sleeps.push_back( { w->id, (uint64_t)us, false } );
	if ( sleeps.size() > 100000 )
		sleeps.clear();
	if ( w->stop || freeMode ) {
		clockOff += us;
		pthread_mutex_unlock( &M );
		if ( m )
			pthread_mutex_unlock( m );
		usleep( us > 300 ? 300 : 50 );
		if ( m )
			pthread_mutex_lock( m );
		return;
	}
	w->cond = cond;
	w->hasTimeout = true;
	park( w, W_PARKED_SLEEP );
	if ( m )
		pthread_mutex_unlock( m );
	while ( w->decision == D_NONE && !freeMode && !w->stop )
		pthread_cond_wait( &w->cv, &M );
	Decision d = w->decision;
	unpark( w );
	if ( d != D_SIGNAL )
		clockOff += us;
	pthread_mutex_unlock( &M );
	if ( m )
		pthread_mutex_lock( m );
	if ( signaled )
		*signaled = d == D_SIGNAL;
}

static void signalCond( void* cond ) {
	Lk l;
	for ( auto w : workers )
		if ( w->state == W_PARKED_SLEEP && w->cond == cond && w->decision == D_NONE ) {
			w->decision = D_SIGNAL;
			pthread_cond_broadcast( &w->cv );
		}
}

static void stopThread( pthread_t t ) {
	Lk l;
	for ( auto w : workers )
		if ( w->state != W_EXITED && pthread_equal( w->self, t ) ) {
			w->stop = true;
			pthread_cond_broadcast( &w->cv );
		}
}

static std::string absPath( const char* p ) {
	if ( !p )
		return "";
	std::string s( p );
	if ( s.empty() || s[0] != '/' ) {
		char b[4096];
		if ( getcwd( b, sizeof b ) )
			s = std::string( b ) + "/" + s;
	}
	// normalise . and ..
	std::vector<std::string> out;
	size_t i = 0;
	while ( i < s.size() ) {
		size_t j = s.find( '/', i );
		if ( j == std::string::npos )
			j = s.size();
		std::string c = s.substr( i, j - i );
		if ( c == ".." ) {
			if ( !out.empty() )
				out.pop_back();
		} else if ( !c.empty() && c != "." )
			out.push_back( c );
		i = j + 1;
	}
	std::string r;
	for ( auto& c : out )
		r += "/" + c;
	return r.empty() ? "/" : r;
}

template <class T> static const T* prefixRule( const std::map<std::string, T>& m, const std::string& p ) {
	const T* best = nullptr;
	size_t bl = 0;
	for ( auto& kv : m )
		if ( p == kv.first || ( p.size() > kv.first.size() && p.compare( 0, kv.first.size(), kv.first ) == 0 &&
								p[kv.first.size()] == '/' ) )
			if ( kv.first.size() >= bl ) {
				best = &kv.second;
				bl = kv.first.size();
			}
	return best;
}

static void patchStat( const char* path, struct stat* st ) {
	Lk l;
	if ( devRules.empty() && !inoMap && modeClear.empty() )
		return;
	if ( inoMap )
		st->st_ino = inoMap( st->st_ino );
	if ( !devRules.empty() || !modeClear.empty() ) {
		std::string a = absPath( path );
		if ( const DevRule* r = prefixRule( devRules, a ) )
			st->st_dev = r->dev;
		auto it = modeClear.find( a );
		if ( it != modeClear.end() )
			st->st_mode &= ~it->second;
	}
}

} // namespace rig

using namespace rig;

#define FAULTP( name, path, ret )         \
	if ( int e_ = enter( name, path ) ) { \
		errno = e_;                       \
		return ret;                       \
	}
#define FAULT( name, ret )          \
	if ( int e_ = enter( name ) ) { \
		errno = e_;                 \
		return ret;                 \
	}

// Everything that runs as this user shares the kernel's limits on inotify: wait for others to end,
// at most 30 s per process.
static bool limitWait( int e ) {
	static std::atomic<int> ms( 0 );
	if ( ( e != ENOSPC && e != EMFILE && e != ENFILE && e != ENOMEM ) || ms.fetch_add( 20 ) >= 30000 )
		return false;
	usleep( 20000 );
	return true;
}

extern "C" {

int rig_inotify_init1( int flags ) {
	FAULT( "inotify_init", -1 )
	int fd;
	do
		fd = inotify_init1( flags | IN_CLOEXEC );
	while ( fd < 0 && limitWait( errno ) );
	if ( fd < 0 )
		return fd;
	int minfd;
	{
		Lk l;
		minfd = highFd;
	}
	if ( minfd > 0 ) {
		int nfd = fcntl( fd, F_DUPFD_CLOEXEC, minfd );
		close( fd );
		fd = nfd;
		if ( fd < 0 )
			return fd;
	}
	Lk l;
	inofds[fd] = InoFd();
	return fd;
}
int rig_inotify_init() { return rig_inotify_init1( 0 ); }
int rig_inotify_add_watch( int fd, const char* p, uint32_t m ) {
	FAULTP( "inotify_add_watch", p, -1 )
	int r;
	do
		r = inotify_add_watch( fd, p, m );
	while ( r < 0 && limitWait( errno ) );
	return r;
}
int rig_inotify_rm_watch( int fd, int wd ) {
	FAULT( "inotify_rm_watch", -1 )
	return inotify_rm_watch( fd, wd );
}

int rig_close( int fd ) {
	enter( "close" );
	{
		Lk l;
		inofds.erase( fd );
	}
	return close( fd );
}

ssize_t rig_read( int fd, void* buf, size_t n ) {
	FAULT( "read", -1 )
	bool ino;
	{
		Lk l;
		ino = inofds.count( fd ) != 0;
	}
	if ( !ino || !me() )
		return read( fd, buf, n );
	for ( ;; ) {
		{
			Lk l;
			auto it = inofds.find( fd );
			if ( it == inofds.end() ) {
				errno = EBADF;
				return -1;
			}
			InoFd& f = it->second;
			if ( freeMode )
				f.visible = (int)f.q.size();
			size_t off = 0;
			int given = 0;
			while ( f.visible > 0 && !f.q.empty() && ( readCap == 0 || given < readCap ) ) {
				const std::string& e = f.q.front();
				if ( off + e.size() > n ) {
					if ( off == 0 ) {
						errno = EINVAL;
						return -1;
					}
					break;
				}
				memcpy( (char*)buf + off, e.data(), e.size() );
				if ( ( (const inotify_event*)e.data() )->mask & IN_Q_OVERFLOW )
					overflowCount++;
				off += e.size();
				f.q.pop_front();
				f.visible--;
				given++;
				delivered++;
			}
			if ( off )
				return (ssize_t)off;
			int fl = fcntl( fd, F_GETFL );
			if ( fl >= 0 && ( fl & O_NONBLOCK ) ) {
				errno = EAGAIN;
				return -1;
			}
		}
		std::vector<pollfd> p( 1 );
		p[0].fd = fd;
		p[0].events = POLLIN;
		fdWait( p, -1 );
	}
}

static int64_t tvUs( const timeval* t ) { return t ? (int64_t)t->tv_sec * 1000000 + t->tv_usec : -1; }
static int64_t tsUs( const timespec* t ) { return t ? (int64_t)t->tv_sec * 1000000 + ( t->tv_nsec + 999 ) / 1000 : -1; }

static int selectImpl( int nfds, fd_set* r, fd_set* w, fd_set* e, int64_t us ) {
	std::vector<pollfd> p;
	for ( int i = 0; i < nfds; i++ ) {
		short ev = 0;
		if ( r && FD_ISSET( i, r ) )
			ev |= POLLIN;
		if ( w && FD_ISSET( i, w ) )
			ev |= POLLOUT;
		if ( e && FD_ISSET( i, e ) )
			ev |= POLLPRI;
		if ( ev ) {
			pollfd x;
			x.fd = i;
			x.events = ev;
			x.revents = 0;
			p.push_back( x );
		}
	}
	int n = fdWait( p, us );
	if ( r ) FD_ZERO( r );
	if ( w ) FD_ZERO( w );
	if ( e ) FD_ZERO( e );
	int c = 0;
	for ( auto& x : p ) {
		if ( r && ( x.events & POLLIN ) && ( x.revents & ( POLLIN | POLLHUP | POLLERR ) ) ) { FD_SET( x.fd, r ); c++; }
		if ( w && ( x.events & POLLOUT ) && ( x.revents & ( POLLOUT | POLLERR ) ) ) { FD_SET( x.fd, w ); c++; }
		if ( e && ( x.events & POLLPRI ) && ( x.revents & POLLPRI ) ) { FD_SET( x.fd, e ); c++; }
	}
	(void)n;
	return c;
}

int rig_select( int nfds, fd_set* r, fd_set* w, fd_set* e, timeval* tv ) {
	FAULT( "wait", -1 )
	return selectImpl( nfds, r, w, e, tvUs( tv ) );
}
int rig_pselect( int nfds, fd_set* r, fd_set* w, fd_set* e, const timespec* ts, const sigset_t* ) {
	FAULT( "wait", -1 )
	return selectImpl( nfds, r, w, e, tsUs( ts ) );
}
static int pollImpl( pollfd* p, nfds_t n, int64_t us ) {
	std::vector<pollfd> v( p, p + n );
	int r = fdWait( v, us );
	for ( nfds_t i = 0; i < n; i++ )
		p[i].revents = v[i].revents;
	return r;
}
int rig_poll( pollfd* p, nfds_t n, int ms ) {
	FAULT( "wait", -1 )
	return pollImpl( p, n, ms < 0 ? -1 : (int64_t)ms * 1000 );
}
int rig_ppoll( pollfd* p, nfds_t n, const timespec* ts, const sigset_t* ) {
	FAULT( "wait", -1 )
	return pollImpl( p, n, tsUs( ts ) );
}

// epoll: remember the interest list so that waits can be served from the rig's queues
static std::map<int, std::map<int, epoll_event>> epolls;
int rig_epoll_ctl( int ep, int op, int fd, epoll_event* ev ) {
	{
		Lk l;
		if ( op == EPOLL_CTL_DEL )
			epolls[ep].erase( fd );
		else
			epolls[ep][fd] = *ev;
	}
	return epoll_ctl( ep, op, fd, ev );
}
int rig_epoll_wait( int ep, epoll_event* out, int max, int ms ) {
	FAULT( "wait", -1 )
	std::vector<pollfd> p;
	{
		Lk l;
		for ( auto& kv : epolls[ep] ) {
			pollfd x;
			x.fd = kv.first;
			x.events = ( kv.second.events & EPOLLIN ? POLLIN : 0 ) | ( kv.second.events & EPOLLOUT ? POLLOUT : 0 );
			x.revents = 0;
			p.push_back( x );
		}
	}
	fdWait( p, ms < 0 ? -1 : (int64_t)ms * 1000 );
	int c = 0;
	for ( auto& x : p )
		if ( x.revents && c < max ) {
			out[c].events = x.revents;
			Lk l;
			out[c].data = epolls[ep][x.fd].data;
			c++;
		}
	return c;
}

int rig_ioctl( int fd, unsigned long req, void* arg ) {
	if ( req == FIONREAD ) {
		Lk l;
		auto it = inofds.find( fd );
		if ( it != inofds.end() ) {
			drainLocked( fd );
			int n = 0;
			for ( auto& e : it->second.q )
				n += (int)e.size();
			*(int*)arg = n;
			return 0;
		}
	}
	return ioctl( fd, req, arg );
}

int rig_usleep( useconds_t us ) {
	enter( "usleep" );
	sleepFor( us, nullptr, nullptr, nullptr );
	return 0;
}
int rig_nanosleep( const timespec* ts, timespec* ) {
	enter( "nanosleep" );
	sleepFor( tsUs( ts ), nullptr, nullptr, nullptr );
	return 0;
}
unsigned rig_sleep( unsigned s ) {
	sleepFor( (int64_t)s * 1000000, nullptr, nullptr, nullptr );
	return 0;
}
int rig_clock_nanosleep( clockid_t, int flags, const timespec* ts, timespec* ) {
	int64_t us = tsUs( ts );
	if ( flags & TIMER_ABSTIME )
		us -= (int64_t)virtualNowUs();
	sleepFor( us, nullptr, nullptr, nullptr );
	return 0;
}
static int condTimed( pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts ) {
	Worker* w = me();
	if ( ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000 || ts->tv_sec < 0 ) {
		Lk l;
		sleeps.push_back( { w ? w->id : -1, 0, true } );
		pthread_mutex_unlock( &M );
		sleepFor( 0, nullptr, m, nullptr ); // a thread that does not wait can still be stepped
		pthread_mutex_lock( &M );
		return EINVAL;
	}
	int sig = 0;
	sleepFor( tsUs( ts ) - (int64_t)virtualNowUs(), c, m, &sig );
	return sig ? 0 : ETIMEDOUT;
}
int rig_pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts ) {
	enter( "cond_timedwait" );
	return condTimed( c, m, ts );
}
int rig_pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts ) {
	enter( "cond_timedwait" );
	return condTimed( c, m, ts );
}
int rig_pthread_cond_signal( pthread_cond_t* c ) {
	signalCond( c );
	return pthread_cond_signal( c );
}
int rig_pthread_cond_broadcast( pthread_cond_t* c ) {
	signalCond( c );
	return pthread_cond_broadcast( c );
}
void rig_cv_notify_one( std::condition_variable* cv ) {
	signalCond( (void*)cv );
	cv->notify_one();
}
void rig_cv_notify_all( std::condition_variable* cv ) {
	signalCond( (void*)cv );
	cv->notify_all();
}
void rig_thread_join( std::thread* t ) {
	stopThread( t->native_handle() );
	t->join();
}
int rig_pthread_join( pthread_t t, void** r ) {
	stopThread( t );
	return pthread_join( t, r );
}

int rig_gettimeofday( timeval* tv, void* ) {
	uint64_t n = virtualNowUs();
	tv->tv_sec = n / 1000000;
	tv->tv_usec = n % 1000000;
	return 0;
}
int rig_clock_gettime( clockid_t, timespec* ts ) {
	uint64_t n = virtualNowUs();
	ts->tv_sec = n / 1000000;
	ts->tv_nsec = ( n % 1000000 ) * 1000;
	return 0;
}
time_t rig_time( time_t* t ) {
	time_t v = virtualNowUs() / 1000000;
	if ( t )
		*t = v;
	return v;
}
long rig_chrono_now() { return (long)( virtualNowUs() * 1000 ); }

int rig_stat( const char* p, struct stat* st ) {
	FAULTP( "stat", p, -1 )
	int r = stat( p, st );
	if ( r == 0 )
		patchStat( p, st );
	return r;
}
int rig_lstat( const char* p, struct stat* st ) {
	FAULTP( "lstat", p, -1 )
	int r = lstat( p, st );
	if ( r == 0 )
		patchStat( p, st );
	return r;
}
int rig_fstat( int fd, struct stat* st ) {
	FAULT( "fstat", -1 )
	int r = fstat( fd, st );
	if ( r == 0 ) {
		char l[64], b[4096];
		snprintf( l, sizeof l, "/proc/self/fd/%d", fd );
		ssize_t k = readlink( l, b, sizeof b - 1 );
		if ( k > 0 ) {
			b[k] = 0;
			patchStat( b, st );
		}
	}
	return r;
}
int rig_fstatat( int d, const char* p, struct stat* st, int fl ) {
	FAULT( "stat", -1 )
	int r = fstatat( d, p, st, fl );
	if ( r == 0 ) {
		std::string path = p;
		if ( d != AT_FDCWD && ( path.empty() || path[0] != '/' ) ) {
			char l[64], b[4096];
			snprintf( l, sizeof l, "/proc/self/fd/%d", d );
			ssize_t k = readlink( l, b, sizeof b - 1 );
			if ( k > 0 )
				path = std::string( b, k ) + "/" + path;
		}
		patchStat( path.c_str(), st );
	}
	return r;
}
DIR* rig_opendir( const char* p ) {
	FAULTP( "opendir", p, nullptr )
	DIR* d = opendir( p );
	if ( d ) {
		Lk l;
		openDirsN++;
		dirPaths[d] = absPath( p );
	}
	return d;
}
dirent* rig_readdir( DIR* d ) {
	std::string dp;
	{
		Lk l;
		auto it = dirPaths.find( d );
		if ( it != dirPaths.end() )
			dp = it->second;
	}
	FAULTP( "readdir", dp.c_str(), nullptr )
	dirent* e = readdir( d );
	if ( e ) {
		Lk l;
		if ( inoMap )
			e->d_ino = inoMap( e->d_ino );
	}
	return e;
}
int rig_closedir( DIR* d ) {
	enter( "closedir" );
	{
		Lk l;
		openDirsN--;
		dirPaths.erase( d );
	}
	return closedir( d );
}
char* rig_realpath( const char* p, char* b ) {
	FAULTP( "realpath", p, nullptr )
	return realpath( p, b );
}
ssize_t rig_readlink( const char* p, char* b, size_t n ) {
	FAULTP( "readlink", p, -1 )
	return readlink( p, b, n );
}
int rig_statfs( const char* p, struct statfs* b ) {
	FAULTP( "statfs", p, -1 )
	int err = 0;
	{
		Lk l;
		if ( !fsTypeErrs.empty() )
			if ( const int* e = prefixRule( fsTypeErrs, absPath( p ) ) )
				err = *e;
	}
	if ( err ) {
		errno = err;
		return -1;
	}
	int r = statfs( p, b );
	if ( r == 0 ) {
		Lk l;
		if ( !fsTypes.empty() )
			if ( const long* t = prefixRule( fsTypes, absPath( p ) ) )
				b->f_type = *t;
	}
	return r;
}
int rig_chdir( const char* p ) {
	FAULTP( "chdir", p, -1 )
	return chdir( p );
}
char* rig_getcwd( char* b, size_t n ) {
	FAULT( "getcwd", nullptr )
	return getcwd( b, n );
}
FILE* rig_setmntent( const char* p, const char* m ) {
	FAULT( "setmntent", nullptr )
	std::string f;
	{
		Lk l;
		f = mountsFile;
	}
	FILE* r = setmntent( f.empty() ? p : f.c_str(), m );
	if ( r ) {
		Lk l;
		openMntN++;
	}
	return r;
}
int rig_endmntent( FILE* f ) {
	enter( "endmntent" );
	if ( f ) {
		Lk l;
		openMntN--;
	}
	return endmntent( f );
}
uid_t rig_getuid() {
	Lk l;
	return uidOverride >= 0 ? (uid_t)uidOverride : getuid();
}
uid_t rig_geteuid() {
	Lk l;
	return uidOverride >= 0 ? (uid_t)uidOverride : geteuid();
}
int rig_access( const char* p, int m ) {
	FAULTP( "access", p, -1 )
	return access( p, m );
}
int rig_open( const char* p, int fl, int mode ) {
	FAULTP( "open", p, -1 )
	return open( p, fl, mode );
}
// libefsw raises the descriptor limit of the process; the harness does not want a million descriptors
int rig_setrlimit( int, const void* ) { return 0; }
}

// second names (objcopy wants every target once): jump to the first
__asm__( ".globl rig_alias_stat64\n.type rig_alias_stat64,@function\nrig_alias_stat64: jmp rig_stat@PLT\n" );
__asm__( ".globl rig_alias_lstat64\n.type rig_alias_lstat64,@function\nrig_alias_lstat64: jmp rig_lstat@PLT\n" );
__asm__( ".globl rig_alias_fstat64\n.type rig_alias_fstat64,@function\nrig_alias_fstat64: jmp rig_fstat@PLT\n" );
__asm__( ".globl rig_alias_fstatat64\n.type rig_alias_fstatat64,@function\nrig_alias_fstatat64: jmp rig_fstatat@PLT\n" );
__asm__( ".globl rig_alias_readdir64\n.type rig_alias_readdir64,@function\nrig_alias_readdir64: jmp rig_readdir@PLT\n" );
__asm__( ".globl rig_alias_statfs64\n.type rig_alias_statfs64,@function\nrig_alias_statfs64: jmp rig_statfs@PLT\n" );
__asm__( ".globl rig_alias__ZNSt6chrono3_V212system_clock3nowEv\n.type rig_alias__ZNSt6chrono3_V212system_clock3nowEv,@function\nrig_alias__ZNSt6chrono3_V212system_clock3nowEv: jmp rig_chrono_now@PLT\n" );
__asm__( ".globl rig_alias_open64\n.type rig_alias_open64,@function\nrig_alias_open64: jmp rig_open@PLT\n" );
__asm__( ".globl rig_alias_setrlimit64\n.type rig_alias_setrlimit64,@function\nrig_alias_setrlimit64: jmp rig_setrlimit@PLT\n" );
