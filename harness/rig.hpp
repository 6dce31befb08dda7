// The rig: wrappers that efsw's system-call symbols are renamed to (objcopy), so that the harness decides when the
// delivery thread goes on, how many notifications it sees, which calls fail, and what happens between two calls.
#pragma once
#include <cstdint>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

namespace rig {

enum WState { W_RUNNING, W_PARKED_FD, W_PARKED_SLEEP, W_EXITED };

struct WorkerView {
	int id;
	WState state;
};

// --- life cycle of one case -------------------------------------------------------------------------------------
void registerHarnessThread();		// call on every harness thread
void resetCase();					// forget workers, fds, faults, counters (all efsw threads must be gone)
void setFree( bool on );			// free-running: no parking
int workerCount();					// workers ever seen in this case
WState workerState( int w );
// Wait until every worker is parked or exited and at least minWorkers were seen. false = hang.
bool waitParked( int minWorkers, double timeout_s );
bool waitExited( int w, double timeout_s );

// --- stepping ---------------------------------------------------------------------------------------------------
int pendingEvents( int w );			// notifications queued for the descriptors worker w waits on
int pendingTotal();
// Let a worker parked at a descriptor see up to n notifications; returns after it parked again. false = hang
bool pumpEvents( int w, int n );
// Let a worker parked at a descriptor wait time out (only if its wait has a timeout).
bool idleTimeout( int w );
// Let a sleeping worker sleep to the end (virtual time advances).
bool wakeSleeper( int w );
bool waitHasTimeout( int w );
// cap on the number of notifications one read() returns (0 = no cap)
void setReadCap( int n );

double hangLimit();

// --- clock ------------------------------------------------------------------------------------------------------
uint64_t virtualNowUs();
void setClockBaseUs( uint64_t us );
struct SleepRec { int worker; uint64_t us; bool badArg; };
std::vector<SleepRec> takeSleeps();
uint64_t fdWaits();					// number of descriptor waits that returned
int64_t shortestIdleWait();			// shortest time limit (us) of a wait after several that ended without an event; -1: none

// --- overflow ---------------------------------------------------------------------------------------------------
void setQueueLimit( int n );		// simulated kernel queue limit (0 = none)
int overflows();					// simulated or real overflow events handed to efsw
// raw notifications handed over (for evidence)
uint64_t eventsDelivered();

// --- faults and injection -----------------------------------------------------------------------------------------
// nth occurrence (from 1) since arming; call "*" = any; prefix: only calls with a path there
struct Fault { std::string call; int nth; int err; bool used; std::string prefix; };
std::vector<std::pair<std::string, std::string>> firedFaults(); // call and path of the faults that fired
void armFault( const Fault& f );
void clearFaults();
int faultsFired();
// run f just before the k-th wrapped call of an efsw worker from now on (k>=1)
void injectAtCall( int k, std::function<void()> f );
void clearInjections();
int injectionsFired();
// per call counters of this case
std::map<std::string, int> callCounts();
std::string lastCall();

// --- API scope (harness thread inside a library call) ------------------------------------------------------------
struct ApiScope { ApiScope(); ~ApiScope(); };

// --- virtual file system facts -----------------------------------------------------------------------------------
void setFsType( const std::string& prefix, long ftype );	// statfs() result for paths under prefix
void setFsTypeErr( const std::string& prefix, int err );
void setDev( const std::string& prefix, uint64_t dev, bool isRoot ); // st_dev for paths under prefix
void setMountsFile( const std::string& path );
void setInoMap( std::function<uint64_t( uint64_t )> f );
void setModeOverride( const std::string& path, unsigned clearBits );
void setUid( int uid );				// what getuid() tells efsw
int openDirs();						// opendir minus closedir
int openMnt();						// setmntent minus endmntent
// memory that efsw's threads and the harness threads inside ApiScope allocate, and that nobody freed yet
void leakStart();
struct Leak { size_t blocks, bytes; std::string where; };
Leak leakNow( bool goOn );
struct NoCount { NoCount(); ~NoCount(); }; // allocations of this scope are not efsw's
std::vector<int> inotifyFds();		// open ones
void setHighFd( int minfd );		// inotify descriptors get numbers >= minfd

extern bool g_oobSelect;			// FD_SET on a descriptor >= FD_SETSIZE was observed through select()

} // namespace rig
