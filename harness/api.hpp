// apx: sequences of calls of the C++ and C interfaces on generated trees, judged from what the file system itself says.
#pragma once
#include "gen.hpp"
#include "harness.hpp"
#include "rig.hpp"
#include <atomic>
#include <efsw/efsw.h>
#include <efsw/efsw.hpp>
#include <pthread.h>

struct Api;

struct Ev {
	int h = -1, slot = -1;
	long id = 0;
	std::string dir, name, old;
	int action = 0;
	bool missed = false;
	long n = 0;
	std::string str() const;
};

struct Listener : efsw::FileWatchListener {
	Api* a = nullptr;
	int h = 0, slot = 0;
	void handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& name, efsw::Action act,
						   const std::string& old ) override;
	void handleMissedFileActions( efsw::WatchID id, const std::string& dir ) override;
};

struct Entry {
	int slot = 0;
	long id = 0;
	std::string given, dir; // dir: as the library should list it
	std::string real;		// where it is
	bool rec = false, syn = false;
	uint64_t ino = 0;
	std::set<std::string> may;	  // directories that may be watched: nothing is expected about them
	std::set<std::string> linked; // directories reached by links that must be watched
	std::set<uint64_t> linkInos;  // everything that was ever reached by links
	std::map<uint64_t, std::string> known; // directories that must be watched by now
	std::set<std::string> exempt; // prefixes that a failed call excused
	std::set<std::string> old;	  // what was there when it was added and has not been touched since
};

struct Mark {
	int h;
	int slot;
	long id;
	std::string dir, name; // real directory
	bool seen = false;
	uint64_t ino = 0; // of the directory
};

struct CFns {
	decltype( &efsw_create ) create;
	decltype( &efsw_release ) release;
	decltype( &efsw_getlasterror ) getlasterror;
	decltype( &efsw_clearlasterror ) clearlasterror;
	decltype( &efsw_addwatch ) addwatch;
	decltype( &efsw_addwatch_withoptions ) addwatch_withoptions;
	decltype( &efsw_removewatch ) removewatch;
	decltype( &efsw_removewatch_byid ) removewatch_byid;
	decltype( &efsw_watch ) watch;
	decltype( &efsw_follow_symlinks ) follow_symlinks;
	decltype( &efsw_follow_symlinks_isenabled ) follow_symlinks_isenabled;
	decltype( &efsw_allow_outofscopelinks ) allow_outofscopelinks;
	decltype( &efsw_outofscopelinks_isallowed ) outofscopelinks_isallowed;
};

struct Handle {
	bool alive = false, c = false, poll = false, follow = false, oos = false, started = false;
	unsigned period = 1000;
	efsw::FileWatcher* fw = nullptr;
	efsw_watcher ch = nullptr;
	const CFns* f = nullptr; // the C functions: of the library or of its debug build
	int worker = -1;
	int fd = -1; // inotify descriptor
	std::vector<Entry> es;
	std::map<int, std::unique_ptr<Listener>> ls;
	std::set<long> gone; // ids of removed watches
	int depth = 0;		 // callbacks that run now
	bool tidKnown = false;
	pthread_t tid;
	long listings0 = 0, fsSeq = 0;
	std::set<uint64_t> over; // roots inside the tree of another watch: the native watcher has one watch per directory
};

struct ApiCase {
	std::map<std::string, std::string> hdr;
	std::vector<Op> ops;
	std::string text() const;
	static ApiCase parse( const std::string& t );
	int geti( const std::string& k, int d ) const {
		auto it = hdr.find( k );
		return it == hdr.end() ? d : atoi( it->second.c_str() );
	}
};

struct Api {
	std::string prop, base;
	bool verbose = false, ok = true, hung = false;
	std::string msg;
	std::map<std::string, long> stats;
	std::map<int, Handle> hs;
	std::vector<Ev> evs; // since the last settle
	long evNo = 0, probeNo = 0;
	int uid = 0;
	std::vector<Mark> marks;
	std::string expErr; // last failing call: text pieces
	long expCode = 0;
	std::string lastText;
	std::string expDirA, expDirB;
	bool faultsUsed = false;
	std::map<std::string, long> fstypes; // real path -> type
	std::map<std::string, std::pair<bool, bool>> mounts; // mount point -> (is device, listed)
	long devs = 0;
	std::vector<std::function<void( int )>> cbHooks;	 // run inside the next callbacks (handle index given)
	bool lenientAll = false;
	size_t exemptDone = 0;

	Api( const std::string& p, const std::string& b ) : prop( p ), base( b ) {}
	void run( const ApiCase& c );
	bool on( const char* list ) const;
	void fail( const char* props, const std::string& m );
	void step( const Op& o );
	std::string path( const std::string& p ) const;
	void onEvent( Ev e );
	void record( const Ev& e );
	void errLog( long code, const std::string& text );

	void opNew( const Op& o );
	void opRelease( int h );
	void opAdd( const Op& o );
	void opRemove( const Op& o );
	void opWatch( int h );
	bool takeTurns();
	bool settle( bool checkMarks = true );
	void probe();
	void mark( const std::string& p );
	void dirsCheck( Handle& H, const char* when );
	void errCheck( const char* when );
	void kernelCheck( int hi );
	void noteFaults();
	void touched( const std::string& p );
	std::string proc0;	// the process when the case began
	std::string procState();
	std::map<std::string, std::string> treeState();
	void act( const Op& o );
	void trackLinks( bool sym );
	bool fuse = false; // there are FUSE file systems
	std::set<std::string> targetNames; // last parts of the targets of links
	long rawAdd( Handle& H, int slot, const std::string& p, bool rec, const std::string& options );
	void cover( const Handle& H, const Entry& e, std::set<std::string>& must, std::set<std::string>& link,
				std::set<std::string>& may );
	bool isRemote( const std::string& p );
	bool readable( const std::string& p );
	bool exempt( const Handle& H, const Entry& e, const std::string& d );
	bool otherRoot( const Handle& H, const Entry& e, const std::string& d );
	void trackOverlaps( Handle& H );
	std::map<uint64_t, std::string> settled; // directories at the last settle
	long fsSeq = 0;
	bool mayReach( const Entry& e, const std::string& d );
	std::vector<Op> log;
	bool shared( const Handle& H, const Entry& e, const std::string& d );
	bool ofMovedRoot( const Entry& e, const std::string& d );
	void sleepCheck( int h, int n );
	void differ();
	void compareTicks();
	void overflow( int h );
	std::map<int, std::vector<long>> rets;
	std::set<std::string> missedIn[2]; // by the watches of C++ and of C
	std::vector<std::string> story; // what handle 0 did
	pthread_t mainThread;
	bool inHook = false;
	Handle* relHandle = nullptr;
	std::atomic<int> relAt{ 0 };
	std::atomic<bool> relRunning{ false };
	pthread_t relThread;
};

ApiCase apiGenerate( const std::string& prop, uint64_t seed, uint64_t idx );
