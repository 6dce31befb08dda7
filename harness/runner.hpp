#pragma once
#include "model.hpp"
#include <efsw/efsw.hpp>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <sys/stat.h>
#include <vector>

struct Event {
	long n = 0;		   // delivery number
	long opSeq = 0;	   // model.seq when it was delivered
	int slot = -1;	   // listener slot
	long id = 0;
	std::string dir, name, old;
	int action = 0;
	bool missed = false;
	int w = -1; // index of the watch it belongs to (alive at delivery), -1 unknown
	std::string str() const;
};

struct Attr {
	int type = 0; // 1 file 2 dir 3 other
	bool link = false;
	uint64_t ino = 0, lino = 0; // lino: of the link itself
	int64_t mtime = 0, size = 0;
	unsigned uid = 0, gid = 0, mode = 0;
	bool sameMeta( const Attr& o ) const {
		return mtime == o.mtime && size == o.size && uid == o.uid && gid == o.gid && mode == o.mode;
	}
};
typedef std::map<std::string, Attr> Snap;

struct Runner;

struct Slot : efsw::FileWatchListener {
	Runner* r = nullptr;
	int slot = 0;
	void handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& name, efsw::Action a,
						   const std::string& old ) override;
	void handleMissedFileActions( efsw::WatchID id, const std::string& dir ) override;
};

struct Watch {
	int slot = 0;
	long id = 0;
	std::string root; // relative to base
	bool rec = false, syn = false;
	bool alive = true;
	long addSeq = 0;
	std::set<std::string> shadow;
	bool unsure = false; // polling: changes were made during the poll before
	Snap psnap; // polling: expected state by replay
};

struct Verdict {
	bool ok = true;
	std::string msg;
	bool hang = false;
};

struct Case {
	std::map<std::string, std::string> hdr;
	std::vector<Op> ops;
	std::string text() const;
	static Case parse( const std::string& t );
	std::string get( const std::string& k, const std::string& d = "" ) const {
		auto it = hdr.find( k );
		return it == hdr.end() ? d : it->second;
	}
	int geti( const std::string& k, int d ) const {
		auto it = hdr.find( k );
		return it == hdr.end() ? d : atoi( it->second.c_str() );
	}
};

struct Runner {
	std::string prop, base;
	Case c;
	Model model;
	Verdict v;
	std::unique_ptr<efsw::FileWatcher> fw;
	bool poll = false, running = false;
	unsigned period = 1000;
	std::map<int, std::unique_ptr<Slot>> slots;
	std::vector<Watch> watches; // by order of successful add
	std::vector<Event> events;	// since last settle
	long evNo = 0;
	std::vector<std::pair<int, Op>> cbInject; // remaining callbacks -> op
	int worker = -1;
	bool injectedThisEpoch = false;
	bool apiActive = false;
	bool overflowEpoch = false, overflowBefore = false;
	std::map<std::string, long> stats;
	std::vector<std::string> trace;
	bool verbose = false;
	long addsDone = 0;
	bool inoReuse = false; // inode numbers are reused at once, as many file systems do
	std::map<uint64_t, uint64_t> vino;
	void renumber();
	int overflowsSeen = 0;

	Runner( const std::string& prop, const std::string& base ) : prop( prop ), base( base ) {}
	Verdict run( const Case& cs );

	// pieces
	void fail( const std::string& m );
	void hang( const std::string& where );
	bool doFs( const Op& o );
	void step( const Op& o );
	void settle( bool check = true );
	bool settleRaw();
	void pollOnce( bool check );
	void analyzePoll( const std::vector<Snap>& s1, bool injected, bool check );
	void probe();
	void checkNative();
	void checkMissed( int overflows );
	void checkPoll( const Snap& s1 );
	void checkConverge( Watch& w, const std::vector<Event>& ev, bool strict );
	void checkSound( Watch& w, const std::vector<Event>& ev );
	void checkSequence( Watch& w, const std::vector<Event>& ev );
	void checkModified( Watch& w, const std::vector<Event>& ev );
	void checkNames( const Event& e, const Watch& w );
	void checkSilent( const std::string& why );
	std::string rel( const std::string& abs );
	Watch* watchBySlot( int s );
	void doAdd( const Op& o );
	void doRemove( const Op& o );
	void shutdown();
	void onEvent( Event e );
	Snap snapshot( const std::string& root, bool rec );
	bool on( const char* p ) const { return prop == p; }
	long addWatchRaw( int slot, const std::string& dir, bool rec, bool syn );
};

bool inScope( const Watch& w, const std::string& path ); // path of an entry, relative
std::string strf( const char* f, ... );
