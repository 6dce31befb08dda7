#include "api.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <limits.h>
#include <locale.h>
#include <pthread.h>
#include <sstream>
#include <sys/inotify.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace rig;
static Api* G = nullptr;
static std::string sf( const char* f, ... ) {
	char b[4096];
	va_list ap;
	va_start( ap, f );
	vsnprintf( b, sizeof b, f, ap );
	va_end( ap );
	return b;
}
static const char* ACT[] = { "?", "Add", "Delete", "Modified", "Moved" };
std::string Ev::str() const {
	if ( missed )
		return sf( "[h%d id%ld MissedActions dir=%s]", h, id, esc( dir ).c_str() );
	return sf( "[h%d slot%d id%ld %s dir=%s name=%s%s%s]", h, slot, id, action >= 0 && action < 5 ? ACT[action] : "?",
			   esc( dir ).c_str(), esc( name ).c_str(), old.empty() ? "" : " old=", esc( old ).c_str() );
}

std::string ApiCase::text() const {
	std::string s;
	for ( auto& h : hdr )
		s += "#" + h.first + " " + h.second + "\n";
	for ( auto& o : ops )
		s += o.text() + "\n";
	return s;
}
ApiCase ApiCase::parse( const std::string& t ) {
	ApiCase c;
	std::istringstream in( t );
	std::string l;
	while ( std::getline( in, l ) ) {
		if ( l.empty() )
			continue;
		if ( l[0] == '#' ) {
			size_t p = l.find( ' ' );
			c.hdr[l.substr( 1, p == std::string::npos ? p : p - 1 )] = p == std::string::npos ? "" : l.substr( p + 1 );
		} else
			c.ops.push_back( parseOp( l ) );
	}
	return c;
}

// --- identity of the caller -----------------------------------------------------------------------------------------
struct As { // another user, in this thread only
	bool on;
	explicit As( int uid ) : on( uid > 0 ) {
		if ( on && syscall( SYS_setresuid, uid, uid, 0 ) != 0 )
			on = false;
	}
	~As() {
		if ( on )
			syscall( SYS_setresuid, 0, 0, 0 );
	}
};

// --- listeners --------------------------------------------------------------------------------------------------------
void Listener::handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& name, efsw::Action act,
								 const std::string& old ) {
	NoCount nc;
	Ev e;
	e.h = h;
	e.slot = slot;
	e.id = id;
	e.dir = dir;
	e.name = name;
	e.old = old;
	e.action = act;
	a->onEvent( e );
}
void Listener::handleMissedFileActions( efsw::WatchID id, const std::string& dir ) {
	NoCount nc;
	Ev e;
	e.h = h;
	e.slot = slot;
	e.id = id;
	e.dir = dir;
	e.missed = true;
	a->onEvent( e );
}

// The library, and its debug and verbose build, which is only linked for C30 (see second_copy in vlib/build.py)
extern "C" {
extern decltype( efsw_create ) dbg_efsw_create __attribute__( ( weak ) );
extern decltype( efsw_release ) dbg_efsw_release __attribute__( ( weak ) );
extern decltype( efsw_getlasterror ) dbg_efsw_getlasterror __attribute__( ( weak ) );
extern decltype( efsw_clearlasterror ) dbg_efsw_clearlasterror __attribute__( ( weak ) );
extern decltype( efsw_addwatch ) dbg_efsw_addwatch __attribute__( ( weak ) );
extern decltype( efsw_addwatch_withoptions ) dbg_efsw_addwatch_withoptions __attribute__( ( weak ) );
extern decltype( efsw_removewatch ) dbg_efsw_removewatch __attribute__( ( weak ) );
extern decltype( efsw_removewatch_byid ) dbg_efsw_removewatch_byid __attribute__( ( weak ) );
extern decltype( efsw_watch ) dbg_efsw_watch __attribute__( ( weak ) );
extern decltype( efsw_follow_symlinks ) dbg_efsw_follow_symlinks __attribute__( ( weak ) );
extern decltype( efsw_follow_symlinks_isenabled ) dbg_efsw_follow_symlinks_isenabled __attribute__( ( weak ) );
extern decltype( efsw_allow_outofscopelinks ) dbg_efsw_allow_outofscopelinks __attribute__( ( weak ) );
extern decltype( efsw_outofscopelinks_isallowed ) dbg_efsw_outofscopelinks_isallowed __attribute__( ( weak ) );
}
static const CFns cRelease = { efsw_create, efsw_release, efsw_getlasterror, efsw_clearlasterror, efsw_addwatch, efsw_addwatch_withoptions, efsw_removewatch, efsw_removewatch_byid, efsw_watch, efsw_follow_symlinks, efsw_follow_symlinks_isenabled, efsw_allow_outofscopelinks, efsw_outofscopelinks_isallowed };
static const CFns cDebug = { dbg_efsw_create, dbg_efsw_release, dbg_efsw_getlasterror, dbg_efsw_clearlasterror, dbg_efsw_addwatch, dbg_efsw_addwatch_withoptions, dbg_efsw_removewatch, dbg_efsw_removewatch_byid, dbg_efsw_watch, dbg_efsw_follow_symlinks, dbg_efsw_follow_symlinks_isenabled, dbg_efsw_allow_outofscopelinks, dbg_efsw_outofscopelinks_isallowed };
struct Nowhere : std::streambuf { // what the verbose build prints
	int overflow( int c ) override { return c == EOF ? 0 : c; }
	std::streamsize xsputn( const char*, std::streamsize n ) override { return n; }
};
static Nowhere nowhere;
extern std::ostream dbgOut asm( "rig_dbgout" );
std::ostream dbgOut( &nowhere );

// C callbacks: the slot of a watch selects function (slot % 3), parameter (slot / 3 % 2) and missed function (slot / 6 % 3)
struct CParam {
	int h, p;
	efsw_watcher* ch;
};
static std::map<std::pair<int, int>, std::unique_ptr<CParam>> cparams;
static std::atomic<bool> cWrong( false );
static int handleOf( efsw_watcher w ) {
	for ( auto& h : G->hs )
		if ( h.second.c && h.second.ch == w )
			return h.first;
	return -2;
}
template <int F>
static void cAct( efsw_watcher w, efsw_watchid id, const char* dir, const char* name, enum efsw_action a, const char* old,
				  void* param ) {
	NoCount nc;
	CParam* p = (CParam*)param;
	Ev e;
	e.h = p->h;
	if ( handleOf( w ) != p->h )
		cWrong = true;
	e.slot = F + 3 * p->p;
	e.id = id;
	e.dir = dir;
	e.name = name;
	e.old = old;
	e.action = a;
	G->onEvent( e );
}
template <int M> static void cMiss( efsw_watcher w, efsw_watchid id, const char* dir ) {
	NoCount nc;
	Ev e;
	e.h = handleOf( w );
	e.slot = M;
	e.id = id;
	e.dir = dir;
	e.missed = true;
	G->onEvent( e );
}
static efsw_pfn_fileaction_callback cFn( int slot ) {
	switch ( slot % 3 ) {
		case 0:
			return cAct<0>;
		case 1:
			return cAct<1>;
		default:
			return cAct<2>;
	}
}
static efsw_pfn_handle_missed_fileactions cMissFn( int slot ) {
	switch ( slot / 6 % 3 ) {
		case 1:
			return cMiss<1>;
		case 2:
			return cMiss<2>;
		default:
			return nullptr;
	}
}
static bool slotMatches( const Handle& H, int evSlot, int slot ) { return H.c ? evSlot == slot % 6 : evSlot == slot; }

static std::string real( const std::string& p );
static pthread_mutex_t evM = PTHREAD_MUTEX_INITIALIZER;
void Api::onEvent( Ev e ) {
	std::function<void( int )> hook;
	Handle* H = hs.count( e.h ) ? &hs[e.h] : nullptr;
	{
		pthread_mutex_lock( &evM );
		e.n = ++evNo;
		if ( H && on( "C27,C28" ) ) {
			if ( pthread_equal( pthread_self(), mainThread ) )
				fail( "C27", "a callback was made on the thread of the caller: " + e.str() );
			if ( !H->started )
				fail( "C27", "a callback was made before watch() was called: " + e.str() );
			if ( H->tidKnown && !pthread_equal( H->tid, pthread_self() ) )
				fail( "C27", "a callback was made on another thread than the ones before: " + e.str() );
			if ( H->depth > 0 )
				fail( "C27,C28", "a callback was made while another one was running: " + e.str() );
			if ( H->gone.count( e.id ) )
				fail( "C28", "a callback was made for a watch that had been removed: " + e.str() );
			H->tid = pthread_self();
			H->tidKnown = true;
			H->depth++;
			stats["callbacks"]++;
		}
		if ( H && !faultsUsed && !H->follow && on( "C12,C22,C27,C28" ) && !e.missed && e.action != 3 )
			for ( auto& E : H->es ) {
				if ( E.id != e.id || E.old.empty() )
					continue;
				std::string d = real( e.dir );
				if ( E.old.count( d + "/" + ( e.action == 4 ? e.old : e.name ) ) )
					fail( "C12,C22,C27,C28", "reported although nothing has happened to it since the watch was added: " + e.str() );
				stats["events_after_add"]++;
			}
		if ( e.h == 0 && on( "C29" ) )
			record( e );
		if ( verbose )
			fprintf( stderr, "    %s\n", e.str().c_str() );
		evs.push_back( e );
		if ( !cbHooks.empty() ) {
			hook = cbHooks.front();
			cbHooks.erase( cbHooks.begin() );
		}
		pthread_mutex_unlock( &evM );
	}
	if ( hook ) {
		inHook = true;
		hook( e.h );
		inHook = false;
	}
	// the other FileWatchers work while a callback of this one is running
	if ( e.h == 0 && on( "C29" ) && e.n % 3 == 0 && !inHook && !pthread_equal( pthread_self(), mainThread ) )
		for ( auto& hp : hs ) {
			Handle& B = hp.second;
			if ( hp.first == 0 || !B.alive || !B.started || hung )
				continue;
			bool good = true;
			if ( !B.poll && pendingEvents( B.worker ) > 0 )
				good = pumpEvents( B.worker, 1 + (int)( e.n % 4 ) );
			else if ( B.poll && e.n % 2 )
				good = wakeSleeper( B.worker );
			else
				continue;
			stats["nested_turns"]++;
			if ( !good )
				fail( "C29", sf( "the thread of handle %d does not go on while a callback of handle 0 is running (last call %s)", hp.first, lastCall().c_str() ) ), hung = true;
		}
	if ( H && H->depth > 0 )
		H->depth--;
}

// C29: what handle 0 delivers, with its watches numbered in the order they were added
void Api::record( const Ev& e ) {
	auto& r = rets[0];
	struct stat st;
	// the time of a directory may not differ between two changes that follow each other at once
	if ( hs[0].poll && e.action == 3 && !( lstat( ( e.dir + e.name ).c_str(), &st ) == 0 && S_ISREG( st.st_mode ) ) )
		return;
	long n = -1;
	for ( size_t i = 0; i < r.size(); i++ )
		if ( r[i] == e.id )
			n = (long)i;
	story.push_back( e.missed ? sf( "missed actions watch=%ld dir=%s", n, esc( e.dir ).c_str() )
							: sf( "%s watch=%ld slot=%d dir=%s name=%s old=%s", e.action >= 0 && e.action < 5 ? ACT[e.action] : "?", n, e.slot,
								  esc( e.dir ).c_str(), esc( e.name ).c_str(), esc( e.old ).c_str() ) );
}

// --- helpers ----------------------------------------------------------------------------------------------------------
bool Api::on( const char* list ) const { return strstr( list, prop.c_str() ) != nullptr; }
void Api::fail( const char* props, const std::string& m ) {
	if ( ok && on( props ) ) {
		ok = false;
		msg = m;
	}
}
static uint64_t inoOf( const std::string& p ) {
	struct stat st;
	return stat( p.c_str(), &st ) == 0 ? st.st_ino : 0;
}
static bool isDir( const std::string& p ) {
	struct stat st;
	return stat( p.c_str(), &st ) == 0 && S_ISDIR( st.st_mode );
}
static bool isLink( const std::string& p ) {
	struct stat st;
	return lstat( p.c_str(), &st ) == 0 && S_ISLNK( st.st_mode );
}
static std::string real( const std::string& p ) {
	char b[PATH_MAX];
	return realpath( p.c_str(), b ) ? b : "";
}
static bool within( const std::string& p, const std::string& d ) { return d == "/" || p == d || ( p.size() > d.size() && p.compare( 0, d.size(), d ) == 0 && p[d.size()] == '/' ); }
static std::vector<std::string> list( const std::string& d ) {
	std::vector<std::string> v;
	if ( DIR* dp = opendir( d.c_str() ) ) {
		while ( dirent* e = readdir( dp ) )
			if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) )
				v.push_back( e->d_name );
		closedir( dp );
	}
	std::sort( v.begin(), v.end() );
	return v;
}
static void walkDirs( const std::string& d, std::vector<std::string>& out ) {
	out.push_back( d );
	for ( auto& n : list( d ) ) {
		struct stat st;
		if ( lstat( ( d + "/" + n ).c_str(), &st ) == 0 && S_ISDIR( st.st_mode ) )
			walkDirs( d + "/" + n, out );
	}
}
static int countDir( const char* d ) {
	int n = 0;
	if ( DIR* dp = opendir( d ) ) {
		while ( readdir( dp ) )
			n++;
		closedir( dp );
	}
	return n;
}
static int fdCount() { return countDir( "/proc/self/fd" ); }
static int threadCount() { return countDir( "/proc/self/task" ); }
static std::string strip( std::string s ) {
	while ( s.size() > 1 && s.back() == '/' )
		s.pop_back();
	return s;
}
// @/x is below the scratch directory, everything after it verbatim; other paths are relative to the scratch directory
std::string Api::path( const std::string& p ) const { return p.compare( 0, 2, "@/" ) == 0 ? base + p.substr( 1 ) : p; }

static const long REMOTE[] = { 0x5346414F, 0x61756673, 0x00C36400, 0xFF534D42, 0x73757245, 0x19830326, 0x65735543, 0x01161970,
							   0x47504653, 0x6B414653, 0x0BD00BD0, 0x564C,	   0x6969,	   0x6E667364, 0x7461636F, 0xAAD7AAEA,
							   0x50495045, 0x517B,	   0xFE534D42, 0xBEEFDEAD, 0xBACBACBC, 0xA501FCF5 };
static const long LOCAL[] = { 0xEF53, 0x58465342, 0x9123683E, 0x01021994, 0x794c7630, 0x2FC12FC1, 0xF2F52010, 0x4d44,
							  0x52654973, 0x3153464a, 0x00011954, 0x5346544e, 0xE0F5E1E2, 0x73717368, 0 };
static const long FUSEBLK = 0x65735546;

bool Api::isRemote( const std::string& p ) {
	long t = 0;
	size_t best = 0;
	for ( auto& f : fstypes )
		if ( within( p, f.first ) && f.first.size() >= best ) {
			best = f.first.size();
			t = f.second;
		}
	if ( !best )
		return false;
	if ( t == FUSEBLK ) {
		std::string mp;
		bool listed = true; // the file system that really is there
		for ( auto& m : mounts )
			if ( within( p, m.first ) && m.first.size() > mp.size() ) {
				mp = m.first;
				listed = m.second.second;
			}
		return !listed;
	}
	for ( long r : REMOTE )
		if ( r == t )
			return true;
	return false;
}
bool Api::readable( const std::string& p ) {
	As as( uid );
	return access( p.c_str(), R_OK ) == 0;
}

// The root of another watch of the same watcher, or a directory that two of them could reach
bool Api::otherRoot( const Handle& H, const Entry& e, const std::string& d ) {
	uint64_t i = inoOf( d );
	if ( H.over.count( i ) )
		return true;
	for ( auto& x : H.es )
		if ( x.id != e.id && x.ino == i )
			return true;
	return false;
}

// Which real directories a watch has to report (must, or link if they are reached through links), and which it may
void Api::cover( const Handle& H, const Entry& e, std::set<std::string>& must, std::set<std::string>& link,
				 std::set<std::string>& may ) {
	struct Rec {
		Api& a;
		const Handle& H;
		const Entry& e;
		std::set<std::string>&must, &link, &may;
		std::set<std::string> seen;
		void go( const std::string& d, int kind ) { // 0 real, 1 by link, 2 may
			if ( d != e.real && kind != 2 && a.otherRoot( H, e, d ) )
				kind = 2;
			auto& set = kind == 0 ? must : kind == 1 ? link : may;
			if ( !set.insert( d ).second )
				return;
			if ( !e.rec )
				return;
			for ( auto& n : list( d ) ) {
				std::string c = d + "/" + n;
				struct stat st;
				if ( lstat( c.c_str(), &st ) != 0 )
					continue;
				if ( S_ISDIR( st.st_mode ) ) {
					if ( H.poll ? a.isRemote( c ) && !a.isRemote( d ) : a.isRemote( c ) )
						continue;
					go( c, a.readable( c ) ? kind : 2 );
				} else if ( S_ISLNK( st.st_mode ) && H.follow && isDir( c ) ) {
					std::string t = real( c );
					if ( t.empty() || !within( t, a.base ) )
						continue;
					if ( H.oos || within( t, d ) )
						go( t, kind == 2 || !a.readable( t ) ? 2 : 1 );
				}
			}
		}
	} r = { *this, H, e, must, link, may };
	if ( e.real.empty() || inoOf( e.real ) != e.ino || isLink( e.real ) )
		return;
	r.go( e.real, 0 );
	for ( auto& l : e.may )
		if ( isDir( l ) )
			r.go( l, 2 );
	for ( auto& m : must )
		link.erase( m ), may.erase( m );
	for ( auto& m : link )
		may.erase( m );
}

bool Api::exempt( const Handle& H, const Entry& e, const std::string& d ) {
	// a failure may have hidden links
	if ( !e.exempt.empty() && H.follow && !within( d, e.real ) )
		return true;
	for ( auto& x : e.exempt )
		if ( within( d, x ) )
			return true;
	(void)H;
	return false;
}

// Directories below a root that is (or was) inside the tree of another watch of the same watcher: which of the two
// reports them is not specified
bool Api::shared( const Handle& H, const Entry& e, const std::string& d ) {
	for ( std::string p = d;; p = p.substr( 0, p.rfind( '/' ) ) ) {
		if ( otherRoot( H, e, p ) )
			return true;
		if ( p.size() <= base.size() || p.rfind( '/' ) == 0 || p.rfind( '/' ) == std::string::npos )
			return false;
	}
}
void Api::trackOverlaps( Handle& H ) {
	if ( H.es.size() < 2 )
		return;
	std::map<uint64_t, size_t> owner;
	for ( size_t k = 0; k < H.es.size(); k++ )
		owner[H.es[k].ino] = k;
	for ( size_t k = 0; k < H.es.size(); k++ ) {
		std::set<std::string> s[3];
		cover( H, H.es[k], s[0], s[1], s[2] );
		s[1].insert( H.es[k].real );
		for ( auto& l : H.es[k].linked )
			s[1].insert( l );
		for ( auto& l : H.es[k].may )
			s[1].insert( l );
		for ( auto& x : s )
			for ( auto& d : x ) {
				uint64_t i = inoOf( d );
				auto ins = owner.insert( { i, k } );
				if ( i && !ins.second && ins.first->second != k )
					H.over.insert( i );
			}
	}
}
// Something that was reached by a link, or what is below it now, may still be watched
bool Api::mayReach( const Entry& e, const std::string& d ) {
	for ( std::string p = d;; p = p.substr( 0, p.rfind( '/' ) ) ) {
		if ( e.may.count( p ) || e.linked.count( p ) || ( p != e.real && e.linkInos.count( inoOf( p ) ) ) )
			return true;
		if ( p.size() <= base.size() || p.rfind( '/' ) == 0 || p.rfind( '/' ) == std::string::npos )
			return false;
	}
}
// The root of the watch is no longer where it was, or was replaced: d is part of what it may still report
bool Api::ofMovedRoot( const Entry& e, const std::string& d ) {
	if ( within( d, e.real ) )
		return true;
	for ( std::string p = d;; p = p.substr( 0, p.rfind( '/' ) ) ) {
		if ( inoOf( p ) == e.ino )
			return true;
		if ( p.size() <= base.size() || p.rfind( '/' ) == 0 || p.rfind( '/' ) == std::string::npos )
			return false;
	}
}

// Directories reached by links: those that appear with a new link must be watched; those that come or go another way may
void Api::trackLinks( bool sym ) {
	for ( auto& hp : hs ) {
		Handle& H = hp.second;
		if ( !H.alive )
			continue;
		trackOverlaps( H );
		if ( !H.follow )
			continue;
		for ( auto& e : H.es ) {
			if ( !e.rec )
				continue;
			std::set<std::string> must, link, may;
			cover( H, e, must, link, may );
			for ( auto& l : e.linked )
				if ( !link.count( l ) )
					e.may.insert( l );
			for ( auto& l : may )
				e.may.insert( l );
			for ( auto& s : { link, may } )
				for ( auto& l : s )
					e.linkInos.insert( inoOf( l ) );
			for ( auto& l : link )
				if ( !e.linked.count( l ) ) {
					e.linked.insert( l );
					if ( !sym )
						e.may.insert( l );
				}
		}
	}
}

// --- operations -------------------------------------------------------------------------------------------------------
void Api::opNew( const Op& o ) { // new H native|poll cpp|c PERIOD FLAGS
	int i = atoi( o.a[0].c_str() );
	if ( hs.count( i ) && hs[i].alive )
		return;
	hs[i] = Handle();
	Handle& H = hs[i];
	H.poll = o.a.size() > 1 && o.a[1] == "poll";
	H.c = o.a.size() > 2 && ( o.a[2] == "c" || o.a[2] == "cdbg" );
	H.f = H.c && o.a[2] == "cdbg" ? &cDebug : &cRelease;
	int per = o.a.size() > 3 ? atoi( o.a[3].c_str() ) : 1000;
	std::string fl = o.a.size() > 4 ? o.a[4] : "";
	H.follow = fl.find( 'f' ) != std::string::npos;
	H.oos = fl.find( 'o' ) != std::string::npos;
	std::vector<int> before = inotifyFds();
	size_t fired = firedFaults().size();
	{
		As as( uid );
		ApiScope s;
		if ( H.c ) {
			H.ch = H.f->create( H.poll ? ( fl.find( '2' ) != std::string::npos ? 2 : fl.find( '-' ) != std::string::npos ? -1 : 1 ) : 0 );
			H.period = 1000;
			if ( H.f->follow_symlinks_isenabled( H.ch ) || H.f->outofscopelinks_isallowed( H.ch ) )
				fail( "C21,C15,C30", "links are followed by default" );
			H.f->follow_symlinks( H.ch, H.follow ? ( fl.find( '2' ) != std::string::npos ? 2 : 1 ) : 0 );
			H.f->allow_outofscopelinks( H.ch, H.oos ? 1 : 0 );
			if ( !!H.f->follow_symlinks_isenabled( H.ch ) != H.follow || !!H.f->outofscopelinks_isallowed( H.ch ) != H.oos )
				fail( "C21,C30", "the link options read back differ from those set" );
		} else {
			if ( per > 0 ) {
				H.fw = new efsw::FileWatcher( H.poll, (unsigned)per );
				H.period = per;
			} else if ( per == 0 ) {
				H.fw = new efsw::FileWatcher( H.poll );
				H.period = 1000;
			} else {
				H.fw = new efsw::FileWatcher();
				H.poll = false;
				H.period = 1000;
			}
			if ( H.fw->followSymlinks() || H.fw->allowOutOfScopeLinks() )
				fail( "C21,C15,C30", "links are followed by default" );
			H.fw->followSymlinks( H.follow );
			H.fw->allowOutOfScopeLinks( H.oos );
			if ( H.fw->followSymlinks() != H.follow || H.fw->allowOutOfScopeLinks() != H.oos )
				fail( "C21,C30", "the link options read back differ from those set" );
		}
	}
	H.alive = true;
	H.fsSeq = fsSeq;
	auto ff = firedFaults();
	for ( size_t k = fired; k < ff.size(); k++ )
		if ( ff[k].first == "inotify_init" ) {
			H.poll = true;
			if ( H.c == false && per <= 0 )
				H.period = 0; // the default of the fallback is not specified
			stats["fallbacks"]++;
		}
	for ( int fd : inotifyFds() )
		if ( std::find( before.begin(), before.end(), fd ) == before.end() )
			H.fd = fd;
	if ( !H.poll && H.fd < 0 )
		fail( "C20", "no inotify descriptor was opened" );
}

void Api::opWatch( int h ) {
	Handle& H = hs[h];
	if ( !H.alive )
		return;
	if ( H.started ) { // nothing happens
		if ( !on( "C27,C28,C29" ) )
			return;
		int before = workerCount(), threads = threadCount();
		{
			As as( uid );
			ApiScope s;
			if ( H.c )
				H.f->watch( H.ch );
			else
				H.fw->watch();
		}
		for ( int i = 0; i < 100 && threadCount() > threads; i++ )
			usleep( 1000 );
		if ( threadCount() > threads || workerCount() > before )
			fail( "C27", "calling watch() again started another thread" );
		stats["watched_again"]++;
		return;
	}
	H.listings0 = callCounts()["opendir"];
	int before = workerCount();
	H.started = true;
	{
		As as( uid );
		ApiScope s;
		if ( H.c )
			H.f->watch( H.ch );
		else
			H.fw->watch();
	}
	if ( !waitParked( before + 1, hangLimit() ) ) {
		fail( prop.c_str(), "HANG: the thread did not start or never waits" );
		hung = true;
		return;
	}
	H.worker = before;
}

void Api::opRelease( int h ) {
	if ( !hs.count( h ) || !hs[h].alive )
		return;
	Handle& H = hs[h];
	{
		As as( uid );
		ApiScope s;
		if ( H.c )
			H.f->release( H.ch );
		else
			delete H.fw;
	}
	H.alive = false;
	H.es.clear();
	if ( H.worker >= 0 && !waitExited( H.worker, 5 ) ) {
		fail( "C17,C19", "the thread still runs after the FileWatcher was destroyed" );
		hung = !ok;
	}
	// nothing may be delivered by it any more
	pthread_mutex_lock( &evM );
	evs.erase( std::remove_if( evs.begin(), evs.end(), [&]( const Ev& e ) { return e.h == h; } ), evs.end() );
	marks.erase( std::remove_if( marks.begin(), marks.end(), [&]( const Mark& m ) { return m.h == h; } ), marks.end() );
	pthread_mutex_unlock( &evM );
}

// options: b, m, n: of other systems; s, S: synthetic events; z: no synthetic events
static std::vector<std::pair<int, int>> optionList( const std::string& options ) {
	std::vector<std::pair<int, int>> v;
	for ( char c : options )
		switch ( c ) {
			case 'b': v.push_back( { 1, 4096 } ); break;
			case 'm': v.push_back( { 3, 1 } ); break;
			case 'n': v.push_back( { 4, 1 } ); break;
			case 's': v.push_back( { 5, 1 } ); break;
			case 'S': v.push_back( { 5, 256 } ); break;
			case 'z': v.push_back( { 5, 0 } ); break;
		}
	return v;
}
long Api::rawAdd( Handle& H, int slot, const std::string& p, bool rec, const std::string& options ) {
	auto list = optionList( options );
	int hi = -1;
	for ( auto& x : hs )
		if ( &x.second == &H )
			hi = x.first;
	efsw::FileWatchListener* l = nullptr;
	CParam* cp = nullptr;
	if ( H.c ) {
		auto& u = cparams[std::make_pair( hi, slot / 3 % 2 )];
		if ( !u ) {
			u.reset( new CParam() );
			u->h = hi;
			u->p = slot / 3 % 2;
		}
		cp = u.get();
	} else {
		auto& u = H.ls[slot];
		if ( !u ) {
			u.reset( new Listener() );
			u->a = this;
			u->h = hi;
			u->slot = slot;
		}
		l = u.get();
	}
	As as( uid );
	ApiScope s;
	if ( H.c ) {
		if ( !list.empty() || cMissFn( slot ) || slot % 2 ) {
			efsw_watcher_option op[8];
			int n = 0;
			for ( auto& x : list ) {
				op[n].option = (efsw_option)x.first;
				op[n++].value = x.second;
			}
			long r = H.f->addwatch_withoptions( H.ch, p.c_str(), cFn( slot ), rec ? 1 + slot % 2 * 2 : 0, n || slot % 3 ? op : nullptr, n, cp, cMissFn( slot ) );
			memset( op, 0x5a, sizeof op ); // the array is the caller's
			return r;
		}
		return H.f->addwatch( H.ch, p.c_str(), cFn( slot ), rec, cp );
	}
	if ( !list.empty() ) {
		std::vector<efsw::WatcherOption> os;
		for ( auto& x : list )
			os.push_back( efsw::WatcherOption( (efsw::Option)x.first, x.second ) );
		return H.fw->addWatch( p, l, rec, os );
	}
	if ( !rec && slot % 2 )
		return H.fw->addWatch( p, l );
	return H.fw->addWatch( p, l, rec );
}

void Api::opAdd( const Op& o ) { // add H SLOT PATH FLAGS
	int hi = atoi( o.a[0].c_str() );
	if ( o.a.size() < 3 || !hs.count( hi ) || !hs[hi].alive )
		return;
	Handle& H = hs[hi];
	int slot = atoi( o.a[1].c_str() );
	std::string given = path( o.a[2] );
	std::string fl = o.a.size() > 3 ? o.a[3] : "";
	bool rec = fl.find( 'r' ) != std::string::npos, syn = fl.find( 's' ) != std::string::npos || fl.find( 'S' ) != std::string::npos;
	// what the file system says
	std::string p = strip( given );
	std::set<long> okCodes;
	bool mayWork = false;
	std::string r, want;
	{
		As as( uid );
		struct stat st;
		if ( given.empty() || stat( p.c_str(), &st ) != 0 || !S_ISDIR( st.st_mode ) )
			okCodes.insert( -1 );
		else {
			bool rd = access( p.c_str(), R_OK ) == 0;
			bool link = isLink( p );
			r = real( p );
			want = link ? strip( r ) : p;
			if ( want != "/" )
				want += "/";
			bool rep = false, maybeRep = false;
			for ( auto& e : H.es ) {
				if ( e.dir == ( p == "/" ? p : p + "/" ) || e.dir == want )
					rep = true;
				else if ( e.real == r && inoOf( e.real ) == e.ino ) {
					if ( H.poll )
						maybeRep = true;
					else
						rep = true;
				} else if ( e.real == r || e.ino == (uint64_t)st.st_ino )
					maybeRep = true;
				else if ( H.poll && ( ( e.rec && within( r, e.real ) ) || mayReach( e, r ) ) )
					maybeRep = true; // the native watcher allows sub-directories of watched ones
			}
			bool out = false;
			if ( link && !( H.follow && H.oos ) ) {
				std::string cur = p.find( '/' ) == std::string::npos ? real( "." ) : real( p.substr( 0, p.rfind( '/' ) + 1 ) );
				out = !within( r, cur );
			}
			if ( !H.poll && isRemote( r ) )
				okCodes.insert( -5 );
			if ( !rd )
				okCodes.insert( -4 );
			if ( rep )
				okCodes.insert( -2 );
			if ( out )
				okCodes.insert( -3 );
			if ( okCodes.empty() )
				mayWork = true;
			if ( maybeRep )
				okCodes.insert( -2 );
		}
	}
	// of several causes any may be reported, but not everything: a directory that is watched is not "out of scope"
	auto before = callCounts();
	size_t fired = firedFaults().size();
	long ret = rawAdd( H, slot, given, rec, fl );
	auto ff = firedFaults();
	bool faulted = ff.size() > fired;
	rets[hi].push_back( ret );
	if ( verbose )
		fprintf( stderr, "  -> %ld%s\n", ret, faulted ? " (with an injected failure)" : "" );
	if ( ret > 0 && mayWork )
		stats["adds_ok"]++;
	if ( ret > 0 && hi > 0 )
		stats["others_added"]++;
	if ( hi == 0 && on( "C29" ) )
		story.push_back( sf( "addWatch(%s) %s", esc( given ).c_str(), ret > 0 ? "succeeds" : sf( "returns %ld", ret ).c_str() ) );
	if ( ret < 0 )
		stats["adds_failed"]++;
	const char* who = "C12,C13,C15,C16,C21,C28,C29";
	if ( !faulted ) {
		if ( ret > 0 && !mayWork )
			fail( who, sf( "addWatch(%s) returned %ld, expected an error (%ld)", esc( given ).c_str(), ret, okCodes.empty() ? 0 : *okCodes.begin() ) );
		if ( ret <= 0 && !okCodes.count( ret ) )
			fail( who, sf( "addWatch(%s) returned %ld, expected %s", esc( given ).c_str(), ret,
						   mayWork ? "a watch id" : sf( "%ld", *okCodes.begin() ).c_str() ) );
	} else {
		stats["faulted_calls"]++;
		auto f = ff.back();
		if ( ret <= 0 && !( ret == -5 && fuse && !H.poll /* what is remote is not known */ ) && ret != -1 && ret != -4 && ret != -7 && ret != -2 && ret != -3 )
			fail( "C12,C20", sf( "addWatch(%s) returned %ld after %s failed", esc( given ).c_str(), ret, f.first.c_str() ) );
		if ( f.first == "inotify_add_watch" && within( f.second, r ) && f.second == r && ret > 0 )
			fail( "C12,C20", sf( "addWatch(%s) returned %ld although the system call failed", esc( given ).c_str(), ret ) );
	}
	if ( ret == 0 )
		fail( "C12", "addWatch returned 0" );
	if ( ret > 0 ) {
		for ( auto& e : H.es )
			if ( e.id == ret )
				fail( "C12,C13,C21,C28", sf( "addWatch(%s) returned the id %ld that is in use", esc( given ).c_str(), ret ) );
		Entry e;
		e.slot = slot;
		e.id = ret;
		e.given = given;
		e.dir = want;
		e.real = r;
		e.rec = rec;
		e.syn = syn;
		e.ino = inoOf( r );
		if ( on( "C27" ) ) {
			std::vector<std::string> dirs;
			walkDirs( r, dirs );
			for ( auto& d : dirs )
				e.known[inoOf( d )] = d;
		}
		if ( faulted && isLink( p ) )
			e.dir = "?";
		bool alone = true; // a watch inside another one takes its directory
		for ( auto& x : H.es ) {
			if ( within( x.real, r ) )
				alone = false;
			if ( within( r, x.real ) )
				x.old.clear();
		}
		if ( alone && r != "/" && within( r, base ) && on( "C12,C22,C27,C28" ) ) {
			std::vector<std::string> dirs = { r };
			if ( rec ) {
				dirs.clear();
				walkDirs( r, dirs );
			}
			for ( auto& d : dirs )
				for ( auto& n : list( d ) )
					if ( !isLink( d + "/" + n ) ) // what a link is depends on its target
						e.old.insert( d + "/" + n );
		}
		H.es.push_back( e );
		H.gone.erase( ret );
		noteFaults();
		trackLinks( true );
		trackOverlaps( H );
	} else {
		expCode = ret;
		expDirA = given;
		expDirB = strip( given );
		exemptDone = firedFaults().size();
	}
	if ( ret < 0 ) {
		lastText.clear();
		errCheck( "after a failed addWatch" );
	} else
		errCheck( "after a successful addWatch" );
	dirsCheck( H, "after addWatch" );
}

// Something happens to that path: it may be reported from now on, and all that is below it
void Api::touched( const std::string& q ) {
	std::string p = strip( path( q ) );
	if ( p.empty() || p[0] != '/' )
		p = base + "/" + p;
	std::string all[2] = { real( p ), real( p.substr( 0, p.rfind( '/' ) + 1 ) ) + p.substr( p.rfind( '/' ) ) };
	for ( auto& x : all )
		if ( !x.empty() )
			for ( auto& hp : hs )
				for ( auto& e : hp.second.es ) {
					auto it = e.old.lower_bound( x );
					while ( it != e.old.end() && it->compare( 0, x.size(), x ) == 0 )
						if ( within( *it, x ) )
							it = e.old.erase( it );
						else
							++it;
				}
}

void Api::noteFaults() {
	auto ff = firedFaults();
	for ( ; exemptDone < ff.size(); exemptDone++ ) {
		faultsUsed = true;
		stats["faults"]++;
		const std::string& p = ff[exemptDone].second;
		const std::string& what = ff[exemptDone].first; // what is remote is not known
		for ( auto& hp : hs )
			if ( what == "setmntent" || ( ( what == "statfs" || what == "stat" ) && hp.second.poll ) )
				for ( auto& e : hp.second.es )
					e.exempt.insert( base );
		if ( p.empty() )
			continue;
		for ( auto& hp : hs )
			for ( auto& e : hp.second.es )
				if ( !hp.second.poll ) {
					e.exempt.insert( p );
					std::string t = real( p );
					if ( !t.empty() )
						e.exempt.insert( t );
				}
	}
}

void Api::opRemove( const Op& o ) { // remid H K | remp H K EXTRA | rembad H ID | rembadp H PATH
	int hi = atoi( o.a[0].c_str() );
	if ( !hs.count( hi ) || !hs[hi].alive )
		return;
	Handle& H = hs[hi];
	std::string a1 = o.a.size() > 1 ? o.a[1] : "0";
	auto byId = [&]( long id ) {
		As as( uid );
		ApiScope s;
		if ( H.c )
			H.f->removewatch_byid( H.ch, id );
		else
			H.fw->removeWatch( id );
	};
	auto byPath = [&]( const std::string& p ) {
		As as( uid );
		ApiScope s;
		if ( H.c )
			H.f->removewatch( H.ch, p.c_str() );
		else
			H.fw->removeWatch( p );
	};
	if ( o.kind == "remid" || o.kind == "remp" ) {
		if ( H.es.empty() )
			return;
		size_t k = (size_t)atoi( a1.c_str() ) % H.es.size();
		Entry e = H.es[k];
		if ( o.kind == "remid" || e.dir == "?" )
			byId( e.id );
		else {
			std::string d = e.dir;
			int x = o.a.size() > 2 ? atoi( o.a[2].c_str() ) : 0;
			if ( x == 1 )
				d = strip( d );
			for ( int i = 1; i < x; i++ )
				d += "/";
			byPath( d );
		}
		H.gone.insert( e.id );
		H.es.erase( H.es.begin() + k );
		stats["removes"]++;
	} else if ( o.kind == "rembad" ) {
		long id = atol( a1.c_str() );
		for ( auto& e : H.es )
			if ( e.id == id )
				return;
		byId( id );
	} else {
		std::string p = path( a1 );
		// not by a spelling of a directory that is watched
		std::string r = real( p );
		for ( auto& e : H.es )
			if ( strip( e.dir ) == strip( p ) || ( !r.empty() && e.real == r ) || e.dir == "?" )
				return;
		byPath( p );
	}
	errCheck( "after removeWatch" );
	dirsCheck( H, "after removeWatch" );
}

void Api::dirsCheck( Handle& H, const char* when ) {
	if ( H.c )
		return;
	std::vector<std::string> d, want;
	{
		As as( uid );
		ApiScope s;
		d = H.fw->directories();
	}
	bool unknown = false;
	for ( auto& e : H.es ) {
		want.push_back( e.dir );
		if ( e.dir == "?" )
			unknown = true;
	}
	if ( unknown )
		return;
	std::sort( d.begin(), d.end() );
	std::sort( want.begin(), want.end() );
	if ( d != want ) {
		std::string a, b;
		for ( auto& x : d )
			a += " " + esc( x );
		for ( auto& x : want )
			b += " " + esc( x );
		fail( "C12,C13,C24,C28,C29", sf( "directories() %s lists {%s }, expected {%s }", when, a.c_str(), b.c_str() ) );
	}
}

void Api::errCheck( const char* when ) {
	if ( !on( "C25,C21" ) )
		return;
	long code = efsw::Errors::Log::getLastErrorCode();
	std::string t = efsw::Errors::Log::getLastErrorLog();
	const char* ct = efsw_getlasterror();
	if ( !ct || t != ct )
		fail( "C25,C21", sf( "%s: the C function returns the error text '%s' and the C++ function '%s'", when, ct ? esc( ct ).c_str() : "NULL", esc( t ).c_str() ) );
	if ( code != expCode ) {
		fail( "C25", sf( "%s: the last error code is %ld, the last failure returned %ld", when, code, expCode ) );
		return;
	}
	if ( expCode == 0 ) {
		if ( !t.empty() )
			fail( "C25", sf( "%s: no call failed but the error text is '%s'", when, esc( t ).c_str() ) );
		return;
	}
	if ( !lastText.empty() ) {
		if ( t != lastText )
			fail( "C25", sf( "%s: the error text changed from '%s' to '%s' without a failure", when, esc( lastText ).c_str(), esc( t ).c_str() ) );
		return;
	}
	lastText = t;
	std::string low;
	for ( char c : t )
		low += (char)tolower( (unsigned char)c );
	const char* key = nullptr;
	switch ( expCode ) {
		case -1:
			key = "not found";
			break;
		case -2:
			key = "repeated";
			break;
		case -3:
			key = "out of scope";
			break;
		case -4:
			key = "readable";
			break;
		case -5:
			key = "remote";
			break;
	}
	if ( key && low.find( key ) == std::string::npos )
		fail( "C25", sf( "the error text '%s' does not name the cause of code %ld", esc( t ).c_str(), expCode ) );
	// the path, and not a longer one that begins like it
	auto names = [&]( const std::string& d ) {
		for ( size_t i = t.find( d ); i != std::string::npos; i = t.find( d, i + 1 ) ) {
			size_t e = i + d.size();
			while ( e < t.size() && t[e] == '/' )
				e++;
			if ( d.find( '/' ) == std::string::npos || e == t.size() || !( isalnum( (unsigned char)t[e] ) || t[e] == '.' || t[e] == '_' ) )
				return true;
		}
		return false;
	};
	if ( !expDirB.empty() && !names( expDirB ) && !names( real( expDirB ) ) )
		fail( "C25", sf( "the error text '%s' does not name the directory %s", esc( t ).c_str(), esc( expDirB ).c_str() ) );
	if ( expCode == -7 && !expDirB.empty() && t.size() <= expDirB.size() + 6 )
		fail( "C25", sf( "the error text '%s' does not name the cause", esc( t ).c_str() ) );
}

// A failure that is recorded by the program itself
void Api::errLog( long code, const std::string& text ) {
	long r;
	{
		ApiScope s;
		r = efsw::Errors::Log::createLastError( (efsw::Errors::Error)code, text );
	}
	if ( r != code )
		fail( "C25", sf( "createLastError( %ld ) returned %ld", code, r ) );
	expCode = code;
	expDirA = expDirB = "";
	lastText.clear();
	if ( !on( "C25" ) )
		return;
	std::string t = efsw::Errors::Log::getLastErrorLog();
	if ( t.find( text ) == std::string::npos )
		fail( "C25", sf( "the error text '%s' does not contain '%s'", esc( t ).c_str(), esc( text ).c_str() ) );
	if ( code > -7 && code < 0 && t.size() <= text.size() + 5 )
		fail( "C25", sf( "the error text '%s' does not name the cause of code %ld", esc( t ).c_str(), code ) );
	if ( code < 0 )
		errCheck( "after createLastError" );
	stats["errors_recorded"]++;
}

// C29: the threads of the FileWatchers take turns, a few events at a time. What each one is given does not depend on the others.
bool Api::takeTurns() {
	std::map<int, int> turn;
	for ( bool more = true; more; ) {
		more = false;
		for ( auto& hp : hs ) {
			Handle& H = hp.second;
			if ( !H.alive || !H.started || turn[hp.first] < 0 )
				continue;
			int t = turn[hp.first]++;
			bool good = true, done = false;
			if ( H.poll ) {
				good = wakeSleeper( H.worker );
				done = t >= 1;
			} else if ( t < 1000 && pendingEvents( H.worker ) > 0 ) {
				good = pumpEvents( H.worker, 1 + ( t * 5 ) % 7 );
				if ( t > 900 )
					turn[hp.first] = 900;
			} else if ( t < 1000 ) {
				turn[hp.first] = 1001;
				good = idleTimeout( H.worker );
			} else {
				good = idleTimeout( H.worker );
				done = pendingEvents( H.worker ) == 0;
				turn[hp.first] = done ? -1 : 0;
			}
			if ( done )
				turn[hp.first] = -1;
			more |= !done;
			if ( !good ) {
				if ( workerState( H.worker ) == W_EXITED )
					fail( prop.c_str(), sf( "the thread of handle %d ended", hp.first ) );
				else
					fail( prop.c_str(), sf( "HANG: the thread of handle %d does not wait for events again (last call %s)", hp.first, lastCall().c_str() ) );
				hung = true;
				return false;
			}
		}
	}
	return true;
}

bool Api::settle( bool checkMarks ) {
	if ( on( "C29" ) && !hung && !takeTurns() )
		return false;
	for ( auto& hp : hs ) {
		Handle& H = hp.second;
		if ( !H.alive || !H.started || hung )
			continue;
		bool good = true;
		if ( H.poll ) {
			for ( int i = 0; i < ( faultsUsed ? 4 : 2 ) && H.alive && good; i++ )
				good = wakeSleeper( H.worker );
		} else {
			for ( int i = 0; i < 300 && H.alive && good && pendingEvents( H.worker ) > 0; i++ )
				good = pumpEvents( H.worker, 1 + ( i * 7 ) % 23 );
			for ( int i = 0; i < 2 && H.alive && good; i++ )
				good = idleTimeout( H.worker );
			for ( int i = 0; i < 300 && H.alive && good && pendingEvents( H.worker ) > 0; i++ )
				good = pumpEvents( H.worker, 50 );
		}
		if ( !good ) {
			if ( !H.alive )
				continue;
			if ( workerState( H.worker ) == W_EXITED ) {
				fail( prop.c_str(), sf( "the thread of handle %d ended", hp.first ) );
			} else
				fail( prop.c_str(), sf( "HANG: the thread of handle %d does not wait for events again (last call %s)", hp.first, lastCall().c_str() ) );
			hung = true;
			return false;
		}
		if ( H.alive && workerState( H.worker ) == W_EXITED )
			fail( prop.c_str(), sf( "the thread of handle %d ended", hp.first ) );
	}
	noteFaults();
	if ( checkMarks ) {
		std::vector<Mark> later;
		for ( auto& m : marks ) {
			Handle& H = hs[m.h];
			if ( H.alive && !H.started ) {
				later.push_back( m );
				continue;
			}
			Entry* E = nullptr;
			for ( auto& e : H.es )
				if ( e.id == m.id )
					E = &e;
			auto si = settled.find( inoOf( m.dir ) );
			if ( !E || exempt( H, *E, m.dir ) || si == settled.end() || si->second != m.dir || inoOf( m.dir ) != m.ino )
				continue;
			struct stat st;
			if ( H.poll && lstat( ( m.dir + "/" + m.name ).c_str(), &st ) != 0 )
				continue;
			if ( shared( H, *E, m.dir ) ) // by another watch that a callback added
				continue;
			int n = 0;
			for ( auto& e : evs )
				if ( !e.missed && e.h == m.h && e.id == m.id && slotMatches( H, e.slot, m.slot ) && e.action == 1 && e.name == m.name && real( e.dir ) == m.dir )
					n++;
			if ( n == 0 )
				fail( "C20,C22,C21,C12,C14,C27,C28,C29", sf( "%s/%s was created but not reported to the watch %ld of handle %d", m.dir.c_str(), m.name.c_str(), m.id, m.h ) );
			stats["marks"]++;
		}
		marks = later;
	}
	std::vector<std::string> dirs;
	walkDirs( base, dirs );
	settled.clear();
	for ( auto& d : dirs )
		settled[inoOf( d )] = d;
	if ( on( "C27" ) )
		for ( auto& hp : hs )
			for ( auto& e : hp.second.es )
				if ( hp.second.started )
					e.known = settled;
	return ok;
}

void Api::mark( const std::string& q ) {
	std::string p = path( q );
	if ( p[0] != '/' )
		p = base + "/" + p;
	std::string d = real( p.substr( 0, p.rfind( '/' ) ) ), n = p.substr( p.rfind( '/' ) + 1 );
	struct stat st;
	if ( d.empty() || lstat( p.c_str(), &st ) == 0 )
		return;
	// directories that just appeared may be read later than this
	auto si = settled.find( inoOf( d ) );
	bool known = si != settled.end() && si->second == d;
	for ( auto& hp : hs ) {
		if ( !known )
			break;
		Handle& H = hp.second;
		if ( !H.alive || ( !H.started && !on( "C27" ) ) )
			continue;
		std::vector<Entry*> who;
		int others = 0;
		for ( auto& e : H.es ) {
			std::set<std::string> must, link, may;
			cover( H, e, must, link, may );
			auto ki = e.known.find( inoOf( d ) );
			bool early = on( "C27" ) && ( ki == e.known.end() || ki->second != d ); // the watch does not know it yet
			if ( must.count( d ) && !shared( H, e, d ) && !early )
				who.push_back( &e );
			else if ( must.count( d ) )
				others++;
			else if ( link.count( d ) || may.count( d ) || e.may.count( d ) )
				others++;
		}
		if ( who.size() == 1 && !others ) {
			Mark m;
			m.h = hp.first;
			m.slot = who[0]->slot;
			m.id = who[0]->id;
			m.dir = d;
			m.ino = inoOf( d );
			m.name = n;
			marks.push_back( m );
		}
	}
	int fd = open( p.c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644 );
	if ( fd >= 0 )
		close( fd );
}

void Api::probe() {
	marks.clear();
	if ( on( "C27,C28,C29" ) )
		cbHooks.clear();
	if ( !settle( false ) )
		return;
	std::vector<std::string> dirs;
	walkDirs( base, dirs );
	struct Want {
		std::vector<std::pair<int, Entry>> must; // handle, entry
		std::set<int> skip;						 // handles that may or may not report
		std::string name;
	};
	std::map<std::string, Want> w;
	for ( auto& d : dirs )
		w[d].name = sf( "pr%ld", ++probeNo );
	for ( auto& hp : hs ) {
		Handle& H = hp.second;
		if ( !H.alive || !H.started )
			continue;
		std::map<std::string, std::vector<Entry*>> m;
		std::map<std::string, int> lk;
		for ( auto& e : H.es ) {
			std::set<std::string> must, link, may;
			cover( H, e, must, link, may );
			bool stale = must.empty();
			for ( auto& d : must )
				m[d].push_back( &e );
			for ( auto& d : link )
				if ( e.may.count( d ) )
					w[d].skip.insert( hp.first );
				else
					m[d].push_back( &e ), lk[d]++;
			for ( auto& d : may )
				if ( w.count( d ) )
					w[d].skip.insert( hp.first );
			for ( auto& d : dirs )
				if ( !must.count( d ) && !link.count( d ) && mayReach( e, d ) )
					w[d].skip.insert( hp.first );
			if ( stale )
				for ( auto& d : dirs )
					if ( ofMovedRoot( e, d ) )
						w[d].skip.insert( hp.first );
			for ( auto& d : dirs )
				if ( ( must.count( d ) || link.count( d ) || within( d, e.real ) || mayReach( e, d ) ) && ( exempt( H, e, d ) || shared( H, e, d ) ) )
					w[d].skip.insert( hp.first );
		}
		for ( auto& x : m ) {
			if ( !w.count( x.first ) )
				continue;
			if ( x.second.size() > 1 )
				w[x.first].skip.insert( hp.first );
			else
				w[x.first].must.push_back( { hp.first, *x.second[0] } );
			stats["probes"]++;
			if ( lk.count( x.first ) )
				stats["linked_probes"]++;
		}
	}
	const char* P = "C12,C13,C15,C16,C20,C22,C21,C14,C19,C27,C28,C29";
	for ( int pass = 0; pass < 2 && ok; pass++ ) {
		evs.clear();
		for ( auto& x : w ) {
			std::string f = x.first + "/" + x.second.name;
			if ( pass == 0 )
				mknod( f.c_str(), S_IFREG | 0644, 0 );
			else
				unlink( f.c_str() );
		}
		if ( verbose )
			fprintf( stderr, "  probe %s\n", pass ? "deletes" : "adds" );
		if ( !settle( false ) )
			return;
		std::map<std::string, std::string> byName;
		for ( auto& x : w )
			byName[x.second.name] = x.first;
		std::map<std::pair<std::string, int>, int> got; // (dir, handle)
		for ( auto& e : evs ) {
			if ( e.missed || !byName.count( e.name ) )
				continue;
			if ( e.action != ( pass ? 2 : 1 ) )
				continue;
			const std::string& d = byName[e.name];
			Want& x = w[d];
			if ( x.skip.count( e.h ) )
				continue;
			const Entry* E = nullptr;
			for ( auto& m : x.must )
				if ( m.first == e.h )
					E = &m.second;
			if ( !E && hs.count( e.h ) && !hs[e.h].over.empty() )
				continue; // the directories that two watches shared may have moved
			if ( !E ) {
				fail( P, "event for a directory that is not watched: " + e.str() );
				continue;
			}
			if ( e.id != E->id || !slotMatches( hs[e.h], e.slot, E->slot ) )
				fail( P, sf( "expected id %ld and listener %d for ", E->id, E->slot ) + e.str() );
			if ( e.dir.empty() || e.dir.back() != '/' || real( e.dir ) != d )
				fail( P, sf( "expected the directory %s for ", d.c_str() ) + e.str() );
			got[{ d, e.h }]++;
		}
		for ( auto& x : w )
			for ( auto& m : x.second.must ) {
				stats[x.second.skip.count( m.first ) ? "probes_not_judged" : "probes_judged"]++;
				if ( x.second.skip.count( m.first ) )
					continue;
				bool there = false; // a callback may have removed it
				for ( auto& e : hs[m.first].es )
					if ( e.id == m.second.id )
						there = true;
				if ( !there )
					continue;
				int n = got[{ x.first, m.first }];
				if ( n == 0 )
					fail( P, sf( "%s of %s/%s was not reported to the watch of %s (handle %d)", pass ? "the deletion" : "the creation",
								 x.first.c_str(), x.second.name.c_str(), esc( m.second.given ).c_str(), m.first ) );
				if ( n > 1 )
					fail( P, sf( "%s of %s/%s was reported %d times to the watch of %s (handle %d)", pass ? "the deletion" : "the creation",
								 x.first.c_str(), x.second.name.c_str(), n, esc( m.second.given ).c_str(), m.first ) );
			}
	}
	evs.clear();
}

// The queue of handle h overflows; every watch has to be told
void Api::overflow( int h ) {
	if ( !hs.count( h ) || !hs[h].alive || !hs[h].started || hs[h].poll || hs[h].es.empty() )
		return;
	Handle& H = hs[h];
	if ( !settle( false ) || H.es.empty() )
		return;
	evs.clear();
	setQueueLimit( 3 );
	std::string d = H.es[0].real;
	for ( int i = 0; i < 8; i++ ) {
		std::string f = d + sf( "/ov%ld", ++probeNo );
		mknod( f.c_str(), S_IFREG | 0644, 0 );
		unlink( f.c_str() );
	}
	int before = overflows();
	bool good = settle( false );
	setQueueLimit( 0 );
	if ( !good || overflows() == before || !H.alive )
		return;
	for ( auto& E : H.es ) {
		int n = 0, want = 1;
		if ( H.c && !cMissFn( E.slot ) )
			want = 0;
		for ( auto& e : evs )
			if ( e.missed && e.h == h && e.id == E.id ) {
				n++;
				if ( H.c ? e.slot != E.slot / 6 % 3 : e.slot != E.slot )
					fail( "C22", "missed actions reported to the wrong callback: " + e.str() );
				if ( strip( e.dir ) != strip( E.dir ) )
					fail( "C22", "missed actions reported with the wrong directory: " + e.str() );
				if ( h < 2 && cMissFn( E.slot ) )
					missedIn[h].insert( within( strip( e.dir ), base + ( h ? "/d1" : "/d0" ) ) ? e.dir.substr( base.size() + 3 ) : e.dir );
			}
		if ( want ? n == 0 : n > 0 )
			fail( "C22,C21", sf( "after an overflow the callback for missed actions of the watch %ld was called %d times", E.id, n ) );
	}
	stats["overflows"]++;
	evs.clear();
	if ( h == 1 && on( "C21" ) && !missedIn[0].empty() && missedIn[0] != missedIn[1] ) {
		std::string m;
		for ( int k = 0; k < 2; k++, m += k == 1 ? ", C" : "" )
			for ( auto& d : missedIn[k] )
				m += " " + esc( d );
		fail( "C21", "missed actions reported for different directories: C++" + m );
	}
	if ( h == 1 )
		missedIn[0].clear(), missedIn[1].clear();
	settle( false );
	evs.clear();
}

// The kernel's list of watches of an inotify descriptor against the directories in the trees
void Api::kernelCheck( int hi ) {
	Handle& H = hs[hi];
	if ( !H.alive || H.fd < 0 || ( !H.started && fsSeq != H.fsSeq ) )
		return;
	if ( H.started && !settle( false ) )
		return;
	std::set<uint64_t> have, must, may;
	std::ifstream f( sf( "/proc/self/fdinfo/%d", H.fd ) );
	std::string l;
	while ( std::getline( f, l ) ) {
		size_t p = l.find( "ino:" );
		if ( l.compare( 0, 10, "inotify wd" ) == 0 && p != std::string::npos )
			have.insert( strtoull( l.c_str() + p + 4, nullptr, 16 ) );
	}
	std::map<uint64_t, std::string> names;
	std::vector<std::string> dirs;
	walkDirs( base, dirs );
	for ( auto& d : dirs )
		names[inoOf( d )] = d;
	bool stale = false;
	for ( auto& e : H.es ) {
		std::set<std::string> m, lk, my;
		cover( H, e, m, lk, my );
		if ( m.empty() )
			stale = true;
		for ( auto& d : m )
			( exempt( H, e, d ) || shared( H, e, d ) ? may : must ).insert( inoOf( d ) );
		for ( auto& d : lk )
			( e.may.count( d ) || shared( H, e, d ) ? may : must ).insert( inoOf( d ) );
		for ( auto& d : my )
			may.insert( inoOf( d ) );
		for ( auto& d : dirs )
			if ( mayReach( e, d ) || exempt( H, e, d ) )
				may.insert( inoOf( d ) );
	}
	if ( !H.over.empty() )
		stale = true;
	stats["kernel_watch_lists"]++;
	stats["kernel_watches"] += have.size();
	for ( auto i : must )
		if ( !have.count( i ) )
			fail( "C19,C15", sf( "no kernel watch on the directory %s", names[i].c_str() ) );
	if ( !stale )
		for ( auto i : have )
			if ( !must.count( i ) && !may.count( i ) )
				fail( "C19,C15,C16", sf( "a kernel watch on %s is still held", names.count( i ) ? names[i].c_str() : "a directory out of the tree" ) );
}

static std::string mntEsc( const std::string& p ) {
	std::string r;
	for ( char c : p )
		if ( c == ' ' || c == '\t' || c == '\n' || c == '\\' )
			r += sf( "\\%03o", (unsigned char)c );
		else
			r += c;
	return r;
}

// C31: what calls and the processing of events must not change
extern int realOut, realErr;
extern char** environ;
static int outFd = -1; // instead of the standard output and error
extern "C" void __sanitizer_set_report_fd( void* fd );
std::string Api::procState() {
	std::string s, l;
	std::ifstream st( "/proc/self/status" );
	static const char* keep[] = { "Umask:", "Uid:", "Gid:", "Groups:", "SigBlk:", "SigIgn:", "SigCgt:", "CapEff:", "NoNewPrivs:", "Seccomp:", "Cpus_allowed:" };
	while ( std::getline( st, l ) )
		for ( auto k : keep )
			if ( l.compare( 0, strlen( k ), k ) == 0 )
				s += l + "; ";
	std::ifstream li( "/proc/self/limits" );
	while ( std::getline( li, l ) )
		if ( l.find( "open files" ) == std::string::npos ) // raised on purpose
			s += l + "; ";
	char cwd[PATH_MAX];
	s += "cwd " + std::string( getcwd( cwd, sizeof cwd ) ? cwd : "?" );
	s += sf( "; locale %s; priority %d; child %d; name ", setlocale( LC_ALL, nullptr ), getpriority( PRIO_PROCESS, 0 ), waitpid( -1, nullptr, WNOHANG ) == 0 );
	char nm[17] = "";
	prctl( PR_GET_NAME, nm );
	s += nm;
	itimerval tv;
	for ( int w : { ITIMER_REAL, ITIMER_VIRTUAL, ITIMER_PROF } )
		s += getitimer( w, &tv ) == 0 && ( tv.it_value.tv_sec || tv.it_value.tv_usec ) ? " timer" : "";
	for ( char** e = environ; e && *e; e++ )
		s += std::string( "; env " ) + *e;
	fflush( stdout );
	fflush( stderr );
	std::cout.flush();
	if ( outFd >= 0 ) {
		char b[200];
		ssize_t n = pread( outFd, b, sizeof b, 0 );
		s += "; printed '" + std::string( b, n > 0 ? n : 0 ) + "'";
	}
	return s;
}
// everything but what looking at it changes
std::map<std::string, std::string> Api::treeState() {
	std::map<std::string, std::string> m;
	std::vector<std::string> dirs;
	walkDirs( base, dirs );
	auto one = [&]( const std::string& p ) {
		struct stat st;
		if ( lstat( p.c_str(), &st ) == 0 ) {
			m[p] = sf( "mode %o links %ld owner %d:%d size %ld mtime %ld.%09ld ctime %ld.%09ld", st.st_mode, S_ISDIR( st.st_mode ) ? 0L : (long)st.st_nlink, st.st_uid, st.st_gid, (long)st.st_size, st.st_mtim.tv_sec, st.st_mtim.tv_nsec, st.st_ctim.tv_sec, st.st_ctim.tv_nsec );
			if ( S_ISREG( st.st_mode ) )
				m[p] += sf( " atime %ld.%09ld", st.st_atim.tv_sec, st.st_atim.tv_nsec );
		}
	};
	for ( auto& d : dirs ) {
		one( d );
		for ( auto& n : list( d ) )
			one( d + "/" + n );
	}
	return m;
}
void Api::step( const Op& o ) {
	if ( !on( "C31" ) )
		return act( o );
	static const std::set<std::string> calls = { "new", "watch", "rel", "add", "remid", "remp", "rembad", "rembadp", "settle", "clear", "errlog" };
	bool tree = calls.count( o.kind ) && cbHooks.empty();
	auto t0 = tree ? treeState() : std::map<std::string, std::string>();
	act( o );
	if ( tree && ok ) {
		auto t1 = treeState();
		for ( auto& x : t0 )
			if ( t1[x.first] != x.second )
				fail( "C31", "the library changed " + x.first + ": before [" + x.second + "], afterwards [" + t1[x.first] + "]" );
		for ( auto& x : t1 )
			if ( !x.second.empty() && !t0.count( x.first ) )
				fail( "C31", "the library made " + x.first );
		stats["entries_compared"] += t1.size();
	}
	std::string p1 = procState();
	if ( p1 != proc0 ) {
		size_t i = 0;
		while ( i < p1.size() && i < proc0.size() && p1[i] == proc0[i] )
			i++;
		i = i > 40 ? i - 40 : 0;
		fail( "C31", "the process changed: before [" + proc0.substr( i, 120 ) + "], afterwards [" + p1.substr( i, 120 ) + "]" );
	}
	if ( shortestIdleWait() >= 0 ) {
		stats["idle_waits"]++;
		if ( shortestIdleWait() < 10000 )
			fail( "C31", sf( "the thread does not sleep although nothing happens: it waits %ld us each time", (long)shortestIdleWait() ) );
	}
}

void Api::act( const Op& o ) {
	if ( verbose )
		fprintf( stderr, "%s\n", o.text().c_str() );
	const std::string& k = o.kind;
	log.push_back( o );
	int h0 = o.a.size() ? atoi( o.a[0].c_str() ) : 0;
	if ( k == "new" )
		opNew( o );
	else if ( k == "rel" )
		opRelease( h0 );
	else if ( k == "watch" ) {
		if ( hs.count( h0 ) )
			opWatch( h0 );
	} else if ( k == "add" )
		opAdd( o );
	else if ( k == "remid" || k == "remp" || k == "rembad" || k == "rembadp" )
		opRemove( o );
	else if ( k == "settle" ) {
		settle();
		errCheck( "after processing events" );
		evs.clear();
	} else if ( k == "probe" )
		probe();
	else if ( k == "mark" )
		mark( o.a[0] );
	else if ( k == "kernel" ) {
		for ( auto& x : hs )
			if ( x.second.alive )
				kernelCheck( x.first );
	} else if ( k == "clear" ) {
		if ( h0 )
			efsw_clearlasterror();
		else
			efsw::Errors::Log::clearLastError();
		expCode = 0;
		lastText.clear();
		errCheck( "after clearing" );
	} else if ( k == "fault" ) { // fault CALL NTH ERRNO [PATH]
		if ( o.a.size() >= 3 )
			armFault( { o.a[0], atoi( o.a[1].c_str() ), atoi( o.a[2].c_str() ), false, o.a.size() > 3 ? strip( path( o.a[3] ) ) : "" } );
	} else if ( k == "unfault" ) {
		clearFaults();
	} else if ( k == "fstype" ) {
		fuse = fuse || ( o.a.size() > 1 && o.a[1] == "1702057286" );
		std::string p = strip( path( o.a[0] ) );
		long t = strtol( o.a[1].c_str(), nullptr, 0 );
		fstypes[p] = t;
		setFsType( p, t );
	} else if ( k == "mount" ) { // mount PATH listed
		std::string p = strip( path( o.a[0] ) );
		mounts[p] = { true, o.a.size() > 1 && o.a[1] == "1" };
		setDev( p, 777000 + ++devs, true );
		std::string f = base + "/../mounts";
		std::ofstream out( f );
		{
			std::ifstream in( "/proc/mounts" );
			out << in.rdbuf();
			if ( !in )
				out.clear();
		}
		for ( auto& m : mounts )
			if ( m.second.second )
				out << "/dev/sdz" << m.first.size() << " " << mntEsc( m.first ) << " fuseblk rw,relatime 0 0\n";
		out << "tmpfs /run tmpfs rw 0 0\n";
		out.close();
		setMountsFile( f );
	} else if ( k == "highfd" )
		setHighFd( h0 );
	else if ( k == "qlimit" )
		setQueueLimit( h0 );
	else if ( k == "overflow" )
		overflow( h0 );
	else if ( k == "tick" ) {
		for ( auto& hp : hs )
			if ( hp.second.alive && hp.second.started && std::find( o.a.begin(), o.a.end(), std::to_string( hp.first ) ) != o.a.end() )
				if ( !wakeSleeper( hp.second.worker ) ) {
					fail( prop.c_str(), "HANG: the polling thread does not sleep again" );
					hung = true;
				}
	} else if ( k == "compare" )
		compareTicks();
	else if ( k == "cbrel" ) { // the next callback releases handle H (if it is another one)
		int h = h0;
		cbHooks.push_back( [this, h]( int from ) {
			if ( from != h && hs.count( h ) && hs[h].alive ) {
				stats["releases_in_callbacks"]++;
				hs[h].alive = false;
				ApiScope s;
				if ( hs[h].c )
					hs[h].f->release( hs[h].ch );
				else
					delete hs[h].fw;
				hs[h].es.clear();
			}
		} );
	} else if ( k == "cbself" ) { // while the next callback of H runs, another thread releases H
		int h = h0;
		cbHooks.push_back( [this, h]( int from ) {
			if ( from != h || !hs.count( h ) || !hs[h].alive || relRunning )
				return;
			stats["releases_while_delivering"]++;
			hs[h].alive = false;
			hs[h].es.clear();
			relHandle = &hs[h];
			relAt = 0;
			relRunning = true;
			pthread_create( &relThread, nullptr,
							[]( void* v ) -> void* {
								registerHarnessThread();
								Api* a = (Api*)v;
								ApiScope s;
								a->relAt = 1;
								if ( a->relHandle->c )
									a->relHandle->f->release( a->relHandle->ch );
								else
									delete a->relHandle->fw;
								a->relAt = 2;
								return nullptr;
							},
							this );
			while ( relAt == 0 )
				usleep( 50 );
			usleep( 1000 );
		} );
	} else if ( k == "cb" && o.a.size() ) { // a call from inside the next callback
		Op q;
		q.kind = o.a[0];
		q.a.assign( o.a.begin() + 1, o.a.end() );
		cbHooks.push_back( [this, q]( int ) {
			int h = q.a.size() ? atoi( q.a[0].c_str() ) : 0;
			if ( verbose )
				fprintf( stderr, "    in the callback: %s\n", q.text().c_str() );
			if ( q.kind == "add" )
				opAdd( q );
			else if ( q.kind.compare( 0, 3, "rem" ) == 0 )
				opRemove( q );
			else if ( q.kind == "watch" ) {
				if ( hs.count( h ) && hs[h].started )
					opWatch( h );
			} else if ( q.kind == "dirs" ) {
				if ( hs.count( h ) && hs[h].alive )
					dirsCheck( hs[h], "in a callback" );
			} else if ( q.kind == "errlog" && q.a.size() > 1 )
				errLog( h, q.a[1] );
			else
				return;
			stats["calls_in_callbacks"]++;
		} );
	} else if ( k == "errlog" && o.a.size() > 1 ) {
		errLog( h0, o.a[1] );
	} else if ( k == "sleepcheck" ) {
		sleepCheck( h0, o.a.size() > 1 ? atoi( o.a[1].c_str() ) : 3 );
	} else if ( k == "clock" )
		setClockBaseUs( strtoull( o.a[0].c_str(), nullptr, 10 ) );
	else if ( k == "differ" )
		differ();
	else if ( isFsOp( k ) ) {
		Op q = o;
		if ( k == "chmod" && uid == 0 )
			return;
		fsSeq++;
		for ( auto& x : q.a )
			touched( x );
		if ( execReal( base, q ) ) {
			auto last = []( const std::string& x ) { return x.substr( x.rfind( '/' ) + 1 ); };
			// a link that others were waiting for: nobody tells who watches those
			bool waited = k == "sym" && targetNames.count( last( o.a[1] ) );
			if ( k == "sym" )
				targetNames.insert( last( o.a[0] ) );
			trackLinks( k == "sym" && !waited );
		}
	}
	if ( relRunning ) {
		pthread_join( relThread, nullptr );
		relRunning = false;
		stats["released_ok"] += relAt == 2;
	}
}

// The virtual time between two examinations, seen from the events they deliver
void Api::sleepCheck( int hi, int n ) {
	Handle& H = hs[hi];
	if ( !H.alive || !H.started || !H.poll || H.es.empty() || H.period == 0 )
		return;
	Entry& E = H.es[0];
	uint64_t last = 0;
	for ( int i = 0; i <= n && ok; i++ ) {
		std::string name = sf( "tick%ld", ++probeNo );
		int fd = open( ( E.real + "/" + name ).c_str(), O_CREAT | O_WRONLY | O_CLOEXEC, 0644 );
		if ( fd < 0 )
			return;
		close( fd );
		bool seen = false;
		for ( int k = 0; k < 3000 && !seen && ok; k++ ) {
			if ( !wakeSleeper( H.worker ) ) {
				fail( prop.c_str(), "HANG: the polling thread does not sleep again" );
				hung = true;
				return;
			}
			pthread_mutex_lock( &evM );
			for ( auto& e : evs )
				if ( e.h == hi && e.action == 1 && e.name == name )
					seen = true;
			evs.clear();
			pthread_mutex_unlock( &evM );
		}
		if ( !seen ) {
			fail( "C26", sf( "a created file is not reported after %d sleeps", 3000 ) );
			return;
		}
		uint64_t t = virtualNowUs(), want = (uint64_t)H.period * 1000;
		uint64_t d = t - last, tol = std::max<uint64_t>( 1000, want / 1000 );
		if ( i > 0 && ( d + tol < want || d > want + tol ) )
			fail( "C26", sf( "%.3f ms passed between two examinations, the period is %u ms", d / 1000.0, H.period ) );
		last = t;
		stats["periods_measured"] += i > 0;
	}
	for ( auto& s : takeSleeps() )
		if ( s.badArg )
			fail( "C26", "a sleep was given an invalid time: it returns at once" );
}

// C21: the events and results of handle 0 (C++) and 1 (C) are the same
void Api::differ() {
	if ( !settle( false ) || !hs.count( 0 ) || !hs.count( 1 ) )
		return;
	// only if both did the same so far (a case that is being reduced may have lost one of the two)
	std::vector<std::string> did[2];
	for ( auto& o : log ) {
		int t = -1;
		if ( o.kind == "new" || o.kind == "watch" || o.kind == "rel" ) {
			did[o.a[0] == "1"].push_back( o.kind );
			continue;
		}
		std::string l = o.kind;
		bool api = o.kind == "add" || o.kind.compare( 0, 3, "rem" ) == 0;
		for ( size_t i = 0; i < o.a.size(); i++ ) {
			std::string x = o.a[i];
			if ( api && i == 0 ) {
				t = x == "1";
				continue;
			}
			for ( int k = 0; k < 2; k++ ) {
				size_t q;
				while ( ( q = x.find( k ? "d1" : "d0" ) ) != std::string::npos ) {
					x.replace( q, 2, "D" );
					t = k;
				}
			}
			l += " " + x;
		}
		if ( t >= 0 )
			did[t].push_back( l );
	}
	if ( did[0] != did[1] )
		return;
	std::vector<std::string> a, b;
	for ( auto& e : evs ) {
		std::string d = e.dir, pre = base + ( e.h == 0 ? "/d0" : "/d1" );
		if ( within( strip( d ), pre ) )
			d = "<tree>" + d.substr( pre.size() );
		std::string s = e.missed ? sf( "missed id=%ld dir=%s", e.id, esc( d ).c_str() )
								 : sf( "id=%ld slot=%d %s dir=%s name=%s old=%s", e.id, e.slot % 6, ACT[e.action & 3 ? e.action & 3 : 0],
									   esc( d ).c_str(), esc( e.name ).c_str(), esc( e.old ).c_str() ) + sf( " action=%d", e.action );
		if ( e.missed && e.h == 0 && e.slot / 6 % 3 == 0 )
			continue; // given without a callback for missed actions in C
		( e.h == 0 ? a : b ).push_back( s );
	}
	stats["events_compared"] += a.size();
	for ( size_t i = 0; i < std::max( a.size(), b.size() ); i++ ) {
		std::string x = i < a.size() ? a[i] : "nothing", y = i < b.size() ? b[i] : "nothing";
		if ( x != y ) {
			fail( "C21,C30", "event " + std::to_string( i ) + " differs: " + ( hs[1].f == &cDebug ? "library " + x + ", debug build " : "C++ " + x + ", C " ) + y );
			break;
		}
	}
	if ( rets[0] != rets[1] ) {
		std::string m;
		for ( size_t i = 0; i < std::max( rets[0].size(), rets[1].size() ); i++ )
			m += sf( " %ld/%ld", i < rets[0].size() ? rets[0][i] : 0, i < rets[1].size() ? rets[1][i] : 0 );
		fail( "C21,C30", "the results of addWatch in " + std::string( hs[1].f == &cDebug ? "the library and its debug build" : "C++ and C" ) + " differ:" + m );
	}
	if ( on( "C30" ) && hs[0].f && hs[1].f ) {
		std::string t[2];
		for ( int k = 0; k < 2; k++ ) {
			const char* x = hs[k].f->getlasterror();
			t[k] = x ? x : "NULL";
			size_t q;
			while ( ( q = t[k].find( k ? "/d1" : "/d0" ) ) != std::string::npos )
				t[k].replace( q, 3, "/D" );
		}
		if ( t[0] != t[1] )
			fail( "C30", "the error texts of the library and its debug build differ: '" + esc( t[0] ) + "' '" + esc( t[1] ) + "'" );
		stats["texts_compared"]++;
	}
	evs.clear();
}

// C26: what the watcher with the longer period reported has been reported by the one with the shorter period
void Api::compareTicks() {
	auto key = [&]( const Ev& e, const std::string& n ) { return real( e.dir ) + "/" + n; };
	std::map<std::string, int> to, from, mod;
	for ( auto& e : evs )
		if ( e.h == 0 && !e.missed ) {
			if ( e.action == 1 || e.action == 4 )
				to[key( e, e.name )]++;
			if ( e.action == 2 )
				from[key( e, e.name )]++;
			if ( e.action == 4 )
				from[key( e, e.old )]++;
			if ( e.action == 3 )
				mod[key( e, e.name )]++;
		}
	for ( auto& e : evs )
		if ( e.h == 1 && !e.missed ) {
			stats["events_compared"]++;
			std::string k = key( e, e.name );
			bool good = true;
			if ( e.action == 1 || e.action == 4 )
				good = to.count( k );
			if ( e.action == 2 )
				good = from.count( k );
			if ( e.action == 4 )
				good = good && from.count( key( e, e.old ) );
			if ( e.action == 3 )
				good = mod.count( k ) || to.count( k );
			if ( !good )
				fail( "C26", "the watcher with the shorter period did not report what the other one did: " + e.str() );
		}
	evs.clear();
}

void Api::run( const ApiCase& c ) {
	G = this;
	resetCase();
	cparams.clear();
	cWrong = false;
	rmTree( base );
	mkdir( base.c_str(), 0755 );
	if ( chdir( base.c_str() ) != 0 ) {
		ok = false;
		msg = "HARNESS: cannot enter the scratch directory";
		return;
	}
	uid = c.geti( "uid", 0 );
	if ( uid ) { // the way to the scratch directory
		std::string p = base;
		while ( p.size() > 1 && p != "/dev/shm" && p != "/tmp" ) {
			chmod( p.c_str(), 0755 );
			p = p.substr( 0, p.rfind( '/' ) );
			if ( p.empty() )
				break;
		}
	}
	efsw::Errors::Log::clearLastError();
	if ( cDebug.clearlasterror )
		cDebug.clearlasterror();
	mainThread = pthread_self();
	int fd0 = fdCount(), th0 = threadCount();
	if ( on( "C31" ) ) {
		if ( !verbose && ( outFd = memfd_create( "output", MFD_CLOEXEC ) ) >= 0 ) {
			fflush( stdout );
			realOut = fcntl( 1, F_DUPFD_CLOEXEC, 100 );
			realErr = fcntl( 2, F_DUPFD_CLOEXEC, 100 );
			__sanitizer_set_report_fd( (void*)(intptr_t)realErr );
			dup2( outFd, 1 );
			dup2( outFd, 2 );
		}
		proc0 = procState();
	}
	for ( auto& o : c.ops ) {
		step( o );
		if ( !ok || hung )
			break;
	}
	if ( on( "C31" ) && ok && !hung ) {
		for ( int i = 0; i < 3; i++ )
			step( Op{ "settle", {} } );
	}
	if ( outFd >= 0 ) {
		fflush( stdout );
		dup2( realOut, 1 );
		dup2( realErr, 2 );
		__sanitizer_set_report_fd( (void*)2 );
		close( realOut );
		close( realErr );
		close( outFd );
		realOut = 1, realErr = 2;
		outFd = -1;
	}
	if ( hung ) {
		ok = false;
		return;
	}
	clearFaults();
	clearInjections();
	cbHooks.clear();
	std::vector<int> order;
	for ( auto& h : hs )
		order.push_back( h.first );
	for ( int h : order )
		opRelease( h );
	if ( cWrong )
		fail( "C21,C22", "a C callback got another watcher handle than the one the watch was added to" );
	char cwd[PATH_MAX];
	if ( !getcwd( cwd, sizeof cwd ) || real( cwd ) != real( base ) )
		fail( "C16,C20", "the working directory of the process changed" );
	if ( openDirs() != 0 )
		fail( "C19,C20,C16", sf( "%d directory streams were left open", openDirs() ) );
	if ( openMnt() != 0 )
		fail( "C19,C16", sf( "%d mount tables were left open", openMnt() ) );
	int fd1 = fdCount(), th1 = threadCount();
	for ( int i = 0; i < 200 && ( fd1 > fd0 || th1 > th0 ); i++ ) {
		usleep( 2000 );
		fd1 = fdCount();
		th1 = threadCount();
	}
	if ( fd1 > fd0 )
		fail( "C19,C16,C20", sf( "%d more descriptors are open than before the case", fd1 - fd0 ) );
	if ( th1 > th0 )
		fail( "C19,C17", sf( "%d more threads run than before the case", th1 - th0 ) );
	if ( chdir( "/" ) != 0 )
		return;
	rmTree( base );
}

std::string genText( const std::string& prop, uint64_t seed, uint64_t idx ) { return apiGenerate( prop, seed, idx ).text(); }

static bool nonTrivial( const std::string& p, std::map<std::string, long>& s ) {
	if ( p == "C12" )
		return s["adds_ok"] >= 1 && s["adds_failed"] >= 1 && s["probes"] >= 1;
	if ( p == "C13" )
		return s["adds_ok"] >= 2 && s["removes"] >= 1;
	if ( p == "C15" )
		return s["linked_probes"] >= 1 || s["adds_failed"] >= 1;
	if ( p == "C16" )
		return s["adds_failed"] >= 1 || s["probes"] >= 2;
	if ( p == "C19" )
		return s["kernel_watches"] >= 2 || s["adds_ok"] >= 2;
	if ( p == "C20" )
		return s["faults"] + s["faulted_calls"] + s["fallbacks"] + s["highfd"] >= 1 && s["probes"] >= 1;
	if ( p == "C21" || p == "C30" )
		return s["events_compared"] >= 2;
	if ( p == "C22" )
		return s["probes"] >= 2 && s["adds_ok"] >= 2;
	if ( p == "C25" )
		return s["adds_ok"] >= 1 && s["adds_failed"] >= 1;
	if ( p == "C27" )
		return s["callbacks"] >= 2 && s["marks"] + s["probes"] >= 1;
	if ( p == "C28" )
		return s["calls_in_callbacks"] >= 2 && s["probes"] >= 1;
	if ( p == "C31" )
		return s["adds_ok"] >= 1 && s["entries_compared"] >= 20;
	if ( p == "C29" )
		return s["events_compared"] >= 3 && s["others_added"] >= 1;
	if ( p == "C26" )
		return s["periods_measured"] >= 2 || s["events_compared"] >= 2;
	return true;
}
std::string ruleText( const std::string& p ) {
	static const std::map<std::string, std::string> m = {
		{ "C12", "at least one successful and one failed addWatch, and at least one watched directory probed with a created file afterwards" },
		{ "C13", "at least two successful adds and one removal" },
		{ "C15", "at least one directory watched through a link and probed, or a link refused" },
		{ "C16", "a refused remote directory, or at least two directories probed" },
		{ "C19", "at least two kernel watches compared with the tree, or two successful adds before everything is released" },
		{ "C20", "at least one injected failure (or fallback, or high descriptor) and one directory probed afterwards" },
		{ "C21", "at least two events of each interface compared" },
		{ "C22", "at least two watches and two probed directories" },
		{ "C31", "at least one successful addWatch, and at least 20 times an entry compared with what it was before a call or the processing of events" },
		{ "C30", "at least two events of each build compared" },
		{ "C25", "at least one successful and one failed addWatch" },
		{ "C26", "at least two periods measured, or two events compared between two periods" },
		{ "C27", "at least two callbacks were made, and one created file was waited for" },
		{ "C28", "at least two calls were made from inside callbacks, and directories probed afterwards" },
		{ "C29", "at least three events of the first FileWatcher compared, and at least one watch added to another one" } };
	auto it = m.find( p );
	return it == m.end() ? "" : it->second;
}

CaseResult execCase( const std::string& prop, const std::string& base, const std::string& text, bool verbose ) {
	CaseResult r;
	ApiCase c = ApiCase::parse( text );
	auto once = [&]( bool first ) {
		Api* a = new Api( prop, base );
		a->verbose = verbose && first;
		a->run( c );
		if ( first ) {
			r.stats = a->stats;
			r.ok = a->ok;
			r.hang = a->hung;
			r.msg = a->msg;
			r.nontrivial = nonTrivial( prop, a->stats );
		}
		if ( !a->hung )
			delete a;
	};
	if ( prop == "C29" ) {
		// what the first FileWatcher does, with the others and alone
		ApiCase alone = c;
		alone.ops.clear();
		for ( auto& o : c.ops ) {
			const Op& q = o;
			size_t i = q.kind == "cb" ? 1 : 0;
			const std::string& k = i && q.a.size() ? q.a[0] : q.kind;
			bool api = k == "new" || k == "rel" || k == "watch" || k == "add" || k.compare( 0, 3, "rem" ) == 0 || k == "cbrel";
			if ( !( api && q.a.size() > i && q.a[i] != "0" ) )
				alone.ops.push_back( o );
		}
		std::vector<std::string> rec[2];
		for ( int t = 0; t < 2; t++ ) {
			Api* a = new Api( prop, base );
			a->verbose = verbose;
			a->run( t ? alone : c );
			rec[t] = a->story;
			for ( auto& s : a->stats )
				r.stats[s.first] += t ? 0 : s.second;
			r.ok = a->ok;
			r.hang = a->hung;
			r.msg = a->msg + ( t ? " (alone)" : "" );
			if ( a->hung )
				return r;
			delete a;
			if ( !r.ok )
				return r;
		}
		r.stats["events_compared"] = (long)rec[1].size();
		for ( size_t i = 0; i < std::max( rec[0].size(), rec[1].size() ); i++ ) {
			std::string x = i < rec[0].size() ? rec[0][i] : "nothing", y = i < rec[1].size() ? rec[1][i] : "nothing";
			if ( x != y ) {
				r.ok = false;
				r.msg = "step " + std::to_string( i ) + " of the FileWatcher differs: with others [" + x + "], alone [" + y + "]";
				break;
			}
		}
		r.nontrivial = nonTrivial( prop, r.stats );
		return r;
	}
	bool mem = prop == "C19" || prop == "C22";
	if ( mem )
		leakStart();
	once( true );
	if ( mem && r.ok ) {
		// caches may keep memory once; what grows with every repetition leaks
		Leak l1 = leakNow( true );
		if ( l1.blocks > 0 ) {
			once( false );
			Leak l2 = leakNow( true );
			if ( l2.blocks > l1.blocks ) {
				once( false );
				Leak l3 = leakNow( false );
				if ( l3.blocks > l2.blocks ) {
					r.ok = false;
					r.msg = sf( "memory leak: %zu blocks more with every repetition, allocated at ", l3.blocks - l2.blocks ) + l3.where;
				}
			}
		}
		r.stats["leak_checks"]++;
	}
	return r;
}
