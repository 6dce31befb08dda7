#include "runner.hpp"
#include "rig.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <sstream>
#include <unistd.h>

using namespace rig;

std::string strf( const char* f, ... ) {
	char b[2048];
	va_list ap;
	va_start( ap, f );
	vsnprintf( b, sizeof b, f, ap );
	va_end( ap );
	return b;
}

static const char* actName( int a ) {
	return a == 1 ? "Add" : a == 2 ? "Delete" : a == 3 ? "Modified" : a == 4 ? "Moved" : "?";
}
std::string Event::str() const {
	if ( missed )
		return strf( "[id%ld MissedActions dir=%s]", id, esc( dir ).c_str() );
	std::string s = std::string( "[id" ) + std::to_string( id ) + " " + actName( action ) + " dir=" + esc( dir ) +
					" name=" + esc( name );
	if ( !old.empty() )
		s += " old=" + esc( old );
	return s + "]";
}

void Slot::handleFileAction( efsw::WatchID id, const std::string& dir, const std::string& name, efsw::Action a,
							 const std::string& old ) {
	Event e;
	e.slot = slot;
	e.id = id;
	e.dir = dir;
	e.name = name;
	e.old = old;
	e.action = (int)a;
	r->onEvent( e );
}
void Slot::handleMissedFileActions( efsw::WatchID id, const std::string& dir ) {
	Event e;
	e.slot = slot;
	e.id = id;
	e.dir = dir;
	e.missed = true;
	r->onEvent( e );
}

std::string Case::text() const {
	std::string r;
	for ( auto& h : hdr )
		r += "#" + h.first + " " + h.second + "\n";
	for ( auto& o : ops )
		r += o.text() + "\n";
	return r;
}
Case Case::parse( const std::string& t ) {
	Case c;
	std::istringstream is( t );
	std::string line;
	while ( std::getline( is, line ) ) {
		if ( line.empty() || line.compare( 0, 2, "//" ) == 0 )
			continue;
		if ( line[0] == '#' ) {
			size_t i = line.find( ' ' );
			if ( i == std::string::npos )
				c.hdr[line.substr( 1 )] = "";
			else
				c.hdr[line.substr( 1, i - 1 )] = line.substr( i + 1 );
		} else
			c.ops.push_back( parseOp( line ) );
	}
	return c;
}

void Runner::fail( const std::string& m ) {
	if ( v.ok ) {
		v.ok = false;
		v.msg = m;
	}
}
void Runner::hang( const std::string& w ) {
	fail( "HANG: " + w + " (last call of the library: " + rig::lastCall() + ")" );
	v.hang = true;
}

std::string Runner::rel( const std::string& abs ) {
	if ( abs.compare( 0, base.size() + 1, base + "/" ) == 0 )
		return abs.substr( base.size() + 1 );
	return "!" + abs;
}
Watch* Runner::watchBySlot( int s ) {
	for ( auto& w : watches )
		if ( w.alive && w.slot == s )
			return &w;
	return nullptr;
}
static std::string stripSlash( std::string d ) {
	while ( d.size() > 1 && d.back() == '/' )
		d.pop_back();
	return d;
}
bool inScope( const Watch& w, const std::string& path ) {
	if ( !under( path, w.root ) || path == w.root )
		return false;
	return w.rec || dirName( path ) == w.root;
}

void Runner::onEvent( Event e ) {
	e.n = ++evNo;
	e.opSeq = model.seq;
	for ( size_t i = 0; i < watches.size(); i++ )
		if ( watches[i].alive && watches[i].id == e.id )
			e.w = (int)i;
	if ( verbose )
		fprintf( stderr, "    -> %s\n", e.str().c_str() );
	events.push_back( e );
	stats["events"]++;
	for ( size_t i = 0; i < cbInject.size(); i++ )
		if ( --cbInject[i].first == 0 ) {
			Op o = cbInject[i].second;
			cbInject.erase( cbInject.begin() + i );
			stats["cb_injections"]++;
			doFs( o );
			break;
		}
}

bool Runner::doFs( const Op& o ) {
	if ( !model.possible( o ) ) {
		stats["skipped_ops"]++;
		return false;
	}
	if ( verbose )
		fprintf( stderr, "  op %s\n", o.text().c_str() );
	if ( !execReal( base, o ) ) {
		stats["failed_ops"]++;
		return false;
	}
	model.apply( o );
	if ( inoReuse )
		renumber();
	stats["fs_ops"]++;
	return true;
}

long Runner::addWatchRaw( int slot, const std::string& dir, bool rec, bool syn ) {
	if ( !slots.count( slot ) ) {
		slots[slot].reset( new Slot() );
		slots[slot]->r = this;
		slots[slot]->slot = slot;
	}
	std::vector<efsw::WatcherOption> opts;
	if ( syn )
		opts.push_back( efsw::WatcherOption( efsw::Options::LinuxProduceSyntheticEvents, 1 ) );
	rig::ApiScope s;
	return fw->addWatch( dir, slots[slot].get(), rec, opts );
}

static uint64_t mapIno( const std::map<uint64_t, uint64_t>& m, uint64_t ino ) {
	auto it = m.find( ino );
	return it != m.end() ? it->second : m.empty() ? ino : ino + ( 1ull << 40 );
}
static void liveInos( const std::string& d, std::vector<uint64_t>& out ) {
	DIR* dp = opendir( d.c_str() );
	if ( !dp )
		return;
	std::vector<std::string> names;
	while ( dirent* e = readdir( dp ) )
		if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) )
			names.push_back( e->d_name );
	closedir( dp );
	for ( auto& n : names ) {
		struct stat st;
		std::string p = d + "/" + n;
		if ( lstat( p.c_str(), &st ) != 0 )
			continue;
		out.push_back( st.st_ino );
		if ( S_ISDIR( st.st_mode ) )
			liveInos( p, out );
	}
}
// Every new entry gets the lowest inode number that is free.
void Runner::renumber() {
	std::vector<uint64_t> live;
	liveInos( base, live );
	std::sort( live.begin(), live.end() );
	for ( auto it = vino.begin(); it != vino.end(); )
		it = std::binary_search( live.begin(), live.end(), it->first ) ? std::next( it ) : vino.erase( it );
	std::set<uint64_t> used;
	for ( auto& m : vino )
		used.insert( m.second );
	uint64_t next = 11;
	for ( auto i : live )
		if ( !vino.count( i ) ) {
			while ( used.count( next ) )
				next++;
			vino[i] = next++;
		}
	stats["renumbered"]++;
}
static void fillAttr( const std::map<uint64_t, uint64_t>& vino, const std::string& p, Attr& a, bool& ok ) {
	struct stat st, ls;
	ok = false;
	if ( lstat( p.c_str(), &ls ) != 0 )
		return;
	a.link = S_ISLNK( ls.st_mode );
	if ( stat( p.c_str(), &st ) != 0 )
		return;
	a.type = S_ISREG( st.st_mode ) ? 1 : S_ISDIR( st.st_mode ) ? 2 : 3;
	a.ino = mapIno( vino, st.st_ino );
	a.lino = a.link ? mapIno( vino, ls.st_ino ) : 0;
	a.mtime = (int64_t)st.st_mtim.tv_sec * 1000000000ll + st.st_mtim.tv_nsec;
	a.size = st.st_size;
	a.uid = st.st_uid;
	a.gid = st.st_gid;
	a.mode = st.st_mode;
	ok = a.type != 3;
}
static void snapDir( const std::map<uint64_t, uint64_t>& vino, const std::string& abs, const std::string& relp, bool rec, Snap& out ) {
	DIR* d = opendir( abs.c_str() );
	if ( !d )
		return;
	std::vector<std::string> names;
	while ( dirent* e = readdir( d ) )
		if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) )
			names.push_back( e->d_name );
	closedir( d );
	for ( auto& n : names ) {
		Attr a;
		bool ok;
		fillAttr( vino, abs + "/" + n, a, ok );
		if ( !ok )
			continue;
		out[relp + "/" + n] = a;
		if ( rec && a.type == 2 && !a.link )
			snapDir( vino, abs + "/" + n, relp + "/" + n, rec, out );
	}
}
Snap Runner::snapshot( const std::string& root, bool rec ) {
	Snap s;
	snapDir( vino, base + "/" + root, root, rec, s );
	return s;
}

void Runner::doAdd( const Op& o ) {
	// add SLOT PATH rec|flat [syn]
	if ( o.a.size() < 3 )
		return;
	if ( running && !settleRaw() )
		return;
	int slot = atoi( o.a[0].c_str() );
	Watch w;
	w.slot = slot;
	w.root = o.a[1];
	w.rec = o.a[2] == "rec";
	w.syn = o.a.size() > 3 && o.a[3] == "syn";
	Node* n = model.find( w.root );
	if ( !n || !n->dir )
		return;
	for ( auto& x : watches )
		if ( x.alive && ( under( x.root, w.root ) || under( w.root, x.root ) ) )
			return; // one watch per tree in these cases
	if ( verbose )
		fprintf( stderr, "  op %s\n", o.text().c_str() );
	long id = addWatchRaw( slot, base + "/" + w.root, w.rec, w.syn );
	if ( id <= 0 ) {
		fail( strf( "addWatch of existing directory %s failed with %ld", w.root.c_str(), id ) );
		return;
	}
	bool any = false;
	for ( auto& x : watches )
		any = any || x.alive;
	w.id = id;
	if ( !any )
		model.settle();
	w.addSeq = model.seq;
	model.listing( w.root, w.rec, w.shadow );
	if ( poll )
		w.psnap = snapshot( w.root, w.rec );
	watches.push_back( w );
	addsDone++;
}

void Runner::doRemove( const Op& o ) {
	if ( o.a.empty() )
		return;
	int slot = atoi( o.a[0].c_str() );
	Watch* w = watchBySlot( slot );
	if ( !w )
		return;
	if ( verbose )
		fprintf( stderr, "  op %s\n", o.text().c_str() );
	{
		rig::ApiScope s;
		if ( o.kind == "rem" )
			fw->removeWatch( w->id );
		else
			fw->removeWatch( base + "/" + w->root + ( o.kind == "remp/" ? "/" : "" ) );
	}
	w->alive = false;
}

bool Runner::settleRaw() {
	if ( !running || v.hang )
		return !v.hang;
	if ( poll ) {
		return true;
	}
	for ( int round = 0; round < 200; round++ ) {
		if ( !rig::waitParked( worker + 1, rig::hangLimit() ) ) {
			hang( "delivery thread does not get back to waiting" );
			return false;
		}
		bool did = false;
		if ( rig::workerState( worker ) == W_EXITED ) {
			fail( "delivery thread ended" );
			return false;
		}
		while ( rig::pendingEvents( worker ) > 0 ) {
			did = true;
			if ( !rig::pumpEvents( worker, 1 << 30 ) ) {
				hang( "processing notifications" );
				return false;
			}
		}
		for ( int i = 0; i < 2; i++ ) {
			bool ok = rig::workerState( worker ) == W_PARKED_SLEEP ? rig::wakeSleeper( worker ) : rig::idleTimeout( worker );
			if ( !ok ) {
				hang( "processing an idle timeout" );
				return false;
			}
			if ( rig::pendingEvents( worker ) > 0 )
				did = true;
		}
		if ( !did )
			return true;
	}
	fail( "the delivery thread never becomes idle" );
	return false;
}

static bool wants( const std::string& prop, const char* what ) {
	static const std::map<std::string, std::set<std::string>> m = {
		{ "converge", { "C01", "C06", "C07", "C14", "C24", "C15" } },
		{ "sound", { "C02", "C06", "C14", "C24" } },
		{ "sequence", { "C03", "C24" } },
		{ "modified", { "C05" } },
		{ "probe", { "C04", "C07", "C11", "C14", "C20" } },
		{ "missed", { "C07", "C02", "C14" } },
		{ "names", { "C24", "C02", "C14" } },
		{ "pconverge", { "C08", "C14", "C24" } },
		{ "psound", { "C09", "C14", "C24" } },
		{ "pmod", { "C10" } },
		{ "route", { "C14", "C02", "C09" } },
	};
	auto it = m.find( what );
	return it != m.end() && it->second.count( prop );
}

void Runner::settle( bool check ) {
	if ( poll ) {
		if ( running )
			pollOnce( check );
		return;
	}
	if ( !running )
		return;
	if ( !settleRaw() )
		return;
	injectedThisEpoch = false;
	clearInjections();
	cbInject.clear();
	stats["settles"]++;
	int ov = rig::overflows();
	overflowEpoch = ov != overflowsSeen;
	if ( overflowEpoch )
		stats["overflows"] += ov - overflowsSeen;
	if ( wants( prop, "missed" ) )
		checkMissed( ov - overflowsSeen );
	overflowsSeen = ov;
	if ( check )
		checkNative();
	for ( auto& w : watches )
		if ( w.alive ) {
			w.shadow.clear();
			model.listing( w.root, w.rec, w.shadow );
			w.addSeq = model.seq;
		}
	events.clear();
	model.settle();
	overflowBefore = overflowEpoch = false;
}

void Runner::checkNames( const Event& e, const Watch& w ) {
	if ( e.dir.empty() || e.dir.back() != '/' )
		fail( "directory does not end with a slash: " + e.str() );
	if ( e.dir.size() > 1 && e.dir[e.dir.size() - 2] == '/' )
		fail( "directory ends with two slashes: " + e.str() );
	if ( e.name.empty() || e.name.find( '/' ) != std::string::npos )
		fail( "name is not a plain name: " + e.str() );
	if ( e.action == 4 ? ( e.old.empty() || e.old.find( '/' ) != std::string::npos ) : !e.old.empty() )
		fail( "old name wrong: " + e.str() );
	(void)w;
}

void Runner::checkMissed( int overflows ) {
	for ( auto& w : watches ) {
		if ( !w.alive )
			continue;
		int n = 0;
		for ( auto& e : events )
			if ( e.missed && e.id == w.id && e.slot == w.slot ) {
				n++;
				if ( rel( stripSlash( e.dir ) ) != w.root )
					fail( "missed actions reported for a wrong directory: " + e.str() );
			}
		if ( overflows && n == 0 )
			fail( strf( "notifications were dropped but the listener of %s was not told", w.root.c_str() ) );
		if ( overflows )
			stats["missed_told"] += n;
		if ( !overflows && n )
			fail( "missed actions reported although nothing was dropped for " + w.root );
		if ( n > overflows )
			fail( strf( "missed actions reported %d times to %s for %d overflows", n, w.root.c_str(), overflows ) );
	}
	for ( auto& e : events )
		if ( e.missed && e.w < 0 )
			fail( "missed actions reported for a watch that is not registered: " + e.str() );
}

void Runner::checkNative() {
	for ( auto& e : events )
		if ( !e.missed && ( wants( prop, "route" ) ) ) {
			if ( e.w < 0 ) {
				fail( "event for a watch id that is not registered: " + e.str() );
				continue;
			}
			Watch& w = watches[e.w];
			if ( e.slot != w.slot )
				fail( strf( "event delivered to listener %d instead of %d: ", e.slot, w.slot ) + e.str() );
			std::string d = rel( stripSlash( e.dir ) );
			if ( !( w.rec ? under( d, w.root ) : d == w.root ) )
				fail( "event outside the scope of its watch: " + e.str() );
		}
	for ( size_t i = 0; i < watches.size(); i++ ) {
		Watch& w = watches[i];
		if ( !w.alive )
			continue;
		std::vector<Event> ev;
		for ( auto& e : events )
			if ( e.w == (int)i && !e.missed )
				ev.push_back( e );
		if ( wants( prop, "names" ) )
			for ( auto& e : ev )
				checkNames( e, w );
		if ( overflowEpoch )
			continue;
		if ( wants( prop, "converge" ) )
			checkConverge( w, ev, w.syn && prop == "C06" );
		if ( wants( prop, "sound" ) )
			checkSound( w, ev );
		if ( wants( prop, "sequence" ) )
			checkSequence( w, ev );
		if ( wants( prop, "modified" ) )
			checkModified( w, ev );
	}
}

static void eraseTree( std::set<std::string>& s, const std::string& p ) {
	s.erase( p );
	auto it = s.lower_bound( p + "/" );
	while ( it != s.end() && it->compare( 0, p.size() + 1, p + "/" ) == 0 )
		it = s.erase( it );
}

void Runner::checkConverge( Watch& w, const std::vector<Event>& ev, bool strict ) {
	std::set<std::string>& s = w.shadow;
	std::set<std::string> gone; // reported as deleted or renamed
	for ( auto& e : ev ) {
		std::string d = rel( stripSlash( e.dir ) );
		std::string p = d + "/" + e.name;
		for ( std::string q = d; e.action == 2 && q.size() > w.root.size(); q = dirName( q ) )
			if ( gone.count( q ) )
				fail( "the directory of " + esc( p ) + " was reported as deleted before it" );
		if ( e.action == 2 )
			gone.insert( p );
		else if ( e.action != 3 )
			eraseTree( gone, p );
		if ( e.action == 1 )
			s.insert( p );
		else if ( e.action == 2 )
			eraseTree( s, p );
		else if ( e.action == 4 ) {
			std::string o = d + "/" + e.old;
			if ( o == p )
				continue;
			gone.insert( o );
			std::vector<std::string> mvd;
			for ( auto it = s.lower_bound( o + "/" ); it != s.end() && it->compare( 0, o.size() + 1, o + "/" ) == 0; ++it )
				mvd.push_back( it->substr( o.size() ) );
			eraseTree( s, p );
			eraseTree( s, o );
			s.insert( p );
			for ( auto& m : mvd )
				s.insert( p + m );
		}
	}
	std::set<std::string> act;
	model.listing( w.root, w.rec, act );
	for ( auto& p : s )
		if ( !act.count( p ) && ( w.rec || dirName( p ) == w.root ) ) {
			if ( w.syn && model.churned( dirName( p ) ) )
				continue;
			fail( "replayed events contain " + esc( p ) + " which does not exist (its deletion or move was lost)" );
			return;
		}
	for ( auto& p : act )
		if ( !s.count( p ) ) {
			Node* n = model.find( dirName( p ) );
			if ( !strict && model.inFresh( n ) )
				continue;
			if ( w.syn && model.churned( dirName( p ) ) )
				continue;
			Node* self = model.find( p );
			if ( model.inFresh( n ) && self && ( self->fifo || self->link ) )
				continue; // neither a file nor a directory
			fail( "existing entry " + esc( p ) + " is missing from the replayed events (its creation or move was lost)" );
			return;
		}
}

void Runner::checkSound( Watch& w, const std::vector<Event>& ev ) {
	std::set<std::string> appeared, vanished, modified, renamed;
	for ( auto& f : model.facts ) {
		if ( f.seq <= w.addSeq )
			continue;
		switch ( f.kind ) {
			case F_APPEAR: appeared.insert( f.path() ); break;
			case F_VANISH: vanished.insert( f.path() ); break;
			case F_MODIFY: modified.insert( f.path() ); break;
			case F_RENAME:
				appeared.insert( f.path() );
				vanished.insert( f.oldPath() );
				renamed.insert( f.oldPath() + "\n" + f.path() );
				break;
		}
	}
	for ( auto& e : ev ) {
		std::string d = rel( stripSlash( e.dir ) );
		std::string p = d + "/" + e.name;
		if ( !inScope( w, p ) ) {
			fail( "event outside the watched scope: " + e.str() );
			return;
		}
		bool ok = e.action == 1	  ? appeared.count( p )
				  : e.action == 2 ? vanished.count( p )
				  : e.action == 3 ? modified.count( p ) || appeared.count( p )
				  : e.action == 4 ? renamed.count( d + "/" + e.old + "\n" + p )
								  : false;
		if ( !ok ) {
			fail( "event that nothing justifies: " + e.str() );
			return;
		}
	}
}

void Runner::checkSequence( Watch& w, const std::vector<Event>& ev ) {
	struct Item {
		std::string t;
		bool optional;
		bool operator==( const Item& o ) const { return t == o.t; }
	};
	std::map<std::string, std::vector<Item>> exp, got;
	for ( auto& f : model.facts ) {
		if ( f.seq <= w.addSeq || f.kind == F_MODIFY )
			continue;
		if ( !inScope( w, f.path() ) )
			continue;
		// what is below a directory that moves may be reported along with it
		if ( f.kind == F_APPEAR )
		{
			// The kernel merges two arrivals of one name in a row into one notification
			auto& l = exp[f.dir];
			std::string add = "Add " + f.name, mv = " -> " + f.name;
			bool merged = f.overwrote && !l.empty() &&
						  ( l.back().t == add || ( l.back().t.size() > mv.size() && l.back().t.compare( 0, 6, "Moved " ) == 0 &&
												   l.back().t.compare( l.back().t.size() - mv.size(), mv.size(), mv ) == 0 ) );
			l.push_back( { add, f.derived || merged } );
		}
		else if ( f.kind == F_VANISH )
			exp[f.dir].push_back( { "Delete " + f.name, f.derived } );
		else
			exp[f.dir].push_back( { "Moved " + f.old + " -> " + f.name, f.derived } );
	}
	for ( auto& e : ev ) {
		std::string d = rel( stripSlash( e.dir ) );
		if ( e.action == 1 )
			got[d].push_back( { "Add " + e.name, false } );
		else if ( e.action == 2 )
			got[d].push_back( { "Delete " + e.name, false } );
		else if ( e.action == 4 )
			got[d].push_back( { "Moved " + e.old + " -> " + e.name, false } );
	}
	auto matches = []( const std::vector<Item>& x, const std::vector<Item>& g ) {
		// can g be obtained from x by dropping optional items, those of one run coming in any order?
		std::vector<char> ok( g.size() + 1, 0 );
		ok[0] = 1;
		for ( size_t k = 0; k < x.size(); ) {
			std::vector<char> nx( g.size() + 1, 0 );
			if ( !x[k].optional ) {
				for ( size_t j = 0; j < g.size(); j++ )
					if ( ok[j] && g[j] == x[k] )
						nx[j + 1] = 1;
				k++;
			} else {
				std::multiset<std::string> run;
				for ( ; k < x.size() && x[k].optional; k++ )
					run.insert( x[k].t );
				for ( size_t j = 0; j <= g.size(); j++ )
					if ( ok[j] ) {
						std::multiset<std::string> left = run;
						nx[j] = 1;
						for ( size_t m = j; m < g.size(); m++ ) {
							auto it = left.find( g[m].t );
							if ( it == left.end() )
								break;
							left.erase( it );
							nx[m + 1] = 1;
						}
					}
			}
			ok = nx;
		}
		return ok[g.size()] != 0;
	};
	std::set<std::string> labels;
	for ( auto& x : exp )
		labels.insert( x.first );
	for ( auto& x : got )
		labels.insert( x.first );
	for ( auto& l : labels ) {
		// a directory that itself appeared may be registered late: its label is not judged here
		if ( model.dirtyLabels.count( l ) ) {
			stats["labels_skipped"]++;
			continue;
		}
		stats["labels_checked"]++;
		if ( !matches( exp[l], got[l] ) ) {
			std::string m = "directory " + esc( l ) + ": expected (";
			for ( auto& x : exp[l] )
				m += ( x.optional ? "?" : "" ) + esc( x.t ) + "; ";
			m += ") but the events were (";
			for ( auto& x : got[l] )
				m += esc( x.t ) + "; ";
			fail( m + ")" );
			return;
		}
	}
}

void Runner::checkModified( Watch& w, const std::vector<Event>& ev ) {
	struct Seg {
		int required = 0, allowed = 0, got = 0;
		long lastReq = 0, lastGot = -1;
	};
	std::map<std::string, std::vector<Seg>> fs, es;
	std::map<std::string, std::string> ks, ke; // structural strings
	auto segOf = []( std::map<std::string, std::vector<Seg>>& m, const std::string& p ) -> Seg& {
		auto& v = m[p];
		if ( v.empty() )
			v.push_back( Seg() );
		return v.back();
	};
	auto structural = [&]( std::map<std::string, std::vector<Seg>>& m, std::map<std::string, std::string>& k,
						   const std::string& p, char c ) {
		segOf( m, p );
		m[p].push_back( Seg() );
		k[p] += c;
	};
	std::set<std::string> names;
	for ( auto& f : model.facts ) {
		if ( f.seq <= w.addSeq )
			continue;
		if ( !inScope( w, f.path() ) )
			continue;
		if ( model.dirtyLabels.count( f.dir ) )
			continue;
		names.insert( f.path() );
		if ( f.kind == F_MODIFY ) {
			Seg& s = segOf( fs, f.path() );
			s.allowed++;
			if ( !f.derived ) {
				s.required++;
				s.lastReq = f.seq;
			}
		} else if ( f.derived )
			continue;
		else if ( f.kind == F_APPEAR )
			structural( fs, ks, f.path(), 'A' );
		else if ( f.kind == F_VANISH )
			structural( fs, ks, f.path(), 'D' );
		else {
			names.insert( f.oldPath() );
			structural( fs, ks, f.oldPath(), 'D' );
			structural( fs, ks, f.path(), 'A' );
		}
	}
	// names reported as deleted, until the name or a directory above it is reported to (re)appear
	std::set<std::string> dead, modifiedDead;
	auto alive = [&]( const std::string& p ) {
		dead.erase( p );
		for ( auto i = dead.lower_bound( p + "/" ); i != dead.end() && i->compare( 0, p.size() + 1, p + "/" ) == 0; )
			i = dead.erase( i );
	};
	for ( auto& e : ev ) {
		std::string d = rel( stripSlash( e.dir ) );
		if ( e.action == 1 || e.action == 4 )
			alive( d + "/" + e.name );
		if ( model.dirtyLabels.count( d ) )
			continue;
		std::string p = d + "/" + e.name;
		names.insert( p );
		if ( e.action == 2 )
			dead.insert( p );
		else if ( e.action == 4 )
			dead.insert( d + "/" + e.old );
		if ( e.action == 3 ) {
			if ( dead.count( p ) )
				modifiedDead.insert( p );
			Seg& s = segOf( es, p );
			s.got++;
			s.lastGot = e.opSeq;
		} else if ( e.action == 1 )
			structural( es, ke, p, 'A' );
		else if ( e.action == 2 )
			structural( es, ke, p, 'D' );
		else if ( e.action == 4 ) {
			names.insert( d + "/" + e.old );
			structural( es, ke, d + "/" + e.old, 'D' );
			structural( es, ke, p, 'A' );
		}
	}
	for ( auto& p : names ) {
		Node* n = model.find( p );
		(void)n;
		if ( ks[p] != ke[p] ) {
			// which names exist when is C01/C03; here: did every write show up at all?
			int req = 0, got = 0;
			for ( auto& s : fs[p] )
				req += s.required;
			for ( auto& s : es[p] )
				got += s.got;
			if ( req && !got )
				fail( "no Modified event for " + esc( p ) + " although it was written" );
			if ( modifiedDead.count( p ) )
				fail( "Modified event for " + esc( p ) + " after its Delete" );
			continue;
		}
		auto& a = fs[p];
		auto& b = es[p];
		segOf( fs, p );
		segOf( es, p );
		stats["mod_names"]++;
		for ( size_t i = 0; i < a.size(); i++ ) {
			if ( a[i].required && !b[i].got ) {
				fail( strf( "no Modified event for %s (stage %zu of its history) although it was written", esc( p ).c_str(), i ) );
				return;
			}
			if ( a[i].required && b[i].lastGot < a[i].lastReq ) {
				fail( strf( "no Modified event for %s after its last write", esc( p ).c_str() ) );
				return;
			}
			if ( !a[i].allowed && b[i].got && i > 0 && ks[p][i - 1] == 'D' ) {
				fail( strf( "Modified event for %s after its Delete", esc( p ).c_str() ) );
				return;
			}
			if ( !a[i].allowed && b[i].got && i + 1 < a.size() && ks[p][i] == 'A' && ( i == 0 || ks[p][i - 1] == 'D' ) &&
				 i > 0 ) {
				fail( strf( "Modified event for %s before its Add", esc( p ).c_str() ) );
				return;
			}
		}
	}
}

void Runner::probe() {
	if ( !running || v.hang )
		return;
	settle( true );
	if ( poll )
		settle( true );
	if ( !v.ok )
		return;
	stats["probes"]++;
	std::vector<std::string> tops;
	for ( auto& k : model.root.kids )
		tops.push_back( k.first );
	std::vector<std::string> dirs;
	for ( auto& t : tops )
		model.allDirs( t, dirs );
	const std::string pn = "~probe";
	long before = model.seq;
	for ( auto& d : dirs ) {
		Op o;
		o.kind = "touch";
		o.a = { d + "/" + pn };
		doFs( o );
	}
	stats["probe_dirs"] += (long)dirs.size();
	if ( poll )
		pollOnce( false );
	else if ( !settleRaw() )
		return;
	if ( !poll && rig::overflows() != overflowsSeen )
		return; // too many for the queue: judged by checkMissed
	(void)before;
	bool strict = wants( prop, "probe" );
	for ( size_t i = 0; i < watches.size(); i++ ) {
		Watch& w = watches[i];
		if ( !w.alive )
			continue;
		for ( auto& d : dirs ) {
			bool want = inScope( w, d + "/" + pn );
			int adds = 0;
			for ( auto& e : events )
				if ( e.w == (int)i && e.action == 1 && e.name == pn && rel( stripSlash( e.dir ) ) == d )
					adds++;
			if ( want && adds == 0 && strict )
				fail( "a new file in " + esc( d ) + " is not reported: the directory is not being watched under its path" );
			if ( !want && adds && strict )
				fail( "a new file in " + esc( d ) + " is reported although it is not in the scope of the watch" );
			if ( want && adds > 1 && strict )
				fail( strf( "a new file in %s is reported %d times", esc( d ).c_str(), adds ) );
		}
		if ( strict )
			for ( auto& e : events )
				if ( e.w == (int)i && !e.missed ) {
					std::string d = rel( stripSlash( e.dir ) );
					if ( e.action == 3 && poll )
						continue; // directories changed
					if ( std::find( dirs.begin(), dirs.end(), d ) == dirs.end() || e.name != pn )
						fail( "an event under a wrong path after new files were made: " + e.str() );
				}
	}
	if ( !v.ok )
		return;
	for ( auto& d : dirs ) {
		Op o;
		o.kind = "rm";
		o.a = { d + "/" + pn };
		doFs( o );
	}
	settle( true );
	if ( poll )
		settle( true );
}

// ---------------------------------------------------------------------------------------------------- polling
void Runner::pollOnce( bool check ) {
	if ( !running || v.hang )
		return;
	if ( !rig::waitParked( worker + 1, rig::hangLimit() ) ) {
		hang( "polling thread does not get to sleep" );
		return;
	}
	if ( rig::workerState( worker ) == W_EXITED ) {
		fail( "polling thread ended" );
		return;
	}
	std::vector<Snap> s1;
	bool injected = injectedThisEpoch;
	if ( !injected )
		for ( auto& w : watches )
			s1.push_back( w.alive ? snapshot( w.root, w.rec ) : Snap() );
	events.clear();
	uint64_t t0 = rig::virtualNowUs();
	int rounds = 0;
	do {
		if ( !rig::wakeSleeper( worker ) ) {
			hang( "polling" );
			return;
		}
		if ( ++rounds > 5000 ) {
			fail( "polling thread does not sleep for its period" );
			return;
		}
	} while ( rig::virtualNowUs() - t0 < (uint64_t)period * 1000 );
	analyzePoll( s1, injected, check );
}

void Runner::analyzePoll( const std::vector<Snap>& s1, bool injected, bool check ) {
	stats["polls"]++;
	clearInjections();
	cbInject.clear();
	injectedThisEpoch = false;
	for ( auto& e : events )
		if ( !e.missed && wants( prop, "route" ) ) {
			if ( e.w < 0 ) {
				fail( "event for a watch id that is not registered: " + e.str() );
				continue;
			}
			Watch& w = watches[e.w];
			if ( e.slot != w.slot )
				fail( strf( "event delivered to listener %d instead of %d: ", e.slot, w.slot ) + e.str() );
			std::string d = rel( stripSlash( e.dir ) );
			if ( !( w.rec ? under( d, w.root ) : d == w.root ) )
				fail( "event outside the scope of its watch: " + e.str() );
		}
	for ( size_t i = 0; i < watches.size(); i++ ) {
		Watch& w = watches[i];
		if ( !w.alive )
			continue;
		Snap now = injected ? snapshot( w.root, w.rec ) : s1[i];
		Snap& s = w.psnap;
		std::map<std::string, int> mods;
		std::set<std::string> deletedTop;
		std::map<std::string, Attr> deletedAt; // entries removed in this poll (explicitly or below a deleted directory)
		std::set<std::string> delReported;
		std::map<std::string, Attr> below; // what was in a deleted directory and isn't reported yet
		bool unsure = injected || w.unsure; // what each poll saw is not known exactly
		bool snd = check && !unsure && wants( prop, "psound" );
		if ( wants( prop, "names" ) )
			for ( auto& e : events )
				if ( e.w == (int)i && !e.missed )
					checkNames( e, w );
		for ( auto& e : events ) {
			if ( e.w != (int)i || e.missed )
				continue;
			std::string d = rel( stripSlash( e.dir ) );
			std::string p = d + "/" + e.name;
			auto nowIt = now.find( p );
			auto it = s.find( p );
			if ( snd && !inScope( w, p ) )
				fail( "event outside the watched scope: " + e.str() );
			if ( e.action == 1 ) {
				if ( snd && nowIt == now.end() )
					fail( "Add for a name that does not exist: " + e.str() );
				if ( snd && it != s.end() && nowIt != now.end() && it->second.type == nowIt->second.type )
					fail( "Add for a name that was already there: " + e.str() );
				if ( nowIt != now.end() ) {
					if ( it != s.end() && it->second.type && it->second.type != nowIt->second.type ) {
						std::set<std::string> keys;
						for ( auto& kv : s )
							if ( kv.first != p && under( kv.first, p ) )
								keys.insert( kv.first );
						for ( auto& k : keys ) {
							deletedAt[k] = s[k];
							s.erase( k );
						}
					}
					s[p] = nowIt->second;
				} else
					s[p] = Attr();
			} else if ( e.action == 2 ) {
				if ( snd ) {
					bool was = it != s.end() || deletedAt.count( p );
					if ( !was )
						fail( "Delete for a name that was not there: " + e.str() );
					if ( nowIt != now.end() && it != s.end() && it->second.type == nowIt->second.type &&
						 it->second.ino == nowIt->second.ino )
						fail( "Delete for a name that is still there: " + e.str() );
					if ( !delReported.insert( p ).second )
						fail( "Delete reported twice: " + e.str() );
				}
				below.erase( p );
				std::vector<std::string> keys;
				for ( auto& kv : s )
					if ( under( kv.first, p ) ) {
						keys.push_back( kv.first );
						if ( kv.first != p )
							below.insert( kv );
					}
				for ( auto& k : keys ) {
					deletedAt[k] = s[k];
					s.erase( k );
				}
			} else if ( e.action == 3 ) {
				mods[p]++;
				if ( snd ) {
					if ( it == s.end() || nowIt == now.end() )
						fail( "Modified for a name that was not there before and after: " + e.str() );
					else if ( it->second.type == nowIt->second.type && it->second.ino == nowIt->second.ino &&
							  it->second.lino == nowIt->second.lino && it->second.sameMeta( nowIt->second ) )
						fail( "Modified for an entry whose attributes did not change: " + e.str() );
					if ( mods[p] > 1 )
						fail( "Modified reported twice in one poll: " + e.str() );
				}
				if ( it != s.end() && nowIt != now.end() ) {
					Attr keep = it->second;
					it->second = nowIt->second;
					if ( keep.type && keep.type != nowIt->second.type ) {
						// replaced by another kind of entry: what was below is gone
						std::vector<std::string> keys;
						for ( auto& kv : s )
							if ( kv.first != p && under( kv.first, p ) )
								keys.push_back( kv.first );
						for ( auto& k : keys ) {
							deletedAt[k] = s[k];
							s.erase( k );
						}
					}
				}
			} else if ( e.action == 4 ) {
				std::string o = d + "/" + e.old;
				auto oi = s.find( o );
				if ( snd ) {
					if ( oi == s.end() )
						fail( "Moved from a name that was not there: " + e.str() );
					else if ( nowIt == now.end() )
						fail( "Moved to a name that does not exist: " + e.str() );
					else if ( now.count( o ) && now[o].ino == oi->second.ino && now[o].type == oi->second.type )
						fail( "Moved from a name that is still there: " + e.str() );
					else if ( it != s.end() )
						fail( "Moved to a name that was already there: " + e.str() );
					else if ( oi->second.ino != nowIt->second.ino || oi->second.type != nowIt->second.type )
						fail( "Moved between different files: " + e.str() );
				}
				if ( oi != s.end() ) {
					std::vector<std::pair<std::string, Attr>> mvd;
					std::vector<std::string> keys;
					for ( auto& kv : s )
						if ( under( kv.first, o ) ) {
							mvd.push_back( { p + kv.first.substr( o.size() ), kv.second } );
							keys.push_back( kv.first );
						}
					for ( auto& k : keys )
						s.erase( k );
					for ( auto& m : mvd )
						s[m.first] = m.second;
					// another name: what else changed of the file itself is not asked for
					if ( nowIt != now.end() && nowIt->second.type == 1 )
						s[p] = nowIt->second;
				} else
					s[p] = Attr();
			}
		}
		bool conv = check && !injected && wants( prop, "pconverge" );
		bool pm = check && !unsure && wants( prop, "pmod" );
		for ( auto& kv : below )
			if ( conv && !unsure && !kv.second.link ) {
				// a link that took the place of the directory can lead to something of the same name
				bool byLink = false;
				for ( size_t k = kv.first.find( '/' ); k != std::string::npos; k = kv.first.find( '/', k + 1 ) ) {
					auto up = now.find( kv.first.substr( 0, k ) );
					byLink = byLink || ( up != now.end() && up->second.link );
				}
				if ( byLink )
					continue;
				fail( "the directory of " + esc( kv.first ) + " was deleted, but that entry was not reported" );
				break;
			}
		for ( auto& kv : s )
			if ( conv && !now.count( kv.first ) && !kv.second.link ) {
				fail( "replayed events contain " + esc( kv.first ) + " which does not exist (its deletion or move was lost)" );
				break;
			}
		for ( auto& kv : now )
			if ( conv && !s.count( kv.first ) && !kv.second.link ) {
				fail( "existing entry " + esc( kv.first ) + " is missing from the replayed events" );
				break;
			}
		for ( auto& kv : now )
			if ( pm && kv.second.type == 1 && s.count( kv.first ) && !kv.second.link ) {
				Attr& a = s[kv.first];
				stats["attr_compared"]++;
				if ( a.type == 1 && !a.sameMeta( kv.second ) )
					fail( "a changed file was not reported as modified: " + esc( kv.first ) );
				if ( mods[kv.first] > 1 )
					fail( "a changed file was reported more than once: " + esc( kv.first ) );
			}
		for ( auto& m : mods )
			if ( pm && now.count( m.first ) && now[m.first].type == 1 )
				stats["mods_seen"]++;
		if ( !injected )
			s = now;
		w.unsure = injected;
		if ( unsure && !injected )
			stats["polls_after_races"]++;
	}
	if ( !injected )
		model.settle();
}

// ---------------------------------------------------------------------------------------------------- driving
void Runner::step( const Op& o ) {
	if ( !v.ok )
		return;
	const std::string& k = o.kind;
	stats["ops"]++;
	if ( isFsOp( k ) ) {
		doFs( o );
		return;
	}
	if ( verbose && k != "add" )
		fprintf( stderr, "  op %s\n", o.text().c_str() );
	if ( k == "add" )
		doAdd( o );
	else if ( k == "rem" || k == "remp" || k == "remp/" )
		doRemove( o );
	else if ( k == "go" ) {
		if ( running )
			return;
		std::vector<Snap> s1;
		if ( poll )
			for ( auto& w : watches )
				s1.push_back( w.alive ? snapshot( w.root, w.rec ) : Snap() );
		{
			rig::ApiScope s;
			fw->watch();
		}
		if ( !rig::waitParked( 1, rig::hangLimit() ) ) {
			hang( "starting the delivery thread" );
			return;
		}
		worker = 0;
		running = true;
		if ( poll ) {
			// the first examination happens at once
			analyzePoll( s1, false, true );
		}
	} else if ( k == "settle" ) {
		settle();
	} else if ( k == "pump" ) {
		if ( running && !poll && !o.a.empty() ) {
			stats["partial_pumps"]++;
			if ( !rig::pumpEvents( worker, atoi( o.a[0].c_str() ) ) )
				hang( "processing notifications" );
		}
	} else if ( k == "idle" ) {
		if ( running && !poll && rig::workerState( worker ) == W_PARKED_FD && rig::pendingEvents( worker ) == 0 )
			if ( !rig::idleTimeout( worker ) )
				hang( "idle timeout" );
	} else if ( k == "qlimit" ) {
		if ( !o.a.empty() )
			rig::setQueueLimit( atoi( o.a[0].c_str() ) );
	} else if ( k == "flood" ) {
		// flood DIR N: N files come and go
		Node* d = o.a.size() > 1 ? model.find( o.a[0] ) : nullptr;
		if ( d && d->dir && !poll )
			for ( int i = 0, n = atoi( o.a[1].c_str() ); i < n; i++ ) {
				Op f;
				f.kind = "touch";
				f.a = { o.a[0] + "/~f" + std::to_string( i % 7 ) };
				doFs( f );
				f.kind = "rm";
				doFs( f );
			}
	} else if ( k == "readcap" ) {
		if ( !o.a.empty() )
			rig::setReadCap( atoi( o.a[0].c_str() ) );
	} else if ( k == "at" || k == "cb" ) {
		// at K OP...: run OP just before the K-th library call (callback) from here on
		if ( o.a.size() < 3 || !running )
			return;
		Op in;
		in.kind = o.a[1];
		in.a.assign( o.a.begin() + 2, o.a.end() );
		if ( !isFsOp( in.kind ) )
			return;
		injectedThisEpoch = true;
		int n = atoi( o.a[0].c_str() );
		if ( n < 1 )
			return;
		if ( k == "at" )
			rig::injectAtCall( n, [this, in] {
				stats["call_injections"]++;
				doFs( in );
			} );
		else
			cbInject.push_back( { n, in } );
	} else if ( k == "probe" )
		probe();
	else if ( k == "silent" ) {
		// nothing changed since the last settle: idle rounds must deliver nothing
		settle();
		if ( !v.ok )
			return;
		int n = o.a.empty() ? 3 : atoi( o.a[0].c_str() );
		stats["silent_checks"]++;
		for ( int i = 0; i < n && v.ok; i++ ) {
			long before = evNo;
			if ( poll )
				pollOnce( true );
			else
				settleRaw();
			if ( evNo != before )
				fail( "event although nothing changed: " + ( events.empty() ? std::string( "?" ) : events.back().str() ) );
		}
	}
}

void Runner::shutdown() {
	if ( !fw )
		return;
	rig::ApiScope s;
	fw.reset();
}

Verdict Runner::run( const Case& cs ) {
	c = cs;
	rig::registerHarnessThread();
	rig::resetCase();
	poll = c.get( "backend", "native" ) == "poll";
	period = (unsigned)c.geti( "period", 1000 );
	rmTree( base );
	mkdir( base.c_str(), 0755 );
	inoReuse = c.geti( "inoreuse", 0 );
	if ( inoReuse )
		rig::setInoMap( [this]( uint64_t i ) { return mapIno( vino, i ); } );
	std::istringstream is( c.get( "roots", "w o" ) );
	std::string r;
	while ( is >> r ) {
		Op o;
		o.kind = "mkdir";
		o.a = { r };
		doFs( o );
	}
	model.settle();
	{
		rig::ApiScope s;
		fw.reset( poll ? new efsw::FileWatcher( true, period ) : new efsw::FileWatcher() );
		if ( c.geti( "follow", 0 ) )
			fw->followSymlinks( true );
		if ( c.geti( "oos", 0 ) )
			fw->allowOutOfScopeLinks( true );
	}
	for ( auto& o : c.ops ) {
		step( o );
		if ( !v.ok )
			break;
	}
	if ( v.ok )
		settle();
	if ( v.ok && running && c.geti( "probe", 0 ) )
		probe();
	if ( !v.hang )
		shutdown();
	if ( !v.hang )
		rmTree( base );
	stats["native_events"] += (long)rig::eventsDelivered();
	stats["call_injections_fired"] += rig::injectionsFired();
	return v;
}
