#include "gen.hpp"

namespace {

struct Weights {
	int mkdir = 5, touch = 4, write = 2, append = 2, trunc = 1, rm = 3, rmrf = 1, mv = 8, ln = 0, sym = 0, chmod = 0, chown = 0, grow = 0, read = 1,
		utime = 0, fifo = 0;
};

struct G {
	Rng r;
	Case c;
	Model m;
	Weights w;
	int nameProfile = 0; // 0 plain, 1 look-alikes, 2 odd bytes
	int maxDepth = 4;
	std::vector<std::string> names;
	std::vector<std::string> hot; // recently used paths: makes repeats likely

	explicit G( uint64_t s ) : r( s ) {}

	void op( const std::string& k, std::vector<std::string> a = {} ) {
		Op o;
		o.kind = k;
		o.a = a;
		c.ops.push_back( o );
	}
	void initNames() {
		static const std::vector<std::string> plain = { "a", "b", "c", "d", "e" };
		static const std::vector<std::string> look = { "a", "a.", "ab", "a b", "aa", "b", "a-", "A", "a~", ".a", "..a", "bb", "..." };
		if ( nameProfile == 0 )
			names = plain;
		else if ( nameProfile == 1 )
			names = look;
		else
			for ( int i = 0; i < 7; i++ )
				names.push_back( oddName() );
	}
	std::string oddName() {
		switch ( r.below( 9 ) ) {
			case 0: return std::string( r.range( 200, 255 ), (char)r.range( 'a', 'z' ) );
			case 1: return std::string( "\xff\xfe" ) + (char)r.range( 128, 255 );
			case 2: return std::string( " " ) + (char)r.range( 'a', 'z' ) + " ";
			case 3: return std::string( "x\n\t" ) + (char)r.range( 1, 31 );
			case 4: return std::string( "\xc3\xa9\xe4\xb8\xad\xf0\x9f\x98\x80" ) + (char)r.range( 'a', 'e' );
			case 5: return std::string( "\\" ) + (char)r.range( 'a', 'c' ) + "\\";
			case 6: return std::string( "...." ).substr( 0, r.range( 3, 4 ) );
			case 7: return std::string( "*?" ) + (char)r.range( 33, 46 );
			default: {
				std::string s;
				int n = r.range( 1, 6 );
				for ( int i = 0; i < n; i++ ) {
					char ch;
					do
						ch = (char)r.range( 1, 255 );
					while ( ch == '/' );
					s += ch;
				}
				if ( s == "." || s == ".." )
					s += "q";
				return s;
			}
		}
	}
	int depth( const std::string& p ) {
		int n = 0;
		for ( char ch : p )
			n += ch == '/';
		return n;
	}
	std::vector<std::string> tops() {
		std::vector<std::string> t;
		for ( auto& k : m.root.kids )
			t.push_back( k.first );
		return t;
	}
	std::vector<std::string> dirs() {
		std::vector<std::string> d;
		for ( auto& t : tops() )
			m.allDirs( t, d );
		return d;
	}
	std::vector<std::string> files() {
		std::vector<std::string> d;
		for ( auto& t : tops() )
			m.allFiles( t, d );
		return d;
	}
	std::string anyEntry( bool inW = false ) {
		std::vector<std::string> v;
		std::vector<std::string> ts = tops();
		for ( auto& t : ts ) {
			if ( inW && t == "o" )
				continue;
			std::set<std::string> s;
			m.listing( t, true, s );
			v.insert( v.end(), s.begin(), s.end() );
		}
		return v.empty() ? "" : r.pick( v );
	}
	std::string pickDir() {
		std::vector<std::string> d = dirs(), e;
		for ( auto& x : d )
			if ( depth( x ) < maxDepth )
				e.push_back( x );
		if ( e.empty() )
			return "w";
		std::string x = r.pick( e );
		if ( under( x, "o" ) && r.chance( 2, 3 ) )
			x = r.pick( e ); // fewer operations outside
		return x;
	}
	std::string newPath( bool mustBeFree ) {
		for ( int i = 0; i < 8; i++ ) {
			std::string p;
			if ( !hot.empty() && r.chance( 1, 4 ) )
				p = hot[r.below( (int)hot.size() )];
			else
				p = pickDir() + "/" + r.pick( names );
			Node* d = m.find( dirName( p ) );
			if ( !d || !d->dir )
				continue;
			if ( !mustBeFree || !m.find( p ) )
				return p;
		}
		return "";
	}
	void remember( const std::string& p ) {
		hot.push_back( p );
		if ( hot.size() > 6 )
			hot.erase( hot.begin() );
	}
	bool randOp( Op& o ) {
		std::vector<int> ws = { w.mkdir, w.touch, w.write, w.append, w.trunc, w.rm, w.rmrf, w.mv, w.ln, w.sym, w.chmod, w.utime, w.fifo, w.chown, w.grow, w.read };
		o = Op();
		switch ( r.weighted( ws ) ) {
			case 0: o.kind = "mkdir"; o.a = { newPath( true ) }; break;
			case 1: o.kind = "touch"; o.a = { newPath( r.chance( 3, 4 ) ) }; break;
			case 2: {
				auto f = files();
				o.kind = "write";
				o.a = { !f.empty() && r.chance( 1, 2 ) ? r.pick( f ) : newPath( false ), std::string( r.range( 1, 30 ), 'x' ) };
				break;
			}
			case 3: {
				auto f = files();
				if ( f.empty() )
					return false;
				o.kind = "append";
				o.a = { r.pick( f ), std::string( r.range( 1, 5 ), 'y' ) };
				break;
			}
			case 4: {
				auto f = files();
				if ( f.empty() )
					return false;
				o.kind = "trunc";
				o.a = { r.pick( f ), std::to_string( r.range( 0, 3 ) ) };
				break;
			}
			case 5: o.kind = "rm"; o.a = { anyEntry() }; break;
			case 6: o.kind = "rmrf"; o.a = { anyEntry() }; break;
			case 7: {
				std::string s = anyEntry();
				if ( s.empty() )
					return false;
				std::string t;
				int k = r.below( 10 );
				if ( k < 4 )
					t = dirName( s ) + "/" + r.pick( names ); // rename in place
				else if ( k < 5 ) {
					std::string e = anyEntry(); // onto something
					t = e;
				} else
					t = newPath( r.chance( 4, 5 ) );
				o.kind = "mv";
				o.a = { s, t };
				if ( t.empty() || depth( t ) > maxDepth + 1 )
					return false;
				break;
			}
			case 8: {
				auto f = files();
				if ( f.empty() )
					return false;
				o.kind = "ln";
				o.a = { r.pick( f ), newPath( true ) };
				break;
			}
			case 9: {
				std::string e = anyEntry();
				o.kind = "sym";
				static const std::vector<std::string> lit = { ".", "..", "nowhere", "../..", "a", "b" };
				o.a = { !e.empty() && r.chance( 2, 3 ) ? "@/" + e : r.pick( lit ), newPath( true ) };
				break;
			}
			case 10: {
				std::string e = anyEntry();
				static const std::vector<std::string> modes = { "640", "644", "600", "755", "700", "777", "444", "4755", "2755", "1755", "1640" };
				o.kind = "chmod";
				o.a = { e, r.pick( modes ) };
				if ( e.empty() )
					return false;
				break;
			}
			case 11: {
				std::string e = anyEntry();
				if ( e.empty() )
					return false;
				o.kind = "utime";
				o.a = { e, std::to_string( 1000000 + r.below( 3 ) ), std::to_string( r.below( 4 ) * 1000 ) };
				break;
			}
			case 13: {
				std::string e = anyEntry();
				if ( e.empty() )
					return false;
				o.kind = "chown";
				bool user = r.chance( 1, 2 );
				o.a = { e, user ? std::to_string( r.below( 3 ) ) : "-1", user ? "-1" : std::to_string( r.below( 3 ) ) };
				break;
			}
			case 14: {
				auto f = files();
				if ( f.empty() )
					return false;
				o.kind = "grow";
				o.a = { r.pick( f ) };
				if ( r.chance( 1, 4 ) ) // sparse
					o.a.push_back( r.pick( std::vector<std::string>{ "65536", "2147483648", "4294967296", "8589934592" } ) );
				break;
			}
			case 15: {
				std::vector<std::string> e = r.chance( 1, 3 ) ? dirs() : files();
				if ( e.empty() )
					return false;
				o.kind = "read";
				o.a = { r.pick( e ) };
				break;
			}
			default:
				o.kind = "mkfifo";
				o.a = { newPath( true ) };
				if ( r.chance( 1, 2 ) )
					o.a.push_back( "sock" );
				break;
		}
		if ( o.a.empty() || o.a[0].empty() || ( o.a.size() > 1 && o.a[1].empty() ) )
			return false;
		return m.possible( o );
	}
	bool emitOp() {
		for ( int i = 0; i < 12; i++ ) {
			Op o;
			if ( !randOp( o ) )
				continue;
			m.apply( o );
			for ( auto& p : o.a )
				if ( p.find( '/' ) != std::string::npos )
					remember( p );
			c.ops.push_back( o );
			return true;
		}
		return false;
	}
	// a micro scenario: several operations that only together are interesting
	void scenario() {
		std::string d = pickDir();
		std::string x = d + "/" + r.pick( names ), y = d + "/" + r.pick( names ), d2 = pickDir();
		std::string z = d2 + "/" + r.pick( names );
		auto go = [&]( const std::string& k, std::vector<std::string> a ) {
			Op o;
			o.kind = k;
			o.a = a;
			for ( auto& p : a )
				if ( depth( p ) > maxDepth + 1 )
					return;
			if ( !m.possible( o ) )
				return;
			m.apply( o );
			c.ops.push_back( o );
		};
		switch ( r.below( 9 ) ) {
			case 0: // create, rename, create again
				go( "mkdir", { x } );
				go( "mv", { x, y } );
				go( "mkdir", { x } );
				go( "touch", { x + "/" + r.pick( names ) } );
				go( "touch", { y + "/" + r.pick( names ) } );
				break;
			case 1: // swap
				go( "mv", { x, d + "/tmp" } );
				go( "mv", { y, x } );
				go( "mv", { d + "/tmp", y } );
				break;
			case 2: // save by rename
				go( "write", { d + "/t.tmp", "new" } );
				go( "mv", { d + "/t.tmp", x } );
				break;
			case 3: // chain of renames
				go( "mv", { x, y } );
				go( "mv", { y, z } );
				go( "mv", { z, x } );
				break;
			case 4: // deep creation
				go( "mkdir", { x } );
				go( "mkdir", { x + "/" + names[0] } );
				go( "touch", { x + "/" + names[0] + "/" + names[1] } );
				go( "mkdir", { x + "/" + names[2] } );
				break;
			case 5: // out and in again
				go( "mv", { x, "o/" + r.pick( names ) } );
				go( "mv", { "o/" + r.pick( names ), y } );
				break;
			case 6: // delete and create again
				go( "rmrf", { x } );
				go( "mkdir", { x } );
				go( "touch", { x + "/" + r.pick( names ) } );
				break;
			case 7: // move a tree into another directory, work inside
				go( "mkdir", { x } );
				go( "mkdir", { x + "/" + names[0] } );
				go( "mv", { x, z } );
				go( "touch", { z + "/" + names[0] + "/" + names[1] } );
				go( "rm", { z + "/" + names[0] + "/" + names[1] } );
				break;
			default: // replace a directory
				go( "mkdir", { x } );
				go( "mkdir", { y } );
				go( "mv", { x, y } );
				go( "touch", { y + "/" + r.pick( names ) } );
				break;
		}
	}
	void burst( int n ) {
		for ( int i = 0; i < n; i++ )
			if ( r.chance( 1, 5 ) )
				scenario();
			else
				emitOp();
	}
	void injection() {
		Op o;
		for ( int i = 0; i < 10; i++ )
			if ( randOp( o ) ) {
				Op in;
				in.kind = r.chance( 1, 2 ) ? "at" : "cb";
				in.a = { std::to_string( in.kind == "at" ? r.range( 1, 60 ) : r.range( 1, 6 ) ), o.kind };
				in.a.insert( in.a.end(), o.a.begin(), o.a.end() );
				c.ops.push_back( in );
				m.apply( o ); // an approximation: from here on treat it as done
				return;
			}
	}
	void baseTree( int n ) {
		Weights keep = w;
		w = Weights();
		w.mkdir = 8;
		w.touch = 5;
		w.rm = w.rmrf = w.mv = w.append = w.trunc = 0;
		w.sym = keep.sym;
		w.ln = keep.ln;
		w.fifo = keep.fifo;
		for ( int i = 0; i < n; i++ )
			emitOp();
		w = keep;
	}
	// deeper, longer or wider than what is common
	void shape( const std::string& top ) {
		auto go = [&]( const std::string& k, const std::string& x ) {
			Op o;
			o.kind = k;
			o.a = { x };
			if ( !m.possible( o ) )
				return false;
			m.apply( o );
			c.ops.push_back( o );
			return true;
		};
		std::string d = top;
		switch ( r.below( 3 ) ) {
			case 0: // deep
				for ( int n = r.range( 6, r.chance( 1, 3 ) ? 60 : 25 ); n > 0; n-- ) {
					std::string x = d + "/" + "ab"[r.below( 2 )];
					if ( go( "mkdir", x ) || ( m.find( x ) && m.find( x )->dir ) )
						d = x;
				}
				break;
			case 1: { // long paths: no path can be longer than all the names together
				int total = r.range( 300, 2600 );
				for ( int i = 0; total > 0; i++ ) {
					int n = std::min( total, r.range( 100, 255 ) );
					std::string x = d + "/" + std::string( n, (char)( 'f' + i % 8 ) );
					if ( !go( "mkdir", x ) )
						break;
					d = x;
					total -= n;
				}
				break;
			}
			default: { // many entries
				if ( r.chance( 1, 2 ) ) {
					d += "/wide";
					go( "mkdir", d );
				}
				bool ds = r.chance( 1, 3 );
				for ( int n = r.range( 20, r.chance( 1, 4 ) ? 300 : 80 ), i = 0; i < n; i++ )
					go( ds || r.chance( 1, 8 ) ? "mkdir" : "touch", d + "/n" + std::to_string( i ) );
				return;
			}
		}
		go( "touch", d + "/" + r.pick( names ) );
		maxDepth = std::max( maxDepth, depth( d ) + 1 );
		hot.push_back( d + "/" + r.pick( names ) );
	}
};

} // namespace

static void roots( G& g, const std::string& s ) {
	g.c.hdr["roots"] = s;
	std::string t;
	for ( char ch : s + " " )
		if ( ch == ' ' ) {
			if ( !t.empty() ) {
				Op o;
				o.kind = "mkdir";
				o.a = { t };
				g.m.apply( o );
			}
			t.clear();
		} else
			t += ch;
}

static Case genNative( G& g, const std::string& p, uint64_t idx ) {
	Rng& r = g.r;
	g.c.hdr["backend"] = "native";
	int np = r.below( 10 );
	g.nameProfile = p == "C24" ? ( np < 8 ? 2 : 1 ) : np < 6 ? 0 : np < 9 ? 1 : 2;
	g.initNames();
	bool multi = p == "C14" || r.chance( 1, 6 );
	bool syn = p == "C06" || ( p == "C02" && r.chance( 1, 4 ) ) || r.chance( 1, 10 );
	if ( p == "C03" || p == "C05" )
		syn = false;
	roots( g, multi ? "w v o" : "w o" );
	if ( p == "C05" ) {
		g.w.write = g.w.append = 6;
		g.w.trunc = 4;
	}
	if ( p == "C04" || p == "C06" ) {
		g.w.mkdir = 9;
		g.w.mv = 9;
		g.w.write = g.w.append = g.w.trunc = 1;
	}
	if ( r.chance( 1, 4 ) ) {
		g.w.sym = 1;
		g.w.ln = 1;
		g.w.fifo = 1;
		g.w.chmod = 1;
		g.w.chown = 1;
		g.w.grow = 1;
	}
	// small cases first, larger later
	int scale = 1 + (int)( idx % 4 );
	bool inject = ( p == "C01" || p == "C02" || p == "C04" || p == "C06" ) && r.chance( 1, 4 );
	g.baseTree( r.below( 4 * scale ) );
	bool shaped = g.nameProfile != 2 && r.chance( 1, 16 ), shapedLater = shaped && r.chance( 1, 3 );
	if ( shaped && !shapedLater )
		g.shape( "w" );
	bool flat = p != "C06" && r.chance( 1, p == "C04" ? 6 : 4 );
	std::string synS = syn ? "syn" : "";
	auto add = [&]( const std::string& slot, const std::string& d, bool f ) {
		std::vector<std::string> a = { slot, d, f ? "flat" : "rec" };
		if ( syn )
			a.push_back( "syn" );
		g.op( "add", a );
	};
	bool goFirst = r.chance( 1, 4 );
	if ( goFirst )
		g.op( "go" );
	add( "0", "w", flat );
	if ( multi )
		add( "1", "v", r.chance( 1, 3 ) );
	bool goLate = !goFirst && r.chance( 1, 4 );
	if ( !goFirst && !goLate )
		g.op( "go" );
	int epochs = r.range( 1, 3 );
	for ( int e = 0; e < epochs; e++ ) {
		if ( inject && r.chance( 2, 3 ) && ( !goLate || e > 0 ) ) {
			int k = r.range( 1, 2 );
			for ( int i = 0; i < k; i++ )
				g.injection();
		}
		if ( shapedLater && e == 0 )
			g.shape( r.chance( 2, 3 ) ? "w" : "o" );
		int parts = r.range( 1, 3 );
		for ( int k = 0; k < parts; k++ ) {
			g.burst( r.range( 1, 2 + 2 * scale ) );
			switch ( r.below( 8 ) ) {
				case 0: g.op( "pump", { std::to_string( r.range( 1, 3 ) ) } ); break;
				case 1: g.op( "pump", { std::to_string( r.range( 1, 12 ) ) } ); break;
				case 2: g.op( "pump", { "1000" } ); break;
				case 3: g.op( "readcap", { std::to_string( r.below( 4 ) ) } ); break;
				case 4: g.op( "idle" ); break;
				default: break;
			}
		}
		if ( goLate && e == 0 )
			g.op( "go" );
		g.op( "settle" );
		g.m.settle();
		if ( p == "C14" && r.chance( 1, 2 ) ) {
			static const std::vector<std::string> rk = { "rem", "remp", "remp/" };
			std::string slot = std::to_string( r.below( 2 ) );
			g.op( r.pick( rk ), { slot } );
			if ( r.chance( 1, 2 ) )
				g.burst( r.range( 1, 4 ) );
			if ( r.chance( 2, 3 ) )
				add( r.chance( 1, 2 ) ? slot : std::to_string( 2 + e ), slot == "0" ? "w" : "v", r.chance( 1, 3 ) );
		}
		if ( p == "C02" && r.chance( 1, 2 ) )
			g.op( "silent", { std::to_string( r.range( 1, 4 ) ) } );
	}
	bool probe = p == "C04" || p == "C14" || r.chance( 1, 3 );
	if ( probe )
		g.c.hdr["probe"] = "1";
	return g.c;
}

// The queue is limited while bursts go on, and unlimited again before the final probe.
static Case genOverflow( G& g, uint64_t idx ) {
	Rng& r = g.r;
	g.c.hdr["backend"] = "native";
	g.nameProfile = 0;
	g.initNames();
	bool multi = r.chance( 1, 3 );
	roots( g, multi ? "w v o" : "w o" );
	g.w.mkdir = 7;
	g.w.mv = 7;
	int scale = 1 + (int)( idx % 4 );
	g.baseTree( r.below( 4 * scale ) );
	if ( r.chance( 1, 16 ) )
		g.shape( "w" );
	auto add = [&]( const std::string& slot, const std::string& d, bool f, bool syn ) {
		std::vector<std::string> a = { slot, d, f ? "flat" : "rec" };
		if ( syn )
			a.push_back( "syn" );
		g.op( "add", a );
	};
	add( "0", "w", r.chance( 1, 4 ), r.chance( 1, 8 ) );
	if ( multi )
		add( "1", "v", r.chance( 1, 3 ), false );
	g.op( "go" );
	int epochs = r.range( 1, 3 );
	bool real = idx % 50 == 49;
	for ( int e = 0; e < epochs; e++ ) {
		bool lim = r.chance( 3, 4 );
		if ( real && e == 0 ) {
			auto d = g.dirs();
			g.burst( r.range( 0, 3 ) );
			g.op( "flood", { r.pick( d ), "6000" } );
			lim = false;
		} else if ( lim )
			g.op( "qlimit", { std::to_string( r.range( 1, 8 ) ) } );
		int parts = r.range( 1, 2 );
		for ( int k = 0; k < parts; k++ ) {
			g.burst( r.range( 1, 3 + 2 * scale ) );
			if ( r.chance( 1, 4 ) )
				g.op( "pump", { std::to_string( r.range( 1, 4 ) ) } );
		}
		g.op( "settle" );
		g.m.settle();
		if ( lim )
			g.op( "qlimit", { "0" } );
		if ( r.chance( 1, 2 ) ) {
			g.burst( r.range( 1, 4 ) );
			g.op( "settle" );
			g.m.settle();
		}
	}
	g.op( "qlimit", { "0" } );
	g.c.hdr["probe"] = "1";
	return g.c;
}

static Case genPoll( G& g, const std::string& p, uint64_t idx ) {
	Rng& r = g.r;
	g.c.hdr["backend"] = "poll";
	int np = r.below( 10 );
	g.nameProfile = p == "C24" ? 2 : np < 6 ? 0 : np < 9 ? 1 : 2;
	g.initNames();
	bool multi = p == "C14" || r.chance( 1, 6 );
	roots( g, multi ? "w v o" : "w o" );
	g.w.chmod = 2;
	g.w.utime = 2;
	g.w.chown = g.w.grow = 1;
	if ( p == "C10" ) {
		g.w.chmod = g.w.utime = 5;
		g.w.chown = 4;
		g.w.grow = 3;
		g.w.write = g.w.append = 6;
		g.w.trunc = 3;
		g.w.mkdir = 4;
		g.w.mv = 3;
	}
	if ( r.chance( 1, 3 ) || p == "C09" ) {
		g.w.sym = 1;
		g.w.ln = 2;
		g.w.fifo = 1;
	}
	if ( r.chance( 1, 3 ) )
		g.c.hdr["inoreuse"] = "1";
	int scale = 1 + (int)( idx % 4 );
	g.baseTree( r.below( 4 * scale + 2 ) );
	bool shaped = g.nameProfile != 2 && r.chance( 1, 16 ), shapedLater = shaped && r.chance( 1, 3 );
	if ( shaped && !shapedLater )
		g.shape( "w" );
	auto add = [&]( const std::string& slot, const std::string& d, bool f ) {
		g.op( "add", { slot, d, f ? "flat" : "rec" } );
	};
	bool goFirst = r.chance( 1, 4 );
	if ( goFirst )
		g.op( "go" );
	add( "0", "w", r.chance( 1, 4 ) );
	if ( multi )
		add( "1", "v", r.chance( 1, 3 ) );
	if ( !goFirst ) {
		if ( r.chance( 1, 3 ) )
			g.burst( r.range( 1, 5 ) );
		g.op( "go" );
	}
	int epochs = r.range( 1, 5 );
	bool inject = ( p == "C08" || p == "C11" ) && r.chance( 1, 3 );
	for ( int e = 0; e < epochs; e++ ) {
		if ( shapedLater && e == 0 )
			g.shape( r.chance( 2, 3 ) ? "w" : "o" );
		g.burst( r.range( 1, 2 + 2 * scale ) );
		if ( inject && r.chance( 2, 3 ) ) {
			int n = r.range( 1, 3 );
			for ( int i = 0; i < n; i++ )
				g.injection();
		}
		g.op( "settle" );
		if ( p == "C09" && r.chance( 1, 3 ) )
			g.op( "silent", { std::to_string( r.range( 1, 3 ) ) } );
		if ( p == "C14" && r.chance( 1, 2 ) ) {
			static const std::vector<std::string> rk = { "rem", "remp", "remp/" };
			std::string slot = std::to_string( r.below( 2 ) );
			g.op( r.pick( rk ), { slot } );
			if ( r.chance( 1, 2 ) )
				g.burst( r.range( 1, 4 ) );
			if ( r.chance( 2, 3 ) )
				add( r.chance( 1, 2 ) ? slot : std::to_string( 2 + e ), slot == "0" ? "w" : "v", r.chance( 1, 3 ) );
		}
	}
	if ( p == "C11" || p == "C14" || r.chance( 1, 3 ) )
		g.c.hdr["probe"] = "1";
	return g.c;
}

Case generate( const std::string& prop, uint64_t seed, uint64_t idx ) {
	Rng mix( seed * 0x9e3779b97f4a7c15ull + idx * 0xd1342543de82ef95ull );
	uint64_t h = mix.next();
	for ( char ch : prop )
		h = h * 1099511628211ull + (unsigned char)ch;
	G g( h );
	static const std::set<std::string> nat = { "C01", "C02", "C03", "C04", "C05", "C06" };
	static const std::set<std::string> pol = { "C08", "C09", "C10", "C11" };
	if ( prop == "C07" )
		return genOverflow( g, idx );
	if ( nat.count( prop ) )
		return genNative( g, prop, idx );
	if ( pol.count( prop ) )
		return genPoll( g, prop, idx );
	if ( prop == "C14" || prop == "C24" )
		return idx % 3 == 2 ? genPoll( g, prop, idx ) : genNative( g, prop, idx );
	return g.c;
}

static long st( const Runner& r, const char* k ) {
	auto it = r.stats.find( k );
	return it == r.stats.end() ? 0 : it->second;
}
bool nontrivial( const std::string& prop, const Runner& r ) {
	if ( st( r, "events" ) < 2 || st( r, "fs_ops" ) < 4 )
		return false;
	if ( prop == "C04" || prop == "C11" )
		return st( r, "probes" ) && st( r, "probe_dirs" ) >= 3;
	if ( prop == "C03" )
		return st( r, "labels_checked" ) > 0;
	if ( prop == "C05" )
		return st( r, "mod_names" ) > 0;
	if ( prop == "C07" )
		return st( r, "overflows" ) > 0;
	if ( prop == "C10" )
		return st( r, "attr_compared" ) > 0;
	return true;
}
std::string nontrivialRule( const std::string& prop ) {
	std::string s = "the case executed at least 4 file system operations and at least 2 events were delivered and judged";
	if ( prop == "C04" || prop == "C11" )
		s += ", and at the end at least 3 directories were probed with a new file";
	if ( prop == "C03" )
		s += ", and the exact event order of at least one directory was compared";
	if ( prop == "C05" )
		s += ", and the write history of at least one name was compared";
	if ( prop == "C07" )
		s += ", and at least one queue overflow was handed to the library";
	if ( prop == "C10" )
		s += ", and at least one file was compared with its previous attributes";
	return s;
}
