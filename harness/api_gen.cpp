// Generators of apx cases, one per property.
#include "api.hpp"
#include <cerrno>

static std::string num( long n ) { return std::to_string( n ); }

struct Gen {
	Rng r;
	ApiCase c;
	std::vector<std::string> dirs; // all directories made, relative
	std::vector<std::string> links, files;
	int fileNo = 0;
	Gen( uint64_t s ) : r( s ) {}

	void op( const std::string& k, std::vector<std::string> a = {} ) {
		Op o;
		o.kind = k;
		o.a = a;
		c.ops.push_back( o );
	}
	void mkdir( const std::string& d ) {
		op( "mkdir", { d } );
		dirs.push_back( d );
	}
	std::string name() {
		static const std::vector<std::string> n = { "a", "b", "c", "dir", "x y", "z.d" };
		return r.pick( n );
	}
	// a tree below the directory d
	void tree( const std::string& d, int n ) {
		std::vector<std::string> here = { d };
		mkdir( d );
		for ( int i = 0; i < n; i++ ) {
			std::string p = r.pick( here ) + "/" + name();
			bool dup = false;
			for ( auto& x : dirs )
				dup |= x == p;
			if ( dup )
				continue;
			mkdir( p );
			here.push_back( p );
		}
	}
	void file() {
		if ( dirs.empty() )
			return;
		std::string f = r.pick( dirs ) + "/f" + num( fileNo++ );
		op( "touch", { f } );
		files.push_back( f );
	}
	std::string target( const std::string& from ) { // for a link in the directory from
		switch ( r.weighted( { 5, 2, 2, 1, 1, 1, links.empty() ? 0 : 2, 1 } ) ) {
			case 6: // a link to a link
				return "@/" + r.pick( links );
			case 7:
				return "l" + num( r.below( 4 ) );
			case 0:
				return "@/" + r.pick( dirs );
			case 1: { // relative: up and down again
				std::string t;
				for ( char ch : from )
					t += ch == '/' ? "../" : "";
				return "../" + t + r.pick( dirs );
			}
			case 2:
				return name();
			case 3:
				return ".";
			case 4:
				return from.find( '/' ) == std::string::npos ? "../" + r.pick( dirs ) : "..";
			default:
				return "missing";
		}
	}
	void link( const std::string& where ) {
		std::string d = where.empty() ? r.pick( dirs ) : where;
		std::string l = d + "/l" + num( r.below( 4 ) );
		if ( d == "." )
			l = "l" + num( r.below( 4 ) );
		op( "sym", { d == "." ? "@/" + r.pick( dirs ) : target( d ), l } );
		links.push_back( l );
	}
	std::string spelled( const std::string& rel ) {
		std::string s;
		switch ( r.weighted( { 8, 3, 1, 1, 1 } ) ) {
			case 0:
				s = "@/" + rel;
				break;
			case 1:
				s = rel;
				break;
			case 2:
				s = "./" + rel;
				break;
			case 3:
				s = "@//" + rel;
				break;
			default:
				s = "@/" + r.pick( dirs ) + "/../" + rel;
				if ( s.find( '/', 2 ) != std::string::npos && s.rfind( "/../" ) != s.find( "/", 2 ) )
					s = "@/" + rel; // only one level up
				break;
		}
		static const char* tail[] = { "", "", "/", "//", "///" };
		return s + tail[r.below( 5 )];
	}
	std::string flags() {
		std::string f = r.chance( 1, 2 ) ? "r" : "-";
		if ( f == "r" && r.chance( 1, 4 ) )
			f += r.chance( 1, 4 ) ? "S" : "s";
		// and options that mean nothing here, before and after it
		if ( r.chance( 1, 6 ) ) {
			f.insert( r.chance( 1, 2 ) ? 1 : f.size(), 1, "bmn"[r.below( 3 )] );
			if ( r.chance( 1, 3 ) )
				f.insert( r.chance( 1, 2 ) ? 1 : f.size(), 1, "bmn"[r.below( 3 )] );
		} else if ( f == "r" && r.chance( 1, 8 ) )
			f += "z";
		return f;
	}
	std::string hflags() {
		static const char* f[] = { "-", "-", "f", "fo", "o", "fo2" };
		return f[r.below( 6 )];
	}
	// a call that should fail most of the time
	void badAdd( int h ) {
		std::string p;
		switch ( r.below( 8 ) ) {
			case 0:
				p = "@/missing" + num( r.below( 9 ) ) + ( r.chance( 1, 3 ) ? "x" : "" );
				break;
			case 1:
				p = files.empty() ? "" : "@/" + r.pick( files );
				break;
			case 2:
				p = links.empty() ? "@/nolink/" : spelled( r.pick( links ) );
				break;
			case 3:
				p = "";
				break;
			case 4:
				p = "@/" + r.pick( dirs ) + "/nothing//";
				break;
			case 5:
				p = files.empty() ? "x" : r.pick( files ) + "/";
				break;
			default:
				p = spelled( r.pick( dirs ) ); // often a repetition
		}
		op( "add", { num( h ), num( r.below( 12 ) ), p, flags() } );
	}
	void goodAdd( int h ) { op( "add", { num( h ), num( r.below( 12 ) ), spelled( r.pick( dirs ) ), flags() } ); }
	void topAdd( int h, int tops ) { op( "add", { num( h ), num( r.below( 12 ) ), spelled( "t" + num( r.below( tops ) ) ), flags() } ); }
	void remove( int h ) {
		switch ( r.weighted( { 4, 4, 1, 1, 1 } ) ) {
			case 0:
				op( "remid", { num( h ), num( r.below( 6 ) ) } );
				break;
			case 1:
				op( "remp", { num( h ), num( r.below( 6 ) ), num( r.below( 4 ) ) } );
				break;
			case 2: {
				static const char* ids[] = { "0", "-1", "-2", "99999", "-7", "7", "3", "2147483648" };
				op( "rembad", { num( h ), ids[r.below( 8 )] } );
				break;
			}
			case 3:
				op( "rembadp", { num( h ), spelled( r.pick( dirs ) ) } );
				break;
			default:
				op( "rembadp", { num( h ), r.chance( 1, 3 ) ? "" : "@/missing" } );
		}
	}
	// the last operation becomes a call inside the next callback
	void inCallback() {
		Op& o = c.ops.back();
		o.a.insert( o.a.begin(), o.kind );
		o.kind = "cb";
	}
	void mark( const std::string& d ) { op( "mark", { "@/" + d + "/mk" + num( fileNo++ ) } ); }
	void fsop() {
		switch ( r.weighted( { 4, 3, 3, 2, 1, 2 } ) ) {
			case 0:
				file();
				break;
			case 1: {
				std::string p = r.pick( dirs ) + "/n" + num( r.below( 5 ) );
				mkdir( p );
				break;
			}
			case 2: {
				size_t k = 1 + r.below( (int)dirs.size() - 1 );
				if ( k >= dirs.size() || dirs[k].find( '/' ) == std::string::npos )
					break;
				std::string to = r.pick( dirs ) + "/m" + num( r.below( 4 ) );
				op( "mv", { dirs[k], to } );
				break;
			}
			case 3: {
				size_t k = 1 + r.below( (int)dirs.size() - 1 );
				if ( k >= dirs.size() || dirs[k].find( '/' ) == std::string::npos )
					break;
				op( "rmrf", { dirs[k] } );
				break;
			}
			case 4:
				if ( !files.empty() )
					op( "rm", { r.pick( files ) } );
				break;
			default:
				if ( !files.empty() )
					op( "append", { r.pick( files ) } );
		}
	}
};

static const int ERRS[] = { ENOMEM, EACCES, EIO, EMFILE, ENOSPC, ENOENT, ELOOP, EINTR, ENFILE, EPERM };

ApiCase apiGenerate( const std::string& prop, uint64_t seed, uint64_t idx ) {
	Rng pre( seed * 1000003 + idx );
	if ( prop == "C31" ) { // the histories of the others, among all kinds of files
		static const std::vector<std::string> from = { "C12", "C13", "C15", "C16", "C19", "C20", "C22", "C25", "C27", "C28" };
		pre.next();
		ApiCase c = apiGenerate( pre.pick( from ), seed ^ 0x31, idx ), d;
		d.hdr = c.hdr;
		std::vector<std::string> dirs;
		int no = 0;
		for ( auto& o : c.ops ) {
			if ( o.kind == "mkdir" && o.a.size() )
				dirs.push_back( o.a[0] );
			else if ( !dirs.empty() && pre.chance( 1, 4 ) ) {
				std::string p = pre.pick( dirs ) + "/" + "z" + num( no++ );
				switch ( pre.below( 6 ) ) {
					case 0:
						d.ops.push_back( Op{ "mkfifo", { p } } );
						break;
					case 1:
						d.ops.push_back( Op{ "mkfifo", { p, "sock" } } );
						break;
					case 2:
						d.ops.push_back( Op{ "sym", { "z" + num( pre.below( no ) ), p } } );
						break;
					case 3:
						d.ops.push_back( Op{ "write", { p } } );
						d.ops.push_back( Op{ "chmod", { p, pre.chance( 1, 2 ) ? "0" : "200" } } );
						break;
					default:
						d.ops.push_back( Op{ "write", { p } } );
				}
			}
			d.ops.push_back( o );
			if ( o.kind == "add" && pre.chance( 1, 3 ) )
				d.ops.push_back( Op{ "settle", {} } );
		}
		return d;
	}
	for ( char ch : prop )
		pre.s = pre.next() ^ (unsigned char)ch;
	Gen g( pre.next() );
	Rng& r = g.r;
	bool poll = r.chance( 1, 2 );
	std::string be = poll ? "poll" : "native";
	int tops = r.range( 2, 4 );

	auto trees = [&]( int maxSub ) {
		for ( int i = 0; i < tops; i++ )
			g.tree( "t" + num( i ), r.range( 0, maxSub ) );
	};
	if ( prop == "C12" || prop == "C13" || prop == "C25" ) {
		trees( 4 );
		bool uid = r.chance( 1, 4 );
		if ( uid ) {
			g.c.hdr["uid"] = "65534";
			for ( int i = r.range( 1, 3 ); i > 0; i-- )
				g.op( "chmod", { r.pick( g.dirs ), r.chance( 1, 2 ) ? "711" : "700" } );
		}
		for ( int i = r.range( 0, 3 ); i > 0; i-- )
			g.file();
		for ( int i = r.range( 0, 4 ); i > 0; i-- )
			g.link( r.chance( 1, 3 ) ? "." : "" );
		bool cc = r.chance( 1, 3 );
		g.op( "new", { "0", be, cc ? "c" : "cpp", "1000", g.hflags() } );
		if ( prop == "C25" && r.chance( 1, 3 ) )
			g.op( "new", { "1", r.chance( 1, 2 ) ? "poll" : "native", "cpp", "1000", "-" } );
		bool early = r.chance( 1, 2 );
		if ( early )
			g.op( "watch", { "0" } );
		int n = r.range( 3, prop == "C13" ? 24 : 14 );
		for ( int i = 0; i < n; i++ ) {
			if ( prop == "C25" && r.chance( 1, 10 ) ) {
				static const char* texts[] = { "", "x", "/a b/c", "100%s", "File" };
				g.op( "errlog", { num( -(long)r.range( 1, 7 ) ), texts[r.below( 5 )] } );
			}
			int h = prop == "C25" && r.chance( 1, 4 ) ? 1 : 0;
			int w = r.weighted( { 4, prop == "C13" ? 3 : 5, 3, 2, prop == "C13" ? 5 : 2, 1, 1, prop == "C25" ? 3 : 0, 1, prop == "C25" ? 2 : 1 } );
			switch ( w ) {
				case 0:
					g.goodAdd( h );
					break;
				case 1:
					g.badAdd( h );
					break;
				case 2:
					g.topAdd( h, tops );
					break;
				case 3:
					g.fsop();
					break;
				case 4:
					g.remove( h );
					break;
				case 5:
					g.op( "settle" );
					break;
				case 6:
					if ( !g.links.empty() )
						g.op( "add", { num( h ), num( r.below( 12 ) ), g.spelled( r.pick( g.links ) ), g.flags() } );
					break;
				case 7:
					g.op( "clear", { num( r.below( 2 ) ) } );
					break;
				case 8:
					if ( r.chance( 1, 8 ) )
						g.op( "add", { num( h ), num( r.below( 12 ) ), r.chance( 1, 2 ) ? "/" : r.chance( 1, 2 ) ? "//" : ".", "-" } );
					else
						g.op( "probe" );
					break;
				default: {
					std::string t = r.pick( g.dirs );
					static const char* calls[] = { "inotify_add_watch", "inotify_add_watch", "lstat", "stat", "access", "opendir", "realpath" };
					const char* call = poll ? calls[2 + r.below( 5 )] : calls[r.below( 7 )];
					g.op( "fault", { call, "1", num( ERRS[r.below( 7 )] ), "@/" + t } );
					g.op( "add", { num( h ), num( r.below( 12 ) ), "@/" + t, g.flags() } );
					g.op( "unfault" );
				}
			}
		}
		if ( !early )
			g.op( "watch", { "0" } );
		g.op( "probe" );
		if ( prop == "C12" && r.chance( 1, 3 ) ) {
			g.remove( 0 );
			g.goodAdd( 0 );
			g.op( "probe" );
		}
	} else if ( prop == "C15" ) {
		trees( 3 );
		g.tree( "out", r.range( 0, 3 ) );
		for ( int i = r.range( 1, 6 ); i > 0; i-- )
			g.link( r.chance( 1, 4 ) ? "." : "" );
		static const char* f[] = { "-", "f", "fo", "fo", "fo", "o" };
		g.op( "new", { "0", be, r.chance( 1, 4 ) ? "c" : "cpp", "1000", f[r.below( 6 )] } );
		bool early = r.chance( 1, 2 );
		if ( early )
			g.op( "watch", { "0" } );
		int adds = r.range( 1, 2 );
		for ( int i = 0; i < adds; i++ )
			if ( !g.links.empty() && r.chance( 1, 4 ) )
				g.op( "add", { "0", num( r.below( 12 ) ), g.spelled( r.pick( g.links ) ), r.chance( 3, 4 ) ? "r" : "-" } );
			else
				g.op( "add", { "0", num( r.below( 12 ) ), g.spelled( r.chance( 3, 4 ) ? "t" + num( i ) : r.pick( g.dirs ) ), r.chance( 5, 6 ) ? "r" : "-" } );
		if ( !early )
			g.op( "watch", { "0" } );
		if ( r.chance( 1, 2 ) )
			g.op( "probe" );
		int n = r.range( 0, 6 );
		for ( int i = 0; i < n; i++ ) {
			switch ( r.weighted( { 4, 2, 2, 1, 2, 1 } ) ) {
				case 0:
					g.link( "" );
					break;
				case 1:
					g.fsop();
					break;
				case 2:
					g.op( "settle" );
					break;
				case 3:
					if ( !g.links.empty() )
						g.op( "rm", { r.pick( g.links ) } );
					break;
				case 4:
					g.mkdir( r.pick( g.dirs ) + "/" + g.name() );
					break;
				default:
					if ( !g.links.empty() )
						g.op( "mv", { r.pick( g.links ), r.pick( g.dirs ) + "/lm" + num( r.below( 3 ) ) } );
			}
		}
		g.op( "probe" );
		if ( !poll )
			g.op( "kernel" );
		if ( r.chance( 1, 3 ) ) {
			g.op( "remid", { "0", "0" } );
			g.op( "probe" );
		}
	} else if ( prop == "C16" ) {
		static const long RT[] = { 0x5346414F, 0x61756673, 0x00C36400, 0xFF534D42, 0x73757245, 0x19830326, 0x65735543, 0x01161970,
								   0x47504653, 0x6B414653, 0x0BD00BD0, 0x564C,	   0x6969,	   0x6E667364, 0x7461636F, 0xAAD7AAEA,
								   0x50495045, 0x517B,	   0xFE534D42, 0xBEEFDEAD, 0xBACBACBC, 0xA501FCF5 };
		static const long LT[] = { 0xEF53,	   0x58465342, 0x9123683E, 0x01021994, 0x794c7630, 0x2FC12FC1, 0xF2F52010,
								   0x4d44,	   0x52654973, 0x3153464a, 0x00011954, 0x5346544e, 0xE0F5E1E2, 0x73717368 };
		tops = 3;
		trees( 4 );
		for ( int i = r.range( 1, 3 ); i > 0; i-- ) {
			std::string d = r.pick( g.dirs );
			switch ( r.below( 4 ) ) {
				case 0:
					g.op( "fstype", { "@/" + d, num( LT[r.below( sizeof LT / sizeof *LT )] ) } );
					break;
				case 1:
				case 2:
					g.op( "fstype", { "@/" + d, num( RT[r.below( sizeof RT / sizeof *RT )] ) } );
					break;
				default:
					g.op( "mount", { "@/" + d, num( r.below( 2 ) ) } );
					g.op( "fstype", { "@/" + d, num( 0x65735546 ) } );
			}
		}
		if ( r.chance( 1, 5 ) )
			g.op( "fault", { r.chance( 1, 2 ) ? "statfs" : r.chance( 1, 2 ) ? "setmntent" : "stat", num( r.range( 1, 3 ) ), num( ERRS[r.below( 7 )] ) } );
		g.op( "new", { "0", r.chance( 3, 5 ) ? "native" : "poll", r.chance( 1, 4 ) ? "c" : "cpp", "1000", "-" } );
		g.op( "watch", { "0" } );
		int n = r.range( 2, 6 );
		for ( int i = 0; i < n; i++ )
			g.op( "add", { "0", num( r.below( 12 ) ), r.chance( 1, 4 ) ? g.spelled( r.pick( g.dirs ) ) : "@/t" + num( r.below( 3 ) ) + ( r.chance( 1, 3 ) ? "/" : "" ), r.chance( 2, 3 ) ? "r" : "-" } );
		g.op( "probe" );
		if ( r.chance( 1, 2 ) ) {
			for ( int i = 0; i < 3; i++ )
				g.fsop();
			g.op( "probe" );
		}
		g.op( "kernel" );
	} else if ( prop == "C19" ) {
		trees( 5 );
		g.tree( "out", 2 );
		if ( r.chance( 1, 4 ) )
			g.c.hdr["uid"] = "65534", g.op( "chmod", { r.pick( g.dirs ), "700" } );
		for ( int i = r.range( 0, 2 ); i > 0; i-- )
			g.link( "" );
		poll = r.chance( 1, 4 );
		be = poll ? "poll" : "native";
		std::string fl = r.chance( 1, 4 ) ? "fo" : "-";
		g.op( "new", { "0", be, r.chance( 1, 3 ) ? "c" : "cpp", "1000", fl } );
		bool never = r.chance( 1, 6 ), early = r.chance( 1, 2 );
		if ( early && !never )
			g.op( "watch", { "0" } );
		int n = r.range( 2, 12 );
		for ( int i = 0; i < n; i++ ) {
			switch ( r.weighted( { 5, 2, 3, 5, 2, 1 } ) ) {
				case 0:
					g.op( "add", { "0", num( r.below( 12 ) ), g.spelled( "t" + num( r.below( tops ) ) ), r.chance( 3, 4 ) ? "r" : "-" } );
					break;
				case 1:
					g.badAdd( 0 );
					break;
				case 2:
					g.remove( 0 );
					break;
				case 3:
					g.fsop();
					break;
				case 4:
					if ( !never ) {
						g.op( "settle" );
						g.op( "kernel" );
					}
					break;
				default:
					g.op( "mv", { "t" + num( r.below( tops ) ) + "/" + g.name(), "out/o" + num( r.below( 5 ) ) } );
			}
			if ( i == n / 2 && !early && !never )
				g.op( "watch", { "0" } );
		}
		if ( !never ) {
			g.op( "settle" );
			g.op( "kernel" );
			if ( r.chance( 1, 3 ) ) {
				g.op( "remid", { "0", "0" } );
				g.op( "settle" );
				g.op( "kernel" );
			}
		}
		if ( r.chance( 1, 2 ) ) { // changes that nobody processes before the end
			for ( int i = r.range( 1, 4 ); i > 0; i-- )
				g.fsop();
		}
	} else if ( prop == "C20" ) {
		tops = 2;
		trees( 4 );
		bool linked = r.chance( 1, 3 );
		if ( linked )
			for ( int i = r.range( 1, 4 ); i > 0; i-- ) {
				std::string d = r.pick( g.dirs );
				g.link( d.compare( 0, 2, "t0" ) == 0 ? d : "t0" );
			}
		// which needs the table of mounts
		bool fuse = r.chance( 1, 6 );
		if ( fuse ) {
			std::string d = r.pick( g.dirs );
			if ( r.chance( 1, 2 ) )
				g.op( "mount", { "@/" + d, num( r.below( 2 ) ) } );
			g.op( "fstype", { "@/" + d, num( 0x65735546 ) } );
			if ( r.chance( 2, 3 ) )
				g.op( "fault", { "setmntent", num( r.range( 1, 3 ) ), num( r.pick( std::vector<int>{ EMFILE, ENFILE, ENOENT, EACCES, ENOMEM } ) ) } );
		}
		if ( r.chance( 1, 5 ) )
			g.op( "highfd", { num( r.pick( std::vector<int>{ 1024, 1025, 2000, 4000 } ) ) } );
		poll = r.chance( 2, 5 );
		be = poll ? "poll" : "native";
		bool fallback = r.chance( 1, 8 );
		if ( fallback )
			g.op( "fault", { "inotify_init", "1", num( r.pick( std::vector<int>{ EMFILE, ENOMEM, ENOSYS } ) ) } );
		g.op( "new", { "0", be, r.chance( 1, 4 ) ? "c" : "cpp", fallback && r.chance( 1, 2 ) ? "700" : "1000", linked ? r.pick( std::vector<std::string>{ "f", "fo", "-" } ) : "-" } );
		bool early = r.chance( 1, 2 );
		if ( early )
			g.op( "watch", { "0" } );
		g.op( "add", { "0", "1", "@/t1", "r" } );
		static const std::vector<std::string> pathCalls = { "inotify_add_watch", "inotify_add_watch", "stat", "lstat", "opendir", "readdir", "readdir", "access", "realpath", "statfs" };
		auto fault = [&]() {
			if ( r.chance( 1, 5 ) ) {
				static const std::vector<std::string> fc = { "read", "wait", "inotify_rm_watch" };
				std::string call = r.pick( fc );
				int e = call == "inotify_rm_watch" ? EINVAL : r.pick( std::vector<int>{ EINTR, EAGAIN, EINTR } );
				g.op( "fault", { call, num( r.range( 1, 3 ) ), num( e ) } );
			} else {
				std::string d = "t0";
				if ( r.chance( 2, 3 ) )
					for ( int k = 0; k < 8; k++ ) {
						std::string x = r.pick( g.dirs );
						if ( x.compare( 0, 2, "t0" ) == 0 ) {
							d = x;
							break;
						}
					}
				if ( linked && r.chance( 1, 2 ) )
					d = r.pick( g.links );
				g.op( "fault", { linked && r.chance( 1, 3 ) ? "realpath" : r.pick( pathCalls ), num( r.range( 1, 4 ) ), num( ERRS[r.below( 10 )] ), "@/" + d } );
			}
		};
		if ( r.chance( 1, 2 ) )
			fault();
		g.op( "add", { "0", "2", "@/t0", r.chance( 3, 4 ) ? ( r.chance( 1, 3 ) ? "rs" : "r" ) : "-" } );
		if ( !early )
			g.op( "watch", { "0" } );
		int n = r.range( 1, 6 );
		for ( int i = 0; i < n; i++ ) {
			if ( r.chance( 2, 3 ) )
				fault();
			for ( int k = r.range( 1, 4 ); k > 0; k-- )
				if ( r.chance( 1, 3 ) ) {
					std::string d = "t1";
					std::string x = r.pick( g.dirs );
					if ( x.compare( 0, 2, "t1" ) == 0 )
						d = x;
					g.op( "mark", { "@/" + d + "/mk" + num( g.fileNo++ ) } );
				} else
					g.fsop();
			if ( r.chance( 1, 6 ) )
				g.op( "add", { "0", "2", linked && r.chance( 1, 2 ) ? "@/" + r.pick( g.links ) : "@/t0", "r" } );
			if ( linked && r.chance( 1, 3 ) )
				g.link( "t0" );
			if ( r.chance( 1, 8 ) )
				g.op( "remp", { "0", "1", "0" } );
			g.op( "settle" );
		}
		g.op( "unfault" );
		g.op( "settle" );
		g.op( "probe" );
	} else if ( prop == "C21" || prop == "C30" ) {
		bool dbg = prop == "C30";
		std::string fl = g.hflags();
		if ( poll && r.chance( 1, 4 ) )
			fl += r.chance( 1, 2 ) ? "2" : "-";
		g.op( "mkdir", { "d0" } );
		g.op( "mkdir", { "d1" } );
		// the same operations in both trees
		auto both = [&]( const std::string& k, std::vector<std::string> a ) {
			for ( int t = 0; t < 2; t++ ) {
				std::vector<std::string> b = a;
				for ( auto& s : b ) {
					size_t p;
					while ( ( p = s.find( "<D>" ) ) != std::string::npos )
						s.replace( p, 3, "d" + num( t ) );
				}
				if ( k == "add" || k == "remid" || k == "remp" || k == "rembad" || k == "rembadp" )
					b[0] = num( t );
				g.op( k, b );
			}
		};
		std::vector<std::string> ds;
		for ( int i = 0; i < tops; i++ ) {
			ds.push_back( "<D>/t" + num( i ) );
			both( "mkdir", { ds.back() } );
		}
		for ( int i = r.range( 0, 4 ); i > 0; i-- ) {
			std::string d = r.pick( ds ) + "/" + g.name();
			both( "mkdir", { d } );
			ds.push_back( d );
		}
		for ( int i = r.range( 0, 2 ); i > 0; i-- )
			both( "sym", { r.chance( 1, 2 ) ? "@/" + r.pick( ds ) : "..", r.pick( ds ) + "/l" + num( r.below( 3 ) ) } );
		std::string fallback = !poll && r.chance( 1, 8 ) ? num( r.pick( std::vector<int>{ EMFILE, ENOMEM, ENOSYS } ) ) : "";
		if ( !fallback.empty() )
			g.op( "fault", { "inotify_init", "1", fallback } );
		g.op( "new", { "0", be, dbg ? "c" : "cpp", poll && r.chance( 1, 2 ) ? "0" : "1000", fl } );
		if ( !fallback.empty() )
			g.op( "fault", { "inotify_init", "1", fallback } );
		g.op( "new", { "1", be, dbg ? "cdbg" : "c", "1000", fl } );
		g.op( "watch", { "0" } );
		g.op( "watch", { "1" } );
		int n = r.range( 4, dbg ? 24 : 16 ), fno = 0;
		std::vector<std::string> fs;
		for ( int i = 0; i < n; i++ )
			switch ( r.weighted( { 4, dbg ? 3 : 1, 2, 3, 2, 2, 1, 2, 2, dbg ? 2 : 1, 1, dbg ? 2 : 0, dbg ? 1 : 0, dbg ? 1 : 0, 1, 1 } ) ) {
				case 11:
					if ( ds.size() > 2 )
						both( "rmrf", { ds[1 + r.below( (int)ds.size() - 1 )] } );
					break;
				case 12:
					both( "sym", { r.chance( 1, 2 ) ? "@/" + r.pick( ds ) : "..", r.pick( ds ) + "/l" + num( r.below( 3 ) ) } );
					break;
				case 13:
					both( "add", { "0", num( r.below( 18 ) ), r.chance( 1, 2 ) ? "" : "@/" + r.pick( ds ) + "/f0", g.flags() } );
					break;
				case 14: {
					static const char* calls[] = { "inotify_add_watch", "inotify_add_watch", "lstat", "stat", "access", "opendir", "realpath", "readdir" };
					std::string call = poll ? calls[2 + r.below( 6 )] : calls[r.below( 8 )], d = r.pick( ds ), e = num( ERRS[r.below( 7 )] );
					both( "fault", { call, "1", e, "@/" + d } );
					both( "add", { "0", num( r.below( 18 ) ), "@/" + d, g.flags() } );
					g.op( "unfault" );
					break;
				}
				case 15: { // texts that are not formats, and long ones
					std::string x = "none";
					for ( int k = r.chance( 1, 3 ) ? r.range( 100, 1000 ) : r.range( 0, 4 ); k > 0; k-- )
						x += r.pick( std::vector<std::string>{ "%s", "%n", "%d%s", "%5000d", "/x", "\xc3\xa9", "\xff", "%%" } );
					both( "add", { "0", num( r.below( 18 ) ), "@/<D>/" + x, g.flags() } );
					break;
				}
				case 0:
					both( "add", { "0", num( r.below( 18 ) ), "@/" + ( i < 3 ? "<D>/t" + num( r.below( tops ) ) : r.pick( ds ) ) + ( r.chance( 1, 4 ) ? "/" : "" ), g.flags() } );
					break;
				case 1:
					both( "add", { "0", num( r.below( 18 ) ), r.chance( 1, 2 ) ? "@/<D>/none" : "@/" + r.pick( ds ) + "/l" + num( r.below( 3 ) ), g.flags() } );
					break;
				case 2:
					both( "remid", { "0", num( r.below( 4 ) ) } );
					break;
				case 3:
					fs.push_back( r.pick( ds ) + "/f" + num( fno++ ) );
					both( "write", { fs.back() } );
					break;
				case 4:
					if ( !fs.empty() )
						both( "mv", { r.pick( fs ), r.pick( ds ) + "/f" + num( r.below( 9 ) ) } );
					break;
				case 5:
					if ( !fs.empty() )
						both( "append", { r.pick( fs ) } );
					break;
				case 6:
					if ( !fs.empty() )
						both( "rm", { r.pick( fs ) } );
					break;
				case 7: {
					std::string d = r.pick( ds ) + "/" + ( dbg && r.chance( 1, 4 ) ? "%s%n" : "" ) + g.name();
					both( "mkdir", { d } );
					ds.push_back( d );
					break;
				}
				case 8:
					g.op( "differ" );
					break;
				case 9:
					if ( ds.size() > 2 )
						both( "mv", { ds[1 + r.below( (int)ds.size() - 1 )], r.pick( ds ) + "/mv" + num( r.below( 3 ) ) } );
					break;
				default:
					both( "remp", { "0", num( r.below( 4 ) ), num( r.below( 3 ) ) } );
			}
		g.op( "differ" );
		for ( int i = 0; i < 3; i++ )
			both( "write", { r.pick( ds ) + "/last" + num( i ) } );
		g.op( "differ" );
		if ( !poll && r.chance( 1, 3 ) ) {
			g.op( "overflow", { "0" } );
			g.op( "overflow", { "1" } );
			g.op( "probe" );
		}
	} else if ( prop == "C22" ) {
		tops = r.range( 3, 5 );
		trees( 2 );
		int H = r.range( 1, 4 );
		for ( int h = 0; h < H; h++ ) {
			g.op( "new", { num( h ), r.chance( 1, 2 ) ? "poll" : "native", r.chance( 5, 6 ) ? "c" : "cpp", "1000", r.chance( 1, 5 ) ? "fo" : "-" } );
			if ( r.chance( 3, 4 ) )
				g.op( "watch", { num( h ) } );
		}
		int n = r.range( 4, 18 );
		for ( int i = 0; i < n; i++ ) {
			int h = r.below( H );
			switch ( r.weighted( { 8, 2, 3, 2, 2, 2, 1, 2, 2, 2 } ) ) {
				case 0:
					g.op( "add", { num( h ), num( r.below( 18 ) ), "@/t" + num( r.below( tops ) ), g.flags() } );
					break;
				case 1:
					g.badAdd( h );
					break;
				case 2:
					g.remove( h );
					break;
				case 3:
					g.op( "probe" );
					break;
				case 4:
					g.op( "overflow", { num( h ) } );
					break;
				case 5:
					g.op( "rel", { num( h ) } );
					if ( r.chance( 2, 3 ) )
						g.op( "new", { num( h ), r.chance( 1, 2 ) ? "poll" : "native", "c", "1000", "-" } );
					break;
				case 6:
					g.op( "cbrel", { num( h ) } );
					g.fsop();
					g.fsop();
					g.op( "settle" );
					break;
				case 7:
					g.op( "watch", { num( h ) } );
					g.op( "cbself", { num( h ) } );
					g.op( "mark", { "@/t" + num( r.below( tops ) ) + "/mk" + num( g.fileNo++ ) } );
					g.op( "mark", { "@/t" + num( r.below( tops ) ) + "/mk" + num( g.fileNo++ ) } );
					g.op( "settle" );
					break;
				case 8:
					g.op( "watch", { num( h ) } );
					break;
				default:
					g.fsop();
			}
		}
		for ( int h = 0; h < H; h++ )
			g.op( "watch", { num( h ) } );
		g.op( "probe" );
	} else if ( prop == "C27" ) {
		tops = r.range( 2, 4 );
		trees( 3 );
		g.op( "settle" );
		int H = r.range( 1, 2 );
		std::vector<bool> started( H, false );
		for ( int h = 0; h < H; h++ )
			g.op( "new", { num( h ), r.chance( 1, 2 ) ? "poll" : "native", r.chance( 1, 3 ) ? "c" : "cpp", "1000", r.chance( 1, 6 ) ? "fo" : "-" } );
		int n = r.range( 5, 20 );
		auto change = [&]( int k ) {
			for ( ; k > 0; k-- )
				if ( r.chance( 1, 2 ) )
					g.mark( r.pick( g.dirs ) );
				else
					g.fsop();
		};
		for ( int i = 0; i < n; i++ ) {
			int h = r.below( H );
			switch ( r.weighted( { i < 3 ? 12 : 4, 3, 6, 4, 1, 1, 2 } ) ) {
				case 0:
					g.topAdd( h, tops );
					if ( r.chance( 1, 3 ) && g.c.ops.back().a[3] == "r" )
						g.c.ops.back().a[3] = "rs";
					break;
				case 1:
					if ( i > 1 )
						g.op( "watch", { num( h ) } );
					break;
				case 2:
					change( r.range( 1, 4 ) );
					break;
				case 3:
					g.op( "settle" );
					break;
				case 4:
					g.remove( h );
					break;
				case 5:
					g.badAdd( h );
					break;
				default: { // again, from inside a callback
					g.op( "watch", { num( h ) } );
					g.inCallback();
					g.mark( r.pick( g.dirs ) );
					g.op( "settle" );
				}
			}
		}
		if ( r.chance( 1, 8 ) ) {
			change( 3 );
		} else {
			for ( int h = 0; h < H; h++ )
				g.op( "watch", { num( h ) } );
			change( r.range( 0, 2 ) );
			g.op( "settle" );
			if ( r.chance( 1, 2 ) )
				for ( int h = 0; h < H; h++ )
					g.op( "watch", { num( h ) } );
			g.op( "probe" );
		}
	} else if ( prop == "C28" ) {
		tops = r.range( 2, 5 );
		trees( 3 );
		int H = r.chance( 1, 4 ) ? 2 : 1;
		for ( int i = r.range( 0, 2 ); i > 0; i-- )
			g.file();
		for ( int i = r.chance( 1, 4 ) ? r.range( 1, 2 ) : 0; i > 0; i-- )
			g.link( "" );
		for ( int h = 0; h < H; h++ )
			g.op( "new", { num( h ), h ? ( r.chance( 1, 2 ) ? "poll" : "native" ) : be, r.chance( 1, 4 ) ? "c" : "cpp", "1000", r.chance( 1, 6 ) ? "fo" : "-" } );
		for ( int i = r.range( 1, 4 ); i > 0; i-- )
			g.topAdd( r.below( H ), tops );
		for ( int h = 0; h < H; h++ )
			g.op( "watch", { num( h ) } );
		g.op( "settle" );
		for ( int n = r.range( 1, 5 ); n > 0; n-- ) {
			for ( int k = r.range( 1, 5 ); k > 0; k-- ) {
				int h = r.below( H );
				switch ( r.weighted( { 5, 3, 2, 6, 1, 3, 1 } ) ) {
					case 0:
						g.topAdd( h, tops );
						break;
					case 1:
						g.goodAdd( h );
						break;
					case 2:
						g.badAdd( h );
						break;
					case 3:
						g.remove( h );
						break;
					case 4:
						g.op( "dirs", { num( h ) } );
						break;
					case 5:
						g.op( "skip", { "0" } );
						break;
					default:
						g.op( "watch", { num( h ) } );
				}
				g.inCallback();
			}
			for ( int k = r.range( 1, 6 ); k > 0; k-- )
				if ( r.chance( 1, 2 ) )
					g.mark( r.pick( g.dirs ) );
				else
					g.fsop();
			if ( r.chance( 1, 5 ) )
				g.remove( r.below( H ) );
			g.op( "settle" );
			if ( r.chance( 1, 4 ) )
				g.topAdd( r.below( H ), tops );
		}
		g.op( "probe" );
	} else if ( prop == "C29" ) {
		tops = r.range( 2, 4 );
		trees( 3 );
		g.tree( "out", r.range( 0, 1 ) );
		for ( int i = r.range( 0, 6 ); i > 0; i-- )
			g.file();
		for ( int i = r.chance( 1, 2 ) ? r.range( 1, 4 ) : 0; i > 0; i-- )
			g.link( "" );
		int H = r.range( 2, 4 );
		std::vector<int> order;
		for ( int h = 0; h < H; h++ )
			order.insert( order.begin() + r.below( (int)order.size() + 1 ), h );
		auto make = [&]( int h ) {
			g.op( "new", { num( h ), r.chance( 2, 3 ) ? be : poll ? "native" : "poll", r.chance( 1, 3 ) ? "c" : "cpp", "1000", g.hflags() } );
			for ( int i = r.range( 0, 2 ); i > 0; i-- )
				g.topAdd( h, tops );
			if ( r.chance( 2, 3 ) )
				g.op( "watch", { num( h ) } );
		};
		for ( int h : order )
			make( h );
		g.topAdd( 0, tops );
		g.op( "watch", { "0" } );
		for ( int n = r.range( 4, 20 ); n > 0; n-- ) {
			int h = r.chance( 1, 4 ) ? 0 : r.below( H );
			switch ( r.weighted( { 5, 2, 1, 3, 8, 4, 1, 1, 2, 4, 1 } ) ) {
				case 9: // some files move, each from the tree of another one perhaps
					for ( int k = r.range( 1, 4 ); k > 0 && !g.files.empty(); k-- ) {
						std::string to = ( r.chance( 1, 2 ) ? "out" : r.pick( g.dirs ) ) + "/f" + num( g.fileNo++ );
						std::string& f = g.files[r.below( (int)g.files.size() )];
						g.op( "mv", { f, to } );
						f = to;
					}
					break;
				case 10:
					g.link( "" );
					break;
				case 0:
					g.topAdd( h, tops );
					break;
				case 1:
					g.goodAdd( h );
					break;
				case 2:
					g.badAdd( h );
					break;
				case 3:
					g.remove( h );
					break;
				case 4:
					g.fsop();
					break;
				case 5:
					g.op( "settle" );
					break;
				case 6:
					if ( h )
						g.op( "rel", { num( h ) } );
					break;
				case 7:
					if ( h )
						make( h );
					break;
				default:
					g.op( "watch", { num( h ) } );
			}
		}
		g.op( "settle" );
		g.op( "probe" );
	} else if ( prop == "C26" ) {
		static const std::vector<int> P = { 1,	 2,	   3,	 10,   99,	 100,  333,	 500,  999,	  1000,	 1001, 1500,
											1999, 2000, 2001, 3000, 5999, 9999, 60000, 61001, 3600000, 86400000, 2147483, 4294 };
		bool meta = r.chance( 1, 2 );
		if ( !meta ) {
			int per = r.chance( 1, 6 ) ? 0 : r.chance( 1, 3 ) ? 1 + r.below( 10000 ) : r.pick( P );
			bool cc = r.chance( 1, 6 );
			g.op( "clock", { num( 1600000000000000l + (long)( r.next() % 1000000000000ull ) ) } );
			trees( 2 );
			g.op( "new", { "0", "poll", cc ? "c" : "cpp", num( per ), "-" } );
			g.op( "add", { "0", "0", "@/t0", r.chance( 1, 2 ) ? "r" : "-" } );
			if ( r.chance( 1, 2 ) )
				g.op( "add", { "0", "1", "@/t1", "r" } );
			g.op( "watch", { "0" } );
			for ( int i = r.range( 0, 3 ); i > 0; i-- )
				g.fsop();
			g.op( "sleepcheck", { "0", num( r.range( 2, 6 ) ) } );
			if ( r.chance( 1, 3 ) ) {
				g.op( "add", { "0", "2", "@/t" + num( tops - 1 ), "r" } );
				g.op( "sleepcheck", { "0", "2" } );
			}
		} else {
			tops = 1;
			trees( 3 );
			for ( int i = 0; i < 3; i++ )
				g.file();
			int per = r.pick( P );
			g.op( "new", { "0", "poll", "cpp", num( per ), "-" } );
			g.op( "new", { "1", "poll", "cpp", num( per * 5 ), "-" } );
			for ( int h = 0; h < 2; h++ ) {
				g.op( "add", { num( h ), "0", "@/t0", "r" } );
				g.op( "watch", { num( h ) } );
			}
			int n = r.range( 3, 20 );
			for ( int i = 0; i < n; i++ ) {
				switch ( r.weighted( { 3, 2, 3, 2, 3 } ) ) {
					case 0:
						g.file();
						break;
					case 1:
						if ( !g.files.empty() )
							g.op( "rm", { r.pick( g.files ) } );
						break;
					case 2:
						if ( !g.files.empty() )
							g.op( "append", { r.pick( g.files ) } );
						break;
					case 3:
						if ( !g.files.empty() ) {
							std::string to = r.pick( g.dirs ) + "/f" + num( r.below( 12 ) );
							g.op( "mv", { r.pick( g.files ), to } );
							g.files.push_back( to );
						}
						break;
					default:
						g.op( "tick", r.chance( 1, 3 ) ? std::vector<std::string>{ "0", "1" } : std::vector<std::string>{ "0" } );
				}
			}
			g.op( "tick", { "0", "1" } );
			g.op( "compare" );
		}
	}
	return g.c;
}
