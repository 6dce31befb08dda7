#include "model.hpp"
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <sstream>
#include <sys/stat.h>
#include <unistd.h>

std::string esc( const std::string& s ) {
	std::string r;
	for ( unsigned char c : s ) {
		if ( c <= 32 || c == '%' || c >= 127 ) {
			char b[8];
			snprintf( b, sizeof b, "%%%02X", c );
			r += b;
		} else
			r += (char)c;
	}
	return r;
}
std::string unesc( const std::string& s ) {
	std::string r;
	for ( size_t i = 0; i < s.size(); i++ )
		if ( s[i] == '%' && i + 2 < s.size() ) {
			r += (char)strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 );
			i += 2;
		} else
			r += s[i];
	return r;
}
std::string Op::text() const {
	std::string r = kind;
	for ( auto& x : a )
		r += " " + esc( x );
	return r;
}
Op parseOp( const std::string& line ) {
	Op o;
	std::istringstream is( line );
	std::string t;
	is >> o.kind;
	while ( is >> t )
		o.a.push_back( unesc( t ) );
	return o;
}
std::string pathOf( const Node* n ) {
	if ( !n->parent )
		return "";
	std::string p = pathOf( n->parent );
	return p.empty() ? n->name : p + "/" + n->name;
}
std::string dirName( const std::string& p ) {
	size_t i = p.rfind( '/' );
	return i == std::string::npos ? "" : p.substr( 0, i );
}
std::string baseName( const std::string& p ) {
	size_t i = p.rfind( '/' );
	return i == std::string::npos ? p : p.substr( i + 1 );
}
bool under( const std::string& p, const std::string& d ) {
	return p == d || ( p.size() > d.size() && p.compare( 0, d.size(), d ) == 0 && p[d.size()] == '/' );
}

Node* Model::find( const std::string& p ) {
	Node* n = &root;
	size_t i = 0;
	while ( i < p.size() ) {
		size_t j = p.find( '/', i );
		if ( j == std::string::npos )
			j = p.size();
		if ( !n->dir )
			return nullptr;
		auto it = n->kids.find( p.substr( i, j - i ) );
		if ( it == n->kids.end() )
			return nullptr;
		n = it->second;
		i = j + 1;
	}
	return n;
}
bool Model::inFresh( const Node* n ) {
	for ( ; n; n = n->parent )
		if ( n->fresh )
			return true;
	return false;
}
void Model::markDirty( Node* d ) {
	dirtyLabels.insert( pathOf( d ) );
	for ( auto& k : d->kids )
		if ( k.second->dir )
			markDirty( k.second );
}
void Model::fact( FactKind k, Node* dir, const std::string& name, const std::string& old, bool isDir, bool drv,
				  bool over ) {
	Fact f;
	f.kind = k;
	f.dir = pathOf( dir );
	f.name = name;
	f.old = old;
	f.isDir = isDir;
	f.derived = drv;
	f.seq = ++seq;
	f.overwrote = over;
	if ( !drv && inFresh( dir ) )
		dirtyLabels.insert( f.dir );
	if ( !drv && k != F_MODIFY ) {
		if ( k == F_RENAME ) {
			bool c = touched( f.oldPath() ) || inFresh( dir );
			touches[f.oldPath()]++;
			touches[f.path()] += c ? 2 : 1;
		} else
			touches[f.path()]++;
	}
	facts.push_back( f );
}
bool Model::touched( const std::string& p ) const {
	for ( std::string q = p; !q.empty(); q = dirName( q ) )
		if ( touches.count( q ) )
			return true;
	return false;
}
bool Model::churned( const std::string& p, int depth ) const {
	for ( std::string q = p; !q.empty(); q = dirName( q ) ) {
		auto it = touches.find( q );
		if ( it != touches.end() && it->second >= 2 )
			return true;
		if ( depth < 6 )
			for ( auto& m : moves )
				if ( m.second == q && churned( m.first + p.substr( q.size() ), depth + 1 ) )
					return true;
	}
	return false;
}
void Model::derived( FactKind k, Node* n ) {
	for ( auto& c : n->kids ) {
		fact( k, n, c.first, "", c.second->dir, true );
		derived( k, c.second );
	}
}
Node* Model::mk( Node* d, const std::string& name ) {
	Node* n = new Node();
	n->parent = d;
	n->name = name;
	n->ino = ++inoSeq;
	d->kids[name] = n;
	return n;
}
bool isFsOp( const std::string& k ) {
	return k == "mkdir" || k == "touch" || k == "write" || k == "append" || k == "trunc" || k == "rm" || k == "rmrf" ||
		   k == "mv" || k == "ln" || k == "sym" || k == "chmod" || k == "mkfifo" || k == "utime" || k == "chown" || k == "grow" || k == "read";
}
static bool protectedPath( const std::string& p ) { return p.find( '/' ) == std::string::npos; } // the roots

bool Model::possible( const Op& o ) {
	const std::string& k = o.kind;
	if ( o.a.empty() || o.a[0].empty() )
		return false;
	const std::string& p = k == "sym" || k == "ln" || k == "mv" ? ( o.a.size() > 1 ? o.a[1] : o.a[0] ) : o.a[0];
	Node* d = find( dirName( p ) );
	Node* n = find( p );
	bool parentOk = d && d->dir && !baseName( p ).empty();
	if ( k == "mkdir" || k == "mkfifo" )
		return parentOk && !n;
	if ( k == "touch" || k == "write" )
		return parentOk && ( !n || ( !n->dir && !n->link && !n->fifo ) );
	if ( k == "append" || k == "trunc" || k == "grow" )
		return n && !n->dir && !n->link && !n->fifo;
	if ( k == "chmod" || k == "utime" || k == "chown" )
		return n && !n->link;
	if ( k == "read" )
		return n && !n->link && !n->fifo;
	if ( k == "rm" )
		return n && !protectedPath( p ) && ( !n->dir || n->kids.empty() );
	if ( k == "rmrf" )
		return n && !protectedPath( p );
	if ( o.a.size() < 2 )
		return false;
	if ( k == "sym" )
		return parentOk && !n;
	Node* s = find( o.a[0] );
	if ( k == "ln" )
		return s && !s->dir && !s->link && parentOk && !n;
	if ( k == "mv" ) {
		if ( !s || protectedPath( o.a[0] ) || !parentOk || protectedPath( p ) || o.a[0] == p )
			return false;
		if ( s->dir && under( p, o.a[0] ) )
			return false;
		if ( n ) {
			if ( s->dir != n->dir )
				return false;
			if ( n->dir && !n->kids.empty() )
				return false;
			if ( s->ino == n->ino )
				return false; // two links to one file: rename is a no-op
			for ( Node* q = s; q; q = q->parent )
				if ( q == n )
					return false;
		}
		return true;
	}
	return false;
}

bool Model::apply( const Op& o ) {
	if ( !possible( o ) )
		return false;
	const std::string& k = o.kind;
	const std::string& p = k == "sym" || k == "ln" || k == "mv" ? o.a[1] : o.a[0];
	Node* d = find( dirName( p ) );
	Node* n = find( p );
	std::string b = baseName( p );
	if ( k == "mkdir" || k == "mkfifo" ) {
		n = mk( d, b );
		n->dir = k == "mkdir";
		n->fifo = !n->dir;
		fact( F_APPEAR, d, b, "", n->dir, false );
		if ( n->dir ) {
			n->fresh = true;
			markDirty( n );
		}
	} else if ( k == "touch" || k == "write" ) {
		bool isNew = !n;
		if ( isNew ) {
			n = mk( d, b );
			fact( F_APPEAR, d, b, "", false, false );
		}
		// closing a file that was open for writing counts as a possible modification
		fact( F_MODIFY, d, b, "", false, k == "touch" );
	} else if ( k == "append" || k == "trunc" || k == "grow" ) {
		fact( F_MODIFY, d, b, "", false, false );
	} else if ( k == "chmod" || k == "utime" || k == "chown" || k == "read" ) {
	} else if ( k == "rm" || k == "rmrf" ) {
		if ( n->dir ) {
			// children vanish first, as rm -r does it
			struct R {
				static void go( Model* m, Node* x ) {
					std::vector<Node*> ks;
					for ( auto& c : x->kids )
						ks.push_back( c.second );
					for ( auto c : ks ) {
						if ( c->dir )
							go( m, c );
						m->fact( F_VANISH, x, c->name, "", c->dir, false );
						x->kids.erase( c->name );
						c->kids.clear();
						delete c;
					}
				}
			};
			R::go( this, n );
		}
		fact( F_VANISH, d, b, "", n->dir, false );
		d->kids.erase( b );
		n->kids.clear();
		delete n;
	} else if ( k == "sym" ) {
		n = mk( d, b );
		n->link = true;
		n->target = o.a[0];
		fact( F_APPEAR, d, b, "", false, false );
	} else if ( k == "ln" ) {
		Node* s = find( o.a[0] );
		n = mk( d, b );
		n->ino = s->ino;
		n->fifo = s->fifo;
		fact( F_APPEAR, d, b, "", false, false );
	} else if ( k == "mv" ) {
		Node* s = find( o.a[0] );
		Node* sd = s->parent;
		std::string sb = s->name;
		moves.push_back( { o.a[0], p } );
		bool over = n != nullptr, moved = touched( o.a[0] );
		if ( n ) {
			d->kids.erase( b );
			n->kids.clear();
			delete n;
		}
		if ( s->dir )
			derived( F_VANISH, s );
		if ( sd == d ) {
			fact( F_RENAME, d, b, sb, s->dir, false, over );
			sd->kids.erase( sb );
		} else {
			fact( F_VANISH, sd, sb, "", s->dir, false );
			sd->kids.erase( sb );
		}
		std::string from = pathOf( sd ) + "/" + sb, to = pathOf( d ) + "/" + b;
		std::map<std::string, int> below;
		for ( auto& t : touches )
			if ( t.first != from && under( t.first, from ) )
				below[to + t.first.substr( from.size() )] += t.second;
		for ( auto& t : below )
			touches[t.first] += t.second;
		s->parent = d;
		s->name = b;
		d->kids[b] = s;
		if ( sd != d ) {
			bool again = moved;
			fact( F_APPEAR, d, b, "", s->dir, false, over );
			if ( again )
				touches[pathOf( d ) + "/" + b] += 2;
			if ( s->dir ) {
				s->fresh = true;
				markDirty( s );
			} else
				fact( F_MODIFY, d, b, "", false, true );
		} else if ( s->dir && inFresh( s ) )
			markDirty( s );
		if ( s->dir )
			derived( F_APPEAR, s );
	}
	return true;
}

void Model::settle() {
	struct R {
		static void go( Node* n ) {
			n->fresh = false;
			for ( auto& k : n->kids )
				go( k.second );
		}
	};
	R::go( &root );
	facts.clear();
	dirtyLabels.clear();
	touches.clear();
	moves.clear();
}
void Model::listing( const std::string& rp, bool rec, std::set<std::string>& out ) {
	Node* n = find( rp );
	if ( !n )
		return;
	for ( auto& k : n->kids ) {
		out.insert( rp + "/" + k.first );
		if ( rec && k.second->dir )
			listing( rp + "/" + k.first, rec, out );
	}
}
void Model::allDirs( const std::string& rp, std::vector<std::string>& out ) {
	Node* n = find( rp );
	if ( !n || !n->dir )
		return;
	out.push_back( rp );
	for ( auto& k : n->kids )
		if ( k.second->dir )
			allDirs( rp + "/" + k.first, out );
}
void Model::allFiles( const std::string& rp, std::vector<std::string>& out ) {
	Node* n = find( rp );
	if ( !n )
		return;
	for ( auto& k : n->kids ) {
		if ( k.second->dir )
			allFiles( rp + "/" + k.first, out );
		else
			out.push_back( rp + "/" + k.first );
	}
}

void rmTree( const std::string& p ) {
	struct stat st;
	if ( lstat( p.c_str(), &st ) != 0 )
		return;
	if ( S_ISDIR( st.st_mode ) ) {
		chmod( p.c_str(), 0700 );
		if ( DIR* d = opendir( p.c_str() ) ) {
			std::vector<std::string> names;
			while ( dirent* e = readdir( d ) )
				if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) )
					names.push_back( e->d_name );
			closedir( d );
			for ( auto& n : names )
				rmTree( p + "/" + n );
		}
		rmdir( p.c_str() );
	} else
		unlink( p.c_str() );
}

// children in sorted order, depth first: the order the model records
static bool rmSorted( const std::string& p ) {
	struct stat st;
	if ( lstat( p.c_str(), &st ) != 0 )
		return false;
	if ( S_ISDIR( st.st_mode ) ) {
		if ( DIR* d = opendir( p.c_str() ) ) {
			std::set<std::string> names;
			while ( dirent* e = readdir( d ) )
				if ( strcmp( e->d_name, "." ) && strcmp( e->d_name, ".." ) )
					names.insert( e->d_name );
			closedir( d );
			for ( auto& n : names )
				if ( !rmSorted( p + "/" + n ) )
					return false;
		}
		return rmdir( p.c_str() ) == 0;
	}
	return unlink( p.c_str() ) == 0;
}

static bool writeTo( const std::string& p, int flags, const char* data ) {
	int fd = open( p.c_str(), flags | O_CLOEXEC | O_NONBLOCK, 0644 );
	if ( fd < 0 )
		return false;
	bool ok = true;
	if ( data )
		ok = write( fd, data, strlen( data ) ) == (ssize_t)strlen( data );
	close( fd );
	return ok;
}

bool execReal( const std::string& base, const Op& o ) {
	const std::string& k = o.kind;
	auto P = [&]( size_t i ) { return base + "/" + ( o.a.size() > i ? o.a[i] : std::string() ); };
	if ( k == "mkdir" )
		return mkdir( P( 0 ).c_str(), 0755 ) == 0;
	if ( k == "mkfifo" )
		return mknod( P( 0 ).c_str(), ( o.a.size() > 1 && o.a[1] == "sock" ? S_IFSOCK : S_IFIFO ) | 0644, 0 ) == 0;
	if ( k == "touch" )
		return writeTo( P( 0 ), O_WRONLY | O_CREAT, nullptr );
	if ( k == "write" )
		return writeTo( P( 0 ), O_WRONLY | O_CREAT | O_TRUNC, o.a.size() > 1 ? o.a[1].c_str() : "data" );
	if ( k == "append" )
		return writeTo( P( 0 ), O_WRONLY | O_APPEND, o.a.size() > 1 ? o.a[1].c_str() : "more" );
	if ( k == "trunc" ) {
		struct stat st;
		if ( lstat( P( 0 ).c_str(), &st ) != 0 || !S_ISREG( st.st_mode ) )
			return false;
		return truncate( P( 0 ).c_str(), o.a.size() > 1 ? atoi( o.a[1].c_str() ) : 0 ) == 0;
	}
	if ( k == "chmod" )
		return chmod( P( 0 ).c_str(), o.a.size() > 1 ? (mode_t)strtol( o.a[1].c_str(), nullptr, 8 ) : 0640 ) == 0;
	if ( k == "chown" ) // not possible for everybody
		return lchown( P( 0 ).c_str(), o.a.size() > 1 ? atoi( o.a[1].c_str() ) : -1, o.a.size() > 2 ? atoi( o.a[2].c_str() ) : -1 ) == 0 || errno == EPERM;
	if ( k == "grow" ) { // the size and nothing else
		struct stat st;
		if ( lstat( P( 0 ).c_str(), &st ) != 0 || !S_ISREG( st.st_mode ) ||
			 !( o.a.size() > 1 ? truncate( P( 0 ).c_str(), st.st_size + atoll( o.a[1].c_str() ) ) == 0 : writeTo( P( 0 ), O_WRONLY | O_APPEND, "z" ) ) )
			return false;
		timespec ts[2] = { st.st_atim, st.st_mtim };
		return utimensat( AT_FDCWD, P( 0 ).c_str(), ts, AT_SYMLINK_NOFOLLOW ) == 0;
	}
	if ( k == "utime" ) {
		long s = o.a.size() > 1 ? atol( o.a[1].c_str() ) : 1000;
		long ns = o.a.size() > 2 ? atol( o.a[2].c_str() ) : 0;
		timespec ts[2] = { { s, ns }, { s, ns } };
		return utimensat( AT_FDCWD, P( 0 ).c_str(), ts, AT_SYMLINK_NOFOLLOW ) == 0;
	}
	if ( k == "read" ) { // changes nothing
		int fd = open( P( 0 ).c_str(), O_RDONLY | O_CLOEXEC | O_NOFOLLOW | O_NONBLOCK );
		if ( fd < 0 )
			return false;
		char buf[4096];
		if ( read( fd, buf, sizeof buf ) < 0 && errno == EISDIR )
			if ( DIR* d = fdopendir( fd ) ) {
				while ( readdir( d ) )
					;
				closedir( d );
				return true;
			}
		close( fd );
		return true;
	}
	if ( k == "rm" ) {
		struct stat st;
		if ( lstat( P( 0 ).c_str(), &st ) != 0 )
			return false;
		return S_ISDIR( st.st_mode ) ? rmdir( P( 0 ).c_str() ) == 0 : unlink( P( 0 ).c_str() ) == 0;
	}
	if ( k == "rmrf" )
		return rmSorted( P( 0 ) );
	if ( k == "mv" )
		return rename( P( 0 ).c_str(), P( 1 ).c_str() ) == 0;
	if ( k == "ln" )
		return link( P( 0 ).c_str(), P( 1 ).c_str() ) == 0;
	if ( k == "sym" ) {
		// targets written as @/x are absolute below the base, others are literal
		std::string t = o.a[0];
		if ( t.compare( 0, 2, "@/" ) == 0 )
			t = base + t.substr( 1 );
		return symlink( t.c_str(), P( 1 ).c_str() ) == 0;
	}
	return false;
}
