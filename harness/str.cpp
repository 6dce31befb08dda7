// C23: Unicode conversion and String, against a strict decoder written from the Unicode standard and std::u32string.
#include "gen.hpp"
#include "harness.hpp"
#include <algorithm>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <efsw/String.hpp>
#include <efsw/Utf.hpp>
#include <functional>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unistd.h>
#include <vector>
using efsw::String;
typedef std::vector<uint32_t> Cps;
typedef std::u32string U32;

namespace {
struct Bad {
	std::string what;
};
std::string sfmt( const char* f, ... ) {
	char b[512];
	va_list a;
	va_start( a, f );
	vsnprintf( b, sizeof b, f, a );
	va_end( a );
	return b;
}
#define FAILIF( c, ... )                                                                                               \
	do {                                                                                                               \
		if ( c )                                                                                                       \
			throw Bad{ sfmt( __VA_ARGS__ ) };                                                                          \
	} while ( 0 )

bool scalar( uint32_t c ) {
	return c <= 0x10FFFF && !( c >= 0xD800 && c <= 0xDFFF );
}

// -- reference ------------------------------------------------------------------------------------------------------
std::string ref8( uint32_t c ) {
	std::string s;
	if ( c < 0x80 )
		s += (char)c;
	else if ( c < 0x800 )
		s += { (char)( 0xC0 + c / 64 ), (char)( 0x80 + c % 64 ) };
	else if ( c < 0x10000 )
		s += { (char)( 0xE0 + c / 4096 ), (char)( 0x80 + c / 64 % 64 ), (char)( 0x80 + c % 64 ) };
	else
		s += { (char)( 0xF0 + c / 262144 ), (char)( 0x80 + c / 4096 % 64 ), (char)( 0x80 + c / 64 % 64 ), (char)( 0x80 + c % 64 ) };
	return s;
}
std::vector<uint16_t> ref16( uint32_t c ) {
	if ( c < 0x10000 )
		return { (uint16_t)c };
	return { (uint16_t)( 0xD7C0 + c / 1024 ), (uint16_t)( 0xDC00 + c % 1024 ) };
}
struct Unit {
	size_t pos, len;
	uint32_t cp;
};
// Unicode, table 3-7
size_t wf8( const uint8_t* p, size_t n, uint32_t& cp ) {
	auto in = []( int v, int a, int b ) { return v >= a && v <= b; };
	if ( p[0] < 0x80 )
		return cp = p[0], 1;
	if ( n >= 2 && in( p[0], 0xC2, 0xDF ) && in( p[1], 0x80, 0xBF ) )
		return cp = ( p[0] - 0xC0 ) * 64 + ( p[1] - 0x80 ), 2;
	if ( n >= 3 && in( p[0], 0xE0, 0xEF ) && in( p[1], p[0] == 0xE0 ? 0xA0 : 0x80, p[0] == 0xED ? 0x9F : 0xBF ) && in( p[2], 0x80, 0xBF ) )
		return cp = ( p[0] - 0xE0 ) * 4096 + ( p[1] - 0x80 ) * 64 + ( p[2] - 0x80 ), 3;
	if ( n >= 4 && in( p[0], 0xF0, 0xF4 ) && in( p[1], p[0] == 0xF0 ? 0x90 : 0x80, p[0] == 0xF4 ? 0x8F : 0xBF ) && in( p[2], 0x80, 0xBF ) && in( p[3], 0x80, 0xBF ) )
		return cp = ( p[0] - 0xF0 ) * 262144 + ( p[1] - 0x80 ) * 4096 + ( p[2] - 0x80 ) * 64 + ( p[3] - 0x80 ), 4;
	return 0;
}
size_t wf16( const uint16_t* p, size_t n, uint32_t& cp ) {
	if ( p[0] < 0xD800 || p[0] > 0xDFFF )
		return cp = p[0], 1;
	if ( p[0] < 0xDC00 && n >= 2 && p[1] >= 0xDC00 && p[1] <= 0xDFFF )
		return cp = 0x10000 + ( p[0] - 0xD800 ) * 1024 + ( p[1] - 0xDC00 ), 2;
	return 0;
}
template <class T, class F> std::vector<Unit> refDecode( const T* p, size_t n, F wf ) {
	std::vector<Unit> out;
	for ( size_t i = 0; i < n; ) {
		uint32_t cp;
		size_t k = wf( p + i, n - i, cp );
		if ( k )
			out.push_back( { i, k, cp } );
		i += k ? k : 1;
	}
	return out;
}
std::string show( const uint8_t* p, size_t n ) {
	std::string s;
	for ( size_t i = 0; i < n && i < 24; i++ )
		s += sfmt( "%02x ", p[i] );
	return s;
}

// An output of a conversion with replacement 0: malformed runs may be dropped or become zeros, at most one per unit
// and everything else is exact.
void matchZeros( const char* what, const Cps& got, const std::vector<Unit>& ref, size_t n ) {
	size_t g = 0, pos = 0, mn = 0, mx = 0;
	auto zeros = [&] {
		size_t z = 0;
		while ( g < got.size() && got[g] == 0 )
			g++, z++;
		FAILIF( z < mn || z > mx, "%s: %zu zero characters where %zu to %zu were expected", what, z, mn, mx );
		mn = mx = 0;
	};
	for ( auto& u : ref ) {
		mx += u.pos - pos;
		pos = u.pos + u.len;
		if ( u.cp == 0 ) {
			mn++, mx++;
			continue;
		}
		zeros();
		FAILIF( g >= got.size(), "%s: U+%04X at offset %zu is missing", what, u.cp, u.pos );
		FAILIF( got[g] != u.cp, "%s: U+%04X where U+%04X was expected (offset %zu)", what, got[g], u.cp, u.pos );
		g++;
	}
	mx += n - pos;
	zeros();
	FAILIF( g != got.size(), "%s: %zu characters too many", what, got.size() - g );
}
// the same for encoded outputs: they must be well-formed and decode to it
Cps strict8( const char* what, const std::string& s ) {
	auto u = refDecode( (const uint8_t*)s.data(), s.size(), wf8 );
	size_t n = 0;
	Cps c;
	for ( auto& x : u )
		n += x.len, c.push_back( x.cp );
	FAILIF( n != s.size(), "%s: the output is not well-formed UTF-8: %s", what, show( (const uint8_t*)s.data(), s.size() ).c_str() );
	return c;
}
Cps strict16( const char* what, const std::vector<uint16_t>& s ) {
	auto u = refDecode( s.data(), s.size(), wf16 );
	size_t n = 0;
	Cps c;
	for ( auto& x : u )
		n += x.len, c.push_back( x.cp );
	FAILIF( n != s.size(), "%s: the output is not well-formed UTF-16", what );
	return c;
}
// runs a conversion into a buffer that has exactly the room that it needs
template <class O, class F> std::vector<O> convert( const char* what, F f ) {
	std::vector<O> v;
	f( std::back_inserter( v ) );
	std::unique_ptr<O[]> b( new O[v.size() ? v.size() : 1] );
	if ( v.empty() )
		b.reset( new O[0] );
	O* e = f( b.get() );
	FAILIF( (size_t)( e - b.get() ) != v.size() || ( v.size() && memcmp( b.get(), v.data(), v.size() * sizeof( O ) ) ), "%s: two conversions of the same input differ", what );
	return v;
}
template <class T> Cps cps( const T& v ) {
	Cps c;
	for ( auto x : v )
		c.push_back( (uint32_t)x );
	return c;
}

static const uint32_t NOCHAR = 0xFFFFFFFF;
// walks the whole input with Decode
template <class U, class It> void walk( const char* what, It b, It e, size_t n, const std::vector<Unit>& ref, uint32_t repl ) {
	size_t r = 0, steps = 0;
	It p = b;
	while ( p < e ) {
		uint32_t cp = 0x5a5a5a5a;
		It q = U::Decode( p, e, cp, repl );
		It q2 = U::Next( p, e );
		FAILIF( q != q2, "%s: Next and Decode stop at different positions", what );
		size_t pos = p - b;
		FAILIF( !( p < q ), "%s: Decode did not advance at %zu", what, pos );
		FAILIF( e < q, "%s: Decode went past the end at %zu", what, pos );
		if ( r < ref.size() && ref[r].pos == pos ) {
			FAILIF( cp != ref[r].cp || (size_t)( q - p ) != ref[r].len, "%s: at %zu Decode gave U+%04X from %zu units, U+%04X from %zu expected", what, pos, cp, (size_t)( q - p ), ref[r].cp, ref[r].len );
			r++;
		} else {
			FAILIF( cp != repl, "%s: malformed input at %zu was decoded to U+%04X", what, pos, cp );
			size_t lim = r < ref.size() ? ref[r].pos : n;
			FAILIF( (size_t)( q - b ) > lim, "%s: a malformed sequence at %zu swallowed the character at %zu", what, pos, lim );
		}
		steps++;
		p = q;
	}
	FAILIF( r != ref.size(), "%s: %zu characters were not decoded", what, ref.size() - r );
	FAILIF( U::Count( b, e ) != steps, "%s: Count is %zu, Decode makes %zu steps", what, U::Count( b, e ), steps );
}

void dec8( const std::string& in ) {
	size_t n = in.size();
	std::unique_ptr<uint8_t[]> buf( new uint8_t[n] );
	memcpy( buf.get(), in.data(), n );
	const uint8_t* b = buf.get();
	const char* c = (const char*)b;
	auto ref = refDecode( b, n, wf8 );
	walk<efsw::Utf8>( "UTF-8 (bytes)", b, b + n, n, ref, NOCHAR );
	walk<efsw::Utf8>( "UTF-8 (chars)", c, c + n, n, ref, 0xFFFE0000 );
	std::string s( in );
	s.shrink_to_fit();
	walk<efsw::Utf8>( "UTF-8 (string)", s.begin(), s.end(), n, ref, NOCHAR );
	std::vector<signed char> v( in.begin(), in.end() );
	walk<efsw::Utf8>( "UTF-8 (signed)", v.begin(), v.end(), n, ref, NOCHAR );

	matchZeros( "UTF-8 to UTF-32", convert<uint32_t>( "UTF-8 to UTF-32", [&]( auto o ) { return efsw::Utf8::ToUtf32( c, c + n, o ); } ), ref, n );
	matchZeros( "UTF-8 to UTF-16", strict16( "UTF-8 to UTF-16", convert<uint16_t>( "UTF-8 to UTF-16", [&]( auto o ) { return efsw::Utf8::ToUtf16( b, b + n, o ); } ) ), ref, n );
	matchZeros( "UTF-8 to wide", cps( convert<wchar_t>( "UTF-8 to wide", [&]( auto o ) { return efsw::Utf8::ToWide( c, c + n, o ); } ) ), ref, n );
	auto same = convert<uint8_t>( "UTF-8 to UTF-8", [&]( auto o ) { return efsw::Utf8::toUtf8( b, b + n, o ); } );
	FAILIF( same.size() != n || memcmp( same.data(), b, n ), "UTF-8 to UTF-8 changed the text" );
	{
		auto l = convert<char>( "UTF-8 to Latin-1", [&]( auto o ) { return efsw::Utf8::ToLatin1( c, c + n, o, (char)1 ); } );
		size_t i = 0;
		for ( auto& u : ref )
			if ( u.cp ) {
				while ( i < l.size() && !l[i] )
					i++;
				uint8_t want = u.cp < 256 ? u.cp : 1;
				FAILIF( i >= l.size() || (uint8_t)l[i] != want, "UTF-8 to Latin-1: U+%04X at %zu is wrong", u.cp, u.pos );
				i++;
			}
	}
	String a( s ), d( String::fromUtf8( s ) );
	Cps viaS( a.begin(), a.end() );
	matchZeros( "String( std::string )", viaS, ref, n );
	matchZeros( "String::fromUtf8", Cps( d.begin(), d.end() ), ref, n );
	FAILIF( a != d, "String( utf8 ) and fromUtf8 differ" );
	matchZeros( "String::toUtf8", strict8( "String::toUtf8", a.toUtf8() ), ref, n );
	{
		std::unique_ptr<char[]> z( new char[n + 1] );
		memcpy( z.get(), in.data(), n );
		z[n] = 0;
		size_t m = strlen( z.get() );
		String e( z.get() );
		auto r2 = refDecode( b, m, wf8 );
		matchZeros( "String( const char* )", Cps( e.begin(), e.end() ), r2, m );
	}
	FAILIF( !a.toUtf8().empty() && String( a.toUtf8() ) != a, "toUtf8 and back changed the text" );
}

void dec16( const std::vector<uint16_t>& in ) {
	size_t n = in.size();
	std::unique_ptr<uint16_t[]> buf( new uint16_t[n] );
	std::copy( in.begin(), in.end(), buf.get() );
	const uint16_t* b = buf.get();
	auto ref = refDecode( b, n, wf16 );
	walk<efsw::Utf16>( "UTF-16", b, b + n, n, ref, NOCHAR );
	walk<efsw::Utf16>( "UTF-16 (vector)", in.begin(), in.end(), n, ref, 0xFFFE0000 );
	std::u16string us( in.begin(), in.end() );
	walk<efsw::Utf16>( "UTF-16 (u16string)", us.begin(), us.end(), n, ref, NOCHAR );
	matchZeros( "UTF-16 to UTF-32", convert<uint32_t>( "UTF-16 to UTF-32", [&]( auto o ) { return efsw::Utf16::ToUtf32( b, b + n, o ); } ), ref, n );
	auto u8 = convert<char>( "UTF-16 to UTF-8", [&]( auto o ) { return efsw::Utf16::toUtf8( b, b + n, o ); } );
	matchZeros( "UTF-16 to UTF-8", strict8( "UTF-16 to UTF-8", std::string( u8.begin(), u8.end() ) ), ref, n );
	matchZeros( "UTF-16 to wide", cps( convert<wchar_t>( "UTF-16 to wide", [&]( auto o ) { return efsw::Utf16::ToWide( b, b + n, o ); } ) ), ref, n );
	auto same = convert<uint16_t>( "UTF-16 to UTF-16", [&]( auto o ) { return efsw::Utf16::ToUtf16( b, b + n, o ); } );
	FAILIF( same != in, "UTF-16 to UTF-16 changed the text" );
}

// any 32 bit values: scalars are kept, the rest is dropped or replaced
void dec32( const Cps& in ) {
	size_t n = in.size();
	std::unique_ptr<uint32_t[]> buf( new uint32_t[n] );
	std::copy( in.begin(), in.end(), buf.get() );
	const uint32_t* b = buf.get();
	std::vector<Unit> ref;
	for ( size_t i = 0; i < n; i++ )
		if ( scalar( b[i] ) )
			ref.push_back( { i, 1, b[i] } );
	auto u8 = convert<char>( "UTF-32 to UTF-8", [&]( auto o ) { return efsw::Utf32::toUtf8( b, b + n, o ); } );
	matchZeros( "UTF-32 to UTF-8", strict8( "UTF-32 to UTF-8", std::string( u8.begin(), u8.end() ) ), ref, n );
	auto u16 = convert<uint16_t>( "UTF-32 to UTF-16", [&]( auto o ) { return efsw::Utf32::ToUtf16( b, b + n, o ); } );
	matchZeros( "UTF-32 to UTF-16", strict16( "UTF-32 to UTF-16", u16 ), ref, n );
	FAILIF( efsw::Utf32::Count( b, b + n ) != n, "UTF-32: Count is wrong" );
	for ( size_t i = 0; i < n; i++ ) {
		uint32_t cp = ~b[i];
		const uint32_t* q = efsw::Utf32::Decode( b + i, b + n, cp );
		FAILIF( q != b + i + 1 || efsw::Utf32::Next( b + i, b + n ) != q, "UTF-32: Decode or Next does not advance by one" );
		FAILIF( scalar( b[i] ) && cp != b[i], "UTF-32: Decode changed U+%04X", b[i] );
		// a single character, with a replacement
		auto e8 = convert<uint8_t>( "Utf8::Encode", [&]( auto o ) { return efsw::Utf8::Encode( b[i], o, 0x3F ); } );
		std::string w8 = scalar( b[i] ) ? ref8( b[i] ) : "?";
		FAILIF( std::string( e8.begin(), e8.end() ) != w8, "Utf8::Encode( %x ) wrote %s", b[i], show( e8.data(), e8.size() ).c_str() );
		auto e16 = convert<uint16_t>( "Utf16::Encode", [&]( auto o ) { return efsw::Utf16::Encode( b[i], o, 0xFFFD ); } );
		FAILIF( e16 != ( scalar( b[i] ) ? ref16( b[i] ) : std::vector<uint16_t>{ 0xFFFD } ), "Utf16::Encode( %x ) is wrong", b[i] );
		if ( !scalar( b[i] ) ) {
			FAILIF( !convert<uint8_t>( "Utf8::Encode", [&]( auto o ) { return efsw::Utf8::Encode( b[i], o ); } ).empty(), "Utf8::Encode( %x ) wrote something", b[i] );
			FAILIF( !convert<uint16_t>( "Utf16::Encode", [&]( auto o ) { return efsw::Utf16::Encode( b[i], o ); } ).empty(), "Utf16::Encode( %x ) wrote something", b[i] );
		}
	}
	std::basic_string<char32_t> st( in.begin(), in.end() );
	String s( st );
	FAILIF( Cps( s.begin(), s.end() ) != in, "String( u32string ) changed the text" );
	matchZeros( "String::toUtf8", strict8( "String::toUtf8", s.toUtf8() ), ref, n );
}

// scalar values through every pair of encodings and back
void scal( const Cps& in ) {
	std::string w8;
	std::vector<uint16_t> w16;
	std::wstring ww;
	U32 w32( in.begin(), in.end() );
	for ( auto c : in ) {
		w8 += ref8( c );
		for ( auto u : ref16( c ) )
			w16.push_back( u );
		ww += (wchar_t)c;
	}
	auto chk = [&]( const char* what, bool ok ) { FAILIF( !ok, "%s is not the standard encoding", what ); };
	const char* p8 = w8.data();
	size_t n8 = w8.size(), n16 = w16.size(), n = in.size();
	const uint16_t* p16 = w16.data();
	const uint32_t* p32 = in.data();
	const wchar_t* pw = ww.data();
	chk( "UTF-8 to UTF-16", convert<uint16_t>( "UTF-8 to UTF-16", [&]( auto o ) { return efsw::Utf8::ToUtf16( p8, p8 + n8, o ); } ) == w16 );
	chk( "UTF-8 to UTF-32", convert<uint32_t>( "UTF-8 to UTF-32", [&]( auto o ) { return efsw::Utf8::ToUtf32( p8, p8 + n8, o ); } ) == in );
	auto s8 = [&]( const std::vector<char>& v ) { return std::string( v.begin(), v.end() ) == w8; };
	chk( "UTF-16 to UTF-8", s8( convert<char>( "UTF-16 to UTF-8", [&]( auto o ) { return efsw::Utf16::toUtf8( p16, p16 + n16, o ); } ) ) );
	chk( "UTF-16 to UTF-32", convert<uint32_t>( "UTF-16 to UTF-32", [&]( auto o ) { return efsw::Utf16::ToUtf32( p16, p16 + n16, o ); } ) == in );
	chk( "UTF-32 to UTF-8", s8( convert<char>( "UTF-32 to UTF-8", [&]( auto o ) { return efsw::Utf32::toUtf8( p32, p32 + n, o ); } ) ) );
	chk( "UTF-32 to UTF-16", convert<uint16_t>( "UTF-32 to UTF-16", [&]( auto o ) { return efsw::Utf32::ToUtf16( p32, p32 + n, o ); } ) == w16 );
	chk( "UTF-32 to UTF-32", convert<uint32_t>( "UTF-32 to UTF-32", [&]( auto o ) { return efsw::Utf32::ToUtf32( p32, p32 + n, o ); } ) == in );
	auto sw = [&]( const std::vector<wchar_t>& v ) { return std::wstring( v.begin(), v.end() ) == ww; };
	chk( "UTF-8 to wide", sw( convert<wchar_t>( "UTF-8 to wide", [&]( auto o ) { return efsw::Utf8::ToWide( p8, p8 + n8, o ); } ) ) );
	chk( "UTF-16 to wide", sw( convert<wchar_t>( "UTF-16 to wide", [&]( auto o ) { return efsw::Utf16::ToWide( p16, p16 + n16, o ); } ) ) );
	chk( "UTF-32 to wide", sw( convert<wchar_t>( "UTF-32 to wide", [&]( auto o ) { return efsw::Utf32::ToWide( p32, p32 + n, o ); } ) ) );
	chk( "wide to UTF-8", s8( convert<char>( "wide to UTF-8", [&]( auto o ) { return efsw::Utf8::FromWide( pw, pw + n, o ); } ) ) );
	chk( "wide to UTF-16", convert<uint16_t>( "wide to UTF-16", [&]( auto o ) { return efsw::Utf16::FromWide( pw, pw + n, o ); } ) == w16 );
	chk( "wide to UTF-32", convert<uint32_t>( "wide to UTF-32", [&]( auto o ) { return efsw::Utf32::FromWide( pw, pw + n, o ); } ) == in );
	chk( "Utf8::Count", efsw::Utf8::Count( p8, p8 + n8 ) == n );
	chk( "Utf16::Count", efsw::Utf16::Count( p16, p16 + n16 ) == n );
	String s( w8 ), t( ww ), u( w32 );
	chk( "String( utf8 )", Cps( s.begin(), s.end() ) == in );
	chk( "String( wide )", t == s );
	chk( "String( utf32 )", u == s );
	chk( "String::toUtf8", s.toUtf8() == w8 );
	chk( "String::toWideString", s.toWideString() == ww );
	if ( w32.find( U'\0' ) == U32::npos ) {
		chk( "String( const char* )", String( w8.c_str() ) == s );
		chk( "String( const wchar_t* )", String( ww.c_str() ) == s );
		chk( "String( const char32_t* )", String( w32.c_str() ) == s );
	}
	String a;
	for ( auto c : in )
		a += String( (wchar_t)c );
	chk( "String( wchar_t )", a == s );
	bool ascii = true, latin = true;
	for ( auto c : in ) {
		ascii = ascii && c < 128 && c;
		latin = latin && c < 256;
	}
	if ( latin ) {
		std::vector<uint8_t> l( in.begin(), in.end() );
		const uint8_t* pl = l.data();
		chk( "Latin-1 to UTF-8", s8( convert<char>( "Latin-1 to UTF-8", [&]( auto o ) { return efsw::Utf8::FromLatin1( pl, pl + n, o ); } ) ) );
		chk( "Latin-1 to UTF-16", convert<uint16_t>( "Latin-1 to UTF-16", [&]( auto o ) { return efsw::Utf16::FromLatin1( pl, pl + n, o ); } ) == w16 );
		chk( "Latin-1 to UTF-32", convert<uint32_t>( "Latin-1 to UTF-32", [&]( auto o ) { return efsw::Utf32::FromLatin1( pl, pl + n, o ); } ) == in );
		auto b8 = [&]( const std::vector<char>& v ) { return v.size() == n && !memcmp( v.data(), l.data(), n ); };
		chk( "UTF-8 to Latin-1", b8( convert<char>( "UTF-8 to Latin-1", [&]( auto o ) { return efsw::Utf8::ToLatin1( p8, p8 + n8, o ); } ) ) );
		chk( "UTF-16 to Latin-1", b8( convert<char>( "UTF-16 to Latin-1", [&]( auto o ) { return efsw::Utf16::ToLatin1( p16, p16 + n16, o ); } ) ) );
		chk( "UTF-32 to Latin-1", b8( convert<char>( "UTF-32 to Latin-1", [&]( auto o ) { return efsw::Utf32::ToLatin1( p32, p32 + n, o ); } ) ) );
	}
	if ( ascii ) {
		const std::locale& L = std::locale::classic();
		chk( "ANSI to UTF-8", s8( convert<char>( "ANSI to UTF-8", [&]( auto o ) { return efsw::Utf8::FromAnsi( p8, p8 + n8, o, L ); } ) ) );
		chk( "ANSI to UTF-16", convert<uint16_t>( "ANSI to UTF-16", [&]( auto o ) { return efsw::Utf16::FromAnsi( p8, p8 + n8, o, L ); } ) == w16 );
		chk( "UTF-8 to ANSI", s8( convert<char>( "UTF-8 to ANSI", [&]( auto o ) { return efsw::Utf8::ToAnsi( p8, p8 + n8, o, (char)0, L ); } ) ) );
		chk( "UTF-16 to ANSI", s8( convert<char>( "UTF-16 to ANSI", [&]( auto o ) { return efsw::Utf16::ToAnsi( p16, p16 + n16, o, (char)0, L ); } ) ) );
		chk( "UTF-32 to ANSI", s8( convert<char>( "UTF-32 to ANSI", [&]( auto o ) { return efsw::Utf32::ToAnsi( p32, p32 + n, o, (char)0, L ); } ) ) );
		chk( "String( ANSI )", String( w8, L ) == s && String( w8.c_str(), L ) == s );
		chk( "toAnsiString", s.toAnsiString( L ) == w8 && (std::string)s == w8 );
	}
}

// -- String against std::u32string -----------------------------------------------------------------------------------
struct Strings {
	String e[3];
	U32 m[3];
	const std::vector<std::string>* a = nullptr;
	size_t ai = 0;

	std::string word() { return ai < a->size() ? ( *a )[ai++] : std::string( "0" ); }
	int reg() { return (unsigned long)atol( word().c_str() ) % 3; }
	size_t num() {
		std::string w = word();
		return w == "npos" ? std::string::npos : (size_t)( atol( w.c_str() ) & 0xffff );
	}
	uint32_t cp() {
		uint32_t c = strtoul( word().c_str(), nullptr, 16 );
		return scalar( c ) ? c : 0xFFFD;
	}
	char ch() { return (char)( strtoul( word().c_str(), nullptr, 16 ) & 0x7f ); }
	U32 txt() {
		U32 s;
		std::string w = word();
		char* p = &w[0];
		while ( *p && *p != '-' && s.size() < 4096 ) {
			char* q;
			uint32_t c = strtoul( p, &q, 16 );
			if ( q == p )
				break;
			s += (char32_t)( scalar( c ) ? c : 0xFFFD );
			p = *q ? q + 1 : q;
		}
		return s;
	}
	static std::string u8( const U32& s ) {
		std::string r;
		for ( auto c : s )
			r += ref8( c );
		return r;
	}
	U32 ztxt() { // without NUL
		U32 s = txt();
		s.erase( std::remove( s.begin(), s.end(), U'\0' ), s.end() );
		return s;
	}

	// the result of an expression as text; exceptions included
	template <class F> static std::string val( F f ) {
		try {
			return f();
		} catch ( const std::out_of_range& ) {
			return "out_of_range";
		} catch ( const std::length_error& ) {
			return "length_error";
		}
	}
	static std::string n2s( size_t n ) { return n == std::string::npos ? "npos" : std::to_string( n ); }
	static std::string sgn( int c ) { return c < 0 ? "<" : c > 0 ? ">" : "="; }
	static std::string t2s( const U32& s ) {
		std::string r;
		for ( auto c : s )
			r += sfmt( "%X.", (unsigned)c );
		return r;
	}
	static std::string t2s( const String& s ) { return t2s( U32( s.begin(), s.end() ) ); }

	void state( const char* op ) {
		for ( int i = 0; i < 3; i++ ) {
			const String& c = e[i];
			FAILIF( t2s( c ) != t2s( m[i] ), "after %s: register %d holds %s, %s expected", op, i, t2s( c ).c_str(), t2s( m[i] ).c_str() );
			FAILIF( c.size() != m[i].size() || c.length() != m[i].size() || c.empty() != m[i].empty(), "after %s: wrong size", op );
			FAILIF( memcmp( c.data(), m[i].data(), m[i].size() * 4 ) || c.c_str()[m[i].size()] != 0, "after %s: wrong data() or c_str()", op );
			FAILIF( U32( c.rbegin(), c.rend() ) != U32( m[i].rbegin(), m[i].rend() ), "after %s: wrong reverse iteration", op );
			FAILIF( U32( e[i].begin(), e[i].end() ) != m[i], "after %s: wrong iteration", op );
		}
	}
	static std::vector<U32> refSplit( const U32& s, char32_t sep, bool push ) {
		std::vector<U32> r;
		U32 cur;
		size_t i = 0;
		for ( ;; ) {
			size_t j = s.find( sep, i );
			U32 piece = s.substr( i, j == U32::npos ? j : j - i );
			if ( j == U32::npos ) {
				if ( !piece.empty() )
					r.push_back( piece );
				return r;
			}
			if ( push || !piece.empty() )
				r.push_back( piece );
			i = j + 1;
		}
	}
	void op( const std::string& k, const std::vector<std::string>& args );
};

#define BOTH( E, M )                                                                                                   \
	do {                                                                                                               \
		std::string gotE = val( [&]() -> std::string { E; } ), gotM = val( [&]() -> std::string { M; } );                     \
		FAILIF( gotE != gotM, "%s: the result is %s, %s expected", k.c_str(), gotE.c_str(), gotM.c_str() );                        \
	} while ( 0 )
#define MUT( E, M )                                                                                                    \
	BOTH( auto& rr = E; return &rr == &e[r] ? "ok" : "other", M; return "ok" )

void Strings::op( const std::string& k, const std::vector<std::string>& args ) {
	a = &args;
	ai = 0;
	int r = reg(), q = reg();
	size_t p1 = num(), n1 = num(), p2 = num(), n2 = num();
	U32 t = txt(), z = t;
	z.erase( std::remove( z.begin(), z.end(), U'\0' ), z.end() );
	std::string zs = u8( z );
	const char* s = zs.c_str();
	char c = ch();
	uint32_t w = t.empty() ? 0x41 : t[0];
	size_t few = n1 == std::string::npos ? 3 : n1 % 40;
	size_t i1 = m[r].empty() ? 0 : p1 % ( m[r].size() + 1 ), i2 = i1 + ( m[r].size() == i1 ? 0 : n1 % ( m[r].size() - i1 + 1 ) );
	std::vector<char32_t> li( t.begin(), t.end() );
	String &E = e[r], &F = e[q];
	U32 &M = m[r], &N = m[q];
	if ( M.size() > 2000 && k != "clear" )
		return;

	if ( k == "set" )
		MUT( E = String( t ), M = t );
	else if ( k == "setc" )
		MUT( E = (String::StringBaseType)w, M = (char32_t)w );
	else if ( k == "copy" )
		MUT( E = F, M = N );
	else if ( k == "utf8" )
		MUT( E = String( u8( t ) ), M = t );
	else if ( k == "cat" )
		MUT( E += F, M += N );
	else if ( k == "catc" )
		MUT( E += (String::StringBaseType)w, M += (char32_t)w );
	else if ( k == "plus" )
		MUT( E = F + String( t ), M = N + t );
	else if ( k == "push" )
		E.push_back( w ), M.push_back( w );
	else if ( k == "swap" )
		E.swap( F ), M.swap( N );
	else if ( k == "clear" )
		E.clear(), M.clear();
	else if ( k == "index" ) {
		if ( p1 < M.size() ) {
			E[p1] = w, M[p1] = w;
			FAILIF( ( (const String&)E )[p1] != w, "operator[] reads something else than was written" );
		}
	} else if ( k == "at" )
		BOTH( return std::to_string( E.at( p1 ) ), return std::to_string( M.at( p1 ) ) );
	else if ( k == "erase" )
		BOTH( E.erase( p1, n1 ); return "ok", M.erase( p1, n1 ); return "ok" );
	else if ( k == "erase1" )
		BOTH( E.erase( p1 ); return "ok", M.erase( p1, 1 ); return "ok" );
	else if ( k == "ins" )
		MUT( E.insert( p1, F ), M.insert( p1, N ) );
	else if ( k == "inspn" )
		MUT( E.insert( p1, F, p2, n2 ), M.insert( p1, N, p2, n2 ) );
	else if ( k == "inssn" )
		MUT( E.insert( p1, s, n2 ), M.insert( p1, z, 0, n2 ) );
	else if ( k == "inss" )
		MUT( E.insert( p1, s ), M.insert( p1, z ) );
	else if ( k == "insnc" )
		MUT( E.insert( p1, few, c ), M.insert( p1, few, c ) );
	else if ( k == "insic" ) {
		auto it = E.insert( E.begin() + i1, c );
		M.insert( M.begin() + i1, c );
		FAILIF( (size_t)( it - E.begin() ) != i1, "insert returned another position" );
	} else if ( k == "insinc" )
		E.insert( E.begin() + i1, few, c ), M.insert( M.begin() + i1, few, c );
	else if ( k == "insir" )
		E.insert( E.begin() + i1, li.begin(), li.end() ), M.insert( M.begin() + i1, li.begin(), li.end() );
	else if ( k == "resize" )
		E.resize( p1 % 300 ), M.resize( p1 % 300 );
	else if ( k == "resizec" )
		E.resize( p1 % 300, w ), M.resize( p1 % 300, w );
	else if ( k == "reserve" ) {
		E.reserve( p1 % 500 );
		FAILIF( E.capacity() < p1 % 500 && E.capacity() < M.size(), "reserve did not reserve" );
		FAILIF( E.max_size() < 1000, "max_size is too small" );
	} else if ( k == "asg" )
		MUT( E.assign( F ), M.assign( N ) );
	else if ( k == "asgpn" )
		MUT( E.assign( F, p2, n2 ), M.assign( N, p2, n2 ) );
	else if ( k == "asgsn" )
		MUT( E.assign( s, n2 ), M.assign( z, 0, n2 ) );
	else if ( k == "asgs" )
		MUT( E.assign( s ), M.assign( z ) );
	else if ( k == "asgnc" )
		MUT( E.assign( few, c ), M.assign( few, c ) );
	else if ( k == "asgr" )
		MUT( E.assign( li.begin(), li.end() ), M.assign( li.begin(), li.end() ) );
	else if ( k == "app" )
		MUT( E.append( F ), M.append( N ) );
	else if ( k == "apppn" )
		MUT( E.append( F, p2, n2 ), M.append( N, p2, n2 ) );
	else if ( k == "appsn" )
		MUT( E.append( s, n2 ), M.append( z, 0, n2 ) );
	else if ( k == "apps" )
		MUT( E.append( s ), M.append( z ) );
	else if ( k == "appnc" )
		MUT( E.append( few, c ), M.append( few, c ) );
	else if ( k == "appnw" )
		MUT( E.append( few, (String::StringBaseType)w ), M.append( few, (char32_t)w ) );
	else if ( k == "appr" )
		MUT( E.append( li.begin(), li.end() ), M.append( li.begin(), li.end() ) );
	else if ( k == "rep" )
		MUT( E.replace( p1, n1, F ), M.replace( p1, n1, N ) );
	else if ( k == "repi" )
		MUT( E.replace( E.begin() + i1, E.begin() + i2, F ), M.replace( M.begin() + i1, M.begin() + i2, U32( N ) ) );
	else if ( k == "reppn" )
		MUT( E.replace( p1, n1, F, p2, n2 ), M.replace( p1, n1, N, p2, n2 ) );
	else if ( k == "repsn" )
		MUT( E.replace( p1, n1, s, n2 ), M.replace( p1, n1, z, 0, n2 ) );
	else if ( k == "repisn" )
		MUT( E.replace( E.begin() + i1, E.begin() + i2, s, n2 ), M.replace( M.begin() + i1, M.begin() + i2, z.substr( 0, n2 ) ) );
	else if ( k == "reps" )
		MUT( E.replace( p1, n1, s ), M.replace( p1, n1, z ) );
	else if ( k == "repis" )
		MUT( E.replace( E.begin() + i1, E.begin() + i2, s ), M.replace( M.begin() + i1, M.begin() + i2, z ) );
	else if ( k == "repnc" )
		MUT( E.replace( p1, n1, few, c ), M.replace( p1, n1, few, c ) );
	else if ( k == "repinc" )
		MUT( E.replace( E.begin() + i1, E.begin() + i2, few, c ), M.replace( M.begin() + i1, M.begin() + i2, few, c ) );
	else if ( k == "repir" )
		MUT( E.replace( E.begin() + i1, E.begin() + i2, li.begin(), li.end() ), M.replace( M.begin() + i1, M.begin() + i2, li.begin(), li.end() ) );
	else if ( k == "substr" )
		BOTH( return t2s( E.substr( p1, n1 ) ), return t2s( M.substr( p1, n1 ) ) );
	else if ( k == "copyout" ) {
		size_t room = std::min( n1, M.size() );
		std::unique_ptr<char32_t[]> x( new char32_t[room] ), y( new char32_t[room] );
		std::fill( x.get(), x.get() + room, 1 );
		std::fill( y.get(), y.get() + room, 1 );
		BOTH( size_t g = E.copy( x.get(), room, p1 ); return n2s( g ), size_t g = M.copy( y.get(), room, p1 ); return n2s( g ) );
		FAILIF( memcmp( x.get(), y.get(), room * 4 ), "copy wrote something else" );
	} else if ( k == "cmp" )
		BOTH( return sgn( E.compare( F ) ) + sgn( E.compare( s ) ), return sgn( M.compare( N ) ) + sgn( M.compare( z ) ) );
	else if ( k == "cmppn" )
		BOTH( return sgn( E.compare( p1, n1, F ) ), return sgn( M.compare( p1, n1, N ) ) );
	else if ( k == "cmppns" )
		BOTH( return sgn( E.compare( p1, n1, s ) ), return sgn( M.compare( p1, n1, z ) ) );
	else if ( k == "cmppp" )
		BOTH( return sgn( E.compare( p1, n1, F, p2, n2 ) ), return sgn( M.compare( p1, n1, N, p2, n2 ) ) );
	else if ( k == "cmpsn" )
		BOTH( return sgn( E.compare( p1, n1, s, n2 ) ), return sgn( M.compare( p1, n1, z, 0, n2 ) ) );
	else if ( k == "rel" ) {
		std::string x = std::to_string( E == F ) + std::to_string( E != F ) + std::to_string( E < F ) + std::to_string( E > F ) + std::to_string( E <= F ) + std::to_string( E >= F );
		std::string y = std::to_string( M == N ) + std::to_string( M != N ) + std::to_string( M < N ) + std::to_string( M > N ) + std::to_string( M <= N ) + std::to_string( M >= N );
		FAILIF( x != y, "comparison gave %s, %s expected", x.c_str(), y.c_str() );
	} else if ( k == "find" ) {
#define FINDS( NAME )                                                                                                  \
	BOTH( return n2s( E.NAME( String( t ), p1 ) ), return n2s( M.NAME( t, p1 ) ) );                                    \
	BOTH( return n2s( E.NAME( s, p1, n2 ) ), return n2s( M.NAME( z.substr( 0, n2 ), p1 ) ) );                          \
	BOTH( return n2s( E.NAME( s, p1 ) ), return n2s( M.NAME( z, p1 ) ) );                                              \
	BOTH( return n2s( E.NAME( String( t ) ) ), return n2s( M.NAME( t ) ) );                                            \
	BOTH( return n2s( E.NAME( s ) ), return n2s( M.NAME( z ) ) );
		FINDS( find )
		FINDS( rfind )
		FINDS( find_first_of )
		FINDS( find_last_of )
		FINDS( find_first_not_of )
		FINDS( find_last_not_of )
		BOTH( return n2s( E.find( c, p1 ) ) + "," + n2s( E.rfind( c, p1 ) ), return n2s( M.find( c, p1 ) ) + "," + n2s( M.rfind( c, p1 ) ) );
		BOTH( return n2s( E.find( c ) ) + "," + n2s( E.rfind( c ) ), return n2s( M.find( c ) ) + "," + n2s( M.rfind( c ) ) );
		String::StringBaseType W = w;
		BOTH( return n2s( E.find_first_of( W, p1 ) ) + "," + n2s( E.find_last_of( W, p1 ) ), return n2s( M.find_first_of( W, p1 ) ) + "," + n2s( M.find_last_of( W, p1 ) ) );
		BOTH( return n2s( E.find_first_not_of( W, p1 ) ) + "," + n2s( E.find_last_not_of( W, p1 ) ), return n2s( M.find_first_not_of( W, p1 ) ) + "," + n2s( M.find_last_not_of( W, p1 ) ) );
	} else if ( k == "split" ) {
		for ( int push = 0; push < 2; push++ ) {
			auto want = refSplit( M, w, push );
			std::vector<String> got = String::split( E, (efsw::Uint32)w, (bool)push );
			FAILIF( got.size() != want.size(), "split made %zu pieces, %zu expected", got.size(), want.size() );
			for ( size_t i = 0; i < got.size(); i++ )
				FAILIF( t2s( got[i] ) != t2s( want[i] ), "split: piece %zu is %s, %s expected", i, t2s( got[i] ).c_str(), t2s( want[i] ).c_str() );
			std::vector<std::string> gb = String::split( u8( M ), c, (bool)push );
			want = refSplit( M, c, push );
			FAILIF( gb.size() != want.size(), "split of bytes made %zu pieces, %zu expected", gb.size(), want.size() );
			for ( size_t i = 0; i < gb.size(); i++ )
				FAILIF( gb[i] != u8( want[i] ), "split of bytes: piece %zu is wrong", i );
		}
	} else if ( k == "starts" ) {
		for ( auto& st : { t, N, M.substr( 0, std::min( M.size(), few ) ) } ) {
			bool is = !st.empty() && M.size() >= st.size() && M.compare( 0, st.size(), st ) == 0;
			int g = String::strStartsWith( String( st ), E ), h = String::strStartsWith( u8( st ), u8( M ) );
			FAILIF( ( g >= 0 ) != is || ( h >= 0 ) != is, "strStartsWith( %s, %s ) gave %d and %d", t2s( st ).c_str(), t2s( M ).c_str(), g, h );
		}
	} else if ( k == "tostr" ) {
		long v = (long)p1 * 65536 + n1 % 65536;
		int x = 0;
		FAILIF( String::toStr( v ) != std::to_string( v ), "toStr is wrong" );
		FAILIF( !String::fromString( x, String::toStr( (int)n1 % 100000 ) ) || x != (int)n1 % 100000, "fromString is wrong" );
		x = 0;
		FAILIF( !String::fromString( x, String( String::toStr( (int)n1 % 100000 ) ) ) || x != (int)n1 % 100000, "fromString is wrong" );
		FAILIF( String::fromString( x, std::string( "zz" ) ), "fromString accepts anything" );
	} else
		return;
	state( k.c_str() );
}
const char* OPS[] = { "set",  "setc",  "copy",	"utf8",	 "cat",	  "catc",	"plus",	 "push",   "swap",	"clear",  "index",	 "at",	  "erase",	"erase1", "ins",   "inspn", "inssn", "inss",	 "insnc", "insic",
					  "insinc", "insir", "resize", "resizec", "reserve", "asg",	 "asgpn", "asgsn", "asgs",	 "asgnc",  "asgr",	"app",	  "apppn",	 "appsn", "apps",	"appnc",  "appnw", "appr",	"rep",	 "repi",
					  "reppn",	"repsn", "repisn", "reps",	  "repis",	 "repnc", "repinc", "repir", "substr", "copyout", "cmp", "cmppn", "cmppns", "cmppp", "cmpsn", "rel",	 "find", "split", "starts", "tostr" };

// -- cases -----------------------------------------------------------------------------------------------------------
template <class T> std::vector<T> unhex( const std::string& s, int digits ) {
	std::vector<T> v;
	for ( size_t i = 0; i + digits <= s.size(); i += digits )
		v.push_back( (T)strtoul( s.substr( i, digits ).c_str(), nullptr, 16 ) );
	return v;
}
void line( Strings& S, const std::string& l, std::map<std::string, long>& st ) {
	std::istringstream is( l );
	std::string k;
	is >> k;
	std::vector<std::string> a;
	std::string w;
	while ( is >> w )
		a.push_back( w );
	if ( k.empty() || k[0] == '#' )
		return;
	std::string a0 = a.empty() ? "" : a[0];
	st["op_" + k]++;
	if ( k == "dec8" ) {
		auto v = unhex<uint8_t>( a0, 2 );
		dec8( std::string( v.begin(), v.end() ) );
	} else if ( k == "dec16" )
		dec16( unhex<uint16_t>( a0, 4 ) );
	else if ( k == "dec32" )
		dec32( unhex<uint32_t>( a0, 8 ) );
	else if ( k == "scal" ) {
		auto v = unhex<uint32_t>( a0, 8 );
		v.erase( std::remove_if( v.begin(), v.end(), []( uint32_t c ) { return !scalar( c ); } ), v.end() );
		scal( v );
	} else if ( k == "range" ) { // every code point of a range, alone and together
		uint32_t lo = strtoul( a0.c_str(), nullptr, 16 ), hi = a.size() > 1 ? strtoul( a[1].c_str(), nullptr, 16 ) : lo;
		Cps all;
		for ( uint32_t c = lo; c <= hi && c - lo < 0x2000; c++ ) {
			dec32( { c } );
			st["code_points"]++;
			if ( scalar( c ) ) {
				try {
					scal( { c } );
				} catch ( Bad& b ) {
					throw Bad{ sfmt( "U+%04X: %s", c, b.what.c_str() ) };
				}
				all.push_back( c );
			}
		}
		scal( all );
	} else if ( k == "all3" ) { // every continuation of a lead byte by two bytes, and by a third one of few
		uint8_t lead = strtoul( a0.c_str(), nullptr, 16 );
		static const uint8_t third[] = { 0x00, 0x41, 0x7f, 0x80, 0xbf, 0xc3, 0xf0 };
		uint8_t lo = a.size() > 1 ? strtoul( a[1].c_str(), nullptr, 16 ) : 0;
		uint8_t hi = a.size() > 2 ? strtoul( a[2].c_str(), nullptr, 16 ) : 255;
		for ( int x = lo; x <= hi; x++ )
			for ( int y = 0; y < 256; y++ )
				for ( int z = -1; z < (int)sizeof third; z++ ) {
					uint8_t b[4] = { lead, (uint8_t)x, (uint8_t)y, z >= 0 ? third[z] : (uint8_t)0 };
					size_t n = z >= 0 ? 4 : 3;
					std::unique_ptr<uint8_t[]> h( new uint8_t[n] );
					memcpy( h.get(), b, n );
					st["byte_sequences"]++;
					try {
						walk<efsw::Utf8>( "UTF-8", h.get(), h.get() + n, n, refDecode( h.get(), n, wf8 ), NOCHAR );
					} catch ( Bad& e ) {
						throw Bad{ show( b, n ) + ": " + e.what };
					}
				}
	} else if ( k == "all16" ) { // a unit followed by every unit
		uint16_t first = strtoul( a0.c_str(), nullptr, 16 );
		for ( int x = 0; x < 0x10000; x++ ) {
			uint16_t b[2] = { first, (uint16_t)x };
			std::unique_ptr<uint16_t[]> h( new uint16_t[2] );
			memcpy( h.get(), b, 4 );
			st["unit_pairs"]++;
			try {
				walk<efsw::Utf16>( "UTF-16", h.get(), h.get() + 2, 2, refDecode( h.get(), 2, wf16 ), NOCHAR );
			} catch ( Bad& e ) {
				throw Bad{ sfmt( "%04x %04x: ", first, x ) + e.what };
			}
		}
	} else if ( k == "s" ) {
		std::string o = a0;
		if ( !a.empty() )
			a.erase( a.begin() );
		S.op( o, a );
	}
}

uint32_t someCp( Rng& r ) {
	static const uint32_t edge[] = { 0,		 1,		 0x7f,	 0x80,	 0x7ff,	 0x800,	 0xfff,	  0x1000,	0xcfff,	 0xd000,   0xd7ff,
									 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x1f600, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff };
	switch ( r.below( 6 ) ) {
		case 0:
			return edge[r.below( sizeof edge / 4 )];
		case 1:
			return 0x20 + r.below( 0x5f );
		case 2:
			return 0x80 + r.below( 0x780 );
		case 3:
			return 0x800 + r.below( 0xd000 );
		case 4:
			return 0x10000 + r.below( 0x100000 );
		default:
			return "abc/."[r.below( 5 )];
	}
}
std::string hexs( uint32_t v, int d ) {
	return sfmt( "%0*X", d, v );
}
std::string genStr( uint64_t seed, uint64_t idx ) {
	Rng r( seed * 0x9e3779b97f4a7c15ull + idx * 0xd1342543de82ef95ull + 23 );
	r.next();
	std::string out;
	// the first cases enumerate: 272 of code points, 256 of lead bytes, then some first units
	if ( idx < 272 )
		return sfmt( "range %X %X\n", (unsigned)idx * 0x1000, (unsigned)idx * 0x1000 + 0xfff ) + ( idx == 271 ? "range 110000 1100ff\nrange FFFFFF00 FFFFFFFF\n" : "" );
	if ( idx < 528 )
		return sfmt( "all3 %02X\n", (unsigned)idx - 272 );
	if ( idx < 560 )
		return sfmt( "all16 %04X\n", idx & 1 ? 0xD800 + (unsigned)r.below( 0x800 ) : std::vector<unsigned>{ 0, 0x41, 0xD7FF, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xE000, 0xFFFF }[( idx - 528 ) / 2 % 9] );
	int n = r.range( 1, 14 );
	int kind = r.below( 5 );
	for ( int i = 0; i < n; i++ ) {
		if ( kind == 0 ) { // bytes: valid text with damage
			std::string s;
			int m = r.range( 0, 12 );
			for ( int j = 0; j < m; j++ ) {
				if ( r.chance( 1, 3 ) )
					for ( int q = r.range( 1, 5 ); q > 0; q-- )
						s += (char)( r.chance( 1, 2 ) ? 0x80 + r.below( 64 ) : r.chance( 2, 3 ) ? 0xC0 + r.below( 64 ) : r.below( 256 ) );
				else {
					std::string e = ref8( someCp( r ) );
					if ( r.chance( 1, 4 ) )
						e = e.substr( 0, r.range( 1, e.size() ) );
					if ( r.chance( 1, 6 ) )
						e[r.below( e.size() )] ^= 1 << r.below( 8 );
					s += e;
				}
			}
			std::string h;
			for ( uint8_t b : s )
				h += hexs( b, 2 );
			out += "dec8 " + h + "\n";
		} else if ( kind == 1 ) {
			std::string h;
			for ( int m = r.range( 0, 10 ); m > 0; m-- )
				if ( r.chance( 1, 3 ) )
					h += hexs( 0xD800 + r.below( 0x800 ), 4 );
				else
					for ( auto u : ref16( someCp( r ) ) )
						h += hexs( u, 4 );
			out += "dec16 " + h + "\n";
		} else if ( kind == 2 ) {
			std::string h;
			for ( int m = r.range( 0, 10 ); m > 0; m-- )
				h += hexs( r.chance( 1, 4 ) ? (uint32_t)r.next() >> r.below( 20 ) : r.chance( 1, 4 ) ? 0xD800 + r.below( 0x800 ) : someCp( r ), 8 );
			out += "dec32 " + h + "\n";
		} else if ( kind == 3 ) {
			std::string h;
			uint32_t lim = r.chance( 1, 3 ) ? 0x7f : r.chance( 1, 3 ) ? 0xff : 0x10ffff;
			for ( int m = r.range( 0, 30 ); m > 0; m-- ) {
				uint32_t c = someCp( r );
				h += hexs( c <= lim ? c : 1 + r.below( lim ), 8 );
			}
			out += "scal " + h + "\n";
		} else {
			auto pos = [&] { return r.chance( 1, 10 ) ? std::string( "npos" ) : std::to_string( r.below( r.chance( 1, 4 ) ? 30 : 6 ) ); };
			std::string t;
			for ( int m = r.range( 0, 5 ); m > 0; m-- )
				t += hexs( someCp( r ), 1 ) + ".";
			if ( t.empty() )
				t = "-";
			for ( int rep = r.range( 1, 3 ); rep > 0; rep-- )
				out += std::string( "s " ) + OPS[r.below( sizeof OPS / sizeof *OPS )] + " " + std::to_string( r.below( 3 ) ) + " " + std::to_string( r.below( 3 ) ) + " " + pos() + " " + pos() + " " + pos() + " " + pos() + " " + t + " " + hexs( "abc/.\0"[r.below( 6 )], 2 ) + "\n";
		}
	}
	return out;
}
} // namespace

#ifndef STR_FUZZ
std::string genText( const std::string&, uint64_t seed, uint64_t idx ) {
	return genStr( seed, idx );
}
std::string ruleText( const std::string& ) {
	return "Cases 0-559 enumerate: every code point through every pair of encodings, every lead byte with every two bytes (and a third) after it, first UTF-16 units "
		   "with every second one. The others are lists of conversions of damaged UTF-8, UTF-16, UTF-32 or scalar values, or operations on three strings and their "
		   "std::u32string models. Non-trivial: at least one line that was executed; counted distinct by text.";
}
CaseResult execCase( const std::string&, const std::string&, const std::string& text, bool verbose ) {
	CaseResult res;
	Strings S;
	std::istringstream is( text );
	std::string l;
	while ( std::getline( is, l ) ) {
		if ( verbose )
			printf( "%s\n", l.c_str() );
		try {
			line( S, l, res.stats );
			res.nontrivial = res.nontrivial || l.size() > 6;
		} catch ( Bad& b ) {
			res.ok = false;
			res.msg = l.substr( 0, 60 ) + ": " + b.what;
			return res;
		}
	}
	return res;
}
#else
// libFuzzer target: the first byte selects the conversion; the failing line is left in $STR_FUZZ_OUT
extern "C" int LLVMFuzzerTestOneInput( const uint8_t* d, size_t n ) {
	if ( !n || n > 4096 )
		return 0;
	std::string text;
	int k = d[0] % 5;
	static const char* names[] = { "dec8 ", "dec16 ", "dec32 ", "scal ", "s " };
	if ( k < 4 ) {
		text = names[k];
		int w = k == 0 ? 1 : k == 1 ? 2 : 4;
		for ( size_t i = 1; i + w <= n; i += w ) {
			uint32_t v = 0;
			for ( int j = 0; j < w; j++ )
				v = v * 256 + d[i + j];
			text += hexs( k == 3 ? v % 0x110000 : v, 2 * w );
		}
	} else
		for ( size_t i = 1; i + 10 <= n && i < 300; i += 10 ) {
			const uint8_t* p = d + i;
			text += sfmt( "s %s %d %d %d %d %d %d %X.%X.%X. %02X\n", OPS[p[0] % ( sizeof OPS / sizeof *OPS )], p[1] % 3, p[1] / 3 % 3, p[2] % 40, p[3] % 40, p[4] % 40, p[5] % 40, p[6] * 256 + p[7], p[8] * 4369 % 0xd000, p[7], p[9] );
		}
	const char* f = getenv( "STR_FUZZ_OUT" );
	if ( f ) { // also there if a sanitizer ends the process
		static FILE* h = fopen( f, "w" );
		rewind( h );
		fwrite( text.data(), 1, text.size(), h );
		fflush( h );
		if ( ftruncate( fileno( h ), text.size() ) )
			return 0;
	}
	Strings S;
	std::istringstream is( text );
	std::string l;
	std::map<std::string, long> st;
	while ( std::getline( is, l ) )
		try {
			line( S, l, st );
		} catch ( Bad& b ) {
			fprintf( stderr, "FAIL %s\n", b.what.c_str() );
			abort();
		}
	return 0;
}
#endif
