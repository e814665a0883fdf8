// Contracts of the buffer operations (src/bufferManipulation.hpp) over MallocBuffer, and of StackBuffer.
#include "vspec.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
namespace la = LvArray;
namespace bm = LvArray::bufferManipulation;
using Space = la::MemorySpace;

namespace
{
using Buf = la::MallocBuffer< Tr >;
// A buffer that owns storage for cap elements, the first n of them live; or the empty buffer without storage.
struct Owner
{
  I n, cap; Tr * p; Tr const * o; I heap;
  union { struct { Tr * p; I c; } raw; char room[ sizeof( Buf ) ]; };
  Owner( I size, I capacity )
  {
    static_assert( sizeof( raw ) == sizeof( Buf ), "" );
    n = size; cap = capacity; v_assume( n <= cap );
    p = live( "buf", cap, n ); o = snap( p ); heap = v_heap_live();
    v_own( p ); raw.p = p; raw.c = cap;
    v_assert( b().data() == p && b().capacity() == cap, "the state of a buffer is its storage and its capacity" );
  }
  Buf & b() { return reinterpret_cast< Buf & >( raw ); }
  // the buffer owns one block, which holds exactly these elements
  template< typename F > void holds( char const * why, I m, F && f )
  {
    Tr const * const q = b().data(); I const c = b().capacity();
    v_assert( v_heap_live() == heap + 1, "exactly one allocation is owned" );
    v_assert( m <= c, "the capacity holds the elements" );
    check_forall( why, 0, m, [&]( I j ) { return f( q, j ); } );
    check_forall( "nothing is live beyond the elements", m, c, [&]( I j ) { return cell( q, j ) == 0; } );
  }
};
#ifdef LV_VERIFY
I size( char const * n ) { return nd( n, 0, VMAX ); }
#else
I size( char const * n ) { return nd( n, 0, 100 ); }      // (storage has to exist when run natively)
#endif
constexpr char const * KEEP = "the elements that fit are kept, in order";
}

HARNESS( setCapacity )
{
  Owner w( size( "size" ), size( "cap" ) ); I const c = size( "newCapacity" );
  bm::setCapacity( w.b(), w.n, Space::host, c );
  v_assert( w.b().capacity() == c, "the capacity is the one asked for" );
  w.holds( KEEP, w.n < c ? w.n : c, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( w.o, j ); } );
}
HARNESS( setCapacity_empty )
{
  Buf b; I const heap = v_heap_live(), c = size( "newCapacity" );
  v_assert( b.data() == nullptr && b.capacity() == 0, "a new buffer owns nothing" );
  bm::setCapacity( b, 0, Space::host, c );
  v_assert( b.capacity() == c && v_heap_live() == heap + 1, "the capacity is the one asked for" );
  bm::free( b, 0 );
  v_assert( b.data() == nullptr && b.capacity() == 0 && v_heap_live() == heap, "a freed buffer owns nothing" );
}
HARNESS( setCapacity_space )
{
  Owner w( size( "size" ), size( "cap" ) ); int const s = int( nd( "space", 0, 5 ) );
  v_abort_ok( s != int( Space::host ) );
  bm::setCapacity( w.b(), w.n, Space( s ), w.cap );
  v_assert( s == int( Space::host ), "storage elsewhere is refused" );
}
HARNESS( reserve )
{
  Owner w( size( "size" ), size( "cap" ) ); I const c = size( "newCapacity" );
  bm::reserve( w.b(), w.n, Space::host, c );
  v_assert( w.b().capacity() >= c && w.b().capacity() >= w.cap, "the capacity suffices and is not reduced" );
  w.holds( KEEP, w.n, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( w.o, j ); } );
}
HARNESS( dynamicReserve )
{
  Owner w( size( "size" ), size( "cap" ) ); I const c = size( "newCapacity" );
  bm::dynamicReserve( w.b(), w.n, c );
  v_assert( w.b().capacity() >= c && w.b().capacity() >= w.cap, "the capacity suffices and is not reduced" );
  w.holds( KEEP, w.n, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( w.o, j ); } );
}
HARNESS( resize )
{
  Owner w( size( "size" ), size( "cap" ) ); I const m = size( "newSize" ), x = val( "x" );
  bm::resize( w.b(), w.n, m, x );
  v_assert( w.b().capacity() >= w.cap, "the capacity is not reduced" );
  w.holds( "elements that fit are kept, new ones have the value", m, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < w.n ? cell( w.o, j ) : x ); } );
}
HARNESS( resize_default )
{
  Owner w( size( "size" ), size( "cap" ) ); I const m = size( "newSize" );
  bm::resize( w.b(), w.n, m );
  v_assert( w.b().capacity() >= w.cap, "the capacity is not reduced" );
  w.holds( "elements that fit are kept, new ones are default constructed", m, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < w.n ? cell( w.o, j ) : 2 ); } );
}
HARNESS( emplaceBack )
{
  Owner w( size( "size" ), size( "cap" ) ); I const x = val( "x" );
  bm::emplaceBack( w.b(), w.n, x );
  w.holds( "the value is appended", w.n + 1, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < w.n ? cell( w.o, j ) : x ); } );
}
HARNESS( emplace )
{
  Owner w( size( "size" ), size( "cap" ) ); I const x = val( "x" ), at = size( "pos" ); v_assume( at <= w.n );
  bm::emplace( w.b(), w.n, at, x );
  w.holds( "the value is inserted at the position", w.n + 1, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < at ? cell( w.o, j ) : j == at ? x : cell( w.o, j - 1 ) ); } );
}
HARNESS( insert )
{
  Owner w( size( "size" ), size( "cap" ) ); I const k = size( "n" ), at = size( "pos" ); v_assume( at <= w.n );
  Tr const * const f = live( "src", k, k ), * const fo = snap( f );
  I const r = bm::insert( w.b(), w.n, at, f, f + k );
  v_assert( r == k, "the number of inserted values is returned" );
  w.holds( "the values are inserted at the position", w.n + k, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < at ? cell( w.o, j ) : j < at + k ? cell( fo, j - at ) : cell( w.o, j - k ) ); } );
  check_forall( "the source is unchanged", 0, k, [&]( I j ) { return cell( f, j ) == cell( fo, j ); } );
}
HARNESS( popBack )
{
  Owner w( size( "size" ), size( "cap" ) ); v_assume( w.n > 0 );
  bm::popBack( w.b(), w.n );
  v_assert( w.b().capacity() == w.cap, "the capacity is kept" );
  w.holds( "the others are kept", w.n - 1, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( w.o, j ); } );
}
HARNESS( erase )
{
  Owner w( size( "size" ), size( "cap" ) ); I const at = size( "pos" );
  v_abort_ok( at >= w.n );
  bm::erase( w.b(), w.n, at );
  v_assert( at < w.n, "erasing what is not there is reported" );
  v_assert( w.b().capacity() == w.cap, "the capacity is kept" );
  w.holds( "the others are kept, in order", w.n - 1, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( w.o, j < at ? j : j + 1 ); } );
}
HARNESS( free )
{
  Owner w( size( "size" ), size( "cap" ) );
  bm::free( w.b(), w.n );
  v_assert( v_heap_live() == w.heap, "the allocation is freed" );
  v_assert( w.b().data() == nullptr && w.b().capacity() == 0, "a freed buffer owns nothing" );
}
HARNESS( copyInto )
{
  Owner w( size( "size" ), size( "cap" ) ); I const k = size( "n" ), kc = size( "srccap" ); v_assume( k <= kc );
  struct { Tr * p; I c; } raw{ live( "src", kc, k ), kc }; Tr const * const fo = snap( static_cast< Tr const * >( raw.p ) );
  Buf const & src = reinterpret_cast< Buf const & >( raw );
  bm::copyInto( w.b(), w.n, src, k );
  w.holds( "the copy has the values of the source", k, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( fo, j ); } );
  v_assert( src.data() == raw.p && src.capacity() == kc, "the source is unchanged" );
  check_forall( "the values of the source are unchanged", 0, k, [&]( I j ) { return cell( raw.p, j ) == cell( fo, j ); } );
}
HARNESS( handles )
{
  Owner w( size( "size" ), size( "cap" ) );
  Buf a( w.b() ), c( w.b(), w.n ), d;
  v_assert( a.data() == w.p && a.capacity() == w.cap && c.data() == w.p && c.capacity() == w.cap, "a copy refers to the same storage" );
  d = a; v_assert( d.data() == w.p && d.capacity() == w.cap, "an assigned copy refers to the same storage" );
  Buf e( std::move( a ) ); v_assert( e.data() == w.p && e.capacity() == w.cap && a.data() == nullptr && a.capacity() == 0, "a moved-from buffer owns nothing" );
  d = std::move( e ); v_assert( d.data() == w.p && d.capacity() == w.cap && e.data() == nullptr && e.capacity() == 0, "a moved-from buffer owns nothing" );
  la::MallocBuffer< Tr const > const g( d ); v_assert( g.data() == w.p && g.capacity() == w.cap, "a buffer of constants refers to the same storage" );
  w.holds( KEEP, w.n, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( w.o, j ); } );
  I const at = size( "pos" ); v_assume( at < w.cap ); v_assert( &d[ at ] == w.p + at, "indexing addresses the storage" );
}
HARNESS( spaces )
{
  Buf b; int const s = int( nd( "space", 0, 5 ) ), which = int( nd( "which", 0, 2 ) );
  v_assert( b.getPreviousSpace() == Space::host, "the data is on the host" );
  v_abort_ok( s != int( Space::host ) );
  if( which == 0 ) b.move( Space( s ), true ); else if( which == 1 ) b.moveNested( Space( s ), 0, true ); else b.registerTouch( Space( s ) );
  v_assert( s == int( Space::host ), "other memory spaces are refused" );
}
HARNESS( stack )
{
  constexpr int N = 5;
  la::StackBuffer< I, N > b; I x[ N ]; I const n = nd( "size", 0, N ), c = nd( "newCapacity", 0, VMAX ), k = nd( "k", 0, N - 1 );
  for( int i = 0; i < N; ++i ) { x[ i ] = nd( "x" ); b[ i ] = x[ i ]; }
  v_assert( b.capacity() == N && &b[ k ] == b.data() + k, "the capacity is fixed" );
  la::StackBuffer< I, N > const a( b, n );
  v_assert( a.data() != b.data() && ( k >= n || a[ k ] == x[ k ] ), "a copy has its own elements" );
  v_abort_ok( c > N );
  int const which = int( nd( "which", 0, 3 ) );
  if( which == 0 ) bm::setCapacity( b, n, Space::host, c );
  else if( which == 1 ) bm::reserve( b, n, Space::host, c );
  else if( which == 2 ) bm::dynamicReserve( b, n, c );
  else { bm::resize( b, n, c, I( 7 ) ); v_assert( c > N || k < n || k >= c || b[ k ] == 7, "new elements have the value" ); }
  v_assert( c <= N, "growth beyond the capacity is reported" );
  v_assert( b.capacity() == N && ( k >= n || k >= c || b[ k ] == x[ k ] ), "the elements are kept" );
}
