// Contracts of one-dimensional LvArray::Array over MallocBuffer (src/Array.hpp): growth operations, copies, moves, lifetime.
#include "vspec.hpp"
#include "Array.hpp"
#include "SortedArray.hpp"
#include "MallocBuffer.hpp"
namespace la = LvArray;

namespace
{
using Base = la::Array< Tr, 1, camp::idx_seq< 0 >, I, la::MallocBuffer >;
using Buf = la::MallocBuffer< Tr >;
#ifdef LV_VERIFY
I size( char const * n ) { return nd( n, 0, VMAX ); }
#else
I size( char const * n ) { return nd( n, 0, 60 ); }      // (storage has to exist when run natively)
#endif
// An array of n arbitrary elements in storage for cap (or without storage): the class invariant.
struct Ghost { I n, cap, heap; Tr const * p, * o; };
struct A : Base
{
  A( Ghost & g, I n, I cap )
  {
    v_assert( this->size() == 0 && this->data() == nullptr && this->capacity() == 0 && this->strides()[ 0 ] == 1, "a new array is empty" );
    v_assume( n <= cap );
    Tr * const p = live( "a", cap, n );
    g.n = n; g.cap = cap; g.heap = v_heap_live(); g.p = p; g.o = snap( p );
    v_own( p );
    struct { Tr * p; I c; } raw{ p, cap };
    static_assert( sizeof( raw ) == sizeof( Buf ), "" );
    this->m_dataBuffer = reinterpret_cast< Buf const & >( raw );
    this->m_dims[ 0 ] = n;
    v_assert( this->data() == p && this->capacity() == cap && this->size() == n, "the state of an array is its storage, capacity and size" );
  }
};
// a holds m elements, the j-th one f(j), in one block of storage
template< typename F > void holds( Base const & a, Ghost const & g, char const * why, I m, F && f )
{
  Tr const * const q = a.data(); I const c = a.capacity();
  v_assert( a.size() == m && a.size( 0 ) == m && a.dims()[ 0 ] == m && a.empty() == ( m == 0 ) && a.end() == q + m, "the size is right" );
  v_assert( a.strides()[ 0 ] == 1 && a.getSingleParameterResizeIndex() == 0, "the elements are contiguous" );
  v_assert( m <= c, "the capacity holds the elements" );
  v_assert( v_heap_live() == g.heap + 1, "exactly one allocation is owned" );
  check_forall( why, 0, m, [&]( I j ) { return f( q, j ); } );
  check_forall( "nothing is live beyond the elements", m, c, [&]( I j ) { return cell( q, j ) == 0; } );
}
#define OLD( j ) cell( g.o, j )
}

HARNESS( emplace_back )
{ Ghost g; I const x = val( "x" ); { A a( g, size( "size" ), size( "cap" ) ); a.emplace_back( x );
  holds( a, g, "the value is appended", g.n + 1, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < g.n ? OLD( j ) : x ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( emplace )
{ Ghost g; I const x = val( "x" ), at = size( "pos" ); { A a( g, size( "size" ), size( "cap" ) ); v_assume( at <= g.n ); a.emplace( at, x );
  holds( a, g, "the value is inserted", g.n + 1, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < at ? OLD( j ) : j == at ? x : OLD( j - 1 ) ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( insert )
{ Ghost g; I const k = size( "n" ), at = size( "pos" ); Tr const * const f = live( "src", k, k ), * const fo = snap( f );
  { A a( g, size( "size" ), size( "cap" ) ); v_assume( at <= g.n ); a.insert( at, f, f + k );
  holds( a, g, "the values are inserted", g.n + k, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < at ? OLD( j ) : j < at + k ? cell( fo, j - at ) : OLD( j - k ) ); } ); }
  check_forall( "the source is unchanged", 0, k, [&]( I j ) { return cell( f, j ) == cell( fo, j ); } ); }
HARNESS( pop_back )
{ Ghost g; { A a( g, size( "size" ), size( "cap" ) ); v_assume( g.n > 0 ); a.pop_back();
  v_assert( a.capacity() == g.cap, "the capacity is kept" );
  holds( a, g, "the others are kept", g.n - 1, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( erase )
{ Ghost g; I const at = size( "pos" ); { A a( g, size( "size" ), size( "cap" ) ); v_abort_ok( at >= g.n ); a.erase( at );
  v_assert( at < g.n, "erasing what is not there is reported" );
  v_assert( a.capacity() == g.cap, "the capacity is kept" );
  holds( a, g, "the others are kept, in order", g.n - 1, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j < at ? j : j + 1 ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( resize )
{ Ghost g; I const m = nd( "negative", 0, 1 ) ? nd( "newSize", -5, -1 ) : size( "newSize" ); { A a( g, size( "size" ), size( "cap" ) ); v_abort_ok( m < 0 ); a.resize( m );
  v_assert( m >= 0, "a negative size is reported" ); v_assert( a.capacity() >= g.cap, "the capacity is not reduced" );
  holds( a, g, "those that fit are kept, new ones are default constructed", m, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < g.n ? OLD( j ) : 2 ); } ); } }
HARNESS( resizeDefault )
{ Ghost g; I const m = size( "newSize" ); { A a( g, size( "size" ), size( "cap" ) ); I const xv = val( "x" ); Tr const x( xv ); a.resizeDefault( m, x );
  v_assert( a.capacity() >= g.cap, "the capacity is not reduced" );
  holds( a, g, "those that fit are kept, new ones have the value", m, [&]( Tr const * q, I j ) { return cell( q, j ) == ( j < g.n ? OLD( j ) : xv ); } ); } }
HARNESS( reserve )
{ Ghost g; I const c = size( "newCapacity" ); { A a( g, size( "size" ), size( "cap" ) ); a.reserve( c );
  v_assert( a.capacity() >= c && a.capacity() >= g.cap, "the capacity suffices and is not reduced" );
  holds( a, g, "the elements are kept", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); } }
HARNESS( clear )
{ Ghost g; { A a( g, size( "size" ), size( "cap" ) ); a.clear(); v_assert( a.capacity() == g.cap, "the capacity is kept" );
  holds( a, g, "empty", 0, [&]( Tr const *, I ) { return true; } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
// from an array that never had storage
HARNESS( fresh )
{ I const heap = v_heap_live(), m = size( "newSize" ), which = nd( "which", 0, 3 ), x = val( "x" ); Ghost g{ 0, 0, heap, nullptr, nullptr };
  {
    Base a;
    if( which == 0 ) { a.emplace_back( x ); holds( a, g, "the value is appended", 1, [&]( Tr const * q, I j ) { return cell( q, j ) == x; } ); }
    else if( which == 1 ) { Tr const * const f = live( "src", m, m ); v_assume( m > 0 ); a.insert( 0, f, f + m ); holds( a, g, "the values are inserted", m, [&]( Tr const * q, I j ) { return cell( q, j ) == cell( f, j ); } ); }
    else if( which == 2 ) { v_assume( m > 0 ); a.resize( m ); holds( a, g, "new elements are default constructed", m, [&]( Tr const * q, I j ) { return cell( q, j ) == 2; } ); }
    else { v_assume( m > 0 ); Base b( m ); v_assert( b.size() == m, "sized on construction" ); check_forall( "elements are default constructed", 0, m, [&]( I j ) { return cell( b.data(), j ) == 2; } ); }
  }
  v_assert( v_heap_live() == heap, "destruction frees the storage" ); }
HARNESS( element )
{ Ghost g; I const i = size( "i" ); A a( g, size( "size" ), size( "cap" ) ); v_assume( i < g.n );
  v_assert( &a[ i ] == g.p + i && &a( i ) == g.p + i && a.begin() == g.p && a.end() == g.p + g.n && &a.front() == g.p && &a.back() == g.p + ( g.n - 1 ), "elements are found by their index" );
  holds( a, g, "access changes nothing", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
// copies and moves
HARNESS( copy_construct )
{ Ghost g; { A a( g, size( "size" ), size( "cap" ) ); {
    Base b( static_cast< Base const & >( a ) ); Ghost h{ g.n, 0, g.heap + ( g.n > 0 ), nullptr, nullptr };
    if( g.n > 0 ) { v_assert( b.data() != a.data(), "a copy has its own storage" );
      holds( b, h, "a copy has equal elements", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
    v_assert( b.size() == g.n, "a copy has the size" ); }
  holds( a, g, "the source is unchanged, also after the copy is gone", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( copy_assign )
{ Ghost g, h; { A a( g, size( "size" ), size( "cap" ) ); A b( h, size( "size2" ), size( "cap2" ) );
  static_cast< Base & >( b ) = static_cast< Base const & >( a );
  v_assert( b.data() != a.data(), "a copy has its own storage" );
  holds( b, h, "a copy has equal elements", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } );
  v_assert( a.data() == g.p && a.size() == g.n && a.capacity() == g.cap, "the source is unchanged" );
  check_forall( "the elements of the source are unchanged", 0, g.n, [&]( I j ) { return cell( g.p, j ) == OLD( j ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( copy_assign_self )
{ Ghost g; { A a( g, size( "size" ), size( "cap" ) ); Base & b = a; b = static_cast< Base const & >( a );
  holds( a, g, "the elements are kept", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
#define LEFT_EMPTY( x ) v_assert( x.data() == nullptr && x.capacity() == 0 && x.size() == 0 && x.size( 0 ) == 0 && x.empty() && x.strides()[ 0 ] == 1, "the source is left empty and usable" )
HARNESS( move_construct )
{ Ghost g; { A a( g, size( "size" ), size( "cap" ) ); { Base b( std::move( static_cast< Base & >( a ) ) );
  v_assert( b.data() == g.p && b.capacity() == g.cap, "the storage is transferred" ); LEFT_EMPTY( a );
  holds( b, g, "the elements are transferred", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
  v_assert( v_heap_live() == g.heap, "a moved-from array owns nothing" ); }
HARNESS( move_assign )
{ Ghost g, h; { A b( h, size( "size2" ), size( "cap2" ) ); { A a( g, size( "size" ), size( "cap" ) );
    static_cast< Base & >( b ) = std::move( static_cast< Base & >( a ) );
    v_assert( b.data() == g.p && b.capacity() == g.cap, "the storage is transferred" ); LEFT_EMPTY( a ); }
  holds( b, h, "what the target owned is released; the elements are transferred, also after the source is gone", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
  v_assert( v_heap_live() == h.heap, "destruction frees the storage" ); }
HARNESS( move_assign_to_empty )
{ Ghost g; { Base b; { A a( g, size( "size" ), size( "cap" ) ); b = std::move( static_cast< Base & >( a ) );
  v_assert( b.data() == g.p && b.capacity() == g.cap, "the storage is transferred" ); LEFT_EMPTY( a ); }
  holds( b, g, "the elements are transferred, also after the source is gone", g.n, [&]( Tr const * q, I j ) { return cell( q, j ) == OLD( j ); } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( move_assign_from_empty )
{ Ghost g; { A a( g, size( "size" ), size( "cap" ) ); Base b; static_cast< Base & >( a ) = std::move( b ); LEFT_EMPTY( a ); LEFT_EMPTY( b );
  v_assert( v_heap_live() == g.heap, "what the target owned is released" ); }
  v_assert( v_heap_live() == g.heap, "nothing is freed twice" ); }
HARNESS( moved_from_is_usable )
{ Ghost g; I const x = val( "x" ), mode = nd( "mode", 0, 1 ); { A a( g, size( "size" ), size( "cap" ) ); Base b;
  if( mode ) b = std::move( static_cast< Base & >( a ) );
  else { Base c( std::move( static_cast< Base & >( a ) ) ); }
  Ghost k{ 0, 0, g.heap + mode, nullptr, nullptr };
  a.emplace_back( x ); holds( a, k, "a moved-from array can be filled again", 1, [&]( Tr const * q, I j ) { return cell( q, j ) == x; } ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }

// two dimensions, the inner extent 3, either order in memory
namespace
{
template< typename P > struct M : la::Array< Tr, 2, P, I, la::MallocBuffer >
{
  using B = la::Array< Tr, 2, P, I, la::MallocBuffer >;
  B & base() { return *this; }
  M( Ghost & g, I n, I cap )
  {
    n = v_assume_le( n ); v_assume( 3 * n <= cap );
    Tr * const p = live( "m", cap, 3 * n );
    g.n = n; g.cap = cap; g.heap = v_heap_live(); g.p = p; g.o = snap( p );
    v_own( p );
    struct { Tr * p; I c; } raw{ p, cap };
    this->m_dataBuffer = reinterpret_cast< Buf const & >( raw );
    this->m_dims[ 0 ] = n; this->m_dims[ 1 ] = 3;
    this->m_strides = la::indexing::calculateStrides< P >( this->m_dims );
    v_assert( this->data() == p && this->capacity() == cap && this->size() == 3 * n, "the state of an array is its storage, capacity, extents and strides" );
  }
  static I v_assume_le( I n ) { v_assume( n <= VMAX / 4 ); return n; }
};
template< typename X > void holds2( X & b, Ghost const & g, I heap, char const * why )
{
  v_assert( b.size() == 3 * g.n && b.size( 0 ) == g.n && b.size( 1 ) == 3 && b.capacity() >= 3 * g.n, "the extents are right" );
  v_assert( v_heap_live() == heap, "exactly one allocation is owned" );
  I const rows = b.strides()[ 0 ], cols = b.strides()[ 1 ];
  v_assert( ( rows == 3 && cols == 1 ) || ( rows == 1 && cols == g.n ), "the strides follow the layout" );
  Tr const * const q = b.data();
  check_forall( why, 0, 3 * g.n, [&]( I j ) { return cell( q, j ) == OLD( j ); } );
  check_forall( "nothing is live beyond the elements", 3 * g.n, b.capacity(), [&]( I j ) { return cell( q, j ) == 0; } );
}
template< typename P > void copy2()
{ Ghost g, h; { M< P > a( g, size( "size" ), size( "cap" ) ), b( h, size( "size2" ), size( "cap2" ) );
  b.base() = static_cast< typename M< P >::B const & >( a );
  v_assert( b.data() != a.data(), "a copy has its own storage" );
  holds2( b, g, h.heap + 1, "a copy has equal elements" ); holds2( a, g, h.heap + 1, "the source is unchanged" ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
template< typename P > void move2()
{ Ghost g, h; { M< P > b( h, size( "size2" ), size( "cap2" ) ); { M< P > a( g, size( "size" ), size( "cap" ) );
    b.base() = std::move( a.base() );
    v_assert( a.data() == nullptr && a.capacity() == 0 && a.size() == 0 && a.size( 0 ) == 0 && a.size( 1 ) == 0, "the source is left empty" ); }
  v_assert( b.data() == g.p, "the storage is transferred" ); holds2( b, g, h.heap + 1, "the elements are transferred" ); }
  v_assert( v_heap_live() == h.heap, "destruction frees the storage" ); }
}
HARNESS( copy_assign_2d_rows ) { copy2< camp::idx_seq< 0, 1 > >(); }
HARNESS( copy_assign_2d_cols ) { copy2< camp::idx_seq< 1, 0 > >(); }
HARNESS( move_assign_2d_rows ) { move2< camp::idx_seq< 0, 1 > >(); }
HARNESS( move_assign_2d_cols ) { move2< camp::idx_seq< 1, 0 > >(); }

// sorted arrays: the same ownership
namespace
{
using SBase = la::SortedArray< Tr, I, la::MallocBuffer >;
struct S : SBase
{
  SBase & base() { return *this; }
  S( Ghost & g, I n, I cap )
  {
    v_assume( n <= cap );
    Tr * const p = live( "s", cap, n );
    g.n = n; g.cap = cap; g.heap = v_heap_live(); g.p = p; g.o = snap( p );
    v_own( p );
    struct { Tr * p; I c; } raw{ p, cap };
    this->m_values = reinterpret_cast< Buf const & >( raw );
    this->m_size = n;
    v_assert( this->data() == p && this->size() == n && this->m_values.capacity() == cap, "the state of a sorted array is its storage, capacity and size" );
  }
};
template< typename X > void holdsS( X & b, Ghost const & g, I heap, char const * why )
{
  v_assert( b.size() == g.n && b.empty() == ( g.n == 0 )  , "the size is right" );
  v_assert( v_heap_live() == heap, "exactly one allocation is owned" );
  Tr const * const q = b.data();
  check_forall( why, 0, g.n, [&]( I j ) { return cell( q, j ) == OLD( j ); } );
}
}
HARNESS( sorted_copy_assign )
{ Ghost g, h; { S a( g, size( "size" ), size( "cap" ) ), b( h, size( "size2" ), size( "cap2" ) );
  b.base() = static_cast< SBase const & >( a );
  v_assert( b.data() != a.data(), "a copy has its own storage" );
  holdsS( b, g, h.heap + 1, "a copy has equal elements" ); holdsS( a, g, h.heap + 1, "the source is unchanged" ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
HARNESS( sorted_move_assign )
{ Ghost g, h; { S b( h, size( "size2" ), size( "cap2" ) ); { S a( g, size( "size" ), size( "cap" ) );
    b.base() = std::move( a.base() ); v_assert( a.size() == 0 && a.data() == nullptr && a.empty(), "the source is left empty" ); }
  v_assert( b.data() == g.p, "the storage is transferred" ); holdsS( b, g, h.heap + 1, "what the target owned is released; the elements are transferred" ); }
  v_assert( v_heap_live() == h.heap, "destruction frees the storage" ); }
HARNESS( sorted_move_construct )
{ Ghost g; { S a( g, size( "size" ), size( "cap" ) ); { SBase b( std::move( a.base() ) ); v_assert( a.size() == 0 && a.data() == nullptr, "the source is left empty" );
    v_assert( b.data() == g.p, "the storage is transferred" ); holdsS( b, g, g.heap + 1, "the elements are transferred" ); }
  v_assert( v_heap_live() == g.heap, "destruction frees the storage" ); }
  v_assert( v_heap_live() == g.heap, "a moved-from array owns nothing" ); }
