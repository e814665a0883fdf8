// Contracts of slices and views (src/ArraySlice.hpp, src/ArrayView.hpp, src/sliceHelpers.hpp).
#include "vspec.hpp"
#include "ArrayView.hpp"
#include "MallocBuffer.hpp"
namespace la = LvArray;
namespace ty = LvArray::typeManipulation;

namespace
{
#ifdef LV_VERIFY
constexpr I K = I( 1 ) << 16;      // extents where addresses are compared: up to this
constexpr I L = 1000;              // extents otherwise
#else
constexpr I K = 6, L = 6;          // (objects have to exist when run natively)
#endif
// counts the calls with the index (or address) under observation
struct Seen { I n; };
// every extent up to lim, arbitrary strides (unit where the type says so)
template< int N, int USD > struct Shape
{
  I d[ N ], s[ N ];
  explicit Shape( I lim ) { for( int k = 0; k < N; ++k ) { d[ k ] = nd( "d", 0, lim ); s[ k ] = k == USD ? 1 : nd( "s", 0, lim ); } }
};
struct One { Seen const * z; I x; };
struct Two { Seen const * z; I x, y; };
struct Three { Seen const * z; I x, y, w; };

// forValuesInSliceWithIndices calls the function exactly once for every index, with the element of that index
template< int USD > void indexed1()
{
  Shape< 1, USD > const h( L ); I const x = nd( "x", 0, L - 1 ); v_assume( x < h.d[ 0 ] );
  I * const p = ints( "p", L * L );
  la::ArraySlice< I, 1, USD, I > const a( p, h.d, h.s );
  Seen z{ 0 };
  using Ctx = One; Ctx const c{ &z, x };
  HINT1( i, ( i >= 0 ) & ( cell( c.z, 0 ) == I( i > c.x ) ) );
  la::forValuesInSliceWithIndices( a, [&]( I & v, I const i )
  {
    v_assert( i >= 0 && i < h.d[ 0 ], "the index is valid" ); v_assert( &v == p + i * h.s[ 0 ], "the element is the one of the index" );
    if( i == x ) ++z.n;
  } );
  v_assert( z.n == 1, "every index is visited exactly once" );
}
template< int USD > void indexed2()
{
  Shape< 2, USD > const h( L ); I const x = nd( "x", 0, L - 1 ), y = nd( "y", 0, L - 1 ); v_assume( x < h.d[ 0 ] && y < h.d[ 1 ] );
  I * const p = ints( "p", 2 * L * L );
  la::ArraySlice< I, 2, USD, I > const a( p, h.d, h.s );
  Seen z{ 0 };
  using Ctx = Two; Ctx const c{ &z, x, y };
  HINT1( i, ( i >= 0 ) & ( cell( c.z, 0 ) == I( i > c.x ) ) );
  HINT1O( j, i, ( i >= 0 ) & ( j >= 0 ) & ( cell( c.z, 0 ) == I( ( i > c.x ) | ( ( i == c.x ) & ( j > c.y ) ) ) ) );
  la::forValuesInSliceWithIndices( a, [&]( I & v, I const i, I const j )
  {
    v_assert( i >= 0 && i < h.d[ 0 ] && j >= 0 && j < h.d[ 1 ], "the index is valid" );
    v_assert( &v == p + i * h.s[ 0 ] + j * h.s[ 1 ], "the element is the one of the index" );
    if( i == x && j == y ) ++z.n;
  } );
  v_assert( z.n == 1, "every index is visited exactly once" );
}
// forValuesInSlice reaches every element exactly once; the strides keep the elements apart
template< int USD > void values2()
{
  I const d[ 2 ] = { nd( "d", 0, K ), nd( "d", 0, K ) }, s[ 2 ] = { USD == 0 ? 1 : K, USD == 1 ? 1 : USD == 0 ? K : 2 * K * K };
  I const x = nd( "x", 0, K ), y = nd( "y", 0, K ); v_assume( x < d[ 0 ] && y < d[ 1 ] );
  I * const p = ints( "p", 4 * K * K * K );
  la::ArraySlice< I, 2, USD, I > const a( p, d, s );
  I const * const e = p + x * s[ 0 ] + y * s[ 1 ];
  Seen z{ 0 };
  using Ctx = Two; Ctx const c{ &z, x, y };
  HINT1( i, ( i >= 0 ) & ( cell( c.z, 0 ) == I( i > c.x ) ) );
  HINT1O( j, i, ( i >= 0 ) & ( j >= 0 ) & ( cell( c.z, 0 ) == I( ( i > c.x ) | ( ( i == c.x ) & ( j > c.y ) ) ) ) );
  la::forValuesInSlice( a, [&]( I & v )
  {
    I const o = &v - p;
    v_assert( o >= 0 && o <= ( d[ 0 ] - 1 ) * s[ 0 ] + ( d[ 1 ] - 1 ) * s[ 1 ], "the element belongs to the slice" );
    if( &v == e ) ++z.n;
  } );
  v_assert( z.n == 1, "every element is visited exactly once" );
}
template< int USD > void sum1()
{
  Shape< 1, USD > const h( L );
  I * const p = ints( "p", L * L ), * const S = ints( "S", L + 1 );      // S: the partial sums
  I const n = h.d[ 0 ];
  I const st = USD == 0 ? 1 : L - 1; I const s[ 1 ] = { st };
#ifndef LV_VERIFY
  S[ 0 ] = 0; for( I i = 0; i < n; ++i ) S[ i + 1 ] = S[ i ] + p[ i * st ];
#endif
  v_assume( cell( S, 0 ) == 0 );
  assume_forall( 0, n, [&]( I i ) { return cell( S, i + 1 ) == cell( S, i ) + cell( p, i * st ); } );
  I const x = nd( "x", 0, VMAX ); I dst = x;
  struct Ctx { I const * S, * D; I x; } const c{ S, &dst, x };
  HINT1( i, ( i >= 0 ) & ( cell( c.D, 0 ) == c.x + cell( c.S, i ) ) );
  la::sumOverFirstDimension( la::ArraySlice< I const, 1, USD, I >( p, h.d, s ), dst );
  v_assert( dst == x + cell( S, n ), "the sum of the values is added" );
}
template< int USD > void sum2()
{
  I const d[ 2 ] = { nd( "d", 0, L ), nd( "d", 1, L ) }, s[ 2 ] = { USD == 0 ? 1 : L, USD == 0 ? L : 1 };
  I const y = nd( "y", 0, L - 1 ); v_assume( y < d[ 1 ] );
  I * const p = ints( "p", L * L ), * const q = ints( "q", 3 * L ), * const S = ints( "S", L + 1 );
  I const ds[ 1 ] = { 3 };
#ifndef LV_VERIFY
  S[ 0 ] = 0; for( I i = 0; i < d[ 0 ]; ++i ) S[ i + 1 ] = S[ i ] + p[ i * s[ 0 ] + y * s[ 1 ] ];
#endif
  v_assume( cell( S, 0 ) == 0 );
  assume_forall( 0, d[ 0 ], [&]( I i ) { return cell( S, i + 1 ) == cell( S, i ) + cell( p, i * s[ 0 ] + y * s[ 1 ] ); } );
  I const g = cell( q, 3 * y ), o = 3 * nd( "other", 0, L - 1 ) + nd( "gap", 1, 2 ), og = cell( q, o );      // (o: an element between those of dst)
  struct Ctx { I const * S, * q; I g, y, o, og; } const c{ S, q, g, y, o, og };
  HINT1( i, cell( c.q, c.o ) == c.og );
  HINT1( i, ( i >= 0 ) & ( cell( c.q, 3 * c.y ) == c.g + cell( c.S, i ) ) );
  HINT1O( j, i, ( i >= 0 ) & ( j >= 0 ) & ( ( ( j > c.y ) & ( cell( c.q, 3 * c.y ) == c.g + cell( c.S, i + 1 ) ) ) | ( ( j <= c.y ) & ( cell( c.q, 3 * c.y ) == c.g + cell( c.S, i ) ) ) ) );
  la::sumOverFirstDimension( la::ArraySlice< I const, 2, USD, I >( p, d, s ), la::ArraySlice< I, 1, -1, I >( q, d + 1, ds ) );
  v_assert( cell( q, 3 * y ) == g + cell( S, d[ 0 ] ), "every element receives the sum over the first index" );
  v_assert( cell( q, o ) == og, "elements outside the destination slice are unchanged" );
}

// Views: every way of getting a view or a slice keeps dimensions, strides and data.
template< typename V > void is( V const & v, I const * d, I const * s, I const * p, I cap )
{
  for( int k = 0; k < 3; ++k ) v_assert( v.size( k ) == d[ k ] && v.dims()[ k ] == d[ k ] && v.dimsArray()[ k ] == d[ k ], "dimensions are kept" );
  for( int k = 0; k < 3; ++k ) v_assert( v.strides()[ k ] == s[ k ] && v.stridesArray()[ k ] == s[ k ], "strides are kept" );
  v_assert( v.data() == p && v.begin() == p && v.capacity() == cap && v.dataBuffer().data() == p, "the data is the same" );
  v_assert( v.size() == d[ 0 ] * d[ 1 ] * d[ 2 ] && v.empty() == ( v.size() == 0 ) && v.end() == p + v.size(), "the number of elements is the product of the dimensions" );
  v_assert( v.getSingleParameterResizeIndex() == 1, "the resize index is kept" );
}
template< typename V > void reaches( V const & v, I i, I j, I k, I const * e )
{
  v_assert( &v( i, j, k ) == e, "full index" );
  v_assert( &v[ i ][ j ][ k ] == e && &v[ i ]( j, k ) == e && &v[ i ][ j ]( k ) == e, "one dimension at a time" );
  auto const a = v.toSlice(); v_assert( &a( i, j, k ) == e && &a[ i ][ j ][ k ] == e, "through a slice" );
  auto const b = v.toSliceConst(); v_assert( &b( i, j, k ) == e && &b[ i ][ j ][ k ] == e, "through a slice to const" );
}
template< int USD > void views()
{
  ty::CArray< I, 3 > d{}, s{};
  for( int k = 0; k < 3; ++k ) { d[ k ] = nd( "d", 0, L ); s[ k ] = k == USD ? 1 : nd( "s", 0, L ); }
  I const i = nd( "i", 0, L - 1 ), j = nd( "j", 0, L - 1 ), k = nd( "k", 0, L - 1 );
  v_assume( i < d[ 0 ] && j < d[ 1 ] && k < d[ 2 ] );
  I const cap = 4 * L * L;
  using V = la::ArrayView< I, 3, USD, I, la::MallocBuffer >;
  using VC = la::ArrayView< I const, 3, USD, I, la::MallocBuffer >;
  // a buffer over storage for cap elements
  struct { I * p; I c; } raw{ ints( "p", cap ), cap };
  static_assert( sizeof( raw ) == sizeof( la::MallocBuffer< I > ), "" );
  auto const & buf = reinterpret_cast< la::MallocBuffer< I > const & >( raw );
  I const * const p = raw.p, * const e = p + ( i * s[ 0 ] + j * s[ 1 ] + k * s[ 2 ] );
  V const v( d, s, 1, buf );
  is( v, d.data, s.data, p, cap ); reaches( v, i, j, k, e );
  v_assert( v.linearIndex( i, j, k ) == e - p, "the linear index is the sum of index times stride" );
  V const w( v ); is( w, d.data, s.data, p, cap ); reaches( w, i, j, k, e );
  V const t = v.toView(); is( t, d.data, s.data, p, cap );
  VC const u = v.toViewConst(); is( u, d.data, s.data, p, cap ); reaches( u, i, j, k, e );
  VC const x = v; is( x, d.data, s.data, p, cap );
  V y; y = v; is( y, d.data, s.data, p, cap ); reaches( y, i, j, k, e );
  V m; m = std::move( y ); is( m, d.data, s.data, p, cap ); reaches( m, i, j, k, e );
  V n( std::move( m ) ); is( n, d.data, s.data, p, cap ); reaches( n, i, j, k, e );
  if( v.size() > 0 ) v_assert( &v.front() == p && &v.back() == p + ( v.size() - 1 ), "first and last element" );
  is( v, d.data, s.data, p, cap );
}
}
HARNESS( indexed1_unit ) { indexed1< 0 >(); }
HARNESS( indexed1_strided ) { indexed1< -1 >(); }
HARNESS( indexed2_last ) { indexed2< 1 >(); }
HARNESS( indexed2_first ) { indexed2< 0 >(); }
HARNESS( indexed2_strided ) { indexed2< -1 >(); }
HARNESS( values2_last ) { values2< 1 >(); }
HARNESS( values2_first ) { values2< 0 >(); }
HARNESS( values2_strided ) { values2< -1 >(); }
HARNESS( sum1_unit ) { sum1< 0 >(); }
HARNESS( sum1_strided ) { sum1< -1 >(); }
HARNESS( sum2_last ) { sum2< 1 >(); }
HARNESS( sum2_first ) { sum2< 0 >(); }
HARNESS( views_usd0 ) { views< 0 >(); }
HARNESS( views_usd1 ) { views< 1 >(); }
HARNESS( views_usd2 ) { views< 2 >(); }
