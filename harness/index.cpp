// Contracts of the index arithmetic (src/indexing.hpp, src/typeManipulation.hpp, src/ArraySlice.hpp), for every shape.
// The number of dimensions and the layout permutation are compile-time constants: every permutation of up to four
// dimensions is taken, and the unit-stride dimension follows from it as in the array classes.
#include "vspec.hpp"
#include "ArraySlice.hpp"
namespace x = LvArray::indexing;
namespace ty = LvArray::typeManipulation;

namespace
{
template< camp::idx_t... P > struct Perm
{
  using Seq = camp::idx_seq< P... >;
  static constexpr int N = sizeof...( P );
  static int at( int i ) { constexpr int p[] = { int( P )... }; return p[ i ]; }
  static constexpr int USD = int( ty::getStrideOneDimension( Seq {} ) );
};
template< int N > struct Idx { I i[ N ]; };
template< int N > Idx< N > any( char const * n, Idx< N > const & dims )
{ Idx< N > r; for( int k = 0; k < N; ++k ) { r.i[ k ] = nd( n ); v_assume( r.i[ k ] >= 0 && r.i[ k ] < dims.i[ k ] ); } return r; }
template< int USD > I off( I const * s, Idx< 1 > const & j ) { return x::getLinearIndex< USD >( s, j.i[ 0 ] ); }
template< int USD > I off( I const * s, Idx< 2 > const & j ) { return x::getLinearIndex< USD >( s, j.i[ 0 ], j.i[ 1 ] ); }
template< int USD > I off( I const * s, Idx< 3 > const & j ) { return x::getLinearIndex< USD >( s, j.i[ 0 ], j.i[ 1 ], j.i[ 2 ] ); }
template< int USD > I off( I const * s, Idx< 4 > const & j ) { return x::getLinearIndex< USD >( s, j.i[ 0 ], j.i[ 1 ], j.i[ 2 ], j.i[ 3 ] ); }

template< typename P > void layout()
{
  constexpr int N = P::N;
#ifdef LV_VERIFY
  I const lim = I( 1 ) << 40;      // (with the products that occur assumed to be representable)
#else
  I const lim = N == 1 ? VMAX : N == 2 ? 1000000 : N == 3 ? 100000 : 10000;
#endif
  ty::CArray< I, N > dims; Idx< N > d;
  for( int k = 0; k < N; ++k ) { d.i[ k ] = nd( "d", 0, lim ); dims[ k ] = d.i[ k ]; }
  auto const strides = x::calculateStrides< typename P::Seq >( dims );
  for( int k = 0; k < N; ++k ) v_assert( dims[ k ] == d.i[ k ], "the extents are unchanged" );
  // the stride of a dimension is the product of the extents of those that follow it in the layout
  I total = 1;
  for( int k = N - 1; k >= 0; --k ) { v_assert( strides[ P::at( k ) ] == total, "strides follow the layout" ); total *= d.i[ P::at( k ) ]; }
  v_assert( x::multiplyAll< N >( d.i ) == total, "the size is the product of the extents" );
  v_assert( strides[ P::USD ] == 1, "the unit-stride dimension has stride one" );
  // offsets of two valid indices: in range, and equal only if the indices are
  Idx< N > const a = any( "a", d ), b = any( "b", d );
  I const oa = off< P::USD >( &strides[ 0 ], a ), ob = off< P::USD >( &strides[ 0 ], b );
  I ha = 0, hb = 0, ext = 1; bool same = true;
  for( int k = 0; k < N; ++k )
  {
    int const q = P::at( k ); I const e = d.i[ q ];
    // Horner steps with their bounds; (x - 1) * e >= 0 is the only non-linear fact needed
    v_assert( ( ext - 1 - ha ) * e >= 0 && ( ext - 1 - hb ) * e >= 0, "lemma: step" );
    if( ha < hb ) v_assert( ( hb - ha - 1 ) * e >= 0, "lemma: order" );
    if( hb < ha ) v_assert( ( ha - hb - 1 ) * e >= 0, "lemma: order" );
    I const na = ha * e + a.i[ q ], nb = hb * e + b.i[ q ];
    v_assert( na >= 0 && na < ext * e && nb >= 0 && nb < ext * e, "lemma: prefix in range" );
    same = same && a.i[ q ] == b.i[ q ];
    v_assert( ( na == nb ) == same, "lemma: prefixes differ when an index differs" );
    ha = na; hb = nb; ext *= e;
  }
  v_assert( oa == ha && ob == hb, "the offset is the mixed-radix value of the index" );
  v_assert( oa >= 0 && oa < total, "valid indices stay inside the allocation" );
  v_assert( ( oa == ob ) == same, "different indices have different offsets" );
}
// Any chain of slices reaches the element of the full index, for arbitrary strides.
template< int USD > void chain3()
{
  I const d[ 3 ] = { nd( "d", 0, 1000 ), nd( "d", 0, 1000 ), nd( "d", 0, 1000 ) };
  I s[ 3 ] = { nd( "s", 0, 1000 ), nd( "s", 0, 1000 ), nd( "s", 0, 1000 ) };
  if( USD >= 0 ) v_assume( s[ USD < 0 ? 0 : USD ] == 1 );
  I const i = nd( "i", 0, 999 ), j = nd( "j", 0, 999 ), k = nd( "k", 0, 999 );
  v_assume( i < d[ 0 ] && j < d[ 1 ] && k < d[ 2 ] );
  I * const p = ints( "p", i * s[ 0 ] + j * s[ 1 ] + k * s[ 2 ] + 1 );
  LvArray::ArraySlice< I, 3, USD, I > const a( p, d, s );
  v_assert( a.linearIndex( i, j, k ) == i * s[ 0 ] + j * s[ 1 ] + k * s[ 2 ], "the linear index is the sum of index times stride" );
  I * const e = p + i * s[ 0 ] + j * s[ 1 ] + k * s[ 2 ];
  v_assert( &a( i, j, k ) == e, "full index" );
  v_assert( &a[ i ][ j ][ k ] == e, "one dimension at a time" );
  v_assert( &a[ i ]( j, k ) == e && &a[ i ][ j ]( k ) == e, "mixed" );
  auto const c = a.toSliceConst();
  v_assert( &c( i, j, k ) == e && &c[ i ][ j ][ k ] == e, "through a slice to const" );
  auto const r = a[ i ]; auto const q = r[ j ];
  v_assert( a.size( 0 ) == d[ 0 ] && a.size( 1 ) == d[ 1 ] && a.size( 2 ) == d[ 2 ] && r.size( 0 ) == d[ 1 ] && r.size( 1 ) == d[ 2 ] && q.size( 0 ) == d[ 2 ], "extents" );
  v_assert( a.stride( 0 ) == s[ 0 ] && r.stride( 0 ) == s[ 1 ] && r.stride( 1 ) == s[ 2 ] && q.stride( 0 ) == s[ 2 ], "strides" );
  v_assert( a.size() == d[ 0 ] * d[ 1 ] * d[ 2 ] && r.size() == d[ 1 ] * d[ 2 ] && q.size() == d[ 2 ], "number of elements" );
  bool const bad = x::invalidIndices( d, i, j, k );
  v_assert( !bad, "valid indices are valid" );
  I const u = nd( "u" ), v = nd( "v" ), w = nd( "w" );
  v_assert( x::invalidIndices( d, u, v, w ) == ( u < 0 || u >= d[ 0 ] || v < 0 || v >= d[ 1 ] || w < 0 || w >= d[ 2 ] ), "an index is invalid when it is outside its extent" );
}
}
#define LAYOUT( N, ... ) HARNESS( layout_##N ) { layout< Perm< __VA_ARGS__ > >(); }
LAYOUT( 0, 0 )
LAYOUT( 01, 0, 1 ) LAYOUT( 10, 1, 0 )
LAYOUT( 012, 0, 1, 2 ) LAYOUT( 021, 0, 2, 1 ) LAYOUT( 102, 1, 0, 2 ) LAYOUT( 120, 1, 2, 0 ) LAYOUT( 201, 2, 0, 1 ) LAYOUT( 210, 2, 1, 0 )
LAYOUT( 0123, 0, 1, 2, 3 ) LAYOUT( 0132, 0, 1, 3, 2 ) LAYOUT( 0213, 0, 2, 1, 3 ) LAYOUT( 0231, 0, 2, 3, 1 ) LAYOUT( 0312, 0, 3, 1, 2 ) LAYOUT( 0321, 0, 3, 2, 1 )
LAYOUT( 1023, 1, 0, 2, 3 ) LAYOUT( 1032, 1, 0, 3, 2 ) LAYOUT( 1203, 1, 2, 0, 3 ) LAYOUT( 1230, 1, 2, 3, 0 ) LAYOUT( 1302, 1, 3, 0, 2 ) LAYOUT( 1320, 1, 3, 2, 0 )
LAYOUT( 2013, 2, 0, 1, 3 ) LAYOUT( 2031, 2, 0, 3, 1 ) LAYOUT( 2103, 2, 1, 0, 3 ) LAYOUT( 2130, 2, 1, 3, 0 ) LAYOUT( 2301, 2, 3, 0, 1 ) LAYOUT( 2310, 2, 3, 1, 0 )
LAYOUT( 3012, 3, 0, 1, 2 ) LAYOUT( 3021, 3, 0, 2, 1 ) LAYOUT( 3102, 3, 1, 0, 2 ) LAYOUT( 3120, 3, 1, 2, 0 ) LAYOUT( 3201, 3, 2, 0, 1 ) LAYOUT( 3210, 3, 2, 1, 0 )
HARNESS( chain_usd0 ) { chain3< 0 >(); }
HARNESS( chain_usd1 ) { chain3< 1 >(); }
HARNESS( chain_usd2 ) { chain3< 2 >(); }
HARNESS( chain_strided ) { chain3< -1 >(); }
