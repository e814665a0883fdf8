// Contracts of LvArray::tensorOps, the operations of any size (src/genericTensorOps.hpp); real arithmetic.
// The sizes are compile-time constants, so every loop is followed to its end; rectangular sizes are taken wherever
// the operation has them, so that no two extents coincide.
#include "vspec.hpp"
#include "tensorOps.hpp"
namespace t = LvArray::tensorOps;

namespace
{
// a vector / matrix of arbitrary elements in an object of exactly its size, and its contents before the call
template< int M > struct Vec
{
  double * p; double o[ M ];
  explicit Vec( char const * n ): p( reals( n, M ) ) { for( int i = 0; i < M; ++i ) o[ i ] = p[ i ]; }
  using Arr = double[ M ];
  Arr & a() const { return *reinterpret_cast< Arr * >( p ); }
  double operator()( int i ) const { return o[ i ]; }
  void same( char const * why ) const { for( int i = 0; i < M; ++i ) v_assert( p[ i ] == o[ i ], why ); }
};
template< int M, int N > struct Mat
{
  double * p; double o[ M * N ];
  explicit Mat( char const * n ): p( reals( n, M * N ) ) { for( int i = 0; i < M * N; ++i ) o[ i ] = p[ i ]; }
  using Arr = double[ M ][ N ];
  Arr & a() const { return *reinterpret_cast< Arr * >( p ); }
  double operator()( int i, int j ) const { return o[ i * N + j ]; }
  double now( int i, int j ) const { return p[ i * N + j ]; }
  void same( char const * why ) const { for( int i = 0; i < M * N; ++i ) v_assert( p[ i ] == o[ i ], why ); }
};
template< int N, typename F > double sum( F && f ) { double s = f( 0 ); for( int k = 1; k < N; ++k ) s += f( k ); return s; }
constexpr char const * KEEP = "the sources are unchanged";
constexpr char const * DEF = "every element equals its algebraic definition";
template< int M, typename F > void is( Vec< M > const & v, F && f ) { for( int i = 0; i < M; ++i ) v_assert( v_eqr( v.p[ i ], f( i ) ), DEF ); }
template< int M, int N, typename F > void is( Mat< M, N > const & v, F && f )
{ for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) v_assert( v_eqr( v.now( i, j ), f( i, j ) ), DEF ); }
double real( char const * n ) { return v_nd_real( n ); }

template< int M > void vectors()
{
  double const s = real( "s" );
  { Vec< M > v( "v" ); t::fill< M >( v.a(), s ); is( v, [&]( int ) { return s; } ); }
  { Vec< M > v( "v" ), w( "w" ); t::copy< M >( v.a(), w.a() ); is( v, [&]( int i ) { return w( i ); } ); w.same( KEEP ); }
  { Vec< M > v( "v" ); t::scale< M >( v.a(), s ); is( v, [&]( int i ) { return v( i ) * s; } ); }
  { Vec< M > v( "v" ), w( "w" ); t::scaledCopy< M >( v.a(), w.a(), s ); is( v, [&]( int i ) { return w( i ) * s; } ); w.same( KEEP ); }
  { Vec< M > v( "v" ); t::addScalar< M >( v.a(), s ); is( v, [&]( int i ) { return v( i ) + s; } ); }
  { Vec< M > v( "v" ), w( "w" ); t::add< M >( v.a(), w.a() ); is( v, [&]( int i ) { return v( i ) + w( i ); } ); w.same( KEEP ); }
  { Vec< M > v( "v" ), w( "w" ); t::subtract< M >( v.a(), w.a() ); is( v, [&]( int i ) { return v( i ) - w( i ); } ); w.same( KEEP ); }
  { Vec< M > v( "v" ), w( "w" ); t::scaledAdd< M >( v.a(), w.a(), s ); is( v, [&]( int i ) { return v( i ) + s * w( i ); } ); w.same( KEEP ); }
  { Vec< M > v( "v" ), w( "w" ), x( "x" ); t::hadamardProduct< M >( v.a(), w.a(), x.a() ); is( v, [&]( int i ) { return w( i ) * x( i ); } ); w.same( KEEP ); x.same( KEEP ); }
}
template< int M > void products()
{
  { Vec< M > v( "v" ); v_assert( v_eqr( t::l2NormSquared< M >( v.a() ), sum< M >( [&]( int i ) { return v( i ) * v( i ); } ) ), DEF ); v.same( KEEP ); }
  { Vec< M > v( "v" ), w( "w" ); v_assert( v_eqr( t::AiBi< M >( v.a(), w.a() ), sum< M >( [&]( int i ) { return v( i ) * w( i ); } ) ), DEF ); v.same( KEEP ); w.same( KEEP ); }
}
template< int M, int N > void matrices()
{
  double const s = real( "s" );
  { Mat< M, N > a( "a" ); t::fill< M, N >( a.a(), s ); is( a, [&]( int, int ) { return s; } ); }
  { Mat< M, N > a( "a" ), b( "b" ); t::copy< M, N >( a.a(), b.a() ); is( a, [&]( int i, int j ) { return b( i, j ); } ); b.same( KEEP ); }
  { Mat< M, N > a( "a" ); t::scale< M, N >( a.a(), s ); is( a, [&]( int i, int j ) { return a( i, j ) * s; } ); }
  { Mat< M, N > a( "a" ), b( "b" ); t::scaledCopy< M, N >( a.a(), b.a(), s ); is( a, [&]( int i, int j ) { return s * b( i, j ); } ); b.same( KEEP ); }
  { Mat< M, N > a( "a" ), b( "b" ); t::add< M, N >( a.a(), b.a() ); is( a, [&]( int i, int j ) { return a( i, j ) + b( i, j ); } ); b.same( KEEP ); }
  { Mat< M, N > a( "a" ), b( "b" ); t::scaledAdd< M, N >( a.a(), b.a(), s ); is( a, [&]( int i, int j ) { return a( i, j ) + s * b( i, j ); } ); b.same( KEEP ); }
}
template< int M, int N > void outer()
{
  { Mat< M, N > r( "r" ); Vec< M > a( "a" ); Vec< N > b( "b" ); t::Rij_eq_AiBj< M, N >( r.a(), a.a(), b.a() ); is( r, [&]( int i, int j ) { return a( i ) * b( j ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Mat< M, N > r( "r" ); Vec< M > a( "a" ); Vec< N > b( "b" ); t::Rij_add_AiBj< M, N >( r.a(), a.a(), b.a() ); is( r, [&]( int i, int j ) { return r( i, j ) + a( i ) * b( j ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Mat< M, N > r( "r" ); Mat< N, M > a( "a" ); t::transpose< M, N >( r.a(), a.a() ); is( r, [&]( int i, int j ) { return a( j, i ); } ); a.same( KEEP ); }
}
template< int M, int N > void matrixVector()
{
  { Vec< M > r( "r" ); Mat< M, N > a( "a" ); Vec< N > b( "b" ); t::Ri_eq_AijBj< M, N >( r.a(), a.a(), b.a() );
    is( r, [&]( int i ) { return sum< N >( [&]( int j ) { return a( i, j ) * b( j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Vec< M > r( "r" ); Mat< M, N > a( "a" ); Vec< N > b( "b" ); t::Ri_add_AijBj< M, N >( r.a(), a.a(), b.a() );
    is( r, [&]( int i ) { return r( i ) + sum< N >( [&]( int j ) { return a( i, j ) * b( j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Vec< M > r( "r" ); Mat< N, M > a( "a" ); Vec< N > b( "b" ); t::Ri_eq_AjiBj< M, N >( r.a(), a.a(), b.a() );
    is( r, [&]( int i ) { return sum< N >( [&]( int j ) { return a( j, i ) * b( j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Vec< M > r( "r" ); Mat< N, M > a( "a" ); Vec< N > b( "b" ); t::Ri_add_AjiBj< M, N >( r.a(), a.a(), b.a() );
    is( r, [&]( int i ) { return r( i ) + sum< N >( [&]( int j ) { return a( j, i ) * b( j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
}
template< int M, int N, int K > void matrixMatrix()
{
  { Mat< M, N > r( "r" ); Mat< M, K > a( "a" ); Mat< K, N > b( "b" ); t::Rij_eq_AikBkj< M, N, K >( r.a(), a.a(), b.a() );
    is( r, [&]( int i, int j ) { return sum< K >( [&]( int k ) { return a( i, k ) * b( k, j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Mat< M, N > r( "r" ); Mat< M, K > a( "a" ); Mat< K, N > b( "b" ); t::Rij_add_AikBkj< M, N, K >( r.a(), a.a(), b.a() );
    is( r, [&]( int i, int j ) { return r( i, j ) + sum< K >( [&]( int k ) { return a( i, k ) * b( k, j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Mat< M, N > r( "r" ); Mat< M, K > a( "a" ); Mat< N, K > b( "b" ); t::Rij_eq_AikBjk< M, N, K >( r.a(), a.a(), b.a() );
    is( r, [&]( int i, int j ) { return sum< K >( [&]( int k ) { return a( i, k ) * b( j, k ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Mat< M, N > r( "r" ); Mat< M, K > a( "a" ); Mat< N, K > b( "b" ); t::Rij_add_AikBjk< M, N, K >( r.a(), a.a(), b.a() );
    is( r, [&]( int i, int j ) { return r( i, j ) + sum< K >( [&]( int k ) { return a( i, k ) * b( j, k ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Mat< M, N > r( "r" ); Mat< K, M > a( "a" ); Mat< K, N > b( "b" ); t::Rij_eq_AkiBkj< M, N, K >( r.a(), a.a(), b.a() );
    is( r, [&]( int i, int j ) { return sum< K >( [&]( int k ) { return a( k, i ) * b( k, j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
  { Mat< M, N > r( "r" ); Mat< K, M > a( "a" ); Mat< K, N > b( "b" ); t::Rij_add_AkiBkj< M, N, K >( r.a(), a.a(), b.a() );
    is( r, [&]( int i, int j ) { return r( i, j ) + sum< K >( [&]( int k ) { return a( k, i ) * b( k, j ); } ); } ); a.same( KEEP ); b.same( KEEP ); }
}
template< int M, int K > void gram()
{
  { Mat< M, M > r( "r" ); Mat< M, K > a( "a" ); t::Rij_add_AikAjk< M, K >( r.a(), a.a() );
    is( r, [&]( int i, int j ) { return r( i, j ) + sum< K >( [&]( int k ) { return a( i, k ) * a( j, k ); } ); } ); a.same( KEEP ); }
  { Mat< M, M > r( "r" ); Mat< K, M > a( "a" ); t::Rij_eq_AkiAkj< M, K >( r.a(), a.a() );
    is( r, [&]( int i, int j ) { return sum< K >( [&]( int k ) { return a( k, i ) * a( k, j ); } ); } ); a.same( KEEP ); }
}
template< int M > void square()
{
  double const s = real( "s" );
  { Mat< M, M > a( "a" ); t::transpose< M >( a.a() ); is( a, [&]( int i, int j ) { return a( j, i ); } ); }
  { Mat< M, M > a( "a" ); t::addIdentity< M >( a.a(), s ); is( a, [&]( int i, int j ) { return i == j ? a( i, j ) + s : a( i, j ); } ); }
  { Mat< M, M > a( "a" ); v_assert( v_eqr( t::trace< M >( a.a() ), sum< M >( [&]( int i ) { return a( i, i ); } ) ), DEF ); a.same( KEEP ); }
  constexpr int S = t::SYM_SIZE< M >;
  { Vec< S > a( "a" ); t::symAddIdentity< M >( a.a(), s ); is( a, [&]( int i ) { return i < M ? a( i ) + s : a( i ); } ); }
  { Vec< S > a( "a" ); v_assert( v_eqr( t::symTrace< M >( a.a() ), sum< M >( [&]( int i ) { return a( i ); } ) ), DEF ); a.same( KEEP ); }
}
}

HARNESS( vectors1 ) { vectors< 1 >(); }
HARNESS( vectors4 ) { vectors< 4 >(); }
HARNESS( vectors2 ) { vectors< 2 >(); }
HARNESS( vectors3 ) { vectors< 3 >(); }
HARNESS( vectors9 ) { vectors< 9 >(); }
HARNESS( products6 ) { products< 6 >(); }
HARNESS( matrixVector66 ) { matrixVector< 6, 6 >(); }
HARNESS( matrixMatrix333 ) { matrixMatrix< 3, 3, 3 >(); }
HARNESS( matrixMatrix636 ) { matrixMatrix< 6, 3, 6 >(); }
HARNESS( gram36 ) { gram< 3, 6 >(); }
HARNESS( square6 ) { square< 6 >(); }
HARNESS( matrices66 ) { matrices< 6, 6 >(); }
HARNESS( outer36 ) { outer< 3, 6 >(); }
HARNESS( products1 ) { products< 1 >(); }
HARNESS( products3 ) { products< 3 >(); }
HARNESS( matrices23 ) { matrices< 2, 3 >(); }
HARNESS( matrices31 ) { matrices< 3, 1 >(); }
HARNESS( outer23 ) { outer< 2, 3 >(); }
HARNESS( outer42 ) { outer< 4, 2 >(); }
HARNESS( matrixVector23 ) { matrixVector< 2, 3 >(); }
HARNESS( matrixVector31 ) { matrixVector< 3, 1 >(); }
HARNESS( matrixMatrix234 ) { matrixMatrix< 2, 3, 4 >(); }
HARNESS( matrixMatrix321 ) { matrixMatrix< 3, 2, 1 >(); }
HARNESS( gram23 ) { gram< 2, 3 >(); }
HARNESS( gram32 ) { gram< 3, 2 >(); }
HARNESS( square2 ) { square< 2 >(); }
HARNESS( square3 ) { square< 3 >(); }
HARNESS( square4 ) { square< 4 >(); }
// extents far apart, either way round
HARNESS( matrixVector25 ) { matrixVector< 2, 5 >(); }
HARNESS( matrixVector52 ) { matrixVector< 5, 2 >(); }
HARNESS( matrixVector14 ) { matrixVector< 1, 4 >(); }
HARNESS( matrices15 ) { matrices< 1, 5 >(); }
HARNESS( matrices52 ) { matrices< 5, 2 >(); }
HARNESS( outer15 ) { outer< 1, 5 >(); }
HARNESS( outer51 ) { outer< 5, 1 >(); }
HARNESS( matrixMatrix145 ) { matrixMatrix< 1, 4, 5 >(); }
HARNESS( matrixMatrix514 ) { matrixMatrix< 5, 1, 4 >(); }
HARNESS( matrixMatrix451 ) { matrixMatrix< 4, 5, 1 >(); }
HARNESS( matrixMatrix225 ) { matrixMatrix< 2, 2, 5 >(); }
HARNESS( gram15 ) { gram< 1, 5 >(); }
HARNESS( gram51 ) { gram< 5, 1 >(); }
HARNESS( gram52 ) { gram< 5, 2 >(); }
HARNESS( gram25 ) { gram< 2, 5 >(); }
HARNESS( vectors5 ) { vectors< 5 >(); }
HARNESS( products2 ) { products< 2 >(); }
HARNESS( products4 ) { products< 4 >(); }
HARNESS( square5 ) { square< 5 >(); }
HARNESS( maxAbsoluteEntry )
{
  Vec< 3 > v( "v" ); double const m = t::maxAbsoluteEntry< 3 >( v.a() );
  bool hit = false;
  for( int i = 0; i < 3; ++i ) { v_assert( m >= v( i ) && m >= -v( i ), "no entry is larger in magnitude" ); hit = hit || m == v( i ) || m == -v( i ); }
  v_assert( hit, "it is the magnitude of an entry" ); v.same( KEEP );
}
HARNESS( crossProduct )
{
  Vec< 3 > r( "r" ), a( "a" ), b( "b" ); t::crossProduct( r.a(), a.a(), b.a() );
  is( r, [&]( int i ) { return a( ( i + 1 ) % 3 ) * b( ( i + 2 ) % 3 ) - a( ( i + 2 ) % 3 ) * b( ( i + 1 ) % 3 ); } ); a.same( KEEP ); b.same( KEEP );
}
HARNESS( norms )
{
  Vec< 3 > v( "v" ); double const q = v( 0 ) * v( 0 ) + v( 1 ) * v( 1 ) + v( 2 ) * v( 2 );
  v_assert( v_eqr( t::l2Norm< 3 >( v.a() ), v_lib( "sqrt", q ) ), DEF ); v.same( KEEP );
  v_assume( q > 0 );
  double const n = t::normalize< 3 >( v.a() );
  v_assert( v_eqr( n, v_lib( "sqrt", q ) ), "the norm is returned" );
  for( int i = 0; i < 3; ++i ) v_assert( v_eqr( v.p[ i ] * n, v( i ) ), "every element is divided by the norm" );
}

// the same operations on strided slices (a row-contiguous view of columns): one instance per access pattern
HARNESS( slices )
{
  // element i of the vector slice is at 2 * i; element (i, j) of the matrix slice at i + 2 * j
  double * const v = reals( "v", 6 ), * const m = reals( "m", 6 ); double v0[ 6 ], m0[ 6 ];
  for( int i = 0; i < 6; ++i ) { v0[ i ] = v[ i ]; m0[ i ] = m[ i ]; }
  I const d1[ 1 ] = { 3 }, s1[ 1 ] = { 2 }, d2[ 2 ] = { 2, 3 }, s2[ 2 ] = { 1, 2 };
  LvArray::ArraySlice< double, 1, -1, I > const vs( v, d1, s1 );
  LvArray::ArraySlice< double, 2, 0, I > const ms( m, d2, s2 );
  Vec< 3 > a( "a" ); Vec< 2 > b( "b" );
  t::copy< 3 >( vs, a.a() );
  for( int i = 0; i < 3; ++i ) v_assert( v[ 2 * i ] == a( i ) && v[ 2 * i + 1 ] == v0[ 2 * i + 1 ], "copy writes exactly the addressed elements" );
  t::Rij_add_AiBj< 2, 3 >( ms, b.a(), vs );
  for( int i = 0; i < 2; ++i ) for( int j = 0; j < 3; ++j ) v_assert( v_eqr( m[ i + 2 * j ], m0[ i + 2 * j ] + b( i ) * a( j ) ), DEF );
  t::transpose< 3, 2 >( *reinterpret_cast< double (*)[ 3 ][ 2 ] >( reals( "t", 6 ) ), ms );
  b.same( KEEP ); a.same( KEEP );
}
