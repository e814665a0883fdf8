// Contracts of the square-matrix operations (src/fixedSizeSquareMatrixOps*.hpp); real arithmetic.
#include "vspec.hpp"
#include "tensorOps.hpp"
namespace t = LvArray::tensorOps;

namespace
{
template< int N > using Arr = double[ N ];
template< int N > struct Vec
{
  double * p; double o[ N ];
  explicit Vec( char const * n ): p( reals( n, N ) ) { for( int i = 0; i < N; ++i ) o[ i ] = p[ i ]; }
  Arr< N > & a() const { return *reinterpret_cast< Arr< N > * >( p ); }
  double operator()( int i ) const { return o[ i ]; }
  void same( char const * why ) const { for( int i = 0; i < N; ++i ) v_assert( p[ i ] == o[ i ], why ); }
};
template< int N > struct Mat
{
  double * p; double o[ N * N ];
  explicit Mat( char const * n ): p( reals( n, N * N ) ) { for( int i = 0; i < N * N; ++i ) o[ i ] = p[ i ]; }
  using A = double[ N ][ N ];
  A & a() const { return *reinterpret_cast< A * >( p ); }
  double operator()( int i, int j ) const { return o[ i * N + j ]; }
  double now( int i, int j ) const { return p[ i * N + j ]; }
  void same( char const * why ) const { for( int i = 0; i < N * N; ++i ) v_assert( p[ i ] == o[ i ], why ); }
};
// symmetric storage: the diagonal first, then the entries with equal sums of indices from the bottom up (Voigt order)
template< int N > constexpr int S = N * ( N + 1 ) / 2;
template< int N > int sx( int i, int j ) { return i == j ? i : N == 2 ? 2 : 6 - i - j; }
template< int N > struct Sym : Vec< S< N > >
{
  using Vec< S< N > >::Vec;
  double operator()( int i, int j ) const { return this->o[ sx< N >( i, j ) ]; }
  double now( int i, int j ) const { return this->p[ sx< N >( i, j ) ]; }
};
// the sum over all permutations
template< typename M > double det( std::integral_constant< int, 2 >, M const & m ) { return m( 0, 0 ) * m( 1, 1 ) - m( 0, 1 ) * m( 1, 0 ); }
template< typename M > double det( std::integral_constant< int, 3 >, M const & m )
{
  return m( 0, 0 ) * m( 1, 1 ) * m( 2, 2 ) + m( 0, 1 ) * m( 1, 2 ) * m( 2, 0 ) + m( 0, 2 ) * m( 1, 0 ) * m( 2, 1 )
         - m( 0, 2 ) * m( 1, 1 ) * m( 2, 0 ) - m( 0, 1 ) * m( 1, 0 ) * m( 2, 2 ) - m( 0, 0 ) * m( 1, 2 ) * m( 2, 1 );
}
template< int N > using Int = std::integral_constant< int, N >;
template< int N, typename F > double sum( F && f ) { double s = f( 0 ); for( int k = 1; k < N; ++k ) s += f( k ); return s; }
constexpr char const * KEEP = "the sources are unchanged";
constexpr char const * DEF = "every element equals its algebraic definition";

template< int N, typename A, typename B > void inverse( A const & before, B const & after )
{
  for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j )
  {
    v_assert( v_eqr( sum< N >( [&]( int k ) { return before( i, k ) * after.now( k, j ); } ), i == j ), "the matrix times its inverse is the identity" );
    v_assert( v_eqr( sum< N >( [&]( int k ) { return after.now( i, k ) * before( k, j ); } ), i == j ), "the inverse times the matrix is the identity" );
  }
}
template< int N > void determinants()
{
  Mat< N > m( "m" ); Sym< N > s( "s" );
  v_assert( v_eqr( t::determinant< N >( m.a() ), det( Int< N >(), m ) ), "determinant" );
  v_assert( v_eqr( t::symDeterminant< N >( s.a() ), det( Int< N >(), s ) ), "symmetric determinant" );
  m.same( KEEP ); s.same( KEEP );
}
template< int N > void inverts()
{
  Mat< N > m( "m" ), d( "d" ), q( "q" ); double const dm = det( Int< N >(), m ), dq = det( Int< N >(), q );
  v_assume( dm != 0 && dq != 0 );
  v_assert( v_eqr( t::invert< N >( d.a(), m.a() ), dm ), "the determinant is returned" );
  inverse< N >( m, d ); m.same( KEEP );
  v_assert( v_eqr( t::invert< N >( q.a() ), dq ), "the determinant is returned" );
  inverse< N >( q, q );
}
template< int N > void symInverts()
{
  Sym< N > m( "m" ), d( "d" ), q( "q" ); double const dm = det( Int< N >(), m ), dq = det( Int< N >(), q );
  v_assume( dm != 0 && dq != 0 );
  v_assert( v_eqr( t::symInvert< N >( d.a(), m.a() ), dm ), "the determinant is returned" );
  inverse< N >( m, d ); m.same( KEEP );
  v_assert( v_eqr( t::symInvert< N >( q.a() ), dq ), "the determinant is returned" );
  inverse< N >( q, q );
}
template< int N > void symProducts()
{
  {
    Sym< N > a( "a" ); Vec< N > b( "b" ), r( "r" ), q( "q" );
    t::Ri_eq_symAijBj< N >( r.a(), a.a(), b.a() ); t::Ri_add_symAijBj< N >( q.a(), a.a(), b.a() );
    for( int i = 0; i < N; ++i )
    {
      double const e = sum< N >( [&]( int j ) { return a( i, j ) * b( j ); } );
      v_assert( v_eqr( r.p[ i ], e ), DEF ); v_assert( v_eqr( q.p[ i ], q( i ) + e ), DEF );
    }
    a.same( KEEP ); b.same( KEEP );
  }
  {
    Sym< N > a( "a" ); Mat< N > b( "b" ), r( "r" );
    t::Rij_eq_symAikBjk< N >( r.a(), a.a(), b.a() );
    for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j ) v_assert( v_eqr( r.now( i, j ), sum< N >( [&]( int k ) { return a( i, k ) * b( j, k ); } ) ), DEF );
    a.same( KEEP ); b.same( KEEP );
  }
  {
    Sym< N > b( "b" ), r( "r" ); Mat< N > a( "a" );
    t::Rij_eq_AikSymBklAjl< N >( r.a(), a.a(), b.a() );
    for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j )
      v_assert( v_eqr( r.now( i, j ), sum< N >( [&]( int k ) { return sum< N >( [&]( int l ) { return a( i, k ) * b( k, l ) * a( j, l ); } ); } ) ), DEF );
    a.same( KEEP ); b.same( KEEP );
  }
  {
    Vec< N > a( "a" ), b( "b" ); Sym< N > r( "r" ), q( "q" );
    t::symRij_eq_AiAj< N >( r.a(), a.a() ); t::symRij_eq_AiBj_plus_AjBi< N >( q.a(), a.a(), b.a() );
    for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j )
    {
      v_assert( v_eqr( r.now( i, j ), a( i ) * a( j ) ), DEF );
      v_assert( v_eqr( q.now( i, j ), a( i ) * b( j ) + a( j ) * b( i ) ), DEF );
    }
    a.same( KEEP ); b.same( KEEP );
  }
}
template< int N > void storage()
{
  Sym< N > s( "s" ), s2( "s2" ); Mat< N > m( "m" );
  t::symmetricToDense< N >( m.a(), s.a() );
  for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j ) v_assert( m.now( i, j ) == s( i, j ), "symmetric storage to dense" );
  t::denseToSymmetric< N >( s2.a(), m.a() );
  for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j ) v_assert( s2.now( i, j ) == s( i, j ), "and back" );
  s.same( KEEP );
}
}
HARNESS( determinants2 ) { determinants< 2 >(); }
HARNESS( determinants3 ) { determinants< 3 >(); }
HARNESS( inverts2 ) { inverts< 2 >(); }
HARNESS( inverts3 ) { inverts< 3 >(); }
HARNESS( symInverts2 ) { symInverts< 2 >(); }
HARNESS( symInverts3 ) { symInverts< 3 >(); }
HARNESS( symProducts2 ) { symProducts< 2 >(); }
HARNESS( symProducts3 ) { symProducts< 3 >(); }
HARNESS( storage2 ) { storage< 2 >(); }
HARNESS( storage3 ) { storage< 3 >(); }

// an integer matrix inverted into a floating-point one
template< int N > void mixed()
{
  int m[ N ][ N ]; int s[ S< N > ];
  for( int i = 0; i < N; ++i ) for( int j = 0; j < N; ++j ) m[ i ][ j ] = int( nd( "m", -100, 100 ) );
  for( int i = 0; i < S< N >; ++i ) s[ i ] = int( nd( "s", -100, 100 ) );
  auto const mm = [&]( int i, int j ) { return double( m[ i ][ j ] ); };
  auto const ss = [&]( int i, int j ) { return double( s[ sx< N >( i, j ) ] ); };
  double const dm = det( Int< N >(), mm ), ds = det( Int< N >(), ss );
  v_assert( v_eqr( double( t::determinant< N >( m ) ), dm ), "determinant" );
  v_assert( v_eqr( double( t::symDeterminant< N >( s ) ), ds ), "symmetric determinant" );
  v_assume( dm != 0 && ds != 0 );
  Mat< N > d( "d" ); Sym< N > e( "e" );
  v_assert( v_eqr( double( t::invert< N >( d.a(), m ) ), dm ), "the determinant is returned" );
  inverse< N >( mm, d );
  v_assert( v_eqr( double( t::symInvert< N >( e.a(), s ) ), ds ), "the determinant is returned" );
  inverse< N >( ss, e );
}
HARNESS( mixed2 ) { mixed< 2 >(); }
HARNESS( mixed3 ) { mixed< 3 >(); }
