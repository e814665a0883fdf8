// Contracts of the symmetric eigen-decomposition (src/fixedSizeSquareMatrixOpsImpl.hpp); real arithmetic.
#include "vspec.hpp"
#include <iostream>
#include <sstream>
#include <functional>
#include <array>
#include <map>
#include <vector>
#include <string>
#include <limits>
#include <cmath>
#define private public          // eigenvaluesOfShiftedMatrix has a contract of its own
#include "tensorOps.hpp"
#undef private
namespace t = LvArray::tensorOps;

HARNESS( eigen2 )
{
  double * const m = reals( "m", 3 ), * const e = reals( "e", 2 ), * const w = reals( "w", 2 ), * const v = reals( "v", 4 );
  double const a = m[ 0 ], c = m[ 1 ], b = m[ 2 ];
  auto & M = *reinterpret_cast< double (*)[ 3 ] >( m );
  auto & V = *reinterpret_cast< double (*)[ 2 ][ 2 ] >( v );
  t::symEigenvectors< 2 >( *reinterpret_cast< double (*)[ 2 ] >( e ), V, M );
  for( int k = 0; k < 2; ++k )
  {
    v_assert( v_eqr( a * V[ 0 ][ k ] + b * V[ 1 ][ k ], e[ k ] * V[ 0 ][ k ] ), "the matrix times an eigenvector is the eigenvalue times it" );
    v_assert( v_eqr( b * V[ 0 ][ k ] + c * V[ 1 ][ k ], e[ k ] * V[ 1 ][ k ] ), "the matrix times an eigenvector is the eigenvalue times it" );
    v_assert( v_eqr( V[ 0 ][ k ] * V[ 0 ][ k ] + V[ 1 ][ k ] * V[ 1 ][ k ], 1 ), "eigenvectors have unit length" );
  }
  v_assert( v_eqr( V[ 0 ][ 0 ] * V[ 0 ][ 1 ] + V[ 1 ][ 0 ] * V[ 1 ][ 1 ], 0 ), "eigenvectors are orthogonal" );
  v_assert( e[ 0 ] <= e[ 1 ], "eigenvalues are ascending" );
  v_assert( m[ 0 ] == a && m[ 1 ] == c && m[ 2 ] == b, "the matrix is unchanged" );
  t::symEigenvalues< 2 >( *reinterpret_cast< double (*)[ 2 ] >( w ), M );
  v_assert( v_eqr( w[ 0 ], e[ 0 ] ) && v_eqr( w[ 1 ], e[ 1 ] ), "the same eigenvalues without eigenvectors" );
}


using Ops3 = t::internal::SquareMatrixOps< 3 >;
#if defined( LV_VERIFY ) && defined( MODULAR )
// contracts of the callees: maxAbsoluteEntry (decided by max6), eigenvaluesOfShiftedMatrix (decided by shifted3)
namespace LvArray { namespace tensorOps {
template<> inline auto maxAbsoluteEntry< 6, double (&)[ 6 ] >( double ( &v )[ 6 ] )
{
  double const r = v_nd_real( "max" );
  for( int i = 0; i < 6; ++i ) v_assume( r >= v[ i ] && r >= -v[ i ] );
  return r;
}
template<> inline void internal::SquareMatrixOps< 3 >::eigenvaluesOfShiftedMatrix< double, double (&)[ 3 ] >( double ( &e )[ 3 ], double const ( &m )[ 6 ] )
{
  v_assert( v_eqr( m[ 0 ] + m[ 1 ] + m[ 2 ], 0 ), "precondition: no trace" );
  for( int i = 0; i < 3; ++i ) e[ i ] = v_nd_real( "e" );
  v_assume( e[ 0 ] <= e[ 1 ] && e[ 1 ] <= e[ 2 ] );
  v_assume( e[ 0 ] + e[ 1 ] + e[ 2 ] == 0 );
}
} }
#endif

HARNESS( max6 )
{
  double * const v = reals( "v", 6 ); double const r = t::maxAbsoluteEntry< 6 >( *reinterpret_cast< double (*)[ 6 ] >( v ) );
  bool hit = false;
  for( int i = 0; i < 6; ++i ) { v_assert( r >= v[ i ] && r >= -v[ i ], "no entry is larger in magnitude" ); hit = hit || r == v[ i ] || r == -v[ i ]; }
  v_assert( hit, "it is the magnitude of an entry" );
}
HARNESS( shifted3 )
{
  double * const m = reals( "m", 6 ), * const e = reals( "e", 3 );
  v_assume( m[ 0 ] + m[ 1 ] + m[ 2 ] == 0 );
  Ops3::eigenvaluesOfShiftedMatrix( *reinterpret_cast< double (*)[ 3 ] >( e ), *reinterpret_cast< double const (*)[ 6 ] >( m ) );
  v_assert( v_eqr( e[ 0 ] + e[ 1 ] + e[ 2 ], 0 ), "the eigenvalues add up to the trace" );
  v_assert( e[ 0 ] <= e[ 1 ], "eigenvalues are ascending" );
  v_assert( e[ 1 ] <= e[ 2 ], "eigenvalues are ascending" );
}
HARNESS( eigen3 )
{
  double * const m = reals( "m", 6 ), * const e = reals( "e", 3 ); double o[ 6 ];
  for( int i = 0; i < 6; ++i ) o[ i ] = m[ i ];
  t::symEigenvalues< 3 >( *reinterpret_cast< double (*)[ 3 ] >( e ), *reinterpret_cast< double (*)[ 6 ] >( m ) );
  v_assert( v_eqr( e[ 0 ] + e[ 1 ] + e[ 2 ], m[ 0 ] + m[ 1 ] + m[ 2 ] ), "the eigenvalues add up to the trace" );
  v_assert( e[ 0 ] <= e[ 1 ], "eigenvalues are ascending" );
  v_assert( e[ 1 ] <= e[ 2 ], "eigenvalues are ascending" );
  for( int i = 0; i < 6; ++i ) v_assert( m[ i ] == o[ i ], "the matrix is unchanged" );
}
