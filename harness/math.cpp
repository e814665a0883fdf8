// Contracts of LvArray::math (src/math.hpp), host side.
#include "vspec.hpp"
#include "math.hpp"
#include <limits>
namespace m = LvArray::math;

namespace { template< typename T > T any( char const * name ) { return T( nd( name ) ); }
template<> float any< float >( char const * name ) { return float( v_nd_real( name ) ); }
template<> double any< double >( char const * name ) { return v_nd_real( name ); } }

#define ORDERED( N, T ) \
HARNESS( minmax_##N ) \
{ \
  T const a = any< T >( "a" ), b = any< T >( "b" ); \
  T const hi = m::max( a, b ), lo = m::min( a, b ); \
  v_assert( hi >= a && hi >= b && ( hi == a || hi == b ), "max is the larger argument" ); \
  v_assert( lo <= a && lo <= b && ( lo == a || lo == b ), "min is the smaller argument" ); \
}
#define SIGNED( N, T ) \
HARNESS( abs_##N ) \
{ \
  T const a = any< T >( "a" ); \
  v_assume( a > std::numeric_limits< T >::lowest() ); \
  T const r = m::abs( a ); \
  v_assert( r >= T( 0 ) && ( r == a || r == -a ), "abs is the magnitude" ); \
}
#define SQUARE( N, T, B ) \
HARNESS( square_##N ) \
{ \
  I const a = nd( "a", -( B ), B ); \
  v_assume( a >= I( std::numeric_limits< T >::lowest() ) ); \
  v_assert( I( m::square( T( a ) ) ) == a * a, "square is exact" ); \
}
#define INTS( N, T ) ORDERED( N, T )
INTS( int8, std::int8_t ) INTS( uint8, std::uint8_t ) INTS( int16, std::int16_t ) INTS( uint16, std::uint16_t )
INTS( int32, std::int32_t ) INTS( uint32, std::uint32_t ) INTS( int64, std::int64_t ) INTS( uint64, std::uint64_t )
ORDERED( float, float ) ORDERED( double, double )
SIGNED( int8, std::int8_t ) SIGNED( int16, std::int16_t ) SIGNED( int32, std::int32_t ) SIGNED( int64, std::int64_t )
SIGNED( float, float ) SIGNED( double, double )
SQUARE( int8, std::int8_t, 11 ) SQUARE( int16, std::int16_t, 181 ) SQUARE( int32, std::int32_t, 46340 ) SQUARE( int64, std::int64_t, 3037000499 )
SQUARE( uint8, std::uint8_t, 15 ) SQUARE( uint32, std::uint32_t, 65535 )

HARNESS( square_real )
{
  double const a = any< double >( "a" ); float const f = any< float >( "f" );
  v_assert( m::square( a ) == a * a && m::square( f ) == f * f, "square" );
}

// library functions: the function of that name, in single precision for float, in double precision otherwise
#define LIB( F, LO, HI ) \
HARNESS( lib_##F ) \
{ \
  double const x = any< double >( "x" ); v_assume( x >= LO && x <= HI ); \
  float const f = any< float >( "f" ); v_assume( f >= float( LO ) && f <= float( HI ) ); \
  int const i = int( nd( "i", -1000, 1000 ) ); v_assume( i >= LO && i <= HI ); \
  v_assert( m::F( x ) == v_lib( #F, x ), "the library function of the same name (double)" ); \
  v_assert( double( m::F( f ) ) == v_lib( #F "f", double( f ) ), "the library function of the same name (float)" ); \
  v_assert( m::F( i ) == v_lib( #F, double( i ) ), "integers are converted to double" ); \
  static_assert( std::is_same< decltype( m::F( f ) ), float >::value && std::is_same< decltype( m::F( x ) ), double >::value && std::is_same< decltype( m::F( i ) ), double >::value, "result types" ); \
}
LIB( sqrt, 0, 1e30 ) LIB( sin, -1e30, 1e30 ) LIB( cos, -1e30, 1e30 ) LIB( tan, -1e30, 1e30 )
LIB( asin, -1, 1 ) LIB( acos, -1, 1 ) LIB( exp, -700, 80 ) LIB( log, 0.0001, 1e30 )

HARNESS( lib_atan2 )
{
  double const x = any< double >( "x" ), y = any< double >( "y" );
  float const f = any< float >( "f" ), g = any< float >( "g" );
  int const i = int( nd( "i", -1000, 1000 ) ), j = int( nd( "j", -1000, 1000 ) );
  v_assert( m::atan2( y, x ) == v_lib2( "atan2", y, x ), "atan2 (double)" );
  v_assert( double( m::atan2( g, f ) ) == v_lib2( "atan2f", double( g ), double( f ) ), "atan2 (float)" );
  v_assert( m::atan2( j, i ) == v_lib2( "atan2", double( j ), double( i ) ), "atan2 (integers)" );
}

HARNESS( sincos_all )
{
  double const x = any< double >( "x" ); float const f = any< float >( "f" ); int const i = int( nd( "i", -1000, 1000 ) );
  double s = 5, c = 5; float sf = 5, cf = 5;
  m::sincos( x, s, c );
  v_assert( s == v_lib( "sin", x ) && c == v_lib( "cos", x ), "sincos of a double" );
  m::sincos( f, sf, cf );
  v_assert( double( sf ) == v_lib( "sinf", double( f ) ) && double( cf ) == v_lib( "cosf", double( f ) ), "sincos of a float" );
  m::sincos( i, s, c );
  v_assert( s == v_lib( "sin", double( i ) ) && c == v_lib( "cos", double( i ) ), "sincos of an integer" );
}

HARNESS( invSqrt_all )
{
  double const x = any< double >( "x" ); float const f = any< float >( "f" ); int const i = int( nd( "i", 1, 1000 ) );
  v_assume( x > 0 && f > 0 );
  v_assert( v_eqr( m::invSqrt( x ) * v_lib( "sqrt", x ), 1 ), "invSqrt of a double" );
  v_assert( v_eqr( m::invSqrt( i ) * v_lib( "sqrt", double( i ) ), 1 ), "invSqrt of an integer" );
  float const r = m::invSqrt( f ), q = float( 1 ) / std::sqrt( f );
  v_assert( r == q, "invSqrt of a float" );
  static_assert( std::is_same< decltype( m::invSqrt( f ) ), float >::value && std::is_same< decltype( m::invSqrt( i ) ), double >::value, "result types" );
}

HARNESS( convert_all )
{
  I const a = nd( "a" );
  v_assert( m::convert< I >( a ) == a, "convert to the same type" );
  int const i = int( nd( "i", -1000000, 1000000 ) );
  v_assert( m::convert< double >( i ) == double( i ) && m::convert< I >( i ) == i && m::convert< std::int8_t >( 7 ) == 7, "convert a representable value" );
  double const x = any< double >( "x" );
  v_assert( m::convert< double >( x ) == x, "convert a double to double" );
  float const f = any< float >( "f" );
  v_assert( m::convert< double >( f ) == double( f ), "widening is exact" );
  v_assert( m::numValues< double >() == 1 && m::numValues< float >() == 1 && m::numValues< int >() == 1, "one value per scalar" );
  v_assert( m::getFirst( x ) == x && m::getSecond( x ) == x && m::getFirst( f ) == f && m::getSecond( f ) == f, "the value of a scalar" );
}
