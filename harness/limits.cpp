// Contracts of LvArray::integerConversion (src/limits.hpp) for every pair of fixed-width integer types.
#include "vspec.hpp"
#include "limits.hpp"
#include <limits>

namespace
{
template< typename IN > IN any()
{ return IN( nd( "input" ) ); }

// whether the mathematical value of x is a value of OUT
template< typename OUT, typename IN > bool fits( IN const x )
{
  if( std::is_signed< IN >::value && x < IN( 0 ) )
    return std::is_signed< OUT >::value && std::int64_t( x ) >= std::int64_t( std::numeric_limits< OUT >::min() );
  return std::uint64_t( x ) <= std::uint64_t( std::numeric_limits< OUT >::max() );
}
template< typename OUT, typename IN > bool same( IN const x, OUT const y )
{
  bool const nx = std::is_signed< IN >::value && x < IN( 0 ), ny = std::is_signed< OUT >::value && y < OUT( 0 );
  return nx == ny && std::uint64_t( std::int64_t( x ) ) == std::uint64_t( std::int64_t( y ) );
}
}

#define CONV( IN, OUT ) \
HARNESS( IN##_to_##OUT ) \
{ \
  std::IN##_t const x = any< std::IN##_t >(); \
  if( fits< std::OUT##_t >( x ) ) \
  { \
    std::OUT##_t const y = LvArray::integerConversion< std::OUT##_t >( x ); \
    v_assert( same( x, y ), "the value is preserved" ); \
  } \
  else \
  { \
    v_abort_kind( "handler" ); \
    LvArray::integerConversion< std::OUT##_t >( x ); \
    v_unreachable( "a value that does not fit is reported" ); \
  } \
}
#define CONVS( IN ) CONV( IN, int8 ) CONV( IN, uint8 ) CONV( IN, int16 ) CONV( IN, uint16 ) CONV( IN, int32 ) CONV( IN, uint32 ) CONV( IN, int64 ) CONV( IN, uint64 )
CONVS( int8 )
CONVS( uint8 )
CONVS( int16 )
CONVS( uint16 )
CONVS( int32 )
CONVS( uint32 )
CONVS( int64 )
CONVS( uint64 )

#define LIM( T ) \
HARNESS( limits_##T ) \
{ \
  using L = LvArray::NumericLimits< std::T##_t >; \
  LvArray::NumericLimitsNC< std::T##_t > const nc; \
  std::T##_t const x = any< std::T##_t >(); \
  v_assert( L::min <= x && x <= L::max && L::lowest <= x, "every value lies between the limits" ); \
  v_assert( L::min == std::numeric_limits< std::T##_t >::min() && L::max == std::numeric_limits< std::T##_t >::max() && L::lowest == L::min, "the limits are values of the type" ); \
  v_assert( nc.min == L::min && nc.max == L::max && nc.lowest == L::lowest && nc.epsilon == L::epsilon && nc.denorm_min == L::denorm_min, "both forms of the limits agree" ); \
}
LIM( int8 ) LIM( uint8 ) LIM( int16 ) LIM( uint16 ) LIM( int32 ) LIM( uint32 ) LIM( int64 ) LIM( uint64 )

#define FLIM( T ) \
HARNESS( limits_##T ) \
{ \
  using L = LvArray::NumericLimits< T >; \
  using S = std::numeric_limits< T >; \
  LvArray::NumericLimitsNC< T > const nc; \
  v_assert( L::min == S::min() && L::max == S::max() && L::lowest == S::lowest() && L::epsilon == S::epsilon() && L::denorm_min == S::denorm_min() && L::round_error == S::round_error(), "the limits are those of the type" ); \
  v_assert( nc.min == S::min() && nc.max == S::max() && nc.lowest == S::lowest() && nc.epsilon == S::epsilon() && nc.denorm_min == S::denorm_min(), "both forms of the limits agree" ); \
}
FLIM( float ) FLIM( double )
