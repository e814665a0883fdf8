// Contracts of the error macros (src/Macros.hpp): each fires exactly when its comparison holds, in the documented way, and evaluates
// its arguments exactly once otherwise.
#include "vspec.hpp"
#include "Macros.hpp"
#include <stdexcept>

namespace
{
struct Arg { I v; mutable I n = 0; I operator()() const { ++n; return v; } };
}

#define FIRES( NAME, COND, KIND, ... ) \
HARNESS( NAME ) \
{ \
  Arg const a{ nd( "a" ) }, b{ nd( "b" ) }; \
  I const x = a.v, y = b.v; (void)x; (void)y; \
  if( COND ) \
  { \
    v_abort_kind( KIND ); \
    __VA_ARGS__; \
    v_unreachable( "the error fires when its condition holds" ); \
  } \
  else \
  { \
    __VA_ARGS__; \
    v_assert( a.n == 1 && b.n == 1, "the arguments are evaluated" ); \
  } \
}

#define CMP( OP, NAME ) \
FIRES( error_if_##NAME, x OP y, "handler", LVARRAY_ERROR_IF_##NAME( a(), b() ) ) \
FIRES( error_if_##NAME##_msg, x OP y, "handler", LVARRAY_ERROR_IF_##NAME##_MSG( a(), b(), "message" ) ) \
FIRES( throw_if_##NAME, x OP y, "runtime_error", LVARRAY_THROW_IF_##NAME( a(), b(), std::runtime_error ) ) \
FIRES( throw_if_##NAME##_msg, x OP y, "invalid_argument", LVARRAY_THROW_IF_##NAME##_MSG( a(), b(), "message", std::invalid_argument ) )

CMP( ==, EQ )
CMP( !=, NE )
CMP( <, LT )
CMP( <=, LE )
CMP( >, GT )
CMP( >=, GE )

FIRES( error_if, x == y + 0, "handler", LVARRAY_ERROR_IF( a() == b(), "message" ) )
FIRES( throw_if, x == y + 0, "out_of_range", LVARRAY_THROW_IF( a() == b(), "message", std::out_of_range ) )

// warnings and information never change control flow
HARNESS( error_always )
{
  v_abort_kind( "handler" );
  LVARRAY_ERROR( "message" );
  v_unreachable( "LVARRAY_ERROR always fires" );
}

#if defined( ASSERTS )
#define ASRT( OP, NAME ) \
FIRES( assert_##NAME, !( x OP y ), "handler", LVARRAY_ASSERT_##NAME( a(), b() ) ) \
FIRES( assert_##NAME##_msg, !( x OP y ), "handler", LVARRAY_ASSERT_##NAME##_MSG( a(), b(), "message" ) )
ASRT( ==, EQ )
ASRT( !=, NE )
ASRT( >, GT )
ASRT( >=, GE )
FIRES( assert_plain, !( x < y ), "handler", LVARRAY_ASSERT( a() < b() ) )
FIRES( assert_msg, !( x < y ), "handler", LVARRAY_ASSERT_MSG( a() < b(), "message" ) )
#else
// assertions are absent from optimised builds
HARNESS( asserts_off )
{
  Arg const a{ nd( "a" ) }, b{ nd( "b" ) };
  LVARRAY_ASSERT( a() < b() );
  LVARRAY_ASSERT_MSG( a() < b(), "message" );
  LVARRAY_ASSERT_EQ( a(), b() );
  LVARRAY_ASSERT_NE( a(), b() );
  LVARRAY_ASSERT_GT( a(), b() );
  LVARRAY_ASSERT_GE( a(), b() );
  v_assert( a.n == 0 && b.n == 0, "assertions do nothing in optimised builds" );
}
#endif
