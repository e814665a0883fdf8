// Contracts of src/system.cpp: floating-point environment, error handler, signal handlers, stack traces, byte counts.
// The functions of the C library it calls are replaced by models (their assumed contracts, written out below); the code
// of system.cpp itself is the real one.
#include "vspec.hpp"
#include "system.hpp"
#include "Macros.hpp"
#include <map>
#include <cmath>
#include <sstream>
#include <iostream>
#include <signal.h>
#include <fenv.h>
#include <cxxabi.h>
#include <string.h>
#include <stdlib.h>
#include <pmmintrin.h>
#include <unwind.h>

namespace
{
// --- floating-point environment: one mask of trapped exceptions, one word of control bits
int fpeMask;
unsigned fpeControl;
int m_feenableexcept( int const e ) { int const old = fpeMask; fpeMask |= e & FE_ALL_EXCEPT; return old; }
int m_fedisableexcept( int const e ) { int const old = fpeMask; fpeMask &= ~( e & FE_ALL_EXCEPT ); return old; }
int m_fegetexcept() { return fpeMask; }
unsigned m_getcsr() { return fpeControl; }
void m_setcsr( unsigned const x ) { fpeControl = x; }

// --- signals: the handler installed for each signal
using Handler = void (*)( int );
Handler installed[ NSIG ];
int signalCalls;
Handler m_signal( int const sig, Handler const h )
{
  v_assert( sig > 0 && sig < NSIG, "signal numbers exist" );
  ++signalCalls;
  if( sig == SIGKILL || sig == SIGSTOP ) return SIG_ERR;
  Handler const old = installed[ sig ];
  installed[ sig ] = h;
  return old;
}

// --- stack unwinding: calls the callback for any number of frames until told to stop
I const * ips; I frames;
std::uintptr_t m_GetIP( _Unwind_Context * const c ) { return std::uintptr_t( ips[ reinterpret_cast< std::uintptr_t >( c ) - 1 ] ); }
_Unwind_Reason_Code m_Backtrace( _Unwind_Trace_Fn const f, void * const arg )
{
  for( I i = 0; i < frames; ++i )
  {
    if( f( reinterpret_cast< _Unwind_Context * >( i + 1 ), arg ) != _URC_NO_REASON ) return _URC_FATAL_PHASE1_ERROR;
  }
  return _URC_END_OF_STACK;
}
}

#ifdef LV_VERIFY
// The out-of-line half of std::map (libstdc++.so): an unbalanced search tree, which the map's interface cannot tell apart.
namespace std
{
_Rb_tree_node_base * _Rb_tree_increment( _Rb_tree_node_base * x ) throw()
{
  if( x->_M_right ) { x = x->_M_right; while( x->_M_left ) x = x->_M_left; return x; }
  _Rb_tree_node_base * y = x->_M_parent;
  while( x == y->_M_right ) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
_Rb_tree_node_base * _Rb_tree_decrement( _Rb_tree_node_base * x ) throw()
{
  if( x->_M_color == _S_red && x->_M_parent->_M_parent == x ) return x->_M_right;    // the header
  if( x->_M_left ) { x = x->_M_left; while( x->_M_right ) x = x->_M_right; return x; }
  _Rb_tree_node_base * y = x->_M_parent;
  while( x == y->_M_left ) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base const * _Rb_tree_increment( _Rb_tree_node_base const * x ) throw() { return _Rb_tree_increment( const_cast< _Rb_tree_node_base * >( x ) ); }
_Rb_tree_node_base const * _Rb_tree_decrement( _Rb_tree_node_base const * x ) throw() { return _Rb_tree_decrement( const_cast< _Rb_tree_node_base * >( x ) ); }
void _Rb_tree_insert_and_rebalance( bool const left, _Rb_tree_node_base * const x, _Rb_tree_node_base * const p, _Rb_tree_node_base & h ) throw()
{
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if( left )
  {
    p->_M_left = x;
    if( p == &h ) { h._M_parent = x; h._M_right = x; }
    else if( p == h._M_left ) h._M_left = x;
  }
  else
  {
    p->_M_right = x;
    if( p == h._M_right ) h._M_right = x;
  }
}
}
#endif

#ifdef LV_VERIFY
// snprintf( ., ., "%.1f %s", value, unit ): the text must fit; what is written is stood for by a marker.
namespace
{
double shownValue; char shownUnit; int shownCount;
}
namespace std
{
inline int m_snprintf( char * const buf, std::size_t const n, char const * const format, double const value, char const * const unit )
{
  v_assert( format[ 0 ] == '%' && format[ 1 ] == '.' && format[ 2 ] == '1' && format[ 3 ] == 'f' && format[ 4 ] == ' ' && format[ 5 ] == '%' && format[ 6 ] == 's' && format[ 7 ] == 0,
            "one decimal, then the unit" );
  v_assert( unit[ 1 ] == 'B' && unit[ 2 ] == 0, "the unit is some bytes" );
  v_assert( n >= 7, "room for the text" );
  double limit = 9.95;                         // values below this take one digit before the point
  for( std::size_t i = 7; i < n; ++i ) limit = ( limit + 0.05 ) * 10 - 0.05;
  v_assert( value < limit, "the text is not truncated" );
  shownValue = value; shownUnit = unit[ 0 ]; ++shownCount;
  buf[ 0 ] = '#'; buf[ 1 ] = 0;
  return 1;
}
}
#define snprintf m_snprintf
#endif
// the C++ library's demangler: text in memory the caller frees, or a failure status
bool mangled;
namespace __cxxabiv1
{
inline char * m_demangle( char const *, char *, size_t *, int * const status )
{
  if( !mangled ) { *status = -2; return nullptr; }
  char * const r = static_cast< char * >( std::malloc( 2 ) );
  r[ 0 ] = '#'; r[ 1 ] = 0;
  *status = 0;
  return r;
}
}
#define __cxa_demangle m_demangle
#ifndef LV_VERIFY
namespace std { struct was_abort : std::exception {}; [[noreturn]] inline void m_abort() { throw was_abort(); } }
#define abort m_abort
#endif
#define feenableexcept m_feenableexcept
#define fedisableexcept m_fedisableexcept
#define fegetexcept m_fegetexcept
#define signal( a, b ) m_signal( a, b )
#define _mm_getcsr m_getcsr
#define _mm_setcsr m_setcsr
#define _Unwind_GetIP m_GetIP
#define _Unwind_Backtrace m_Backtrace
#include "system.cpp"
namespace sys = LvArray::system;

// ---------------------------------------------------------------- floating-point environment
namespace
{
int anyExceptions( char const * name )      // any set of floating-point exceptions
{
  return int( v_nd_bool( name ) ) * FE_INVALID + int( v_nd_bool( name ) ) * FE_DIVBYZERO + int( v_nd_bool( name ) ) * FE_OVERFLOW +
         int( v_nd_bool( name ) ) * FE_UNDERFLOW + int( v_nd_bool( name ) ) * FE_INEXACT;
}
}

HARNESS( fpe_enable )
{
  int const before = anyExceptions( "before" ), e = anyExceptions( "e" );
  fpeMask = before;
  int const r = sys::enableFloatingPointExceptions( e );
  v_assert( r == before, "the previous set is returned" );
  v_assert( fpeMask == ( before | e ), "exactly the given exceptions are added" );
}

HARNESS( fpe_disable )
{
  int const before = anyExceptions( "before" ), e = anyExceptions( "e" );
  fpeMask = before;
  int const r = sys::disableFloatingPointExceptions( e );
  v_assert( r == before, "the previous set is returned" );
  v_assert( fpeMask == ( before & ~e ), "exactly the given exceptions are removed" );
}

HARNESS( fpe_default )
{
  int const before = anyExceptions( "before" );
  fpeMask = before;
  sys::enableFloatingPointExceptions();
  v_assert( sys::getDefaultFloatingPointExceptions() == ( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ), "the default set" );
  v_assert( fpeMask == ( before | FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ), "enabling by default" );
  fpeMask = before;
  sys::disableFloatingPointExceptions();
  v_assert( fpeMask == ( before & ~( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ) ), "disabling by default" );
}

HARNESS( fpe_guard )
{
  int const before = anyExceptions( "before" ), e = anyExceptions( "e" ), in = anyExceptions( "in" );
  fpeMask = before;
  {
    sys::FloatingPointExceptionGuard const g( e );
    v_assert( fpeMask == ( before & ~e ), "the given exceptions are off inside" );
    sys::disableFloatingPointExceptions( in );
  }
  v_assert( fpeMask == before, "the environment found is restored" );
  {
    sys::FloatingPointExceptionGuard const g;
    v_assert( fpeMask == ( before & ~( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ) ), "the default exceptions are off inside" );
  }
  v_assert( fpeMask == before, "the environment found is restored" );
}

HARNESS( fpe_guard_nested )
{
  int const before = anyExceptions( "before" ), e = anyExceptions( "e" ), f = anyExceptions( "f" );
  fpeMask = before;
  {
    sys::FloatingPointExceptionGuard const g( e );
    {
      sys::FloatingPointExceptionGuard const h( f );
      v_assert( fpeMask == ( before & ~e & ~f ), "nested guards" );
    }
    v_assert( fpeMask == ( before & ~e ), "the inner guard restores the outer environment" );
  }
  v_assert( fpeMask == before, "the outer guard restores" );
}

HARNESS( fpe_set )
{
  int const before = anyExceptions( "before" );
  fpeMask = before;
  fpeControl = 0; for( int k = 0; k < 16; ++k ) fpeControl += unsigned( v_nd_bool( "bit" ) ) << k;
  unsigned const c0 = fpeControl;
  sys::setFPE();
  v_assert( fpeMask == ( before | FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ), "division by zero, overflow and invalid operations trap" );
  v_assert( fpeControl == ( c0 | 0x8040u ), "denormals are flushed and treated as zero" );
}

// ---------------------------------------------------------------- error handler
namespace { int ranA, ranB; void handlerA() { ++ranA; } void handlerB() { ++ranB; } }

HARNESS( error_handler )
{
  ranA = ranB = 0;
  I const heap = v_heap_live();
  sys::s_errorHandler = nullptr;
  sys::setErrorHandler( handlerA );
  sys::callErrorHandler();
  v_assert( ranA == 1 && ranB == 0, "the installed handler runs, once" );
  sys::setErrorHandler( handlerB );
  sys::callErrorHandler();
  v_assert( ranA == 1 && ranB == 1, "the handler installed last runs" );
  v_assert( v_heap_live() == heap + 1, "replaced handlers are released" );
  I const k = nd( "calls", 0, 3 );
  for( I i = 0; i < 3; ++i ) if( i < k ) sys::callErrorHandler();
  v_assert( ranA == 1 && ranB == 1 + k, "every report runs it once" );
}

HARNESS( error_handler_none )
{
  sys::s_errorHandler = nullptr;
  v_abort_kind( "abort" );
  sys::callErrorHandler();
  v_unreachable( "without a handler the program is aborted" );
}

// ---------------------------------------------------------------- signal handlers
namespace
{
void sigA( int ) {}
void sigB( int ) {}
void sigC( int ) {}
bool fatal( I const j )       // the signals that end a program
{
  return ( j == SIGHUP ) | ( j == SIGINT ) | ( j == SIGQUIT ) | ( j == SIGILL ) | ( j == SIGTRAP ) | ( j == SIGABRT ) | ( j == SIGPOLL ) | ( j == SIGFPE ) |
         ( j == SIGBUS ) | ( j == SIGSEGV ) | ( j == SIGSYS ) | ( j == SIGPIPE ) | ( j == SIGTERM );
}
// what signal j was set to before: the default, ignored, or a handler of the program's own
Handler before( I const j, I const k )
{
  I const m = ( j + k ) % 3;
  return m == 0 ? sigA : m == 1 ? SIG_DFL : SIG_IGN;
}
void allHandled( Handler const f, I const k )
{
  for( I j = 1; j < NSIG; ++j )
  {
    if( j != SIGKILL && j != SIGSTOP ) v_assert( installed[ j ] == ( f != nullptr && fatal( j ) ? f : before( j, k ) ), "the handler is installed for exactly the fatal signals" );
  }
}
I anyKind() { return v_nd_bool( "kind0" ) ? 0 : v_nd_bool( "kind1" ) ? 1 : 2; }
void had( I const k ) { for( I i = 0; i < NSIG; ++i ) installed[ i ] = before( i, k ); }
I start()
{
  I const k = anyKind();
  had( k );
  ::new ( &sys::initialHandler ) std::map< int, Handler >();
  return k;
}
}

HARNESS( signals_set )
{
  I const k = start();
  sys::setSignalHandling( sigB );
  allHandled( sigB, k );
  sys::resetSignalHandling();
  allHandled( nullptr, k );
}

HARNESS( signals_set_twice )
{
  I const k = start();
  sys::setSignalHandling( sigB );
  sys::setSignalHandling( sigC );
  allHandled( sigC, k );
  sys::resetSignalHandling();
  allHandled( nullptr, k );
}

HARNESS( signals_again )
{
  I const k = start();
  sys::setSignalHandling( sigB );
  sys::resetSignalHandling();
  I const l = anyKind();
  had( l );      // the program changes its own handlers
  sys::setSignalHandling( sigB );
  allHandled( sigB, l );
  sys::resetSignalHandling();
  allHandled( nullptr, l );
}

// ---------------------------------------------------------------- stack traces
HARNESS( collect )
{
  frames = nd( "frames", 0, VMAX );
  I const n = nd( "maxFrames", 0, VMAX ), skip = nd( "skip", 0, VMAX );
  ips = ints( "ips", frames );
  assume_forall( 0, frames, [&]( I j ) { return cell( ips, j ) > 0; } );
  I * const buf = ints( "buf", n );
  struct Ctx { I * buf; I skip; } const c{ buf, skip };
  HINT3( i, f, k, ( i + f == c.skip + 1 + k ) & ( ( f == 0 ) | ( k == 0 ) ) & ( k >= 0 ) & ( f >= 0 ) );
  HINT1( k, all( 0, k, [&]( I j ) { return cell( c.buf, j ) == cell( ips, j + c.skip + 1 ); } ) );
  I const r = I( collect( reinterpret_cast< void * * >( buf ), std::size_t( n ), std::size_t( skip ) ) );
  I const there = frames > skip + 1 ? frames - skip - 1 : 0;
  v_assert( r == ( there < n ? there : n ), "as many frames as there are, at most the room given" );
  check_forall( "the frames in order, after those to skip", 0, r, [&]( I j ) { return cell( buf, j ) == cell( ips, j + skip + 1 ); } );
}

// ---------------------------------------------------------------- byte counts
HARNESS( calculateSize )
{
  I const hi = nd( "high", 0, ( I( 1 ) << 32 ) - 1 ), lo = nd( "low", 0, ( I( 1 ) << 32 ) - 1 );
  std::size_t const bytes = ( std::size_t( hi ) << 32 ) + std::size_t( lo );      // any 64-bit number
#ifdef LV_VERIFY
  shownCount = 0;
  std::string const r = sys::calculateSize( bytes );
  v_assert( shownCount == 1 && r.size() == 1 && r[ 0 ] == '#', "the text returned is the one formatted" );
  if( bytes >= ( std::size_t( 1 ) << 30 ) ) v_assert( shownUnit == 'G' && shownValue * 1073741824.0 == double( bytes ), "in gigabytes" );
  else if( bytes >= ( std::size_t( 1 ) << 20 ) ) v_assert( shownUnit == 'M' && shownValue * 1048576.0 == double( bytes ), "in megabytes" );
  else v_assert( shownUnit == 'K' && shownValue * 1024.0 == double( bytes ), "in kilobytes" );
#else
  std::string const r = sys::calculateSize( bytes );
  char expected[ 64 ];
  int const k = bytes >= ( std::size_t( 1 ) << 30 ) ? 3 : bytes >= ( std::size_t( 1 ) << 20 ) ? 2 : 1;
  std::snprintf( expected, sizeof( expected ), "%.1f %cB", std::ldexp( double( bytes ), -10 * k ), k == 3 ? 'G' : k == 2 ? 'M' : 'K' );
  v_assert( r == expected, "the text is the size in the unit that fits" );
#endif
}

HARNESS( demangle )
{
  I const heap = v_heap_live();
  mangled = v_nd_bool( "mangled" );
  {
    std::string const r = sys::demangle( "name" );
    v_assert( r.size() == ( mangled ? 1u : 4u ) && r[ 0 ] == ( mangled ? '#' : 'n' ), "the demangled text, or the name itself if there is none" );
    v_assert( v_heap_live() == heap, "the demangler's memory is freed" );
    std::string const s = sys::demangle( nullptr );
    v_assert( s.empty(), "no name" );
  }
  v_assert( v_heap_live() == heap, "nothing is leaked" );
}
