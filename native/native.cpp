// Native meaning of the specification vocabulary (harness/vspec.hpp): runs the same contract harnesses against the real
// code with concrete inputs, to turn a failed obligation into a failing input and to replay it.
//
//   prog --search HARNESS --seconds S --seed N [--hints FILE] [--out FILE]   random + hinted search, exit 1 when a failing input was found
//   prog --replay FILE                                      run one recorded input, exit 1 when it fails (again)
#include "vspec.hpp"
#include "system.hpp"
#include <algorithm>
#include <typeinfo>
#include <chrono>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <exception>
#include <map>
#include <random>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>

extern "C" int __sanitizer_install_malloc_and_free_hooks( void (*m)( const volatile void *, size_t ), void (*f)( const volatile void * ) );

namespace
{
struct Shared
{
  int status;            // 0 running, 1 violation recorded
  char what[512];
  char harness[128];
  I n;
  I tape[4096];
  char names[4096][24];
  I iterations, rejected, ended;
};
Shared * sh;
std::mt19937_64 * rng;
std::vector< I > replayTape;
bool replaying = false;
std::map< std::string, std::vector< I > > * hints;
std::map< std::string, int > * hintPos;
bool useHints = false;
int sizeMode = 0;
jmp_buf top;
bool abortOk = false;
char const * abortKind = nullptr;
int inRuntime = 0;

struct Block { size_t n; bool lib; };
std::map< uintptr_t, Block > * blocks;               // live heap blocks allocated while a harness runs
std::unordered_map< uintptr_t, I > * cells;          // lifetime registry of tracked elements
std::map< uintptr_t, std::pair< size_t, std::vector< I > > > * snaps;
I trackV, trackCnt;
bool tracking;

struct Rt { Rt() { ++inRuntime; } ~Rt() { --inRuntime; } };

[[noreturn]] void violation( char const * what )
{
  if( sh->status == 0 )
  {
    sh->status = 1;
    snprintf( sh->what, sizeof( sh->what ), "%s", what );
  }
  _exit( 3 );
}
[[noreturn]] void reject() { longjmp( top, 1 ); }
[[noreturn]] void endPath() { longjmp( top, 2 ); }

void onMalloc( const volatile void * p, size_t n )
{
  if( inRuntime || !blocks ) return;
  Rt r;
  (*blocks)[ uintptr_t( p ) ] = Block{ n, true };
}
void onFree( const volatile void * p )
{
  if( inRuntime || !blocks ) return;
  Rt r;
  auto it = blocks->find( uintptr_t( p ) );
  if( it == blocks->end() ) return;
  for( size_t k = 0; k + 8 <= it->second.n; k += 8 )
  {
    auto c = cells->find( uintptr_t( p ) + k );
    if( c != cells->end() )
    {
      if( c->second != 0 ) violation( "no live element in freed storage (no leak)" );
      cells->erase( c );
    }
  }
  blocks->erase( it );
}

I draw( char const * name, I lo, I hi, int cls )
{
  Rt r;
  if( replaying )
  {
    I v = sh->n < I( replayTape.size() ) ? replayTape[ sh->n ] : lo;
    sh->tape[ sh->n++ ] = v;
    return v;
  }
  if( sh->n >= 4096 ) reject();
  auto & g = *rng;
  I v = 0;
  bool done = false;
  if( useHints )
  {
    auto it = hints->find( name );
    if( it != hints->end() )
    {
      int & p = (*hintPos)[ name ];
      v = it->second[ p++ % it->second.size() ];
      done = v >= lo && v <= hi;
    }
  }
  if( !done )
  {
    auto U = [&]( I a, I b ) { return a + I( g() % ( uint64_t( b ) - uint64_t( a ) + 1 ) ); };
    uint64_t const width = uint64_t( hi ) - uint64_t( lo );
    if( cls == 1 ) v = I( g() & 1 );
    else if( width <= 16 ) v = U( lo, hi );
    else if( hi == VMAX )      // element counts, ordinary values
    {
      int const k = int( g() % 100 );
      I const m = sizeMode == 0 ? 5 : sizeMode == 1 ? 12 : 200;
      v = k < 70 ? U( lo, lo + m ) : k < 95 ? U( lo, lo + 2 * m ) : lo;
    }
    else
    {
      int const k = int( g() % 100 );
      if( k < 45 ) v = U( -3, 8 );
      else if( k < 60 ) v = lo + U( 0, 3 );
      else if( k < 75 ) v = hi - U( 0, 3 );
      else if( k < 90 )
      {
        I const b = I( 1 ) << ( g() % 63 );
        v = I( uint64_t( ( g() & 1 ) ? b : -b ) + uint64_t( U( -2, 2 ) ) );
      }
      else v = I( g() );
      if( v < lo || v > hi ) v = width == ~uint64_t( 0 ) ? v : I( uint64_t( lo ) + uint64_t( v ) % ( width + 1 ) );
    }
  }
  snprintf( sh->names[ sh->n ], 24, "%s", name );
  sh->tape[ sh->n++ ] = v;
  return v;
}

I getCell( void const * p )
{
  auto it = cells->find( uintptr_t( p ) );
  return it == cells->end() ? 0 : it->second;
}
void count( I oldv, I newv )
{
  if( !tracking ) return;
  if( oldv == trackV ) --trackCnt;
  if( newv == trackV ) ++trackCnt;
}
void touch( void const * p ) { volatile char c = *static_cast< char const volatile * >( p ); (void)c; }
}

std::map< std::string, void (*)() > & registry()
{
  static std::map< std::string, void (*)() > r;
  return r;
}
VReg::VReg( char const * name, void (*f)() ) { registry()[ name ] = f; }

extern "C"
{
I v_nd( char const * name ) noexcept { return draw( name, INT64_MIN, INT64_MAX, 0 ); }
I v_nd_in( char const * name, I lo, I hi ) noexcept { if( lo > hi ) reject(); return draw( name, lo, hi, 0 ); }
bool v_nd_bool( char const * name ) noexcept { return draw( name, 0, 1, 1 ) != 0; }
double v_nd_real( char const * name ) noexcept { return double( draw( name, -12, 12, 0 ) ) / ( 1 << ( draw( name, 0, 3, 0 ) ) ); }
double v_lib( char const * name, double x ) noexcept
{
  static std::map< std::string, double (*)( double ) > const f = { { "sqrt", ::sqrt }, { "sin", ::sin }, { "cos", ::cos }, { "tan", ::tan }, { "asin", ::asin }, { "acos", ::acos },
    { "exp", ::exp }, { "log", ::log } };
  static std::map< std::string, float (*)( float ) > const g = { { "sqrtf", ::sqrtf }, { "sinf", ::sinf }, { "cosf", ::cosf }, { "tanf", ::tanf }, { "asinf", ::asinf }, { "acosf", ::acosf },
    { "expf", ::expf }, { "logf", ::logf } };
  auto const i = f.find( name );
  return i != f.end() ? i->second( x ) : double( g.at( name )( float( x ) ) );
}
double v_lib2( char const * name, double x, double y ) noexcept
{ return std::string( name ) == "atan2" ? ::atan2( x, y ) : double( ::atan2f( float( x ), float( y ) ) ); }
bool v_eqr( double a, double b ) noexcept { return std::fabs( a - b ) <= 1e-9 * std::max( 1.0, std::max( std::fabs( a ), std::fabs( b ) ) ); }
void v_assume( bool b ) noexcept { if( !b ) reject(); }
void v_assert( bool b, char const * name ) noexcept { if( !b ) violation( name ); }
void v_unreachable( char const * name ) noexcept { violation( name ); }
void v_abort_ok( bool b ) noexcept { abortOk = b; }
void v_abort_kind( char const * k ) noexcept { abortOk = true; abortKind = k; }
void v_note( char const * ) noexcept {}
void * v_obj( char const * name, I n, int width, int kind ) noexcept
{
  if( n < 0 || n > 4096 ) reject();
  char * p;
  {
    Rt r;
    p = static_cast< char * >( malloc( n * width ? n * width : 1 ) );
    (*blocks)[ uintptr_t( p ) ] = Block{ size_t( n ) * width, false };
  }
  auto & g = *rng;
  int const style = replaying ? int( draw( name, 0, 3, 0 ) ) : int( draw( name, 0, 3, 0 ) );
  I const seed = draw( name, 0, 1 << 20, 0 );
  Rt r;
  std::mt19937_64 h( seed * 4 + style );
  (void)g;
  for( I i = 0; i < n; ++i )
  {
    I v = style == 0 ? I( h() % 4 ) : style == 1 ? I( h() % 12 ) - 3 : style == 2 ? I( h() % 100 ) - 20 : I( h() % 7 );
    if( kind == 1 ) { v = ( v < 0 ? -v : v ) + 2; (*cells)[ uintptr_t( p ) + i * 8 ] = v; }
    if( kind == 3 )
    {
      double d = style == 3 ? double( v ) : double( v ) / 2;
      if( width == 8 ) memcpy( p + i * 8, &d, 8 );
      else { float f = float( d ); memcpy( p + i * 4, &f, 4 ); }
    }
    else memcpy( p + i * width, &v, width );
  }
  return p;
}
void * v_obj_live( char const * name, I cap, I n ) noexcept
{
  if( n < 0 || cap < n || cap > 4096 ) reject();
  I const style = draw( name, 0, 3, 0 ), seed = draw( name, 0, 1 << 20, 0 );
  Rt r;
  char * p = static_cast< char * >( malloc( cap * 8 ? cap * 8 : 1 ) );
  (*blocks)[ uintptr_t( p ) ] = Block{ size_t( cap ) * 8, false };
  memset( p, 0, cap * 8 );
  std::mt19937_64 h( seed * 4 + style );
  for( I i = 0; i < n; ++i ) (*cells)[ uintptr_t( p ) + i * 8 ] = 2 + I( h() % ( style == 0 ? 3 : style == 1 ? 10 : 40 ) );
  return p;
}
void v_sorted( void const * p, I n, bool strict, int width ) noexcept
{
  if( n <= 0 ) return;
  Rt r;
  bool const tr = width == 8 && cells->count( uintptr_t( p ) );
  std::vector< I > v( n );
  char * q = static_cast< char * >( const_cast< void * >( p ) );
  for( I i = 0; i < n; ++i )
  {
    if( tr ) v[ i ] = getCell( q + 8 * i );
    else if( width == 8 ) memcpy( &v[ i ], q + 8 * i, 8 );
    else { int32_t x; memcpy( &x, q + 4 * i, 4 ); v[ i ] = x; }
  }
  std::sort( v.begin(), v.end() );
  if( strict ) for( I i = 1; i < n; ++i ) if( v[ i ] <= v[ i - 1 ] ) v[ i ] = v[ i - 1 ] + 1;
  for( I i = 0; i < n; ++i )
  {
    if( tr ) (*cells)[ uintptr_t( q ) + 8 * i ] = v[ i ];
    else if( width == 8 ) memcpy( q + 8 * i, &v[ i ], 8 );
    else { int32_t x = int32_t( v[ i ] ); memcpy( q + 4 * i, &x, 4 ); }
  }
}
void const * v_snap( void const * p ) noexcept
{
  if( p == nullptr ) return p;
  Rt r;
  auto it = blocks->upper_bound( uintptr_t( p ) );
  if( it == blocks->begin() ) return p;
  --it;
  size_t const n = it->second.n, off = uintptr_t( p ) - it->first;
  if( off > n ) return p;
  char * q = static_cast< char * >( malloc( n ? n : 1 ) );
  memcpy( q, reinterpret_cast< void * >( it->first ), n );
  for( size_t k = 0; k + 8 <= n; k += 8 )
  {
    auto c = cells->find( it->first + k );
    if( c != cells->end() ) (*cells)[ uintptr_t( q ) + k ] = c->second;
  }
  return q + off;
}
I v_cell( void const * p, I i ) noexcept
{
  I v;
  char const * q = static_cast< char const * >( p ) + 8 * i;
  memcpy( &v, q, 8 );
  return v;
}
I v_cell_tr( void const * p, I i ) noexcept { Rt r; return getCell( static_cast< char const * >( p ) + 8 * i ); }
I v_q_begin( I lo, I ) noexcept { return lo; }
void v_q_end( I, bool ) noexcept {}
void v_q_end2( I, I, bool ) noexcept {}
bool v_forall( I, bool b ) noexcept { return b; }
bool v_forall2( I, I, bool b ) noexcept { return b; }
bool v_exists( I, bool b ) noexcept { return b; }
void v_permute( void *, I, I ) noexcept {}
void v_havoc( void *, I, I ) noexcept {}
void * v_pairing( void * p, void * b, I n ) noexcept
{
  Rt r;
  I m = 2;
  for( I i = 0; i < n; ++i ) m = std::max( m, (*cells)[ uintptr_t( b ) + 8 * i ] + 1 );
  char * g = static_cast< char * >( malloc( m * 8 ) );
  (*blocks)[ uintptr_t( g ) ] = Block{ size_t( m ) * 8, false };
  memset( g, 0, m * 8 );
  for( I i = 0; i < m; ++i ) (*cells)[ uintptr_t( g ) + 8 * i ] = ( I( 1 ) << 40 ) + i / 2;
  for( I i = 0; i < n; ++i ) (*cells)[ uintptr_t( p ) + 8 * i ] = (*cells)[ uintptr_t( g ) + 8 * (*cells)[ uintptr_t( b ) + 8 * i ] ];
  return g;
}
void v_hint( bool (*)( void const *, I ), void const *, int, int, int, int, int ) noexcept {}
void v_templates( int ) noexcept {}
void v_hint_clear() noexcept {}
I v_track() noexcept { trackV = draw( "trackV", 2, 10, 0 ); trackCnt = 0; tracking = true; return trackV; }
I v_track_count() noexcept { return trackCnt; }
void v_own( void * p ) noexcept { Rt r; (*blocks)[ uintptr_t( p ) ].lib = true; }
I v_heap_live() noexcept
{
  I c = 0;
  for( auto & b : *blocks ) if( b.second.lib ) ++c;
  return c;
}
static std::map< std::string, I > * ghosts;
I v_ghost_get( char const * n ) noexcept { Rt r; return (*ghosts)[ n ]; }
void v_ghost_set( char const * n, I v ) noexcept { Rt r; (*ghosts)[ n ] = v; }

void tr_ctor( void * p, I v ) noexcept
{
  touch( p );
  Rt r;
  if( getCell( p ) > 1 ) violation( "no construction over a live element" );
  (*cells)[ uintptr_t( p ) ] = v;
  count( 0, v );
}
void tr_copy( void * p, void const * q ) noexcept
{
  touch( p ); touch( q );
  Rt r;
  I const v = getCell( q );
  if( v < 2 ) violation( "source of a copy construction is a live element" );
  if( getCell( p ) > 1 ) violation( "no construction over a live element" );
  (*cells)[ uintptr_t( p ) ] = v;
  count( 0, v );
}
void tr_move( void * p, void * q ) noexcept
{
  touch( p ); touch( q );
  Rt r;
  I const v = getCell( q );
  if( v < 1 ) violation( "source of a move construction is a live element" );
  if( getCell( p ) > 1 ) violation( "no construction over a live element" );
  (*cells)[ uintptr_t( p ) ] = v;
  (*cells)[ uintptr_t( q ) ] = 1;
}
void tr_acopy( void * p, void const * q ) noexcept
{
  touch( p ); touch( q );
  Rt r;
  I const v = getCell( q ), o = getCell( p );
  if( v < 2 ) violation( "source of a copy assignment is a live element" );
  if( o < 1 ) violation( "assignment target is a live element" );
  (*cells)[ uintptr_t( p ) ] = v;
  count( o, v );
}
void tr_amove( void * p, void * q ) noexcept
{
  touch( p ); touch( q );
  Rt r;
  I const v = getCell( q ), o = getCell( p );
  if( v < 1 ) violation( "source of a move assignment is a live element" );
  if( o < 1 ) violation( "assignment target is a live element" );
  (*cells)[ uintptr_t( p ) ] = v;
  (*cells)[ uintptr_t( q ) ] = 1;
  count( o, 0 );
}
void tr_dtor( void * p ) noexcept
{
  touch( p );
  Rt r;
  I const o = getCell( p );
  if( o < 1 ) violation( "destroyed element is live (no double destruction)" );
  cells->erase( uintptr_t( p ) );
  count( o, 0 );
}
I tr_get( void const * p ) noexcept
{
  touch( p );
  Rt r;
  I const v = getCell( p );
  if( v < 2 ) violation( "element read is live" );
  return v;
}
}

static void onError()
{
  if( abortOk && abortKind && strcmp( abortKind, "handler" ) ) violation( "error is reported as the documented exception" );
  if( abortOk ) endPath();
  violation( "no error is raised / reported" );
}

static void once( void (*f)() )
{
  Rt r;
  blocks->clear();
  cells->clear();
  ghosts->clear();
  sh->n = 0;
  tracking = false;
  abortOk = false;
  abortKind = nullptr;
  int const saved = inRuntime;
  LvArray::system::setErrorHandler( std::function< void() >( onError ) );
  int const k = setjmp( top );
  if( k == 0 )
  {
    inRuntime = 0;
    try { f(); }
    catch( std::exception const & e )
    {
      inRuntime = saved;
      if( abortKind && !strstr( typeid( e ).name(), abortKind ) ) violation( "error is reported as documented" );
      if( !abortOk ) violation( "no error is raised / reported" ); sh->ended++; }
    inRuntime = saved;
  }
  else
  {
    inRuntime = saved;
    if( k == 1 ) sh->rejected++; else sh->ended++;
  }
  for( auto & b : *blocks ) if( !b.second.lib || true ) { /* leaked on purpose: the process is short lived */ }
  sh->iterations++;
}

static void child( void (*f)(), double seconds, uint64_t seed )
{
  struct rlimit rl = { 0, 0 };
  setrlimit( RLIMIT_CORE, &rl );
  std::mt19937_64 g( seed );
  rng = &g;
  auto const t0 = std::chrono::steady_clock::now();
  for( I it = 0;; ++it )
  {
    useHints = !hints->empty() && it % 3 == 0;
    sizeMode = int( it % 17 == 0 ? 2 : it % 3 == 1 ? 1 : 0 );
    hintPos->clear();
    alarm( 20 );
    once( f );
    if( it % 64 == 0 && std::chrono::duration< double >( std::chrono::steady_clock::now() - t0 ).count() > seconds ) break;
    if( it % 4096 == 0 )
    {
      long pages = 0;
      if( FILE * fp = fopen( "/proc/self/statm", "r" ) ) { long x; if( fscanf( fp, "%ld %ld", &x, &pages ) != 2 ) pages = 0; fclose( fp ); }
      if( pages * 4096L > 3000L * 1024 * 1024 ) _exit( 7 );      // leaked blocks: start a fresh process
    }
  }
  _exit( 0 );
}

int main( int argc, char ** argv )
{
  std::map< std::string, std::string > a;
  for( int i = 1; i + 1 < argc; i += 2 ) a[ argv[ i ] ] = argv[ i + 1 ];
  sh = static_cast< Shared * >( mmap( nullptr, sizeof( Shared ), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0 ) );
  blocks = new std::map< uintptr_t, Block >;
  cells = new std::unordered_map< uintptr_t, I >;
  ghosts = new std::map< std::string, I >;
  hints = new std::map< std::string, std::vector< I > >;
  hintPos = new std::map< std::string, int >;
  inRuntime = 1;
  __sanitizer_install_malloc_and_free_hooks( onMalloc, onFree );
  LvArray::system::setErrorHandler( std::function< void() >( onError ) );
  std::string harness = a[ "--search" ], out = a[ "--out" ];
  if( a.count( "--replay" ) )
  {
    FILE * fp = fopen( a[ "--replay" ].c_str(), "r" );
    if( !fp ) return 2;
    char line[ 4096 ];
    while( fgets( line, sizeof( line ), fp ) )
    {
      char h[ 256 ];
      long long v;
      char nm[ 256 ];
      if( sscanf( line, "harness %255s", h ) == 1 ) harness = h;
      else if( sscanf( line, "choice %255s %lld", nm, &v ) == 2 ) replayTape.push_back( v );
    }
    fclose( fp );
    replaying = true;
  }
  if( a.count( "--hints" ) )
  {
    if( FILE * fp = fopen( a[ "--hints" ].c_str(), "r" ) )
    {
      char nm[ 256 ];
      long long v;
      while( fscanf( fp, "%255s %lld", nm, &v ) == 2 ) (*hints)[ nm ].push_back( v );
      fclose( fp );
    }
  }
  auto it = registry().find( harness );
  if( it == registry().end() ) { fprintf( stderr, "no harness %s\n", harness.c_str() ); return 2; }
  double const seconds = a.count( "--seconds" ) ? atof( a[ "--seconds" ].c_str() ) : 5;
  uint64_t const seed = a.count( "--seed" ) ? strtoull( a[ "--seed" ].c_str(), nullptr, 10 ) : 1;
  auto const t0 = std::chrono::steady_clock::now();
  for( int round = 0;; ++round )
  {
    double const left = seconds - std::chrono::duration< double >( std::chrono::steady_clock::now() - t0 ).count();
    if( left <= 0 && round ) break;
    fflush( nullptr );
    int fds[ 2 ];
    if( pipe( fds ) ) return 2;
    pid_t const pid = fork();
    if( pid == 0 )
    {
      close( fds[ 0 ] );
      dup2( fds[ 1 ], 2 );
      int const null = open( "/dev/null", O_WRONLY );
      dup2( null, 1 );
      if( replaying ) { alarm( 60 ); std::mt19937_64 g( 1 ); rng = &g; once( it->second ); _exit( 0 ); }
      child( it->second, left, seed * 1000 + round );
    }
    close( fds[ 1 ] );
    std::string err;
    char buf[ 4096 ];
    ssize_t k;
    while( ( k = read( fds[ 0 ], buf, sizeof( buf ) ) ) > 0 ) if( err.size() < 6000 ) err.append( buf, k );
    close( fds[ 0 ] );
    int st = 0;
    waitpid( pid, &st, 0 );
    if( WIFEXITED( st ) && WEXITSTATUS( st ) == 0 ) break;
    if( WIFEXITED( st ) && WEXITSTATUS( st ) == 7 ) continue;
    std::string what = sh->what;
    if( sh->status == 0 )
    {
      if( WIFSIGNALED( st ) && WTERMSIG( st ) == SIGALRM ) what = "the call does not terminate (60 s)";
      else
      {
        what = "crash";
        size_t p = err.find( "ERROR: AddressSanitizer:" );
        if( p == std::string::npos ) p = err.find( "runtime error:" );
        if( p != std::string::npos ) { size_t e = err.find( '\n', p ); what = err.substr( p, e - p ); }
      }
    }
    printf( "FAILS harness=%s : %s\n", harness.c_str(), what.c_str() );
    FILE * fp = out.empty() ? stdout : fopen( out.c_str(), "w" );
    if( fp )
    {
      fprintf( fp, "harness %s\nfails %s\n", harness.c_str(), what.c_str() );
      for( I i = 0; i < sh->n; ++i ) fprintf( fp, "choice %s %lld\n", sh->names[ i ][ 0 ] ? sh->names[ i ] : "x", (long long)sh->tape[ i ] );
      if( !err.empty() && sh->status == 0 ) fprintf( fp, "# sanitizer output\n%s\n", err.c_str() );
      if( fp != stdout ) fclose( fp );
    }
    return 1;
  }
  printf( "ok harness=%s iterations=%lld rejected=%lld\n", harness.c_str(), (long long)sh->iterations, (long long)sh->rejected );
  return 0;
}
