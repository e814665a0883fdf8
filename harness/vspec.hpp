// Specification vocabulary of the contract harnesses.
//
// Every harness is compiled twice from the same text: to LLVM IR for the verifier (LV_VERIFY), where these functions
// are intrinsics with a logical meaning, and natively, where they run, so that a failed obligation can be replayed
// against the real code with concrete inputs.
#pragma once
#include <cstddef>
#include <cstdint>
#include <utility>

using I = std::ptrdiff_t;

extern "C"
{
I v_nd( char const * name ) noexcept;                         // any 64-bit value
I v_nd_in( char const * name, I lo, I hi ) noexcept;          // any value in [lo, hi]
bool v_nd_bool( char const * name ) noexcept;
double v_nd_real( char const * name ) noexcept;
double v_lib( char const * name, double x ) noexcept;          // the C library function of that name
double v_lib2( char const * name, double x, double y ) noexcept;
bool v_eqr( double a, double b ) noexcept;                    // equal as reals (natively: up to rounding)
void v_assume( bool ) noexcept;
void v_assert( bool, char const * name ) noexcept;
void v_unreachable( char const * name ) noexcept;             // reaching this call is a violation
void v_abort_ok( bool ) noexcept;                             // whether a reported library error is acceptable from here on
void v_abort_kind( char const * ) noexcept;                   // ... and how: "handler", or an exception whose type name contains this
void v_note( char const * ) noexcept;
void * v_obj( char const * name, I n, int width, int kind ) noexcept;
void * v_obj_live( char const * name, I cap, I n ) noexcept;  // tracked storage for cap elements, the first n live
void v_sorted( void const * p, I n, bool strict, int width ) noexcept;    // precondition: p[0,n) ascending
void * v_pairing( void * p, void * b, I n ) noexcept;         // precondition: p[j] == g[b[j]], for the array g returned
void v_permute( void * p, I lo, I hi ) noexcept;              // contract of a callee: rearranges the live elements [lo, hi)
void v_havoc( void * p, I lo, I hi ) noexcept;                 // contract of a callee: the tracked cells [lo, hi) may change
void const * v_snap( void const * p ) noexcept;               // ghost copy of the object p points into
I v_cell( void const * p, I i ) noexcept;                     // contents of the i-th 8-byte cell (0 none, 1 moved-from, else the value)
I v_q_begin( I lo, I hi ) noexcept;
void v_q_end( I j, bool body ) noexcept;
void v_q_end2( I i, I j, bool body ) noexcept;
bool v_forall( I j, bool body ) noexcept;
bool v_forall2( I i, I j, bool body ) noexcept;
bool v_exists( I j, bool body ) noexcept;
void v_hint( bool (*fn)( void const *, I ), void const * ctx, int loop, int outer, int cells, int arrays, int measure ) noexcept;
void v_hint_clear() noexcept;
void v_templates( int on ) noexcept;
I v_track() noexcept;                                         // an arbitrary value; count its live occurrences from now on
I v_track_count() noexcept;                                   // change of that count
void v_own( void * p ) noexcept;                              // that object was obtained from malloc
I v_heap_live() noexcept;                                     // heap blocks not freed
I v_ghost_get( char const * ) noexcept;
void v_ghost_set( char const *, I ) noexcept;

void tr_ctor( void *, I ) noexcept;
void tr_copy( void *, void const * ) noexcept;
void tr_move( void *, void * ) noexcept;
void tr_acopy( void *, void const * ) noexcept;
void tr_amove( void *, void * ) noexcept;
void tr_dtor( void * ) noexcept;
I tr_get( void const * ) noexcept;
}

// An element type about which the code can only know what the C++ object model tells it: construction, copy, move,
// assignment, destruction (each one checked against the object's lifetime) and a total order on values.
struct Tr
{
  I v;
  Tr( I x ) noexcept { tr_ctor( this, x ); }
  Tr() noexcept { tr_ctor( this, 2 ); }
  Tr( Tr const & o ) noexcept { tr_copy( this, &o ); }
  Tr( Tr && o ) noexcept { tr_move( this, &o ); }
  ~Tr() noexcept { tr_dtor( this ); }
  Tr & operator=( Tr const & o ) noexcept { tr_acopy( this, &o ); return *this; }
  Tr & operator=( Tr && o ) noexcept { tr_amove( this, &o ); return *this; }
  I get() const noexcept { return tr_get( this ); }
  friend bool operator<( Tr const & a, Tr const & b ) noexcept { return tr_get( &a ) < tr_get( &b ); }
  friend bool operator>( Tr const & a, Tr const & b ) noexcept { return tr_get( &a ) > tr_get( &b ); }
  friend bool operator<=( Tr const & a, Tr const & b ) noexcept { return tr_get( &a ) <= tr_get( &b ); }
  friend bool operator>=( Tr const & a, Tr const & b ) noexcept { return tr_get( &a ) >= tr_get( &b ); }
  friend bool operator==( Tr const & a, Tr const & b ) noexcept { return tr_get( &a ) == tr_get( &b ); }
  friend bool operator!=( Tr const & a, Tr const & b ) noexcept { return tr_get( &a ) != tr_get( &b ); }
};

constexpr I VMAX = I( 1 ) << 30;     // size limit of the unbounded harnesses (element counts, offsets)

// raw state of the i-th tracked element / ordinary 8-byte integer of an object
inline I cell( void const * p, I i ) { return v_cell( p, i ); }
#ifndef LV_VERIFY
extern "C" I v_cell_tr( void const * p, I i ) noexcept;
inline I cell( Tr const * p, I i ) { return v_cell_tr( p, i ); }
#endif

#ifdef LV_VERIFY
// formulas (for invariant templates)
template< typename F > inline bool all( I lo, I hi, F && f )
{ I const j = v_q_begin( lo, hi ); return v_forall( j, !( ( j >= lo ) & ( j < hi ) ) | f( j ) ); }
// p[lo, hi) is ascending (strictly)
template< typename T > inline bool asc( T const * p, I lo, I hi )
{ I const i = v_q_begin( lo, hi ), j = v_q_begin( lo, hi ); return v_forall2( i, j, !( ( i >= lo ) & ( i < j ) & ( j < hi ) ) | ( cell( p, i ) <= cell( p, j ) ) ); }
template< typename T > inline bool sasc( T const * p, I lo, I hi )
{ I const i = v_q_begin( lo, hi ), j = v_q_begin( lo, hi ); return v_forall2( i, j, !( ( i >= lo ) & ( i < j ) & ( j < hi ) ) | ( cell( p, i ) < cell( p, j ) ) ); }
template< typename F > inline bool some( I lo, I hi, F && f )
{ I const j = v_q_begin( lo, hi ); return v_exists( j, ( j >= lo ) & ( j < hi ) & f( j ) ); }
// for all j in [lo, hi): body(j)      (as an obligation: for an arbitrary such j)
template< typename F > inline void check_forall( char const * name, I lo, I hi, F && f )
{
  if( v_nd_bool( "check" ) )      // a side path per obligation, which ends here
  {
    I const j = v_nd( "j" );
    v_assume( ( j >= lo ) & ( j < hi ) );
    v_assert( f( j ), name );
    v_assume( false );
  }
}
template< typename F > inline void check_forall2( char const * name, I lo, I hi, F && f )      // for all lo <= i < j < hi
{
  if( v_nd_bool( "check" ) )
  {
    I const i = v_nd( "i" ), j = v_nd( "j" );
    v_assume( ( i >= lo ) & ( i < j ) & ( j < hi ) );
    v_assert( f( i, j ), name );
    v_assume( false );
  }
}
template< typename F > inline void assume_forall( I lo, I hi, F && f )
{
  I const j = v_q_begin( lo, hi );
  v_q_end( j, !( ( j >= lo ) & ( j < hi ) ) | f( j ) );
}
template< typename F > inline void assume_forall2( I lo, I hi, F && f )
{
  I const i = v_q_begin( lo, hi );
  I const j = v_q_begin( lo, hi );
  v_q_end2( i, j, !( ( i >= lo ) & ( i < hi ) & ( j >= lo ) & ( j < hi ) ) | f( i, j ) );
}
// obligation: there is a j in [lo, hi) with f(j)
template< typename F > inline void check_exists( char const * name, I lo, I hi, F && f )
{
  if( v_nd_bool( "ex" ) )
  {
    I const j = v_q_begin( lo, hi );
    v_q_end( j, !( ( j >= lo ) & ( j < hi ) & f( j ) ) );
    v_unreachable( name );
  }
}
#else
template< typename F > inline bool all( I lo, I hi, F && f ) { for( I j = lo; j < hi; ++j ) if( !f( j ) ) return false; return true; }
template< typename T > inline bool asc( T const * p, I lo, I hi ) { for( I j = lo + 1; j < hi; ++j ) if( cell( p, j ) < cell( p, j - 1 ) ) return false; return true; }
template< typename T > inline bool sasc( T const * p, I lo, I hi ) { for( I j = lo + 1; j < hi; ++j ) if( cell( p, j ) <= cell( p, j - 1 ) ) return false; return true; }
template< typename F > inline void check_forall2( char const * name, I lo, I hi, F && f )
{ for( I i = lo; i < hi; ++i ) for( I j = i + 1; j < hi; ++j ) v_assert( f( i, j ), name ); }
template< typename F > inline bool some( I lo, I hi, F && f ) { for( I j = lo; j < hi; ++j ) if( f( j ) ) return true; return false; }
template< typename F > inline void check_forall( char const * name, I lo, I hi, F && f )
{ for( I j = lo; j < hi; ++j ) v_assert( f( j ), name ); }
template< typename F > inline void assume_forall( I lo, I hi, F && f )
{ for( I j = lo; j < hi; ++j ) v_assume( f( j ) ); }
template< typename F > inline void assume_forall2( I lo, I hi, F && f )
{ for( I i = lo; i < hi; ++i ) for( I j = lo; j < hi; ++j ) v_assume( f( i, j ) ); }
template< typename F > inline void check_exists( char const * name, I lo, I hi, F && f )
{ bool ok = false; for( I j = lo; j < hi; ++j ) if( f( j ) ) ok = true; v_assert( ok, name ); }
#endif

// Invariant templates: instantiated for every tuple of loop-carried integers / pointers (as element offsets) of the loops
// that follow; each instance is kept only when it is proved established and preserved.
using HintFn = bool (*)( void const *, I );


#define V_HINT( nv, no, nc, na, sig, ... ) v_hint( reinterpret_cast< HintFn >( +[] sig -> bool { (void)c; return __VA_ARGS__; } ), &c, nv, no, nc, na, 0 )
// (the enclosing function declares the context as  struct Ctx { ... } const c{ ... };)
#define HINT1( a, ... ) V_HINT( 1, 0, 0, 0, ( Ctx const & c, I a ), __VA_ARGS__ )
#define HINT2( a, b, ... ) V_HINT( 2, 0, 0, 0, ( Ctx const & c, I a, I b ), __VA_ARGS__ )
#define HINT3( a, b, d, ... ) V_HINT( 3, 0, 0, 0, ( Ctx const & c, I a, I b, I d ), __VA_ARGS__ )
// ... the first argument is a pointer, the others are integers (P), or all are integers (I)
#define V_HINTK( nv, kinds, sig, ... ) v_hint( reinterpret_cast< HintFn >( +[] sig -> bool { (void)c; return __VA_ARGS__; } ), &c, nv, 0, 0, 0, ( kinds ) << 1 )
#define HINT1P( a, ... ) V_HINTK( 1, 1, ( Ctx const & c, I a ), __VA_ARGS__ )
#define HINT2P( a, b, ... ) V_HINTK( 2, 1 | 2 << 2, ( Ctx const & c, I a, I b ), __VA_ARGS__ )
#define HINT3P( a, b, d, ... ) V_HINTK( 3, 1 | 2 << 2 | 2 << 4, ( Ctx const & c, I a, I b, I d ), __VA_ARGS__ )
#define HINT4P( a, b, d, e, ... ) V_HINTK( 4, 1 | 2 << 2 | 2 << 4 | 2 << 6, ( Ctx const & c, I a, I b, I d, I e ), __VA_ARGS__ )
#define HINT1I( a, ... ) V_HINTK( 1, 2, ( Ctx const & c, I a ), __VA_ARGS__ )
#define HINT2I( a, b, ... ) V_HINTK( 2, 2 | 2 << 2, ( Ctx const & c, I a, I b ), __VA_ARGS__ )
// ... the last arguments range over values fixed outside the loop (O) and contents of local objects the loop does not change (C)
#define HINT1O( a, o, ... ) V_HINT( 1, 1, 0, 0, ( Ctx const & c, I a, I o ), __VA_ARGS__ )
#define HINT2O( a, b, o, ... ) V_HINT( 2, 1, 0, 0, ( Ctx const & c, I a, I b, I o ), __VA_ARGS__ )
#define HINT1C( a, k, ... ) V_HINT( 1, 0, 1, 0, ( Ctx const & c, I a, I k ), __VA_ARGS__ )
#define HINT2C( a, b, k, ... ) V_HINT( 2, 0, 1, 0, ( Ctx const & c, I a, I b, I k ), __VA_ARGS__ )
#define HINT1OC( a, o, k, ... ) V_HINT( 1, 1, 1, 0, ( Ctx const & c, I a, I o, I k ), __VA_ARGS__ )
#define HINT2OC( a, b, o, k, ... ) V_HINT( 2, 1, 1, 0, ( Ctx const & c, I a, I b, I o, I k ), __VA_ARGS__ )
// ... or is a local array
#define HINT1A( a, r, ... ) V_HINT( 1, 0, 0, 1, ( Ctx const & c, I a, I const * r ), __VA_ARGS__ )

// A termination measure (not negative, smaller after every iteration) over the loop-carried value a and the local array r.
#define MEASURE1A( a, r, ... ) v_hint( reinterpret_cast< HintFn >( +[]( Ctx const & c, I a, I const * r ) -> I { (void)c; return __VA_ARGS__; } ), &c, 1, 0, 0, 1, 1 )

template< typename T > inline T const * snap( T const * p ) { return static_cast< T const * >( v_snap( p ) ); }
constexpr I VPAIR = I( 1 ) << 40;     // v_pairing: the values of p are at least, those of b less than this
inline Tr * live( char const * name, I cap, I n ) { return static_cast< Tr * >( v_obj_live( name, cap, n ) ); }
inline I * ints( char const * name, I n ) { return static_cast< I * >( v_obj( name, n, 8, 0 ) ); }
inline double * reals( char const * name, I n ) { return static_cast< double * >( v_obj( name, n, 8, 3 ) ); }
inline I nd( char const * name ) { return v_nd( name ); }
inline I nd( char const * name, I lo, I hi ) { return v_nd_in( name, lo, hi ); }
inline I val( char const * name ) { return v_nd_in( name, 2, VMAX ); }   // an ordinary element value

#ifdef LV_VERIFY
#define HARNESS( name ) extern "C" void H_##name()
#else
struct VReg { VReg( char const * name, void (*f)() ); };
#define HARNESS( name ) extern "C" void H_##name(); static VReg const reg_##name( "H_" #name, H_##name ); extern "C" void H_##name()
#endif
