// Contracts of the bulk operations on sorted sets (src/sortedArrayManipulation.hpp).
#include "vspec.hpp"
#include "sortedArrayManipulation.hpp"
namespace sam = LvArray::sortedArrayManipulation;
// Ghost conditions read elements that may not exist on one side of these: total for the verifier, lazy when run natively.
#ifdef LV_VERIFY
#define AND &
#define OR |
#else
#define AND &&
#define OR ||
#endif

namespace
{
// Ghost description of the two sequences o[0, n) and f[0, m): where[i] is the lower bound of f[i] in o, pre[i] the number of
// values among f[0, i) that are to be inserted (resp. removed).
struct Plan { Tr const * o, * f; I n, m; I const * where, * pre; bool ins; };
inline bool hit( Plan const & c, I i ) { return ( cell( c.where, i ) < c.n ) AND ( cell( c.o, cell( c.where, i ) ) == cell( c.f, i ) ); }
inline bool act( Plan const & c, I i ) { return hit( c, i ) != c.ins; }
inline bool step( Plan const & c, I i ) { return cell( c.pre, i + 1 ) - cell( c.pre, i ) == I( act( c, i ) ); }
// The set and the range of the operation under proof, for the assertion in find below (a step of the argument: searching the part
// of the set that is left gives the position in the whole set).
inline Plan const * thePlan;
inline Tr const * theSet, * theRange;
}

#ifdef LV_VERIFY
// The contracts of the callees in place of their bodies (find: proved in sorted.cpp and below; shiftUp, shiftDown: arrman.cpp).
namespace LvArray { namespace sortedArrayManipulation {
template<>
inline std::ptrdiff_t find< Tr, less< Tr > >( Tr const * const ptr, std::ptrdiff_t const size, Tr const & value, less< Tr > && )
{
  I const x = value.get();
  v_assert( size >= 0, "the searched size is not negative" );
  check_forall( "the searched elements are live", 0, size, [&]( I j ) { return cell( ptr, j ) >= 2; } );
  check_forall2( "the searched elements are sorted", 0, size, [&]( I i, I j ) { return cell( ptr, i ) <= cell( ptr, j ); } );
  I const r = nd( "pos", 0, VMAX );
  v_assume( r <= size );
  assume_forall( 0, r, [&]( I j ) { return cell( ptr, j ) < x; } );
  assume_forall( r, size, [&]( I j ) { return cell( ptr, j ) >= x; } );
  if( thePlan != nullptr )
  {
    I const k = &value - theRange;
    v_assume( step( *thePlan, k ) );         // the definition of pre, at this value
    if( !thePlan->ins )
    {
      I const base = ptr - theSet;
      v_assert( ( base == 0 ) OR ( k == 0 ) OR ( base == cell( thePlan->where, k - 1 ) ), "the search goes on where the previous one ended" );
      v_assert( ( base == 0 ) OR ( cell( thePlan->o, base - 1 ) < x ), "the elements before are less than the value" );
      v_assert( ( r == 0 ) OR ( cell( thePlan->o, base + r - 1 ) < x ), "the elements before the position are less than the value" );
      v_assert( ( base + r == thePlan->n ) OR ( cell( thePlan->o, base + r ) >= x ), "those at and after the position are not" );
    }
    v_assert( ( thePlan->ins ? 0 : ptr - theSet ) + r == cell( thePlan->where, k ), "the position found is the one in the whole set" );
  }
  return r;
}
} }
namespace LvArray { namespace arrayManipulation {
template<>
inline void shiftUp< Tr >( Tr * const ptr, std::ptrdiff_t const size, std::ptrdiff_t const index, std::ptrdiff_t const n )
{
  v_assert( ( 0 <= index ) AND ( index <= size ) AND ( n >= 0 ), "shiftUp: the position is inside the sequence" );
  check_forall( "shiftUp: the moved elements are live", index, size, [&]( I j ) { return cell( ptr, j ) >= 2; } );
  check_forall( "shiftUp: there is room", size, size + n, [&]( I j ) { return cell( ptr, j ) <= 1; } );
  if( n == 0 ) return;
  Tr const * const o = snap( ptr );
  v_havoc( ptr, index, size + n );
  assume_forall( index, index + n, [&]( I j ) { return cell( ptr, j ) == 0; } );
  assume_forall( index + n, size + n, [&]( I j ) { return cell( ptr, j ) == cell( o, j - n ); } );
}
template<>
inline void shiftDown< Tr >( Tr * const ptr, std::ptrdiff_t const size, std::ptrdiff_t const index, std::ptrdiff_t const n )
{
  v_assert( ( 0 <= n ) AND ( n <= index ) AND ( index <= size ), "shiftDown: the positions are inside the sequence" );
  check_forall( "shiftDown: the moved elements are live", index, size, [&]( I j ) { return cell( ptr, j ) >= 2; } );
  check_forall( "shiftDown: the targets exist", index - n, index, [&]( I j ) { return cell( ptr, j ) >= 1; } );
  if( n == 0 ) return;
  Tr const * const o = snap( ptr );
  v_havoc( ptr, index - n, size );
  assume_forall( index - n, size - n, [&]( I j ) { return cell( ptr, j ) == cell( o, j + n ); } );
  assume_forall( index - n, size, [&]( I j ) { return cell( ptr, j ) >= 1; } );
  assume_forall( size - n, size, [&]( I j ) { return ( cell( ptr, j ) == 1 ) OR ( cell( ptr, j ) == cell( o, j ) ); } );
}
} }
#endif

namespace
{
Plan plan( Tr const * o, I n, Tr const * f, I m, bool ins, bool def = false )
{
  I * const where = ints( "where", m ), * const pre = ints( "pre", m + 2 );
  Plan const c{ o, f, n, m, where, pre, ins };
#ifdef LV_VERIFY
  assume_forall( 0, m, [&]( I i ) { return ( cell( where, i ) >= 0 ) AND ( cell( where, i ) <= n ) AND ( ( cell( where, i ) == 0 ) OR ( cell( o, cell( where, i ) - 1 ) < cell( f, i ) ) )
                                           & ( ( cell( where, i ) == n ) OR ( cell( o, cell( where, i ) ) >= cell( f, i ) ) ); } );
  v_assume( ( cell( pre, 0 ) == 0 ) AND ( cell( pre, m + 1 ) == 0 ) );
  if( def ) assume_forall( 0, m, [&]( I i ) { return step( c, i ); } );
#else
  pre[ m + 1 ] = 0;
  for( I i = 0; i < m; ++i ) { I k = 0; while( k < n && cell( o, k ) < cell( f, i ) ) ++k; where[ i ] = k; }
  pre[ 0 ] = 0;
  for( I i = 0; i < m; ++i ) pre[ i + 1 ] = pre[ i ] + ( act( c, i ) ? 1 : 0 );
#endif
  return c;
}
// facts about pre that follow by induction (lemma_count)
inline bool count_fact( Plan const & c, I i, I j ) { return ( i > j ) OR ( ( cell( c.pre, i ) <= cell( c.pre, j ) ) AND ( cell( c.pre, j ) - cell( c.pre, i ) <= j - i ) ); }
inline bool count_all( Plan const & c, I i ) { return ( c.n != 0 ) OR ( cell( c.pre, i ) == ( c.ins ? i : 0 ) ); }
inline bool count_none( Plan const & c, I i ) { return c.ins OR ( cell( c.pre, i ) == cell( c.pre, c.m ) ) OR ( ( i < c.m ) AND ( cell( c.where, i ) < c.n ) ); }
void counts( Plan const & c )
{
  (void)c;
#ifdef LV_VERIFY
  assume_forall2( 0, c.m + 1, [&]( I i, I j ) { return count_fact( c, i, j ); } );
  assume_forall( 0, c.m + 1, [&]( I i ) { return count_all( c, i ); } );
  if( !c.ins ) assume_forall( 0, c.m + 1, [&]( I i ) { return count_none( c, i ); } );
#endif
}

// What the callbacks are told about an insertion.
struct InsertCalls
{
  Plan const & c; Tr * p, * q; I cap, last; I calls;
  Tr * incrementSize( Tr * const cur, I const k )
  {
    v_assert( calls == 0 && cur == p && k == cell( c.pre, c.m ), "room is asked for once, for the number of values that are absent" );
    ++calls;
    return q;
  }
  void insert( I const left, I const i, I const pos, I const prev )
  {
    v_assert( ( 0 <= i ) AND ( i < c.m ), "callback: a value of the range" );
    v_assert( act( c, i ) AND ( pos == cell( c.where, i ) ) AND ( left == cell( c.pre, i ) + 1 ) AND ( prev == last ), "callback: the value, its position and the block that moved" );
    last = pos;
  }
  void set( I const pos, I const i )
  { v_assert( ( c.n == 0 ) AND ( 0 <= i ) AND ( i < c.m ) AND ( pos == i ), "callback: value i is at position i of an empty set" ); }
};
}

template< bool INS >
void lemma_count_impl()
{
  I const n = nd( "size", 0, VMAX ), m = nd( "count", 0, VMAX );
  Tr * const p = live( "buf", n, n ), * const f = live( "values", m, m );
  v_sorted( p, n, true, 8 ); v_sorted( f, m, true, 8 );
  Plan const d = plan( p, n, f, m, INS, true );
  I const a = nd( "i", 0, VMAX ), b = nd( "j", 0, VMAX );
  v_assume( ( a <= b ) AND ( b <= m ) );
  struct Ctx { Plan d; I a; } const c{ d, a };
  v_templates( 0 );
  {
    HINT1( j, ( cell( c.d.pre, j ) >= 0 ) AND ( cell( c.d.pre, j ) <= j ) & count_all( c.d, j ) );
    for( I j = 0; j < a; ++j ) { v_assert( step( d, j ), "definition" ); }
    v_assert( ( cell( d.pre, a ) >= 0 ) AND ( cell( d.pre, a ) <= a ), "the count is at most the number of values" );
    v_assert( count_all( d, a ), "every value is absent from an empty set" );
    v_hint_clear();
  }
  assume_forall( 0, m + 1, [&]( I i ) { return ( cell( d.pre, i ) >= 0 ) AND ( cell( d.pre, i ) <= i ); } );   // a is arbitrary
  {
    HINT1( j, count_fact( c.d, c.a, j ) );
    for( I j = a; j < b; ++j ) { v_assert( step( d, j ), "definition" ); }
    v_assert( count_fact( d, a, b ), "the count grows by at most one per value" );
    v_hint_clear();
  }
  if( !INS )
  {
    HINT1( j, count_none( c.d, j ) );
    for( I j = m; j > a; )
    {
      --j;
      v_assert( step( d, j ), "definition" );
      v_assert( ( j + 1 >= m ) OR ( cell( d.where, j ) < n ) OR ( cell( d.where, j + 1 ) == n ), "values behind the end of the set are followed by such values" );
    }
    v_assert( count_none( d, a ), "values behind the end of the set are not in it" );
  }
}
HARNESS( lemma_count_insert ) { lemma_count_impl< true >(); }
HARNESS( lemma_count_remove ) { lemma_count_impl< false >(); }

HARNESS( bulk_insert )
{
  I const n = nd( "size", 0, VMAX ), m = nd( "count", 0, VMAX ), spare = nd( "spare", 0, VMAX );
  Tr * const p = live( "buf", n, n ), * const f = live( "values", m, m );
  v_sorted( p, n, true, 8 ); v_sorted( f, m, true, 8 );
  Tr const * const o = snap( p ), * const fo = snap( f );
  Plan const c = plan( o, n, fo, m, true ); counts( c );
  I const T = cell( c.pre, m );
  v_assume( ( T >= 0 ) AND ( T <= m ) );
  I const cap = n + T + spare;
  Tr * const q = live( "grown", cap, n );        // where the callback moves the elements to
  assume_forall( 0, n, [&]( I j ) { return cell( q, j ) == cell( o, j ); } );
#ifndef LV_VERIFY
  for( I j = 0; j < n; ++j ) q[ j ] = p[ j ];
#endif
  I const v = v_track(); I at = nd( "at", 0, VMAX );       // an arbitrary value, and where it is in the range (if it is)
#ifndef LV_VERIFY
  for( at = 0; at < m && cell( fo, at ) != v; ) ++at;
#endif
  v_assume( at <= m );
  assume_forall( 0, m, [&]( I i ) { return ( cell( fo, i ) != v ) OR ( i == at ); } );
  v_assume( ( at == m ) OR step( c, at ) );
  InsertCalls calls{ c, p, q, cap, n, 0 };
  {
    struct Ctx { Plan d; Tr const * q, * f; I T, v, at, cap; } const c{ calls.c, q, fo, T, v, at, cap };
    v_templates( 0 );
#define ADDED( k1, k2 ) I( ( c.at >= k1 ) AND ( c.at < k2 ) AND ( cell( c.f, c.at ) == c.v ) AND act( c.d, c.at ) )
    // an empty set is filled from the front
    HINT1P( k, ( c.d.n != 0 ) OR ( ( v_track_count() == ADDED( 0, k ) ) & all( 0, k, [&]( I j ) { return cell( c.q, j ) == cell( c.f, j ); } )
              & all( k, c.cap, [&]( I j ) { return cell( c.q, j ) == 0; } ) ) );
    // counting the absent values from the back
    HINT3P( k, u, t, ( k <= c.d.m ) AND ( ( ( k < c.d.m ) AND ( u == cell( c.d.where, k ) ) ) OR ( ( k == c.d.m ) AND ( u == c.d.n ) ) ) AND ( t == c.T - cell( c.d.pre, k ) ) );
    // inserting from the back: o[0, u) is in place, a gap for the l values left, then the final elements
    HINT3P( k, u, l, ( k <= c.d.m ) AND ( u >= 0 ) AND ( u <= c.d.n ) AND ( l == cell( c.d.pre, k ) ) AND ( ( u == c.d.n ) OR ( k == 0 ) OR ( cell( c.d.o, u ) > cell( c.f, k - 1 ) ) )
              & ( ( ( l == c.T ) AND ( u == c.d.n ) ) OR ( ( l < c.T ) AND ( ( u == 0 ) OR ( cell( c.q, u + l ) > cell( c.d.o, u - 1 ) ) )
              & ( ( k == 0 ) OR ( cell( c.f, k - 1 ) < cell( c.q, u + l ) ) ) ) ) );
    HINT2I( u, l, ( l >= 0 ) & all( 0, u, [&]( I j ) { return cell( c.q, j ) == cell( c.d.o, j ); } ) & all( u, u + l, [&]( I j ) { return cell( c.q, j ) == 0; } )
              & all( u + l, c.d.n + c.T, [&]( I j ) { return cell( c.q, j ) >= 2; } ) & sasc( c.q, u + l, c.d.n + c.T )
              & all( c.d.n + c.T, c.cap, [&]( I j ) { return cell( c.q, j ) == 0; } ) );
    HINT1P( k, v_track_count() == ADDED( k, c.d.m ) );
    thePlan = &calls.c; theRange = f;
    I const r = sam::insert( p, n, static_cast< Tr const * >( f ), static_cast< Tr const * >( f ) + m, calls );
    v_assert( r == T, "the number of inserted values is returned" );
  }
  v_assert( v_track_count() == I( ( at < m ) AND ( cell( fo, at ) == v ) AND act( c, at ) ), "the values that were absent are added, once each" );
  v_assert( calls.calls == 1, "room is asked for once" );
  check_forall( "exactly the new size is live", 0, cap, [&]( I j ) { return ( cell( q, j ) >= 2 ) == ( j < n + T ); } );
  check_forall( "strictly ascending", 0, n + T - 1, [&]( I j ) { return cell( q, j ) < cell( q, j + 1 ); } );
}

namespace
{
// What the callbacks are told about a removal: the element at cur goes, and those up to next move nRemoved places forward.
struct RemoveCalls
{
  Plan const & c; I r, next, j, g;       // j: an element that stays; g values of the range are less than it
  void remove( I const nRemoved, I const cur, I const nextPos )
  {
    v_assert( ( nRemoved == r + 1 ) AND ( 0 <= cur ) AND ( cur < nextPos ) AND ( nextPos <= c.n ), "callback: the removed elements are counted" );
    v_assert( ( r == 0 ) OR ( cur == next ), "callback: the blocks follow each other" );
    v_assert( ( j < 0 ) OR ( r != 0 ) OR ( j >= cur ) OR ( cell( c.pre, g ) == 0 ), "callback: the elements before the first block stay where they are" );
    v_assert( j != cur, "callback: the element that goes is to be removed" );
    v_assert( ( j < 0 ) OR ( j < cur ) OR ( j >= nextPos ) OR ( cell( c.pre, g ) == nRemoved ), "callback: the elements of the block move forward by the number of removed elements" );
    r = nRemoved; next = nextPos;
  }
};
}

HARNESS( bulk_remove )
{
  I const n = nd( "size", 0, VMAX ), m = nd( "count", 0, VMAX );
  Tr * const p = live( "buf", n, n ), * const f = live( "values", m, m );
  v_sorted( p, n, true, 8 ); v_sorted( f, m, true, 8 );
  Tr const * const o = snap( p ), * const fo = snap( f );
  Plan const d = plan( o, n, fo, m, false ); counts( d );
  I const T = cell( d.pre, m );
  // an arbitrary element that stays, and its rank in the range; an arbitrary value that must not be in the result
  I j = nd( "kept", -1, VMAX ), g = nd( "rank", 0, VMAX ), v = nd( "bad", 2, VMAX ), at = nd( "at", 0, VMAX );
#ifndef LV_VERIFY
  if( n > 0 ) j = j % n; else j = -1;
  if( j >= 0 ) for( g = 0; g < m && cell( fo, g ) < cell( o, j ); ) ++g;
  if( m > 0 ) { at = at % ( m + 1 ); if( at < m ) v = cell( fo, at ); } else at = m;
#endif
  v_assume( ( j < n ) AND ( g <= m ) AND ( ( j < 0 ) OR ( ( ( g == 0 ) OR ( cell( fo, g - 1 ) < cell( o, j ) ) ) AND ( ( g == m ) OR ( cell( fo, g ) > cell( o, j ) ) ) ) ) );
  v_assume( at <= m );
  v_assume( ( at == m ) OR ( ( cell( fo, at ) == v ) AND step( d, at ) ) );
  assume_forall( 0, n, [&]( I i ) { return ( at < m ) OR ( cell( o, i ) != v ); } );
  RemoveCalls calls{ d, 0, 0, j, g };
  {
    struct Ctx { Plan d; Tr const * p, * f; I T, v, at, j, g; RemoveCalls const * k; } const c{ d, p, fo, T, v, at, j, g, &calls };
    v_templates( 0 );
    // looking for the next element to remove
    HINT1P( k, ( c.k->r != 0 ) OR ( k > c.d.m ) OR ( cell( c.d.pre, k ) == 0 ) );
    HINT2P( k, u, ( k <= c.d.m ) AND ( u >= 0 ) AND ( ( ( k == 0 ) AND ( u == 0 ) ) OR ( ( k >= 1 ) AND ( u == cell( c.d.where, k - 1 ) ) AND ( u < c.d.n ) ) ) );
    HINT1P( k, cell( c.d.pre, k ) == c.k->r + 1 );
    // removing
    HINT3P( k, u, r, ( k < c.d.m ) AND ( u == cell( c.d.where, k ) ) & hit( c.d, k ) AND step( c.d, k ) AND ( r == cell( c.d.pre, k ) ) AND ( r <= u ) AND ( r == c.k->r ) AND ( ( r == 0 ) OR ( u == c.k->next ) ) );
    HINT2I( u, r, ( r >= 0 ) AND ( r <= u ) & all( u, c.d.n, [&]( I i ) { return cell( c.p, i ) == cell( c.d.o, i ); } ) & all( u - r, u, [&]( I i ) { return cell( c.p, i ) >= 1; } )
              & sasc( c.p, 0, u - r ) AND ( ( u == r ) OR ( cell( c.p, u - r - 1 ) < cell( c.d.o, u ) ) )
              & all( 0, u - r, [&]( I i ) { return ( cell( c.p, i ) >= 2 ) AND ( cell( c.p, i ) != c.v ); } )
              & ( ( c.j < 0 ) OR ( c.j >= u ) OR ( ( c.j - cell( c.d.pre, c.g ) >= 0 ) AND ( c.j - cell( c.d.pre, c.g ) < u - r ) AND ( cell( c.p, c.j - cell( c.d.pre, c.g ) ) == cell( c.d.o, c.j ) ) ) ) );
    thePlan = &calls.c; theRange = f; theSet = p;
    I const r = sam::remove( p, n, static_cast< Tr const * >( f ), static_cast< Tr const * >( f ) + m, calls );
    v_assert( r == T, "the number of removed values is returned" );
  }
  v_assert( calls.r == T, "every removal is reported" );
  v_assert( ( T == 0 ) OR ( calls.next == n ), "the blocks reach the end" );
  check_forall( "exactly the new size is live", 0, n, [&]( I i ) { return ( cell( p, i ) >= 2 ) == ( i < n - T ); } );
  check_forall( "strictly ascending", 0, n - T - 1, [&]( I i ) { return cell( p, i ) < cell( p, i + 1 ); } );
  check_forall( "only elements of the set that are not to be removed are left", 0, n - T, [&]( I i ) { return cell( p, i ) != v; } );
  if( j >= 0 )
  {
    I const to = j - cell( d.pre, g );
    v_assert( ( to >= 0 ) AND ( to < n - T ), "an element that is not to be removed stays in the set" );
    v_assert( cell( p, to ) == cell( o, j ), "... with its value" );
  }
}
