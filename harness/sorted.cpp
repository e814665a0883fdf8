// Contracts of LvArray::sortedArrayManipulation (src/sortedArrayManipulation.hpp).
#include "vspec.hpp"
#include "sortedArrayManipulation.hpp"
namespace sam = LvArray::sortedArrayManipulation;

// find is the lower bound, for every sorted array (duplicates allowed) and every value
HARNESS( find_int )
{
  I const n = nd( "size", 0, VMAX ), x = nd( "value" );
  I const * p = ints( "a", n );
  v_sorted( p, n, false, 8 );
  I const r = sam::find( p, n, x );
  v_assert( 0 <= r && r <= n, "find returns a position in [0, size]" );
  check_forall( "everything before the position is smaller", 0, r, [&]( I j ) { return cell( p, j ) < x; } );
  check_forall( "nothing from the position on is smaller", r, n, [&]( I j ) { return cell( p, j ) >= x; } );
}

HARNESS( find_greater )
{
  I const n = nd( "size", 0, VMAX ), x = nd( "value" );
  I const * p = ints( "a", n );
  assume_forall2( 0, n, [&]( I i, I j ) { return !( i < j ) | ( cell( p, i ) >= cell( p, j ) ); } );
  I const r = sam::find( p, n, x, sam::greater< I >() );
  v_assert( 0 <= r && r <= n, "find returns a position in [0, size]" );
  check_forall( "everything before the position compares before the value", 0, r, [&]( I j ) { return cell( p, j ) > x; } );
  check_forall( "nothing from the position on compares before the value", r, n, [&]( I j ) { return cell( p, j ) <= x; } );
}

HARNESS( contains_int )
{
  I const n = nd( "size", 0, VMAX ), x = nd( "value" );
  I const * p = ints( "a", n );
  v_sorted( p, n, false, 8 );
  bool const r = sam::contains( p, n, x );
  if( r ) check_exists( "contains is true only if the value is there", 0, n, [&]( I j ) { return cell( p, j ) == x; } );
  else check_forall( "contains is false only if the value is absent", 0, n, [&]( I j ) { return cell( p, j ) != x; } );
}

HARNESS( isSorted_int )
{
  I const n = nd( "size", 0, VMAX );
  I const * p = ints( "a", n );
  bool const r = sam::isSorted( p, p + n );
  if( r ) check_forall( "isSorted: no descent", 0, n - 1, [&]( I j ) { return cell( p, j ) <= cell( p, j + 1 ); } );
  else check_exists( "not isSorted: there is a descent", 0, n - 1, [&]( I j ) { return cell( p, j ) > cell( p, j + 1 ); } );
}

HARNESS( isSortedUnique_int )
{
  I const n = nd( "size", 0, VMAX );
  I const * p = ints( "a", n );
  bool const r = sam::isSortedUnique( p, p + n );
  if( r ) check_forall( "isSortedUnique: strictly ascending", 0, n - 1, [&]( I j ) { return cell( p, j ) < cell( p, j + 1 ); } );
  else check_exists( "not isSortedUnique: somewhere not ascending", 0, n - 1, [&]( I j ) { return cell( p, j ) >= cell( p, j + 1 ); } );
}

HARNESS( insert_one )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), x = val( "x" );
  v_assume( n < cap );
  Tr * p = live( "buf", cap, n );
  v_sorted( p, n, true, 8 );
  Tr const * o = snap( p );
  bool r;
  { Tr const v( x ); r = sam::insert( p, n, v, sam::CallBacks< Tr >() ); }
  I const m = n + ( r ? 1 : 0 );
  if( r ) check_forall( "inserted only if absent", 0, n, [&]( I j ) { return cell( o, j ) != x; } );
  check_forall( "exactly the new size is live", 0, cap, [&]( I j ) { return ( cell( p, j ) >= 2 ) == ( j < m ); } );
  check_forall( "smaller elements keep their place", 0, n, [&]( I j ) { return !( cell( o, j ) < x ) | ( cell( p, j ) == cell( o, j ) ); } );
  check_forall( "larger elements move up by the number inserted", 0, n, [&]( I j ) { return !( cell( o, j ) > x ) | ( cell( p, j + m - n ) == cell( o, j ) ); } );
  check_forall( "still sorted and unique", 0, m - 1, [&]( I j ) { return cell( p, j ) < cell( p, j + 1 ); } );
  check_exists( "the value is present", 0, m, [&]( I j ) { return cell( p, j ) == x; } );
}

HARNESS( remove_one )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), x = val( "x" );
  v_assume( n <= cap );
  Tr * p = live( "buf", cap, n );
  v_sorted( p, n, true, 8 );
  Tr const * o = snap( p );
  bool r;
  { Tr const v( x ); r = sam::remove( p, n, v, sam::CallBacks< Tr >() ); }
  I const m = n - ( r ? 1 : 0 );
  if( r ) check_exists( "removed only if present", 0, n, [&]( I j ) { return cell( o, j ) == x; } );
  check_forall( "exactly the new size is live", 0, cap, [&]( I j ) { return ( cell( p, j ) >= 2 ) == ( j < m ); } );
  check_forall( "smaller elements keep their place", 0, n, [&]( I j ) { return !( cell( o, j ) < x ) | ( cell( p, j ) == cell( o, j ) ); } );
  check_forall( "larger elements move down", 0, n, [&]( I j ) { return !( cell( o, j ) > x ) | ( cell( p, j + m - n ) == cell( o, j ) ); } );
  check_forall( "the value is gone", 0, m, [&]( I j ) { return cell( p, j ) != x; } );
}

HARNESS( removeDuplicates )
{
  I const n = nd( "size", 0, VMAX );
  Tr * p = live( "buf", n, n );
  v_sorted( p, n, false, 8 );
  Tr const * o = snap( p );
  I const w = nd( "witness", 0, VMAX ); v_assume( w < n );    // an arbitrary input position
  struct Ctx { Tr const * p, * o; I w; } const c{ p, o, w };
  HINT1( f, all( 0, f, [&]( I j ) { return ( cell( c.p, j ) >= 2 ) & ( cell( c.p, j ) < cell( c.p, j + 1 ) ); } ) );
  HINT2( f, t, ( cell( c.p, f ) >= 2 ) & ( ( t > 0 ) | ( cell( c.p, f ) == cell( c.o, 0 ) ) ) & ( ( t == 0 ) | ( cell( c.p, f ) == cell( c.o, t - 1 ) ) ) );
  HINT2( f, t, ( c.w >= t ) | some( 0, f + 1, [&]( I j ) { return cell( c.p, j ) == cell( c.o, c.w ); } ) );
  HINT1( f, ( c.w > f ) | some( 0, VMAX, [&]( I j ) { return cell( c.p, c.w ) == cell( c.o, j ); } ) );
  I const m = sam::removeDuplicates( p, p + n );
  v_assert( 0 < m && m <= n, "result size" );
  check_forall( "strictly ascending", 0, m - 1, [&]( I j ) { return cell( p, j ) < cell( p, j + 1 ); } );
  check_exists( "every input value is kept", 0, m, [&]( I j ) { return cell( p, j ) == cell( o, w ); } );
  if( w < m ) check_exists( "every kept value comes from the input", 0, n, [&]( I j ) { return cell( o, j ) == cell( p, w ); } );
}
