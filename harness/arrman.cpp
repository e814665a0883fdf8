// Contracts of LvArray::arrayManipulation (src/arrayManipulation.hpp), for an arbitrary element type.
#include "vspec.hpp"
#include "arrayManipulation.hpp"
namespace am = LvArray::arrayManipulation;

HARNESS( emplace )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), idx = nd( "index", 0, VMAX );
  v_assume( n < cap ); v_assume( idx <= n );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  I const x = val( "x" );
  am::emplace( p, n, idx, x );
  check_forall( "before the insertion point unchanged", 0, idx, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  v_assert( cell( p, idx ) == x, "new element" );
  check_forall( "after the insertion point shifted by one", idx, n, [&]( I j ) { return cell( p, j + 1 ) == cell( o, j ); } );
  check_forall( "nothing constructed beyond the new size", n + 1, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( erase )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), idx = nd( "index", 0, VMAX ), k = nd( "n", 0, VMAX );
  v_assume( n <= cap ); v_assume( idx + k <= n ); v_assume( idx < n );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  am::erase( p, n, idx, k );
  check_forall( "before the erased range unchanged", 0, idx, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  check_forall( "after the erased range shifted down", idx, n - k, [&]( I j ) { return cell( p, j ) == cell( o, j + k ); } );
  check_forall( "nothing live beyond the new size", n - k, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( emplaceBack )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX );
  v_assume( n < cap );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  I const x = val( "x" );
  am::emplaceBack( p, n, x );
  check_forall( "existing elements unchanged", 0, n, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  v_assert( cell( p, n ) == x, "new element" );
  check_forall( "nothing constructed beyond the new size", n + 1, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( popBack )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX );
  v_assume( 0 < n && n <= cap );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  am::popBack( p, n );
  check_forall( "remaining elements unchanged", 0, n - 1, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  check_forall( "nothing live beyond the new size", n - 1, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( insert_range )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), idx = nd( "index", 0, VMAX ), k = nd( "n", 0, VMAX );
  v_assume( 0 < cap && n + k <= cap && idx <= n );
  Tr * p = live( "buf", cap, n );
  Tr const * src = live( "src", k, k );
  Tr const * o = snap( p ), * so = snap( src );
  am::insert( p, n, idx, src, k );
  check_forall( "before the insertion point unchanged", 0, idx, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  check_forall( "inserted elements equal the source, in order", 0, k, [&]( I j ) { return cell( p, idx + j ) == cell( so, j ); } );
  check_forall( "after the insertion point shifted", idx, n, [&]( I j ) { return cell( p, j + k ) == cell( o, j ); } );
  check_forall( "nothing constructed beyond the new size", n + k, cap, [&]( I j ) { return cell( p, j ) == 0; } );
  check_forall( "the source is unchanged", 0, k, [&]( I j ) { return cell( src, j ) == cell( so, j ); } );
}

HARNESS( append )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), k = nd( "n", 0, VMAX );
  v_assume( n + k <= cap );
  Tr * p = live( "buf", cap, n );
  Tr const * src = live( "src", k, k );
  Tr const * o = snap( p ), * so = snap( src );
  I const r = am::append( p, n, src, src + k );
  v_assert( r == k, "the number of appended elements is returned" );
  check_forall( "existing elements unchanged", 0, n, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  check_forall( "appended elements equal the source, in order", 0, k, [&]( I j ) { return cell( p, n + j ) == cell( so, j ); } );
  check_forall( "nothing constructed beyond the new size", n + k, cap, [&]( I j ) { return cell( p, j ) == 0; } );
  check_forall( "the source is unchanged", 0, k, [&]( I j ) { return cell( src, j ) == cell( so, j ); } );
}

HARNESS( resize_value )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), m = nd( "newSize", 0, VMAX );
  v_assume( n <= cap && m <= cap );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  I const x = val( "x" );
  am::resize( p, n, m, x );
  check_forall( "elements that fit are kept", 0, cap, [&]( I j ) { return !( ( j < n ) & ( j < m ) ) | ( cell( p, j ) == cell( o, j ) ); } );
  check_forall( "new elements have the given value", n, m, [&]( I j ) { return cell( p, j ) == x; } );
  check_forall( "nothing live beyond the new size", m, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( resize_default )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), m = nd( "newSize", 0, VMAX );
  v_assume( n <= cap && m <= cap );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  am::resize( p, n, m );
  check_forall( "elements that fit are kept", 0, cap, [&]( I j ) { return !( ( j < n ) & ( j < m ) ) | ( cell( p, j ) == cell( o, j ) ); } );
  check_forall( "new elements are default constructed", n, m, [&]( I j ) { return cell( p, j ) == 2; } );
  check_forall( "nothing live beyond the new size", m, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

// trivial element types: new elements are zero
HARNESS( resize_plain )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), m = nd( "newSize", 0, VMAX );
  v_assume( n <= cap && m <= cap );
  I * p = ints( "buf", cap );
  I const * o = snap( p );
  am::resize( p, n, m );
  check_forall( "elements outside the new range are unchanged", 0, cap, [&]( I j ) { return ( ( j >= n ) & ( j < m ) ) | ( cell( p, j ) == cell( o, j ) ); } );
  check_forall( "new elements are zero", n, m, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( destroy )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX );
  v_assume( n <= cap );
  Tr * p = live( "buf", cap, n );
  am::destroy( p, n );
  check_forall( "every element is destroyed", 0, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( uninitializedCopy )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX );
  v_assume( n <= cap );
  Tr const * src = live( "src", n, n );
  Tr * p = live( "dst", cap, 0 );
  Tr const * so = snap( src );
  am::uninitializedCopy( src, src + n, p );
  check_forall( "copied in order", 0, n, [&]( I j ) { return ( cell( p, j ) == cell( so, j ) ) & ( cell( src, j ) == cell( so, j ) ); } );
  check_forall( "nothing constructed beyond", n, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( uninitializedMove )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX );
  v_assume( n <= cap );
  Tr * src = live( "src", n, n );
  Tr * p = live( "dst", cap, 0 );
  Tr const * so = snap( src );
  am::uninitializedMove( p, n, src );
  check_forall( "moved in order", 0, n, [&]( I j ) { return cell( p, j ) == cell( so, j ); } );
  check_forall( "the source elements still exist, moved from", 0, n, [&]( I j ) { return cell( src, j ) == 1; } );
  check_forall( "nothing constructed beyond", n, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( uninitializedShiftDown )
{
  // [0, amount) free, [amount, amount + n) live
  I const n = nd( "size", 0, VMAX ), amount = nd( "amount", 0, VMAX );
  Tr * b = live( "buf", n + amount, 0 );
  Tr * src = live( "src", n, n );
  am::uninitializedMove( b + amount, n, src );
  am::destroy( src, n );
  Tr const * o = snap( b );
  am::uninitializedShiftDown( b + amount, n, amount );
  check_forall( "elements moved down", 0, n, [&]( I j ) { return cell( b, j ) == cell( o, j + amount ); } );
  check_forall( "nothing live after them", n, n + amount, [&]( I j ) { return cell( b, j ) == 0; } );
}

HARNESS( uninitializedShiftUp )
{
  I const n = nd( "size", 0, VMAX ), amount = nd( "amount", 0, VMAX );
  Tr * b = live( "buf", n + amount, n );
  Tr const * o = snap( b );
  am::uninitializedShiftUp( b, n, amount );
  check_forall( "elements moved up", 0, n, [&]( I j ) { return cell( b, j + amount ) == cell( o, j ); } );
  check_forall( "nothing live before them", 0, amount, [&]( I j ) { return cell( b, j ) == 0; } );
}

HARNESS( shiftUp )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), idx = nd( "index", 0, VMAX ), k = nd( "n", 0, VMAX );
  v_assume( n + k <= cap && idx <= n );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  am::shiftUp( p, n, idx, k );
  check_forall( "before the gap unchanged", 0, idx, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  check_forall( "the gap holds no live element", idx, idx + k, [&]( I j ) { return cell( p, j ) == 0; } );
  check_forall( "after the gap shifted", idx, n, [&]( I j ) { return cell( p, j + k ) == cell( o, j ); } );
  check_forall( "nothing constructed beyond", n + k, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}

HARNESS( shiftDown )
{
  I const n = nd( "size", 0, VMAX ), cap = nd( "cap", 0, VMAX ), idx = nd( "index", 0, VMAX ), k = nd( "n", 0, VMAX );
  v_assume( n <= cap && idx <= n && k <= idx );
  Tr * p = live( "buf", cap, n );
  Tr const * o = snap( p );
  am::shiftDown( p, n, idx, k );
  check_forall( "before the target unchanged", 0, idx - k, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  check_forall( "moved down", idx, n, [&]( I j ) { return cell( p, j - k ) == cell( o, j ); } );
  check_forall( "every object still exists", 0, n, [&]( I j ) { return cell( p, j ) >= 1; } );
  check_forall( "nothing constructed beyond", n, cap, [&]( I j ) { return cell( p, j ) == 0; } );
}
