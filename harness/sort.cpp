// Contracts of the sorting routines (src/sortedArrayManipulation.hpp, src/sortedArrayManipulationHelpers.hpp).
#include <algorithm>
#include "vspec.hpp"
#include "sortedArrayManipulation.hpp"
namespace sam = LvArray::sortedArrayManipulation;
namespace si = LvArray::sortedArrayManipulation::internal;

// The same with pairs: b carries the place every value came from, g the value that was there.
struct Pairs { Tr const * a, * b, * g; I n; };
#define PAIR( c, j ) ( ( cell( c.a, j ) >= VPAIR ) & ( cell( c.b, j ) >= 2 ) & ( cell( c.b, j ) < VPAIR ) & TOGETHER( c, j ) )
#define TOGETHER( c, j ) ( cell( c.a, j ) == cell( c.g, cell( c.b, j ) ) )

// after the median has been moved to the front positions 1, n/2 and n-1 (the other two candidates of the median) hold an element that stops each scan
#define STOPS( c, op, cond1, cond2, cond3 ) ( ( ( cell( c.a, 1 ) op cell( c.a, 0 ) ) & cond1 ) | ( ( cell( c.a, c.m ) op cell( c.a, 0 ) ) & cond2 ) | ( ( cell( c.a, c.n - 1 ) op cell( c.a, 0 ) ) & cond3 ) )
#define PARTITION_HINTS \
  HINT2( f, l, ( 1 <= f ) & ( l <= c.n ) & ( ( ( f == 1 ) & ( l == c.n ) & STOPS( c, >=, true, true, true ) & STOPS( c, <=, true, true, true ) ) | ( ( f > 1 ) & ( l < c.n ) & ( f <= l ) & ( cell( c.a, l ) >= cell( c.a, 0 ) ) & ( cell( c.a, f - 1 ) <= cell( c.a, 0 ) ) ) ) ); \
  HINT1O( f, l, ( f >= 1 ) & ( ( ( l == c.n ) & STOPS( c, >=, ( f <= 1 ), ( f <= c.m ), ( f <= c.n - 1 ) ) ) | ( ( l < c.n ) & ( f <= l ) ) ) ); \
  HINT1O( l, f, ( l < c.n ) & ( ( ( f == 1 ) & STOPS( c, <=, ( l >= 1 ), ( l >= c.m ), ( l >= c.n - 1 ) ) ) | ( ( f > 1 ) & ( l >= f - 1 ) ) ) );


namespace LvArray { namespace sortedArrayManipulation { namespace internal {
using DI = DualIterator< Tr *, Tr * >;
using DC = DualIteratorComparator< Tr, Tr, less< Tr > >;
Pairs ctx;      // what the contracts of the callees below refer to
Tr * base; I total;
} } }
using si::ctx;

#ifdef MODULAR
// The contract of unguardedPartitionPivot, in place of its body (proved for it by the contracts below): the range is
// permuted and cut into two smaller ones.
#ifdef LV_VERIFY
namespace LvArray { namespace sortedArrayManipulation { namespace internal {
template<>
inline Tr * unguardedPartitionPivot< Tr *, less< Tr > & >( Tr * first, Tr * last, less< Tr > & )
{
  I const a = first - base, b = last - base;
  v_assert( 0 <= a && a + 3 < b && b <= total, "a range of more than three elements is partitioned" );
  v_permute( base, a, b );
  I const r = nd( "cut", 0, VMAX );
  v_assume( a < r && r < b );
  return base + r;
}
} } }
#endif

// ... and on pairs
#ifdef LV_VERIFY
namespace LvArray { namespace sortedArrayManipulation { namespace internal {
template<>
inline DI unguardedPartitionPivot< DI, DC & >( DI first, DI last, DC & )
{
  Pairs const c = ctx;
  DI const all0( const_cast< Tr * >( c.a ), const_cast< Tr * >( c.b ) );
  I const a = &(*first).m_a - c.a, b = last - all0;
  v_assert( ( 0 <= a ) & ( a + 3 < b ) & ( b <= c.n ) & ( &(*first).m_b - c.b == a ), "a range of more than three elements is partitioned" );
  v_permute( const_cast< Tr * >( c.a ), a, b );
  v_permute( const_cast< Tr * >( c.b ), a, b );
  assume_forall( a, b, [&]( I j ) { return PAIR( c, j ); } );
  I const r = nd( "cut", 0, VMAX );
  v_assume( a < r && r < b );
  return all0 + r;
}
} } }
#endif

HARNESS( dual_introsortLoop )
{
  I const n = nd( "size", 0, VMAX );
  Tr * p = live( "a", n, n );
  Tr * b = live( "b", n, n );
  Tr * g = static_cast< Tr * >( v_pairing( p, b, n ) );
  v_assume( v_track() < VPAIR );
  struct Ctx { Tr const * a, * b, * g; I n; } const c{ p, b, g, n };
  HINT1A( k, r, ( k >= 0 ) & ( k <= 31 ) & all( 0, 2 * k + 2, [&]( I j ) { return ( cell( r, j ) >= 0 ) & ( cell( r, j ) <= c.n ); } ) & all( 0, 2 * k + 1, [&]( I j ) { return ( j % 2 != 0 ) | ( cell( r, j + 1 ) == cell( r, j ) ); } )
           & ( ( c.n == 0 ) | all( 0, 2 * k, [&]( I j ) { return ( j % 2 != 0 ) | ( cell( r, j ) < cell( r, j + 2 ) ); } ) ) & ( ( c.n > 0 ) | ( k <= 1 ) ) );
  MEASURE1A( k, r, [&]( I e ) { return k > 0 ? 2 * e - k + 33 : 0; } ( cell( r, 2 * k ) ) );
  HINT1( k, all( 0, c.n, [&]( I j ) { return PAIR( c, j ); } ) );
  ctx = Pairs{ p, b, g, n };
  si::DualIterator< Tr *, Tr * > it( p, b );
  auto comp = it.createComparator( sam::less< Tr >() );
  si::introsortLoop( it, it + n, comp );
  check_forall( "pairs stay together", 0, n, [&]( I j ) { return PAIR( c, j ); } );
  v_assert( v_track_count() == 0, "every data value occurs as often as before" );
}

HARNESS( introsortLoop )
{
  I const n = nd( "size", 0, VMAX );
  Tr * p = live( "a", n, n );
  si::base = p; si::total = n;
  I const x = v_track(); (void)x;
  struct Ctx { Tr const * p; I n; } const c{ p, n };
  HINT1A( k, r, ( k >= 0 ) & ( k <= 31 ) & all( 0, k + 1, [&]( I j ) { return ( cell( r, j ) >= 0 ) & ( cell( r, j ) <= c.n ); } )
           & ( ( c.n == 0 ) | all( 0, k, [&]( I j ) { return cell( r, j ) < cell( r, j + 1 ); } ) ) & ( ( c.n > 0 ) | ( k <= 1 ) ) );
  MEASURE1A( k, r, [&]( I e ) { return k > 0 ? 2 * e - k + 33 : 0; } ( cell( r, k ) ) );
  HINT1( k, all( 0, c.n, [&]( I j ) { return cell( c.p, j ) >= 2; } ) );
  sam::less< Tr > less;
  si::introsortLoop( p, p + n, less );
  check_forall( "every element is still there", 0, n, [&]( I j ) { return cell( p, j ) >= 2; } );
  v_assert( v_track_count() == 0, "every value occurs as often as before" );
}

// The contract of unguardedLinearInsert on pairs, in place of its body (proved for it below).
#ifdef LV_VERIFY
namespace LvArray { namespace sortedArrayManipulation { namespace internal {
template<>
inline void unguardedLinearInsert< DI, DC >( DI last, DC )
{
  Pairs const c = ctx;
  I const i = &(*last).m_a - c.a;
  v_assert( ( 0 < i ) & ( i < c.n ) & ( &(*last).m_b - c.b == i ), "an element of the range is inserted" );
  check_forall2( "the elements before are sorted", 0, i, [&]( I j, I k ) { return cell( c.a, j ) <= cell( c.a, k ); } );
  v_assert( cell( c.a, i ) >= cell( c.a, 0 ), "the element does not belong in front" );
  v_permute( const_cast< Tr * >( c.a ), 0, i + 1 );
  v_permute( const_cast< Tr * >( c.b ), 0, i + 1 );
  assume_forall2( 0, i + 1, [&]( I j, I k ) { return ( j >= k ) | ( cell( c.a, j ) <= cell( c.a, k ) ); } );
  assume_forall( 0, i + 1, [&]( I j ) { return PAIR( c, j ); } );
}
} } }
#endif

#ifdef LV_VERIFY
namespace LvArray { namespace sortedArrayManipulation { namespace internal {
template<>
inline void unguardedLinearInsert< Tr *, less< Tr > >( Tr * last, less< Tr > )
{
  Tr * const p = base;
  I const i = last - p, n = total;
  v_assert( ( 0 < i ) & ( i < n ), "an element of the range is inserted" );
  check_forall2( "the elements before are sorted", 0, i, [&]( I j, I k ) { return cell( p, j ) <= cell( p, k ); } );
  v_assert( cell( p, i ) >= cell( p, 0 ), "the element does not belong in front" );
  v_permute( p, 0, i + 1 );
  assume_forall2( 0, i + 1, [&]( I j, I k ) { return ( j >= k ) | ( cell( p, j ) <= cell( p, k ) ); } );
}
} } }
#endif

HARNESS( insertionSort )
{
  I const n = nd( "size", 0, VMAX );
  Tr * p = live( "a", n, n );
  si::base = p; si::total = n;
  I const x = v_track(); (void)x;
  struct Ctx { Tr const * p; I n; } const c{ p, n };
  HINT1( i, asc( c.p, 0, i ) );
  HINT1( i, all( 0, c.n, [&]( I j ) { return cell( c.p, j ) >= 2; } ) );
  si::insertionSort( p, n, sam::less< Tr >() );
  check_forall( "sorted", 0, n - 1, [&]( I j ) { return cell( p, j ) <= cell( p, j + 1 ); } );
  v_assert( v_track_count() == 0, "every value occurs as often as before" );
}

HARNESS( dual_insertionSort )
{
  I const n = nd( "size", 0, VMAX );
  Tr * p = live( "a", n, n );
  Tr * b = live( "b", n, n );
  Tr * g = static_cast< Tr * >( v_pairing( p, b, n ) );
  v_assume( v_track() < VPAIR );
  struct Ctx { Tr const * a, * b, * g; I n; } const c{ p, b, g, n };
  HINT1( i, asc( c.a, 0, i ) );
  HINT1( i, all( 0, c.n, [&]( I j ) { return PAIR( c, j ); } ) );
  ctx = Pairs{ p, b, g, n };
  si::DualIterator< Tr *, Tr * > it( p, b );
  si::insertionSort( it, n, it.createComparator( sam::less< Tr >() ) );
  check_forall( "sorted", 0, n - 1, [&]( I j ) { return cell( p, j ) <= cell( p, j + 1 ); } );
  check_forall( "pairs stay together", 0, n, [&]( I j ) { return PAIR( c, j ); } );
  v_assert( v_track_count() == 0, "every data value occurs as often as before" );
}
#elif defined( MODULAR_TOP )
// The contracts of introsortLoop and insertionSort on pairs and of std::sort, in place of their bodies (the first two are
// proved below, the last one is the C++ standard's).
#ifdef LV_VERIFY
namespace LvArray { namespace sortedArrayManipulation { namespace internal {
template<>
inline void introsortLoop< DI, DC & >( DI first, DI last, DC & )
{
  Pairs const c = ctx;
  v_assert( ( &(*first).m_a == c.a ) & ( &(*first).m_b == c.b ) & ( last - first == c.n ), "the whole range is pre-sorted" );
  v_permute( const_cast< Tr * >( c.a ), 0, c.n );
  v_permute( const_cast< Tr * >( c.b ), 0, c.n );
  assume_forall( 0, c.n, [&]( I j ) { return PAIR( c, j ); } );
}
template<>
inline void insertionSort< DI, DC >( DI first, std::ptrdiff_t const n, DC )
{
  Pairs const c = ctx;
  v_assert( ( &(*first).m_a == c.a ) & ( &(*first).m_b == c.b ) & ( n == c.n ), "the whole range is sorted" );
  v_permute( const_cast< Tr * >( c.a ), 0, c.n );
  v_permute( const_cast< Tr * >( c.b ), 0, c.n );
  assume_forall( 0, c.n, [&]( I j ) { return PAIR( c, j ); } );
  assume_forall( 0, c.n - 1, [&]( I j ) { return cell( c.a, j ) <= cell( c.a, j + 1 ); } );
}
} } }
#endif
#ifdef LV_VERIFY
namespace std
{
template<> inline void sort< Tr *, sam::less< Tr > >( Tr * first, Tr * last, sam::less< Tr > )
{
  Pairs const c = ctx;
  v_assert( ( first == c.a ) & ( last - first == c.n ), "the whole range is sorted" );
  v_permute( const_cast< Tr * >( c.a ), 0, c.n );
  assume_forall2( 0, c.n, [&]( I j, I k ) { return ( j >= k ) | ( cell( c.a, j ) <= cell( c.a, k ) ); } );
}
}
#endif

HARNESS( dualSort )
{
  I const n = nd( "size", 0, VMAX );
  Tr * p = live( "a", n, n );
  Tr * b = live( "b", n, n );
  Tr * g = static_cast< Tr * >( v_pairing( p, b, n ) );
  v_assume( v_track() < VPAIR );
  Pairs const c{ p, b, g, n };
  ctx = c;
  sam::dualSort( p, p + n, b );
  check_forall( "sorted", 0, n - 1, [&]( I j ) { return cell( p, j ) <= cell( p, j + 1 ); } );
  check_forall( "pairs stay together", 0, n, [&]( I j ) { return PAIR( c, j ); } );
  v_assert( v_track_count() == 0, "every data value occurs as often as before" );
}

HARNESS( makeSorted )
{
  I const n = nd( "size", 0, VMAX );
  Tr * p = live( "a", n, n );
  ctx = Pairs{ p, nullptr, nullptr, n };
  I const x = v_track(); (void)x;
  sam::makeSorted( p, p + n );
  check_forall( "sorted", 0, n - 1, [&]( I j ) { return cell( p, j ) <= cell( p, j + 1 ); } );
  v_assert( v_track_count() == 0, "every value occurs as often as before" );
}
#elif defined( MODULAR_MEDIAN )

// The contract of computeMedian, in place of its body (proved for it below).
#ifdef LV_VERIFY
namespace LvArray { namespace sortedArrayManipulation { namespace internal {
inline void medianContract( Pairs const & x, bool pairs, I r, I a, I b, I d )
{
  struct { Tr const * a, * b, * g; I n, m; } const c{ x.a, x.b, x.g, x.n, x.n / 2 };
  v_assert( ( r == 0 ) & ( a == 1 ) & ( b == c.m ) & ( d == c.n - 1 ) & ( b > 1 ) & ( d > b ), "the median of three further elements goes to the front" );
  v_permute( const_cast< Tr * >( c.a ), 0, c.n );
  if( pairs )
  {
    v_permute( const_cast< Tr * >( c.b ), 0, c.n );
    assume_forall( 0, c.n, [&]( I j ) { return PAIR( c, j ); } );
  }
  v_assume( STOPS( c, >=, true, true, true ) & STOPS( c, <=, true, true, true ) );
}
template<> inline void computeMedian< Tr *, less< Tr > & >( Tr * r, Tr * a, Tr * b, Tr * d, less< Tr > & )
{ medianContract( ctx, false, r - ctx.a, a - ctx.a, b - ctx.a, d - ctx.a ); }
template<> inline void computeMedian< DI, DC & >( DI r, DI a, DI b, DI d, DC & )
{
  v_assert( ( &(*r).m_b == ctx.b ) & ( &(*a).m_b - ctx.b == &(*a).m_a - ctx.a ) & ( &(*b).m_b - ctx.b == &(*b).m_a - ctx.a ) & ( &(*d).m_b - ctx.b == &(*d).m_a - ctx.a ), "the places belong together" );
  medianContract( ctx, true, &(*r).m_a - ctx.a, &(*a).m_a - ctx.a, &(*b).m_a - ctx.a, &(*d).m_a - ctx.a );
}
} } }
#endif

HARNESS( partition_pivot )
{
  I const n = nd( "size", 0, VMAX );
  v_assume( n > 3 );
  Tr * p = live( "a", n, n );
  I const x = v_track(); (void)x;
  struct Ctx { Tr const * a; I n, m; } const c{ p, n, n / 2 };
  PARTITION_HINTS
  HINT2( f, l, all( 0, c.n, [&]( I j ) { return cell( c.a, j ) >= 2; } ) );
  ctx = Pairs{ p, nullptr, nullptr, n };
  sam::less< Tr > less;
  I const r = si::unguardedPartitionPivot( p, p + n, less ) - p;
  v_assert( 0 < r && r < n, "both parts are smaller than the whole" );
  check_forall( "every element is still there", 0, n, [&]( I j ) { return cell( p, j ) >= 2; } );
  v_assert( v_track_count() == 0, "every value occurs as often as before" );
}

HARNESS( dual_partition_pivot )
{
  I const n = nd( "size", 0, VMAX );
  v_assume( n > 3 );
  Tr * p = live( "a", n, n );
  Tr * b = live( "b", n, n );
  Tr * g = static_cast< Tr * >( v_pairing( p, b, n ) );
  v_assume( v_track() < VPAIR );
  struct Ctx { Tr const * a, * b, * g; I n, m; } const c{ p, b, g, n, n / 2 };
  PARTITION_HINTS
  HINT2( f, l, all( 0, c.n, [&]( I j ) { return PAIR( c, j ); } ) );
  si::DualIterator< Tr *, Tr * > it( p, b );
  ctx = Pairs{ p, b, g, n };
  auto comp = it.createComparator( sam::less< Tr >() );
  I const r = si::unguardedPartitionPivot( it, it + n, comp ) - it;
  v_assert( 0 < r && r < n, "both parts are smaller than the whole" );
  check_forall( "pairs stay together", 0, n, [&]( I j ) { return PAIR( c, j ); } );
  v_assert( v_track_count() == 0, "every data value occurs as often as before" );
}
#else

HARNESS( linear_insert )
{
  I const n = nd( "size", 0, VMAX ), i = nd( "i", 0, VMAX );
  v_assume( 0 < i && i < n );
  Tr * p = live( "a", n, n );
  v_sorted( p, i, false, 8 );
  v_assume( cell( p, i ) >= cell( p, 0 ) );
  I const x = v_track(); (void)x;
  Tr const * o = snap( p );
  struct Ctx { Tr const * p, * o; I i, v; } const c{ p, o, i, cell( p, i ) };
  HINT2( l, t, ( l >= 1 ) & ( l <= c.i ) & all( 0, l, [&]( I j ) { return cell( c.p, j ) == cell( c.o, j ); } ) & ( cell( c.p, l ) == 1 ) & all( l + 1, c.i + 1, [&]( I j ) { return ( cell( c.p, j ) == cell( c.o, j - 1 ) ) & ( cell( c.p, j ) > c.v ); } ) );
  si::unguardedLinearInsert( p + i, sam::less< Tr >() );
  check_forall2( "the first part is sorted", 0, i + 1, [&]( I j, I k ) { return cell( p, j ) <= cell( p, k ); } );
  check_forall( "the rest is untouched", i + 1, n, [&]( I j ) { return cell( p, j ) == cell( o, j ); } );
  v_assert( v_track_count() == 0, "every value occurs as often as before" );
}

// The median of three ends up in front, so both scans of the partition meet an element that stops them.
HARNESS( computeMedian )
{
  I const n = nd( "size", 0, VMAX ), m = nd( "mid", 0, VMAX );
  v_assume( n > 3 && m > 1 && m < n - 1 );
  Tr * p = live( "a", n, n );
  Tr const * o = snap( p );
  I const x = v_track(); (void)x;
  si::computeMedian( p, p + 1, p + m, p + ( n - 1 ), sam::less< Tr >() );
  v_assert( v_track_count() == 0, "every value occurs as often as before" );
  I const a = cell( p, 1 ), b = cell( p, m ), d = cell( p, n - 1 ), r = cell( p, 0 );
  v_assert( ( a >= r ) | ( b >= r ) | ( d >= r ), "an element not less than the pivot remains" );
  v_assert( ( a <= r ) | ( b <= r ) | ( d <= r ), "an element not greater than the pivot remains" );
  check_forall( "the other elements are untouched", 0, n, [&]( I j ) { return ( j == 0 ) | ( j == 1 ) | ( j == m ) | ( j == n - 1 ) | ( cell( p, j ) == cell( o, j ) ); } );
}

HARNESS( unguardedPartition )
{
  I const n = nd( "size", 0, VMAX ), u = nd( "above", 0, VMAX ), w = nd( "below", 0, VMAX );
  v_assume( n > 1 && 1 <= u && u < n && 1 <= w && w < n );
  Tr * p = live( "a", n, n );
  I const pv = cell( p, 0 );
  v_assume( cell( p, u ) >= pv && cell( p, w ) <= pv );
  I const x = v_track(); (void)x;
  struct Ctx { Tr const * p; I n, u, w, pv; } const c{ p, n, u, w, pv };
  HINT2( f, l, ( 1 <= f ) & ( l <= c.n ) & ( ( ( f == 1 ) & ( l == c.n ) & ( cell( c.p, c.u ) >= c.pv ) & ( cell( c.p, c.w ) <= c.pv ) ) | ( ( f > 1 ) & ( l < c.n ) & ( f <= l ) & ( cell( c.p, l ) >= c.pv ) & ( cell( c.p, f - 1 ) <= c.pv ) ) ) );
  HINT2( f, l, all( 1, f, [&]( I j ) { return cell( c.p, j ) <= c.pv; } ) & all( l, c.n, [&]( I j ) { return cell( c.p, j ) >= c.pv; } ) & ( cell( c.p, 0 ) == c.pv ) );
  HINT2( f, l, all( 0, c.n, [&]( I j ) { return cell( c.p, j ) >= 2; } ) );
  HINT1O( f, l, ( f >= 1 ) & ( ( ( l == c.n ) & ( f <= c.u ) ) | ( ( l < c.n ) & ( f <= l ) ) ) );
  HINT1O( f, l, all( 1, f, [&]( I j ) { return cell( c.p, j ) <= c.pv; } ) );
  HINT1O( l, f, ( l < c.n ) & ( ( ( f == 1 ) & ( l >= c.w ) ) | ( ( f > 1 ) & ( l >= f - 1 ) ) ) );
  HINT1O( l, f, all( l + 1, c.n, [&]( I j ) { return cell( c.p, j ) >= c.pv; } ) );
  I const r = si::unguardedPartition( p + 1, p + n, p, sam::less< Tr >() ) - p;
  v_assert( 0 < r && r < n, "both parts are smaller than the whole" );
  check_forall( "nothing before the cut is greater than the pivot", 1, r, [&]( I j ) { return cell( p, j ) <= pv; } );
  check_forall( "nothing from the cut on is less than the pivot", r, n, [&]( I j ) { return cell( p, j ) >= pv; } );
  v_assert( cell( p, 0 ) == pv, "the pivot is untouched" );
  v_assert( v_track_count() == 0, "every value occurs as often as before" );
}


HARNESS( dual_linear_insert )
{
  I const n = nd( "size", 0, VMAX ), i = nd( "i", 0, VMAX );
  v_assume( 0 < i && i < n );
  Tr * p = live( "a", n, n );
  Tr * b = live( "b", n, n );
#ifndef LV_VERIFY
  v_sorted( b, i, false, 8 );
#endif
  Tr * g = static_cast< Tr * >( v_pairing( p, b, n ) );
  v_sorted( p, i, false, 8 );
  Tr const * o = snap( p ), * ob = snap( b );
  v_assume( cell( p, i ) >= cell( p, 0 ) );
  v_assume( v_track() < VPAIR );
  struct Ctx { Tr const * a, * b, * g, * o, * ob; I i, v; } const c{ p, b, g, o, ob, i, cell( p, i ) };
  HINT2( l, t, ( l >= 1 ) & ( l <= c.i ) & all( 0, l, [&]( I j ) { return ( cell( c.a, j ) == cell( c.o, j ) ) & ( cell( c.b, j ) == cell( c.ob, j ) ); } ) & ( cell( c.a, l ) == 1 ) & ( cell( c.b, l ) == 1 ) & all( l + 1, c.i + 1, [&]( I j ) { return ( cell( c.a, j ) == cell( c.o, j - 1 ) ) & ( cell( c.b, j ) == cell( c.ob, j - 1 ) ) & ( cell( c.a, j ) > c.v ); } ) );
  si::DualIterator< Tr *, Tr * > it( p, b );
  si::unguardedLinearInsert( it + i, it.createComparator( sam::less< Tr >() ) );
  check_forall2( "the first part is sorted", 0, i + 1, [&]( I j, I k ) { return cell( p, j ) <= cell( p, k ); } );
  check_forall( "the rest is untouched", i + 1, n, [&]( I j ) { return ( cell( p, j ) == cell( o, j ) ) & ( cell( b, j ) == cell( ob, j ) ); } );
  check_forall( "pairs stay together", 0, i + 1, [&]( I j ) { return PAIR( c, j ); } );
  v_assert( v_track_count() == 0, "every data value occurs as often as before" );
}


HARNESS( dual_computeMedian )
{
  I const n = nd( "size", 0, VMAX );
  v_assume( n > 3 );
  Tr * p = live( "a", n, n );
  Tr * b = live( "b", n, n );
  Tr * g = static_cast< Tr * >( v_pairing( p, b, n ) );
  v_assume( v_track() < VPAIR );
  struct { Tr const * a, * b, * g; I n, m; } const c{ p, b, g, n, n / 2 };
  si::DualIterator< Tr *, Tr * > it( p, b );
  auto comp = it.createComparator( sam::less< Tr >() );
  si::computeMedian( it, it + 1, it + c.m, it + ( n - 1 ), comp );
  v_assert( STOPS( c, >=, true, true, true ), "an element not less than the pivot remains" );
  v_assert( STOPS( c, <=, true, true, true ), "an element not greater than the pivot remains" );
  check_forall( "pairs stay together", 0, n, [&]( I j ) { return PAIR( c, j ); } );
  v_assert( v_track_count() == 0, "every data value occurs as often as before" );
}

// A pair of iterators moves, compares and dereferences like one.
HARNESS( dual_iterator )
{
  I const n = nd( "size", 0, VMAX ), i = nd( "i", 0, VMAX ), k = nd( "k", 0, VMAX ), d = nd( "j", 0, VMAX ) - i;
  v_assume( i < n && k < n && i + d >= 0 && i + d < n );
  I * a = ints( "a", n );
  I * b = ints( "b", n );
  using It = si::DualIterator< I *, I * >;
  It const first( a, b );
#define AT( it, j ) ( ( &(*( it )).m_a == a + ( j ) ) & ( &(*( it )).m_b == b + ( j ) ) )
  v_assert( AT( first, 0 ), "construction" );
  It x = first + i;
  v_assert( AT( x, i ), "it + n" );
  v_assert( AT( x - ( -d ), i + d ), "it - n" );
  It const y = first + k;
  v_assert( x - y == i - k, "it - it" );
  v_assert( ( x < y ) == ( i < k ), "it < it" );
  v_assert( ( x != y ) == ( i != k ), "it != it" );
  It z = x;
  v_assert( &( z += d ) == &z && AT( z, i + d ), "it += n" );
  v_assert( &( z -= d ) == &z && AT( z, i ), "it -= n" );
  if( i + 1 < n ) { v_assert( &++z == &z && AT( z, i + 1 ), "++it" ); --z; }
  if( i > 0 ) v_assert( &--z == &z && AT( z, i - 1 ), "--it" );
  z = y;
  v_assert( AT( z, k ), "it = it" );
  v_assert( AT( x, i ), "the other iterator stays" );
}
#endif
