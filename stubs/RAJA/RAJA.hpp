// Minimal sequential stand-in for the parts of RAJA that LvArray's headers name (RAJA is not installed here).
#pragma once
#include "camp/camp.hpp"
#include "camp/resource.hpp"
#include <cstddef>
namespace RAJA
{
struct loop_exec {};
struct seq_exec {};
struct seq_reduce {};
struct seq_atomic {};
struct builtin_atomic {};
struct auto_atomic {};

template< typename I > struct TypedRangeSegment
{
  I b, e;
  constexpr TypedRangeSegment( I const b_, I const e_ ): b( b_ ), e( e_ < b_ ? b_ : e_ ) {}
};

// forall: the body once for every index of the segment, in order.
template< typename POLICY, typename I, typename BODY >
inline void forall( TypedRangeSegment< I > const & seg, BODY && body )
{ for( I i = seg.b; i < seg.e; ++i ) { body( i ); } }

#ifndef LVSTUB_ATOMICS
template< typename POLICY, typename T > inline T atomicInc( T * const p ) { T const o = *p; *p = o + 1; return o; }
template< typename POLICY, typename T > inline T atomicAdd( T * const p, T const v ) { T const o = *p; *p = o + v; return o; }
#else
LVSTUB_ATOMICS
#endif

template< typename POLICY, typename IT, typename OT >
inline void inclusive_scan( IT const first, IT const last, OT out )
{
  if( first == last ) return;
  auto acc = *first;
  IT it = first;
  *out = acc;
  for( ++it, ++out; it != last; ++it, ++out ) { acc = acc + *it; *out = acc; }
}
}
