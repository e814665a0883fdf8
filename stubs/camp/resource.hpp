// Minimal stand-in for camp/resource.hpp.
#pragma once
#include "camp/camp.hpp"
#include <cstring>
namespace camp { namespace resources {
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
struct Event {};
struct Host { void memcpy( void * d, void const * s, std::size_t n ) { std::memcpy( d, s, n ); } Platform get_platform() const { return Platform::host; } };
struct Resource
{
  Resource() = default;
  template< typename T > Resource( T && ) {}
  void memcpy( void * d, void const * s, std::size_t n ) { std::memcpy( d, s, n ); }
  Platform get_platform() const { return Platform::host; }
  Event get_event() { return Event{}; }
};
} }
