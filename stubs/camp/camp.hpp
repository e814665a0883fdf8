// Minimal stand-in for the parts of camp that LvArray's headers name (camp is not installed here).
#pragma once
#include <cstddef>
#include <type_traits>
#include <utility>
namespace camp
{
using idx_t = std::ptrdiff_t;

template< idx_t... I > struct idx_seq { using type = idx_seq; static constexpr idx_t size = sizeof...( I ); };
template< typename T, T ... I > struct int_seq { using type = int_seq; };

namespace detail
{
template< typename S > struct conv;
template< std::size_t... I > struct conv< std::index_sequence< I... > > { using type = idx_seq< idx_t( I )... >; };
template< idx_t N, idx_t F, idx_t... R > struct at { static constexpr idx_t value = at< N - 1, R... >::value; };
template< idx_t F, idx_t... R > struct at< 0, F, R... > { static constexpr idx_t value = F; };
}
template< idx_t N > using make_idx_seq_t = typename detail::conv< std::make_index_sequence< N > >::type;
template< idx_t N > struct make_idx_seq { using type = make_idx_seq_t< N >; };

template< idx_t N, typename S > struct seq_at;
template< idx_t N, idx_t... I > struct seq_at< N, idx_seq< I... > > { static constexpr idx_t value = detail::at< N, I... >::value; };

namespace concepts { namespace metalib {
template< bool ... > struct bool_list {};
template< bool ... B > struct all_of : std::is_same< bool_list< true, B... >, bool_list< B..., true > > {};
template< typename ... T > struct all_of_t : all_of< bool( T::value )... > {};
} }

namespace detail
{
template< std::size_t I, typename T > struct leaf { T v; };
template< typename S, typename ... T > struct timpl;
template< std::size_t... I, typename ... T > struct timpl< std::index_sequence< I... >, T... > : leaf< I, T >...
{
  constexpr timpl( T ... t ): leaf< I, T >{ t } ... {}
};
template< idx_t I, typename T > constexpr T const & getl( leaf< std::size_t( I ), T > const & l ) { return l.v; }
}
template< typename ... T > struct tuple : detail::timpl< std::index_sequence_for< T... >, T... >
{
  using detail::timpl< std::index_sequence_for< T... >, T... >::timpl;
};
template< typename ... T > constexpr tuple< std::decay_t< T >... > make_tuple( T && ... t )
{ return tuple< std::decay_t< T >... >( std::forward< T >( t )... ); }
template< idx_t I, typename ... T > constexpr auto const & get( tuple< T... > const & t ) { return detail::getl< I >( t ); }
}
