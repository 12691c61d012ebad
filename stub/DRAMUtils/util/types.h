#pragma once
// Stand-in for the DRAMUtils package (not available offline): the declarations DRAMPower uses, plain data only.
#include <type_traits>
#include <variant>
namespace DRAMUtils::util {
template <class T> struct always_false : std::false_type {};
template <class... Ts> struct type_sequence {};
template <class T, class S> struct is_one_of;
template <class T, class... Ts> struct is_one_of<T, type_sequence<Ts...>> : std::bool_constant<(std::is_same_v<T, Ts> || ...)> {};
template <class... Ts> struct unique_types : std::true_type {};
template <class T, class... Ts> struct unique_types<T, Ts...> : std::bool_constant<(!std::is_same_v<T, Ts> && ...) && unique_types<Ts...>::value> {};
}
