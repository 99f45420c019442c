#pragma once
#include "core/std_defaults.h"
#include <forward_list>
namespace bitsery::traits
{
template <typename T, typename A>
struct ContainerTraits<std::forward_list<T, A>> : StdContainer<std::forward_list<T, A>, true, false> {};
}
