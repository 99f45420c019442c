#pragma once
#include "core/std_defaults.h"
#include <deque>
namespace bitsery::traits
{
template <typename T, typename A>
struct ContainerTraits<std::deque<T, A>> : StdContainer<std::deque<T, A>, true, false> {};
}
