#pragma once
#include "core/std_defaults.h"
#include <list>
namespace bitsery::traits
{
template <typename T, typename A>
struct ContainerTraits<std::list<T, A>> : StdContainer<std::list<T, A>, true, false> {};
}
