#pragma once
#include "core/std_defaults.h"
#include <vector>
namespace bitsery::traits
{
template <typename T, typename A>
struct ContainerTraits<std::vector<T, A>> : StdContainer<std::vector<T, A>, true, true> {};
template <typename T, typename A>
struct BufferAdapterTraits<std::vector<T, A>> : StdContainerForBufferAdapter<std::vector<T, A>> {};
}
