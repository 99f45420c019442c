#pragma once
#include "core/std_defaults.h"
#include <array>
namespace bitsery::traits
{
template <typename T, size_t N>
struct ContainerTraits<std::array<T, N>> : StdContainer<std::array<T, N>, false, true> {};
template <typename T, size_t N>
struct BufferAdapterTraits<std::array<T, N>> : StdContainerForBufferAdapter<std::array<T, N>> {};
}
