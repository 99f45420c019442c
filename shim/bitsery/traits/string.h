#pragma once
#include "core/std_defaults.h"
#include <string>
namespace bitsery::traits
{
template <typename C, typename Tr, typename A>
struct ContainerTraits<std::basic_string<C, Tr, A>> : StdContainer<std::basic_string<C, Tr, A>, true, true> {};
template <typename C, typename Tr, typename A>
struct TextTraits<std::basic_string<C, Tr, A>>
{
    using TValue = typename ContainerTraits<std::basic_string<C, Tr, A>>::TValue;
    static constexpr bool addNUL = false;
    static size_t length(std::basic_string<C, Tr, A> const& s) { return s.size(); }
};
template <typename C, typename Tr, typename A>
struct BufferAdapterTraits<std::basic_string<C, Tr, A>> : StdContainerForBufferAdapter<std::basic_string<C, Tr, A>> {};
}
