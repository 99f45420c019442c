// Part of the bitsery stand-in (see ../../bitsery.h).
#pragma once
#include <cstddef>
#include <iterator>
#include <type_traits>
#include <utility>

namespace bitsery::traits
{
template <typename T, typename = int>
struct has_resize : std::false_type {};
template <typename T>
struct has_resize<T, decltype(std::declval<T&>().resize(1u), 1)> : std::true_type {};

// Extension traits: specialised by the user of an extension.
template <typename Ext, typename T>
struct ExtensionTraits
{
    using TValue = void;
    static constexpr bool SupportValueOverload = false;
    static constexpr bool SupportObjectOverload = false;
    static constexpr bool SupportLambdaOverload = false;
};

template <typename T>
struct ContainerTraits;
template <typename T>
struct TextTraits;
template <typename T>
struct BufferAdapterTraits;

template <typename T, bool Resizable, bool Contiguous>
struct StdContainer
{
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static constexpr bool isContiguous = Contiguous;
    static size_t size(T const& c) { return c.size(); }
    static void resize(T& c, size_t n) { c.resize(n); }
};
template <typename T, bool Contiguous>
struct StdContainer<T, false, Contiguous>
{
    using TValue = typename T::value_type;
    static constexpr bool isResizable = false;
    static constexpr bool isContiguous = Contiguous;
    static size_t size(T const& c) { return c.size(); }
};

template <typename T, bool Resizable = has_resize<T>::value>
struct StdContainerForBufferAdapter
{
    using TIterator = typename T::iterator;
    using TConstIterator = typename T::const_iterator;
    using TValue = typename T::value_type;
    static constexpr bool isResizable = Resizable;
    static void increaseBufferSize(T& c, size_t, size_t minSize)
    {
        auto n = c.size() < 128 ? size_t(256) : c.size() * 2;
        while (n < minSize) n *= 2;
        c.resize(n);
    }
};
}
