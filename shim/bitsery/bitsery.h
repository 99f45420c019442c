// Stand-in for the subset of bitsery (fraillt/bitsery 5.2.x) that simfil
// uses; the real library is not available in this offline sandbox. It keeps
// the documented wire format (little endian values, 1/2/4-byte compact sizes)
// and reader error semantics (first error is sticky, a failed read leaves the
// value zeroed, a size above the limit is InvalidData).
#pragma once
#include "traits/core/std_defaults.h"
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <iterator>
#include <limits>
#include <type_traits>
#include <utility>

#define BITSERY_MAJOR_VERSION 5
#define BITSERY_MINOR_VERSION 2
#define BITSERY_PATCH_VERSION 3

namespace bitsery
{
enum class ReaderError { NoError, ReadingError, DataOverflow, InvalidData, InvalidPointer };

enum class EndiannessType { LittleEndian, BigEndian };
struct DefaultConfig
{
    static constexpr EndiannessType Endianness = EndiannessType::LittleEndian;
    static constexpr bool CheckDataErrors = true;
    static constexpr bool CheckAdapterErrors = true;
};

class Access
{
public:
    template <typename S, typename T>
    static auto serialize(S& s, T& v) -> decltype(v.serialize(s)) { return v.serialize(s); }
    template <typename T>
    static T create() { return T{}; }
};

namespace details
{
template <size_t N> struct UInt;
template <> struct UInt<1> { using type = uint8_t; };
template <> struct UInt<2> { using type = uint16_t; };
template <> struct UInt<4> { using type = uint32_t; };
template <> struct UInt<8> { using type = uint64_t; };

template <size_t N, typename T>
auto toBits(T const& v)
{
    static_assert(sizeof(T) == N, "value size mismatch");
    static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>);
    typename UInt<N>::type u;
    std::memcpy(&u, &v, N);
    return u;
}
template <size_t N, typename T>
void fromBits(T& v, typename UInt<N>::type u)
{
    static_assert(sizeof(T) == N, "value size mismatch");
    static_assert(std::is_arithmetic_v<T> || std::is_enum_v<T>);
    if constexpr (std::is_same_v<T, bool>) v = u != 0;
    else std::memcpy(&v, &u, N);
}

template <typename S, typename T, typename = void>
struct HasMember : std::false_type {};
template <typename S, typename T>
struct HasMember<S, T, std::void_t<decltype(Access::serialize(std::declval<S&>(), std::declval<T&>()))>> : std::true_type {};

template <typename S, typename T>
void callSerialize(S& s, T& v)
{
    if constexpr (HasMember<S, T>::value) Access::serialize(s, v);
    else serialize(s, v);
}

/// bitsery asserts that what is written is not longer than the reader will accept.
inline void fits(size_t n, size_t max)
{
    if (n <= max) return;
    std::fprintf(stderr, "SHIM-CONTRACT: bitsery::Serializer writes %zu elements where at most %zu can be read\n", n, max);
    std::abort();
}

template <typename Adapter>
void writeSize(Adapter& a, size_t n)
{
    if (n < 0x80u) {
        a.template writeBytes<1>(uint8_t(n));
    } else if (n < 0x4000u) {
        a.template writeBytes<1>(uint8_t((n >> 8) | 0x80u));
        a.template writeBytes<1>(uint8_t(n));
    } else {
        a.template writeBytes<1>(uint8_t((n >> 24) | 0xC0u));
        a.template writeBytes<1>(uint8_t(n >> 16));
        a.template writeBytes<2>(uint16_t(n));
    }
}
template <typename Adapter>
void readSize(Adapter& a, size_t& n, size_t maxSize)
{
    uint8_t hb{}, lb{};
    a.template readBytes<1>(hb);
    if (hb < 0x80u) n = hb;
    else {
        a.template readBytes<1>(lb);
        if (hb & 0x40u) {
            uint16_t lw{};
            a.template readBytes<2>(lw);
            n = (size_t((hb & 0x3Fu) << 8 | lb) << 16) | lw;
        } else n = size_t(hb & 0x7Fu) << 8 | lb;
    }
    if (n > maxSize) {
        a.error(ReaderError::InvalidData);
        n = 0;
    }
}
}

template <typename TOutputAdapter, typename TContext = void>
class Serializer
{
    TOutputAdapter adapter_;

public:
    static constexpr bool IsSerializer = true;
    template <typename... P>
    explicit Serializer(P&&... p) : adapter_(std::forward<P>(p)...) {}
    Serializer(Serializer const&) = delete;
    Serializer& operator=(Serializer const&) = delete;
    TOutputAdapter& adapter() & { return adapter_; }
    TOutputAdapter adapter() && { return std::move(adapter_); }

    template <size_t N, typename T> void value(T const& v) { adapter_.template writeBytes<N>(details::toBits<N>(v)); }
    template <typename T> void value1b(T const& v) { value<1>(v); }
    template <typename T> void value2b(T const& v) { value<2>(v); }
    template <typename T> void value4b(T const& v) { value<4>(v); }
    template <typename T> void value8b(T const& v) { value<8>(v); }
    void boolValue(bool v) { value<1>(uint8_t(v ? 1 : 0)); }

    template <typename T> void object(T const& v) { details::callSerialize(*this, const_cast<T&>(v)); }
    template <typename T, typename F> void object(T const& v, F&& f) { f(*this, const_cast<T&>(v)); }

    template <size_t N, typename T> void text(T const& s, size_t m)
    {
        auto n = traits::TextTraits<T>::length(s);
        details::fits(n, m);
        details::writeSize(adapter_, n);
        auto it = std::begin(s);
        for (size_t i = 0; i < n; ++i, ++it) value<N>(*it);
    }
    template <typename T> void text1b(T const& s, size_t m) { text<1>(s, m); }
    template <typename T> void text2b(T const& s, size_t m) { text<2>(s, m); }
    template <typename T> void text4b(T const& s, size_t m) { text<4>(s, m); }

    template <typename T, typename F, std::enable_if_t<std::is_invocable_v<F, Serializer&, typename traits::ContainerTraits<T>::TValue&>, int> = 0>
    void container(T const& c, size_t m, F&& f)
    {
        details::fits(traits::ContainerTraits<T>::size(c), m);
        details::writeSize(adapter_, traits::ContainerTraits<T>::size(c));
        for (auto& e : const_cast<T&>(c)) f(*this, e);
    }
    template <typename T> void container(T const& c, size_t m = std::numeric_limits<size_t>::max())
    {
        container(c, m, [](Serializer& s, typename traits::ContainerTraits<T>::TValue& v) { s.object(v); });
    }
    template <size_t N, typename T> void containerN(T const& c)
    {
        if constexpr (traits::ContainerTraits<T>::isResizable) details::writeSize(adapter_, traits::ContainerTraits<T>::size(c));
        for (auto& e : c) value<N>(e);
    }
    template <typename T> void container1b(T const& c, size_t = 0) { containerN<1>(c); }
    template <typename T> void container2b(T const& c, size_t = 0) { containerN<2>(c); }
    template <typename T> void container4b(T const& c, size_t = 0) { containerN<4>(c); }
    template <typename T> void container8b(T const& c, size_t = 0) { containerN<8>(c); }

    template <typename T, typename Ext> void ext(T const& v, Ext const& e)
    {
        using V = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.serialize(*this, v, [](Serializer& s, V& x) { s.object(x); });
    }
    template <typename T, typename Ext, typename F> void ext(T const& v, Ext const& e, F&& f) { e.serialize(*this, v, std::forward<F>(f)); }
    template <size_t N, typename T, typename Ext> void extN(T const& v, Ext const& e)
    {
        using V = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.serialize(*this, v, [](Serializer& s, V& x) { s.template value<N>(x); });
    }
    template <typename T, typename Ext> void ext1b(T const& v, Ext const& e) { extN<1>(v, e); }
    template <typename T, typename Ext> void ext2b(T const& v, Ext const& e) { extN<2>(v, e); }
    template <typename T, typename Ext> void ext4b(T const& v, Ext const& e) { extN<4>(v, e); }
    template <typename T, typename Ext> void ext8b(T const& v, Ext const& e) { extN<8>(v, e); }
};

template <typename TInputAdapter, typename TContext = void>
class Deserializer
{
    TInputAdapter adapter_;

public:
    static constexpr bool IsSerializer = false;
    template <typename... P>
    explicit Deserializer(P&&... p) : adapter_(std::forward<P>(p)...) {}
    Deserializer(Deserializer const&) = delete;
    Deserializer& operator=(Deserializer const&) = delete;
    TInputAdapter& adapter() & { return adapter_; }
    TInputAdapter adapter() && { return std::move(adapter_); }

    template <size_t N, typename T> void value(T& v)
    {
        typename details::UInt<N>::type u{};
        adapter_.template readBytes<N>(u);
        details::fromBits<N>(v, u);
    }
    template <typename T> void value1b(T& v) { value<1>(v); }
    template <typename T> void value2b(T& v) { value<2>(v); }
    template <typename T> void value4b(T& v) { value<4>(v); }
    template <typename T> void value8b(T& v) { value<8>(v); }
    void boolValue(bool& v) { uint8_t u{}; value<1>(u); if (u > 1) adapter_.error(ReaderError::InvalidData); v = u == 1; }

    template <typename T> void object(T& v) { details::callSerialize(*this, v); }
    template <typename T, typename F> void object(T& v, F&& f) { f(*this, v); }

    template <size_t N, typename T> void text(T& s, size_t maxSize)
    {
        size_t n{};
        details::readSize(adapter_, n, maxSize);
        traits::ContainerTraits<T>::resize(s, n);
        for (auto& c : s) value<N>(c);
    }
    template <typename T> void text1b(T& s, size_t m) { text<1>(s, m); }
    template <typename T> void text2b(T& s, size_t m) { text<2>(s, m); }
    template <typename T> void text4b(T& s, size_t m) { text<4>(s, m); }

    template <typename T, typename F, std::enable_if_t<std::is_invocable_v<F, Deserializer&, typename traits::ContainerTraits<T>::TValue&>, int> = 0>
    void container(T& c, size_t maxSize, F&& f)
    {
        size_t n{};
        details::readSize(adapter_, n, maxSize);
        traits::ContainerTraits<T>::resize(c, n);
        for (auto& e : c) f(*this, e);
    }
    template <typename T> void container(T& c, size_t maxSize = std::numeric_limits<size_t>::max())
    {
        container(c, maxSize, [](Deserializer& s, typename traits::ContainerTraits<T>::TValue& v) { s.object(v); });
    }
    template <size_t N, typename T> void containerN(T& c, size_t maxSize)
    {
        if constexpr (traits::ContainerTraits<T>::isResizable) {
            size_t n{};
            details::readSize(adapter_, n, maxSize);
            traits::ContainerTraits<T>::resize(c, n);
        }
        for (auto& e : c) value<N>(e);
    }
    template <typename T> void container1b(T& c, size_t m = std::numeric_limits<size_t>::max()) { containerN<1>(c, m); }
    template <typename T> void container2b(T& c, size_t m = std::numeric_limits<size_t>::max()) { containerN<2>(c, m); }
    template <typename T> void container4b(T& c, size_t m = std::numeric_limits<size_t>::max()) { containerN<4>(c, m); }
    template <typename T> void container8b(T& c, size_t m = std::numeric_limits<size_t>::max()) { containerN<8>(c, m); }

    template <typename T, typename Ext> void ext(T& v, Ext const& e)
    {
        using V = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.deserialize(*this, v, [](Deserializer& s, V& x) { s.object(x); });
    }
    template <typename T, typename Ext, typename F> void ext(T& v, Ext const& e, F&& f) { e.deserialize(*this, v, std::forward<F>(f)); }
    template <size_t N, typename T, typename Ext> void extN(T& v, Ext const& e)
    {
        using V = typename traits::ExtensionTraits<Ext, T>::TValue;
        e.deserialize(*this, v, [](Deserializer& s, V& x) { s.template value<N>(x); });
    }
    template <typename T, typename Ext> void ext1b(T& v, Ext const& e) { extN<1>(v, e); }
    template <typename T, typename Ext> void ext2b(T& v, Ext const& e) { extN<2>(v, e); }
    template <typename T, typename Ext> void ext4b(T& v, Ext const& e) { extN<4>(v, e); }
    template <typename T, typename Ext> void ext8b(T& v, Ext const& e) { extN<8>(v, e); }
};

template <typename OutputAdapter, typename T>
size_t quickSerialization(OutputAdapter adapter, T const& v)
{
    Serializer<OutputAdapter> s(std::move(adapter));
    s.object(v);
    s.adapter().flush();
    return s.adapter().writtenBytesCount();
}
template <typename InputAdapter, typename T>
std::pair<ReaderError, bool> quickDeserialization(InputAdapter adapter, T& v)
{
    Deserializer<InputAdapter> d(std::move(adapter));
    d.object(v);
    return {d.adapter().error(), d.adapter().isCompletedSuccessfully()};
}
}
