// Part of the bitsery stand-in (see ../bitsery.h).
#pragma once
#include "../bitsery.h"

namespace bitsery
{
namespace ext
{
class StdMap
{
    size_t max_;

public:
    explicit constexpr StdMap(size_t m) : max_(m) {}
    template <typename S, typename T, typename F>
    void serialize(S& s, T const& m, F&& f) const
    {
        details::writeSize(s.adapter(), m.size());
        for (auto& e : m) f(s, const_cast<typename T::key_type&>(e.first), const_cast<typename T::mapped_type&>(e.second));
    }
    template <typename S, typename T, typename F>
    void deserialize(S& s, T& m, F&& f) const
    {
        size_t n{};
        details::readSize(s.adapter(), n, max_);
        m.clear();
        for (size_t i = 0; i < n; ++i) {
            typename T::key_type k{};
            typename T::mapped_type v{};
            f(s, k, v);
            m.emplace(std::move(k), std::move(v));
        }
    }
};
}
namespace traits
{
template <typename T>
struct ExtensionTraits<ext::StdMap, T>
{
    using TValue = void;
    static constexpr bool SupportValueOverload = false;
    static constexpr bool SupportObjectOverload = false;
    static constexpr bool SupportLambdaOverload = true;
};
}
}
