// nlohmann::json flattens a document when it destroys it, into a vector: short of memory, its destructor terminates
// the program. That is not what is examined here, so the vectors of documents get their memory from elsewhere.
// Forcibly included, before anything else.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <memory>
#include <nlohmann/json_fwd.hpp>

namespace std {
template <>
class allocator<nlohmann::json>
{
public:
    using value_type = nlohmann::json;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using propagate_on_container_move_assignment = std::true_type;
    using is_always_equal = std::true_type;
    allocator() noexcept = default;
    template <class U> allocator(const allocator<U>&) noexcept {}
    nlohmann::json* allocate(std::size_t n)
    {
        auto p = std::malloc((n ? n : 1) * 16);
        if (!p) std::abort();
        return static_cast<nlohmann::json*>(p);
    }
    void deallocate(nlohmann::json* p, std::size_t) noexcept { std::free(p); }
    template <class U> bool operator==(const allocator<U>&) const noexcept { return true; }
};
} // namespace std
