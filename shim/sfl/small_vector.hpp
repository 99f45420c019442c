// Stand-in for sfl::small_vector: the inline capacity is only an
// optimisation of the original, so std::vector has the same contract.
#pragma once
#include <vector>
namespace sfl
{
template <class T, std::size_t N, class Allocator = std::allocator<T>>
class small_vector : public std::vector<T, Allocator>
{
public:
    using std::vector<T, Allocator>::vector;
    static constexpr std::size_t static_capacity = N;
};
}
