// Stand-in for sfl::segmented_vector (slavenf/sfl-library), which is not
// available in this offline sandbox. Same observable contract as the
// documented original: elements live in segments of N, growth never moves
// existing elements (references stay valid), interface of std::vector.
// Out-of-contract accesses (operator[] out of range, front/back/pop_back on
// empty) are reported and abort, so that the sanitizer runs see them.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <new>
#include <stdexcept>
#include <type_traits>
#include <utility>
#include <vector>

namespace sfl
{
namespace dtl
{
[[noreturn]] inline void contract_violation(char const* what, std::size_t i, std::size_t n)
{
    std::fprintf(stderr, "SHIM-CONTRACT: sfl::segmented_vector::%s index=%zu size=%zu\n", what, i, n);
    std::fflush(stderr);
    std::abort();
}
}

template <class T, std::size_t N, class Allocator = std::allocator<T>>
class segmented_vector
{
    static_assert(N > 0);
    using alloc_traits = std::allocator_traits<Allocator>;

public:
    using allocator_type = Allocator;
    using value_type = T;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using reference = T&;
    using const_reference = T const&;
    using pointer = T*;
    using const_pointer = T const*;

private:
    template <bool C>
    class iter
    {
        friend class segmented_vector;
        template <bool> friend class iter;
        using vec = std::conditional_t<C, segmented_vector const, segmented_vector>;
        vec* v_ = nullptr;
        size_type i_ = 0;
        iter(vec* v, size_type i) : v_(v), i_(i) {}

    public:
        using iterator_category = std::random_access_iterator_tag;
        using value_type = T;
        using difference_type = std::ptrdiff_t;
        using pointer = std::conditional_t<C, T const*, T*>;
        using reference = std::conditional_t<C, T const&, T&>;
        iter() = default;
        operator iter<true>() const { return iter<true>(v_, i_); }
        reference operator*() const { return (*v_)[i_]; }
        pointer operator->() const { return &(*v_)[i_]; }
        reference operator[](difference_type n) const { return (*v_)[i_ + n]; }
        iter& operator++() { ++i_; return *this; }
        iter operator++(int) { auto t = *this; ++i_; return t; }
        iter& operator--() { --i_; return *this; }
        iter operator--(int) { auto t = *this; --i_; return t; }
        iter& operator+=(difference_type n) { i_ += n; return *this; }
        iter& operator-=(difference_type n) { i_ -= n; return *this; }
        friend iter operator+(iter a, difference_type n) { a += n; return a; }
        friend iter operator+(difference_type n, iter a) { a += n; return a; }
        friend iter operator-(iter a, difference_type n) { a -= n; return a; }
        friend difference_type operator-(iter const& a, iter const& b) { return difference_type(a.i_) - difference_type(b.i_); }
        friend bool operator==(iter const& a, iter const& b) { return a.v_ == b.v_ && a.i_ == b.i_; }
        friend bool operator!=(iter const& a, iter const& b) { return !(a == b); }
        friend bool operator<(iter const& a, iter const& b) { return a.i_ < b.i_; }
        friend bool operator>(iter const& a, iter const& b) { return b < a; }
        friend bool operator<=(iter const& a, iter const& b) { return !(b < a); }
        friend bool operator>=(iter const& a, iter const& b) { return !(a < b); }
    };

public:
    using iterator = iter<false>;
    using const_iterator = iter<true>;
    using reverse_iterator = std::reverse_iterator<iterator>;
    using const_reverse_iterator = std::reverse_iterator<const_iterator>;

    segmented_vector() = default;
    explicit segmented_vector(Allocator const& a) : alloc_(a) {}
    explicit segmented_vector(size_type n) { resize(n); }
    segmented_vector(size_type n, T const& v) { resize(n, v); }
    segmented_vector(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
    template <class It, class = typename std::iterator_traits<It>::iterator_category>
    segmented_vector(It a, It b) { assign(a, b); }
    segmented_vector(segmented_vector const& o) : alloc_(o.alloc_) { for (auto const& e : o) push_back(e); }
    segmented_vector(segmented_vector&& o) noexcept
        : segs_(std::move(o.segs_)), size_(std::exchange(o.size_, 0)), alloc_(std::move(o.alloc_)) { o.segs_.clear(); }
    segmented_vector& operator=(segmented_vector const& o)
    {
        if (this != &o) { auto c = o; swap(c); }
        return *this;
    }
    segmented_vector& operator=(segmented_vector&& o) noexcept
    {
        if (this != &o) { auto c = std::move(o); swap(c); }
        return *this;
    }
    segmented_vector& operator=(std::initializer_list<T> l) { assign(l.begin(), l.end()); return *this; }
    ~segmented_vector() { clear(); release(0); }

    template <class It, class = typename std::iterator_traits<It>::iterator_category>
    void assign(It a, It b) { clear(); for (; a != b; ++a) emplace_back(*a); }
    void assign(size_type n, T const& v) { auto c = v; clear(); resize(n, c); }
    void assign(std::initializer_list<T> l) { assign(l.begin(), l.end()); }
    allocator_type get_allocator() const { return alloc_; }

    static constexpr size_type segment_capacity() { return N; }
    static constexpr size_type max_size() { return size_type(-1) / 2 / sizeof(T); }
    [[nodiscard]] bool empty() const noexcept { return size_ == 0; }
    size_type size() const noexcept { return size_; }
    size_type capacity() const noexcept { return segs_.size() * N; }
    size_type available() const noexcept { return capacity() - size_; }
    void reserve(size_type n) { while (capacity() < n) add_segment(); }
    void shrink_to_fit() { release((size_ + N - 1) / N); segs_.shrink_to_fit(); }
    void clear() noexcept { while (size_ > 0) destroy_last(); }
    void resize(size_type n)
    {
        while (size_ > n) destroy_last();
        while (size_ < n) emplace_back();
    }
    void resize(size_type n, T const& v)
    {
        while (size_ > n) destroy_last();
        while (size_ < n) push_back(v);
    }

    template <class... Args>
    reference emplace_back(Args&&... args)
    {
        if (size_ == capacity()) add_segment();
        auto p = raw(size_);
        ::new (static_cast<void*>(p)) T(std::forward<Args>(args)...);
        ++size_;
        return *p;
    }
    void push_back(T const& v) { emplace_back(v); }
    void push_back(T&& v) { emplace_back(std::move(v)); }
    void pop_back()
    {
        if (!size_) dtl::contract_violation("pop_back", 0, 0);
        destroy_last();
    }

    reference operator[](size_type i) { check("operator[]", i); return *raw(i); }
    const_reference operator[](size_type i) const { check("operator[]", i); return *raw(i); }
    reference at(size_type i) { if (i >= size_) throw std::out_of_range("sfl::segmented_vector::at"); return *raw(i); }
    const_reference at(size_type i) const { if (i >= size_) throw std::out_of_range("sfl::segmented_vector::at"); return *raw(i); }
    reference front() { check("front", 0); return *raw(0); }
    const_reference front() const { check("front", 0); return *raw(0); }
    reference back() { check("back", size_ - 1); return *raw(size_ - 1); }
    const_reference back() const { check("back", size_ - 1); return *raw(size_ - 1); }

    iterator begin() noexcept { return {this, 0}; }
    iterator end() noexcept { return {this, size_}; }
    const_iterator begin() const noexcept { return {this, 0}; }
    const_iterator end() const noexcept { return {this, size_}; }
    const_iterator cbegin() const noexcept { return begin(); }
    const_iterator cend() const noexcept { return end(); }
    reverse_iterator rbegin() noexcept { return reverse_iterator(end()); }
    reverse_iterator rend() noexcept { return reverse_iterator(begin()); }
    const_reverse_iterator rbegin() const noexcept { return const_reverse_iterator(end()); }
    const_reverse_iterator rend() const noexcept { return const_reverse_iterator(begin()); }
    iterator nth(size_type n) { return {this, n}; }
    const_iterator nth(size_type n) const { return {this, n}; }
    size_type index_of(const_iterator p) const { return p.i_; }

    template <class... Args>
    iterator emplace(const_iterator pos, Args&&... args)
    {
        auto i = pos.i_;
        emplace_back(std::forward<Args>(args)...);
        std::rotate(begin() + i, end() - 1, end());
        return begin() + i;
    }
    iterator insert(const_iterator pos, T const& v) { return emplace(pos, v); }
    iterator insert(const_iterator pos, T&& v) { return emplace(pos, std::move(v)); }
    template <class It, class = typename std::iterator_traits<It>::iterator_category>
    iterator insert(const_iterator pos, It a, It b)
    {
        auto i = pos.i_;
        auto old = size_;
        for (; a != b; ++a) emplace_back(*a);
        std::rotate(begin() + i, begin() + old, end());
        return begin() + i;
    }
    iterator erase(const_iterator p) { return erase(p, p + 1); }
    iterator erase(const_iterator a, const_iterator b)
    {
        auto i = a.i_, n = b.i_ - a.i_;
        std::move(begin() + b.i_, end(), begin() + i);
        resize_down(size_ - n);
        return begin() + i;
    }

    void swap(segmented_vector& o) noexcept
    {
        segs_.swap(o.segs_);
        std::swap(size_, o.size_);
        std::swap(alloc_, o.alloc_);
    }
    friend void swap(segmented_vector& a, segmented_vector& b) noexcept { a.swap(b); }
    friend bool operator==(segmented_vector const& a, segmented_vector const& b) { return a.size_ == b.size_ && std::equal(a.begin(), a.end(), b.begin()); }
    friend bool operator!=(segmented_vector const& a, segmented_vector const& b) { return !(a == b); }
    friend bool operator<(segmented_vector const& a, segmented_vector const& b) { return std::lexicographical_compare(a.begin(), a.end(), b.begin(), b.end()); }

private:
    T* raw(size_type i) const { return segs_[i / N] + i % N; }
    void check(char const* what, size_type i) const { if (i >= size_) dtl::contract_violation(what, i, size_); }
    void add_segment()
    {
        if (segs_.size() == segs_.capacity()) segs_.reserve(segs_.size() * 2 + 1); // may fail; the next two steps go together
        segs_.push_back(alloc_traits::allocate(alloc_, N));
    }
    void destroy_last() { --size_; raw(size_)->~T(); }
    void resize_down(size_type n) { while (size_ > n) destroy_last(); }
    void release(size_type keep)
    {
        while (segs_.size() > keep) {
            alloc_traits::deallocate(alloc_, segs_.back(), N);
            segs_.pop_back();
        }
    }
    std::vector<T*> segs_;
    size_type size_ = 0;
    [[no_unique_address]] Allocator alloc_{};
};
}
