// Part of the bitsery stand-in (see ../bitsery.h).
#pragma once
#include "../bitsery.h"

namespace bitsery
{
template <typename Buffer, typename Config = DefaultConfig>
class OutputBufferAdapter
{
    Buffer* buf_;
    size_t pos_ = 0;

public:
    OutputBufferAdapter(Buffer& b) : buf_(&b) {}
    template <size_t N, typename U> void writeBytes(U u)
    {
        if (buf_->size() < pos_ + N) traits::BufferAdapterTraits<Buffer>::increaseBufferSize(*buf_, pos_, pos_ + N);
        auto it = std::next(std::begin(*buf_), pos_);
        for (size_t i = 0; i < N; ++i, ++it) *it = static_cast<typename Buffer::value_type>((uint64_t(u) >> (8 * i)) & 0xff);
        pos_ += N;
    }
    void flush() {}
    size_t writtenBytesCount() const { return pos_; }
};

template <typename Buffer, typename Config = DefaultConfig>
class InputBufferAdapter
{
    using It = typename Buffer::const_iterator;
    It it_;
    size_t left_;
    ReaderError err_ = ReaderError::NoError;

public:
    InputBufferAdapter(It b, size_t n) : it_(b), left_(n) {}
    InputBufferAdapter(It b, It e) : it_(b), left_(size_t(std::distance(b, e))) {}
    template <size_t N, typename U> void readBytes(U& u)
    {
        u = 0;
        if (err_ == ReaderError::NoError && left_ < N) { error(ReaderError::DataOverflow); }
        if (err_ != ReaderError::NoError) return;
        uint64_t v = 0;
        for (size_t i = 0; i < N; ++i, ++it_) v |= uint64_t(static_cast<unsigned char>(*it_)) << (8 * i);
        left_ -= N;
        u = U(v);
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e) { if (err_ == ReaderError::NoError) err_ = e; }
    bool isCompletedSuccessfully() const { return err_ == ReaderError::NoError && left_ == 0; }
};
}
