// Part of the bitsery stand-in (see ../bitsery.h).
#pragma once
#include "../bitsery.h"
#include <istream>
#include <ostream>

namespace bitsery
{
class OutputStreamAdapter
{
    std::ostream* os_;

public:
    OutputStreamAdapter(std::ostream& os) : os_(&os) {}
    template <size_t N, typename U> void writeBytes(U u)
    {
        static_assert(sizeof(U) == N);
        char b[N];
        for (size_t i = 0; i < N; ++i) b[i] = char((uint64_t(u) >> (8 * i)) & 0xff);
        os_->rdbuf()->sputn(b, N);
    }
    void flush() { os_->flush(); }
};

class InputStreamAdapter
{
    std::istream* is_;
    ReaderError err_ = ReaderError::NoError;

public:
    InputStreamAdapter(std::istream& is) : is_(&is) {}
    template <size_t N, typename U> void readBytes(U& u)
    {
        static_assert(sizeof(U) == N);
        u = 0;
        unsigned char b[N] = {};
        if (err_ == ReaderError::NoError && is_->rdbuf()->sgetn(reinterpret_cast<char*>(b), N) != std::streamsize(N)) {
            std::memset(b, 0, N);
            is_->setstate(std::ios_base::eofbit);
            error(is_->bad() ? ReaderError::ReadingError : ReaderError::DataOverflow);
        }
        if (err_ != ReaderError::NoError) return;
        uint64_t v = 0;
        for (size_t i = 0; i < N; ++i) v |= uint64_t(b[i]) << (8 * i);
        u = U(v);
    }
    ReaderError error() const { return err_; }
    void error(ReaderError e)
    {
        if (err_ == ReaderError::NoError) {
            err_ = e;
            is_->setstate(std::ios_base::failbit);
        }
    }
    bool isCompletedSuccessfully() const
    {
        return err_ == ReaderError::NoError && is_->rdbuf()->sgetc() == std::char_traits<char>::eof();
    }
};
}
