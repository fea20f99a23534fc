// The server's standard input and output as simulated pipes.
#include <iostream>
#include <streambuf>

#include "rt.h"

namespace rt {
namespace {
struct InBuf : std::streambuf
{
    std::string data; // bytes not yet consumed by the server
    size_t taken = 0;
    bool eof = false;
    char chunk[4096];
    Rng r { 3 };

    int underflow() override
    {
        if (gptr() < egptr())
            return traits_type::to_int_type(*gptr());
        if (active())
            point(Point::sync);
        while (data.empty())
        {
            if (eof)
                return traits_type::eof();
            block_on(this);
        }
        size_t n = data.size();
        if (pipe_out::max_in_chunk && n > pipe_out::max_in_chunk)
            n = 1 + r.below(pipe_out::max_in_chunk);
        if (n > sizeof chunk)
            n = sizeof chunk;
        data.copy(chunk, n);
        data.erase(0, n);
        taken += n;
        setg(chunk, chunk, chunk + n);
        return traits_type::to_int_type(*gptr());
    }
    void clear_all()
    {
        data.clear();
        taken = 0;
        eof = false;
        setg(chunk, chunk, chunk);
    }
};
struct OutBuf : std::streambuf
{
    std::function<void(const char*, size_t)> sink;
    bool broken = false, stalled = false;
    size_t failed = 0;
    Rng r { 5 };

    bool emit(const char* p, size_t n)
    {
        size_t off = 0;
        while (off < n)
        {
            if (active())
                point(Point::sync);
            while (stalled && !broken && active())
                block_on(this);
            if (broken)
            {
                ++failed;
                return false;
            }
            size_t m = n - off;
            if (pipe_out::max_chunk && m > pipe_out::max_chunk)
                m = 1 + r.below(pipe_out::max_chunk);
            if (sink)
                sink(p + off, m);
            off += m;
        }
        return true;
    }
    // as stdio does on a pipe: bytes leave the process when the buffer fills up (whole buffers only) or at a flush
    // std::cin is tied to std::cout, so reading flushes it as well, from another thread: the FILE lock keeps them apart
    std::string held;
    bool locked = false;
    struct FileLock
    {
        OutBuf& b;
        explicit FileLock(OutBuf& o)
            : b(o)
        {
            while (b.locked && active())
                block_on(&b.locked);
            b.locked = true;
        }
        ~FileLock()
        {
            b.locked = false;
            wake(&b.locked);
        }
    };
    bool put(const char* p, size_t n)
    {
        FileLock l(*this);
        held.append(p, n);
        size_t m = held.size() / pipe_out::buffer * pipe_out::buffer;
        if (m == 0)
        {
            if (active())
                point(Point::sync);
            return true;
        }
        std::string out = held.substr(0, m);
        held.erase(0, m);
        return emit(out.data(), out.size());
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override { return put(p, (size_t)n) ? n : 0; }
    int overflow(int c) override
    {
        if (c == traits_type::eof())
            return 0;
        char ch = (char)c;
        return put(&ch, 1) ? c : traits_type::eof();
    }
    int sync() override
    {
        if (active())
            point(Point::sync);
        FileLock l(*this);
        std::string out;
        out.swap(held);
        return emit(out.data(), out.size()) ? 0 : -1;
    }
};
InBuf* ib;
OutBuf* ob;
} // namespace

namespace pipe_in {
void reset() { ib->clear_all(); }
void push(const std::string& b)
{
    if (ib->eof)
        return;
    ib->data += b;
    wake(ib);
}
void close()
{
    ib->eof = true;
    wake(ib);
}
size_t pending() { return ib->data.size(); }
size_t consumed() { return ib->taken; }
} // namespace pipe_in
namespace pipe_out {
size_t max_chunk = 0, max_in_chunk = 0, buffer = 4096;
void reset(std::function<void(const char*, size_t)> sink)
{
    ob->sink = std::move(sink);
    ob->broken = ob->stalled = false;
    ob->held.clear();
    ob->locked = false;
}
void break_pipe()
{
    ob->broken = true;
    wake(ob);
}
bool stalled() { return ob->stalled; }
void stall(bool on)
{
    ob->stalled = on;
    if (!on)
        wake(ob);
}
size_t failed_writes() { return ob->failed; }
} // namespace pipe_out
void install_stdio()
{
    ib = new InBuf;
    ob = new OutBuf;
    std::cin.rdbuf(ib);
    std::cout.rdbuf(ob);
}
} // namespace rt
