// C24: exact-length transfers of a client deliver exactly the bytes asked for.
#include <sys/socket.h>

#include "common.h"

#include <cocpp/io/co_client.h>
#include <cocpp/io/co_server.h>

#include <string>
#include <tuple>

namespace
{

struct client final : co_client
{
    explicit client(int fd) { endpoint__.init_fd(fd); }
    std::tuple<size_t, co_error> read(co_buffer &b) override { return co_client::read(b); }
    co_error read_n(co_buffer &b) override { return co_client::read_n(b); }
    std::tuple<size_t, co_error> write(const co_buffer &b) override { return co_client::write(b); }
    co_error write_n(const co_buffer &b) override { return co_client::write_n(b); }
    co_error close() override { return co_client::close(); }
    co_net get_endpoint() override { return co_client::get_endpoint(); }
};

char pattern(size_t i)
{
    return (char)('a' + i * 7 % 26);
}

bool failed(const co_error &e)
{
    return e.code() != co_error_code::ok;
}

// The stream as the operating system sees it.
size_t in_pos, in_end; // next byte handed out, where the peer closes
std::string *out;
int calls, transients, hard_error, eofs;

long os(const char *name, int fd, void *a, size_t n, long b, void *c)
{
    std::string what = name;
    if (what == "fcntl")
        return b == F_GETFL ? O_RDWR : 0;
    if (what == "close")
        return 0;
    bool in = what == "read" || what == "recv";
    MC_CHECK(in || what == "write" || what == "send", "an unexpected system call: %s", name);
    MC_CHECK(fd == 1003, "another descriptor is used");
    MC_CHECK(n > 0, "a transfer of no bytes is asked for");
    MC_CHECK(!hard_error, "a transfer goes on after an error");
    MC_CHECK(++calls < 60 && !eofs, "a transfer goes on after the peer has closed");
    // some bytes; not now; interrupted; an error
    int most = n < 3 ? (int)n : 3;
    int k = mc::choose(most + (transients < 2 ? 3 : 1));
    if (k == most)
    {
        hard_error = in ? ECONNRESET : EPIPE;
        return -hard_error;
    }
    if (k > most)
    {
        ++transients;
        return k == most + 1 ? -EAGAIN : -EINTR;
    }
    size_t count = k == 0 ? n : (size_t)k; // all, one or two
    if (!in)
    {
        out->append((const char *)a, count);
        return (long)count;
    }
    if (count > in_end - in_pos)
        count = in_end - in_pos;
    if (count == 0)
        ++eofs;
    for (size_t i = 0; i < count; ++i)
        ((char *)a)[i] = pattern(in_pos++);
    return (long)count;
}

template <typename F>
void with_client(F f)
{
    auto e = h::make_envs(1);
    in_pos = 0;
    out = new std::string;
    calls = transients = hard_error = eofs = 0;
    h::go(e[0], 0, [=] {
        mc::sys.call = os;
        client c(1003);
        f(c);
        mc::sys.call = nullptr;
    });
    mc::settle(60'000);
    h::expect_all(1, "a transfer never ends");
}

}

// Two reads one after the other; every way the bytes may come in pieces, every place the stream may end.
MC_SCENARIO(client_read_n, {})
{
    in_end = (size_t)mc::choose(7);
    int first = mc::choose(4);
    with_client([=](client &c) {
        size_t done = 0;
        for (int turn = 0; turn < 2; ++turn)
        {
            size_t want = turn ? 2 : (size_t)first;
            co_buffer b(want);
            auto e = c.read_n(b);
            if (failed(e))
            {
                MC_CHECK(hard_error || eofs, "a read fails without a reason");
                MC_CHECK(want > 0, "a read of nothing fails");
                mc::outcome((int)done * 4 + (hard_error ? 1 : 2));
                return;
            }
            MC_CHECK(!hard_error && !eofs, "a read succeeds although the stream ended");
            MC_CHECK(b.size() == want, "the buffer changes its size");
            MC_CHECK(in_pos == done + want, "a read of %zu bytes takes %zu from the stream", want, in_pos - done);
            for (size_t i = 0; i < want; ++i)
                MC_CHECK(b[i] == (co_byte)pattern(done + i), "byte %zu of the stream is changed or moved", done + i);
            done += want;
        }
        mc::outcome((int)done * 4);
    });
}

MC_SCENARIO(client_write_n, {})
{
    int first = mc::choose(4);
    with_client([=](client &c) {
        size_t done = 0;
        for (int turn = 0; turn < 2; ++turn)
        {
            size_t n = turn ? 2 : (size_t)first;
            co_buffer b(n);
            for (size_t i = 0; i < n; ++i)
                b[i] = (co_byte)pattern(done + i);
            auto e = c.write_n(b);
            MC_CHECK(failed(e) == (hard_error != 0), "a write reports something else than the operating system");
            if (!failed(e))
                done += n;
            MC_CHECK(failed(e) || out->size() == done, "%zu bytes are sent of %zu", out->size(), done);
            for (size_t i = 0; i < out->size(); ++i)
                MC_CHECK((*out)[i] == pattern(i), "byte %zu of the stream is changed or moved", i);
            if (failed(e))
                break;
        }
        mc::outcome((int)out->size());
    });
}

// The plain transfers report what was transferred.
MC_SCENARIO(client_plain, {})
{
    in_end = (size_t)mc::choose(5);
    bool in = mc::choose(2);
    with_client([=](client &c) {
        co_buffer b(4);
        if (in)
        {
            auto [n, e] = c.read(b);
            MC_CHECK(failed(e) == (hard_error != 0), "a read reports something else than the operating system");
            if (!failed(e))
            {
                MC_CHECK(n == in_pos, "a read returns %zu for %zu bytes", n, in_pos);
                for (size_t i = 0; i < n; ++i)
                    MC_CHECK(b[i] == (co_byte)pattern(i), "byte %zu of the stream is changed or moved", i);
            }
        }
        else
        {
            for (size_t i = 0; i < 4; ++i)
                b[i] = (co_byte)pattern(i);
            auto [n, e] = c.write(b);
            MC_CHECK(failed(e) == (hard_error != 0), "a write reports something else than the operating system");
            if (!failed(e))
                MC_CHECK(n == out->size() && n > 0, "a write returns %zu for %zu bytes", n, out->size());
        }
        MC_CHECK(!failed(c.close()), "close fails");
        mc::outcome((int)in_pos * 8 + (int)out->size());
    });
}

// Both ends of a real socket, messages of different lengths, in both directions.
MC_SCENARIO(client_kernel, {})
{
    auto e = h::make_envs(1);
    int size = mc::choose(3), early = mc::choose(2), cut = mc::choose(2);
    size_t n = size == 0 ? 7 : size == 1 ? 3000 : 50'000;
    int p[2];
    MC_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "no socketpair");
    int small = 1;
    ::setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
    std::function<void()> left = [=] {
        client c(p[0]);
        co_buffer b(n);
        for (size_t i = 0; i < n; ++i)
            b[i] = (co_byte)pattern(i);
        MC_CHECK(!failed(c.write_n(b)), "a write fails");
        co_buffer back(3);
        MC_CHECK(!failed(c.read_n(back)), "a read fails");
        MC_CHECK(back[0] == (co_byte)'x' && back[2] == (co_byte)'z', "the data received is changed");
        c.close();
    };
    std::function<void()> right = [=] {
        client c(p[1]);
        for (size_t done = 0; done < n;)
        {
            co_buffer b(std::min<size_t>(done % 5 + 1 + done, n - done));
            MC_CHECK(!failed(c.read_n(b)), "a read fails");
            for (size_t i = 0; i < b.size(); ++i)
                MC_CHECK(b[i] == (co_byte)pattern(done + i), "byte %zu of the stream is changed or moved", done + i);
            done += b.size();
        }
        co_buffer b {(co_byte)'x', (co_byte)'y', (co_byte)'z'};
        MC_CHECK(!failed(c.write_n(b)), "a write fails");
        if (cut)
        {
            co_buffer more(1);
            MC_CHECK(failed(c.read_n(more)), "a read succeeds after the peer has closed");
        }
        c.close();
    };
    h::go(e[0], 0, early ? left : right);
    h::go(e[0], 1, early ? right : left);
    mc::settle(60'000);
    h::expect_all(2, "a transfer never ends");
}

namespace
{

size_t part_size;
int pause_every, count_calls;

// Many small parts, with pauses now and then.
long os_parts(const char *name, int, void *a, size_t n, long b, void *)
{
    std::string what = name;
    if (what == "fcntl")
        return b == F_GETFL ? O_RDWR : 0;
    if (what == "close")
        return 0;
    bool in = what == "read" || what == "recv";
    ++count_calls;
    MC_CHECK(count_calls < 5000, "a transfer does not end");
    if (pause_every && count_calls % pause_every == 0)
        return count_calls % 2 ? -EAGAIN : -EINTR;
    size_t count = std::min(part_size, n);
    if (!in)
    {
        out->append((const char *)a, count);
        return (long)count;
    }
    count = std::min(count, in_end - in_pos);
    for (size_t i = 0; i < count; ++i)
        ((char *)a)[i] = pattern(in_pos++);
    return (long)count;
}

}

// Transfers in very many parts.
MC_SCENARIO(client_many_parts, {})
{
    constexpr size_t sizes[] = {33, 257, 1025};
    constexpr size_t parts[] = {1, 3};
    constexpr int pauses[] = {0, 2, 17};
    size_t n = sizes[mc::choose(3)];
    part_size = parts[mc::choose(2)];
    pause_every = pauses[mc::choose(3)];
    bool in = mc::choose(2), short_of = mc::choose(2);
    in_pos = 0;
    in_end = short_of ? n - 1 : n + 5;
    count_calls = 0;
    out = new std::string;
    auto e = h::make_envs(1);
    h::go(e[0], 0, [=] {
        mc::sys.call = os_parts;
        client c(1003);
        co_buffer b(n);
        if (in)
        {
            MC_CHECK(failed(c.read_n(b)) == short_of, "a read in many parts %s", short_of ? "succeeds although the stream ended" : "fails");
            for (size_t i = 0; i < in_pos; ++i)
                MC_CHECK(b[i] == (co_byte)pattern(i), "byte %zu of the stream is changed or moved", i);
            MC_CHECK(in_pos == (short_of ? n - 1 : n), "a read of %zu bytes takes %zu from the stream", n, in_pos);
        }
        else
        {
            for (size_t i = 0; i < n; ++i)
                b[i] = (co_byte)pattern(i);
            MC_CHECK(!failed(c.write_n(b)), "a write in many parts fails");
            MC_CHECK(out->size() == n, "%zu bytes are sent of %zu", out->size(), n);
            for (size_t i = 0; i < n; ++i)
                MC_CHECK((*out)[i] == pattern(i), "byte %zu of the stream is changed or moved", i);
        }
        mc::sys.call = nullptr;
    });
    mc::settle(60'000);
    h::expect_all(1, "a transfer never ends");
}
