// C23: every I/O operation returns what the operating system finally answers, with the arguments passed unchanged.
#include <sys/socket.h> // first: co_net.h names its types without it

#include "common.h"

#include <cocpp/io/co_file.h>
#include <cocpp/io/co_net.h>

#include <fcntl.h>
#include <netinet/in.h>
#include <poll.h>
#include <string>
#include <sys/ioctl.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <unistd.h>

namespace
{

constexpr int FD = 1003;

struct call
{
    std::string name;
    int fd;
    void *a;
    size_t n;
    long b;
    void *c;
    long extra;
    int turn;
    long answer;
};

std::vector<call> *calls;
int *turns; // of the coroutine beside
long (*answer)(const call &);

long os(const char *name, int fd, void *a, size_t n, long b, void *c)
{
    call k {name, fd, a, n, b, c, mc::sys.extra, *turns, 0};
    k.answer = answer(k);
    calls->push_back(k);
    MC_CHECK(calls->size() < 40, "an operation asks the operating system again and again");
    return k.answer;
}

// Runs op in a coroutine beside another one that only counts its turns.
template <typename F>
void run_op(long (*os_answer)(const call &), F op)
{
    auto e = h::make_envs(1);
    calls = new std::vector<call>;
    turns = new int(0);
    answer = os_answer;
    auto *over = new bool(false);
    h::go(e[0], 0, [=] {
        mc::sys.call = os;
        op();
        mc::sys.call = nullptr;
        *over = true;
    });
    h::go(e[0], 1, [=] {
        while (!*over)
        {
            ++*turns;
            this_co::yield();
        }
    });
    mc::settle(60'000);
    h::expect_all(2, "an I/O operation never returns");
}

long fcntl_answer(const call &c)
{
    if (c.b == F_GETFL)
        return O_RDWR | O_APPEND;
    if (c.b == F_SETFL)
        MC_CHECK((long)c.c == (O_RDWR | O_APPEND | O_NONBLOCK), "making a descriptor non-blocking changes its other flags");
    return 0;
}

co_net *net_on(int fd)
{
    auto *n = new co_net;
    MC_CHECK(n->init_fd(fd) == 0, "init_fd fails");
    calls->clear();
    return n;
}

bool transient(long r)
{
    return r == -EAGAIN || r == -EINTR;
}

// Up to two transient answers, then one that counts.
long scripted(const call &c, std::initializer_list<long> final_answers)
{
    int before = 0;
    for (auto &x : *calls)
        before += transient(x.answer);
    int transients = before < 2 ? 2 : 0;
    int k = mc::choose((int)final_answers.size() + transients);
    if (k < (int)final_answers.size())
        return final_answers.begin()[k];
    return k - (int)final_answers.size() ? -EINTR : -EAGAIN;
}

char pattern(int i)
{
    return (char)('a' + i * 7 % 26);
}

constexpr int LEN = 5;
char buffer[LEN + 8];

long transfer_in(const call &c)
{
    if (c.name == "fcntl")
        return fcntl_answer(c);
    long r = scripted(c, {LEN, 2, 0, -ECONNRESET, -EBADF});
    char *p = (char *)c.a;
    if (c.name == "recvmsg")
        p = (char *)((msghdr *)c.a)->msg_iov[0].iov_base;
    for (int i = 0; i < r; ++i)
        p[i] = pattern(i);
    if (c.name == "recvfrom" && r >= 0)
    {
        ((sockaddr_in *)c.c)->sin_port = 4321;
        *(socklen_t *)c.extra = 16;
    }
    return r;
}

long transfer_out(const call &c)
{
    if (c.name == "fcntl")
        return fcntl_answer(c);
    const char *p = (const char *)c.a;
    if (c.name == "sendmsg")
        p = (const char *)((msghdr *)c.a)->msg_iov[0].iov_base;
    for (int i = 0; i < LEN; ++i)
        MC_CHECK(p[i] == pattern(i), "the data to send is changed");
    return scripted(c, {LEN, 2, 0, -EPIPE, -EBADF});
}

// What every operation that may have to wait obeys.
void check_calls(const char *what, long ret, int err)
{
    MC_CHECK(!calls->empty(), "%s does not reach the operating system", what);
    for (size_t i = 0; i < calls->size(); ++i)
    {
        auto &c = (*calls)[i];
        MC_CHECK(c.fd == FD, "%s uses another descriptor", what);
        bool last = i + 1 == calls->size();
        MC_CHECK(last || transient(c.answer), "%s is repeated after it was done", what);
        MC_CHECK(!last || !transient(c.answer), "%s returns a transient condition", what);
        if (!last && c.answer == -EAGAIN)
            MC_CHECK((*calls)[i + 1].turn > c.turn, "no other coroutine runs while %s waits", what);
    }
    long a = calls->back().answer;
    MC_CHECK(ret == (a < 0 ? -1 : a), "%s returns %ld, the operating system answered %ld", what, ret, a);
    MC_CHECK(a >= 0 || err == -a, "%s reports error %d instead of %ld", what, err, -a);
}

void check_args(const char *what, void *a, size_t n, long b, void *c, long extra = -1)
{
    for (auto &k : *calls)
        MC_CHECK(k.a == a && k.n == n && k.b == b && k.c == c && (extra == -1 || k.extra == extra), "the arguments of %s are changed", what);
}

void check_data(long ret)
{
    for (int i = 0; i < LEN + 8; ++i)
        MC_CHECK(buffer[i] == (i < ret ? pattern(i) : 0), "the data received is changed");
}

struct sockaddr_in peer;
socklen_t peer_len;

}

MC_SCENARIO(io_read, {})
{
    run_op(transfer_in, [] {
        auto *n = net_on(FD);
        int r = n->read(buffer, LEN), err = errno;
        check_calls("read", r, err);
        check_args("read", buffer, LEN, 0, nullptr);
        check_data(r);
        mc::outcome(r);
    });
}
MC_SCENARIO(io_recv, {})
{
    run_op(transfer_in, [] {
        auto *n = net_on(FD);
        int r = n->recv(buffer, LEN, MSG_PEEK), err = errno;
        check_calls("recv", r, err);
        check_args("recv", buffer, LEN, MSG_PEEK, nullptr);
        check_data(r);
        mc::outcome(r);
    });
}
MC_SCENARIO(io_recvfrom, {})
{
    run_op(transfer_in, [] {
        auto *n = net_on(FD);
        peer_len = sizeof peer;
        int r = n->recvfrom(buffer, LEN, MSG_TRUNC, (sockaddr *)&peer, &peer_len), err = errno;
        check_calls("recvfrom", r, err);
        check_args("recvfrom", buffer, LEN, MSG_TRUNC, &peer, (long)&peer_len);
        check_data(r);
        MC_CHECK(r < 0 || peer.sin_port == 4321, "the address of the sender is lost");
        mc::outcome(r);
    });
}
MC_SCENARIO(io_recvmsg, {})
{
    run_op(transfer_in, [] {
        auto *n = net_on(FD);
        iovec v {buffer, LEN};
        msghdr m {};
        m.msg_iov = &v;
        m.msg_iovlen = 1;
        int r = n->recvmsg(&m, MSG_PEEK), err = errno;
        check_calls("recvmsg", r, err);
        check_args("recvmsg", &m, 0, MSG_PEEK, nullptr);
        check_data(r);
        mc::outcome(r);
    });
}

static void fill()
{
    for (int i = 0; i < LEN; ++i)
        buffer[i] = pattern(i);
}

MC_SCENARIO(io_write, {})
{
    fill();
    run_op(transfer_out, [] {
        auto *n = net_on(FD);
        int r = n->write(buffer, LEN), err = errno;
        check_calls("write", r, err);
        check_args("write", buffer, LEN, 0, nullptr);
        mc::outcome(r);
    });
}
MC_SCENARIO(io_send, {})
{
    fill();
    run_op(transfer_out, [] {
        auto *n = net_on(FD);
        int r = n->send(buffer, LEN, MSG_NOSIGNAL), err = errno;
        check_calls("send", r, err);
        check_args("send", buffer, LEN, MSG_NOSIGNAL, nullptr);
        mc::outcome(r);
    });
}
MC_SCENARIO(io_sendto, {})
{
    fill();
    run_op(transfer_out, [] {
        auto *n = net_on(FD);
        int r = n->sendto(buffer, LEN, MSG_NOSIGNAL, (sockaddr *)&peer, 13), err = errno;
        check_calls("sendto", r, err);
        check_args("sendto", buffer, LEN, MSG_NOSIGNAL, &peer, 13);
        mc::outcome(r);
    });
}
MC_SCENARIO(io_sendmsg, {})
{
    fill();
    run_op(transfer_out, [] {
        auto *n = net_on(FD);
        iovec v {buffer, LEN};
        msghdr m {};
        m.msg_iov = &v;
        m.msg_iovlen = 1;
        int r = n->sendmsg(&m, MSG_NOSIGNAL), err = errno;
        check_calls("sendmsg", r, err);
        check_args("sendmsg", &m, 0, MSG_NOSIGNAL, nullptr);
        mc::outcome(r);
    });
}

// The new descriptor is non-blocking, its data goes through it.
MC_SCENARIO(io_accept, {})
{
    static auto ans = [](const call &c) -> long {
        if (c.name == "fcntl")
            return fcntl_answer(c);
        if (c.name == "read")
            return 3;
        return scripted(c, {1010, 1023, -EMFILE, -EBADF});
    };
    run_op([](const call &c) { return ans(c); }, [] {
        auto *n = net_on(FD);
        peer_len = sizeof peer;
        auto got = n->accept((sockaddr *)&peer, &peer_len);
        int err = errno;
        long fd = got ? calls->back().fd : -1;
        std::vector<call> rest;
        while (!calls->empty() && calls->back().name == "fcntl")
        {
            rest.push_back(calls->back());
            calls->pop_back();
        }
        check_calls("accept", fd, err);
        check_args("accept", &peer, 0, 0, &peer_len);
        if (got)
        {
            bool nonblock = false;
            for (auto &c : rest)
                nonblock |= c.fd == fd && c.b == F_SETFL && ((long)c.c & O_NONBLOCK);
            MC_CHECK(nonblock, "an accepted descriptor is left blocking");
            calls->clear();
            MC_CHECK(got->read(buffer, 3) == 3 && calls->back().fd == fd, "an accepted descriptor is not used");
        }
        mc::outcome(fd);
    });
}

namespace
{

int con_state;  // 0 not started, 1 in progress, 2 connected, 3 failed
int con_result; // what it ends with
int con_rest;   // questions until it is over
int con_asked;

long connect_os(const call &c)
{
    if (c.name == "fcntl")
        return fcntl_answer(c);
    auto progress = [] {
        if (con_state == 1 && con_rest-- <= 0)
            con_state = con_result ? 3 : 2;
    };
    if (c.name == "connect")
    {
        ++con_asked;
        MC_CHECK(c.fd == FD && c.a == &peer && c.n == 14, "the arguments of connect are changed");
        if (con_state == 0)
        {
            switch (mc::choose(con_asked < 3 ? 5 : 4))
            {
            case 4: // a local socket whose queue is full
                return -EAGAIN;
            case 0: // at once
                con_state = 2;
                return 0;
            case 1: // refused at once
                con_state = 3;
                con_result = ECONNREFUSED;
                return -ECONNREFUSED;
            default:
                con_state = 1;
                con_rest = mc::choose(3);
                con_result = mc::choose(2) ? ETIMEDOUT : 0;
                return mc::choose(2) ? -EINTR : -EINPROGRESS; // interrupted: goes on in the background all the same
            }
        }
        progress();
        if (con_state == 1)
            return -EALREADY;
        if (con_state == 2)
            return -EISCONN;
        con_state = 4;
        return -con_result;
    }
    if (c.name == "select")
    {
        auto *w = (fd_set *)c.a;
        MC_CHECK(w && FD_ISSET(FD, w) && c.n > FD, "the wrong descriptor is watched");
        FD_ZERO(w);
        if (con_rest > 0 && mc::choose(3) == 2)
        {
            --con_rest;
            return -EINTR;
        }
        progress();
        if (con_state == 1)
            return 0;
        FD_SET(FD, w);
        return 1;
    }
    if (c.name == "poll")
    {
        auto *p = (pollfd *)c.a;
        MC_CHECK(p->fd == FD && (p->events & POLLOUT), "the wrong descriptor is watched");
        if (con_rest > 0 && mc::choose(3) == 2)
        {
            --con_rest;
            return -EINTR;
        }
        progress();
        if (con_state == 1)
            return 0;
        p->revents = (short)(POLLOUT | (con_state == 3 ? POLLERR | POLLHUP : 0));
        return 1;
    }
    if (c.name == "getsockopt")
    {
        MC_CHECK(c.n == SOL_SOCKET && c.b == SO_ERROR, "connect asks for something else");
        *(int *)c.a = con_state == 3 ? con_result : 0;
        if (con_state == 3)
            con_state = 4; // asked, and gone
        return 0;
    }
    return -ENOSYS;
}

}

MC_SCENARIO(io_connect, {})
{
    con_state = con_asked = 0;
    run_op(connect_os, [] {
        auto *n = net_on(FD);
        int r = n->connect((sockaddr *)&peer, 14), err = errno;
        MC_CHECK(con_asked > 0, "connect does not reach the operating system");
        MC_CHECK(con_state != 1, "connect returns %d before the connection is decided", r);
        if (con_state == 2)
            MC_CHECK(r == 0, "connect returns %d for an established connection", r);
        else
        {
            MC_CHECK(r == -1, "connect returns %d for a connection that failed", r);
            MC_CHECK(err == con_result, "connect reports error %d instead of %d", err, con_result);
        }
        int waits = 0;
        for (size_t i = 0; i + 1 < calls->size(); ++i)
            if ((((*calls)[i].name == "poll" || (*calls)[i].name == "select") && (*calls)[i].answer == 0) || (*calls)[i].answer == -EAGAIN)
            {
                ++waits;
                MC_CHECK((*calls)[i + 1].turn > (*calls)[i].turn, "no other coroutine runs while connect waits");
            }
        mc::outcome(r * 16 + waits);
    });
}

// Operations that never wait: one call, the same arguments, the same answer.
MC_SCENARIO(io_direct, {})
{
    static long give;
    static int op, how;
    op = mc::choose(15);
    how = mc::choose(2);
    run_op(
        [](const call &c) -> long {
            if (calls->empty() && c.name == "fcntl" && (c.b == F_GETFL || c.b == F_SETFL) && op != 5)
                return fcntl_answer(c);
            return give;
        },
        [] {
            give = 0;
            co_net *n = new co_net;
            give = O_NONBLOCK;
            MC_CHECK(n->init_fd(FD) == 0, "init_fd fails");
            calls->clear();
            give = how ? -EINVAL : op == 6 ? 0x123456789aL : op == 5 || op == 7 ? 7 : 0;
            struct stat st;
            socklen_t l = 4;
            int v = 9;
            long r = 0;
            const char *name = "";
            void *a = nullptr, *c = nullptr;
            size_t cnt = 0;
            long b = 0;
            switch (op)
            {
            case 0: name = "listen"; b = 17; r = n->listen(17); break;
            case 1: name = "bind"; a = &peer; cnt = 15; r = n->bind((sockaddr *)&peer, 15); break;
            case 2: name = "shutdown"; b = SHUT_WR; r = n->shutdown(SHUT_WR); break;
            case 3: name = "getsockopt"; a = &v; cnt = SOL_SOCKET; b = SO_RCVBUF; c = &l; r = n->getsockopt(SOL_SOCKET, SO_RCVBUF, &v, &l); break;
            case 4: name = "setsockopt"; a = &v; cnt = SOL_SOCKET; b = SO_SNDBUF; c = (void *)4; r = n->setsockopt(SOL_SOCKET, SO_SNDBUF, &v, 4); break;
            case 5: name = "fcntl"; b = F_DUPFD; c = (void *)1012; r = n->fcntl(F_DUPFD, 1012L); break;
            case 6: name = "lseek"; cnt = SEEK_END; b = 0x1000000000L; r = n->lseek(0x1000000000L, SEEK_END); break;
            case 7: name = "ioctl"; b = FIONREAD; c = &v; r = n->ioctl(FIONREAD, &v); break;
            case 8: name = "fchmod"; b = 0640; r = n->fchmod(0640); break;
            case 9: name = "fchown"; b = 12; cnt = 34; r = n->fchown(12, 34); break;
            case 10: name = "ftruncate"; b = 0x2000000000L; r = n->ftruncate(0x2000000000L); break;
            case 11: name = "fstat"; a = &st; r = n->fstat(&st); break;
            case 12: name = "fsync"; r = n->fsync(); break;
            case 13: name = "fdatasync"; r = n->fdatasync(); break;
            default: name = "close"; r = n->close(); break;
            }
            int err = errno;
            MC_CHECK(calls->size() == 1 && calls->back().name == name, "%s does not reach the operating system once", name);
            auto k = calls->back();
            MC_CHECK(k.fd == FD, "%s uses another descriptor", name);
            if (op == 5)
                MC_CHECK(k.b == b && (int)(long)k.c == 1012, "the arguments of %s are changed", name);
            else
                check_args(name, a, cnt, b, c);
            MC_CHECK(r == (give < 0 ? -1 : give), "%s returns %ld, the operating system answered %ld", name, r, give);
            MC_CHECK(give >= 0 || err == -give, "%s reports the wrong error", name);
            mc::outcome(op);
        });
}

// What is closed stays closed: the descriptor may belong to somebody else by now.
MC_SCENARIO(io_closed, {})
{
    static int op;
    op = mc::choose(24);
    run_op(
        [](const call &c) -> long {
            return c.name == "fcntl" ? fcntl_answer(c) : 0;
        },
        [] {
            auto *n = new co_net;
            MC_CHECK(n->init_fd(FD) == 0, "init_fd fails");
            MC_CHECK(n->close() == 0, "close fails");
            size_t before = calls->size();
            static char buf[8];
            static sockaddr_in to {};
            socklen_t l = sizeof to;
            int v = 9;
            struct stat st;
            msghdr m {};
            long r = 0;
            switch (op)
            {
            case 0: r = n->close(); break;
            case 1: r = n->read(buf, 8); break;
            case 2: r = n->write(buf, 8); break;
            case 3: r = n->lseek(0, SEEK_SET); break;
            case 4: r = n->fchmod(0600); break;
            case 5: r = n->fchown(0, 0); break;
            case 6: r = n->fcntl(F_GETFL, 0L); break;
            case 7: r = n->ioctl(FIONREAD, &v); break;
            case 8: r = n->ftruncate(0); break;
            case 9: r = n->fstat(&st); break;
            case 10: r = n->fsync(); break;
            case 11: r = n->fdatasync(); break;
            case 12: r = n->listen(1); break;
            case 13: r = n->accept(nullptr, nullptr) ? 0 : -1; break;
            case 14: r = n->bind((sockaddr *)&to, sizeof to); break;
            case 15: r = n->connect((sockaddr *)&to, sizeof to); break;
            case 16: r = n->send(buf, 8, 0); break;
            case 17: r = n->sendto(buf, 8, 0, (sockaddr *)&to, sizeof to); break;
            case 18: r = n->recv(buf, 8, 0); break;
            case 19: r = n->recvfrom(buf, 8, 0, (sockaddr *)&to, &l); break;
            case 20: r = n->getsockopt(SOL_SOCKET, SO_RCVBUF, &v, &l); break;
            case 21: r = n->shutdown(SHUT_RDWR); break;
            case 22: r = n->sendmsg(&m, 0); break;
            default: r = n->recvmsg(&m, 0); break;
            }
            MC_CHECK(calls->size() == before, "operation %d uses a descriptor that has been closed", op);
            MC_CHECK(r == -1, "operation %d succeeds after the descriptor has been closed", op);
            mc::outcome(op);
        });
}

// A socket that can not be made is reported; one that can be is made non-blocking.
MC_SCENARIO(io_socket, {})
{
    run_op(
        [](const call &c) -> long {
            if (c.name == "fcntl")
                return fcntl_answer(c);
            return mc::choose(2) ? -EMFILE : 1009;
        },
        [] {
            auto s = co_net::socket(AF_INET6, SOCK_DGRAM, 17);
            MC_CHECK(!calls->empty() && calls->front().name == "socket", "no socket is asked for");
            auto k = calls->front();
            MC_CHECK(k.b == (((long)AF_INET6 << 32) | SOCK_DGRAM) && (long)k.c == 17, "the arguments of socket are changed");
            MC_CHECK((k.answer < 0) == !s, "socket returns something else than the operating system");
            if (s)
                MC_CHECK(calls->back().name == "fcntl" && calls->back().fd == 1009 && calls->back().b == F_SETFL, "a socket is left blocking");
            mc::outcome((bool)s);
        });
}

// The same operations against the real kernel: the answers the others assume are the ones it gives.
MC_SCENARIO(io_kernel, {})
{
    auto e = h::make_envs(1);
    int first = mc::choose(3), total = 3 + mc::choose(3), size = 1 + mc::choose(3), how = mc::choose(3);
    int p[2];
    MC_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "no socketpair");
    auto *a = new co_net;
    auto *b = new co_net;
    a->init_fd(p[0]);
    b->init_fd(p[1]);
    std::function<void()> reader = [=] {
        int got = 0;
        for (;;)
        {
            char buf[8] {};
            int r = how == 0 ? b->read(buf, (size_t)size) : how == 1 ? b->recv(buf, (size_t)size, 0) : b->recvfrom(buf, (size_t)size, 0, nullptr, nullptr);
            MC_CHECK(r >= 0 && r <= size, "reading fails");
            if (r == 0)
                break;
            for (int i = 0; i < r; ++i)
                MC_CHECK(buf[i] == pattern(got + i), "the data received is changed");
            got += r;
        }
        MC_CHECK(got == total, "%d bytes are received of %d", got, total);
    };
    std::function<void()> writer = [=] {
        for (int i = 0; i < total; ++i)
        {
            char c = pattern(i);
            int r = how == 0 ? a->write(&c, 1) : how == 1 ? a->send(&c, 1, 0) : a->sendto(&c, 1, 0, nullptr, 0);
            MC_CHECK(r == 1, "writing fails");
            if (first == 2)
                this_co::yield();
        }
        a->close();
    };
    h::go(e[0], 0, first == 0 ? writer : reader);
    h::go(e[0], 1, first == 0 ? reader : writer);
    mc::settle(60'000);
    h::expect_all(2, "an I/O operation never returns");
    b->close();
}

// Nobody at the other end any more: an error is reported, the process lives on.
MC_SCENARIO(io_kernel_broken, {})
{
    auto e = h::make_envs(1);
    int how = mc::choose(5), again = 1 + mc::choose(2);
    int p[2];
    MC_CHECK((how == 4 ? ::pipe(p) : ::socketpair(AF_UNIX, SOCK_STREAM, 0, p)) == 0, "no socketpair");
    auto *a = new co_net;
    a->init_fd(p[1]);
    ::close(p[0]);
    h::go(e[0], 0, [=] {
        for (int i = 0; i < again; ++i)
        {
            char c = pattern(i);
            struct iovec v {&c, 1};
            struct msghdr m {};
            m.msg_iov = &v;
            m.msg_iovlen = 1;
            errno = 0;
            int r = how == 0 || how == 4 ? a->write(&c, 1) : how == 1 ? a->send(&c, 1, 0) : how == 2 ? a->sendto(&c, 1, 0, nullptr, 0) : a->sendmsg(&m, 0);
            int error = errno;
            MC_CHECK(r == -1 && error == EPIPE, "writing to nobody returns %d, error %d", r, error);
        }
    });
    mc::settle(60'000);
    h::expect_all(1, "an I/O operation never returns");
    a->close();
}

// A full buffer of the kernel.
MC_SCENARIO(io_kernel_full, {})
{
    auto e = h::make_envs(1);
    int how = mc::choose(4);
    int p[2];
    MC_CHECK(::socketpair(AF_UNIX, SOCK_STREAM, 0, p) == 0, "no socketpair");
    int small = 1;
    ::setsockopt(p[0], SOL_SOCKET, SO_SNDBUF, &small, sizeof small);
    constexpr int total = 60'000;
    h::go(e[0], 0, [=] {
        co_net a;
        a.init_fd(p[0]);
        std::vector<char> data(total);
        for (int i = 0; i < total; ++i)
            data[i] = pattern(i);
        int sent = 0;
        while (sent < total)
        {
            size_t left = (size_t)(total - sent);
            iovec v {data.data() + sent, left};
            msghdr m {};
            m.msg_iov = &v;
            m.msg_iovlen = 1;
            int r = how == 0 ? a.write(data.data() + sent, left) : how == 1 ? a.send(data.data() + sent, left, 0) : how == 2 ? a.sendto(data.data() + sent, left, 0, nullptr, 0) : a.sendmsg(&m, 0);
            MC_CHECK(r > 0, "writing fails with error %d", errno);
            sent += r;
        }
        a.close();
    });
    h::go(e[0], 1, [=] {
        co_net b;
        b.init_fd(p[1]);
        int got = 0;
        char buf[700];
        for (;;)
        {
            int r = b.read(buf, sizeof buf);
            MC_CHECK(r >= 0, "reading fails");
            if (r == 0)
                break;
            for (int i = 0; i < r; ++i)
                MC_CHECK(buf[i] == pattern(got + i), "the data received is changed");
            got += r;
            this_co::yield();
        }
        MC_CHECK(got == total, "%d bytes are received of %d", got, total);
        b.close();
    });
    mc::settle(60'000);
    h::expect_all(2, "an I/O operation never returns");
}

// Connecting to a listening and to a closed local socket of the kernel.
MC_SCENARIO(io_kernel_connect, {})
{
    auto e = h::make_envs(1);
    bool closed = mc::choose(2), early = mc::choose(2), inet = mc::choose(2);
    auto *srv = new co_net;
    sockaddr_storage ss {};
    socklen_t len = 0;
    int fd = ::socket(inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
    MC_CHECK(fd >= 0, "no socket");
    if (inet)
    {
        auto *in = (sockaddr_in *)&ss;
        in->sin_family = AF_INET;
        in->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
        len = sizeof *in;
    }
    else
    {
        auto *un = (sockaddr_un *)&ss;
        un->sun_family = AF_UNIX; // bound to an abstract name the kernel chooses
        len = sizeof(sa_family_t);
    }
    MC_CHECK(::bind(fd, (sockaddr *)&ss, len) == 0, "bind fails");
    len = sizeof ss;
    MC_CHECK(::getsockname(fd, (sockaddr *)&ss, &len) == 0, "getsockname fails");
    srv->init_fd(fd);
    if (closed)
        srv->close();
    else
        srv->listen(4);
    auto client = [=] {
        auto c = co_net::socket(inet ? AF_INET : AF_UNIX, SOCK_STREAM, 0);
        MC_CHECK(c.has_value(), "no socket");
        int r = c->connect((const sockaddr *)&ss, len);
        int err = errno;
        if (closed)
            MC_CHECK(r == -1 && err == ECONNREFUSED, "connect returns %d, error %d, where nobody listens", r, err);
        else
        {
            MC_CHECK(r == 0, "connect returns %d with error %d where somebody listens", r, err);
            MC_CHECK(c->write("x", 1) == 1, "writing fails");
        }
        c->close();
    };
    auto server = [=] {
        if (closed)
            return;
        auto c = srv->accept(nullptr, nullptr);
        MC_CHECK(c.has_value(), "accept fails");
        char x = 0;
        MC_CHECK(c->read(&x, 1) == 1 && x == 'x', "reading fails");
        c->close();
        srv->close();
    };
    h::go(e[0], 0, early ? std::function<void()>(client) : server);
    h::go(e[0], 1, early ? std::function<void()>(server) : client);
    mc::settle(60'000);
    h::expect_all(2, "an I/O operation never returns");
}

// A file in a directory of its own.
MC_SCENARIO(io_file, {})
{
    auto e = h::make_envs(1);
    h::go(e[0], 0, [] {
        char dir[] = "/tmp/verif_io_XXXXXX";
        MC_CHECK(mkdtemp(dir), "no directory");
        std::string path = std::string(dir) + "/f";
        MC_CHECK(!co_file::open(path.c_str(), O_RDWR, 0), "opening a file that does not exist succeeds");
        auto f = co_file::open(path.c_str(), O_RDWR | O_CREAT | O_EXCL, 0600);
        bool ok = f.has_value();
        if (ok)
        {
            struct stat st {};
            char buf[8] {};
            ok = f->write("hello", 5) == 5 && f->lseek(1, SEEK_SET) == 1 && f->read(buf, 8) == 4 && !strcmp(buf, "ello");
            ok = ok && f->lseek(0x180000000L, SEEK_SET) == 0x180000000L;
            ok = ok && f->ftruncate(3) == 0 && f->fstat(&st) == 0 && st.st_size == 3 && (st.st_mode & 0777) == 0600;
            ok = ok && f->fchmod(0640) == 0 && f->fstat(&st) == 0 && (st.st_mode & 0777) == 0640;
            ok = ok && f->fsync() == 0 && f->fdatasync() == 0 && f->fcntl(F_GETFD, 0L) == 0;
            ok = ok && f->close() == 0;
        }
        bool second = !co_file::open(path.c_str(), O_RDWR | O_CREAT | O_EXCL, 0600);
        unlink(path.c_str());
        rmdir(dir);
        MC_CHECK(ok, "a file does not behave like one");
        MC_CHECK(second, "the flags of open are changed");
    });
    mc::settle(60'000);
    h::expect_all(1, "an I/O operation never returns");
}

// The answer comes after very many transient ones.
MC_SCENARIO(io_many, {.max_points = 60'000'000})
{
    static int left;
    left = h::many();
    static int kind;
    kind = mc::choose(3); // not now, interrupted, both
    auto e = h::make_envs(1);
    auto *asked = new int(0);
    static int *count;
    count = asked;
    bool out = mc::choose(2);
    int n = left;
    h::go(e[0], 0, [=] {
        mc::sys.call = [](const char *name, int, void *, size_t, long b, void *) -> long {
            if (std::string(name) == "fcntl")
                return b == F_GETFL ? O_RDWR : 0;
            ++*count;
            if (left-- > 0)
                return kind == 0 || (kind == 2 && left % 2) ? -EAGAIN : -EINTR;
            return 4;
        };
        co_net x;
        MC_CHECK(x.init_fd(FD) == 0, "init_fd fails");
        int r = out ? x.write(buffer, LEN) : x.read(buffer, LEN);
        mc::sys.call = nullptr;
        MC_CHECK(r == 4, "an operation returns %d, the operating system answered 4", r);
        MC_CHECK(*count == n + 1, "an operation asks %d times instead of %d", *count, n + 1);
    });
    mc::settle(3'600'000);
    h::expect_all(1, "an I/O operation never returns");
}
