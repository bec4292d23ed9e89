#include "sim.h"
#include <openssl/err.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/select.h>
#include <sys/random.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <time.h>
#include <openssl/rand.h>
#include <openssl/evp.h>
Sim sim;
static const int FD0 = 700, FDN = 1020;

// deterministic randomness for the library and for OpenSSL, so that a replay is exact
static void det_bytes(unsigned char *b, size_t n)
{
    while (n) {
        uint64_t x = sim.rnd_seed + 0x9E3779B97F4A7C15ull * ++sim.rnd_ctr;
        x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27; x *= 0x94D049BB133111EBull; x ^= x >> 31;
        size_t k = std::min<size_t>(8, n);
        memcpy(b, &x, k);
        b += k; n -= k;
    }
}
static int r_bytes(unsigned char *b, int n) { det_bytes(b, n); return 1; }
static int r_status() { return 1; }
static int r_seed(const void *, int) { return 1; }
static int r_add(const void *, int, double) { return 1; }
static RAND_METHOD rmeth = {r_seed, r_bytes, nullptr, r_add, r_bytes, r_status};

void Sim::begin()
{
    static bool once = false;
    if (!once) { RAND_set_rand_method(&rmeth); once = true; }
    end();
    active = true;
    now = SIM_EPOCH;
    rnd_ctr = 0;
    on_wait = nullptr; ops = 0; op_limit = 2000000; polls = 0; sigpipe = false;
    wmode = rmode = 0;
    p_eagain = 200; p_partial = 400; p_eintr = 40;
    plan = [](const Str &, int) { return ConnectPlan(); };
    accept = nullptr; sock_err = nullptr; side_accept = nullptr; side_plan = ConnectPlan();
    resolve = [](const Str &, std::vector<Addr> &v) { v.push_back({false, "10.0.0.1"}); return true; };
    srv = [](const Str &, unsigned char *, int) { return -1; };
    wpolicy = nullptr;
}
void Sim::end()
{
    active = false; in_loop = false;
    socks.clear(); connects.clear(); dns_queries.clear(); gai_queries.clear();
    accept = nullptr; side_accept = nullptr; sock_err = nullptr; plan = nullptr; resolve = nullptr; srv = nullptr; wpolicy = nullptr;
}
unsigned Sim::open_socks() const
{
    unsigned n = 0;
    for (auto &s : socks) if (s->st != Sock::CLOSED) n++;
    return n;
}
Sock *Sim::get(int fd)
{
    if (fd < FD0) return nullptr;
    for (auto it = socks.rbegin(); it != socks.rend(); ++it) if ((*it)->fd == fd) return (*it)->st == Sock::CLOSED ? nullptr : it->get();
    return nullptr;
}
void Sim::op()
{
    if (++ops > op_limit) { fail("spin", "more than %llu socket operations inside one event-loop iteration", (unsigned long long)op_limit); throw CaseAbort(); }
    if (in_loop && now - loop_start > loop_limit) { fail("wedge", "one event-loop iteration has waited for %llu ms", (unsigned long long)(now - loop_start)); throw CaseAbort(); }
}
// The peers run in the thread of the client: OpenSSL's error queue of the client must survive them.
struct ErrKeep {
    std::vector<unsigned long> v;
    ErrKeep() { while (unsigned long e = ERR_get_error()) v.push_back(e); }
    ~ErrKeep() { ERR_clear_error(); for (auto e : v) { ERR_new(); ERR_set_error(ERR_GET_LIB(e), ERR_GET_REASON(e), nullptr); } }
};
void Sim::pump()
{
    ErrKeep ek;
    for (int round = 0; round < 1000; round++) {
        bool did = false;
        for (size_t i = 0; i < socks.size(); i++) {
            Sock *s = socks[i].get();
            if (s->st == Sock::CONNECTING && s->done_at <= now) {
                s->st = s->err ? Sock::FAILED : Sock::UP;
                did = true;
                trace("  [%llu] tcp %s:%d %s", (unsigned long long)(now - SIM_EPOCH), s->addr.c_str(), s->port, s->err ? "failed" : "established");
                if (s->side) { if (!s->err && side_accept) side_accept(s); }
                else if (!s->err && accept) accept(s);
            }
            if (s->peer && s->st != Sock::CLOSED && s->peer->next_timer() <= now) { s->peer->on_timer(); did = true; }
        }
        if (!did) return;
    }
}
uint64_t Sim::next_event(bool all)
{
    uint64_t t = UINT64_MAX;
    for (auto &s : socks) {
        if (s->st == Sock::CLOSED || (s->side && !all)) continue;
        if (s->st == Sock::CONNECTING && s->done_at > now) t = std::min(t, s->done_at);
        for (auto &g : s->rx) if (g.at > now) { t = std::min(t, g.at); break; }
        if (s->tx_blocked > now) t = std::min(t, s->tx_blocked);
        if (s->peer && s->peer->next_timer() > now) t = std::min(t, s->peer->next_timer());
    }
    return t;
}
void Sim::advance(uint64_t to)
{
    while (now < to) {
        uint64_t t = next_event(true);
        now = std::min(t, to);
        pump();
    }
}
void Sim::push(Sock *s, const Str &d, uint64_t delay)
{
    if (d.empty() || !s || s->st == Sock::CLOSED) return;
    uint64_t at = now + delay;
    if (!s->rx.empty()) { if (s->rx.back().kind) return; at = std::max(at, s->rx.back().at); }
    s->rx.push_back({at, 0, d});
    s->rx_total += d.size();
}
void Sim::fin(Sock *s, uint64_t delay)
{
    if (!s || s->st == Sock::CLOSED) return;
    uint64_t at = now + delay;
    if (!s->rx.empty()) { if (s->rx.back().kind) return; at = std::max(at, s->rx.back().at); }
    s->rx.push_back({at, 1, ""});
}
void Sim::rst(Sock *s, uint64_t delay)
{
    if (!s || s->st == Sock::CLOSED) return;
    uint64_t at = now + delay;
    if (!s->rx.empty()) { if (s->rx.back().kind) return; at = std::max(at, s->rx.back().at); }
    s->rx.push_back({at, 2, ""});
}
static bool readable(Sock *s)
{
    if (s->st == Sock::FAILED) return true;
    return s->st == Sock::UP && !s->rx.empty() && s->rx.front().at <= sim.now;
}
static bool writable(Sock *s)
{
    if (s->st == Sock::FAILED) return true;
    return s->st == Sock::UP && s->tx_blocked <= sim.now;
}
static bool reset_seen(Sock *s) { return !s->rx.empty() && s->rx.front().kind == 2 && s->rx.front().at <= sim.now; }

static ssize_t do_read(Sock *s, void *b, size_t n)
{
    sim.op();
    if (s->st == Sock::FAILED) { errno = s->err; return -1; }
    if (s->st != Sock::UP) { errno = ENOTCONN; return -1; }
    if (!readable(s)) { errno = EAGAIN; return -1; }
    if (n == 0) return 0;
    if (s->rx.front().kind == 1) return 0;
    if (s->rx.front().kind == 2) { errno = ECONNRESET; return -1; }
    size_t avail = 0;
    for (auto &g : s->rx) { if (g.kind || g.at > sim.now) break; avail += g.data.size() - g.off; }
    size_t k = std::min(n, avail);
    if (s->side) ;
    else if (sim.rmode == 2) k = std::min<size_t>(k, 1);
    else if (sim.rmode == 1 && k > 1) {
        switch (draw(4)) {
        case 0: break;
        case 1: k = 1 + draw(std::min<size_t>(k, 4)); break;
        case 2: k = 1 + draw(std::min<size_t>(k, 64)); break;
        default: k = 1 + draw((uint32_t)k); break;
        }
        k = std::min({k, n, avail});
    }
    size_t got = 0;
    sim.polls = 0;
    while (got < k) {
        Seg &g = s->rx.front();
        size_t t = std::min(k - got, g.data.size() - g.off);
        memcpy((char *)b + got, g.data.data() + g.off, t);
        got += t; g.off += t;
        if (g.off == g.data.size()) s->rx.pop_front();
    }
    return (ssize_t)got;
}
static ssize_t do_write1(Sock *s, const void *b, size_t n);
// A write without MSG_NOSIGNAL that finds the connection gone kills the process: when it reports EPIPE, and when the
// peer has closed and an earlier write has already drawn its reset.
static ssize_t do_write(Sock *s, const void *b, size_t n, int flags)
{
    bool gone = false;
    for (auto &g : s->rx)
        if (g.kind != 0 && g.at <= sim.now) gone = true;
    ssize_t r = do_write1(s, b, n);
    int e = errno;
    if (r < 0 && e == EPIPE && !(flags & MSG_NOSIGNAL)) sim.sigpipe = true;
    if (gone && r > 0 && s->gone_writes++ && !(flags & MSG_NOSIGNAL)) sim.sigpipe = true;
    errno = e;
    return r;
}
static ssize_t do_write1(Sock *s, const void *b, size_t n)
{
    sim.op();
    if (s->st != Sock::UP) { errno = s->st == Sock::FAILED ? EPIPE : ENOTCONN; return -1; }
    if (s->tx_dead) { errno = s->tx_err ? s->tx_err : EPIPE; return -1; }
    if (reset_seen(s)) { errno = ECONNRESET; return -1; }
    if (n == 0) return 0;
    if (s->tx_blocked > sim.now) { errno = EAGAIN; return -1; }
    size_t k = n;
    if (s->side) ;
    else if (sim.wpolicy) {
        long r = sim.wpolicy(s, n);
        if (r == -1) { errno = EAGAIN; return -1; }
        if (r == -2) { errno = EINTR; return -1; }
        if (r < -2) { s->tx_dead = true; s->tx_err = (int)(-r - 1000); errno = s->tx_err; return -1; }
        k = std::min<size_t>(n, (size_t)r);
        if (k == 0) { errno = EAGAIN; return -1; }
    } else if (sim.wmode == 1) {
        uint32_t d = draw(1000);
        if (d >= 1000 - sim.p_eagain) { s->tx_blocked = sim.now + 1 + draw(50); errno = EAGAIN; return -1; }
        if (d >= 1000 - sim.p_eagain - sim.p_eintr) { errno = EINTR; return -1; }
        if (d >= 1000 - sim.p_eagain - sim.p_eintr - sim.p_partial) {
            k = draw(3) == 0 ? 1 + draw((uint32_t)std::min<size_t>(n, 3)) : 1 + draw((uint32_t)n);
            k = std::min(k, n);
        }
    }
    Str copy((const char *)b, k); // reads the caller's buffer under ASan
    s->tx_total += k;
    sim.polls = 0;
    if (s->peer) { ErrKeep ek; s->peer->on_data(s, copy.data(), copy.size()); }
    return (ssize_t)k;
}
static int fdset_wait(int nfds, fd_set *r, fd_set *w, int64_t timeout_ms)
{
    sim.op();
    if (sim.in_loop && sim.on_wait) sim.on_wait();
    // a loop that polls without making progress still takes time
    if (++sim.polls > 40) { sim.now++; sim.pump(); }
    uint64_t deadline = timeout_ms < 0 ? UINT64_MAX : sim.now + (uint64_t)timeout_ms;
    for (;;) {
        sim.op();
        sim.pump();
        int n = 0;
        fd_set ro, wo;
        FD_ZERO(&ro); FD_ZERO(&wo);
        for (int fd = FD0; fd < nfds && fd < FDN; fd++) {
            bool wr = r && FD_ISSET(fd, r), ww = w && FD_ISSET(fd, w);
            if (!wr && !ww) continue;
            Sock *s = sim.get(fd);
            if (!s) { errno = EBADF; return -1; }
            if (wr && readable(s)) { FD_SET(fd, &ro); n++; }
            if (ww && writable(s)) { FD_SET(fd, &wo); n++; }
        }
        if (n) { if (r) *r = ro; if (w) *w = wo; return n; }
        uint64_t t = sim.next_event(true);
        if (t >= deadline) {
            if (deadline == UINT64_MAX) { fail("wedge", "select without timeout and nothing will ever happen"); throw CaseAbort(); }
            if (deadline > sim.now) sim.polls = 0;
            sim.now = deadline;
            sim.pump();
            if (t == deadline && timeout_ms > 0) { timeout_ms = 0; continue; }
            if (r) FD_ZERO(r);
            if (w) FD_ZERO(w);
            return 0;
        }
        if (t > sim.now) sim.polls = 0;
        sim.now = t;
    }
}

extern "C" {
int socket(int domain, int type, int proto)
{
    if (!sim.active) return (int)syscall(SYS_socket, domain, type, proto);
    sim.op();
    if (sim.sock_err) if (int e = sim.sock_err(domain)) { errno = e; return -1; }
    for (int fd = FD0; fd < FDN; fd++) {
        if (sim.get(fd)) continue;
        std::unique_ptr<Sock> s(new Sock);
        s->fd = fd; s->family = domain;
        sim.socks.push_back(std::move(s));
        return fd;
    }
    errno = EMFILE;
    return -1;
}
int connect(int fd, const struct sockaddr *sa, socklen_t len)
{
    if (!sim.active) return (int)syscall(SYS_connect, fd, sa, len);
    sim.op();
    Sock *s = sim.get(fd);
    if (!s) { errno = EBADF; return -1; }
    char b[64] = "";
    if (sa->sa_family == AF_INET) { auto *i = (struct sockaddr_in *)sa; inet_ntop(AF_INET, &i->sin_addr, b, sizeof b); s->port = ntohs(i->sin_port); }
    else if (sa->sa_family == AF_INET6) { auto *i = (struct sockaddr_in6 *)sa; inet_ntop(AF_INET6, &i->sin6_addr, b, sizeof b); s->port = ntohs(i->sin6_port); }
    s->addr = b;
    s->side = s->port == SIDE_PORT && s->addr == SIDE_ADDR;
    ConnectPlan p = s->side ? sim.side_plan : sim.plan(s->addr, s->port);
    if (!s->side) sim.connects.push_back({sim.now, s->addr, s->port, fd, p.mode});
    trace("  [%llu] connect(%s:%d) plan %d delay %llu", (unsigned long long)(sim.now - SIM_EPOCH), b, s->port, p.mode, (unsigned long long)p.delay);
    if (p.mode == 1) { s->st = Sock::FAILED; s->err = p.err; errno = p.err; return -1; }
    s->st = Sock::CONNECTING;
    s->err = p.mode == 2 ? p.err : 0;
    s->done_at = p.mode == 3 ? UINT64_MAX : sim.now + p.delay;
    if (p.mode == 4) { s->done_at = sim.now; sim.pump(); return 0; }
    errno = EINPROGRESS;
    return -1;
}
ssize_t read(int fd, void *b, size_t n)
{
    Sock *s;
    if (!sim.active || fd < FD0 || fd >= FDN) return syscall(SYS_read, fd, b, n);
    if (!(s = sim.get(fd))) { errno = EBADF; return -1; }
    return do_read(s, b, n);
}
ssize_t write(int fd, const void *b, size_t n)
{
    Sock *s;
    if (!sim.active || fd < FD0 || fd >= FDN) return syscall(SYS_write, fd, b, n);
    if (!(s = sim.get(fd))) { errno = EBADF; return -1; }
    return do_write(s, b, n, 0);
}
ssize_t recv(int fd, void *b, size_t n, int flags)
{
    Sock *s;
    if (!sim.active || fd < FD0 || fd >= FDN) return syscall(SYS_recvfrom, fd, b, n, flags, nullptr, nullptr);
    if (!(s = sim.get(fd))) { errno = EBADF; return -1; }
    return do_read(s, b, n);
}
ssize_t send(int fd, const void *b, size_t n, int flags)
{
    Sock *s;
    if (!sim.active || fd < FD0 || fd >= FDN) return syscall(SYS_sendto, fd, b, n, flags, nullptr, 0);
    if (!(s = sim.get(fd))) { errno = EBADF; return -1; }
    return do_write(s, b, n, flags);
}
int close(int fd)
{
    Sock *s;
    if (!sim.active || fd < FD0 || fd >= FDN) return (int)syscall(SYS_close, fd);
    if (!(s = sim.get(fd))) { errno = EBADF; return -1; }
    s->st = Sock::CLOSED;
    if (s->peer) { ErrKeep ek; Peer *p = s->peer; s->peer = nullptr; p->on_client_close(s); }
    return 0;
}
int shutdown(int fd, int how)
{
    if (!sim.active || fd < FD0 || fd >= FDN) return (int)syscall(SYS_shutdown, fd, how);
    return 0;
}
int fcntl(int fd, int cmd, ...)
{
    va_list ap; va_start(ap, cmd);
    long arg = va_arg(ap, long);
    va_end(ap);
    if (!sim.active || fd < FD0 || fd >= FDN) return (int)syscall(SYS_fcntl, fd, cmd, arg);
    Sock *s = sim.get(fd);
    if (!s) { errno = EBADF; return -1; }
    if (cmd == F_GETFL) return s->nonblock ? O_NONBLOCK | O_RDWR : O_RDWR;
    if (cmd == F_SETFL) { s->nonblock = (arg & O_NONBLOCK) != 0; return 0; }
    return 0;
}
int getpeername(int fd, struct sockaddr *sa, socklen_t *len)
{
    if (!sim.active || fd < FD0 || fd >= FDN) return (int)syscall(SYS_getpeername, fd, sa, len);
    Sock *s = sim.get(fd);
    if (!s) { errno = EBADF; return -1; }
    sim.pump();
    if (s->st != Sock::UP) { errno = ENOTCONN; return -1; }
    struct sockaddr_in in;
    memset(&in, 0, sizeof in);
    in.sin_family = AF_INET;
    memcpy(sa, &in, std::min<size_t>(*len, sizeof in));
    *len = sizeof in;
    return 0;
}
int getsockopt(int fd, int level, int name, void *val, socklen_t *len)
{
    if (!sim.active || fd < FD0 || fd >= FDN) return (int)syscall(SYS_getsockopt, fd, level, name, val, len);
    Sock *s = sim.get(fd);
    if (!s) { errno = EBADF; return -1; }
    sim.pump();
    if (level == SOL_SOCKET && name == SO_ERROR && *len >= sizeof(int)) {
        *(int *)val = s->st == Sock::FAILED ? s->err : 0;
        *len = sizeof(int);
        return 0;
    }
    if (*len >= sizeof(int)) { *(int *)val = name == SO_TYPE ? SOCK_STREAM : 0; *len = sizeof(int); }
    return 0;
}
int setsockopt(int fd, int level, int name, const void *val, socklen_t len)
{
    if (!sim.active || fd < FD0 || fd >= FDN) return (int)syscall(SYS_setsockopt, fd, level, name, val, len);
    return 0;
}
int select(int nfds, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    if (!sim.active) return (int)syscall(SYS_select, nfds, r, w, e, tv);
    if (e) FD_ZERO(e);
    return fdset_wait(nfds, r, w, tv ? (int64_t)tv->tv_sec * 1000 + tv->tv_usec / 1000 : -1);
}
int poll(struct pollfd *p, nfds_t n, int timeout)
{
    if (!sim.active) return (int)syscall(SYS_poll, p, n, timeout);
    fd_set r, w;
    FD_ZERO(&r); FD_ZERO(&w);
    int mx = 0;
    for (nfds_t i = 0; i < n; i++) {
        p[i].revents = 0;
        if (p[i].fd < FD0 || p[i].fd >= FDN) continue;
        if (p[i].events & POLLIN) FD_SET(p[i].fd, &r);
        if (p[i].events & POLLOUT) FD_SET(p[i].fd, &w);
        mx = std::max(mx, p[i].fd + 1);
    }
    int ret = fdset_wait(mx, &r, &w, timeout);
    if (ret <= 0) return ret;
    int k = 0;
    for (nfds_t i = 0; i < n; i++) {
        if (p[i].fd < FD0 || p[i].fd >= FDN) continue;
        if (FD_ISSET(p[i].fd, &r)) p[i].revents |= POLLIN;
        if (FD_ISSET(p[i].fd, &w)) p[i].revents |= POLLOUT;
        if (p[i].revents) k++;
    }
    return k;
}
int usleep(useconds_t us)
{
    if (!sim.active) { struct timespec ts = {us / 1000000, (long)(us % 1000000) * 1000}; return (int)syscall(SYS_nanosleep, &ts, nullptr); }
    sim.op();
    if (sim.in_loop && sim.on_wait) sim.on_wait();
    sim.advance(sim.now + (us + 999) / 1000);
    return 0;
}
int nanosleep(const struct timespec *ts, struct timespec *rem)
{
    if (!sim.active) return (int)syscall(SYS_nanosleep, ts, rem);
    sim.op();
    if (sim.in_loop && sim.on_wait) sim.on_wait();
    sim.advance(sim.now + ts->tv_sec * 1000 + (ts->tv_nsec + 999999) / 1000000);
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) noexcept
{
    if (!sim.active) return (int)syscall(SYS_gettimeofday, tv, tz);
    tv->tv_sec = sim.now / 1000;
    tv->tv_usec = (sim.now % 1000) * 1000;
    return 0;
}
int clock_gettime(clockid_t id, struct timespec *ts) noexcept
{
    if (!sim.active) return (int)syscall(SYS_clock_gettime, id, ts);
    ts->tv_sec = sim.now / 1000;
    ts->tv_nsec = (sim.now % 1000) * 1000000;
    return 0;
}
time_t time(time_t *t) noexcept
{
    time_t v;
    if (sim.active) v = sim.now / 1000;
    else { struct timespec ts; syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) *t = v;
    return v;
}
ssize_t getrandom(void *b, size_t n, unsigned fl)
{
    if (!sim.active) return syscall(SYS_getrandom, b, n, fl);
    det_bytes((unsigned char *)b, n);
    return (ssize_t)n;
}
int res_query(const char *dname, int cls, int type, unsigned char *answer, int anslen)
{
    if (!sim.active) return -1;
    sim.dns_queries.push_back(dname);
    return sim.srv(dname, answer, anslen);
}
int getaddrinfo(const char *host, const char *service, const struct addrinfo *hints, struct addrinfo **res)
{
    if (!sim.active) return EAI_FAIL;
    sim.op();
    bool side = host && !strcmp(host, SIDE_HOST);
    if (!side) sim.gai_queries.push_back(Str(host ? host : "") + ":" + (service ? service : ""));
    std::vector<Addr> v;
    if (side) v.push_back({false, SIDE_ADDR});
    else if (!sim.resolve(host ? host : "", v) || v.empty()) return EAI_NONAME; // *res is left alone, as the C library does
    *res = nullptr;
    struct addrinfo **tail = res;
    for (auto &a : v) {
        struct addrinfo *ai = (struct addrinfo *)calloc(1, sizeof *ai);
        ai->ai_family = a.v6 ? AF_INET6 : AF_INET;
        ai->ai_socktype = SOCK_STREAM;
        ai->ai_protocol = IPPROTO_TCP;
        if (a.v6) {
            auto *s = (struct sockaddr_in6 *)calloc(1, sizeof(struct sockaddr_in6));
            s->sin6_family = AF_INET6; s->sin6_port = htons(atoi(service ? service : "0"));
            inet_pton(AF_INET6, a.ip.c_str(), &s->sin6_addr);
            ai->ai_addr = (struct sockaddr *)s; ai->ai_addrlen = sizeof *s;
        } else {
            auto *s = (struct sockaddr_in *)calloc(1, sizeof(struct sockaddr_in));
            s->sin_family = AF_INET; s->sin_port = htons(atoi(service ? service : "0"));
            inet_pton(AF_INET, a.ip.c_str(), &s->sin_addr);
            ai->ai_addr = (struct sockaddr *)s; ai->ai_addrlen = sizeof *s;
        }
        *tail = ai; tail = &ai->ai_next;
    }
    return 0;
}
void freeaddrinfo(struct addrinfo *ai) noexcept
{
    while (ai) { struct addrinfo *n = ai->ai_next; free(ai->ai_addr); free(ai); ai = n; }
}
}
