// Simulated network, name service and clock behind the libc calls the library makes.
#pragma once
#include "vh.h"
#include <netdb.h>
#include <sys/socket.h>
struct Sock;
struct Peer {
    virtual ~Peer() {}
    virtual void on_data(Sock *, const char *, size_t) = 0;   // client wrote bytes
    virtual void on_client_close(Sock *) {}
    virtual uint64_t next_timer() { return UINT64_MAX; }      // absolute ms
    virtual void on_timer() {}
};
struct Seg { uint64_t at; int kind; Str data; size_t off = 0; }; // kind 0 data, 1 FIN, 2 RST
struct Sock {
    int fd = -1, family = 0;
    enum { NEW, CONNECTING, UP, FAILED, CLOSED } st = NEW;
    bool nonblock = false;
    uint64_t done_at = 0;
    int err = 0;               // result of the connection attempt when done_at passes
    Str addr; int port = 0;
    std::deque<Seg> rx;
    uint64_t tx_blocked = 0;   // writes refused until
    bool tx_dead = false;
    int tx_err = 0;
    Peer *peer = nullptr;
    bool side = false;         // belongs to the companion connection (Pal)
    uint64_t rx_total = 0, tx_total = 0, gone_writes = 0;
    Str last_refused;          // bytes offered in the last refused write (moving-buffer check)
};
struct Addr { bool v6 = false; Str ip; };
struct ConnectPlan { int mode = 0; int err = 111; uint64_t delay = 0; }; // mode 0 accept, 1 refuse at once, 2 fail later, 3 hang, 4 connect() returns 0
struct ConnectRec { uint64_t t; Str addr; int port; int fd; int mode; };
struct Sim {
    bool active = false;
    uint64_t now = 0;
    std::vector<std::unique_ptr<Sock>> socks;
    std::vector<ConnectRec> connects;
    std::vector<Str> dns_queries, gai_queries;
    // policies, set by the test
    std::function<ConnectPlan(const Str &, int)> plan;
    std::function<int(int)> sock_err;                                // errno with which socket(family) fails, 0: it works
    std::function<void(Sock *)> accept;
    std::function<bool(const Str &, std::vector<Addr> &)> resolve;   // false: failure
    std::function<int(const Str &, unsigned char *, int)> srv;       // like res_query
    ConnectPlan side_plan;                                           // for the companion connection
    std::function<void(Sock *)> side_accept;
    int wmode = 0;             // 0 everything accepted; 1 tape-driven; 2 scripted by wpolicy
    int rmode = 0;             // 0 as much as fits; 1 tape-driven; 2 byte by byte
    unsigned p_eagain = 200, p_partial = 400, p_eintr = 40; // permille, wmode 1
    std::function<long(Sock *, size_t)> wpolicy; // >=0 accept that many, -1 EAGAIN, -2 EINTR, other negative: -errno-1000
    uint64_t ops = 0, op_limit = 2000000, loop_start = 0, polls = 0, loop_limit = 120000;
    bool in_loop = false, sigpipe = false;
    std::function<void()> on_wait;                                   // the event loop waits
    unsigned rnd_ctr = 0; uint64_t rnd_seed = 0;
    void begin();              // start of a case
    void end();
    Sock *get(int fd);
    void enter_loop(uint64_t timeout) { in_loop = true; ops = 0; loop_start = now; loop_limit = timeout + 120000; }
    void leave_loop() { in_loop = false; }
    void op();
    void pump();
    void advance(uint64_t to);
    uint64_t next_event(bool all = false);                           // all: the companion connection's too
    void push(Sock *, const Str &data, uint64_t delay = 0);
    void fin(Sock *, uint64_t delay = 0);
    void rst(Sock *, uint64_t delay = 0);
    unsigned open_socks() const;
};
extern Sim sim;
#define SIDE_HOST "side.invalid"
#define SIDE_ADDR "192.0.2.250"
#define SIDE_PORT 6999
static const uint64_t SIM_EPOCH = 1700000000000ull; // ms
