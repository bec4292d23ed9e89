// The application side: one context, one connection object, an event log and the checks that run all the time.
#pragma once
#include "server.h"

struct Ev { uint64_t t; int type, error; bool se; int se_type; bool has_text; Str se_text; int wire; };

struct AppCfg {
    int kind = 0;                // 0 client, 1 component, 2 raw
    Str jid = "user@example.com/res", pass = "password-Xy12", user = "user", domain = "example.com", resource = "res";
    bool has_pass = true, anon = false;
    long flags = 0;
    Str alt; unsigned port = 0;
    int certfail = 0;            // 0 no handler, 1 accepts, 2 rejects
    bool cafile = true;
    bool client_cert = false; std::vector<Str> cert_addrs; // addresses in it (default: the JID)
    unsigned cert_form = 0; Str key_pass; bool key_arg = false; // how it is stored; PKCS#12 passed the deprecated way
    unsigned pw_wrong = 0, pw_retries = 1;                     // wrong passwords before the right one
    bool sm_cb = false;
    bool raw_default = true;     // raw: open the stream with the default header
    int raw_tls = 0;             // raw: 0 no, 1 tls before the stream is opened
};

struct App;
// A second connection object in the same context that lives its own simple life; neither may disturb the other.
struct Pal : Peer {
    App *a;
    xmpp_conn_t *c = nullptr;
    Sock *s = nullptr;
    int kind = 0, fate = 0;      // kind 0 raw, 1 component; fate: see Pal::setup
    Str acc, sent;
    size_t got0 = 0;
    bool started = false, live = false, over = false, shut = false;
    uint64_t t_conn = 0, t_up = 0, last_timed = 0, next = UINT64_MAX, end_at = UINT64_MAX, period = 1000, tperiod = 900;
    unsigned pushed = 0, seen = 0, timed = 0, downs = 0, ups = 0, raws = 0, it = 0, start_it = 0, release_it = 0, over_it = 0;
    Pal(App *x) : a(x) {}
    void setup();
    void connect();
    void release();
    void before(), after();      // around an iteration
    void on_data(Sock *, const char *, size_t) override;
    void on_client_close(Sock *) override { s = nullptr; }
    uint64_t next_timer() override { return std::min(next, end_at); }
    void on_timer() override;
    void bug(const char *props, const char *f, ...) __attribute__((format(printf, 3, 4)));
    struct { uint64_t t; unsigned pushed, timed, it; size_t sent; bool up; } b{};
};

struct App {
    std::unique_ptr<Pal> pal;
    unsigned pal_rate = 120;     // permille of the cases that have one
    Str prop;                    // property whose violations count
    VMem vm;
    xmpp_ctx_t *ctx = nullptr;
    xmpp_conn_t *conn = nullptr;
    XNet net;
    AppCfg cfg;
    std::vector<AppCfg> cfgs;    // configurations at earlier connects (XServ::cfg_no)
    const AppCfg &cfg_at(const XServ &x) { return x.cfg_no < 0 ? cfg : cfgs[x.cfg_no]; }
    std::vector<Ev> evs;
    bool attempt = false;        // an accepted attempt has not been reported as over
    int n_up = 0, n_raw = 0, n_down = 0, attempts = 0;
    uint64_t t_attempt = 0, t_up = 0, t_down = 0;
    unsigned sent_ctr = 0, probe_ctr = 0;
    std::vector<Str> got_ids;    // ids of stanzas the user's handlers saw
    std::set<Str> probes_seen;
    std::function<void(const Ev &)> on_ev;
    std::function<void(xmpp_stanza_t *)> on_st;
    std::function<void()> on_timed;
    int in_cb = 0;
    uint64_t iters = 0;
    Str last_blob; bool have_blob = false; unsigned blobs = 0; // have_blob: the last callback carried a state
    bool run_mode = false;       // each iteration is an xmpp_run that is stopped
    int certfail_calls = 0;
    unsigned pw_calls = 0, pw_bad = 0;
    std::function<int(const xmpp_tlscert_t *, const char *)> on_cert;
    std::function<void()> on_iter;
    bool restored = false;       // an SM state was given to the connection

    App(const char *prop_) : prop(prop_) {}
    ~App();
    void chk(const char *props, bool ok, const char *sig, const char *f, ...) __attribute__((format(printf, 5, 6)));
    bool on(const char *props) const { return strstr(props, prop.c_str()) != nullptr; }
    void start(const AppCfg &c);             // context, connection, configuration
    void new_conn();
    void apply_cfg();
    int connect();
    void iter(unsigned long timeout = 100);
    void run_for(uint64_t ms, unsigned long timeout = 100);
    template <class F> bool until(F f, uint64_t ms, unsigned long timeout = 100)
    {
        uint64_t end = sim.now + ms;
        uint64_t guard = 0;
        while (!f()) {
            if (failed() || sim.now >= end || ++guard > 20000) return f();
            uint64_t n0 = sim.now;
            iter((unsigned long)std::min<uint64_t>(timeout, end - sim.now));
            (void)n0;
        }
        return true;
    }
    void disconnect();
    void disconnect_cb() { trace("  APP: xmpp_disconnect from a callback"); xmpp_disconnect(conn); }
    void release();
    void finish();                           // release everything, leak and close checks
    void state_check(const char *where);
    bool up() const { return attempt && n_up > 0; }
    Str send_user(const Str &payload = "");  // submits a marked message; returns its id
    void send_raw_user(const Str &x);
    void leave_ctx();
};
void app_run(App &, const std::function<void()> &);      // runs a case body, swallows CaseAbort
void conform(const App &, XConf &);                       // a server this client can always connect to
struct Deviate {                                          // one deviation somewhere in the conversation
    int at = -1;                 // ordinal of the reply at which it happens (-1 never)
    int n = 0;
    unsigned again = 0;          // permille to deviate again afterwards
    bool broken_layer = false;   // bytes were put under an active layer
    bool any = false;
    std::vector<Str> what;
    Str late; int late_at = 0;   // an answer that belonged to the connection before this one
    Str last, last_step;         // the last answer there was to give on this one
    bool operator()(XServ &, const char *step, Str &reply);
    bool act(XServ &, const char *step, Str &reply);
};
Str soup(int depth = 0);
AppCfg gen_app(const std::vector<unsigned> &kinds, bool raw_ok = true);
XConf gen_server(const AppCfg &);
long gen_flags();
