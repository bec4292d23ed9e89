#include "app.h"

// ---- context ----------------------------------------------------------------------------
static App *g_app;
struct InCb { App *a; InCb(App *x) : a(x) { a->in_cb++; } ~InCb() { a->in_cb--; } };

void App::chk(const char *props, bool ok, const char *sig, const char *f, ...)
{
    if (ok || !on(props)) return;
    char b[2000];
    va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    fail(sig, "%s", b);
}
static void conn_cb(xmpp_conn_t *c, xmpp_conn_event_t ev, int err, xmpp_stream_error_t *se, void *ud)
{
    App *a = (App *)ud;
    InCb in(a);
    Ev e; e.t = sim.now; e.type = ev; e.error = err; e.se = se != nullptr; e.se_type = se ? se->type : -1;
    e.has_text = se && se->text; if (e.has_text) e.se_text = se->text;
    e.wire = (int)a->net.conns.size() - 1;
    if (se && se->stanza) { char *b; size_t n; if (xmpp_stanza_to_text(se->stanza, &b, &n) == 0) xmpp_free(a->ctx, b); }
    static const char *N[] = {"CONNECT", "RAW_CONNECT", "DISCONNECT", "FAIL"};
    trace("  [%llu] APP: %s error=%d%s", (unsigned long long)(sim.now - SIM_EPOCH), N[ev & 3], err, se ? fmt(" stream error %d %s", se->type, se->text ? se->text : "").c_str() : "");
    a->evs.push_back(e);
    if (a->net.cur()) a->net.cur()->app_event(ev);
    a->chk("C01 C03 C13", a->attempt, "event-without-attempt", "notification %s although no connection attempt is in progress", N[ev & 3]);
    if (ev == XMPP_CONN_CONNECT) {
        a->n_up++; a->t_up = sim.now;
        if (a->cfg.kind != 2) a->chk("C03 C13", a->n_up == 1, "connect-twice", "CONNECT was notified %d times in one attempt", a->n_up);
        a->chk("C13", xmpp_conn_is_connected(c), "state-in-connect", "is_connected is false inside the CONNECT notification");
    } else if (ev == XMPP_CONN_RAW_CONNECT) {
        a->n_raw++; a->t_up = sim.now;
        a->chk("C13", a->cfg.kind == 2 && a->n_raw == 1, "raw-connect", "RAW_CONNECT number %d on a connection of kind %d", a->n_raw, a->cfg.kind);
        a->chk("C13", xmpp_conn_is_connected(c), "state-in-connect", "is_connected is false inside the RAW_CONNECT notification");
    } else if (ev == XMPP_CONN_DISCONNECT) {
        a->n_down++; a->t_down = sim.now;
        a->chk("C01 C13", a->n_down == 1, "disconnect-twice", "DISCONNECT was notified %d times in one attempt", a->n_down);
        a->chk("C13", xmpp_conn_is_disconnected(c), "state-in-disconnect", "is_disconnected is false inside the DISCONNECT notification");
        a->attempt = false;
    } else a->chk("C13", false, "event-type", "unknown notification %d", ev);
    int n = !!xmpp_conn_is_connecting(c) + !!xmpp_conn_is_connected(c) + !!xmpp_conn_is_disconnected(c);
    a->chk("C13", n == 1, "state-sum", "inside the %s notification %d of the three state predicates hold", N[ev & 3], n);
    if (a->on_ev) a->on_ev(e);
}
static int any_cb(xmpp_conn_t *c, xmpp_stanza_t *s, void *ud)
{
    App *a = (App *)ud;
    InCb in(a);
    const char *id = xmpp_stanza_get_id(s);
    char *b; size_t n;
    if (xmpp_stanza_to_text(s, &b, &n) == 0) xmpp_free(a->ctx, b);
    a->chk("C03", a->attempt && (a->n_up || a->n_raw), "user-handler-early", "a user stanza handler ran before the connection was reported up (stanza %s)", xmpp_stanza_get_name(s) ? xmpp_stanza_get_name(s) : "?");
    if (id) { a->got_ids.push_back(id); if (!strncmp(id, "probe", 5)) a->probes_seen.insert(id); }
    if (a->on_st) a->on_st(s);
    return 1;
}
static int id_cb(xmpp_conn_t *, xmpp_stanza_t *, void *ud)
{
    App *a = (App *)ud;
    InCb in(a);
    a->chk("C03", a->attempt && (a->n_up || a->n_raw), "user-handler-early", "a user id handler ran before the connection was reported up");
    return 1;
}
static int timed_cb(xmpp_conn_t *, void *ud)
{
    App *a = (App *)ud;
    InCb in(a);
    a->chk("C03", a->attempt && (a->n_up || a->n_raw), "user-timed-early", "a user timed handler ran while the connection was not up");
    if (a->on_timed) a->on_timed();
    return 1;
}
static void sm_cb_(xmpp_conn_t *, void *ud, const unsigned char *p, size_t n)
{
    App *a = (App *)ud;
    a->blobs++;
    a->have_blob = p != nullptr;
    if (p) a->last_blob.assign((const char *)p, n);
}
static int certfail_cb(const xmpp_tlscert_t *cert, const char *)
{
    App *a = g_app;
    a->certfail_calls++;
    if (a->on("C08")) {
        Str why = cert_info_check(cert);
        a->chk("C08", why.empty(), "cert-info", "the certificate handler is told: %s", why.c_str());
        a->chk("C08", xmpp_tlscert_get_ctx(cert) == a->ctx, "cert-ctx", "the certificate handler is given another context");
    }
    for (int i = -1; i <= XMPP_CERT_ELEMENT_MAX; i++) { const char *s = xmpp_tlscert_get_description((xmpp_cert_element_t)i); if (s) (void)strlen(s); }
    for (int i = 0; i < XMPP_CERT_ELEMENT_MAX; i++) { const char *s = xmpp_tlscert_get_string(cert, (xmpp_cert_element_t)i); if (s) (void)strlen(s); }
    const char *pem = xmpp_tlscert_get_pem(cert);
    if (pem) (void)strlen(pem);
    for (size_t i = 0; xmpp_tlscert_get_dnsname(cert, i) && i < 20; i++) {}
    if (a->on_cert) return a->on_cert(cert, nullptr);
    return a->cfg.certfail == 1;
}
static int password_cb(char *pw, size_t max, xmpp_conn_t *conn, void *ud)
{
    App *a = (App *)ud;
    a->pw_calls++;
    trace("  APP: asked for the key password (max %zu)", max);
    const char *kf = xmpp_conn_get_keyfile(conn);
    if (kf) (void)strlen(kf);
    Str p = a->cfg.key_pass;
    if (a->pw_bad) {
        a->pw_bad--;
        unsigned k = draw(5);
        if (k == 0) return -1;
        if (k == 1) { memset(pw, 'x', max); return (int)max; }
        p = k == 2 ? Str() : k == 3 ? p + "x" : Str(max - 1, 'y');
    }
    if (p.size() >= max) return -1;
    memcpy(pw, p.data(), p.size());
    return (int)p.size();
}
void App::start(const AppCfg &c)
{
    cfg = c;
    g_app = this;
    sim.begin();
    net.begin();
    ctx = xmpp_ctx_new(&vm.mem, vlog());
    run_mode = coin(60);
    if (run_mode) note("xmpp_run / xmpp_stop");
    else if (coin(20)) xmpp_stop(ctx); // nothing to stop
    bool side = coin(pal_rate), first = side && coin(500);
    if (side) { pal.reset(new Pal(this)); note("companion connection"); }
    if (first) pal->setup();
    new_conn();
    if (side && !first) pal->setup();
}
void App::new_conn()
{
    conn = xmpp_conn_new(ctx);
    apply_cfg();
    xmpp_handler_add(conn, any_cb, nullptr, nullptr, nullptr, this);
    xmpp_id_handler_add(conn, id_cb, "_xmpp_bind1", this);
    xmpp_id_handler_add(conn, id_cb, "_xmpp_session1", this);
    xmpp_timed_handler_add(conn, timed_cb, 700, this);
}
void App::apply_cfg()
{
    if (!cfg.jid.empty()) xmpp_conn_set_jid(conn, cfg.jid.c_str());
    if (cfg.has_pass) xmpp_conn_set_pass(conn, cfg.pass.c_str());
    if (cfg.cafile) xmpp_conn_set_cafile(conn, ca_file());
    if (cfg.certfail) xmpp_conn_set_certfail_handler(conn, certfail_cb);
    if (cfg.client_cert) {
        Str c, k;
        client_cert(cfg.cert_addrs.empty() ? std::vector<Str>{cfg.user + "@" + cfg.domain} : cfg.cert_addrs, c, k, cfg.cert_form, cfg.key_pass);
        if (cfg.cert_form >= CERT_P12) xmpp_conn_set_client_cert(conn, cfg.key_arg ? nullptr : c.c_str(), cfg.key_arg ? c.c_str() : nullptr);
        else xmpp_conn_set_client_cert(conn, c.c_str(), k.c_str());
        if (!cfg.key_pass.empty()) {
            xmpp_conn_set_password_callback(conn, password_cb, this);
            xmpp_conn_set_password_retries(conn, cfg.pw_retries);
            pw_bad = cfg.pw_wrong;
        }
    }
    if (cfg.sm_cb) xmpp_conn_set_sm_callback(conn, sm_cb_, this);
    if (coin(20)) xmpp_conn_set_keepalive(conn, 30 + (int)draw(3), (int)draw(20));
    int rc = xmpp_conn_set_flags(conn, cfg.flags);
    chk("C13", rc == 0, "flags-refused", "set_flags(0x%lx) was refused on a fresh connection", (unsigned long)cfg.flags);
    chk("C13", xmpp_conn_get_flags(conn) == cfg.flags, "flags-readback", "set_flags(0x%lx) reads back as 0x%lx", (unsigned long)cfg.flags, (unsigned long)xmpp_conn_get_flags(conn));
}
App::~App()
{
    if (g_app == this) g_app = nullptr;
}
int App::connect()
{
    bool was = attempt;
    if (!was) { n_up = n_raw = n_down = 0; }
    sim.enter_loop(1000);
    int rc;
    uint64_t t = sim.now;
    if (!was) attempt = true; // notifications from inside connect belong to it
    if (cfg.kind == 1) rc = xmpp_connect_component(conn, cfg.alt.empty() ? "comp.host" : cfg.alt.c_str(), (unsigned short)cfg.port, conn_cb, this);
    else if (cfg.kind == 2) rc = xmpp_connect_raw(conn, cfg.alt.empty() ? nullptr : cfg.alt.c_str(), (unsigned short)cfg.port, conn_cb, this);
    else rc = xmpp_connect_client(conn, cfg.alt.empty() ? nullptr : cfg.alt.c_str(), (unsigned short)cfg.port, conn_cb, this);
    sim.leave_loop();
    trace("  [%llu] APP: connect -> %d", (unsigned long long)(sim.now - SIM_EPOCH), rc);
    if (was) {
        chk("C13", rc != 0, "connect-while-active", "connect returned 0 while an attempt is in progress");
        return rc;
    }
    if (rc != 0) attempt = false;
    else { attempts++; t_attempt = t; }
    state_check("connect");
    return rc;
}
void App::state_check(const char *where)
{
    if (!conn) return;
    bool ing = xmpp_conn_is_connecting(conn), ed = xmpp_conn_is_connected(conn), dis = xmpp_conn_is_disconnected(conn);
    chk("C13", ing + ed + dis == 1, "state-sum", "after %s: connecting=%d connected=%d disconnected=%d", where, ing, ed, dis);
    const char *j = xmpp_conn_get_jid(conn);
    if (!cfg.jid.empty()) chk("C13", j && cfg.jid == j, "jid-readback", "after %s: the configured address %s reads back as %s", where, esc(cfg.jid).c_str(), j ? esc(j).c_str() : "NULL");
    if (!attempt) chk("C13 C01", dis, "state-vs-events", "after %s: the attempt is over (or never began) but is_disconnected is false", where);
    else if (n_up || n_raw) chk("C13", ed, "state-vs-events", "after %s: the connection was reported up but is_connected is false", where);
    else chk("C13", ing, "state-vs-events", "after %s: the attempt is in progress but is_connecting is false", where);
}
void App::iter(unsigned long timeout)
{
    if (failed()) throw CaseAbort();
    iters++;
    if (pal) pal->before();
    sim.enter_loop(timeout);
    if (getenv("VH_ITER")) trace("    iter %lu at %llu next_event %lld", timeout, (unsigned long long)(sim.now - SIM_EPOCH), (long long)(sim.next_event() - SIM_EPOCH));
    if (run_mode && timeout > 0) {
        unsigned waits = 0;
        struct Off { ~Off() { sim.on_wait = nullptr; } } off; // also when the case is aborted
        sim.on_wait = [&] { waits++; xmpp_stop(ctx); };
        xmpp_ctx_set_timeout(ctx, timeout);
        xmpp_run(ctx);
        chk("C01", waits > 0, "run-returns", "xmpp_run returned although nobody stopped it");
    } else xmpp_run_once(ctx, timeout);
    sim.leave_loop();
    chk("C01", !sim.sigpipe, "sigpipe", "the client wrote to a connection whose peer has gone in a way that raises SIGPIPE: the process dies instead of being told");
    chk("C12 C01", !vm.bad, "allocator", "%s", vm.badmsg.c_str());
    state_check("run_once");
    if (pal) pal->after();
    if (failed()) throw CaseAbort();
}
void App::run_for(uint64_t ms, unsigned long timeout) { until([] { return false; }, ms, timeout); }
void App::disconnect()
{
    trace("  [%llu] APP: xmpp_disconnect", (unsigned long long)(sim.now - SIM_EPOCH));
    xmpp_disconnect(conn);
    state_check("xmpp_disconnect");
}
Str App::send_user(const Str &payload)
{
    Str id = fmt("u%u", ++sent_ctr);
    xmpp_stanza_t *m = xmpp_message_new(ctx, "chat", "peer@example.com", id.c_str());
    xmpp_message_set_body(m, payload.empty() ? "hello" : payload.c_str());
    xmpp_send(conn, m);
    xmpp_stanza_release(m);
    return id;
}
void App::send_raw_user(const Str &x) { xmpp_send_raw(conn, x.data(), x.size()); }
void App::release()
{
    if (!conn) return;
    bool was = attempt;
    trace("  [%llu] APP: release", (unsigned long long)(sim.now - SIM_EPOCH));
    sim.enter_loop(1000);
    int r = xmpp_conn_release(conn);
    sim.leave_loop();
    chk("C12", r == 1, "release", "releasing the only reference returned %d", r);
    conn = nullptr;
    if (was) chk("C13 C01", n_down == 1 && !attempt, "release-no-disconnect", "the connection was released in mid-attempt and %d DISCONNECT notifications were made", n_down);
}
void App::leave_ctx()
{
    if (!ctx) return;
    if (pal) pal->release();
    xmpp_ctx_free(ctx);
    ctx = nullptr;
    if (!failed()) {
        chk("C12 C01", !vm.bad, "allocator", "%s", vm.badmsg.c_str());
        chk("C12", !vh_bypass, "allocator-bypassed", "%s", vh_bypass_msg.c_str());
        if (!vm.live.empty()) {
            size_t n = vm.live.size();
            chk("C12", false, "leak", "%zu blocks (%zu bytes) were not returned to the allocator; sizes %zu...", n, vm.bytes(), vm.live.begin()->second);
        }
        chk("C12", sim.open_socks() == 0, "socket-leak", "%u sockets are still open after release", sim.open_socks());
    }
}
void App::finish()
{
    release();
    leave_ctx();
}
void app_run(App &a, const std::function<void()> &f)
{
    try { f(); } catch (CaseAbort &) {}
    a.net.end();
    sim.end();
    if (g_app == &a) g_app = nullptr;
}

// ---- companion connection -----------------------------------------------------------------
void Pal::bug(const char *props, const char *f, ...)
{
    char t[1000]; va_list ap; va_start(ap, f); vsnprintf(t, sizeof t, f, ap); va_end(ap);
    a->chk(props, false, "companion", "the other connection of the context: %s", t);
}
static void pal_cb(xmpp_conn_t *c, xmpp_conn_event_t ev, int err, xmpp_stream_error_t *, void *ud)
{
    Pal *p = (Pal *)ud;
    trace("  [%llu] SIDE: event %d error=%d", (unsigned long long)(sim.now - SIM_EPOCH), ev, err);
    if (!p->started || p->downs) p->bug("C01 C13", "notification %d while no attempt is in progress", ev);
    if (ev == XMPP_CONN_RAW_CONNECT) {
        if (++p->raws > 1 || p->kind) p->bug("C13", "RAW_CONNECT %u on a connection of kind %d", p->raws, p->kind);
        xmpp_conn_open_stream_default(c);
    } else if (ev == XMPP_CONN_CONNECT) {
        p->t_up = sim.now;
        if (++p->ups > 1) p->bug("C13 C03", "CONNECT %u", p->ups);
        if (!p->live) p->bug("C13 C03", "CONNECT before the server answered");
    } else if (ev == XMPP_CONN_DISCONNECT) {
        p->downs++;
        // the wait for the handshake ends after 15 s, also when the other connection has kept the loop busy
        if (p->kind && !p->ups && sim.now - p->t_conn >= 15000) p->over = true;
        if (!p->over) p->bug("C01 C13", "it is disconnected (error %d) although nothing happened to it", err);
    }
}
static int pal_st(xmpp_conn_t *c, xmpp_stanza_t *st, void *ud)
{
    Pal *p = (Pal *)ud;
    const char *id = xmpp_stanza_get_id(st);
    Str want = fmt("p%u", ++p->seen);
    char *body = xmpp_message_get_body(st);
    if (!id || want != id || !body || want != body) p->bug("C10", "stanza %s is delivered as %s, %s", want.c_str(), id ? id : "(no id)", body ? body : "(no body)");
    if (body) xmpp_free(p->a->ctx, body);
    if (p->downs) p->bug("C13", "a stanza is delivered after DISCONNECT");
    Str r = fmt("<r id='%s'/>", want.c_str());
    if (!p->shut) { xmpp_send_raw(c, r.data(), r.size()); p->sent += r; }
    return 1;
}
static int pal_timed(xmpp_conn_t *c, void *ud)
{
    Pal *p = (Pal *)ud;
    if ((!p->ups && !p->raws) || p->downs) p->bug("C03 C13", "its timed handler is called while it is not connected");
    if (p->timed && sim.now - p->last_timed < p->tperiod) p->bug("C13", "its timed handler is called %llu ms after the last time", (unsigned long long)(sim.now - p->last_timed));
    p->timed++; p->last_timed = sim.now;
    if (!p->shut && p->ups) { xmpp_send_raw(c, "<t/>", 4); p->sent += "<t/>"; }
    return 1;
}
void Pal::setup()
{
    c = xmpp_conn_new(a->ctx);
    // 0 never connects, 1 lives on, 2 connect hangs, 3 connect fails later, 4 server closes, 5 server resets, 6 garbage,
    // 7 stream end, 8 the user disconnects, 9 the user disconnects and the server does not react
    fate = (int)weighted({1, 6, 2, 1, 1, 1, 1, 1, 1, 1});
    kind = coin(350);
    period = 200 + draw(3000); tperiod = 300 + draw(3000);
    start_it = 1 + small(40);
    if (coin(200)) release_it = start_it + draw(150);
    if (fate >= 4) end_at = sim.now + 100 + draw(20000);
    xmpp_conn_set_jid(c, kind ? "side.example" : "side@side.example/x");
    xmpp_conn_set_pass(c, "side-secret");
    xmpp_conn_set_flags(c, XMPP_CONN_FLAG_DISABLE_TLS);
    xmpp_handler_add(c, pal_st, nullptr, "message", nullptr, this);
    xmpp_timed_handler_add(c, pal_timed, tperiod, this);
    trace("  SIDE: kind %d fate %d starts at iteration %u", kind, fate, start_it);
}
void Pal::connect()
{
    started = true;
    t_conn = sim.now;
    sim.side_plan = ConnectPlan();
    if (fate == 2) { sim.side_plan.mode = 3; over = true; }
    if (fate == 3) { sim.side_plan.mode = 2; sim.side_plan.delay = draw(3000); over = true; }
    sim.side_accept = [this](Sock *k) { s = k; k->peer = this; };
    sim.enter_loop(1000);
    int rc = kind ? xmpp_connect_component(c, SIDE_HOST, SIDE_PORT, pal_cb, this) : xmpp_connect_raw(c, SIDE_HOST, SIDE_PORT, pal_cb, this);
    sim.leave_loop();
    if (rc) bug("C13 C14", "connect returned %d", rc);
}
void Pal::on_data(Sock *k, const char *d, size_t n)
{
    acc.append(d, n);
    if (live || over) return;
    if (!got0 && acc.find("<stream:stream") != Str::npos && acc.back() == '>') {
        got0 = acc.size();
        sim.push(k, "<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' id='side1' from='side.example' version='1.0'>");
        if (!kind) live = true;
    } else if (kind && got0 && acc.find("</handshake>", got0) != Str::npos) {
        got0 = acc.size();
        live = true;
        sim.push(k, "<handshake/>");
    }
    if (live) next = sim.now + period;
}
void Pal::on_timer()
{
    if (end_at <= sim.now) {
        end_at = next = UINT64_MAX;
        if (fate >= 8 || !s) { if (fate < 8 && !live) over = true; return; }
        over = true;
        if (fate == 4) sim.fin(s);
        else if (fate == 5) sim.rst(s);
        else if (fate == 6) sim.push(s, "<a></b>");
        else sim.push(s, "</stream:stream>");
        return;
    }
    next = sim.now + period;
    if (pushed - seen >= 20) next = UINT64_MAX; // until the client reads again
    if (!live || !s) return;
    Str id = fmt("p%u", ++pushed);
    Str m = fmt("<message id='%s' from='x@side.example'><body>%s</body></message>", id.c_str(), id.c_str());
    sim.push(s, m);
}
void Pal::before()
{
    it++;
    if (c && fate && !started && it >= start_it) connect();
    if (c && release_it && it >= release_it) release();
    if (!c) return;
    if (live && !over && next == UINT64_MAX && pushed == seen) next = sim.now + period;
    if (fate >= 8 && started && !shut && ups && !downs && sim.now >= t_up + 1500) {
        over = shut = true;
        end_at = UINT64_MAX;
        xmpp_disconnect(c);
        if (fate == 8) next = UINT64_MAX;
        t_up = sim.now;
    }
    b = {sim.now, pushed, timed, it, sent.size(), ups > 0 && !over};
    if (over && !over_it) over_it = it;
}
void Pal::after()
{
    if (!c) return;
    bool ing = xmpp_conn_is_connecting(c), ed = xmpp_conn_is_connected(c), dis = xmpp_conn_is_disconnected(c);
    if (ing + ed + dis != 1) bug("C13", "connecting=%d connected=%d disconnected=%d", ing, ed, dis);
    if ((!started || downs) != dis) bug("C13 C01", "is_disconnected is %d after %u DISCONNECT notifications", dis, downs);
    if (b.up && !over) {
        if (seen < b.pushed) bug("C01 C10", "stanza p%u arrived before an iteration of the loop and is not delivered after it", b.pushed);
        if (acc.size() - got0 < b.sent) bug("C06", "%zu bytes were queued before an iteration of the loop and %zu are on the wire after it", b.sent, acc.size() - got0);
        uint64_t base = std::max(last_timed, t_up); // re-armed at stream start
        if (b.timed == timed && b.t - base >= tperiod) bug("C13", "its timed handler was due before an iteration of the loop and has not been called");
    }
    if (ups) {
        Str g = acc.substr(got0);
        if (g.size() >= 16 && shut && !g.compare(g.size() - 16, 16, "</stream:stream>")) g.resize(g.size() - 16);
        if (!over || shut) { if (sent.compare(0, g.size(), g)) bug("C06", "it sent %s and the server received %s", esc(sent).c_str(), esc(g).c_str()); }
    }
    if (fate == 2 && started) {
        if (!downs && b.t - t_conn > 5000) bug("C13 C14", "its connection attempt is not given up after %llu ms", (unsigned long long)(b.t - t_conn));
        if (downs && sim.now - t_conn <= 5000) bug("C13 C14", "its connection attempt is given up after %llu ms", (unsigned long long)(sim.now - t_conn));
    } else if (fate == 9 && shut) {
        if (!downs && b.t - t_up > 2000 + 100) bug("C13", "it is not closed %llu ms after the user disconnected it", (unsigned long long)(b.t - t_up));
    } else if (over && !downs && started && over_it && it > over_it + 4 && fate >= 4 && fate < 8 && s) bug("C13 C01", "its stream ended and it is not disconnected %u iterations later", it - over_it);
}
void Pal::release()
{
    if (!c) return;
    trace("  SIDE: release");
    bool was = started && !downs;
    over = true;
    sim.enter_loop(1000);
    int r = xmpp_conn_release(c);
    sim.leave_loop();
    c = nullptr;
    if (r != 1) bug("C12", "releasing the only reference returned %d", r);
    if (was && downs != 1) bug("C13 C01", "it was released in mid-attempt and %u DISCONNECT notifications were made", downs);
    next = end_at = UINT64_MAX;
    s = nullptr;
}

// ---- generators ---------------------------------------------------------------------------
long gen_flags()
{
    long f = 0;
    if (coin(150)) f |= XMPP_CONN_FLAG_DISABLE_TLS;
    else {
        if (coin(300)) f |= XMPP_CONN_FLAG_MANDATORY_TLS;
        if (coin(80)) f |= XMPP_CONN_FLAG_LEGACY_SSL;
        if (coin(100)) f |= XMPP_CONN_FLAG_TRUST_TLS;
    }
    if (coin(200)) f |= XMPP_CONN_FLAG_LEGACY_AUTH;
    if (coin(250)) f |= XMPP_CONN_FLAG_DISABLE_SM;
    if (coin(350)) f |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
    if (coin(150)) f |= XMPP_CONN_FLAG_COMPRESSION_DONT_RESET;
    return f;
}
AppCfg gen_app(const std::vector<unsigned> &kinds, bool)
{
    AppCfg c;
    unsigned tot = 0;
    for (unsigned k : kinds) tot += k;
    uint32_t d = draw(tot);
    for (c.kind = 0; d >= kinds[c.kind]; c.kind++) d -= kinds[c.kind];
    if (c.kind == 1) {
        c.jid = pickc({"comp.example.com", "gateway.example.net"});
        c.domain = c.jid;
        c.user = "";
        c.resource = "";
        c.pass = "component-secret-77";
        if (coin(200)) c.flags |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
        if (coin(200)) c.flags |= XMPP_CONN_FLAG_DISABLE_SM;
        c.sm_cb = coin(400);
        return c;
    }
    c.flags = gen_flags();
    c.domain = pickc({"example.com", "xmpp.example.net", "localhost"});
    c.user = pickc({"user", "alice", "o_conner", "j\xc3\xbcrgen", "a.b-c"});
    c.resource = pickc({"", "res", "Desk top", "r/s@t", "\xd0\xbc\xd0\xbe\xd0\xb9", "<&'\">"});
    c.pass = pickc({"password-Xy12", "p\xc3\xa4ssw\xc3\xb6rt-99", "q<&>\"' w12345", "0123456789012345678901234567890123456789"});
    c.jid = c.user + "@" + c.domain + (c.resource.empty() ? "" : "/" + c.resource);
    if (coin(60)) { c.anon = true; c.user = ""; c.jid = c.domain; c.resource = ""; c.has_pass = coin(300); }
    else if (coin(25)) c.has_pass = false;
    c.client_cert = coin(120);
    c.sm_cb = coin(400);
    if (c.client_cert && coin(300)) {
        c.cert_form = 1 + draw(4);
        if (c.cert_form < CERT_P12 || coin(600)) c.key_pass = pickc({"secret", "p w"});
        c.key_arg = c.cert_form >= CERT_P12 && coin(300);
        if (coin(200)) { c.pw_wrong = range(1, 2); c.pw_retries = draw(4); }
    }
    c.certfail = (int)weighted({6, 2, 2});
    if (coin(150)) c.alt = "host.invalid";
    c.raw_default = coin(700);
    c.raw_tls = coin(250);
    return c;
}
static const char *const ALLMECH[] = {"PLAIN", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS", "DIGEST-MD5", "EXTERNAL", "ANONYMOUS", "X-OAUTH2", "GSSAPI"};
static std::vector<Str> gen_mechs()
{
    std::vector<Str> v;
    uint32_t style = weighted({4, 3, 2, 1, 2});
    if (style == 0) { v = {"SCRAM-SHA-1", "PLAIN"}; if (coin(500)) v.push_back("ANONYMOUS"); }
    else if (style == 1) { for (auto m : ALLMECH) if (coin(350)) v.push_back(m); }
    else if (style == 2) v = {ALLMECH[draw(12)]};
    else if (style == 4) v = {"PLAIN", ALLMECH[1 + draw(9)]};
    for (size_t i = v.size(); i > 1; i--) std::swap(v[i - 1], v[draw((uint32_t)i)]);
    return v;
}
XConf gen_server(const AppCfg &c)
{
    XConf x;
    x.domain = c.domain; x.user = c.user; x.pass = c.pass;
    if (c.kind == 1) { x.component = true; x.comp_jid = c.jid; x.secret = c.pass; return x; }
    x.legacy_ssl = c.kind == 0 && (c.flags & XMPP_CONN_FLAG_LEGACY_SSL) && !coin(80);
    x.tls = coin(650);
    x.tlsver = pickc({"\0", "\x0c", "\x0d"})[0];
    x.cert = coin(850) ? "good" : pickc({"wrongname", "expired", "untrusted", "selfsigned"});
    x.mech_plain = gen_mechs();
    x.mech_tls = coin(700) ? x.mech_plain : gen_mechs();
    if (c.client_cert && coin(400)) for (auto v : {&x.mech_plain, &x.mech_tls}) v->insert(v->begin() + draw((uint32_t)v->size() + 1), "EXTERNAL");
    x.zlib = coin(400);
    x.bind = !coin(60);
    x.session = (int)weighted({5, 3, 3});
    x.sm = coin(600);
    x.sm_resume = !coin(200);
    x.accept_auth = !coin(100);
    if (coin(250)) { unsigned n = 1 + draw(3); while (n--) x.reject_mechs.push_back(ALLMECH[draw(10)]); }
    else if (coin(150)) for (unsigned i = 1; i < 10; i++) x.reject_mechs.push_back(ALLMECH[i]); // all but PLAIN

    x.old_stream = coin(40);
    x.realm = "";
    x.have_realm = coin(700);
    x.qop = coin(700) ? "auth" : "";
    x.charset = coin(700);
    return x;
}
void conform(const App &a, XConf &x)
{
    const AppCfg &c = a.cfg;
    x = XConf();
    x.domain = c.domain; x.user = c.user; x.pass = c.pass;
    if (c.kind == 1) { x.component = true; x.comp_jid = c.jid; x.secret = c.pass; return; }
    x.legacy_ssl = c.kind == 0 && (c.flags & XMPP_CONN_FLAG_LEGACY_SSL);
    x.tls = true;
    x.mech_plain = x.mech_tls = {"SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "ANONYMOUS"};
    x.zlib = true; x.sm = true;
}

// ---- hostile material ------------------------------------------------------------------------
static Str soup_h() { return pickc({"0", "1", "2", "5", "4294967295", "4294967296", "18446744073709551615", "99999999999999999999999", "-1", "", "abc", " 3", "3x"}); }
static Str rnd_text()
{
    switch (draw(6)) {
    case 0: return "x";
    case 1: return "";
    case 2: return "hello &amp; &lt;world&gt; \xc3\xa9";
    case 3: return Str(1 + draw(6000), 'A');
    case 4: return "<![CDATA[ <x> ]]>";
    default: return " \n\t ";
    }
}
static Str soup_challenge()
{
    Str s;
    auto scram = [&](const Str &nonce) {
        Str o;
        if (!coin(100)) o += "r=" + nonce + ",";
        if (!coin(100)) o += "s=" + Str(pickc({"c2FsdA==", "", "====", "not base64!", "QQ=="})) + ",";
        if (coin(120)) o = "r=" + nonce + ",s=" + b64enc(Str(draw(400), 's')) + ",";
        if (!coin(100)) o += "i=" + Str(pickc({"64", "1", "2000", "0", "-1", "x", "", "1 ", "+5", "00000010"}));
        if (coin(100)) o += ",m=ext";
        if (coin(50)) o = "," + o;
        return o;
    };
    auto digest = [&]() {
        Str o;
        const char *k[] = {"realm", "nonce", "qop", "charset", "algorithm", "rspauth", "maxbuf", "cipher", "username", "response"};
        for (auto n : k) {
            if (!coin(500)) continue;
            Str v = pickc({"example.com", "abc", "auth", "auth,auth-int", "utf-8", "md5-sess", "", "a\\\"b", "auth-int"});
            o += (o.empty() ? "" : ",") + Str(n) + "=" + (coin(600) ? "\"" + v + "\"" : v);
        }
        if (coin(80)) o += ",nonce=\"unterminated";
        if (coin(60)) o += coin(500) ? ",nonce=\"abc\\" : ",realm=\"\\";
        if (coin(80)) o += "=,==\"";
        return o;
    };
    switch (draw(6)) {
    case 0: s = scram((coin(700) ? last_cnonce : "") + "abc"); break;
    case 1: s = digest(); break;
    case 2: s = Str(draw(200), 'z'); break;
    case 3: { s = ""; unsigned n = draw(40); while (n--) s += (char)(1 + draw(255)); break; }
    case 4: return pickc({"", "=", "!!!!", "QQ", "QQ==QQ==", "AAAA"});
    default: s = scram((coin(700) ? last_cnonce : "") + Str(draw(3000), 'n'));
    }
    return b64enc(s);
}
Str soup(int depth)
{
    static const char *NSS[] = {nullptr, "urn:ietf:params:xml:ns:xmpp-tls", "urn:ietf:params:xml:ns:xmpp-sasl", "urn:ietf:params:xml:ns:xmpp-bind", "urn:ietf:params:xml:ns:xmpp-session",
                                "urn:xmpp:sm:3", "http://jabber.org/protocol/compress", "http://jabber.org/features/compress", "jabber:iq:auth", "urn:ietf:params:xml:ns:xmpp-stanzas",
                                "urn:ietf:params:xml:ns:xmpp-streams", "jabber:client", "jabber:component:accept", "urn:x", "http://etherx.jabber.org/streams"};
    struct V { const char *name; int ns; } static const VOC[] = {
        {"proceed", 1}, {"failure", 1}, {"starttls", 1}, {"success", 2}, {"failure", 2}, {"challenge", 2}, {"mechanisms", 2}, {"mechanism", 0}, {"bind", 3}, {"session", 4}, {"optional", 0},
        {"enabled", 5}, {"resumed", 5}, {"failed", 5}, {"a", 5}, {"r", 5}, {"sm", 5}, {"enable", 5}, {"resume", 5}, {"compressed", 6}, {"failure", 6}, {"compression", 7}, {"method", 0}, {"handshake", 0},
        {"iq", 0}, {"iq", 0}, {"iq", 0}, {"message", 0}, {"presence", 0}, {"stream:features", 0}, {"stream:features", 0}, {"stream:error", 0}, {"item-not-found", 9}, {"feature-not-implemented", 9},
        {"not-well-formed", 10}, {"text", 10}, {"jid", 0}, {"auth", 2}, {"response", 2}, {"query", 8}, {"x", 13}};
    const V &v = VOC[draw(sizeof VOC / sizeof *VOC)];
    const char *ns = NSS[v.ns];
    if (coin(60)) ns = NSS[draw(15)];
    Str a;
    Str name = v.name;
    auto attr = [&](const char *k, const Str &val) { a += Str(" ") + k + "='" + val + "'"; };
    if (ns) attr("xmlns", ns);
    if (name == "iq") { if (!coin(60)) attr("type", pickc({"result", "error", "set", "get", "bogus"})); if (!coin(60)) attr("id", pickc({"_xmpp_bind1", "_xmpp_session1", "_xmpp_auth1", "x"})); }
    else if (name == "enabled" || name == "resumed" || name == "failed" || name == "a" || name == "r") {
        if (coin(600)) attr("h", soup_h());
        if (coin(400)) attr("id", pickc({"s1", "", "sm-id"}));
        if (coin(400)) attr("previd", pickc({"s1", "", "sm-id"}));
        if (coin(500)) attr("resume", pickc({"true", "1", "false", "TRUE", ""}));
    } else {
        if (coin(200)) attr("id", pickc({"_xmpp_bind1", "_xmpp_session1", "_xmpp_auth1", "z"}));
        if (coin(150)) attr("type", pickc({"result", "error", "get", "chat"}));
    }
    if (coin(40)) attr("big", Str(1 + draw(9000), 'b'));
    Str in;
    if (name == "challenge" || (name == "success" && coin(300))) in = soup_challenge();
    else if (name == "mechanism") in = ALLMECH[draw(12)];
    else if (name == "method") in = pickc({"zlib", "lzw", "ZLIB", ""});
    else if (name == "jid") in = pickc({"user@example.com/res", "", "@/"});
    else if (depth < 3) {
        unsigned n = weighted({5, 4, 2, 1});
        if (name == "stream:features" || name == "mechanisms" || name == "stream:error") n += draw(3);
        while (n--) in += coin(250) ? rnd_text() : soup(depth + 1);
    }
    if (coin(30)) { unsigned d = 1 + draw(coin(100) ? 4000 : 60); Str o, c; for (unsigned i = 0; i < d; i++) { o += "<n>"; c += "</n>"; } in += o + c; }
    if (in.empty() && coin(700)) return "<" + name + a + "/>";
    return "<" + name + a + ">" + in + "</" + name + ">";
}
static Str mutate(Str s)
{
    if (s.empty()) return s;
    unsigned n = 1 + draw(3);
    while (n--) {
        size_t p = draw((uint32_t)s.size());
        switch (draw(6)) {
        case 0: s[p] = (char)(s[p] ^ (1 << draw(8))); break;
        case 1: s.erase(p, 1 + draw(6)); break;
        case 2: s.insert(p, 1, "<>&'\"/= \0\xff\xc3]"[draw(11)]); break;
        case 3: s.insert(p, pickc({"]]>", "<!--", "&bogus;", "&#0;", "&#x110000;", "<?pi x?>", "<a:b/>", "<![CDATA[", "\xed\xa0\x80", "<!DOCTYPE x>"})); break;
        case 4: s.resize(p); break;
        default: { size_t q = draw((uint32_t)s.size()), l = 1 + draw(20); s.insert(p, s.substr(q, l)); }
        }
        if (s.empty()) break;
    }
    return s;
}
bool Deviate::operator()(XServ &x, const char *step, Str &reply)
{
    int k = n++;
    last = reply; last_step = step;
    if (!late.empty() && k == late_at) {
        any = true;
        Str t = Str("late-answer@") + step;
        what.push_back(t); note("deviation:late-answer"); trace("  server deviates: %s", t.c_str());
        Str l = late;
        late.clear();
        x.out(l);
    }
    if (k == at || (at >= 0 && k > at && again && coin(again))) return act(x, step, reply);
    return false;
}
bool Deviate::act(XServ &x, const char *step, Str &reply)
{
    any = true;
    auto did = [&](const char *w) { Str t = Str(w) + "@" + step; what.push_back(t); note(fmt("deviation:%s", w)); trace("  server deviates: %s", t.c_str()); };
    switch (draw(20)) {
    case 0: did("silence"); return true;
    case 1: did("close"); x.close_tcp(); return true;
    case 2: did("reset"); x.close_tcp(true); return true;
    case 3: did("truncate+close"); x.out(reply.substr(0, draw((uint32_t)reply.size() + 1))); x.close_tcp(draw(2)); return true;
    case 4: did("reply+close"); x.out(reply); x.close_tcp(draw(2)); return true;
    case 5: {
        did("stream-error");
        Str cond = pickc({"host-unknown", "not-authorized", "system-shutdown", "conflict", "undefined-condition", "not-well-formed", "see-other-host", "reset"});
        Str e = "<stream:error><" + cond + " xmlns='" + NS_STREAM_ERR + "'/>" + (coin(500) ? Str("<text xmlns='") + NS_STREAM_ERR + "'>because</text>" : "") + "</stream:error>";
        if (coin(80)) e = "<stream:error/>";
        x.out(e);
        if (draw(2)) x.out("</stream:stream>");
        if (draw(2)) x.close_tcp();
        return true;
    }
    case 6: did("soup-instead"); x.out(soup()); return true;
    case 7: did("soup-before"); x.out(soup()); return false;
    case 8: did("soup-after"); x.out(reply); { unsigned n = 1 + draw(4); while (n--) x.out(soup()); } return true;
    case 9: did("twice"); x.out(reply); return false;
    case 10: did("mutate"); reply = mutate(reply); return false;
    case 11: { did("garbage"); Str g; unsigned n = 1 + draw(60); while (n--) g += (char)draw(256); x.out(g); return draw(2); }
    case 12: {
        did("delay");
        uint64_t d = 1000 * (1 + draw(40));
        Str r = reply; XServ *px = &x;
        x.at(d, [px, r] { px->out(r); });
        return true;
    }
    case 13: did("stream-end"); if (draw(2)) x.out(reply); x.out("</stream:stream>"); if (draw(2)) x.close_tcp(); return true;
    case 14: {
        if (!(x.tls_up || x.z_on)) { did("soup-instead"); x.out(soup()); return true; }
        did("garbage-under-layer");
        Str g; unsigned n = 1 + draw(80); while (n--) g += (char)draw(256);
        if (coin(300)) g = Str("\x15\x03\x03\x00\x02\x02\x28", 7);
        broken_layer = true;
        x.out_raw(g);
        return true;
    }
    case 15: {
        did("swap");
        static const char *alt[] = {"<success xmlns='urn:ietf:params:xml:ns:xmpp-sasl'/>", "<failure xmlns='urn:ietf:params:xml:ns:xmpp-sasl'><not-authorized/></failure>",
                                    "<challenge xmlns='urn:ietf:params:xml:ns:xmpp-sasl'/>", "<proceed xmlns='urn:ietf:params:xml:ns:xmpp-tls'/>", "<failure xmlns='urn:ietf:params:xml:ns:xmpp-tls'/>",
                                    "<compressed xmlns='http://jabber.org/protocol/compress'/>", "<failure xmlns='http://jabber.org/protocol/compress'/>",
                                    "<iq type='result' id='_xmpp_bind1'/>", "<iq type='error' id='_xmpp_bind1'/>", "<iq type='result' id='_xmpp_session1'/>", "<iq type='error' id='_xmpp_session1'/>", "<iq type='result' id='_xmpp_auth1'/>",
                                    "<enabled xmlns='urn:xmpp:sm:3' id='s1' resume='true'/>", "<enabled xmlns='urn:xmpp:sm:3' resume='true'/>", "<enabled xmlns='urn:xmpp:sm:3'/>", "<failed xmlns='urn:xmpp:sm:3'/>",
                                    "<failed xmlns='urn:xmpp:sm:3'><item-not-found xmlns='urn:ietf:params:xml:ns:xmpp-stanzas'/></failed>", "<failed xmlns='urn:xmpp:sm:3'><feature-not-implemented xmlns='urn:ietf:params:xml:ns:xmpp-stanzas'/></failed>",
                                    "<failed xmlns='urn:xmpp:sm:3'><unexpected-request xmlns='urn:ietf:params:xml:ns:xmpp-stanzas'/></failed>",
                                    "<resumed xmlns='urn:xmpp:sm:3' h='0'/>", "<resumed xmlns='urn:xmpp:sm:3' h='0' previd='s1'/>", "<resumed xmlns='urn:xmpp:sm:3' h='7' previd='x'/>", "<handshake/>", "<stream:features/>",
                                    "<success xmlns='urn:x'/>", "<message type='result' id='_xmpp_bind1'/>", "<iq id='_xmpp_bind1'/>", "<proceed/>", "<success/>"};
        x.out(alt[draw(sizeof alt / sizeof *alt)]);
        return true;
    }
    case 16: did("challenge"); x.out(Str("<challenge xmlns='") + NS_SASL + "'>" + soup_challenge() + "</challenge>"); return true;
    case 17: {
        // features that do not fit what was announced before
        did("features-soup");
        Str f;
        auto add = [&](unsigned p, const Str &e) { if (coin(p)) f += e; };
        add(400, element("starttls", NS_TLS));
        if (coin(500)) { Str m; unsigned n = draw(5); while (n--) m += Str("<mechanism>") + ALLMECH[draw(12)] + "</mechanism>"; f += element("mechanisms", NS_SASL, m); }
        add(500, element("bind", NS_BIND)); add(300, element("session", NS_SESSION)); add(400, element("sm", NS_SM));
        add(300, Str("<compression xmlns='") + NS_FCOMP + "'><method>zlib</method></compression>");
        x.out("<stream:features>" + f + "</stream:features>");
        return true;
    }
    case 18: {
        did("edit-attr");
        // drop or change an attribute of the reply
        size_t p = reply.find("='");
        if (p == Str::npos) return false;
        std::vector<size_t> at2;
        for (; p != Str::npos; p = reply.find("='", p + 1)) at2.push_back(p);
        p = pick(at2);
        size_t b = reply.rfind(' ', p), e = reply.find('\'', p + 2);
        if (b == Str::npos || e == Str::npos) return false;
        if (draw(2)) reply.erase(b, e + 1 - b);
        else reply.replace(p + 2, e - p - 2, pickc({"", "0", "-1", "true", "urn:x", "error", "result", "99999999999"}));
        return false;
    }
    default: did("slow-bytes"); x.frag = 1; return false;
    }
}
