// C13: lifecycle of a connection: one outcome per attempt, deadlines, settings, stream errors.
#include "hist.h"
void hist(const char *prop);

// ---- flags -------------------------------------------------------------------------------
static bool conflict(long f) { return (f & XMPP_CONN_FLAG_DISABLE_TLS) && (f & (XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_LEGACY_SSL | XMPP_CONN_FLAG_TRUST_TLS)); }
static void offline_only(App &A, const char *where)
{
    // called whenever the connection is not disconnected
    long before = xmpp_conn_get_flags(A.conn), f = (long)draw(256);
    int rc = xmpp_conn_set_flags(A.conn, f);
    A.chk("C13", rc != 0, "flags-online", "%s: set_flags(0x%lx) was accepted while the connection is not disconnected", where, f);
    A.chk("C13", xmpp_conn_get_flags(A.conn) == before, "flags-online", "%s: a refused set_flags changed the flags from 0x%lx to 0x%lx", where, before, xmpp_conn_get_flags(A.conn));
    if (draw(2)) {
        xmpp_conn_disable_tls(A.conn);
        A.chk("C13", xmpp_conn_get_flags(A.conn) == before, "flags-online", "%s: disable_tls changed the flags from 0x%lx to 0x%lx while the connection is not disconnected", where, before, xmpp_conn_get_flags(A.conn));
    }
    A.chk("C13", xmpp_conn_get_sm_state(A.conn) == nullptr, "sm-online", "%s: the SM state was handed out while the connection is not disconnected", where);
    static const Str blob("\x1a\0\0\0\0\x1a\0\0\0\0\x7a\0\0\0\x02sm\x9a\0\0\0\0\xba\0\0\0\0", 27);
    rc = xmpp_conn_restore_sm_state(A.conn, (const unsigned char *)blob.data(), blob.size());
    A.chk("C13", rc != 0, "sm-online", "%s: restore_sm_state was accepted while the connection is not disconnected", where);
    xmpp_conn_t *o = xmpp_conn_new(A.ctx);
    xmpp_sm_state_t *st = xmpp_conn_get_sm_state(o);
    if (st) {
        rc = xmpp_conn_set_sm_state(A.conn, st);
        A.chk("C13", rc != 0, "sm-online", "%s: set_sm_state was accepted while the connection is not disconnected", where);
        if (rc) xmpp_free_sm_state(st);
    }
    xmpp_conn_release(o);
    if (!failed()) {
        rc = A.connect();
        A.chk("C13", rc != 0, "connect-while-active", "%s: connect was accepted while an attempt is in progress", where);
        A.state_check(where);
    }
    note("settings tried online");
    if (failed()) throw CaseAbort();
}
static void flags_case()
{
    App A("C13");
    AppCfg c;
    c.raw_default = true;
    app_run(A, [&] {
        A.start(c);
        A.net.cf = XConf();
        conform(A, A.net.cf);
        long cur = 0;
        unsigned n = 40 + draw(120);
        bool twice = draw(2);
        for (unsigned i = 0; i < n; i++) {
            long f = i == 0 && n % 2 ? 0 : (long)draw(256);
            int rc;
            if (!draw(8)) {
                f = cur | XMPP_CONN_FLAG_DISABLE_TLS;
                xmpp_conn_disable_tls(A.conn);
                rc = xmpp_conn_get_flags(A.conn) == f ? 0 : -1;
            } else rc = xmpp_conn_set_flags(A.conn, f);
            long now = xmpp_conn_get_flags(A.conn);
            trace("set_flags 0x%lx -> %d, reads 0x%lx", f, rc, now);
            if (rc == 0) { if (now != f) { fail("flags-readback", "set_flags(0x%lx) was accepted and reads back as 0x%lx", f, now); throw CaseAbort(); } cur = f; note("flag words accepted"); }
            else {
                if (now != cur) { fail("flags-refused-changed", "set_flags(0x%lx) was refused and changed the flags from 0x%lx to 0x%lx", f, cur, now); throw CaseAbort(); }
                if (!conflict(f)) { fail("flags-refused", "set_flags(0x%lx) was refused although nothing in it conflicts", f); throw CaseAbort(); }
                note("flag words refused");
            }
            if (rc == 0 && conflict(f)) note("conflicting flags accepted");
        }
        // they stay what they are over a connection
        xmpp_conn_set_flags(A.conn, 0);
        long f = (long)draw(256);
        if (xmpp_conn_set_flags(A.conn, f) != 0) { f = 0; }
        bool ok = A.connect() == 0;
        if (ok) {
            nontrivial();
            for (unsigned i = 0, k = draw(30); i < k && A.attempt; i++) { if (coin(150)) offline_only(A, "flags program"); if (A.attempt) A.iter(20); }
            if (A.attempt) offline_only(A, "flags program");
            if (xmpp_conn_get_flags(A.conn) != f) { fail("flags-readback", "flags 0x%lx read back as 0x%lx during the connection", f, xmpp_conn_get_flags(A.conn)); throw CaseAbort(); }
            if (A.attempt) A.disconnect();
            A.until([&] { return !A.attempt; }, 40000, 500);
            if (A.attempt) { fail("never-ends", "40 s after xmpp_disconnect no DISCONNECT notification was made"); throw CaseAbort(); }
            if (xmpp_conn_get_flags(A.conn) != f) { fail("flags-readback", "flags 0x%lx read back as 0x%lx after the connection", f, xmpp_conn_get_flags(A.conn)); throw CaseAbort(); }
            long g = (long)draw(256);
            int rc = xmpp_conn_set_flags(A.conn, g);
            if (!conflict(g) && rc != 0) { fail("flags-refused", "set_flags(0x%lx) was refused after the connection ended", g); throw CaseAbort(); }
            if (rc == 0 && xmpp_conn_get_flags(A.conn) != g) { fail("flags-readback", "set_flags(0x%lx) reads back as 0x%lx after a connection", g, xmpp_conn_get_flags(A.conn)); throw CaseAbort(); }
        }
        fingerprint(&f, sizeof f);
        if (want_sample()) sample(fmt("flags program: %u flag words, connection with 0x%lx%s", n, f, ok ? "" : " refused"));
        (void)twice;
        A.finish();
    });
}

// ---- deadlines and stream errors ---------------------------------------------------------------
static const struct { const char *n; int t; } COND[] = {
    {"bad-format", XMPP_SE_BAD_FORMAT}, {"bad-namespace-prefix", XMPP_SE_BAD_NS_PREFIX}, {"conflict", XMPP_SE_CONFLICT}, {"connection-timeout", XMPP_SE_CONN_TIMEOUT}, {"host-gone", XMPP_SE_HOST_GONE},
    {"host-unknown", XMPP_SE_HOST_UNKNOWN}, {"improper-addressing", XMPP_SE_IMPROPER_ADDR}, {"internal-server-error", XMPP_SE_INTERNAL_SERVER_ERROR}, {"invalid-from", XMPP_SE_INVALID_FROM},
    {"invalid-id", XMPP_SE_INVALID_ID}, {"invalid-namespace", XMPP_SE_INVALID_NS}, {"invalid-xml", XMPP_SE_INVALID_XML}, {"not-authorized", XMPP_SE_NOT_AUTHORIZED}, {"policy-violation", XMPP_SE_POLICY_VIOLATION},
    {"remote-connection-failed", XMPP_SE_REMOTE_CONN_FAILED}, {"resource-constraint", XMPP_SE_RESOURCE_CONSTRAINT}, {"restricted-xml", XMPP_SE_RESTRICTED_XML}, {"see-other-host", XMPP_SE_SEE_OTHER_HOST},
    {"system-shutdown", XMPP_SE_SYSTEM_SHUTDOWN}, {"undefined-condition", XMPP_SE_UNDEFINED_CONDITION}, {"unsupported-encoding", XMPP_SE_UNSUPPORTED_ENCODING},
    {"unsupported-stanza-type", XMPP_SE_UNSUPPORTED_STANZA_TYPE}, {"unsupported-version", XMPP_SE_UNSUPPORTED_VERSION}, {"not-well-formed", XMPP_SE_XML_NOT_WELL_FORMED},
    {"xml-not-well-formed", XMPP_SE_XML_NOT_WELL_FORMED}, {"reset", XMPP_SE_UNDEFINED_CONDITION}, {"unsupported-feature", XMPP_SE_UNDEFINED_CONDITION}, {"quota-exceeded-by-far", XMPP_SE_UNDEFINED_CONDITION}};
static const unsigned NCOND = sizeof COND / sizeof *COND;

namespace {
struct Dead {
    App A;
    // plan of the attempt
    int bad_at = -1, inject_at = -1; bool bad_silent = false, bad_edge = false;
    unsigned p_delay = 0;
    int end_mode = 0;            // what the server does with the client's stream end: 0 answers and closes, 1 deaf, 2 answers late, 3 closes only, 4 keeps talking, 5 answers and keeps the TCP connection
    bool raw = false;
    // state of the attempt
    int n_step = 0;
    uint64_t base = 0, dl = 0;   // the wait that will not be satisfied in time: its deadline (0: none)
    Str dl_name;
    uint64_t hdr_at = 0, first_hdr = 0;
    bool mute = false, counted = false;
    bool confused = false;       // late features and new replies cross
    bool stuck = false;          // a reply without a deadline never comes
    unsigned late = 0;           // iterations that began after the deadline
    bool gave_up = false; uint64_t gave_at = 0;
    bool by_legacy = false;
    bool server_ended = false;   // the server did something that ends the stream
    uint64_t user_first = 0, user_last = 0; // xmpp_disconnect
    uint64_t close_low = 0, close_high = 0; // when the graceful close is given up
    unsigned close_late = 0;
    bool inj = false; uint64_t inj_at = 0; std::set<int> inj_types; bool inj_text = false; Str inj_txt;
    Sock *sk = nullptr;
    bool inj_read = false, releasing = false;
    unsigned quiet = 0;          // iterations since everything was read
    uint64_t up_at = 0;
    size_t nconn0 = 0, conns0 = 0;
    unsigned tcp_late = 0;
    std::vector<ConnectPlan> plans; size_t plan_i = 0;
    bool expect_up = true;
    unsigned waits_given_up = 0, waits_met_late = 0, edges = 0, closes_timed = 0, tcp_timed = 0, errors_seen = 0, delays = 0;
    Str story;

    Dead() : A("C13") {}
    XServ *srv() { return A.net.conns.size() > conns0 ? A.net.cur() : nullptr; }
    uint64_t rel(uint64_t t) { return t - SIM_EPOCH; }
    void bug(const char *sig, const char *f, ...) __attribute__((format(printf, 3, 4)))
    {
        char b[1500]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
        fail(sig, "%s", b);
        if (!A.in_cb) throw CaseAbort();
    }
    void inject(XServ &x, uint64_t at)
    {
        Str cond, e;
        uint32_t k = draw(NCOND);
        inj = true; inj_read = inj_text = false; inj_txt.clear(); inj_types = {COND[k].t};
        Str el = fmt("<%s xmlns='%s'/>", COND[k].n, NS_STREAM_ERR);
        if (!strcmp(COND[k].n, "see-other-host")) el = fmt("<see-other-host xmlns='%s'>[2001:db8::7]:5223</see-other-host>", NS_STREAM_ERR);
        Str txt, app;
        if (coin(600)) {
            inj_text = true;
            inj_txt = pickc({"because", "r\xc3\xa9sum\xc3\xa9 <&> \"'", " spaced  out ", "x", "\xf0\x9f\x98\x80", "line\nfeed"});
            if (coin(100)) inj_txt = Str(1000 + draw(9000), 'L');
            txt = fmt("<text xmlns='%s'%s>", NS_STREAM_ERR, coin(500) ? " xml:lang='en'" : "") + (coin(150) ? "<![CDATA[" + inj_txt + "]]>" : xml_esc(inj_txt)) + "</text>";
        }
        if (coin(350)) app = pickc({"<conflict xmlns='urn:app'/>", "<host-gone xmlns='urn:ietf:params:xml:ns:xmpp-stanzas'>x</host-gone>", "<text xmlns='urn:app'>not this</text>", "<why xmlns='urn:app'><bad-format xmlns='urn:ietf:params:xml:ns:xmpp-streams'/></why>",
                              "<detail xmlns='urn:app' code='7'/>"});
        Str in;
        switch (draw(5)) {
        case 0: in = app + el + txt; break;
        case 1: in = el + app + txt; break;
        case 2: in = txt + el + app; break;
        case 3: in = "\n  " + el + "\n  " + txt + "\n  " + app + "\n"; break;
        default: in = el + txt + app;
        }
        if (coin(150)) e = fmt("<error xmlns='%s'>", NS_STREAMS) + in + "</error>";
        else e = "<stream:error>" + in + "</stream:error>";
        trace("  server sends a stream error: %s", esc(e, 300).c_str());
        story += fmt(" stream-error:%s", COND[k].n);
        x.latency = at > sim.now ? at - sim.now : 0;
        x.out(e);
        inj_at = std::max(at, sim.now);
        switch (draw(5)) {
        case 0: break;
        case 1: x.out("</stream:stream>"); server_ended = true; break;
        case 2: x.close_tcp(); server_ended = true; break;
        default: x.out("</stream:stream>"); x.close_tcp(); server_ended = true; break;
        }
        expect_up = false;
    }
    // replies of the server, in order
    bool tweak(XServ &x, const char *step, Str &)
    {
        Str s = step;
        if (s == "failure" || s == "resume-failed" || s == "failed" || s == "handshake-failure" || s == "tls-failure" || s == "badxml") { expect_up = false; trace("  server: %s", step); return false; }
        if (s == "a") return false;
        x.latency = 0;
        uint64_t now = sim.now;
        if (s == "end") {
            int m = end_mode;
            if (server_ended) m = 1;
            if (mute && m != 3) m = 1;
            trace("  server gets the end of the stream, mode %d", m);
            if (m == 1 || m == 4) { x.we_closed = true; return true; } // close_tcp() does nothing then
            if (inj == false && inject_at == -2) { inject(x, now); server_ended = true; x.out("</stream:stream>"); return true; }
            server_ended = true;
            if (m == 2) { uint64_t d = 100 + 100 * draw(30); trace("  ... %llu ms late", (unsigned long long)d); x.latency = d; return false; }
            if (m == 3) return true;
            if (m == 5) { x.out("</stream:stream>"); x.we_closed = true; return true; }
            return false;
        }
        if (mute) return true;
        int k = n_step++;
        uint64_t start = 0;      // when the client began to wait, 0: a wait without deadline
        if (s == "features") start = hdr_at;
        else if (s == "bind" || s == "session" || s == "legacy" || s == "handshake") start = now;
        uint64_t earliest = s == "features" ? hdr_at : now, at = earliest;
        if (k == inject_at && s != "header" && first_hdr) {
            inject(x, earliest);
            if (server_ended || draw(2)) { if (start) { dl = start + 15000; dl_name = s; } else stuck = true; return true; }
        }
        if (k == bad_at && !inj) {
            expect_up = false;
            story += fmt(" %s:%s", step, bad_silent ? "silent" : "late");
            if (start) { dl = start + 15000; dl_name = s; note(fmt("wait given up:%s", step)); }
            else { stuck = true; note(fmt("wait without deadline:%s", step)); }
            if (bad_silent || !start) { trace("  server keeps silent at %s", step); if (s == "header") mute = true; return true; }
            at = start + 15001 + (bad_edge ? draw(3) : draw(20000));
            trace("  server is late at %s: %llu", step, (unsigned long long)rel(at));
        } else if (coin(p_delay)) {
            delays++;
            if (start) { at = start + (coin(250) ? 14990 + draw(10) : small(14990)); if (at >= start + 14990) { note(fmt("in the last 10 ms:%s", step)); edges++; } else if (at > start + 10000) waits_met_late++; }
            else at = now + (coin(300) ? 15000 + draw(25000) : small(14000));
            if (at < earliest) at = earliest;
            trace("  server answers %s at %llu", step, (unsigned long long)rel(at));
            story += fmt(" %s+%llu", step, (unsigned long long)(at - (start ? start : now)));
        }
        if (at < x.last_out) at = x.last_out;
        x.latency = at - now;
        if (s == "header") {
            hdr_at = at;
            if (!first_hdr) first_hdr = at;
            if (x.cf.old_stream && !x.cf.component) { dl = at + 15000; dl_name = "features"; }
        }
        return false;
    }
    void on_event(const Ev &e)
    {
        if (e.type == XMPP_CONN_RAW_CONNECT) {
            xmpp_conn_open_stream_default(A.conn);
            return;
        }
        if (e.type == XMPP_CONN_CONNECT) { up_at = sim.now; return; }
        if (e.type != XMPP_CONN_DISCONNECT) return;
        // stream error
        bool data_left = false;
        if (sk) for (auto &g : sk->rx) if (g.kind == 0) data_left = true;
        if (inj && (inj_read || (!data_left && inj_at <= sim.now && !releasing && (!gave_up || server_ended) && (!close_low || sim.now < close_low)))) {
            errors_seen++;
            A.chk("C13", e.se, "stream-error-lost", "the server's stream error was received and the DISCONNECT notification carries none");
            if (e.se) {
                A.chk("C13", inj_types.count(e.se_type), "stream-error-type", "the stream error is reported with type %d, expected %d", e.se_type, *inj_types.begin());
                if (inj_text) A.chk("C13", e.has_text && e.se_text == inj_txt, "stream-error-text", "the text of the stream error is reported as %s, it is %s", e.has_text ? esc(e.se_text, 100).c_str() : "(none)", esc(inj_txt, 100).c_str());
                else A.chk("C13", !e.has_text || e.se_text.empty(), "stream-error-text", "the stream error has no text, %s is reported", esc(e.se_text, 100).c_str());
            }
        } else if (!inj) A.chk("C13", !e.se, "stale-stream-error", "the DISCONNECT notification carries stream error %d, no stream error was received in this attempt", e.se_type);
    }
    // the client's actions on the wire
    void watch()
    {
        XServ *x = srv();
        if (!x || gave_up) return;
        for (auto &w : x->wire) {
            bool legacy = (w.is("iq") && w.n.child("query", NS_AUTH)) || w.is("auth", NS_SASL); // goes on without the features
            if (w.kind == Wire::CLOSE && !w.srv) { gave_up = true; gave_at = w.t; by_legacy = false; break; }
            if (legacy && dl && dl_name == "features" && w.t >= hdr_at && w.hdr == x->headers) { by_legacy = true; gave_at = w.t; break; }
        }
    }
    // one iteration of the loop, with everything that is judged around it
    void step(unsigned long timeout)
    {
        XServ *x = srv();
        if (x && !x->tls_on) {}
        if (x) x->latency = 0;
        if (x && !sk) sk = x->s;
        uint64_t t0 = sim.now;
        bool was = A.attempt;
        size_t nc = sim.connects.size();
        A.iter(timeout);
        if (!was) return;
        bool left = false;
        if (sk) for (auto &g : sk->rx) if (g.at <= sim.now) left = true;
        quiet = left || sim.now - t0 < timeout ? 0 : quiet + 1;
        if (inj && A.attempt && !left && inj_at <= sim.now) inj_read = true;
        // TCP
        if (!A.n_up && !A.n_raw && !srv() && !user_first) {
            auto &r = sim.connects.back();
            const ConnectPlan &p = plans[std::min(plan_i - 1, plans.size() - 1)];
            bool up_soon = p.mode == 0 && sim.now >= r.t + p.delay;
            if (sim.connects.size() == nc && A.attempt && !up_soon && p.mode == 3 && t0 > r.t + 5000) {
                bug("tcp-timeout-missed", "the connection attempt to %s was started at %llu and is still waited for after an iteration that began at %llu", r.addr.c_str(), (unsigned long long)rel(r.t), (unsigned long long)rel(t0));
            }
        }
        if (sim.connects.size() > nc || (!A.attempt && !x && !user_first)) tcp_moved(nc);
        if (!x && srv()) sk = srv()->s;
        x = srv();
        watch();
        if (by_legacy && dl && dl_name == "features") {
            judge_give_up();
            dl = 0; by_legacy = false; late = 0; // a new wait
            if (sim.next_event() != UINT64_MAX || sk->rx.size()) confused = true;
            note("goes on after missing features");
        }
        bool over = gave_up || !A.attempt;
        uint64_t when = gave_up ? gave_at : sim.now;
        if (over && !user_first && !server_ended && !inj && !confused) {
            if (x || A.attempt) {
                gave_at = when;
                judge_give_up();
            }
        }
        if (dl && !over && !user_first && !server_ended && !inj && t0 > dl) {
            if (++late >= 3) bug("deadline-missed", "the wait for %s began at %llu, its deadline passed at %llu, an iteration that began at %llu leaves it waiting", dl_name.c_str(), (unsigned long long)rel(dl - 15000), (unsigned long long)rel(dl), (unsigned long long)rel(t0));
        }
        // graceful close
        if (gave_up && !close_low) {
            close_low = (user_first ? user_first : dl ? dl : gave_at) + 2000;
            close_high = std::max(gave_at, user_last) + 2000;
        }
        if (user_first && !close_low && x && x->client_closed) {}
        if (close_low && !A.attempt && was && !server_ended && !inj && x) {
            closes_timed++;
            // the deadline for the features can pass in the meantime
            if (A.t_down < close_low && !(dl && A.t_down >= dl)) bug("close-too-early", "the connection was closed at %llu, the stream was ended at %llu and the server did nothing", (unsigned long long)rel(A.t_down), (unsigned long long)rel(close_low - 2000));
        }
        if (close_low) close_high = std::max(gave_at, user_last) + 2000;
        uint64_t hi = close_high;
        if (first_hdr && first_hdr <= sim.now && user_first) hi = std::max(hi, first_hdr + 2000);
        if (close_high && A.attempt && t0 > hi + 1 && ++close_late >= 2)
            bug("close-timeout-missed", "the stream was ended at %llu, the server does not answer, and the connection is still there after an iteration that began at %llu", (unsigned long long)rel(hi - 2000), (unsigned long long)rel(t0));
        if (up_at && x && A.attempt && !gave_up && !user_first && !server_ended && x->client_closed) bug("gave-up-unprovoked", "the client closed the connection");
    }
    void judge_give_up()
    {
        if (!dl) bug("gave-up-unprovoked", "the client ended the stream at %llu (the server answers everything in time%s)", (unsigned long long)rel(gave_at), stuck ? " or waits without a deadline" : "");
        if (gave_at < dl) bug("gave-up-early", "the wait for %s began at %llu and was given up at %llu, before its deadline", dl_name.c_str(), (unsigned long long)rel(dl - 15000), (unsigned long long)rel(gave_at));
        if (!counted) waits_given_up++;
        counted = true;
    }
    void tcp_moved(size_t nc)
    {
        if (!nc) return;
        auto &r = sim.connects[nc - 1];
        if (nc - 1 < nconn0) return;
        const ConnectPlan &p = plans[std::min(nc - 1 - nconn0, plans.size() - 1)];
        uint64_t t = sim.now;
        if (sim.connects.size() > nc) t = sim.connects[nc].t;
        if (p.mode == 3 || p.mode == 0) {
            if (p.mode == 3) tcp_timed++;
            if (t < r.t + 5000) bug("tcp-timeout-early", "the connection attempt to %s was started at %llu and given up at %llu", r.addr.c_str(), (unsigned long long)rel(r.t), (unsigned long long)rel(t));
            if (p.mode == 0) bug("tcp-gave-up", "the connection to %s is accepted after %llu ms and the client gave it up", r.addr.c_str(), (unsigned long long)p.delay);
        }
    }
    void gap()
    {
        // the application is busy; nothing arrives meanwhile
        if (!quiet) return;
        uint64_t ne = sim.next_event(), room = ne == UINT64_MAX ? 9000 : ne - sim.now;
        if (room < 2) return;
        uint64_t g = 1 + draw((uint32_t)std::min<uint64_t>(room - 1, 9000));
        trace("  APP: is busy for %llu ms", (unsigned long long)g);
        sim.advance(sim.now + g);
    }
    void user_disconnect(const char *why)
    {
        if (!A.attempt) return;
        if (!user_first) { user_first = sim.now; if (gave_up && dl) user_first = std::min(user_first, dl); }
        user_last = sim.now;
        A.disconnect();
        if (!srv()) close_low = 0;
        story += fmt(" %s", why);
    }
    void attempt()
    {
        n_step = 0; dl = 0; hdr_at = first_hdr = 0; stuck = mute = counted = confused = false; late = 0; gave_up = by_legacy = server_ended = false; gave_at = 0; user_first = user_last = close_low = close_high = 0; close_late = 0;
        inj = inj_read = releasing = false; inj_at = 0; sk = nullptr; quiet = 0; up_at = 0; tcp_late = 0; expect_up = true; plan_i = 0;
        bad_at = -1; inject_at = -1;
        uint32_t what = weighted({3, 4, 3, 2, 2}); // 0 nothing, 1 a wait is not satisfied, 2 a stream error, 3 user disconnect in mid-negotiation, 4 TCP
        uint32_t at = draw(14);
        if (what == 1) { bad_at = (int)at; bad_silent = draw(2); bad_edge = draw(2); }
        if (what == 2) inject_at = coin(150) ? -2 : (int)at;
        p_delay = (unsigned)weighted({2, 1, 1}) * 300;
        end_mode = (int)weighted({4, 4, 2, 1, 2, 1});
        unsigned user_iter = what == 3 ? 1 + draw(40) : 0;
        bool user_twice = coin(200);
        // addresses
        plans.clear();
        unsigned naddr = 1 + (unsigned)weighted({5, 2, 1});
        bool all_hang = what == 4 && coin(300);
        for (unsigned i = 0; i < naddr; i++) {
            ConnectPlan p;
            if (what == 4 && (all_hang || i + 1 < naddr || coin(200))) p.mode = (int)pickc({"\3", "\3", "\1", "\2"})[0];
            p.delay = p.mode == 2 ? small(4000) : p.mode == 0 && (what == 4 || coin(200)) ? (coin(300) ? 4900 + draw(99) : small(4900)) : 0;
            plans.push_back(p);
            if (p.mode == 0) { naddr = i + 1; break; }
        }
        bool can_up = plans.back().mode == 0;
        if (!can_up) expect_up = false;
        sim.resolve = [naddr](const Str &, std::vector<Addr> &v) { for (unsigned i = 0; i < naddr; i++) v.push_back({false, fmt("192.0.2.%u", i + 1)}); return true; };
        sim.plan = [this](const Str &, int) { size_t i = plan_i++; return i < plans.size() ? plans[i] : ConnectPlan{1}; };
        nconn0 = sim.connects.size(); conns0 = A.net.conns.size();
        server();
        A.net.tweak = [this](XServ &x, const char *s, Str &r) { return tweak(x, s, r); };
        int rc = A.connect();
        if (rc != 0) { if (!(sim.connects.size() > nconn0 && !can_up)) bug("connect-refused", "connect returned %d", rc); note("connect refused"); return; }
        nontrivial();
        uint64_t t_begin = sim.now;
        unsigned it = 0, gaps = coin(400) ? 150 : 0, lull = 0;
        unsigned long slice = 20 + draw(coin(500) ? 980 : 200);
        unsigned p_off = coin(150) ? 60 : 0;
        while (A.attempt && !up_at && sim.now - t_begin < 400000) {
            if (++it > 25000) break;
            step(slice);
            if (A.attempt && user_iter && it >= user_iter && (it == user_iter || (user_twice && coin(100)))) user_disconnect(srv() ? "disconnect-in-negotiation" : "disconnect-in-connecting");
            if (A.attempt && p_off && coin(p_off)) offline_only(A, "during negotiation");
            if (A.attempt && gaps && coin(gaps)) gap();
            bool idle = sim.next_event() == UINT64_MAX && quiet >= 1;
            lull = idle && !dl && !user_first && !gave_up && srv() ? lull + 1 : 0;
            if (lull > 3 && sim.now - t_begin > 1000 && (stuck || inj || lull * slice > 30000)) break;
        }
        if (A.attempt && !up_at && expect_up && !user_first) bug("not-reached", "the server answers everything in time and %llu s after the connection attempt it is not up", (unsigned long long)((sim.now - t_begin) / 1000));
        if (!A.attempt && expect_up && !user_first && !server_ended) bug("gave-up-unprovoked", "the server answers everything in time and the attempt ends");
        if (A.attempt && stuck && !inj && !user_first) { uint64_t e = sim.now + 40000 + draw(20000); while (A.attempt && sim.now < e) step(slice); note("silence without a deadline survived"); }
        if (A.attempt && up_at && !user_first) {
            note("reached CONNECT");
            uint64_t e = sim.now + (coin(500) ? 60000 + draw(100000) : draw(3000));
            unsigned drops = 0;
            while (A.attempt && sim.now < e) {
                step(slice);
                if (!A.attempt) break;
                if (gaps && coin(gaps)) gap();
                if (p_off && coin(p_off)) offline_only(A, "while connected");
                XServ *x = srv();
                if (x && !server_ended && coin(10)) x->send_stanza("<message id='m1' from='a@b'><body>x</body></message>");
                if (x && !server_ended && !inj && inject_at >= 0 && coin(40)) { inject(*x, sim.now + small(2000)); break; }
                if (coin(10) && drops++ < 5) A.send_user();
            }
        }
        // the end
        if (!A.attempt) { settle(); return; }
        if (coin(100)) { releasing = true; A.release(); story += " release"; A.new_conn(); return; }
        if (server_ended) {
            uint64_t e = sim.now + 60000;
            while (A.attempt && sim.now < e) step(slice);
            if (A.attempt) bug("end-ignored", "the server ended the stream and 60 s later no DISCONNECT notification was made");
            settle();
            return;
        }
        if (!user_first && !gave_up) {
            if (up_at && srv() && coin(200)) {
                XServ *x = srv();
                server_ended = true;
                int m = (int)draw(3);
                if (m != 1) x->out("</stream:stream>");
                if (m != 0) x->close_tcp(m == 1 && draw(2));
                uint64_t t = sim.now;
                while (A.attempt && sim.now < t + 10000) step(slice);
                if (A.attempt) bug("end-ignored", "the server ended the stream and 10 s later no DISCONNECT notification was made");
                settle();
                return;
            }
            user_disconnect("disconnect");
        }
        uint64_t e = sim.now + 120000;
        bool talk = end_mode == 4;
        while (A.attempt && sim.now < e) {
            step(slice);
            if (!A.attempt) break;
            XServ *x = srv();
            if (talk && x && !server_ended && x->client_closed && coin(300)) { note("server talks on during the close"); x->out("<message id='m2' from='a@b'><body>late</body></message>"); }
            if (user_twice && coin(50)) user_disconnect("again");
            if (p_off && A.attempt && coin(p_off)) offline_only(A, "while closing");
        }
        if (A.attempt) bug("never-ends", "120 s after the end of the stream no DISCONNECT notification was made");
        settle();
    }
    // nothing more comes after the end
    void settle()
    {
        size_t n = A.evs.size();
        unsigned k = 1 + draw(4);
        while (k--) A.iter(draw(2) ? 10 : 3000);
        if (A.evs.size() != n) bug("event-after-end", "a notification was made after the attempt had ended");
    }
    void server()
    {
        XConf &x = A.net.cf;
        conform(A, x);
        const AppCfg &c = A.cfg;
        if (c.kind == 1) return;
        bool need_tls = c.flags & (XMPP_CONN_FLAG_MANDATORY_TLS | XMPP_CONN_FLAG_LEGACY_SSL);
        x.tls = need_tls || coin(400);
        std::vector<Str> m;
        switch (draw(5)) {
        case 0: m = {"PLAIN"}; break;
        case 1: m = {"DIGEST-MD5"}; break;
        case 2: m = {"SCRAM-SHA-1"}; break;
        case 3: m = {"SCRAM-SHA-256", "PLAIN"}; break;
        default: m = {"DIGEST-MD5", "SCRAM-SHA-512", "PLAIN"};
        }
        if (c.anon) m = {"ANONYMOUS"};
        x.mech_plain = x.mech_tls = m;
        x.zlib = coin(500);
        x.sm = coin(500);
        x.session = (int)draw(3);
        x.charset = true; x.have_realm = true; x.qop = "auth";
        if ((c.flags & XMPP_CONN_FLAG_LEGACY_AUTH) && !c.anon && !need_tls && !c.user.empty() && !c.resource.empty() && c.kind == 0) {
            uint32_t k = draw(4);
            if (k == 0) { x.tls = false; x.old_stream = true; }
            else if (k == 1) { x.tls = false; x.mech_plain.clear(); x.mech_tls.clear(); }
        } else if (c.kind == 0 && coin(40)) { x.tls = false; x.old_stream = true; expect_up = false; note("no features and no legacy authentication"); }
        trace("server: tls %d legacy_ssl %d mechs %s zlib %d session %d sm %d old %d", x.tls, x.legacy_ssl, x.mech_plain.empty() ? "-" : x.mech_plain[0].c_str(), x.zlib, x.session, x.sm, x.old_stream);
    }
    void run()
    {
        AppCfg c = gen_app({8, 3, 0});
        c.has_pass = true; c.certfail = 0; c.alt = ""; c.client_cert = false;
        A.start(c);
        A.on_ev = [this](const Ev &e) { on_event(e); };
        trace("app: kind %d jid %s flags 0x%lx", c.kind, c.jid.c_str(), c.flags);
        unsigned n = 1 + weighted({4, 3, 2});
        for (unsigned i = 0; i < n; i++) {
            story += fmt("%s[%u:", i ? " " : "", i + 1);
            attempt();
            story += "]";
            if (failed()) throw CaseAbort();
        }
        note("waits given up at the deadline", waits_given_up);
        note("replies in the last third of a wait", waits_met_late + edges);
        note("graceful closes timed out", closes_timed);
        note("TCP attempts timed out", tcp_timed);
        note("stream errors reported", errors_seen);
        fingerprint(story);
        if (want_sample()) sample(fmt("kind %d flags 0x%lx %s", c.kind, c.flags, story.c_str()));
        A.finish();
    }
};
}
static void c13()
{
    switch (weighted({80, 620, 300})) {
    case 0: flags_case(); break;
    case 1: { Dead d; app_run(d.A, [&] { d.run(); }); break; }
    default: hist("C13");
    }
}
PROP(c13, "C13", c13, 30000, 1000000, "one of three kinds of histories: flag programs over one connection; one to three connection attempts on a virtual clock against a server that is late, silent, closes, sends stream errors or hangs at a drawn "
     "point; connection histories as in C01 (non-trivial: an attempt was accepted)", 0, nullptr, 30, {"the application runs the event loop; deadlines are judged at the first iterations after them"});
