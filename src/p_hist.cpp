// Whole connection histories against a conforming or deviating server: C01, C02, C03, C12, C13.
#include "hist.h"

// ---- monitors over the time line -------------------------------------------------------------
static bool is_strong(const Str &m0)
{
    Str m = m0; for (auto &c : m) c = toupper(c);
    return m == "SCRAM-SHA-1" || m == "SCRAM-SHA-256" || m == "SCRAM-SHA-512" || m == "DIGEST-MD5";
}
static bool ieq(const Str &a, const Str &b) { return !strcasecmp(a.c_str(), b.c_str()); }
static void offered_mechs(const Node &f, std::vector<Str> &out)
{
    for (auto &k : f.kids) if (!k.text && k.name == "mechanisms" && k.ns == NS_SASL) for (auto &m : k.kids) if (!m.text && m.name == "mechanism") out.push_back(m.deep_text());
}
void mon_c02(App &a, XServ &x)
{
    const AppCfg &c = a.cfg_at(x);
    Str who = fmt("connection %d", x.index);
    bool client = c.kind != 1;
    bool mand = client && (c.flags & XMPP_CONN_FLAG_MANDATORY_TLS), dis = c.flags & XMPP_CONN_FLAG_DISABLE_TLS;
    Str plainmsg = b64enc(Str(1, '\0') + c.user + Str(1, '\0') + c.pass);
    if (mand && c.has_pass) {
        a.chk("C02", x.plain.find(c.pass) == Str::npos && x.plain.find(xml_esc(c.pass)) == Str::npos && x.plain.find(plainmsg) == Str::npos, "password-in-clear", "%s: TLS is mandatory and the password was sent before TLS", who.c_str());
    }
    if (dis || c.kind == 1) a.chk("C02", x.plain.empty() || x.plain[0] != 0x16, "tls-although-disabled", "%s: TLS is disabled and a ClientHello was sent", who.c_str());
    bool strong = false, after_header = false, any_header = false;
    for (auto &w : x.wire) {
        if (w.srv && w.sis("features", NS_STREAMS) && after_header) {
            std::vector<Str> m; offered_mechs(w.n, m);
            for (auto &q : m) if (is_strong(q) || (c.client_cert && ieq(q, "EXTERNAL"))) strong = true;
            after_header = false;
        }
        if (w.srv) continue;
        if (w.kind == Wire::HEADER) { after_header = any_header = true; continue; }
        if (w.kind != Wire::EL) continue;
        bool auth = w.is("auth", NS_SASL), resp = w.is("response", NS_SASL);
        bool legacy = w.is("iq") && w.n.child("query", NS_AUTH);
        if (mand) a.chk("C02", w.tls || !(auth || resp || legacy), "auth-in-clear", "%s: TLS is mandatory and %s was sent in the clear", who.c_str(), esc(w.raw, 200).c_str());
        if (dis) a.chk("C02", !w.is("starttls", NS_TLS), "starttls-although-disabled", "%s: TLS is disabled and STARTTLS was requested", who.c_str());
        if (auth && client) {
            const Str *m = w.n.attr("mechanism");
            if (m && ieq(*m, "PLAIN")) {
                a.chk("C02", !strong, "plain-downgrade", "%s: PLAIN was used although a stronger supported mechanism had been offered on this connection", who.c_str());
                note("PLAIN used");
            }
        }
        if (legacy) {
            a.chk("C02", c.kind != 1 && (c.flags & XMPP_CONN_FLAG_LEGACY_AUTH), "legacy-auth", "%s: legacy authentication without the flag", who.c_str());
            note("legacy auth used");
        }
        bool plain_auth = auth && w.n.attr("mechanism") && ieq(*w.n.attr("mechanism"), "PLAIN");
        if (c.has_pass && !legacy) a.chk("C02", w.raw.find(c.pass) == Str::npos && w.raw.find(xml_esc(c.pass)) == Str::npos, "password-in-element", "%s: the password appears in %s", who.c_str(), esc(w.raw, 200).c_str());
        if (c.has_pass && !plain_auth) a.chk("C02", w.raw.find(plainmsg) == Str::npos, "password-in-element", "%s: the PLAIN message appears in %s", who.c_str(), esc(w.raw, 200).c_str());
    }
    (void)any_header;
}
void mon_c03(App &a, XServ &x, bool strict)
{
    const AppCfg &c = a.cfg_at(x);
    Str who = fmt("connection %d", x.index);
    if (x.ambiguous) { note("bytes in flight over a stream restart"); return; }
    bool dispute = false;        // the two XML readers disagree about our bytes
    int hdr = 0;
    bool starttls_off = false, zlib_off = false, bind_off = false, sess_off = false, sm_off = false; // current offers
    std::vector<Str> mechs;                                          // on the whole connection
    bool layer = false;          // a layer change since the last client header
    bool proceed = false, cl_auth = false, success = false, bindreq = false, bindres = false, sessreq = false, sessres = false, legacyreq = false, legacyres = false;
    bool resumereq = false, resumed = false, hs = false, hsack = false, enabled = false, up = false, starttls_used = false, comp_seen = false;
    int challenges = 0, responses = 0, rs = 0, as = 0, ups = 0;
    bool raw = c.kind == 2;
    std::vector<const Wire *> client_after_layer;
    bool need_hdr = false;
    for (auto &w : x.wire) {
        if (dispute) return;
        if (w.kind == Wire::ERR) continue;
        if (w.srv) {
            if (w.kind != Wire::EL) continue;
            if (w.sis("features", NS_STREAMS)) {
                for (auto &k : w.n.kids) {
                    if (k.text) continue;
                    if (k.name == "starttls" && k.ns == NS_TLS) starttls_off = true;
                    if (k.name == "bind" && k.ns == NS_BIND) bind_off = true;
                    if (k.name == "session" && k.ns == NS_SESSION) sess_off = true;
                    if (k.name == "sm" && k.ns == NS_SM) sm_off = true;
                    if (k.name == "compression" && k.ns == NS_FCOMP) for (auto &m : k.kids) if (!m.text && m.name == "method" && ieq(m.deep_text(), "zlib")) zlib_off = true;
                }
                offered_mechs(w.n, mechs);
            }
            if (w.sis("proceed", NS_TLS)) { proceed = layer = true; if (starttls_used && strict) need_hdr = true; }
            if (w.sis("success", NS_SASL) && (cl_auth || !strict)) { success = layer = true; if (strict) need_hdr = true; }
            if (w.sis("compressed", NS_COMP) && (comp_seen || !strict)) { layer = true; if (strict) need_hdr = true; }
            if (w.sis("challenge", NS_SASL)) challenges++;
            if (w.sis("r", NS_SM)) rs++;
            if (w.sis("resumed", NS_SM)) resumed = true;
            if (w.sis("enabled", NS_SM)) enabled = true;
            if (w.sis("handshake")) hsack = true;
            if (w.sis("iq")) {
                const Str *t = w.n.attr("type"), *id = w.n.attr("id");
                if (t && id && *t == "result") {
                    if (*id == "_xmpp_bind1") bindres = true;
                    if (*id == "_xmpp_session1") sessres = true;
                    if (*id == "_xmpp_auth1") legacyres = true;
                }
            }
            continue;
        }
        auto bad = [&](bool ok, const char *sig, const Str &m) { a.chk("C03", ok, sig, "%s: %s", who.c_str(), m.c_str()); };
        if (w.kind == Wire::EVENT) {
            if (w.ev == XMPP_CONN_CONNECT) {
                up = true; ups++;
                if (raw) continue;
                bad(ups == 1, "connect-twice", "CONNECT was notified twice");
                if (c.kind == 1) bad((hs || !strict) && hsack, "connect-early", "the component was reported connected before the handshake was acknowledged");
                else {
                    bool lax = !strict; // a reply can overtake a request that is still queued
                    bool ok = ((legacyreq || lax) && legacyres) || (success && (((bindreq || lax) && bindres && (!sessreq || sessres)) || ((resumereq || lax) && resumed)));
                    bad(ok, "connect-early", fmt("CONNECT was notified but negotiation is incomplete (auth success %d, bind %d/%d, session %d/%d, resume %d/%d, legacy %d/%d)", success, bindreq, bindres, sessreq, sessres, resumereq, resumed, legacyreq, legacyres));
                }
            } else if (w.ev == XMPP_CONN_RAW_CONNECT) up = true;
            continue;
        }
        if (w.kind == Wire::HEADER) {
            hdr++;
            const Str *to = w.n.attr("to"), *from = w.n.attr("from");
            Str wantto = c.kind == 1 ? c.jid : c.domain;
            bad(to && *to == wantto, "header-to", fmt("stream header %d is addressed to '%s' instead of '%s'", hdr, to ? to->c_str() : "(nothing)", wantto.c_str()));
            if (from && c.kind != 1) {
                bad(w.tls, "header-from", fmt("stream header %d reveals the user's address '%s' on an unencrypted stream", hdr, from->c_str()));
                bad(*from == c.user + "@" + c.domain || (c.anon && *from == c.domain), "header-from", fmt("stream header %d comes from '%s'", hdr, from->c_str()));
            }
            if (w.n.name != "stream" || w.n.ns != NS_STREAMS) bad(false, "header-name", "the stream element is " + w.n.show());
            if (hdr > 1) bad(layer, "header-unprompted", fmt("stream header %d was sent without a change of the security layer since header %d", hdr, hdr - 1));
            if (layer || hdr == 1) { starttls_off = zlib_off = bind_off = sess_off = sm_off = false; }
            layer = need_hdr = false;
            starttls_used = false;
            continue;
        }
        if (w.kind == Wire::CLOSE) { need_hdr = false; continue; }
        if (w.kind == Wire::JUNK) continue;
        const Node &n = w.n;
        bool serr = n.name == "error" && n.ns == NS_STREAMS;
        if (hdr == 0) bad(false, "before-header", "an element was sent before the stream header");
        if (need_hdr && !serr && strict) bad(false, "no-restart", "after a security-layer change the client sent " + esc(w.raw, 200) + " instead of a new stream header");
        if (w.is("starttls", NS_TLS)) {
            bad(starttls_off, "starttls-not-offered", "STARTTLS was requested but not offered");
            bad(!w.tls, "starttls-twice", "STARTTLS was requested on a secured stream");
            if (strict) bad(!starttls_used, "starttls-twice", "STARTTLS was requested twice on one stream");
            starttls_used = true;
            note("negotiated: starttls");
        } else if (w.is("auth", NS_SASL)) {
            const Str *m = n.attr("mechanism");
            bool ok = false;
            for (auto &q : mechs) if (m && ieq(q, *m)) ok = true;
            if (!raw) bad(ok, "mech-not-offered", fmt("mechanism '%s' was chosen but not offered on this connection", m ? m->c_str() : ""));
            if (strict) bad(!success, "auth-after-success", "authentication was started again after success");
            cl_auth = true;
            note("negotiated: auth " + Str(m ? *m : ""));
        } else if (w.is("response", NS_SASL)) {
            responses++;
            bad(responses <= challenges, "response-without-challenge", "a SASL response was sent without a challenge");
        } else if (w.is("compress", NS_COMP)) {
            bad(zlib_off, "compress-not-offered", "compression was requested but not offered on this stream");
            bad(c.flags & XMPP_CONN_FLAG_ENABLE_COMPRESSION, "compress-not-enabled", "compression was requested but not enabled by the user");
            bad(success, "compress-early", "compression was requested before authentication succeeded");
            comp_seen = true;
            note("negotiated: compress");
        } else if (w.is("iq") && n.child("bind", NS_BIND)) {
            bad(bind_off, "bind-not-offered", "resource binding was requested but not offered on this stream");
            bad(success, "bind-early", "resource binding was requested before authentication succeeded");
            const Node *r = n.child("bind", NS_BIND)->child("resource");
            Str got = r ? r->deep_text() : "";
            bad(got == c.resource, "bind-resource", fmt("the bind request asks for resource '%s', configured is '%s'", esc(got).c_str(), esc(c.resource).c_str()));
            if (strict) bad(!bindreq, "bind-twice", "resource binding was requested twice");
            bindreq = true;
            note("negotiated: bind");
        } else if (w.is("iq") && n.child("session", NS_SESSION)) {
            bad(sess_off, "session-not-offered", "a session was requested but not offered on this stream");
            bad((bindreq || !strict) && bindres, "session-early", "a session was requested before the bind result");
            sessreq = true;
            note("negotiated: session");
        } else if (w.is("iq") && n.child("query", NS_AUTH)) {
            bad(c.flags & XMPP_CONN_FLAG_LEGACY_AUTH, "legacy-auth", "legacy authentication without the flag");
            legacyreq = true;
            note("negotiated: legacy auth");
        } else if (n.ns == NS_SM) {
            if (n.name == "enable") {
                bad(sm_off, "enable-not-offered", "stream management was enabled but not offered on this stream");
                bad(!(c.flags & XMPP_CONN_FLAG_DISABLE_SM), "enable-disabled", "stream management was enabled although the user disabled it");
                bad((bindreq || !strict) && bindres && (!sessreq || sessres), "enable-early", "stream management was enabled before a resource was bound");
                note("negotiated: sm enable");
            } else if (n.name == "resume") {
                bad(sm_off, "resume-not-offered", "resumption was requested but stream management was not offered on this stream");
                bad(!(c.flags & XMPP_CONN_FLAG_DISABLE_SM), "resume-disabled", "resumption was requested although the user disabled stream management");
                bad(success, "resume-early", "resumption was requested before authentication succeeded");
                bad(x.index > 0 || a.restored, "resume-nothing", "resumption was requested without an earlier session");
                resumereq = true;
                note("negotiated: sm resume");
            } else if (n.name == "a") {
                as++;
                bad(as <= rs, "ack-unprompted", "<a/> was sent without <r/>");
            } else if (n.name == "r") {
                bad(enabled || resumed, "ack-request-early", "<r/> was sent before stream management was enabled on this connection");
            } else bad(false, "unexpected-sm", "unexpected stream management element " + esc(w.raw, 200));
        } else if (c.kind == 1 && n.name == "handshake") {
            hs = true;
            note("negotiated: component handshake");
        } else if (serr) {
        } else if (!up) {
            bad(false, "data-before-connect", esc(w.raw, 200) + " was sent before the connection was reported up");
        } else note("user stanza on the wire");
    }
}

// ---- the scenario -------------------------------------------------------------------------------
struct Hist {
    App a;
    Deviate dev;
    bool in_connect_cb = false;
    unsigned ops = 0;
    bool user_ended = false;
    Hist(const char *p) : a(p) {}
    bool on(const char *p) { return a.on(p); }
    void user_op();
    void probe();
    void cycle();
    void end_cycle(bool gently);
    void final_connect();
    void run();
    // C12
    unsigned refs = 0;           // further references to the connection
    std::vector<xmpp_tlscert_t *> certs;
    std::vector<xmpp_sm_state_t *> sms;
    std::vector<char *> texts;
    void reconfigure();
    void object_op();
    void handover();
    void drop_refs();
};
static int nop_handler(xmpp_conn_t *, xmpp_stanza_t *, void *) { return 1; }
static int nop_timed(xmpp_conn_t *, void *ud) { return ud != nullptr; }
static int nop_global(xmpp_ctx_t *, void *ud) { return ud != nullptr; }
// what an application does with objects (C12)
void Hist::object_op()
{
    App &A = a;
    ops++;
    switch (draw(9)) {
    case 0: {
        xmpp_tlscert_t *c = xmpp_conn_get_peer_cert(A.conn);
        trace("  APP: get_peer_cert -> %s", c ? "one" : "none");
        if (!c) break;
        note("peer certificates");
        for (int i = 0; i < XMPP_CERT_ELEMENT_MAX; i++) { const char *t = xmpp_tlscert_get_string(c, (xmpp_cert_element_t)i); if (t) (void)strlen(t); }
        if (draw(2)) certs.push_back(c); else xmpp_tlscert_free(c);
        break;
    }
    case 1: {
        if (!A.cfg.client_cert) break;
        unsigned n = xmpp_conn_cert_xmppaddr_num(A.conn);
        trace("  APP: %u xmppAddr", n);
        for (unsigned i = 0; i < n; i++) { char *t = xmpp_conn_cert_xmppaddr(A.conn, i); if (t) xmpp_free(A.ctx, t); }
        break;
    }
    case 2:
        if (refs && draw(2)) { refs--; int r = xmpp_conn_release(A.conn); trace("  APP: releases a reference"); A.chk("C12", r == 0, "released-early", "releasing one of several references returned %d", r); }
        else if (refs < 3) { refs++; xmpp_conn_t *c = xmpp_conn_clone(A.conn); trace("  APP: clones the connection"); A.chk("C12", c == A.conn, "clone", "xmpp_conn_clone returned another object"); }
        break;
    case 3: {
        static const char *N[] = {nullptr, "a", "message"};
        switch (draw(8)) {
        case 0: case 1: xmpp_handler_add(A.conn, nop_handler, N[draw(3)], N[draw(3)], N[draw(3)], draw(2) ? this : nullptr); break;
        case 2: xmpp_id_handler_add(A.conn, nop_handler, pickc({"i1", "i2", "s1"}), draw(2) ? this : nullptr); break;
        case 3: xmpp_timed_handler_add(A.conn, nop_timed, 1 + draw(500), draw(2) ? this : nullptr); break;
        case 4: xmpp_handler_delete(A.conn, nop_handler); break;
        case 5: xmpp_id_handler_delete(A.conn, nop_handler, pickc({"i1", "i2", "s1"})); break;
        case 6: xmpp_timed_handler_delete(A.conn, nop_timed); break;
        default: if (draw(2)) xmpp_global_timed_handler_add(A.ctx, nop_global, 1 + draw(500), draw(2) ? this : nullptr); else xmpp_global_timed_handler_delete(A.ctx, nop_global);
        }
        break;
    }
    case 4: {
        xmpp_stanza_t *iq = xmpp_iq_new(A.ctx, "set", "obj"), *q = xmpp_stanza_new(A.ctx);
        xmpp_stanza_set_name(q, "query"); xmpp_stanza_set_ns(q, "urn:x");
        bool clone = draw(2);
        xmpp_stanza_add_child_ex(iq, q, clone);
        if (draw(2)) { xmpp_send(A.conn, iq); if (clone) xmpp_stanza_release(q); xmpp_stanza_release(iq); }
        else { if (clone) { xmpp_stanza_release(q); q = xmpp_stanza_clone(xmpp_stanza_get_children(iq)); } xmpp_stanza_release(iq); if (clone) { xmpp_send(A.conn, q); xmpp_stanza_release(q); } }
        break;
    }
    case 5: if (A.attempt && A.n_up && !draw(4)) { xmpp_send_error(A.conn, (xmpp_error_type_t)draw(XMPP_SE_XML_NOT_WELL_FORMED + 1), draw(2) ? (char *)"text" : nullptr); trace("  APP: sends a stream error"); } break;
    case 6:
        if (A.attempt) break;
        if (!A.cfg.jid.empty()) xmpp_conn_set_jid(A.conn, A.cfg.jid.c_str());
        if (A.cfg.has_pass) xmpp_conn_set_pass(A.conn, A.cfg.pass.c_str());
        if (A.cfg.cafile) xmpp_conn_set_cafile(A.conn, ca_file());
        xmpp_conn_set_capath(A.conn, ca_dir());
        trace("  APP: sets everything again");
        break;
    case 7: {
        if (!A.attempt) { handover(); break; }
        xmpp_sm_state_t *st = xmpp_conn_get_sm_state(A.conn);
        A.chk("C13", !st, "sm-online", "get_sm_state detached the state of a connection in use");
        if (st) xmpp_free_sm_state(st);
        break;
    }
    default: {
        char *t = xmpp_conn_send_queue_drop_element(A.conn, draw(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        if (t) { if (draw(2)) xmpp_free(A.ctx, t); else texts.push_back(t); }
    }
    }
}
// the user changes settings between two connections
void Hist::reconfigure()
{
    App &A = a;
    if (!A.conn || A.attempt) return;
    AppCfg &c = A.cfg;
    note("settings changed between connections");
    if (coin(600)) {
        long f = gen_flags();
        int rc = xmpp_conn_set_flags(A.conn, f);
        A.chk("C13", rc == 0, "flags-offline", "set_flags(0x%lx) was refused while disconnected (%d)", f, rc);
        A.chk("C13", xmpp_conn_get_flags(A.conn) == f, "flags-readback", "set_flags(0x%lx), get_flags returns 0x%lx", f, xmpp_conn_get_flags(A.conn));
        c.flags = f;
    }
    if (!c.anon && coin(300)) {
        c.resource = pickc({"", "other", "Desk top", "r/s@t"});
        c.jid = c.user + "@" + c.domain + (c.resource.empty() ? "" : "/" + c.resource);
        xmpp_conn_set_jid(A.conn, c.jid.c_str());
    }
    if (c.has_pass && coin(300)) {
        c.pass = pickc({"password-Xy12", "another one 77", "0123456789012345678901234567890123456789"});
        xmpp_conn_set_pass(A.conn, c.pass.c_str());
    }
    trace("  APP: settings now flags 0x%lx jid %s pass %s", c.flags, c.jid.c_str(), c.pass.c_str());
}
void Hist::drop_refs()
{
    while (refs) { refs--; int r = xmpp_conn_release(a.conn); a.chk("C12", r == 0, "released-early", "releasing one of several references returned %d", r); }
}
// the stream management state moves while no connection is in use
void Hist::handover()
{
    App &A = a;
    if (A.attempt || !A.conn) return;
    if (A.have_blob && coin(250)) {
        int r = xmpp_conn_restore_sm_state(A.conn, (const unsigned char *)A.last_blob.data(), A.last_blob.size());
        trace("  APP: restore_sm_state -> %d", r);
        if (r == 0) note("SM state restored");
        return;
    }
    xmpp_sm_state_t *st = xmpp_conn_get_sm_state(A.conn);
    if (!st && !sms.empty() && coin(500)) { st = sms.back(); sms.pop_back(); }
    trace("  APP: get_sm_state -> %s", st ? "one" : "none");
    if (!st) return;
    note("SM state detached");
    switch (draw(5)) {
    case 0: xmpp_free_sm_state(st); return;
    case 1: sms.push_back(st); return;
    case 2: break;
    default: drop_refs(); A.release(); A.new_conn(); trace("  APP: new connection"); break;
    }
    int r = xmpp_conn_set_sm_state(A.conn, st);
    trace("  APP: set_sm_state -> %d", r);
    if (r != 0) xmpp_free_sm_state(st); else note("SM state handed over");
}
void Hist::user_op()
{
    App &A = a;
    if (!A.conn) return;
    if (on("C12") && coin(500)) { object_op(); A.state_check("user operation"); return; }
    ops++;
    switch (draw(16)) {
    case 0: case 1: A.send_user(); trace("  APP: sends u%u", A.sent_ctr); break;
    case 2: {
        Str x = fmt("<message id='w%u' to='x@y'><body>raw</body></message>", ++A.sent_ctr);
        trace("  APP: sends raw w%u", A.sent_ctr);
        if (draw(2)) A.send_raw_user(x);
        else xmpp_send_raw_string(A.conn, "%s", x.c_str());
        break;
    }
    case 3: { unsigned n = 1 + draw(6); while (n--) A.send_user(Str(draw(3000), 'p')); break; }
    case 4: {
        char *t = xmpp_conn_send_queue_drop_element(A.conn, draw(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        trace("  APP: drop -> %s", t ? esc(t, 80).c_str() : "NULL");
        if (t) xmpp_free(A.ctx, t);
        break;
    }
    case 5: A.chk("C06", xmpp_conn_send_queue_len(A.conn) >= 0, "queue-len", "negative queue length"); break;
    case 6: A.disconnect(); break;
    case 7: {
        long f = (long)draw(256), before = xmpp_conn_get_flags(A.conn);
        if (A.attempt) {
            int rc = xmpp_conn_set_flags(A.conn, f);
            A.chk("C13", rc != 0, "flags-online", "set_flags was accepted while the connection is not disconnected");
            A.chk("C13", xmpp_conn_get_flags(A.conn) == before, "flags-online", "a refused set_flags changed the flags from 0x%lx to 0x%lx", before, xmpp_conn_get_flags(A.conn));
        }
        break;
    }
    case 8: if (A.attempt) A.connect(); break;
    case 9: {
        if (!A.attempt) break;
        int rc = xmpp_conn_restore_sm_state(A.conn, (const unsigned char *)"\x1a\0\0\0\0", 5);
        A.chk("C13", rc != 0, "sm-online", "restore_sm_state was accepted while the connection is not disconnected");
        // a state object can only be had from a disconnected connection
        break;
    }
    case 10: {
        uint64_t d = 200 * draw(120);
        trace("  APP: is busy for %llu ms", (unsigned long long)d);
        sim.advance(sim.now + d);
        break;
    }
    case 11: xmpp_conn_is_secured(A.conn); xmpp_conn_get_bound_jid(A.conn); break;
    case 12: {
        // the server acts on its own
        XServ *x = A.net.cur();
        if (!x || x->client_closed || !x->headers) break;
        Str e = "<message id='s1' from='a@b'><body>x</body></message>";
        if (coin(400)) { if (!dev.act(*x, "push", e)) x->send_stanza(e); }
        else if (x->up) {
            unsigned n = 1 + draw(3);
            while (n--) {
                switch (draw(5)) {
                case 0: x->send_stanza(e); break;
                case 1: x->send_stanza("<iq type='get' id='p1' from='example.com'><ping xmlns='urn:xmpp:ping'/></iq>"); break;
                case 2: if (x->sm_on) x->out(element("r", NS_SM)); break;
                case 3: if (x->sm_on) x->out(element("a", NS_SM, "", fmt("h='%u'", x->sm->h_in))); break;
                default: x->send_stanza("<presence id='pr' from='c@d'/>");
                }
            }
        }
        break;
    }
    case 13: {
        XServ *x = A.net.cur();
        if (!x || x->client_closed) break;
        switch (draw(4)) {
        case 0: x->close_tcp(); break;
        case 1: x->close_tcp(true); break;
        case 2: x->out("</stream:stream>"); if (draw(2)) x->close_tcp(); break;
        default: trace("  server falls silent"); x->deaf = true; break;
        }
        note("server ends on its own");
        break;
    }
    default: A.iter(draw(2) ? 0 : 50); break;
    }
    A.state_check("user operation");
}
static bool server_sane(const XServ &x)
{
    return !x.ambiguous && !x.we_closed && !x.client_closed && !x.tls_failed && !x.z_err && !x.deaf && x.srd.err.empty() && !x.xp_err && x.srd.idle() && x.srd.stack.size() == 1 && x.rd.err.empty() && x.timer == UINT64_MAX;
}
void Hist::probe()
{
    App &A = a;
    XServ *x = A.net.cur();
    if (!x || !A.conn) return;
    if (A.attempt && x->we_closed && !x->deaf) {
        if (!A.until([&] { return !A.attempt; }, 8000)) A.chk("C01", false, "zombie-closed", "the server has closed the TCP connection and the connection neither works nor ends");
        return;
    }
    if (dev.broken_layer && A.attempt && !x->client_closed && !x->we_closed && x->tls_up) {
        // whatever the garbage began, this completes it
        x->out_raw(Str(40000, 'Z'));
        if (!A.until([&] { return !A.attempt; }, 6000)) A.chk("C01", false, "zombie-layer", "the TLS layer is broken and the connection neither works nor ends");
        return;
    }
    if (dev.broken_layer) return;
    if (A.attempt && x->headers && !x->ambiguous && !x->deaf && !x->we_closed && !x->srd.err.empty() && x->xp_err && x->timer == UINT64_MAX) {
        if (!A.until([&] { return !A.attempt; }, 6000)) A.chk("C01", false, "zombie-xml", "the server's stream is not well-formed (%s) and the connection neither works nor ends", x->srd.err.c_str());
        return;
    }
    if (A.attempt && A.n_up && A.cfg.kind != 2 && server_sane(*x)) {
        // the client may just be closing
        Str id = fmt("probe%u", ++A.probe_ctr);
        x->send_stanza("<message id='" + id + "' from='x@y'><body>?</body></message>");
        A.until([&] { return !A.attempt || A.probes_seen.count(id); }, 4000);
        A.chk("C01", !A.attempt || A.probes_seen.count(id), "not-usable", "the connection is reported connected, the server's stream is sound, but a stanza does not reach the user's handler");
        note("probe delivered");
    }
}
void Hist::end_cycle(bool gently)
{
    App &A = a;
    if (!A.conn || !A.attempt) return;
    if (gently) {
        A.disconnect();
        uint64_t t0 = sim.now;
        A.until([&] { return !A.attempt; }, 60000, 500);
        A.chk("C01 C13", !A.attempt, "never-ends", "60 s after xmpp_disconnect no DISCONNECT notification was made");
        (void)t0;
        // and nothing more afterwards
        A.iter(10);
        A.iter(10);
    }
}
void Hist::cycle()
{
    App &A = a;
    Str late = dev.last, late_step = dev.last_step;
    dev = Deviate();
    if (!late.empty() && late_step != "header" && coin(150)) { dev.late = late; dev.late_at = (int)draw(6); }
    static const unsigned AG[] = {0, 0, 150, 500};
    bool heavy = on("C01 C12");
    dev.at = coin(heavy ? 780 : on("C02") ? 600 : 450) ? (int)small(13) : -1;
    dev.again = AG[draw(4)];
    A.net.tweak = [this](XServ &x, const char *step, Str &reply) { return dev(x, step, reply); };
    sim.wmode = (int)weighted({6, 3});
    sim.rmode = (int)weighted({6, 3, 1});
    bool lat = coin(200), frag = coin(200);
    A.net.on_up = nullptr;
    auto acc = sim.accept;
    A.net.begin();
    auto base = sim.accept;
    sim.accept = [base, lat, frag, this](Sock *s) { base(s); XServ *x = a.net.cur(); x->cfg_no = (int)a.cfgs.size() - 1; if (lat) x->latency = 20 + draw(400); if (frag) x->frag = 1; };
    unsigned cbops = coin(250) ? 1 + draw(3) : 0;
    A.on_ev = [this](const Ev &e) {
        if (e.type == XMPP_CONN_RAW_CONNECT) {
            if (a.cfg.raw_tls) { int r = xmpp_conn_tls_start(a.conn); trace("  APP: conn_tls_start -> %d", r); }
            if (a.cfg.raw_default) xmpp_conn_open_stream_default(a.conn);
            else {
                char *at[] = {(char *)"to", (char *)a.cfg.domain.c_str(), (char *)"xmlns", (char *)"jabber:client", (char *)"xmlns:stream", (char *)NS_STREAMS, (char *)"version", (char *)"1.0"};
                xmpp_conn_open_stream(a.conn, at, 8);
            }
        }
        if (e.type == XMPP_CONN_CONNECT && coin(300)) {
            switch (draw(4)) {
            case 0: a.send_user(); break;
            case 1: a.send_user(); a.send_user(); break;
            case 2: a.disconnect_cb(); break;
            default: a.send_user(); a.disconnect_cb();
            }
        }
    };
    A.on_st = [this, &cbops](xmpp_stanza_t *s) {
        if (!cbops) return;
        cbops--;
        switch (draw(4)) {
        case 0: a.send_user(); break;
        case 1: { xmpp_stanza_t *r = xmpp_stanza_reply(s); if (r) { xmpp_send(a.conn, r); xmpp_stanza_release(r); } break; }
        case 2: { xmpp_stanza_t *r = xmpp_stanza_reply_error(s, "cancel", "item-not-found", "no"); if (r) { xmpp_send(a.conn, r); xmpp_stanza_release(r); } break; }
        default: a.disconnect_cb();
        }
    };
    A.cfgs.push_back(A.cfg);
    int rc = A.connect();
    if (rc != 0) { note("connect refused"); return; }
    nontrivial();
    unsigned nops = small(8);
    uint64_t t0 = sim.now;
    unsigned lull = 0;
    // let it run, with user operations thrown in
    unsigned pops = nops ? 120 : 0;
    unsigned eager = coin(300) ? 250 : 0; // an application that does not wait for CONNECT
    for (unsigned i = 0; i < 400 && A.attempt && A.conn && lull < 6; i++) {
        uint64_t n0 = sim.now; size_t w0 = A.net.cur() ? A.net.cur()->wire.size() : 0;
        A.iter(100);
        size_t w1 = A.net.cur() ? A.net.cur()->wire.size() : 0;
        lull = (w1 == w0 && sim.now - n0 >= 100 && sim.next_event() == UINT64_MAX) ? lull + 1 : 0;
        if (nops && coin(pops)) { nops--; user_op(); }
        if (eager && A.attempt && A.conn && !A.n_up && coin(eager)) {
            ops++;
            note("sends before CONNECT");
            Str x = fmt("<message id='w%u' to='x@y'><body>early</body></message>", ++A.sent_ctr);
            switch (draw(4)) {
            case 0: A.send_user(); trace("  APP: sends u%u early", A.sent_ctr); break;
            case 1: A.send_raw_user(x); trace("  APP: sends raw w%u early", A.sent_ctr); break;
            case 2: xmpp_send_raw_string(A.conn, "%s", x.c_str()); trace("  APP: sends string w%u early", A.sent_ctr); break;
            default: {
                char *t = xmpp_conn_send_queue_drop_element(A.conn, draw(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
                if (t) { trace("  APP: drop -> %s", esc(t, 80).c_str()); xmpp_free(A.ctx, t); }
            }
            }
        }
        if (sim.now - t0 > 90000) break;
    }
    while (nops-- && A.conn && A.attempt) user_op();
    if (A.attempt && A.conn && !A.n_up && coin(350)) { note("waits past a deadline"); A.until([&] { return !A.attempt || A.n_up; }, 16000, 1000); }
    if (A.attempt && A.conn) {
        for (int i = 0; i < 60 && A.attempt && sim.next_event() != UINT64_MAX; i++) A.iter(2000);
        A.run_for(300);
    }
    bool clean = !dev.any && sim.now - t0 < 60000;
    if (A.attempt && !A.n_up && A.cfg.kind != 2 && clean && A.net.cur() && server_sane(*A.net.cur()) && !ops && sim.wmode == 0) {
        A.until([&] { return !A.attempt || A.n_up; }, 40000, 1000);
        A.chk("C01 C03", !A.attempt || A.n_up || dev.any, "negotiation-stuck", "the server answers everything and the connection is neither up nor ended 40 s later");
    }
    if (A.n_up) note("reached CONNECT");
    if (dev.any) note("server deviated");
    probe();
    if (!A.conn) return;
    if (A.attempt && coin(150)) { drop_refs(); A.release(); A.new_conn(); note("released in mid-attempt"); return; }
    end_cycle(true);
}
void Hist::final_connect()
{
    App &A = a;
    if (!A.conn || A.attempt) return;
    A.net.tweak = nullptr;
    A.on_st = nullptr;
    A.on_ev = nullptr;
    A.pw_bad = 0;
    sim.wmode = sim.rmode = 0;
    A.net.begin();
    A.cfgs.push_back(A.cfg);
    { auto base = sim.accept; sim.accept = [base, this](Sock *s) { base(s); a.net.cur()->cfg_no = (int)a.cfgs.size() - 1; }; }
    conform(A, A.net.cf);
    if (A.cfg.kind == 2) return;
    int rc = A.connect();
    bool can = A.cfg.has_pass || A.cfg.anon || A.cfg.kind == 1;
    if (A.cfg.kind == 1 && A.cfg.jid.empty()) can = false;
    if (rc != 0) { A.chk("C01 C13", false, "reconnect-refused", "after the connection ended, a new connect returned %d", rc); return; }
    A.until([&] { return !A.attempt || A.n_up; }, 60000, 1000);
    if (can) A.chk("C01 C03", A.n_up == 1, "reconnect-fails", "after an earlier connection ended, a connection to a conforming server %s", A.attempt ? "is stuck" : "fails");
    else A.chk("C01 C03", !A.attempt, "no-credentials", "without credentials the connection does not end");
    if (A.attempt && A.n_up) {
        dev = Deviate();
        XServ *x = A.net.cur();
        Str id = fmt("probe%u", ++A.probe_ctr);
        x->send_stanza("<message id='" + id + "' from='x@y'><body>?</body></message>");
        Str uid = A.send_user();
        A.until([&] { return A.probes_seen.count(id) && x->rd.idle(); }, 3000);
        A.chk("C01", A.probes_seen.count(id), "reconnect-deaf", "a stanza is not delivered after a reconnect");
        bool got = false;
        for (auto &w : x->wire) if (w.is("message") && w.n.attr("id") && *w.n.attr("id") == uid) got = true;
        A.chk("C01", got, "reconnect-mute", "a stanza is not sent after a reconnect");
        note("reconnected to a conforming server");
    }
    end_cycle(true);
}
void Hist::run()
{
    App &A = a;
    AppCfg c = gen_app({8, 2, on("C01 C12 C13") ? 1u : 0u});
    A.start(c);
    A.net.cf = gen_server(c);
    trace("app: kind %d jid %s flags 0x%lx certfail %d client_cert %d alt '%s' has_pass %d sm_cb %d", c.kind, c.jid.c_str(), c.flags, c.certfail, c.client_cert, c.alt.c_str(), c.has_pass, c.sm_cb);
    const XConf &x = A.net.cf;
    { Str m; for (auto &q : x.mech_plain) m += q + " "; m += "/ "; for (auto &q : x.mech_tls) m += q + " ";
      trace("server: tls %d legacy_ssl %d ver %d cert %s mechs %s zlib %d bind %d session %d sm %d/%d accept_auth %d old %d", x.tls, x.legacy_ssl, x.tlsver, x.cert.c_str(), m.c_str(), x.zlib, x.bind, x.session, x.sm, x.sm_resume, x.accept_auth, x.old_stream); }
    unsigned cycles = 1 + weighted({6, 3, 2});
    for (unsigned i = 0; i < cycles && A.conn; i++) {
        if (i) {
            if (!A.attempt && c.kind != 1 && coin(250)) reconfigure();
            if (c.kind == 1 || coin(600)) A.net.cf = gen_server(A.cfg);
            else {
                // the same server offers less, and is otherwise well
                XConf &x = A.net.cf;
                x.pass = A.cfg.pass;
                switch (draw(6)) {
                case 0: x.sm = false; break;
                case 1: x.zlib = false; break;
                case 2: x.session = 0; break;
                case 3: x.tls = false; break;
                case 4: if (!x.mech_plain.empty()) x.mech_plain.erase(x.mech_plain.begin() + draw((uint32_t)x.mech_plain.size())); x.mech_tls = x.mech_plain; break;
                default: x.bind = !x.bind;
                }
                x.accept_auth = true; x.reject_mechs.clear(); x.cert = "good"; x.old_stream = false;
                x.legacy_ssl = A.cfg.kind == 0 && (A.cfg.flags & XMPP_CONN_FLAG_LEGACY_SSL);
                note("the server offers less than before");
            }
        }
        if (on("C12")) while (coin(300)) object_op();
        cycle();
        if (failed()) throw CaseAbort();
    }
    if (A.conn && A.attempt) end_cycle(true);
    bool do_final = coin(on("C01 C13") ? 700 : 300);
    bool strict = !dev.any;
    for (auto &s : A.net.conns) { mon_c02(A, *s); mon_c03(A, *s, strict && A.net.conns.size() == 1); }
    if (do_final) {
        size_t k = A.net.conns.size();
        final_connect();
        for (; k < A.net.conns.size(); k++) { mon_c02(A, *A.net.conns[k]); mon_c03(A, *A.net.conns[k], true); }
    }
    uint64_t h[4] = {0};
    for (auto &s : A.net.conns) for (auto &w : s->wire) { Str t = fmt("%d%d%d%d", w.srv, w.kind, w.ev, w.tls) + w.n.name; fingerprint(t); }
    (void)h;
    if (want_sample()) {
        Str t = fmt("kind %d flags 0x%lx; ", c.kind, c.flags);
        for (auto &s : A.net.conns) { t += "["; for (auto &w : s->wire) t += fmt("%s%s ", w.srv ? "S:" : w.kind == Wire::EVENT ? "EV" : "C:", w.kind == Wire::EVENT ? fmt("%d", w.ev).c_str() : w.kind == Wire::HEADER ? "header" : w.kind == Wire::CLOSE ? "close" : w.n.name.c_str()); t += "]"; }
        for (auto &d : dev.what) t += " " + d;
        sample(t);
    }
    if (on("C12")) while (A.conn && !A.attempt && coin(300)) object_op();
    unsigned late = refs;
    xmpp_conn_t *cn = A.conn;
    if (late && cn && coin(500)) {
        // the application's own reference goes first
        A.chk("C12", xmpp_conn_release(cn) == 0, "released-early", "releasing one of several references frees the connection");
        A.state_check("release of one reference");
        refs--;
    }
    drop_refs();
    for (auto *x : sms) if (draw(2)) { xmpp_free_sm_state(x); } else { A.release(); xmpp_free_sm_state(x); }
    if (!certs.empty() && draw(2)) A.release();
    for (auto *x : certs) xmpp_tlscert_free(x);
    for (auto *x : texts) xmpp_free(A.ctx, x);
    A.finish();
}
void hist(const char *p) { Hist h(p); app_run(h.a, [&] { h.run(); }); }
static void c01() { hist("C01"); }
static void c02() { hist("C02"); }
static void c03() { hist("C03"); }
#define HRULE "a case = one application configuration (client/component/raw, flags, credentials) and one to three connections to a simulated server (real TLS, zlib, SASL) that conforms or deviates at drawn " \
    "points (soup, mutated, missing, repeated, reordered, truncated replies, garbage under the layers, silence, close, reset), with drawn transport behaviour and user operations, then a conforming reconnect. " \
    "Non-trivial: at least one attempt was accepted; distinct by the sequence of wire elements and notifications. "
PROP(c01, "C01", c01, 30000, 1200000, HRULE "Oracle: AddressSanitizer, no abort, bounded work per iteration, the connection stays usable (probe) or ends with exactly one DISCONNECT, and can be reconnected and released", 0, nullptr, 30, {"the library is compiled with OpenSSL, expat and zlib"});
PROP(c02, "C02", c02, 30000, 1200000, HRULE "Oracle: policy monitor over every byte and element the client sent", 0, nullptr, 30, {"mechanisms the client supports: SCRAM-SHA-1/256/512, DIGEST-MD5, EXTERNAL with a client certificate"});
PROP(c03, "C03", c03, 30000, 1200000, HRULE "Oracle: negotiation monitor over the time line of elements and notifications", 0, nullptr, 30, {"a conversation with bytes in flight over a stream restart is not judged against the offers"});
