// C08: certificates x trust configuration x what the user's callback says x faults in the handshake.
#include "app.h"

static bool ci_eq(const Str &a, const Str &b) { return a.size() == b.size() && !strncasecmp(a.c_str(), b.c_str(), a.size()); }
// 1 matches, 0 does not, 2 not stated by the property
static int name_matches(const Str &pat, const Str &dom)
{
    if (ci_eq(pat, dom)) return 1;
    if (pat.compare(0, 2, "*.")) return 0;
    size_t d = dom.find('.');
    if (d == Str::npos || d == 0 || !ci_eq(pat.substr(1), dom.substr(d))) return 0;
    return dom.find('.', d + 1) == Str::npos ? 2 : 1; // *.com for example.com
}
struct Chain { // one certificate as the server presents it
    Str kind;
    int name = 1, time = 1;      // name: 1 right, 0 wrong, 2 unstated; time: 2 from the second day on
    int issuer = 0;              // 0 test CA, 1 CA of the system, 2 other CA, 3 nobody
    bool inter_bad = false;      // an intermediate certificate is itself wrong (expired, not a CA)
    bool missing = false;        // the intermediate is not sent
    int eku = 1;
    bool short_ = false;
};
static Chain gen_chain(const Str &dom)
{
    Chain c;
    std::vector<Str> t;
    Str parent = dom.find('.') == Str::npos ? "com" : dom.substr(dom.find('.') + 1);
    unsigned n = coin(420) ? 0 : 1 + draw(20);
    auto nm = [&](const char *k, int r) { t.push_back(k); c.name = r; };
    switch (n) {
    case 0: break;
    case 1: nm("wrongname", 0); break;
    case 2: nm("subname", 0); break;
    case 3: nm("suffixname", 0); break;
    case 4: nm("prefixname", 0); break;
    case 5: nm("parentname", name_matches(parent, dom)); break;
    case 6: nm("partialwild", 0); break;
    case 7: nm("partialwild2", 0); break;
    case 8: nm("wildcard", name_matches("*." + parent, dom)); break;
    case 9: nm("deepwild", 0); break;
    case 10: nm("multisan", 1); break;
    case 11: nm("upper", 1); break;
    case 12: nm("althost", 0); break;
    case 13: nm("cnonly", 2); break;
    case 14: nm("ipsan", 0); break;
    case 15: nm("otherxmpp", 0); break;
    case 16: nm("uri", 0); break;
    case 17: nm("name:*", 0); break;
    case 18: nm("name:srv.target.invalid", 0); break;
    case 20: { unsigned n = pickc({"\x02", "\x05", "\x0c"})[0], at = draw(n + 1); nm(fmt("manysan:%u:%u", n, at).c_str(), at < n); break; }
    case 19: { Str k = "name:" + dom.substr(0, dom.size() - 1); nm(k.c_str(), 0); break; }
    }
    switch (weighted({10, 2, 2, 2})) {
    case 1: t.push_back("expired"); c.time = 0; break;
    case 2: t.push_back("notyet"); c.time = 2; break;
    case 3: t.push_back("short"); c.short_ = true; break;
    }
    switch (weighted({12, 2, 2, 2, 2, 2, 2, 2, 2, 1, 2, 2})) {
    case 1: t.push_back("systemca"); c.issuer = 1; break;
    case 2: t.push_back("untrusted"); c.issuer = 2; break;
    case 3: t.push_back("untrusted_root"); c.issuer = 2; break;
    case 4: t.push_back("selfsigned"); c.issuer = 3; break;
    case 5: t.push_back("chain"); break;
    case 6: t.push_back("nochain"); c.missing = true; break;
    case 7: t.push_back("imexpired"); c.inter_bad = true; break;
    case 8: t.push_back("imuntrusted"); c.issuer = 2; break;
    case 9: t.push_back("imuntrusted_root"); c.issuer = 2; break;
    case 10: t.push_back("leafissuer"); c.inter_bad = true; break;
    case 11: t.push_back("forged"); c.issuer = 3; break;
    }
    if (coin(40)) { t.push_back("clientonly"); c.eku = 2; }
    for (auto &x : t) c.kind += (c.kind.empty() ? "" : "+") + x;
    if (c.kind.empty()) c.kind = "good";
    return c;
}
// Every byte the client sends once TLS has begun is a TLS record.
static bool only_records(const Str &b, size_t &bad)
{
    for (size_t i = 0; i < b.size();) {
        unsigned char t = b[i];
        bad = i;
        if (t < 20 || t > 23) return false;
        if (i + 1 < b.size() && b[i + 1] != 3) return false;
        if (i + 5 > b.size()) return true;
        i += 5 + ((unsigned char)b[i + 3] << 8 | (unsigned char)b[i + 4]);
    }
    return true;
}

static void run_tls()
{
    App a("C08");
    app_run(a, [&] {
        AppCfg c;
        c.kind = coin(250) ? 2 : 0;
        c.domain = pickc({"example.com", "xmpp.example.net", "localhost", "a.b.example.org"});
        c.jid = c.user + "@" + c.domain + "/res";
        c.alt = coin(300) ? "host.invalid" : "";
        // an address without a domain, or with something that is none: no certificate can name it
        bool odd = coin(25);
        if (odd) { c.domain = pickc({"", ".example.com"}); c.jid = c.user + "@" + c.domain + "/res"; c.alt = "host.invalid"; note("no proper domain"); }
        bool legacy = c.kind == 0 && coin(250);
        if (legacy) c.flags |= XMPP_CONN_FLAG_LEGACY_SSL;
        if (coin(250)) c.flags |= XMPP_CONN_FLAG_MANDATORY_TLS;
        if (c.kind == 2) c.flags &= ~(long)XMPP_CONN_FLAG_LEGACY_SSL;
        bool trust = coin(150);
        if (trust) c.flags |= XMPP_CONN_FLAG_TRUST_TLS;
        c.cafile = false;
        unsigned anchors = weighted({6, 3, 1, 2, 1}); // test CA by file, by directory, both, none, the other CA
        // 0 no callback, 1 accepts, 2 rejects, 3 by the number of the call, 4 accepts one certificate only
        unsigned cbmode = weighted({5, 3, 2, 3, 2});
        c.certfail = cbmode ? 1 : 0;
        c.raw_default = true;
        a.start(c);
        if (anchors == 0 || anchors == 2) xmpp_conn_set_cafile(a.conn, ca_file());
        if (anchors == 1 || anchors == 2) xmpp_conn_set_capath(a.conn, ca_dir());
        if (anchors == 4) xmpp_conn_set_cafile(a.conn, other_ca_file());
        bool secured = false, raw_stubborn = coin(500), raw_tls_ok = false, raw_tls_tried = false;
        struct Call { Str pem, msg; int ret; };
        std::vector<Call> calls;
        unsigned cbmask = 0, leafmode = 0;
        Str leafpem;
        a.on_cert = [&](const xmpp_tlscert_t *cert, const char *) {
            Call k;
            const char *p = xmpp_tlscert_get_pem(cert);
            k.pem = p ? p : "";
            bool leaf = k.pem == leafpem;
            if (cbmode == 1) k.ret = 1;
            else if (cbmode == 2) k.ret = 0;
            else if (cbmode == 3) k.ret = (cbmask >> (calls.size() % 8)) & 1;
            else k.ret = leaf == (leafmode == 1);
            trace("  APP: certificate %zu (%s, %s) -> %d", calls.size(), leaf ? "leaf" : "not the leaf", xmpp_tlscert_get_string(cert, XMPP_CERT_SUBJECT), k.ret);
            calls.push_back(k);
            a.chk("C08", !xmpp_conn_is_secured(a.conn), "secured-early", "is_secured holds while a certificate is still in question");
            return k.ret;
        };
        bool raw_starttls = c.kind == 2 && coin(500); // the user negotiates STARTTLS himself
        auto look = [&] {
            if (!a.conn || !xmpp_conn_is_secured(a.conn)) return;
            if (!secured) { // what the user may look at is the certificate that was judged
                xmpp_tlscert_t *pc = xmpp_conn_get_peer_cert(a.conn);
                a.chk("C08", pc != nullptr, "peer-cert", "the connection is secured and there is no certificate of the peer");
                if (pc) {
                    Str why = cert_info_check(pc);
                    a.chk("C08", why.empty(), "peer-cert", "the peer's certificate: %s", why.c_str());
                    const char *pem = xmpp_tlscert_get_pem(pc);
                    a.chk("C08", leafpem.empty() || (pem && leafpem == pem), "peer-cert", "the peer's certificate is not the one the server presented");
                    xmpp_tlscert_free(pc);
                }
            }
            secured = true;
        };
        auto raw_start = [&] {
            raw_tls_tried = true;
            int r = xmpp_conn_tls_start(a.conn);
            trace("  APP: conn_tls_start -> %d", r);
            look();
            raw_tls_ok = r == 0;
            if (r == 0 || raw_stubborn) xmpp_conn_open_stream_default(a.conn);
            if (r != 0 && raw_stubborn) xmpp_send_raw_string(a.conn, "<message id='stubborn'/>");
        };
        a.on_ev = [&](const Ev &e) {
            look();
            if (e.type == XMPP_CONN_RAW_CONNECT) { if (raw_starttls) xmpp_conn_open_stream_default(a.conn); else raw_start(); }
            else if (e.type == XMPP_CONN_CONNECT) {
                if (raw_starttls && !raw_tls_tried) xmpp_send_raw_string(a.conn, "<starttls xmlns='%s'/>", NS_TLS);
                else a.send_user();
            }
        };
        a.on_st = [&](xmpp_stanza_t *st) {
            if (raw_starttls && !raw_tls_tried && !strcmp(xmpp_stanza_get_name(st), "proceed")) raw_start();
        };
        unsigned n = 1 + small(3);
        Str hist;
        for (unsigned i = 0; i < n && !failed(); i++) {
            if (i) { // change something between attempts
                if (coin(400)) {
                    trust = coin(400);
                    long f = c.flags & ~(long)XMPP_CONN_FLAG_TRUST_TLS;
                    if (trust) f |= XMPP_CONN_FLAG_TRUST_TLS;
                    c.flags = f;
                    int r = xmpp_conn_set_flags(a.conn, f);
                    if (r != 0) trust = (xmpp_conn_get_flags(a.conn) & XMPP_CONN_FLAG_TRUST_TLS) != 0;
                }
                if (coin(300)) { // another domain, the same connection object
                    odd = false;
                    c.domain = pickc({"example.com", "xmpp.example.net", "localhost", "a.b.example.org"});
                    c.jid = c.user + "@" + c.domain + "/res";
                    xmpp_conn_set_jid(a.conn, c.jid.c_str());
                    a.cfg.domain = c.domain; a.cfg.jid = c.jid;
                    note("domain changed between attempts");
                }
                if (cbmode && coin(500)) cbmode = 1 + draw(4);
                if (coin(150) && cbmode) { xmpp_conn_set_certfail_handler(a.conn, nullptr); cbmode = 0; note("callback removed"); }
                if (coin(200)) { uint64_t d = 86400000ull * (1 + draw(3)) + 3600000; trace("  (%llu days pass)", (unsigned long long)(d / 86400000)); sim.advance(sim.now + d); }
            }
            cbmask = draw(256); leafmode = draw(2);
            const Str certdom = odd ? "mail.example.com" : c.domain;
            Chain k = gen_chain(certdom);
            if (odd) k.name = 0;
            XConf x;
            conform(a, x);
            x.domain = c.domain; x.legacy_ssl = legacy || (c.kind == 2 && !raw_starttls); x.cert = k.kind;
            x.tlsver = pickc({"\0", "\x0c", "\x0d"})[0];
            x.sm = x.zlib = false;
            a.net.cf = x;
            unsigned fault = coin(250) ? 1 + draw(6) : 0;
            size_t cut = fault ? (coin(300) ? 0 : draw(3000)) : 0;
            unsigned frag = coin(200);
            x.cert_domain = odd ? certdom : Str();
            a.net.cf = x;
            SSL_CTX *sc = server_ctx(k.kind, certdom, x.tlsver);
            { BIO *b = BIO_new(BIO_s_mem()); PEM_write_bio_X509(b, SSL_CTX_get0_certificate(sc)); char *d; long l = BIO_get_mem_data(b, &d); leafpem.assign(d, (size_t)l); BIO_free(b); }
            uint64_t left = SIM_EPOCH + 86400000ull;
            bool time_ok = k.time == 2 ? sim.now > left : k.time == 1 && !(k.short_ && sim.now > left);
            bool imexp_now = k.inter_bad;
            bool anchored = k.issuer == 0 ? anchors <= 2 && !k.missing : k.issuer == 1 ? true : k.issuer == 2 ? anchors == 4 : false;
            if (k.kind.find("imuntrusted") != Str::npos && anchors == 4) anchored = true;
            bool good = anchored && time_ok && k.name == 1 && !imexp_now && k.eku == 1;
            bool unstated = k.name == 2 || k.eku == 2;
            bool surely_bad = !anchored || !time_ok || k.name == 0 || imexp_now;
            bool leaf_bad = !time_ok || k.name == 0;
            calls.clear(); secured = false; raw_tls_ok = raw_tls_tried = false;
            size_t from = a.net.conns.size();
            auto acc = sim.accept;
            sim.accept = [&, acc](Sock *s) {
                acc(s);
                if (a.net.conns.size() > from) { XServ &v = *a.net.conns.back(); v.hs_act = (int)fault; v.hs_left = cut; v.frag = frag; }
            };
            trace("attempt %u: certificate %s for %s, anchors %u, trust %d, callback %u/%02x/%u, %s, handshake fault %u after %zu", i, k.kind.c_str(), c.domain.c_str(), anchors, trust, cbmode, cbmask, leafmode, legacy ? "legacy" : c.kind == 2 ? "raw" : "starttls", fault, cut);
            int rc = a.connect();
            look();
            if (rc == 0) for (unsigned w = 0; w < 600 && !(a.n_down || (raw_starttls ? a.n_up > 1 : a.n_up > 0)); w++) { a.iter(100); look(); }
            if (a.n_up) { a.run_for(500); look(); }
            sim.accept = acc;
            bool data = false, hs_broken = false, tls_seen = false;
            for (size_t s = from; s < a.net.conns.size(); s++) {
                XServ &v = *a.net.conns[s];
                if (!v.tls_on) continue;
                tls_seen = true;
                if (v.tls_up && v.xml.size() > v.plain.size()) data = true;
                for (auto &w : v.wire) if (w.tls && !w.srv && (w.kind == Wire::HEADER || w.kind == Wire::EL)) data = true;
                if (v.hs_done) hs_broken = true;
                size_t bad = 0;
                a.chk("C08", only_records(v.raw_tls, bad), "clear-after-tls", "bytes in the clear after TLS was started: %s", esc(v.raw_tls.substr(bad), 120).c_str());
            }
            bool all = !calls.empty(), leaf_seen = false, any_no = false;
            for (auto &q : calls) { if (!q.ret) { all = false; any_no = true; } if (q.ret && q.pem == leafpem) leaf_seen = true; }
            bool allowed = trust || !surely_bad || (cbmode && all && (!leaf_bad || leaf_seen));
            if (cbmode == 0) a.chk("C08", calls.empty(), "callback-removed", "the callback was called after it had been removed");
            if (!trust && any_no) allowed = false;
            bool sec = secured || data || (c.kind != 2 && a.n_up && tls_seen);
            note(fmt("%s, certificate %s, %s", legacy ? "legacy SSL" : c.kind == 2 ? raw_starttls ? "raw STARTTLS" : "raw" : "STARTTLS", good ? "good" : unstated && !surely_bad ? "unstated" : "bad", sec ? "secured" : "not secured"));
            if (tls_seen) nontrivial();
            if (surely_bad && tls_seen) { Str kk = k.kind; size_t q = kk.find("manysan:"); if (q != Str::npos) { size_t e = kk.find('+', q); kk.erase(q + 7, e == Str::npos ? Str::npos : e - q - 7); } note("bad: " + kk); }
            if (!calls.empty()) note(fmt("callback ran %zu times", calls.size()));
            a.chk("C08", !sec || allowed, "trusted", "the session counts as secured (is_secured %d, data under TLS %d) with certificate '%s' for %s: trust flag %d, callback mode %u, %zu calls%s", secured, data, k.kind.c_str(), c.domain.c_str(), trust, cbmode, calls.size(), any_no ? ", one of them rejecting" : "");
            a.chk("C08", !hs_broken || !sec, "trusted-broken", "the session counts as secured although the handshake was cut short");
            if (tls_seen && !sec) { // torn down
                a.chk("C08", a.n_up == (raw_starttls ? 1 : 0), "up-after-failed-tls", "the connection was reported up after a failed handshake");
                a.chk("C08", a.n_down == 1, "not-torn-down", "the handshake failed and %d DISCONNECT notifications were made", a.n_down);
                for (size_t s = from; s < a.net.conns.size(); s++) a.chk("C08", a.net.conns[s]->s->st == Sock::CLOSED, "socket-open", "the socket is still open after a failed handshake");
                note(fmt("torn down after handshake fault %u", fault));
            }
            if (tls_seen && !hs_broken && !fault && (good || trust || (cbmode == 1 && !unstated))) { // nothing is wrong (or everything was accepted)
                a.chk("C08", secured && data, "not-secured", "certificate '%s' for %s is to be accepted (trust %d, callback mode %u) and the session did not get secured", k.kind.c_str(), c.domain.c_str(), trust, cbmode);
                if (c.kind != 2 || raw_tls_ok) a.chk("C08", a.n_up == (raw_starttls ? 2 : 1), "not-up", "TLS is up and the connection did not come up");
            }
            if (c.kind == 2 && raw_tls_tried) a.chk("C08", raw_tls_ok == secured, "raw-rc", "conn_tls_start said %s and is_secured was %d", raw_tls_ok ? "success" : "failure", secured);
            if (rc == 0 && !tls_seen && c.kind != 2) a.chk("C08", a.n_down == 1 || !x.tls, "no-tls", "STARTTLS was offered and not used");
            hist += fmt("%s%s->%s", i ? ", " : "", k.kind.c_str(), sec ? "secured" : "refused");
            if (a.attempt) { a.disconnect(); a.until([&] { return a.n_down; }, 10000); }
        }
        fingerprint(hist);
        if (want_sample()) sample(fmt("%s %s anchors=%u callback=%u: %s", legacy ? "legacy" : c.kind == 2 ? "raw" : "starttls", c.domain.c_str(), anchors, cbmode, hist.c_str()));
        a.finish();
    });
}
PROP(c08, "C08", run_tls, 9000, 300000, "a TLS handshake was begun");
