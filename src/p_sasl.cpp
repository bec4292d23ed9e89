// C07: every authentication exchange is verified by an independent implementation on the server's side.
#include "app.h"

static const char *SCRAMS[] = {"SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"};

static char one(const char *s) { return s[draw((uint32_t)strlen(s))]; }
// Text that SASLprep leaves alone. kind: which characters may occur
static Str gen_text(unsigned max, bool node, bool markup)
{
    static const char *uni[] = {"\xc3\xa4", "\xc3\x9f", "\xc3\xbf", "\xd0\xb6", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xc5\x82", "\xe2\x82\xac"};
    unsigned n = coin(60) ? range(60, max) : coin(100) ? range(20, std::min(max, 140u)) : 1 + small(std::min(max, 24u) - 1);
    unsigned mode = weighted({4, 4, 3, 2, 1});
    Str s;
    for (unsigned i = 0; i < n && s.size() < max; i++) {
        unsigned k = mode == 0 ? 0 : mode == 1 ? 1 + draw(2) : mode == 2 ? (coin(500) ? 2 : 0) : mode == 3 ? 3 : draw(4);
        if (k == 0) s += (char)('a' + draw(26));
        else if (k == 1) s += one(",=,=\\%+._-#;*0123:");
        else if (k == 2) {
            if (node && !markup) s += one(",=!$%()*+-.=?[\\]^_`{|}~");
            else if (node) s += one(",=!$%\"&'<>()*+-.;=?[\\]^_`{|}~");
            else s += (char)range(0x20, 0x7e);
        } else s += uni[draw(8)];
    }
    if (node) for (auto &c : s) if (c == '@' || c == '/' || c == ':') c = '=';
    while (s.size() > max) s.pop_back();
    while (!s.empty() && ((unsigned char)s.back() & 0xc0) == 0x80) s.pop_back(); // a cut character
    while (!s.empty() && (unsigned char)s.back() >= 0xc0) s.pop_back();
    if (s.empty()) s = "x";
    return s;
}
static Str gen_pass(bool tls)
{
    if (coin(30)) return "";
    if (coin(60)) return Str(pickc({"63", "64", "65"})[1] - '0' + 60, 'p') + (coin(500) ? "" : "q");
    if (coin(60)) { Str s; unsigned n = range(126, 130); for (unsigned i = 0; i < n; i++) s += (char)('a' + draw(26)); return s; }
    (void)tls;
    return gen_text(300, false, true);
}
// a password and what SASLprep makes of it
static Str gen_prep(Str &prep)
{
    static const char *m[][2] = {{"\xc2\xaa", "a"}, {"\xc2\xad", ""}, {"\xc2\xa0", " "}, {"\xef\xac\x81", "fi"}, {"\xe2\x85\xa8", "IX"}, {"\xef\xbc\xa1", "A"}};
    unsigned k = draw(6);
    Str a = gen_text(20, false, true), b = gen_text(20, false, true);
    prep = a + m[k][1] + b;
    return a + m[k][0] + b;
}
static Str gen_nonce(bool digest)
{
    unsigned n = coin(80) ? range(100, 400) : 1 + small(60);
    Str s;
    bool plain = coin(500);
    for (unsigned i = 0; i < n; i++) {
        char c = plain ? one("abcdefghijklmnopqrstuvwxyzABC+/=0123456789") : (char)range(0x21, 0x7e);
        if (c == ',' && !digest) c = '=';
        s += c;
    }
    return s;
}
static Str quote(const Str &v)
{
    Str q = "\"";
    for (char c : v) { if (c == '"' || c == '\\' || (coin(20) && (signed char)c > 0)) q += '\\'; q += c; }
    return q + "\"";
}
static Str lws(bool wild) { return !wild || !coin(300) ? "" : pickc({" ", "  ", "\t", "\r\n "}); }
// A digest-challenge as RFC 2831 allows it
static void gen_digest(XConf &x, bool &needs_escape)
{
    x.dnonce = gen_nonce(true);
    x.have_realm = coin(650);
    if (x.have_realm && coin(500)) x.realm = gen_text(60, false, true);
    x.charset = coin(700);
    unsigned qop = weighted({30, 40, 20, 20, 10, 10, 4});
    x.qop_int = qop == 6; // a client without security layers may do without such a server
    bool ws = coin(300), shuf = coin(600), extra = coin(400), unk = coin(300);
    unsigned order = draw(720);
    Str realm = x.realm.empty() ? x.domain : x.realm;
    bool hr = x.have_realm, cs = x.charset;
    needs_escape = realm.find_first_of("\"\\") != Str::npos || x.dnonce.find_first_of("\"\\") != Str::npos;
    // choose everything now, so that a reconnection gets the same challenge
    std::vector<Str> d;
    if (hr) d.push_back("realm=" + quote(realm));
    d.push_back("nonce=" + quote(x.dnonce));
    if (qop) d.push_back(Str("qop=") + (qop == 1 ? "\"auth\"" : qop == 2 ? "\"auth,auth-int\"" : qop == 3 ? "\"auth-int,auth\"" : qop == 4 ? "\"auth-int, auth ,auth-conf\"" : qop == 6 ? "\"auth-int\"" : "auth"));
    if (cs) d.push_back("charset=utf-8");
    d.push_back("algorithm=md5-sess");
    if (extra) { d.push_back(coin(500) ? "maxbuf=65536" : "stale=false"); if (coin(500)) d.push_back("cipher=\"rc4,des\""); }
    if (unk) d.push_back(pickc({"x-future=\"a,b=c\"", "x=token", "rspauth=\"\"", "foo=\"\\\"q\\\"\""}));
    if (shuf) for (size_t i = 0; i + 1 < d.size(); i++) { size_t j = i + order % (d.size() - i); order = order * 31 + 7; std::swap(d[i], d[j]); }
    Str c;
    if (ws && coin(200)) c += pickc({" ", ","});
    for (size_t i = 0; i < d.size(); i++) { if (i) { c += lws(ws); c += ","; if (ws && coin(80)) c += ","; c += lws(ws); } c += d[i]; }
    if (ws && coin(200)) c += ",";
    x.dchal = [c](const Str &) { return c; };
}
static Str wrap_chal(unsigned mode, const Str &b)
{
    if (mode == 1) return "<![CDATA[" + b + "]]>";
    size_t h = b.size() / 2;
    if (mode == 2 && h) return b.substr(0, h) + "<![CDATA[" + b.substr(h) + "]]>";
    if (mode == 3 && h) return b.substr(0, h) + fmt("&#%d;", (unsigned char)b[h]) + b.substr(h + 1);
    return b;
}

struct Sasl {
    App a{"C07"};
    std::set<Str> *nonces;
    Str what;
    unsigned verified = 0;

    // collects what the server saw on connection objects from `from` on
    void judge(size_t from, bool must_up)
    {
        for (size_t i = from; i < a.net.conns.size(); i++) {
            XServ &s = *a.net.conns[i];
            for (auto &r : s.auths) {
                if (!r.done) continue;
                note("verified " + r.mech);
                verified++;
                a.chk("C07", r.why.empty(), ("auth-" + r.mech).c_str(), "%s: the independent verifier rejects it: %s", r.mech.c_str(), r.why.c_str());
                if (r.alt == "saslprep") fail("saslprep", "%s: the proof is over the unprepared password", r.mech.c_str());
                else if (r.alt == "digest-latin1") fail("digest-latin1", "the digest is over the UTF-8 form of a name or password that is ISO 8859-1");
                else if (r.alt == "gs2-y") fail("gs2-y", "%s with flag 'y' although the server offered %s-PLUS", r.mech.c_str(), r.mech.c_str());
                if (r.mech == "EXTERNAL") external(r);
            }
            for (auto &r : s.auths) if (!r.nonce.empty()) {
                a.chk("C07", nonces->insert(r.nonce).second, "nonce-reused", "client nonce %s was used before", r.nonce.c_str());
                a.chk("C07", r.nonce.size() >= 8, "nonce-short", "client nonce %s", r.nonce.c_str());
            }
        }
        if (must_up) a.chk("C07", a.n_up > 0, "not-up", "%s: the credentials are right and the client did not authenticate", what.c_str());
    }
    void external(const AuthRec &r)
    {
        Str jid = a.cfg.jid.empty() ? a.cfg.user + "@" + a.cfg.domain : a.cfg.jid;
        std::vector<Str> ad = a.cfg.cert_addrs;
        if (ad.empty()) ad = {a.cfg.user + "@" + a.cfg.domain};
        for (size_t i = ad.size(); i--;) if (ad[i].compare(0, 4, "DNS:") == 0 || ad[i].compare(0, 6, "email:") == 0 || ad[i].compare(0, 10, "otherName:") == 0) ad.erase(ad.begin() + i);
        bool one = ad.size() == 1;
        Str addr = ad.empty() ? "" : ad[0];
        if (one && (addr == jid)) a.chk("C07", r.data.empty() || r.data == jid, "external-id", "identity %s", esc(r.data).c_str());
        else if (ad.empty() || (one && addr == a.cfg.user + "@" + a.cfg.domain)) a.chk("C07", r.data.empty() || r.data == jid || r.data == a.cfg.user + "@" + a.cfg.domain, "external-id", "identity %s", esc(r.data).c_str()); // RFC 6120 6.3.8: either form
        else a.chk("C07", r.data == jid || r.data == a.cfg.user + "@" + a.cfg.domain, "external-id-missing", "identity %s although the certificate does not determine %s", esc(r.data).c_str(), jid.c_str());
    }
    void attempt(bool must_up)
    {
        size_t from = a.net.conns.size();
        what = "";
        int rc = a.connect();
        if (rc && a.cfg.pw_wrong && a.cfg.jid.empty()) { note("no identity without the key password"); return; }
        a.chk("C07", rc == 0, "connect", "connect returned %d", rc);
        a.until([&] { return a.n_up || a.n_down; }, 60000);
        judge(from, must_up);
        if (a.attempt) { a.disconnect(); a.until([&] { return a.n_down; }, 10000); }
    }
};

static void sasl_case(std::set<Str> &nonces, unsigned scen)
{
    Sasl z; z.nonces = &nonces;
    App &a = z.a;
    app_run(a, [&] {
        AppCfg c; XConf x;
        c.flags = 0; c.cafile = true;
        bool tls = scen == 1 ? true : scen == 7 ? true : coin(250);
        if (scen == 4 || scen == 5) tls = false;
        bool latin = false, prep = false, esc_needed = false;
        c.domain = tls || coin(700) ? pickc({"example.com", "xmpp.example.net"}) : pickc({"m\xc3\xbcnchen.example", "a", "a.very.long.domain.name.with.many.labels.example.org"});
        c.user = gen_text(coin(30) ? 1023 : 200, true, !tls);
        c.resource = scen == 4 || coin(300) ? gen_text(60, false, true) : "";
        c.pass = gen_pass(tls);
        if (scen <= 1 && coin(40)) { c.pass = gen_prep(x.prep_pass); x.has_prep = prep = true; }
        if (!tls) { c.flags |= XMPP_CONN_FLAG_DISABLE_TLS; }
        c.alt = coin(500) || !tls ? "host.invalid" : "";
        bool must = true, badpw = false;
        unsigned wrap = coin(200) ? range(1, 3) : 0;
        if (wrap) x.chal_text = [wrap](const Str &b) { return wrap_chal(wrap, b); };
        x.tls = tls; x.tlsver = pickc({"\0", "\x0c", "\x0d"})[0];
        x.session = 0; x.sm = false; x.zlib = false;
        std::vector<Str> mechs;
        Str salt;
        unsigned nsalt = coin(100) ? range(100, 300) : 1 + small(40);
        for (unsigned i = 0; i < nsalt; i++) salt += (char)draw(256);
        x.salt = salt;
        x.iters = coin(40) ? pickc({"4096", "5000", "8192"})[0] == '4' ? 4096 : 5001 : 1 + small(200);
        if (thorough() && coin(10)) x.iters = 20000;
        x.snonce = coin(100) ? Str("") : gen_nonce(false);
        if (coin(150)) x.scram_ext = pickc({",x=foo", ",a=r=1", ",z=", ",x=i=9,y=s=AAAA"});
        if (coin(3)) x.iters = 65536 + draw(20);
        x.digest_strict = true;
        if (scen == 0 || scen == 1) { // SCRAM, alone
            Str m = SCRAMS[draw(3)];
            if (scen == 1 && coin(700)) {
                bool both = coin(300);
                if (both) mechs.push_back(m);
                mechs.push_back(m + "-PLUS");
            } else mechs.push_back(m);
            z.what = m;
        } else if (scen == 2) {
            mechs.push_back("DIGEST-MD5");
            latin = true;
        } else if (scen == 3) { // the simple ones
            unsigned k = draw(3);
            if (k == 0) mechs.push_back("PLAIN");
            else if (k == 1) { mechs = {"ANONYMOUS"}; if (coin(300)) mechs.push_back("PLAIN"); c.anon = true; c.user = ""; c.resource = ""; c.has_pass = coin(500); }
            else {
                tls = true; x.tls = true; c.flags &= ~XMPP_CONN_FLAG_DISABLE_TLS;
                if (c.domain != "example.com") c.domain = "xmpp.example.net";
                c.user = pickc({"user", "j\xc3\xbcrgen", "a.b-c", "x=y"});
                c.client_cert = true;
                mechs = {"EXTERNAL"};
                if (coin(300)) mechs.push_back("SCRAM-SHA-1");
                Str me = c.user + "@" + c.domain;
                unsigned w = weighted({4, 2, 2, 1, 1, 1, 1, 2});
                if (w == 4) c.cert_addrs = {me.substr(0, me.size() - 1 - draw(3))};
                else if (w == 5) c.cert_addrs = {me + pickc({"x", ".evil.example", "/other"})};
                else if (w == 6) c.cert_addrs = {"DNS:client.example.com"}; // no address at all
                else if (w == 7) {
                    // other names around the address
                    if (draw(2)) c.cert_addrs.push_back(pickc({"DNS:client.example.com", "email:boss@example.com", "otherName:1.2.3.4;UTF8:boss@example.com"}));
                    c.cert_addrs.push_back(me);
                    if (draw(2)) c.cert_addrs.push_back(pickc({"DNS:client.example.com", "email:boss@example.com", "otherName:1.2.3.4;UTF8:boss@example.com"}));
                    if (draw(3) == 0) c.cert_addrs.push_back(me);
                }
                else if (w == 1) c.cert_addrs = {me, "other@" + c.domain};
                else if (w == 2) c.cert_addrs = {"other@" + c.domain, me};
                else if (w == 3) c.cert_addrs = {"boss@" + c.domain};
                if (coin(400)) {
                    c.cert_form = 1 + draw(4);
                    if (c.cert_form < CERT_P12 || coin(600)) c.key_pass = pickc({"secret", "p w", "\xc3\xbc", "a-rather-long-password-for-a-key-file-which-goes-on-and-on-0123456789"});
                    c.key_arg = c.cert_form >= CERT_P12 && coin(300);
                    c.pw_wrong = weighted({6, 2, 1}); c.pw_retries = draw(4);
                    note(c.cert_form >= CERT_P12 ? c.key_pass.empty() ? "PKCS#12 without password" : "PKCS#12 with password" : "encrypted key");
                    if (!c.key_pass.empty() && c.pw_wrong) { badpw = true; note("wrong key password"); }
                }
                note(fmt("EXTERNAL certificate with %zu addresses", c.cert_addrs.empty() ? (size_t)1 : c.cert_addrs.size()));
            }
        } else if (scen == 4) { // jabber:iq:auth
            c.flags |= XMPP_CONN_FLAG_LEGACY_AUTH;
            if (c.resource.empty()) c.resource = "res";
            x.old_stream = coin(700);
            x.resource = c.resource;
            if (!x.old_stream) mechs.clear();
            tls = false;
        } else if (scen == 5) { // XEP-0114
            c.kind = 1; c.domain = c.jid = pickc({"comp.example.com", "gateway", "b\xc3\xbc" "cher.example"});
            c.pass = gen_text(300, false, true);
            x.component = true; x.comp_jid = c.jid; x.secret = c.pass;
            x.stream_id = coin(100) ? rnd_hex(300) : gen_text(80, false, true);
            c.flags = 0; c.user = c.resource = "";
        } else { // several mechanisms, the first ones refused
            static const char *all[] = {"PLAIN", "DIGEST-MD5", "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS", "X-UNKNOWN", "GSSAPI"};
            unsigned n = 1 + draw(6);
            for (unsigned i = 0; i < n; i++) {
                Str m = all[draw(10)];
                if (!tls && m.size() > 5 && m.compare(m.size() - 5, 5, "-PLUS") == 0) m.resize(m.size() - 5);
                if (std::find(mechs.begin(), mechs.end(), m) == mechs.end()) mechs.push_back(m);
            }
            for (auto &m : mechs) if (coin(450)) x.reject_mechs.push_back(m);
            if (tls && coin(500)) x.mech_plain = {"PLAIN"};
            must = false;
            latin = std::find(mechs.begin(), mechs.end(), "DIGEST-MD5") != mechs.end();
        }
        x.domain = c.domain; x.user = c.user; x.pass = c.pass;
        if (latin || scen == 6) gen_digest(x, esc_needed);
        else x.dnonce = gen_nonce(true);
        (tls ? x.mech_tls : x.mech_plain) = mechs;
        if (c.kind == 0) c.jid = c.user.empty() ? c.domain : c.user + "@" + c.domain + (c.resource.empty() ? "" : "/" + c.resource);
        bool nojid = false;
        if (c.client_cert && (c.cert_addrs.empty() || (c.cert_addrs.size() == 1 && c.cert_addrs[0] == "boss@" + c.domain)) && coin(200)) {
            nojid = true;
            if (!c.cert_addrs.empty()) { c.user = "boss"; x.user = "boss"; }
            c.jid = ""; c.resource = "";
        }
        if (x.mech_plain.empty() && x.mech_tls.empty() && c.kind == 0 && !(c.flags & XMPP_CONN_FLAG_LEGACY_AUTH)) must = false;
        if (scen <= 1 && coin(60)) {
            static const char *FORM[] = {"m=ext,r=%,s=c2FsdA==,i=64", "r=%,s=c2FsdA==,i=64,m=ext", "r=%,m=,s=c2FsdA==,i=64", "r=abcdef,s=c2FsdA==,i=64", "r=,s=c2FsdA==,i=64", "r=^,s=c2FsdA==,i=64",
                "r=x%,s=c2FsdA==,i=64", "r=%,s=c2FsdA==,i=0", "r=%,s=c2FsdA==,i=-1", "r=%,s=c2FsdA==,i=abc", "r=%,s=c2FsdA==,i=", "r=%,s=c2FsdA==", "r=%,i=64", "s=c2FsdA==,i=64", "r=%,s=*&!,i=64", "e=other-error"};
            Str f = FORM[draw(16)];
            x.schal = [f](const Str &cn) {
                Str o;
                for (char ch : f) o += ch == '%' ? cn + "abcdefgh" : ch == '^' ? cn.substr(0, cn.size() - 1) + (cn.back() == 'x' ? 'y' : 'x') + "abcd" : Str(1, ch);
                return o;
            };
            note("challenge that must be refused");
        }
        if (badpw || x.qop_int || x.schal) must = false;
        z.what = scen == 4 ? "legacy" : scen == 5 ? "component" : mechs.empty() ? "none" : mechs[0];
        static const char *SC[] = {"SCRAM", "SCRAM over TLS", "DIGEST-MD5", "PLAIN, ANONYMOUS, EXTERNAL", "legacy", "component", "several mechanisms", "several over TLS"};
        note(SC[scen]);
        if (!mechs.empty()) note("first offered: " + mechs[0]);
        if (c.pass.empty() && c.kind == 0) note("empty password");
        if (c.pass.size() > 64) note("password longer than a hash block");
        if (c.user.find_first_of(",=") != Str::npos) note("username with , or =");
        if (esc_needed) note("challenge with escapes");
        if (prep) note("password that SASLprep changes");
        if (!x.scram_ext.empty()) note("server-first with extensions");
        if (want_sample()) sample(fmt("%s mechs=%s user=%s pass=%s iters=%u salt=%zu bytes snonce=%s", SC[scen], mechs.empty() ? "-" : mechs[0].c_str(), esc(c.user, 40).c_str(), esc(c.pass, 40).c_str(), x.iters, x.salt.size(), esc(x.snonce, 30).c_str()));
        fingerprint(c.user + "/" + c.pass + "/" + x.salt + x.snonce + x.dnonce);
        a.net.cf = x;
        a.start(c);
        (void)nojid;
        Str w = z.what;
        unsigned n = 1 + small(2);
        for (unsigned i = 0; i < n && !failed(); i++) {
            if (i) {
                note("reconnection");
                if (coin(400) && c.kind == 0) { // the credentials change between attempts
                    Str p = gen_pass(tls);
                    a.cfg.pass = p; a.net.cf.pass = p; a.net.cf.has_prep = false;
                    if (c.has_pass) xmpp_conn_set_pass(a.conn, p.c_str());
                }
                if (coin(300)) { a.net.cf.salt = Str(1 + draw(60), (char)draw(256)); a.net.cf.iters = 1 + small(100); }
            }
            z.attempt(must);
            z.what = w;
        }
        if (z.verified) nontrivial();
        a.finish();
    });
}
static void run_sasl()
{
    std::set<Str> nonces;
    unsigned scen = weighted({5, 4, 5, 3, 2, 2, 2, 2});
    sim.rnd_seed = bits64();
    sasl_case(nonces, scen);
    if (failed() || !coin(150)) return;
    // another process: everything is the same but the kernel's random numbers
    note("second context");
    sim.rnd_seed = bits64() + 1;
    sasl_case(nonces, draw(3));
}
PROP(c07, "C07", run_sasl, 9000, 400000, "at least one complete authentication exchange was verified by the server's independent implementation");
