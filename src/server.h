// Simulated XMPP server: TLS and zlib layers, independent SASL verification, scripted deviations.
#pragma once
#include "sim.h"
#include "xml.h"
#include <openssl/ssl.h>
#include <zlib.h>

extern const char *NS_STREAMS, *NS_TLS, *NS_SASL, *NS_BIND, *NS_SESSION, *NS_SM, *NS_COMP, *NS_FCOMP, *NS_AUTH, *NS_STANZAS, *NS_STREAM_ERR;

Str b64enc(const Str &);
bool b64dec(const Str &, Str &out);      // strict
Str hexs(const Str &);
Str dig(const char *md, const Str &);
Str hmac_(const char *md, const Str &key, const Str &d);
Str rnd_hex(unsigned n);                 // from the case seed, not from the tape

// certificates -----------------------------------------------------------------
// kinds: good wrongname partialwild wildcard deepwild expired notyet untrusted selfsigned cnonly nosan
const char *ca_file();                   // PEM of the trusted test CA
const char *other_ca_file();
const char *ca_dir();                    // hashed directory with the trusted CA
const char *scratch_dir();
SSL_CTX *server_ctx(const Str &kind, const Str &domain, int ver); // ver 0 any, 12, 13
Str cert_info_check(const xmpp_tlscert_t *); // empty: what it says is true of the certificate
enum { CERT_PEM, CERT_PEM_ENC, CERT_PKCS8_ENC, CERT_P12, CERT_P12_CHAIN };
void client_cert(const std::vector<Str> &xmppaddrs, Str &cert_path, Str &key_path, unsigned form = CERT_PEM, const Str &pass = "");

struct Wire {
    uint64_t t = 0;
    bool tls = false, z = false;
    int hdr = 0;                 // ordinal of the stream header it belongs to (1-based)
    bool srv = false;            // sent by us, at the time it was sent
    bool lost = false;           // the server never saw it
    enum Kind { HEADER, EL, CLOSE, JUNK, ERR, EVENT } kind = EL;
    int ev = -1;                 // EVENT: application event type
    Node n;
    Str raw;
    bool sis(const char *name, const char *ns = nullptr) const { return kind == EL && srv && n.name == name && (!ns || n.ns == ns); }
    bool is(const char *name, const char *ns = nullptr) const { return kind == EL && !srv && n.name == name && (!ns || n.ns == ns); }
};

struct Srv : Peer {
    Sock *s = nullptr;
    bool tls_on = false, tls_up = false, tls_failed = false;
    SSL *ssl = nullptr; BIO *rb = nullptr, *wb = nullptr;
    bool z_on = false, z_err = false;
    z_stream zi, zo;
    int zflush = Z_SYNC_FLUSH, zlevel = Z_DEFAULT_COMPRESSION;
    XmlReader rd;
    std::vector<Wire> wire;
    Str plain;                   // every byte received before TLS
    Str raw_tls;                 // every byte received since TLS was started
    int hs_act = 0; size_t hs_left = 0; bool hs_done = false; // what to do after that many bytes of the handshake
    Str xml;                     // decoded bytes (after TLS and inflate)
    Str sent_xml;                // what we sent, before layers
    bool opaque = false;         // the decoded bytes are recorded and not read as XML
    bool lost = false;           // what the client writes from now on is recorded, but does not reach the server
    bool client_closed = false, deaf = false, ended = false, we_closed = false;
    uint64_t latency = 0;
    unsigned frag = 0;           // 0 whole, 1 tape-driven pieces with delays
    int headers = 0;
    uint64_t last_out = 0;       // arrival time of the last byte we sent
    Srv();
    ~Srv() override;
    void attach(Sock *sk);
    void on_data(Sock *, const char *, size_t) override;
    void on_client_close(Sock *) override;
    void tls_start(SSL_CTX *);
    void z_start();
    void out(const Str &x);      // through the layers
    void out_raw(const Str &b);  // straight to the socket
    void close_tcp(bool reset = false);
    void app_event(int type) { Wire w; w.t = sim.now; w.kind = Wire::EVENT; w.ev = type; w.tls = tls_up; w.hdr = headers; wire.push_back(w); }
    XmlReader srd;               // reads our own output, to put it on the time line
    struct XML_ParserStruct *xp = nullptr; bool xp_err = false; // expat's opinion of our output
    void xp_reset();
    bool ambiguous = false;      // bytes were in flight over a stream restart
    virtual void on_header(const Node &) {}
    virtual void on_el(const Node &, const Str &) {}
    virtual void on_end() {}
    virtual void on_badxml() {}
    virtual void on_tls_result(bool) {}
protected:
    void feed_plain(const Str &d);
    void feed_xml(const Str &d);
    void tls_pump();
};

struct AuthRec {
    Str mech, why;               // why: empty if the exchange verified
    bool done = false, ok = false;
    Str nonce;                   // client nonce
    Str alt;                     // accepted although it is only right under this deviation from the RFC
    Str data; bool has_data = false; // decoded initial response
    int hdr = 0;
};
struct XConf {
    Str domain = "example.com", user = "user", pass = "secret", resource;
    bool component = false; Str comp_jid; Str secret;
    bool tls = true, legacy_ssl = false; Str cert = "good", cert_domain; int tlsver = 0;
    std::vector<Str> mech_plain, mech_tls;
    bool zlib = false, bind = true, sm = false, sm_resume = true;
    int session = 0;             // 0 none 1 optional 2 required
    unsigned iters = 64; Str salt; Str snonce; // scram
    Str realm, qop, dnonce; bool charset = true, have_realm = true;   // digest
    Str scram_ext;               // appended to server-first
    std::function<Str(const Str &cnonce)> schal; // a server-first that must not be answered
    bool qop_int = false; // the digest challenge offers auth-int only
    std::function<Str(const Str &nonce)> dchal; // the whole digest challenge
    bool has_prep = false; Str prep_pass; // what SASLprep makes of the password
    std::function<Str(const Str &b64)> chal_text; // how the challenge is written in XML
    bool digest_strict = false;  // ISO 8859-1 rule of RFC 2831
    bool legacy_auth = false;
    bool ack_requests = true, reply_iq = true;
    Str stream_id;               // empty: random
    Str sm_loc;
    bool accept_auth = true;     // answer failure even to right credentials
    std::vector<Str> reject_mechs;
    bool old_stream = false;     // no version, no features
    bool features_in_one = true;
};
struct SmSess {
    Str id, jid;
    uint32_t h_in = 0;           // stanzas from the client handled
    uint32_t out_nr = 0;         // stanzas sent to the client
    std::vector<Str> got;        // raw stanzas handled, in order
    bool live = false, forgotten = false;
};
struct XServ;
struct XNet {                    // state that survives connections
    XConf cf;
    std::vector<std::unique_ptr<XServ>> conns;
    std::vector<std::unique_ptr<SmSess>> sess;
    // Hook at each reply: may edit the reply or return true when it has dealt with the situation.
    std::function<bool(XServ &, const char *step, Str &reply)> tweak;
    std::function<void(XServ &, const Node &, const Str &raw)> on_stanza; // after negotiation
    std::function<void(XServ &)> on_up;
    void begin();                // installs sim.accept
    void end();
    XServ *cur() { return conns.empty() ? nullptr : conns.back().get(); }
};
struct XServ : Srv {
    XNet *net; XConf cf; int index = 0;
    int cfg_no = -1;             // the application's configuration when it connected (Hist::cfgs)
    bool authed = false, bound = false, up = false, header_answered = false;
    std::vector<AuthRec> auths;
    std::vector<Str> offered;    // what was offered and not yet used, for the whole connection
    Str bound_jid, stream_id;
    SmSess *sm = nullptr;
    bool sm_on = false;
    uint64_t next_timer() override { return timer; }
    void on_timer() override { timer = UINT64_MAX; if (timer_fn) { auto f = timer_fn; timer_fn = nullptr; f(); } }
    uint64_t timer = UINT64_MAX;
    std::function<void()> timer_fn;
    void at(uint64_t delay, std::function<void()> f) { timer = sim.now + delay; timer_fn = f; }
    void reply(const char *step, Str x);
    void on_header(const Node &) override;
    void on_el(const Node &, const Str &) override;
    void on_end() override;
    void on_badxml() override;
    void on_tls_result(bool) override;
    Str header_xml();
    Str features_xml();
    void send_stanza(const Str &x) { if (sm_on && sm) sm->out_nr++; out(x); }
    void went_up();
    // SASL
    Str mech; int sasl_step = 0;
    Str gs2, cf_bare, s_first, cnonce, full_nonce;
    Str used_nonce;
    void sasl_auth(const Node &);
    void sasl_resp(const Node &);
    void sasl_end(const Str &why, const Str &extra = "");
    bool scram_first(const Str &msg, Str &why);
    Str scram_final(const Str &msg, Str &why);
    Str digest_check(const Str &msg, Str &why);
};
Str cb_data(SSL *ssl, Str &type);
Str scram_md(const Str &mech);
extern Str last_cnonce; // of the latest SCRAM client-first of this case
Str element(const char *name, const char *ns, const Str &inner = "", const Str &attrs = "");
