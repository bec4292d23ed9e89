#include "server.h"
#include <openssl/pkcs12.h>
#include <openssl/evp.h>
#include <expat.h>
#include <openssl/hmac.h>
#include <openssl/x509.h>
#include <openssl/x509v3.h>
#include <openssl/pem.h>
#include <openssl/err.h>
#include <unistd.h>
#include <sys/stat.h>

const char *NS_STREAMS = "http://etherx.jabber.org/streams", *NS_TLS = "urn:ietf:params:xml:ns:xmpp-tls", *NS_SASL = "urn:ietf:params:xml:ns:xmpp-sasl",
           *NS_BIND = "urn:ietf:params:xml:ns:xmpp-bind", *NS_SESSION = "urn:ietf:params:xml:ns:xmpp-session", *NS_SM = "urn:xmpp:sm:3",
           *NS_COMP = "http://jabber.org/protocol/compress", *NS_FCOMP = "http://jabber.org/features/compress", *NS_AUTH = "jabber:iq:auth",
           *NS_STANZAS = "urn:ietf:params:xml:ns:xmpp-stanzas", *NS_STREAM_ERR = "urn:ietf:params:xml:ns:xmpp-streams";

static const char *B64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
Str b64enc(const Str &d)
{
    Str o;
    for (size_t i = 0; i < d.size(); i += 3) {
        uint32_t v = (uint8_t)d[i] << 16;
        if (i + 1 < d.size()) v |= (uint8_t)d[i + 1] << 8;
        if (i + 2 < d.size()) v |= (uint8_t)d[i + 2];
        o += B64[v >> 18]; o += B64[v >> 12 & 63];
        o += i + 1 < d.size() ? B64[v >> 6 & 63] : '=';
        o += i + 2 < d.size() ? B64[v & 63] : '=';
    }
    return o;
}
bool b64dec(const Str &s, Str &o)
{
    o.clear();
    if (s.size() % 4) return false;
    for (size_t i = 0; i < s.size(); i += 4) {
        uint32_t v = 0; int pad = 0;
        for (int k = 0; k < 4; k++) {
            char c = s[i + k];
            if (c == '=') { if (i + 4 != s.size() || k < 2) return false; pad++; v <<= 6; continue; }
            if (pad) return false;
            const char *p = strchr(B64, c);
            if (!p || !c) return false;
            v = v << 6 | (uint32_t)(p - B64);
        }
        o += (char)(v >> 16);
        if (pad < 2) o += (char)(v >> 8);
        if (pad < 1) o += (char)v;
    }
    return true;
}
Str hexs(const Str &d) { Str o; char b[3]; for (unsigned char c : d) { snprintf(b, 3, "%02x", c); o += b; } return o; }
Str dig(const char *md, const Str &d)
{
    unsigned char b[64]; unsigned n = 0;
    EVP_Digest(d.data(), d.size(), b, &n, EVP_get_digestbyname(md), nullptr);
    return Str((char *)b, n);
}
Str hmac_(const char *md, const Str &key, const Str &d)
{
    unsigned char b[64]; unsigned n = 0;
    HMAC(EVP_get_digestbyname(md), key.data(), (int)key.size(), (const unsigned char *)d.data(), d.size(), b, &n);
    return Str((char *)b, n);
}
Str rnd_hex(unsigned n)
{
    static uint64_t ctr;
    static uint64_t seed_seen;
    if (seed_seen != case_seed()) { seed_seen = case_seed(); ctr = 0; }
    Str o;
    while (o.size() < n) {
        uint64_t x = case_seed() + 0x9E3779B97F4A7C15ull * ++ctr;
        x ^= x >> 30; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 27;
        o += fmt("%016llx", (unsigned long long)x);
    }
    o.resize(n);
    return o;
}
Str element(const char *name, const char *ns, const Str &inner, const Str &attrs)
{
    return fmt("<%s%s%s%s%s>", name, ns ? " xmlns='" : "", ns ? ns : "", ns ? "'" : "", attrs.empty() ? "" : (" " + attrs).c_str()) + inner + "</" + name + ">";
}

// ---- certificates ---------------------------------------------------------------------
static EVP_PKEY *mkkey(uint8_t seed)
{
    unsigned char raw[32];
    memset(raw, seed, 32);
    return EVP_PKEY_new_raw_private_key(EVP_PKEY_ED25519, nullptr, raw, 32);
}
static void add_ext(X509 *c, X509 *issuer, int nid, const char *v)
{
    X509V3_CTX ctx;
    X509V3_set_ctx(&ctx, issuer, c, nullptr, nullptr, 0);
    X509_EXTENSION *e = X509V3_EXT_conf_nid(nullptr, &ctx, nid, v);
    if (!e) { fprintf(stderr, "extension %s failed\n", v); abort(); }
    X509_add_ext(c, e, -1);
    X509_EXTENSION_free(e);
}
static X509 *mkcert(EVP_PKEY *key, const char *cn, X509 *issuer, EVP_PKEY *ikey, const std::vector<std::pair<int, Str>> &exts, int64_t from_days, int64_t to_days, long serial)
{
    X509 *c = X509_new();
    X509_set_version(c, 2);
    ASN1_INTEGER_set(X509_get_serialNumber(c), serial);
    ASN1_TIME_set(X509_getm_notBefore(c), (time_t)(SIM_EPOCH / 1000 + from_days * 86400));
    ASN1_TIME_set(X509_getm_notAfter(c), (time_t)(SIM_EPOCH / 1000 + to_days * 86400));
    X509_NAME *n = X509_NAME_new();
    X509_NAME_add_entry_by_txt(n, "CN", MBSTRING_UTF8, (const unsigned char *)cn, -1, -1, 0);
    X509_set_subject_name(c, n);
    X509_set_issuer_name(c, issuer ? X509_get_subject_name(issuer) : n);
    X509_NAME_free(n);
    X509_set_pubkey(c, key);
    for (auto &e : exts) add_ext(c, issuer ? issuer : c, e.first, e.second.c_str());
    X509_sign(c, ikey, nullptr);
    return c;
}
struct Pki {
    EVP_PKEY *cakey, *ca2key, *syskey, *leafkey, *clkey, *imkey;
    X509 *ca, *ca2, *sysca, *im, *imexp, *im2, *fakeim;
    Str dir, cafile, ca2file, sysfile, hdir, hfile;
    std::map<Str, SSL_CTX *> ctxs;
    std::map<Str, std::pair<Str, Str>> clients;
    pid_t owner;
    Pki()
    {
        bool act = sim.active; unsigned ctr = sim.rnd_ctr;
        sim.active = false;
        owner = getpid();
        char t[] = "/tmp/vhpki.XXXXXX";
        const char *d = mkdtemp(t);
        dir = d ? d : "/tmp";
        cakey = mkkey(1); ca2key = mkkey(2); leafkey = mkkey(3); clkey = mkkey(4); imkey = mkkey(5); syskey = mkkey(6);
        ca = mkcert(cakey, "Test Root", nullptr, cakey, {{NID_basic_constraints, "critical,CA:TRUE"}, {NID_key_usage, "keyCertSign,cRLSign"}, {NID_subject_key_identifier, "hash"}}, -1000, 10000, 1);
        ca2 = mkcert(ca2key, "Other Root", nullptr, ca2key, {{NID_basic_constraints, "critical,CA:TRUE"}, {NID_key_usage, "keyCertSign,cRLSign"}, {NID_subject_key_identifier, "hash"}}, -1000, 10000, 2);
        sysca = mkcert(syskey, "System Root", nullptr, syskey, {{NID_basic_constraints, "critical,CA:TRUE"}, {NID_key_usage, "keyCertSign,cRLSign"}, {NID_subject_key_identifier, "hash"}}, -1000, 10000, 4);
        im = mkcert(imkey, "Intermediate", ca, cakey, {{NID_basic_constraints, "critical,CA:TRUE"}, {NID_key_usage, "keyCertSign"}, {NID_subject_key_identifier, "hash"}}, -1000, 10000, 3);
        imexp = mkcert(imkey, "Old Intermediate", ca, cakey, {{NID_basic_constraints, "critical,CA:TRUE"}, {NID_key_usage, "keyCertSign"}, {NID_subject_key_identifier, "hash"}}, -1000, -2, 5);
        im2 = mkcert(imkey, "Other Intermediate", ca2, ca2key, {{NID_basic_constraints, "critical,CA:TRUE"}, {NID_key_usage, "keyCertSign"}, {NID_subject_key_identifier, "hash"}}, -1000, 10000, 6);
        fakeim = mkcert(clkey, "Somebody", ca, cakey, {{NID_basic_constraints, "critical,CA:FALSE"}, {NID_key_usage, "digitalSignature"}, {NID_subject_key_identifier, "hash"}}, -1000, 10000, 7);
        hdir = dir + "/hashed"; mkdir(hdir.c_str(), 0700);
        hfile = hdir + fmt("/%08lx.0", X509_subject_name_hash(ca)); put(hfile, ca);
        cafile = dir + "/ca.pem"; ca2file = dir + "/ca2.pem";
        put(cafile, ca); put(ca2file, ca2);
        // stands for the bundle of the system (the real one also takes 100 ms to load)
        sysfile = dir + "/system.pem"; put(sysfile, sysca);
        setenv("SSL_CERT_FILE", sysfile.c_str(), 1);
        setenv("SSL_CERT_DIR", (dir + "/none").c_str(), 1);
        sim.active = act; sim.rnd_ctr = ctr;
    }
    static void put(const Str &p, X509 *c) { FILE *f = fopen(p.c_str(), "w"); if (f) { PEM_write_X509(f, c); fclose(f); } }
    ~Pki()
    {
        if (getpid() != owner) return;
        Str c = "rm -rf -- '" + dir + "'";
        if (dir.compare(0, 11, "/tmp/vhpki.") == 0) {
            unlink(hfile.c_str()); rmdir(hdir.c_str());
            for (const char *n : {"ca.pem", "ca2.pem", "system.pem"}) unlink((dir + "/" + n).c_str());
            for (auto &k : clients) { unlink(k.second.first.c_str()); unlink(k.second.second.c_str()); }
            rmdir(dir.c_str());
        }
    }
};
static Pki *g_pki;
static void pki_cleanup() { delete g_pki; g_pki = nullptr; }
static Pki &pki()
{
    if (g_pki && g_pki->owner != getpid()) { g_pki = nullptr; }
    if (!g_pki) {
        g_pki = new Pki;
        atexit(pki_cleanup);
    }
    return *g_pki;
}
const char *ca_file() { return pki().cafile.c_str(); }
const char *other_ca_file() { return pki().ca2file.c_str(); }
const char *ca_dir() { return pki().hdir.c_str(); }
const char *scratch_dir() { return pki().dir.c_str(); }

SSL_CTX *server_ctx(const Str &kind, const Str &domain, int ver)
{
    Pki &p = pki();
    Str id = kind + "|" + domain + "|" + fmt("%d", ver);
    auto it = p.ctxs.find(id);
    if (it != p.ctxs.end()) return it->second;
    bool act = sim.active; unsigned ctr = sim.rnd_ctr;
    sim.active = false;
    Str san = "DNS:" + domain, cn = domain;
    int64_t from = -100, to = 1000;
    X509 *iss = p.ca; EVP_PKEY *ik = p.cakey;
    Str parent = domain.find('.') == Str::npos ? "com" : domain.substr(domain.find('.') + 1);
    Str first = domain.substr(0, domain.find('.'));
    std::vector<X509 *> extra;
    bool clientonly = false, cnonly = false;
    auto token = [&](const Str &k) {
        if (k == "wrongname") { san = "DNS:other.invalid"; cn = domain; }
    else if (k == "subname") { san = "DNS:x." + domain; cn = "x." + domain; }
    else if (k == "suffixname") { san = "DNS:not" + domain; cn = "not" + domain; }
    else if (k == "prefixname") { san = "DNS:" + domain + ".evil.invalid"; cn = domain + ".evil.invalid"; }
    else if (k == "parentname") { san = "DNS:" + parent; cn = parent; }
    else if (k == "partialwild") { san = "DNS:" + first.substr(0, 1) + "*." + parent; cn = "x"; }
    else if (k == "partialwild2") { san = "DNS:*" + first.substr(first.size() - 1) + "." + parent; cn = "x"; }
    else if (k == "wildcard") { san = "DNS:*." + parent; cn = "x"; }
    else if (k == "deepwild") { san = "DNS:*." + domain; cn = "x"; }
    else if (k == "multisan") { san = "DNS:a.invalid,DNS:" + domain + ",DNS:b.invalid"; cn = "a.invalid"; }
    else if (k.compare(0, 8, "manysan:") == 0) { // n names, the domain's at place i or nowhere
        unsigned n = (unsigned)atoi(k.c_str() + 8), at = (unsigned)atoi(k.c_str() + k.rfind(':') + 1);
        san = "";
        for (unsigned i = 0; i < n; i++) san += (i ? ",DNS:" : "DNS:") + (i == at ? domain : fmt("n%u.invalid", i));
        cn = "n0.invalid";
    }
    else if (k == "upper") { Str u = domain; for (auto &c : u) c = toupper(c); san = "DNS:" + u; }
    else if (k == "expired") { from = -500; to = -1; }
    else if (k == "notyet") { from = 1; to = 500; }
    else if (k == "untrusted") { iss = p.ca2; ik = p.ca2key; }
    else if (k == "systemca") { iss = p.sysca; ik = p.syskey; }
    else if (k == "selfsigned") { iss = nullptr; ik = p.leafkey; }
    else if (k == "chain") { iss = p.im; ik = p.imkey; extra = {p.im}; }
    else if (k == "nochain") { iss = p.im; ik = p.imkey; }
    else if (k == "expired_wrongname") { from = -500; to = -1; san = "DNS:other.invalid"; cn = "other.invalid"; }
    else if (k == "clientonly") clientonly = true;
    else if (k == "cnonly") cnonly = true;
    else if (k == "ipsan") { san = "IP:10.0.0.1"; cn = "x"; }
    else if (k == "imexpired") { iss = p.imexp; ik = p.imkey; extra = {p.imexp}; }
    else if (k == "imuntrusted") { iss = p.im2; ik = p.imkey; extra = {p.im2}; }
    else if (k == "imuntrusted_root") { iss = p.im2; ik = p.imkey; extra = {p.im2, p.ca2}; }
    else if (k == "untrusted_root") { iss = p.ca2; ik = p.ca2key; extra = {p.ca2}; }
    else if (k == "leafissuer") { iss = p.fakeim; ik = p.clkey; extra = {p.fakeim}; }
    else if (k == "forged") { iss = p.ca; ik = p.ca2key; }  // names the trusted root as issuer, signed with another key
    else if (k == "short") { to = 1; }
    else if (k == "xmppaddr") { san = "otherName:1.3.6.1.5.5.7.8.5;UTF8:" + domain; cn = "x"; }
    else if (k == "otherxmpp") { san = "DNS:other.invalid,otherName:1.3.6.1.5.5.7.8.5;UTF8:" + domain; cn = "x"; }
    else if (k == "althost") { san = "DNS:host.invalid"; cn = "host.invalid"; }
    else if (k == "uri") { san = "URI:xmpp:" + domain + ",email:admin@" + domain + ",DNS:other.invalid"; cn = "x"; }
    else if (k.compare(0, 5, "name:") == 0) { san = "DNS:" + k.substr(5); cn = k.substr(5); }
    };
    for (size_t i = 0; i <= kind.size();) { size_t e = kind.find('+', i); if (e == Str::npos) e = kind.size(); token(kind.substr(i, e - i)); i = e + 1; }
    std::vector<std::pair<int, Str>> ex = {{NID_basic_constraints, "CA:FALSE"}, {NID_key_usage, "digitalSignature"}};
    if (!cnonly) ex.push_back({NID_subject_alt_name, san});
    if (clientonly) ex.push_back({NID_ext_key_usage, "clientAuth"});
    X509 *c = mkcert(p.leafkey, cn.c_str(), iss, ik, ex, from, to, 100);
    SSL_CTX *x = SSL_CTX_new(TLS_server_method());
    SSL_CTX_use_certificate(x, c);
    SSL_CTX_use_PrivateKey(x, p.leafkey);
    for (X509 *e : extra) { X509_up_ref(e); SSL_CTX_add_extra_chain_cert(x, e); }
    X509_free(c);
    if (ver == 12) SSL_CTX_set_max_proto_version(x, TLS1_2_VERSION);
    if (ver == 13) SSL_CTX_set_min_proto_version(x, TLS1_3_VERSION);
    SSL_CTX_set_session_cache_mode(x, SSL_SESS_CACHE_OFF);
    SSL_CTX_set_options(x, SSL_OP_NO_TICKET);
    SSL_CTX_set_num_tickets(x, 0);
    SSL_CTX_set_verify(x, SSL_VERIFY_PEER, [](int, X509_STORE_CTX *) { return 1; });
    p.ctxs[id] = x;
    ERR_clear_error();
    sim.active = act; sim.rnd_ctr = ctr;
    return x;
}
void client_cert(const std::vector<Str> &addrs, Str &cert, Str &key, unsigned form, const Str &pass)
{
    Pki &p = pki();
    Str id;
    for (auto &a : addrs) id += a + "\n";
    id += fmt("%u ", form) + pass;
    auto it = p.clients.find(id);
    if (it == p.clients.end()) {
        bool act = sim.active; unsigned ctr = sim.rnd_ctr;
        sim.active = false;
        std::vector<std::pair<int, Str>> ex = {{NID_key_usage, "digitalSignature"}};
        Str san;
        for (auto &a : addrs) san += (san.empty() ? "" : ",") + (a.compare(0, 4, "DNS:") == 0 || a.compare(0, 6, "email:") == 0 || a.compare(0, 10, "otherName:") == 0 ? Str() : Str("otherName:1.3.6.1.5.5.7.8.5;UTF8:")) + a;
        if (san.empty()) san = "DNS:client.invalid";
        ex.push_back({NID_subject_alt_name, san});
        EVP_PKEY *own = form == CERT_PEM_ENC ? EVP_EC_gen("P-256") : (EVP_PKEY_up_ref(p.clkey), p.clkey); // (Ed25519 has no traditional form)
        X509 *c = mkcert(own, "client", p.ca, p.cakey, ex, -100, 1000, 200);
        Str cp = p.dir + fmt("/c%zu.pem", p.clients.size()), kp = p.dir + fmt("/k%zu.pem", p.clients.size());
        if (form < CERT_P12) {
            Pki::put(cp, c);
            FILE *f = fopen(kp.c_str(), "w");
            if (f) {
                const unsigned char *pw = (const unsigned char *)pass.c_str();
                if (form == CERT_PEM) PEM_write_PrivateKey(f, p.clkey, nullptr, nullptr, 0, nullptr, nullptr);
                else if (form == CERT_PEM_ENC) {
                    BIO *b = BIO_new_fp(f, BIO_NOCLOSE);
                    PEM_write_bio_PrivateKey_traditional(b, own, EVP_aes_128_cbc(), pw, (int)pass.size(), nullptr, nullptr);
                    BIO_free(b);
                } else PEM_write_PKCS8PrivateKey(f, p.clkey, EVP_aes_128_cbc(), pass.c_str(), (int)pass.size(), nullptr, nullptr);
                fclose(f);
            }
        } else {
            STACK_OF(X509) *ca = nullptr;
            if (form == CERT_P12_CHAIN) { ca = sk_X509_new_null(); sk_X509_push(ca, p.ca); }
            PKCS12 *q = PKCS12_create(pass.empty() ? nullptr : pass.c_str(), "client", p.clkey, c, ca, 0, 0, 1, 1, 0);
            FILE *f = fopen(cp.c_str(), "w");
            if (f && q) i2d_PKCS12_fp(f, q);
            if (f) fclose(f);
            if (ca) sk_X509_free(ca);
            PKCS12_free(q);
            kp = "";
        }
        X509_free(c); EVP_PKEY_free(own);
        ERR_clear_error();
        it = p.clients.insert({id, {cp, kp}}).first;
        sim.active = act; sim.rnd_ctr = ctr;
    }
    cert = it->second.first; key = it->second.second;
}

Str cert_info_check(const xmpp_tlscert_t *c)
{
    const char *pem = xmpp_tlscert_get_pem(c);
    if (!pem) return "there is no PEM form";
    BIO *b = BIO_new_mem_buf(pem, -1);
    X509 *x = PEM_read_bio_X509(b, nullptr, nullptr, nullptr);
    BIO_free(b);
    if (!x) { ERR_clear_error(); return "the PEM form cannot be read"; }
    Str why;
    auto norm = [](const char *s) { Str r; for (; s && *s; s++) if (isxdigit((unsigned char)*s)) r += (char)tolower(*s); return r; };
    for (int k = 0; k < 2; k++) {
        unsigned char d[EVP_MAX_MD_SIZE]; unsigned n = 0;
        X509_digest(x, k ? EVP_sha256() : EVP_sha1(), d, &n);
        Str h; for (unsigned i = 0; i < n; i++) h += fmt("%02x", d[i]);
        Str g = norm(xmpp_tlscert_get_string(c, k ? XMPP_CERT_FINGERPRINT_SHA256 : XMPP_CERT_FINGERPRINT_SHA1));
        if (g != h) why = "fingerprint " + g + " is not that of the certificate, " + h;
    }
    std::vector<Str> want, got;
    if (GENERAL_NAMES *ns = (GENERAL_NAMES *)X509_get_ext_d2i(x, NID_subject_alt_name, nullptr, nullptr)) {
        for (int i = 0; i < sk_GENERAL_NAME_num(ns); i++) {
            GENERAL_NAME *g = sk_GENERAL_NAME_value(ns, i);
            if (g->type == GEN_DNS) want.push_back(Str((const char *)ASN1_STRING_get0_data(g->d.dNSName), (size_t)ASN1_STRING_length(g->d.dNSName)));
        }
        GENERAL_NAMES_free(ns);
    }
    for (size_t i = 0; i < 100; i++) { const char *n = xmpp_tlscert_get_dnsname(c, i); if (!n) break; got.push_back(n); }
    if (want != got) why = fmt("%zu dNSNames are told of, the certificate has %zu", got.size(), want.size());
    for (int k = 0; k < 2; k++) {
        char *n = X509_NAME_oneline(k ? X509_get_issuer_name(x) : X509_get_subject_name(x), nullptr, 0);
        const char *g = xmpp_tlscert_get_string(c, k ? XMPP_CERT_ISSUER : XMPP_CERT_SUBJECT);
        const char *cn = n ? strstr(n, "CN=") : nullptr;
        if (cn && (!g || !strstr(g, cn + 3))) why = fmt("%s %s is not %s", k ? "issuer" : "subject", g ? g : "(none)", n);
        OPENSSL_free(n);
    }
    X509_free(x);
    return why;
}
// ---- transport layers -----------------------------------------------------------------
Srv::Srv()
{
    memset(&zi, 0, sizeof zi); memset(&zo, 0, sizeof zo);
    rd.restart_on_prolog = true;
    rd.on_open = [this](const Node &n) {
        headers++;
        Wire w; w.t = sim.now; w.tls = tls_up; w.z = z_on; w.hdr = headers; w.kind = Wire::HEADER; w.n = n; w.lost = lost;
        wire.push_back(w);
        trace("  [%llu] C: header %s", (unsigned long long)(sim.now - SIM_EPOCH), n.show().c_str());
        // were bytes sent that the client may read before or after it starts over?
        const Wire *last = nullptr;
        for (auto it = wire.rbegin() + 1; it != wire.rend() && !last; ++it) if (it->srv) last = &*it;
        if (headers == 1) { if (!sent_xml.empty()) ambiguous = true; }
        else if (!srd.idle() || !srd.err.empty() || srd.stack.size() != 1) ambiguous = true;
        else if (!last || last->kind != Wire::EL || !(last->sis("success", NS_SASL) || last->sis("proceed", NS_TLS) || last->sis("compressed", NS_COMP))) ambiguous = true;
        srd.reset();
        xp_reset();
        if (!lost) on_header(n);
    };
    auto sw = [this](Wire::Kind k, const Node *n, const Str *raw) {
        Wire w; w.t = sim.now; w.srv = true; w.tls = tls_up; w.z = z_on; w.hdr = headers; w.kind = k;
        if (n) w.n = *n;
        if (raw) w.raw = *raw;
        wire.push_back(w);
    };
    srd.restart_on_prolog = true;
    srd.on_open = [sw](const Node &n) { sw(Wire::HEADER, &n, nullptr); };
    srd.on_stanza = [sw](const Node &n, const Str &raw) { sw(Wire::EL, &n, &raw); };
    srd.on_close = [sw]() { sw(Wire::CLOSE, nullptr, nullptr); };
    rd.on_stanza = [this](const Node &n, const Str &raw) {
        Wire w; w.t = sim.now; w.tls = tls_up; w.z = z_on; w.hdr = headers; w.kind = Wire::EL; w.n = n; w.raw = raw; w.lost = lost;
        wire.push_back(w);
        trace("  [%llu] C: %s", (unsigned long long)(sim.now - SIM_EPOCH), esc(raw, 600).c_str());
        if (!lost) on_el(n, raw);
    };
    rd.on_close = [this]() {
        Wire w; w.t = sim.now; w.tls = tls_up; w.z = z_on; w.hdr = headers; w.kind = Wire::CLOSE;
        wire.push_back(w);
        trace("  [%llu] C: </stream>", (unsigned long long)(sim.now - SIM_EPOCH));
        if (!lost) on_end();
    };
    rd.on_junk = [this](const Str &d) {
        Wire w; w.t = sim.now; w.tls = tls_up; w.z = z_on; w.hdr = headers; w.kind = Wire::JUNK; w.raw = d;
        wire.push_back(w);
        trace("  [%llu] C: text %s", (unsigned long long)(sim.now - SIM_EPOCH), esc(d).c_str());
    };
}
void Srv::xp_reset()
{
    if (xp) XML_ParserFree(xp);
    xp = XML_ParserCreateNS(nullptr, (char)0xff);
    xp_err = false;
}
Srv::~Srv()
{
    if (xp) XML_ParserFree(xp);
    if (ssl) SSL_free(ssl);
    if (z_on) { inflateEnd(&zi); deflateEnd(&zo); }
    if (s && s->peer == this) s->peer = nullptr;
}
void Srv::attach(Sock *sk) { s = sk; sk->peer = this; }
void Srv::on_client_close(Sock *)
{
    client_closed = true;
    trace("  [%llu] client closed the socket", (unsigned long long)(sim.now - SIM_EPOCH));
}
void Srv::on_data(Sock *, const char *d, size_t n)
{
    if (deaf) return;
    if (!tls_on) { plain.append(d, n); feed_plain(Str(d, n)); return; }
    raw_tls.append(d, n);
    BIO_write(rb, d, (int)n);
    tls_pump();
}
void Srv::tls_pump()
{
    if (tls_failed) return;
    if (!tls_up) {
        ERR_clear_error();
        int r = SSL_do_handshake(ssl);
        if (r == 1) { tls_up = true; trace("  [%llu] TLS up (server side), %s", (unsigned long long)(sim.now - SIM_EPOCH), SSL_get_version(ssl)); }
        else {
            int e = SSL_get_error(ssl, r);
            if (e != SSL_ERROR_WANT_READ && e != SSL_ERROR_WANT_WRITE) { tls_failed = true; trace("  [%llu] TLS handshake failed (server side): %s", (unsigned long long)(sim.now - SIM_EPOCH), ERR_reason_error_string(ERR_peek_last_error()) ? ERR_reason_error_string(ERR_peek_last_error()) : "?"); }
        }
        char b[8192]; int k;
        while ((k = BIO_read(wb, b, sizeof b)) > 0) {
            Str f(b, k);
            if (hs_act && !hs_done) {
                if (f.size() <= hs_left) hs_left -= f.size();
                else { f.resize(hs_left); hs_done = true; }
            } else if (hs_done) continue;
            if (!f.empty()) out_raw(f);
            if (hs_done) {
                static const char *names[] = {"", "silence", "close", "reset", "garbage", "plaintext", "alert"};
                trace("  server: %s in mid-handshake", names[hs_act]);
                if (hs_act == 2 || hs_act == 3) close_tcp(hs_act == 3);
                else if (hs_act == 4) out_raw("\x16\x03\x03\x00\x04zzzzgarbage");
                else if (hs_act == 5) out_raw("<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' from='x' id='1' version='1.0'><stream:features><mechanisms xmlns='urn:ietf:params:xml:ns:xmpp-sasl'><mechanism>PLAIN</mechanism></mechanisms></stream:features>");
                else if (hs_act == 6) out_raw(Str("\x15\x03\x03\x00\x02\x02\x28", 7));
            }
        }
        if (hs_done) { tls_failed = true; return; }
        if (tls_up) on_tls_result(true);
        else if (tls_failed) { on_tls_result(false); return; }
        if (!tls_up) return;
    }
    char b[16384];
    for (;;) {
        ERR_clear_error();
        int r = SSL_read(ssl, b, sizeof b);
        if (r <= 0) {
            int e = SSL_get_error(ssl, r);
            if (e == SSL_ERROR_SSL) { tls_failed = true; Wire w; w.t = sim.now; w.kind = Wire::ERR; w.hdr = headers; w.raw = fmt("TLS error: %s", ERR_reason_error_string(ERR_peek_last_error())); wire.push_back(w); trace("  server: %s", w.raw.c_str()); }
            break;
        }
        feed_plain(Str(b, r));
        if (!tls_on) break;
    }
    char c[8192]; int k;
    while ((k = BIO_read(wb, c, sizeof c)) > 0) out_raw(Str(c, k));
}
void Srv::feed_plain(const Str &d)
{
    if (!z_on) { feed_xml(d); return; }
    if (z_err) return;
    zi.next_in = (Bytef *)d.data(); zi.avail_in = (uInt)d.size();
    char b[8192];
    for (;;) {
        zi.next_out = (Bytef *)b; zi.avail_out = sizeof b;
        int r = inflate(&zi, Z_SYNC_FLUSH);
        size_t got = sizeof b - zi.avail_out;
        if (got) feed_xml(Str(b, got));
        if (r != Z_OK && r != Z_BUF_ERROR) {
            z_err = true;
            Wire w; w.t = sim.now; w.kind = Wire::ERR; w.hdr = headers; w.raw = fmt("inflate error %d", r); wire.push_back(w);
            trace("  server: %s", w.raw.c_str());
            return;
        }
        if (zi.avail_out) return;
    }
}
void Srv::feed_xml(const Str &d)
{
    xml += d;
    if (opaque) return;
    if (!rd.err.empty()) return;
    if (!rd.feed(d)) {
        Wire w; w.t = sim.now; w.tls = tls_up; w.z = z_on; w.hdr = headers; w.kind = Wire::ERR; w.raw = rd.err;
        wire.push_back(w);
        trace("  server: client sent bad XML: %s", rd.err.c_str());
        if (!lost) on_badxml();
    }
}
void Srv::tls_start(SSL_CTX *x)
{
    if (tls_on) return;
    tls_on = true;
    ssl = SSL_new(x);
    rb = BIO_new(BIO_s_mem()); wb = BIO_new(BIO_s_mem());
    SSL_set_bio(ssl, rb, wb);
    SSL_set_accept_state(ssl);
    trace("  server: waiting for TLS");
}
void Srv::z_start()
{
    if (z_on) return;
    inflateInit(&zi);
    deflateInit(&zo, zlevel);
    z_on = true;
}
void Srv::out(const Str &x)
{
    if (ended || we_closed) return;
    if (tls_on && !tls_up) return;
    sent_xml += x;
    if (srd.err.empty()) srd.feed(x);
    if (!xp) xp_reset();
    if (!xp_err && XML_Parse(xp, x.data(), (int)x.size(), 0) == XML_STATUS_ERROR) xp_err = true;
    trace("  [%llu] S: %s", (unsigned long long)(sim.now - SIM_EPOCH), esc(x, 900).c_str());
    Str d = x;
    if (z_on) {
        Str o; char b[8192];
        zo.next_in = (Bytef *)d.data(); zo.avail_in = (uInt)d.size();
        do {
            zo.next_out = (Bytef *)b; zo.avail_out = sizeof b;
            deflate(&zo, zflush);
            o.append(b, sizeof b - zo.avail_out);
        } while (zo.avail_out == 0);
        d = o;
    }
    if (tls_on) {
        if (!tls_up) return;
        size_t off = 0;
        while (off < d.size()) {
            int r = SSL_write(ssl, d.data() + off, (int)std::min<size_t>(d.size() - off, 16000));
            if (r <= 0) break;
            off += r;
        }
        char b[8192]; int k; Str o;
        while ((k = BIO_read(wb, b, sizeof b)) > 0) o.append(b, k);
        d = o;
    }
    out_raw(d);
}
void Srv::out_raw(const Str &d)
{
    if (!s || we_closed) return;
    if (frag == 1 && d.size() > 1) {
        size_t off = 0; uint64_t dly = latency; int parts = 0;
        while (off < d.size()) {
            size_t k = parts++ > 6 ? d.size() - off : 1 + draw((uint32_t)(d.size() - off));
            sim.push(s, d.substr(off, k), dly);
            off += k;
            if (draw(2)) dly += draw(30);
        }
        last_out = sim.now + dly;
    } else { sim.push(s, d, latency); last_out = sim.now + latency; }
}
void Srv::close_tcp(bool reset)
{
    if (!s || we_closed) return;
    trace("  [%llu] server %s", (unsigned long long)(sim.now - SIM_EPOCH), reset ? "resets" : "closes");
    if (reset) sim.rst(s, latency); else sim.fin(s, latency);
    we_closed = true;
}

// ---- XMPP server -----------------------------------------------------------------------
void XNet::begin()
{
    pki();
    sim.accept = [this](Sock *sk) {
        conns.emplace_back(new XServ);
        XServ *x = conns.back().get();
        x->net = this; x->cf = cf; x->index = (int)conns.size() - 1;
        x->attach(sk);
        if (cf.legacy_ssl) x->tls_start(server_ctx(cf.cert, cf.cert_domain.empty() ? cf.domain : cf.cert_domain, cf.tlsver));
    };
}
void XNet::end() { conns.clear(); sess.clear(); tweak = nullptr; on_stanza = nullptr; on_up = nullptr; }

void XServ::reply(const char *step, Str x)
{
    if (net->tweak && net->tweak(*this, step, x)) return;
    out(x);
}
Str XServ::header_xml()
{
    if (stream_id.empty() || headers > 1) stream_id = cf.stream_id.empty() ? rnd_hex(12) : cf.stream_id;
    return Str("<?xml version='1.0'?><stream:stream xmlns='") + (cf.component ? "jabber:component:accept" : "jabber:client") +
           "' xmlns:stream='" + NS_STREAMS + "' from='" + xml_esc(cf.component ? cf.comp_jid : cf.domain, true) + "' id='" + xml_esc(stream_id, true) + "'" +
           (cf.component || cf.old_stream ? "" : " version='1.0' xml:lang='en'") + ">";
}
Str XServ::features_xml()
{
    Str f;
    offered.clear();
    if (!authed) {
        if (cf.tls && !tls_up) { f += element("starttls", NS_TLS); offered.push_back("starttls"); }
        auto &m = tls_up ? cf.mech_tls : cf.mech_plain;
        if (!m.empty()) {
            f += Str("<mechanisms xmlns='") + NS_SASL + "'>";
            for (auto &x : m) { f += "<mechanism>" + xml_esc(x) + "</mechanism>"; offered.push_back("mech:" + x); }
            f += "</mechanisms>";
        }
    } else {
        if (cf.zlib && !z_on) { f += Str("<compression xmlns='") + NS_FCOMP + "'><method>lzw</method><method>zlib</method></compression>"; offered.push_back("zlib"); }
        if (cf.bind) { f += element("bind", NS_BIND); offered.push_back("bind"); }
        if (cf.session) { f += element("session", NS_SESSION, cf.session == 1 ? "<optional/>" : ""); offered.push_back("session"); }
        if (cf.sm) { f += element("sm", NS_SM); offered.push_back("sm"); }
    }
    return "<stream:features>" + f + "</stream:features>";
}
void XServ::on_header(const Node &)
{
    reply("header", header_xml());
    if (cf.component || cf.old_stream) return;
    reply("features", features_xml());
}
void XServ::on_end()
{
    reply("end", "</stream:stream>");
    close_tcp();
}
void XServ::on_badxml() { if (!we_closed) { out("<stream:error><not-well-formed xmlns='urn:ietf:params:xml:ns:xmpp-streams'/></stream:error></stream:stream>"); close_tcp(); } }
void XServ::on_tls_result(bool ok) { if (!ok) close_tcp(); }
void XServ::went_up()
{
    if (up) return;
    up = true;
    if (net->on_up) net->on_up(*this);
}
void XServ::on_el(const Node &n, const Str &raw)
{
    if (n.ns == NS_TLS && n.name == "starttls") {
        if (!cf.tls || tls_on) { reply("tls-failure", element("failure", NS_TLS)); return; }
        Str x = element("proceed", NS_TLS);
        if (net->tweak && net->tweak(*this, "proceed", x)) return;
        out(x);
        tls_start(server_ctx(cf.cert, cf.cert_domain.empty() ? cf.domain : cf.cert_domain, cf.tlsver));
        return;
    }
    if (n.ns == NS_SASL && n.name == "auth") { sasl_auth(n); return; }
    if (n.ns == NS_SASL && n.name == "response") { sasl_resp(n); return; }
    if (n.ns == NS_COMP && n.name == "compress") {
        Str x = element("compressed", NS_COMP);
        if (!cf.zlib || z_on) x = element("failure", NS_COMP, "<unsupported-method/>");
        if (net->tweak && net->tweak(*this, "compressed", x)) return;
        out(x);
        if (cf.zlib && !z_on) z_start();
        return;
    }
    if (cf.component && n.name == "handshake") {
        AuthRec a; a.mech = "component"; a.hdr = headers; a.done = true;
        Str want = hexs(dig("sha1", stream_id + cf.secret));
        if (n.deep_text() != want) a.why = fmt("handshake is %s, expected %s", n.deep_text().c_str(), want.c_str());
        a.ok = a.why.empty();
        auths.push_back(a);
        if (a.ok) { authed = true; reply("handshake", "<handshake/>"); went_up(); }
        else { reply("handshake-failure", "<stream:error><not-authorized xmlns='urn:ietf:params:xml:ns:xmpp-streams'/></stream:error></stream:stream>"); close_tcp(); }
        return;
    }
    if (n.ns == NS_SM) {
        if (n.name == "enable") {
            if (!cf.sm || sm_on) { reply("failed", element("failed", NS_SM, "<unexpected-request xmlns='urn:ietf:params:xml:ns:xmpp-stanzas'/>")); return; }
            net->sess.emplace_back(new SmSess);
            sm = net->sess.back().get();
            sm->id = "sm-" + rnd_hex(8); sm->jid = bound_jid; sm->live = true;
            sm_on = true;
            const Str *r = n.attr("resume");
            bool res = cf.sm_resume && r && (*r == "true" || *r == "1");
            reply("enabled", element("enabled", NS_SM, "", res ? "id='" + sm->id + "' resume='true'" : ""));
            went_up();
            return;
        }
        if (n.name == "resume") {
            const Str *p = n.attr("previd");
            SmSess *f = nullptr;
            for (auto &q : net->sess) if (p && q->id == *p) f = q.get();
            if (!f || f->forgotten || !cf.sm || !cf.sm_resume) {
                reply("resume-failed", element("failed", NS_SM, "<item-not-found xmlns='urn:ietf:params:xml:ns:xmpp-stanzas'/>", f && cf.sm ? fmt("h='%u'", f->h_in) : ""));
                return;
            }
            sm = f; sm_on = true; sm->live = true; bound_jid = sm->jid; bound = true;
            reply("resumed", element("resumed", NS_SM, "", fmt("previd='%s' h='%u'", xml_esc(sm->id, true).c_str(), sm->h_in)));
            went_up();
            return;
        }
        if (n.name == "r") { if (sm_on) reply("a", element("a", NS_SM, "", fmt("h='%u'", sm->h_in))); return; }
        if (n.name == "a") { if (net->on_stanza) net->on_stanza(*this, n, raw); return; }
        return;
    }
    bool stanza = n.name == "iq" || n.name == "message" || n.name == "presence";
    if (sm_on && sm && stanza) { sm->h_in++; sm->got.push_back(raw); }
    if (n.name == "iq") {
        const Str *id = n.attr("id");
        Str ids = id ? *id : "";
        if (const Node *b = n.child("bind", NS_BIND)) {
            const Node *r = b->child("resource");
            Str res = cf.resource.empty() ? (r ? r->deep_text() : "gen-" + rnd_hex(4)) : cf.resource;
            bound_jid = cf.user + "@" + cf.domain + "/" + res;
            bound = true;
            reply("bind", fmt("<iq type='result' id='%s'>", ids.c_str()) + element("bind", NS_BIND, "<jid>" + xml_esc(bound_jid) + "</jid>") + "</iq>");
            if (!cf.sm && !cf.session) went_up();
            return;
        }
        if (n.child("session", NS_SESSION)) {
            reply("session", fmt("<iq type='result' id='%s'/>", ids.c_str()));
            if (!cf.sm) went_up();
            return;
        }
        if (const Node *q = n.child("query", NS_AUTH)) {
            AuthRec a; a.mech = "legacy"; a.hdr = headers; a.done = true;
            auto t = [&](const char *k) { const Node *c = q->child(k); return c ? c->deep_text() : Str("(none)"); };
            if (t("username") != cf.user) a.why = "username " + t("username");
            else if (t("password") != cf.pass) a.why = "password differs";
            else if (!cf.resource.empty() && t("resource") != cf.resource) a.why = "resource " + t("resource");
            a.ok = a.why.empty();
            auths.push_back(a);
            authed = a.ok && cf.accept_auth;
            if (authed) { bound_jid = cf.user + "@" + cf.domain + "/" + t("resource"); bound = true; }
            reply("legacy", authed ? fmt("<iq type='result' id='%s'/>", ids.c_str()) : fmt("<iq type='error' id='%s'><error type='auth'><not-authorized xmlns='%s'/></error></iq>", ids.c_str(), NS_STANZAS));
            if (authed) went_up();
            return;
        }
    }
    if (stanza && net->on_stanza) net->on_stanza(*this, n, raw);
}

// ---- SASL, verified independently --------------------------------------------------------
Str scram_md(const Str &m)
{
    if (m.find("SHA-512") != Str::npos) return "sha512";
    if (m.find("SHA-256") != Str::npos) return "sha256";
    if (m.find("SHA-1") != Str::npos) return "sha1";
    return "";
}
Str cb_data(SSL *ssl, Str &type)
{
    if (!ssl) { type = ""; return ""; }
    if (SSL_version(ssl) >= TLS1_3_VERSION) {
        type = "tls-exporter";
        unsigned char b[32];
        const char *l = "EXPORTER-Channel-Binding";
        SSL_export_keying_material(ssl, b, 32, l, strlen(l), (const unsigned char *)"", 0, 1);
        return Str((char *)b, 32);
    }
    type = "tls-unique";
    char b[64];
    // the first Finished message of the handshake: the client's, unless the session was resumed
    size_t n = SSL_session_reused(ssl) ? SSL_get_finished(ssl, b, sizeof b) : SSL_get_peer_finished(ssl, b, sizeof b);
    return Str(b, n);
}
void XServ::sasl_auth(const Node &n)
{
    const Str *m = n.attr("mechanism");
    mech = m ? *m : "";
    AuthRec a; a.mech = mech; a.hdr = headers;
    auths.push_back(a);
    sasl_step = 1;
    Str data, t = n.deep_text();
    bool has = !t.empty();
    if (t == "=") data = "";
    else if (!b64dec(t, data)) { sasl_end("initial response is not base64: " + esc(t)); return; }
    auths.back().data = data; auths.back().has_data = has;
    if (mech == "PLAIN") {
        Str want = Str(1, '\0') + cf.user + Str(1, '\0') + cf.pass;
        sasl_end(data == want ? "" : "PLAIN message is " + esc(data) + ", expected " + esc(want));
    } else if (mech == "ANONYMOUS") sasl_end("");
    else if (mech == "EXTERNAL") {
        // "=" (no authorization identity) or the bare/full JID
        if (!has) sasl_end("EXTERNAL without initial response");
        else sasl_end(data.empty() || data == cf.user + "@" + cf.domain || data.compare(0, cf.user.size() + cf.domain.size() + 2, cf.user + "@" + cf.domain + "/") == 0 ? "" : "EXTERNAL identity " + esc(data));
    } else if (mech == "DIGEST-MD5") {
        if (has) { sasl_end("DIGEST-MD5 with an initial response"); return; }
        Str c;
        if (cf.have_realm) { Str q; for (char ch : cf.realm.empty() ? cf.domain : cf.realm) { if (ch == '"' || ch == '\\') q += '\\'; q += ch; } c += "realm=\"" + q + "\","; }
        used_nonce = cf.dnonce.empty() ? rnd_hex(16) : cf.dnonce;
        { Str q; for (char ch : used_nonce) { if (ch == '"' || ch == '\\') q += '\\'; q += ch; } c += "nonce=\"" + q + "\""; }
        if (!cf.qop.empty()) c += ",qop=\"" + cf.qop + "\"";
        if (cf.charset) c += ",charset=utf-8";
        c += ",algorithm=md5-sess";
        if (cf.dchal) c = cf.dchal(used_nonce);
        trace("  server: digest challenge %s", esc(c).c_str());
        reply("challenge", element("challenge", NS_SASL, cf.chal_text ? cf.chal_text(b64enc(c)) : b64enc(c)));
    } else if (mech.compare(0, 6, "SCRAM-") == 0 && !scram_md(mech).empty()) {
        Str why;
        if (!scram_first(data, why)) { sasl_end(why); return; }
        full_nonce = cnonce + (cf.snonce.empty() ? rnd_hex(10) : cf.snonce);
        Str salt = cf.salt.empty() ? Str("saltSALTsalt") : cf.salt;
        s_first = "r=" + full_nonce + ",s=" + b64enc(salt) + ",i=" + fmt("%u", cf.iters) + cf.scram_ext;
        if (cf.schal) { s_first = cf.schal(cnonce); trace("  server: unacceptable challenge %s", esc(s_first).c_str()); }
        reply("challenge", element("challenge", NS_SASL, cf.chal_text ? cf.chal_text(b64enc(s_first)) : b64enc(s_first)));
    } else sasl_end("unknown mechanism " + esc(mech));
}
Str last_cnonce;
bool XServ::scram_first(const Str &msg, Str &why)
{
    last_cnonce = "";
    // gs2-header: ("p=" cb-name / "n" / "y") "," [authzid] ","
    bool plus = mech.size() > 5 && mech.compare(mech.size() - 5, 5, "-PLUS") == 0;
    size_t c1 = msg.find(','), c2 = c1 == Str::npos ? c1 : msg.find(',', c1 + 1);
    if (c2 == Str::npos) { why = "client-first without gs2 header: " + esc(msg); return false; }
    Str flag = msg.substr(0, c1), authz = msg.substr(c1 + 1, c2 - c1 - 1);
    gs2 = msg.substr(0, c2 + 1);
    if (!authz.empty() && authz.compare(0, 2, "a=")) { why = "bad authzid in " + esc(msg); return false; }
    if (plus) {
        Str ty; cb_data(tls_up ? ssl : nullptr, ty);
        if (flag != "p=" + ty) { why = "-PLUS with flag " + esc(flag) + ", expected p=" + ty; return false; }
    } else if (flag != "n" && flag != "y") { why = "gs2 flag " + esc(flag); return false; }
    if (flag == "y" && std::find(offered.begin(), offered.end(), "mech:" + mech + "-PLUS") != offered.end()) auths.back().alt = "gs2-y";
    cf_bare = msg.substr(c2 + 1);
    if (cf_bare.compare(0, 2, "n=")) { why = "client-first-bare does not begin with n=: " + esc(cf_bare); return false; }
    size_t e = cf_bare.find(',');
    if (e == Str::npos || cf_bare.compare(e, 3, ",r=")) { why = "no nonce after the username: " + esc(cf_bare); return false; }
    Str name = cf_bare.substr(2, e - 2), un;
    for (size_t i = 0; i < name.size(); i++) {
        if (name[i] != '=') { un += name[i]; continue; }
        if (name.compare(i, 3, "=2C") == 0) un += ',';
        else if (name.compare(i, 3, "=3D") == 0) un += '=';
        else { why = "bare '=' in the username " + esc(name); return false; }
        i += 2;
    }
    if (un != cf.user) { why = "username is " + esc(un) + ", expected " + esc(cf.user); return false; }
    cnonce = cf_bare.substr(e + 3);
    size_t x = cnonce.find(',');
    if (x != Str::npos) { why = "extensions in client-first: " + esc(cf_bare); return false; }
    if (cnonce.empty()) { why = "empty client nonce"; return false; }
    for (unsigned char ch : cnonce) if (ch < 0x21 || ch > 0x7e) { why = "unprintable client nonce"; return false; }
    auths.back().nonce = last_cnonce = cnonce;
    return true;
}
static Str pbkdf(const Str &md, const Str &pass, const Str &salt, unsigned it)
{
    Str o(EVP_MD_get_size(EVP_get_digestbyname(md.c_str())), 0);
    PKCS5_PBKDF2_HMAC(pass.data(), (int)pass.size(), (const unsigned char *)salt.data(), (int)salt.size(), (int)it, EVP_get_digestbyname(md.c_str()), (int)o.size(), (unsigned char *)&o[0]);
    return o;
}
Str XServ::scram_final(const Str &msg, Str &why)
{
    size_t p = msg.rfind(",p=");
    if (p == Str::npos) { why = "client-final without proof: " + esc(msg); return ""; }
    Str wo = msg.substr(0, p), proof, c;
    if (!b64dec(msg.substr(p + 3), proof)) { why = "proof is not base64"; return ""; }
    Str cb = gs2;
    if (gs2[0] == 'p') { Str ty; cb += cb_data(ssl, ty); }
    Str want = "c=" + b64enc(cb) + ",r=" + full_nonce;
    if (wo != want) { why = "client-final-without-proof is " + esc(wo) + ", expected " + esc(want); return ""; }
    Str md = scram_md(mech), salt = cf.salt.empty() ? Str("saltSALTsalt") : cf.salt;
    Str am = cf_bare + "," + s_first + "," + wo, sp, pr;
    for (int k = cf.has_prep ? 0 : 1; k < 2; k++) {
        sp = pbkdf(md, k ? cf.pass : cf.prep_pass, salt, cf.iters);
        Str ck = hmac_(md.c_str(), sp, "Client Key"), sk = dig(md.c_str(), ck);
        Str cs = hmac_(md.c_str(), sk, am);
        pr = ck;
        for (size_t i = 0; i < pr.size(); i++) pr[i] ^= cs[i];
        if (pr == proof) { if (k && cf.has_prep) auths.back().alt = "saslprep"; break; }
    }
    if (pr != proof) { why = "proof does not verify (" + hexs(proof) + " instead of " + hexs(pr) + ")"; return ""; }
    return "v=" + b64enc(hmac_(md.c_str(), hmac_(md.c_str(), sp, "Server Key"), am));
}
static Str latin1(const Str &s) // converted if every character is in ISO 8859-1
{
    Str o;
    for (size_t i = 0; i < s.size(); i++) {
        unsigned char c = s[i];
        if (c < 0x80) o += s[i];
        else if ((c == 0xc2 || c == 0xc3) && i + 1 < s.size()) o += (char)(((c & 3) << 6) | (s[++i] & 0x3f));
        else return s;
    }
    return o;
}
Str XServ::digest_check(const Str &msg, Str &why)
{
    std::map<Str, Str> d;
    std::map<Str, bool> quoted;
    size_t i = 0;
    for (;;) {
        size_t e = msg.find('=', i);
        if (e == Str::npos) { why = "bad digest-response " + esc(msg); return ""; }
        Str k = msg.substr(i, e - i), v;
        i = e + 1;
        if (i < msg.size() && msg[i] == '"') {
            i++;
            while (i < msg.size() && msg[i] != '"') { if (msg[i] == '\\' && i + 1 < msg.size()) i++; v += msg[i++]; }
            if (i >= msg.size()) { why = "unterminated string in " + esc(msg); return ""; }
            i++;
            quoted[k] = true;
        } else {
            while (i < msg.size() && msg[i] != ',') v += msg[i++];
            if (v.empty()) { why = "empty token for " + esc(k) + " in " + esc(msg); return ""; }
        }
        if (d.count(k)) { why = "directive " + esc(k) + " twice"; return ""; }
        d[k] = v;
        if (i >= msg.size()) break;
        if (msg[i] != ',') { why = "garbage after " + esc(k) + " in " + esc(msg); return ""; }
        i++;
    }
    Str realm = cf.have_realm ? (cf.realm.empty() ? cf.domain : cf.realm) : "";
    if (cf.have_realm || d.count("realm")) {
        if (cf.have_realm && d["realm"] != realm) { why = "realm " + esc(d["realm"]); return ""; }
        realm = d["realm"];
    }
    if (d["username"] != cf.user) { why = "username " + esc(d["username"]); return ""; }
    if (d["nonce"] != used_nonce) { why = "nonce " + esc(d["nonce"]) + " instead of " + esc(used_nonce); return ""; }
    if (d["nc"] != "00000001") { why = "nc " + esc(d["nc"]); return ""; }
    if (d["cnonce"].empty()) { why = "no cnonce"; return ""; }
    const Str qop = cf.qop_int ? "auth-int" : "auth", a2x = cf.qop_int ? ":" + Str(32, '0') : Str();
    if (cf.qop_int ? d["qop"] != qop : d.count("qop") && d["qop"] != qop) { why = "qop " + esc(d["qop"]); return ""; }
    if (d["digest-uri"] != "xmpp/" + cf.domain) { why = "digest-uri " + esc(d["digest-uri"]); return ""; }
    if (d.count("charset") && (d["charset"] != "utf-8" || !cf.charset)) { why = "charset " + esc(d["charset"]); return ""; }
    auths.back().nonce = d["cnonce"];
    Str a1 = dig("md5", cf.user + ":" + realm + ":" + cf.pass) + ":" + d["nonce"] + ":" + d["cnonce"];
    if (cf.digest_strict) {
        Str lu = latin1(cf.user), lp = latin1(cf.pass);
        if (lu != cf.user || lp != cf.pass) {
            Str raw = a1;
            a1 = dig("md5", lu + ":" + realm + ":" + lp) + ":" + d["nonce"] + ":" + d["cnonce"];
            auto r = [&](const Str &x) { return hexs(dig("md5", hexs(dig("md5", x)) + ":" + d["nonce"] + ":00000001:" + d["cnonce"] + ":" + qop + ":" + hexs(dig("md5", "AUTHENTICATE:" + d["digest-uri"] + a2x)))); };
            if (d["response"] != r(a1) && d["response"] == r(raw)) { a1 = raw; auths.back().alt = "digest-latin1"; }
        }
    }
    auto resp = [&](const Str &a2) { return hexs(dig("md5", hexs(dig("md5", a1)) + ":" + d["nonce"] + ":00000001:" + d["cnonce"] + ":" + qop + ":" + hexs(dig("md5", a2 + a2x)))); };
    if (d["response"] != resp("AUTHENTICATE:" + d["digest-uri"])) { why = "response " + esc(d["response"]) + ", expected " + resp("AUTHENTICATE:" + d["digest-uri"]) + " for " + esc(msg); return ""; }
    return "rspauth=" + resp(":" + d["digest-uri"]);
}
void XServ::sasl_resp(const Node &n)
{
    if (!sasl_step || auths.empty()) { out(element("failure", NS_SASL, "<not-authorized/>")); return; }
    Str data, t = n.deep_text();
    if (!b64dec(t, data)) { sasl_end("response is not base64: " + esc(t)); return; }
    if (mech == "DIGEST-MD5" && sasl_step == 1) {
        Str why, r = digest_check(data, why);
        if (!why.empty()) { sasl_end(why); return; }
        sasl_step = 2;
        reply("challenge2", element("challenge", NS_SASL, b64enc(r)));
    } else if (mech == "DIGEST-MD5" && sasl_step == 2) sasl_end("");
    else if (sasl_step == 1 && cf.schal) sasl_end("answers " + esc(s_first) + " with " + esc(data));
    else if (sasl_step == 1) {
        Str why, v = scram_final(data, why);
        sasl_end(why, b64enc(v));
    } else sasl_end("unexpected response");
}
void XServ::sasl_end(const Str &why, const Str &extra)
{
    AuthRec &a = auths.back();
    a.done = true; a.why = why; a.ok = why.empty();
    sasl_step = 0;
    if (!why.empty()) trace("  server: %s rejected: %s", mech.c_str(), why.c_str());
    bool rej = !cf.accept_auth || std::find(cf.reject_mechs.begin(), cf.reject_mechs.end(), mech) != cf.reject_mechs.end();
    if (a.ok && !rej) {
        authed = true;
        reply("success", element("success", NS_SASL, extra));
    } else reply("failure", element("failure", NS_SASL, "<not-authorized/>"));
}
