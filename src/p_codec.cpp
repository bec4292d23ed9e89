// C15 (DNS SRV decoding), C17 (digests), C18 (base64), C19 (JIDs)
#include "vh.h"
#include "shim.h"
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <sys/mman.h>
#include <unistd.h>

struct Ctx {
    VMem m;
    xmpp_ctx_t *ctx;
    Ctx() { vmem_fill = (uint8_t)(0x41 + draw(120)); ctx = xmpp_ctx_new(&m.mem, vlog()); }
    ~Ctx()
    {
        if (ctx) xmpp_ctx_free(ctx);
    }
    void done(const char *what)
    {
        xmpp_ctx_free(ctx);
        ctx = nullptr;
        if (m.bad) fail("alloc", "%s: %s", what, m.badmsg.c_str());
        if (!m.live.empty()) fail("leak", "%s: %zu blocks (%zu bytes) were not returned to the allocator", what, m.live.size(), m.bytes());
    }
};
static uint8_t rbyte()
{
    switch (draw(6)) {
    case 0: return (uint8_t)draw(256);
    case 1: return 0;
    case 2: return 0xff;
    case 3: return 0x80;
    default: return 'a' + draw(26);
    }
}
static Str rbytes(size_t n)
{
    Str s(n, 0);
    if (n > 64) { // cheap on the tape
        uint64_t x = bits64() | 1;
        bool zero = draw(8) == 7;
        for (size_t i = 0; i < n; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; s[i] = zero ? 0 : (char)(x >> 24); }
    } else for (size_t i = 0; i < n; i++) s[i] = (char)rbyte();
    return s;
}

// ---------------------------------------------------------------- C17
static const char *dname[] = {"sha1", "sha256", "sha512", "md5"};
static const size_t dlen[] = {20, 32, 64, 16};
static const EVP_MD *evp(int a)
{
    static const EVP_MD *m[] = {EVP_sha1(), EVP_sha256(), EVP_sha512(), EVP_md5()};
    return m[a];
}
static Str hex(const uint8_t *p, size_t n) { Str s; for (size_t i = 0; i < n; i++) s += fmt("%02x", p[i]); return s; }
static void ref_digest(int a, const uint8_t *d, size_t n, uint8_t *out)
{
    unsigned l;
    EVP_Digest(d, n, out, &l, evp(a), nullptr);
}
static size_t rchunk(size_t left)
{
    size_t c;
    switch (draw(9)) {
    case 0: c = left; break;
    case 1: c = 0; break;
    case 2: c = 1; break;
    case 3: c = 55 + draw(12); break;
    case 4: c = 63 + draw(3); break;
    case 5: c = 111 + draw(20); break;
    case 6: c = 127 + draw(3); break;
    case 7: c = 64 * (1 + draw(4)); break;
    default: c = draw(2000); break;
    }
    return std::min(c, left);
}
static void check_digest(const char *how, int a, const uint8_t *got, const uint8_t *want, size_t n, const Str &splits)
{
    if (memcmp(got, want, dlen[a]) != 0)
        fail(fmt("digest-%s-%s", dname[a], how).c_str(), "%s of %zu bytes (%s): got %s want %s; update sizes %s", dname[a], n, how,
             hex(got, dlen[a]).c_str(), hex(want, dlen[a]).c_str(), splits.substr(0, 300).c_str());
}
static uint8_t *big_map(size_t total)
{
    size_t chunk = 1 << 20;
    static int fd = -1;
    if (fd < 0) {
        fd = memfd_create("pat", 0);
        if (fd < 0 || ftruncate(fd, chunk) != 0) return nullptr;
        uint8_t *w = (uint8_t *)mmap(nullptr, chunk, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        uint64_t x = 88172645463325252ull;
        for (size_t i = 0; i < chunk; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; w[i] = (uint8_t)(x >> 33); }
        munmap(w, chunk);
    }
    uint8_t *b = (uint8_t *)mmap(nullptr, total + chunk, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (b == MAP_FAILED) return nullptr;
    for (size_t o = 0; o < total; o += chunk) mmap(b + o, chunk, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0);
    return b;
}
static void c17_huge(int a, unsigned how)
{
    // crosses 2^32 bits, and 2^32 bits minus/plus a few bytes
    size_t n = ((size_t)1 << 29) + draw(3) * 64 + draw(200) - 100;
    uint8_t *b = big_map(n);
    if (!b) { note("no memory for the huge case"); return; }
    uint8_t want[64], got[64];
    ref_digest(a, b, n, want);
    Str sp;
    if (how == 0) {
        void *c = shim_dig_new(a);
        shim_dig_update(a, c, b, n);
        shim_dig_final(a, c, got);
        sp = "single update";
        check_digest("huge-single", a, got, want, n, sp);
    } else if (how == 1) {
        void *c = shim_dig_new(a);
        size_t o = 0;
        unsigned k = 1 + draw(7);
        size_t head = draw(300);
        shim_dig_update(a, c, b, head);
        o = head;
        while (o < n) {
            size_t s = std::min(n - o, (n / k) + draw(130));
            shim_dig_update(a, c, b + o, s);
            sp += fmt("%zu ", s);
            o += s;
        }
        shim_dig_final(a, c, got);
        check_digest("huge-split", a, got, want, n, sp);
    } else {
        if (!shim_dig_oneshot(a, b, n, got)) return;
        check_digest("huge-oneshot", a, got, want, n, "");
    }
    munmap(b, n + (1 << 20));
    note(fmt("messages over 2^32 bits: %s", dname[a]));
    nontrivial();
    fingerprint(fmt("huge %d %u %zu", a, how, n));
}
static void c17_hmac()
{
    static const char *names[] = {"SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512"};
    int a = draw(3);
    Str pw = rbytes(draw(3) ? small(300) : range(60, 140)), salt = rbytes(range(1, 100)), msg = rbytes(small(700));
    uint32_t it = 1 + draw(draw(4) ? 6 : 300);
    uint8_t key[64], sign[64], proof[64], sp[64], ck[64], sk[64], sg[64], pr[64];
    // exact heap copies so that over-reads are seen
    std::vector<uint8_t> p(pw.begin(), pw.end()), s(salt.begin(), salt.end()), m(msg.begin(), msg.end());
    int n = shim_scram(names[a], p.data(), p.size(), s.data(), s.size(), it, m.data(), m.size(), key, sign, proof);
    if (n != (int)dlen[a]) { fail("scram-alg", "no algorithm %s (or wrong size %d)", names[a], n); return; }
    unsigned l;
    PKCS5_PBKDF2_HMAC(pw.data(), (int)pw.size(), (const uint8_t *)salt.data(), (int)salt.size(), (int)it, evp(a), n, sp);
    HMAC(evp(a), sp, n, (const uint8_t *)"Client Key", 10, ck, &l);
    ref_digest(a, ck, n, sk);
    HMAC(evp(a), sk, n, (const uint8_t *)msg.data(), msg.size(), sg, &l);
    for (int i = 0; i < n; i++) pr[i] = ck[i] ^ sg[i];
    if (memcmp(ck, key, n)) fail("hmac-clientkey", "%s: ClientKey differs (password %zu bytes, salt %zu, i=%u)", names[a], pw.size(), salt.size(), it);
    else if (memcmp(sg, sign, n)) fail("hmac-signature", "%s: ClientSignature differs (message %zu bytes)", names[a], msg.size());
    else if (memcmp(pr, proof, n)) fail("scram-proof", "%s: ClientProof differs", names[a]);
    nontrivial();
    note("HMAC/PBKDF2 cases");
    fingerprint(fmt("hmac %d %zu %zu %zu %u", a, pw.size(), salt.size(), msg.size(), it));
    if (want_sample()) sample(fmt("HMAC chain %s pw=%zu bytes salt=%zu i=%u msg=%zu", names[a], pw.size(), salt.size(), it, msg.size()));
}
static void c17()
{
    unsigned mode = draw(3); // 0 length sweep / random, 1 huge (only by prefix), 2 hmac
    if (mode == 1) {
        unsigned a = draw(4), how = draw(3), really = draw(1000);
        if (really == 999) { c17_huge(a, how); return; }
        mode = 0;
    }
    if (mode == 2) { c17_hmac(); return; }
    uint32_t n = draw(2) ? draw(1200) : draw(20) ? draw(6000) : draw(300000);
    Str data = rbytes(n);
    std::vector<uint8_t> buf(data.begin(), data.end());
    const uint8_t *p = buf.data();
    uint8_t want[64], got[64];
    for (int a = 0; a < 4; a++) {
        ref_digest(a, p, n, want);
        if (shim_dig_oneshot(a, p, n, got)) check_digest("oneshot", a, got, want, n, "");
        void *c = shim_dig_new(a);
        Str sp;
        size_t o = 0;
        unsigned k = 0;
        while (o < n || (k < 3 && draw(2))) {
            size_t s = k > 400 ? n - o : rchunk(n - o);
            // an exact heap copy of the piece: reads outside it are caught
            uint8_t *piece = (uint8_t *)malloc(s ? s : 1);
            memcpy(piece, p + o, s);
            shim_dig_update(a, c, piece, s);
            memset(piece, 0xEE, s);
            free(piece);
            o += s;
            k++;
            if (k < 40) sp += fmt("%zu ", s);
            if (k > 800) break;
        }
        shim_dig_final(a, c, got);
        if (o == n) check_digest("split", a, got, want, n, sp);
        if (a == 0 && want_sample()) sample(fmt("%u bytes, sha1 update sizes: %s", n, sp.c_str()));
        if (k > 1) nontrivial();
    }
    // public API
    Ctx C;
    ref_digest(0, p, n, want);
    Str wh = hex(want, 20);
    char *h = xmpp_sha1(C.ctx, p, n);
    if (!h || wh != h) fail("xmpp_sha1", "xmpp_sha1 of %u bytes = %s want %s", n, h ? h : "NULL", wh.c_str());
    if (h) xmpp_free(C.ctx, h);
    unsigned char d[20];
    xmpp_sha1_digest(p, n, d);
    check_digest("xmpp_sha1_digest", 0, d, want, n, "");
    xmpp_sha1_t *s1 = xmpp_sha1_new(C.ctx);
    size_t o = 0;
    unsigned k = 0;
    while (o < n) { size_t s = k++ > 200 ? n - o : rchunk(n - o); xmpp_sha1_update(s1, p + o, s); o += s; }
    xmpp_sha1_final(s1);
    memset(d, 0, 20);
    xmpp_sha1_to_digest(s1, d);
    check_digest("xmpp_sha1_update", 0, d, want, n, "");
    h = xmpp_sha1_to_string_alloc(s1);
    if (!h || wh != h) fail("xmpp_sha1_string", "to_string_alloc = %s want %s", h ? h : "NULL", wh.c_str());
    if (h) xmpp_free(C.ctx, h);
    size_t sl = draw(60);
    char *sb = (char *)malloc(sl ? sl : 1);
    char *r = xmpp_sha1_to_string(s1, sb, sl);
    if (sl >= 41 ? (r != sb || wh != sb) : r != nullptr) fail("xmpp_sha1_to_string", "to_string with %zu bytes of room: %s", sl, r ? "wrong" : "NULL");
    free(sb);
    xmpp_sha1_free(s1);
    C.done("sha1 API");
    note(n < 64 ? "len<64" : n < 128 ? "len 64..127" : n < 1200 ? "len 128..1199" : "len>=1200");
    fingerprint(fmt("dig %u", n));
    fingerprint(want, 20);
}
static void c17_prefix(uint64_t i, std::vector<uint32_t> &o)
{
    static const unsigned huge[11][2] = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {0, 1}, {1, 1}, {2, 1}, {3, 1}, {0, 2}, {1, 2}, {2, 2}};
    if (i < 11) o = {1, huge[i][0], huge[i][1], 999};
    else o = {0, 1, (uint32_t)(i - 11)};
}
PROP(c17, "C17", c17, 9000, 400000,
     "a case = a message (every length 0..1199 enumerated, then random to 300 kB, plus 11 enumerated cases at 2^32 bits) hashed at once and in a random "
     "partition (with empty updates, block boundaries +-1) by sha1/sha256/sha512/md5 and the xmpp_sha1 API, compared with OpenSSL EVP; or a "
     "SCRAM HMAC/PBKDF2 chain compared with OpenSSL. Non-trivial: at least two update() calls, or an HMAC chain; distinct by length and content",
     1211, c17_prefix, 200, {"OpenSSL's EVP digests are the standard"});

// ---------------------------------------------------------------- C18
static const char B64[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static Str ref_b64(const Str &in)
{
    Str o;
    size_t i = 0;
    unsigned acc = 0, n = 0;
    for (; i < in.size(); i++) {
        acc = acc << 8 | (uint8_t)in[i];
        n += 8;
        while (n >= 6) { o += B64[(acc >> (n - 6)) & 63]; n -= 6; }
        acc &= (1u << n) - 1;
    }
    if (n) o += B64[(acc << (6 - n)) & 63];
    while (o.size() % 4) o += '=';
    return o;
}
// 0 invalid, 1 valid, 2 valid padding but non-zero trailing bits (a decoder may accept or refuse)
static int ref_unb64(const Str &s, Str &out)
{
    out.clear();
    if (s.size() % 4) return 0;
    size_t n = s.size(), pad = 0;
    while (pad < 2 && pad < n && s[n - 1 - pad] == '=') pad++;
    unsigned acc = 0, nb = 0;
    for (size_t i = 0; i < n - pad; i++) {
        const char *q = s[i] ? strchr(B64, s[i]) : nullptr;
        if (!q) return 0;
        acc = acc << 6 | (unsigned)(q - B64);
        nb += 6;
        if (nb >= 8) { out += (char)(acc >> (nb - 8)); nb -= 8; acc &= (1u << nb) - 1; }
    }
    return acc ? 2 : 1;
}
static void c18_decode(xmpp_ctx_t *ctx, VMem &m, const Str &s)
{
    Str want;
    int v = ref_unb64(s, want);
    size_t n = s.size();
    char *in = (char *)malloc(n ? n : 1);
    memcpy(in, s.data(), n);
    size_t live0 = m.live.size();
    unsigned char *out = (unsigned char *)0x10;
    size_t outlen = 12345;
    xmpp_base64_decode_bin(ctx, in, n, &out, &outlen);
    if (v == 0) {
        if (out) fail("b64-accepts-invalid", "decode_bin accepted '%s' (%zu chars), returning %zu bytes", esc(s).c_str(), n, outlen);
    } else if (out == nullptr) {
        if (v == 1 && n > 0) fail("b64-refuses-valid", "decode_bin refused '%s'", esc(s).c_str());
        if (outlen != 0 && n > 0) fail("b64-len", "decode_bin of '%s' returned NULL with length %zu", esc(s).c_str(), outlen);
    } else {
        if (outlen != want.size()) fail("b64-len", "decode_bin of '%s' returned %zu bytes, want %zu", esc(s).c_str(), outlen, want.size());
        else if (memcmp(out, want.data(), outlen)) fail("b64-value", "decode_bin of '%s' = %s want %s", esc(s).c_str(), hex(out, outlen).c_str(), hex((const uint8_t *)want.data(), want.size()).c_str());
    }
    if (out) xmpp_free(ctx, out);
    char *str = xmpp_base64_decode_str(ctx, in, n);
    bool nul = want.find('\0') != Str::npos;
    if (v == 0 || nul) {
        if (str) fail("b64-str-accepts", "decode_str accepted '%s'", esc(s).c_str());
    } else if (!str) {
        if (v == 1) fail("b64-str-refuses", "decode_str refused '%s'", esc(s).c_str());
    } else if (want != str) fail("b64-str-value", "decode_str of '%s' = '%s'", esc(s).c_str(), esc(str).c_str());
    if (str) xmpp_free(ctx, str);
    free(in);
    if (m.live.size() != live0) fail("b64-leak", "decoding '%s' leaked %zu blocks", esc(s).c_str(), m.live.size() - live0);
}
static void c18()
{
    Ctx C;
    unsigned mode = draw(4);
    if (mode == 3) { // batches of short strings over a representative alphabet
        static const char al[] = {'A', 'B', 'Q', '/', '=', '-', ' ', '\n', '\0', '\xff', 'z', '9'};
        unsigned len = draw(9), base = draw(21), k = (unsigned)sizeof al;
        for (unsigned j = 0; j < 1000 && !failed(); j++) {
            uint64_t x = (uint64_t)base * 1000 + j;
            if (len > 4) x = x * 2654435761u + bits64() % 1000;
            Str s;
            for (unsigned i = 0; i < len; i++) { s += al[x % k]; x /= k; }
            if (len <= 4 && x) break;
            c18_decode(C.ctx, C.m, s);
        }
        note(fmt("enumerated batches of length %u", len));
        fingerprint(fmt("batch %u %u", len, base));
        nontrivial();
        if (want_sample()) sample(fmt("1000 strings of length %u from block %u", len, base));
    } else {
        size_t n = draw(3) ? small(60) : draw(9) ? draw(400) : draw(70000);
        Str data = rbytes(n);
        if (draw(4) == 0) for (auto &c : data) if (!c) c = 'x';
        uint8_t *in = (uint8_t *)malloc(n ? n : 1);
        memcpy(in, data.data(), n);
        char *e = xmpp_base64_encode(C.ctx, in, n);
        free(in);
        Str want = ref_b64(data);
        if (!e || want != e) fail("b64-encode", "encoding %zu bytes gives %s want %s", n, e ? esc(e).c_str() : "NULL", esc(want).c_str());
        if (e) xmpp_free(C.ctx, e);
        c18_decode(C.ctx, C.m, want);
        Str s = want;
        unsigned muts = mode == 0 ? 0 : 1 + draw(3);
        Str how;
        for (unsigned i = 0; i < muts; i++) {
            unsigned op = draw(8);
            size_t pos = s.empty() ? 0 : (draw(2) ? s.size() - 1 - draw(std::min<uint32_t>(s.size(), 6)) : draw(s.size()));
            how += fmt("%u@%zu ", op, pos);
            switch (op) {
            case 0: if (!s.empty()) s[pos] = '='; break;
            case 1: if (!s.empty()) s[pos] = (char)rbyte(); break;
            case 2: if (!s.empty()) s.erase(pos, 1 + draw(4)); break;
            case 3: s.insert(pos, 1, B64[draw(64)]); break;
            case 4: s += pickc({"=", "==", "===", "====", "A", "A=", "AA==", "\n"}); break;
            case 5: if (!s.empty()) s[pos] = B64[draw(64)]; break;
            case 6: if (s.size() >= 4) s.insert(s.size() - 4, "AA=="); break;
            default: while (!s.empty() && s.back() == '=') s.pop_back(); break;
            }
        }
        if (muts) c18_decode(C.ctx, C.m, s);
        if (n) nontrivial();
        fingerprint(s);
        note(muts ? "round trip + mutated decode" : "round trip");
        Str o;
        int v = ref_unb64(s, o);
        note(v == 0 ? "decode input invalid" : v == 1 ? "decode input valid" : "decode input with stray trailing bits");
        if (want_sample()) sample(fmt("%zu bytes, mutations [%s] -> '%s'", n, how.c_str(), esc(s, 80).c_str()));
    }
    C.done("base64");
}
static void c18_prefix(uint64_t i, std::vector<uint32_t> &o)
{
    // fill byte, mode 3, then length and block: lengths 0..4 completely
    static const unsigned blocks[5] = {1, 1, 1, 2, 21};
    for (unsigned l = 0; l < 5; l++) { if (i < blocks[l]) { o = {7, 3, l, (uint32_t)i}; return; } i -= blocks[l]; }
    o = {7, 3, 8, (uint32_t)(i % 21)};
}
PROP(c18, "C18", c18, 60000, 2500000,
     "a case = a byte string encoded and decoded back, then 0-3 mutations of the encoded text decoded (bin and str variants), or a batch of 1000 short strings; all "
     "strings of length 0-4 over 12 representative characters are enumerated. Reference codec written from RFC 4648. Non-trivial: non-empty; distinct by decode input",
     66, c18_prefix, 20, {"the empty input of decode_bin may be answered with NULL/0", "text with non-zero unused trailing bits may be accepted (with its value) or refused"});

// ---------------------------------------------------------------- C19
static Str rjidpart(bool big)
{
    size_t n = big ? (draw(3) ? range(1015, 1030) : draw(3000)) : small(24);
    static const char special[] = "\"&'/:<>@";
    Str s;
    if (n > 200) { s.assign(n, 'a' + draw(26)); unsigned k = draw(3); for (unsigned i = 0; i < k; i++) s[draw(n)] = special[draw(8)]; return s; }
    for (size_t i = 0; i < n; i++) {
        switch (draw(6)) {
        case 0: s += special[draw(8)]; break;
        case 1: s += (char)(1 + draw(255)); break;
        default: s += 'a' + draw(26); break;
        }
    }
    return s;
}
static Str own(xmpp_ctx_t *ctx, char *p, bool &null) { null = !p; Str s(p ? p : ""); if (p) xmpp_free(ctx, p); return s; }
static void c19_split(xmpp_ctx_t *ctx, const Str &j)
{
    // reference: RFC 7622 section 3.2
    size_t sl = j.find('/');
    bool hr = sl != Str::npos;
    Str rest = j.substr(0, sl), res = hr ? j.substr(sl + 1) : "";
    size_t at = rest.find('@');
    bool hn = at != Str::npos;
    Str node = hn ? rest.substr(0, at) : "", dom = hn ? rest.substr(at + 1) : rest;
    char *in = strdup(j.c_str()); // exact heap copy
    bool n0, n1, n2, n3;
    Str gn = own(ctx, xmpp_jid_node(ctx, in), n0), gd = own(ctx, xmpp_jid_domain(ctx, in), n1), gr = own(ctx, xmpp_jid_resource(ctx, in), n2),
        gb = own(ctx, xmpp_jid_bare(ctx, in), n3);
    if (j != in) fail("jid-input-modified", "the input '%s' was modified", esc(j).c_str());
    free(in);
    if (n0 == hn || gn != node) fail("jid-node", "node of '%s': %s want %s", esc(j).c_str(), n0 ? "NULL" : esc(gn).c_str(), hn ? esc(node).c_str() : "NULL");
    if (n1 || gd != dom) fail("jid-domain", "domain of '%s': %s want %s", esc(j).c_str(), n1 ? "NULL" : esc(gd).c_str(), esc(dom).c_str());
    if (n2 == hr || gr != res) fail("jid-resource", "resource of '%s': %s want %s", esc(j).c_str(), n2 ? "NULL" : esc(gr).c_str(), hr ? esc(res).c_str() : "NULL");
    if (n3 || gb != rest) fail("jid-bare", "bare of '%s': %s want %s", esc(j).c_str(), n3 ? "NULL" : esc(gb).c_str(), esc(rest).c_str());
    Str joined = (n0 ? Str() : gn + "@") + gd + (n2 ? Str() : "/" + gr);
    if (joined != j) fail("jid-join", "parts of '%s' join to '%s'", esc(j).c_str(), esc(joined).c_str());
    note(fmt("split: %s%s%s", hn ? "node " : "", "domain", hr ? " resource" : ""));
    if (hn || hr) nontrivial();
}
static void c19()
{
    Ctx C;
    if (draw(2) == 0) {
        Str j = rjidpart(draw(12) == 11);
        if (draw(2)) j += "@" + rjidpart(false);
        if (draw(2)) j += "/" + rjidpart(draw(20) == 19);
        c19_split(C.ctx, j);
        fingerprint(j);
        if (want_sample()) sample("split '" + esc(j, 100) + "'");
    } else {
        bool hn = draw(4) != 3, hd = draw(12) != 11, hr = draw(3) != 2;
        bool bign = draw(8) == 7, bigd = draw(8) == 7, bigr = draw(8) == 7;
        Str n = rjidpart(bign), d = rjidpart(bigd), r = rjidpart(bigr);
        if (draw(3)) { for (auto &c : d) if (strchr("/@", c)) c = 'd'; }
        if (draw(3)) { for (auto &c : n) if (strchr("\"&'/:<>@", c)) c = 'n'; }
        bool n0;
        if (!hn) n.clear();
        if (!hr) r.clear();
        char *cn = strdup(n.c_str()), *cd = strdup(d.c_str()), *cr = strdup(r.c_str());
        Str j = own(C.ctx, xmpp_jid_new(C.ctx, hn ? cn : nullptr, hd ? cd : nullptr, hr ? cr : nullptr), n0);
        free(cn); free(cd); free(cr);
        bool badn = hn && n.find_first_of("\"&'/:<>@") != Str::npos;
        bool badd = d.find_first_of("/@") != Str::npos;
        bool must_refuse = !hd || badn || (hn && n.size() > 1023) || d.size() > 1023 || (hr && r.size() > 1023);
        Str desc = fmt("node=%s domain=%s resource=%s", hn ? esc(n, 40).c_str() : "NULL", hd ? esc(d, 40).c_str() : "NULL", hr ? esc(r, 40).c_str() : "NULL");
        if (must_refuse) {
            if (!n0) fail("jid-new-accepts", "jid_new(%s; lengths %zu %zu %zu) returned '%s'", desc.c_str(), n.size(), d.size(), r.size(), esc(j, 100).c_str());
            note("new: must be refused");
            nontrivial();
        } else if (!badd) {
            bool may_refuse = d.empty() || (hn && n.empty());
            if (n0) { if (!may_refuse) fail("jid-new-refuses", "jid_new(%s; lengths %zu %zu %zu) was refused", desc.c_str(), n.size(), d.size(), r.size()); }
            else {
                Str want = (hn ? n + "@" : Str()) + d + (hr ? "/" + r : Str());
                if (want != j) fail("jid-new-value", "jid_new(%s) = '%s'", desc.c_str(), esc(j).c_str());
                else {
                    bool a, b, c;
                    Str gn = own(C.ctx, xmpp_jid_node(C.ctx, j.c_str()), a), gd = own(C.ctx, xmpp_jid_domain(C.ctx, j.c_str()), b), gr = own(C.ctx, xmpp_jid_resource(C.ctx, j.c_str()), c);
                    if (a == hn || gn != n || b || gd != d || c == hr || gr != r) fail("jid-roundtrip", "jid_new(%s) does not split back: node %s domain %s resource %s", desc.c_str(), esc(gn).c_str(), esc(gd).c_str(), esc(gr).c_str());
                }
            }
            note("new: round trip");
            nontrivial();
        } else note("new: domain with / or @ (unspecified)");
        fingerprint(desc);
        fingerprint(fmt("%zu %zu %zu", n.size(), d.size(), r.size()));
        if (want_sample()) sample("build " + desc);
        if (!n0) c19_split(C.ctx, j);
    }
    C.done("jid");
}
PROP(c19, "C19", c19, 250000, 8000000,
     "a case = a NUL-free string split by every helper and compared with a reference partition, or a part triple (present/absent, forbidden characters, lengths around "
     "1023) built and split again. Non-trivial: has a node or resource, or exercises building; distinct by input",
     0, nullptr, 20, {"an empty-string domain or local part may be refused or must round-trip"});

// ---------------------------------------------------------------- C15
struct DnsRR { Str name; unsigned type, klass, prio, weight, port; Str target; Str rdata; bool broken = false; };
struct DnsWriter {
    Str b;
    std::map<Str, unsigned> at; // suffix -> offset
    bool compress = true;
    void u8(unsigned v) { b += (char)v; }
    void u16(unsigned v) { u8(v >> 8 & 255); u8(v & 255); }
    void u32(unsigned long v) { u16(v >> 16 & 65535); u16(v & 65535); }
    void name(const std::vector<Str> &l)
    {
        for (size_t i = 0; i < l.size(); i++) {
            Str key;
            for (size_t k = i; k < l.size(); k++) key += fmt("%zu:", l[k].size()) + l[k];
            auto it = at.find(key);
            if (compress && it != at.end() && draw(4)) { u16(0xc000 | it->second); return; }
            if (b.size() < 0x4000) at[key] = (unsigned)b.size();
            u8(l[i].size());
            b += l[i];
        }
        if (compress && draw(12) == 11) {
            // a pointer to an earlier root byte is legal, too
            auto it = at.find("");
            if (it != at.end()) { u16(0xc000 | it->second); return; }
        }
        if (b.size() < 0x4000) at[""] = (unsigned)b.size();
        u8(0);
    }
};
static std::vector<Str> rname()
{
    std::vector<Str> l;
    unsigned n = draw(10) == 9 ? draw(128) : 1 + draw(4);
    size_t wire = 1;
    static std::vector<Str> common = {"com", "example", "xmpp", "_xmpp-client", "_tcp", "a"};
    for (unsigned i = 0; i < n; i++) {
        Str s;
        if (draw(2)) s = pick(common);
        else {
            unsigned m = draw(6) == 5 ? 55 + draw(9) : 1 + draw(12);
            for (unsigned k = 0; k < m; k++) s += draw(12) == 11 ? (char)(0x80 + draw(128)) : "abcdefghijklmnopqrstuvwxyz0123456789-_ABC"[draw(41)];
        }
        if (wire + s.size() + 1 > 255) { // fill up exactly to the limit sometimes
            size_t room = 255 - wire;
            if (room >= 2 && draw(2)) { s.assign(room - 1 > 63 ? 63 : room - 1, 'z'); if (wire + s.size() + 1 <= 255) l.push_back(s); }
            break;
        }
        wire += s.size() + 1;
        l.push_back(s);
    }
    return l;
}
static Str dotted(const std::vector<Str> &l) { Str s; for (auto &x : l) { if (!s.empty()) s += '.'; s += x; } return s; }
static void c15()
{
    Ctx C;
    DnsWriter w;
    w.compress = draw(5) != 4;
    std::vector<DnsRR> want;
    unsigned qd = draw(8) == 7 ? draw(4) : 1, an = draw(30) == 29 ? draw(900) : draw(9), ns = draw(4) == 3 ? draw(3) : 0, ar = draw(3) == 2 ? draw(4) : 0;
    std::vector<std::vector<Str>> pool = {rname(), rname(), rname()};
    w.u16(draw(65536));
    w.u8(0x80 | draw(2) << 2 | draw(2));
    w.u8(draw(2) << 7);
    w.u16(qd); w.u16(an); w.u16(ns); w.u16(ar);
    auto nm = [&]() { return draw(3) == 2 ? rname() : pool[draw(3)]; };
    for (unsigned i = 0; i < qd; i++) { w.name(nm()); w.u16(33); w.u16(1); }
    std::vector<size_t> fields; // offsets worth corrupting
    bool tiny_tail = false, over = draw(12) == 11, overlong = false; // names longer than any name may be
    for (unsigned s = 0; s < an + ns + ar && w.b.size() < 64000; s++) {
        fields.push_back(w.b.size());
        w.name(nm());
        unsigned t = weighted({8, 2, 1, 1, 1, 1});
        unsigned type = t == 0 ? 33 : t == 1 ? 1 : t == 2 ? 5 : t == 3 ? 16 : t == 4 ? 28 : draw(65536);
        unsigned klass = draw(12) == 11 ? draw(5) : 1;
        if (t == 5 && type == 33) type = 41;
        w.u16(type); w.u16(klass); w.u32(draw(100000));
        size_t lp = w.b.size();
        fields.push_back(lp);
        w.u16(0);
        if (type == 33) {
            DnsRR r;
            r.prio = draw(3) ? draw(4) : draw(65536);
            r.weight = draw(3) ? draw(4) : draw(65536);
            r.port = draw(65536);
            w.u16(r.prio); w.u16(r.weight); w.u16(r.port);
            std::vector<Str> tn = draw(16) == 15 ? std::vector<Str>() : nm();
            r.target = dotted(tn);
            fields.push_back(w.b.size());
            if (over && draw(3)) {
                overlong = true;
                size_t want_len = 240 + draw(40), sum = 0; // of the dotted form
                if (draw(3)) want_len = 254 + draw(5);
                while (sum < want_len) {
                    size_t m = std::min<size_t>(want_len - sum > 1 ? want_len - sum - 1 : 1, draw(3) ? 63 : 1 + draw(63));
                    w.u8((unsigned)m); w.b += Str(m, 'q'); sum += m + 1;
                }
                unsigned e = draw(4);
                auto it = w.at.begin();
                std::advance(it, draw((uint32_t)w.at.size()));
                if (e == 0) w.u8(0);
                else if (e == 1 && w.at.count("")) w.u16(0xc000 | w.at[""]);
                else w.u16(0xc000 | it->second);
            } else w.name(tn);
            if (s < an && klass == 1) want.push_back(r);
        } else if (type == 5) w.name(nm());
        else if (type == 1) w.b += rbytes(4);
        else if (type == 28) w.b += rbytes(16);
        else w.b += rbytes(small(200));
        unsigned rl = (unsigned)(w.b.size() - lp - 2);
        w.b[lp] = (char)(rl >> 8);
        w.b[lp + 1] = (char)rl;
        tiny_tail = rl < 7;
    }
    // if the size cap cut the records, fix the counts
    Str msg = w.b;
    bool corrupt = overlong;
    Str how;
    if (msg.size() >= 64000) corrupt = true; // counts may be too high: no exact expectation
    unsigned mode = weighted({5, 6, 1});
    if (mode == 1) {
        corrupt = true;
        unsigned k = 1 + draw(4);
        for (unsigned i = 0; i < k && !msg.empty(); i++) {
            unsigned op = draw(9);
            size_t p = draw(msg.size());
            if (!fields.empty() && draw(2)) p = std::min<size_t>(msg.size() - 1, fields[draw(fields.size())] + draw(12));
            how += fmt("%u@%zu ", op, p);
            switch (op) {
            case 0: msg.resize(p); break;
            case 1: msg[p] = (char)draw(256); break;
            case 2: msg[p] = (char)(0xc0 | draw(64)); break;
            case 3: if (p + 1 < msg.size()) { msg[p] = (char)(0xc0 | p >> 8); msg[p + 1] = (char)(p - draw(3)); } break;
            case 4: msg[4 + draw(8)] = (char)draw(256); break;
            case 5: if (p + 1 < msg.size()) { msg[p] = (char)0xff; msg[p + 1] = (char)0xff; } break;
            case 6: msg[p] = (char)draw(64); break;
            case 7: msg += rbytes(draw(30)); break;
            default: msg.resize(msg.size() - std::min<size_t>(msg.size(), 1 + draw(20))); break;
            }
            if (msg.size() < 12) break;
        }
    } else if (mode == 2) {
        corrupt = true;
        how = "random";
        if (draw(3) == 2) { // pointer chains
            msg = Str("\x12\x34\x80\x00\x00\x00", 6);
            unsigned cnt = 1 + draw(60);
            msg += Str("\x00", 1) + (char)cnt + Str(4, 0);
            size_t start = msg.size();
            msg += '\0';
            unsigned chain = draw(8000);
            for (unsigned i = 0; i < chain; i++) { size_t tgt = i ? msg.size() - 2 : start; msg += (char)(0xc0 | tgt >> 8); msg += (char)tgt; if (draw(500) == 499) msg += '\x01'; }
            for (unsigned i = 0; i < cnt; i++) { size_t tgt = msg.size() - 2 - draw(40); msg += (char)(0xc0 | (tgt >> 8 & 63)); msg += (char)tgt; msg += Str("\x00\x21\x00\x01\x00\x00\x00\x00\x00\x08\x00\x01\x00\x02\x00\x03", 16); msg += (char)(0xc0 | (tgt >> 8 & 63)); msg += (char)tgt; }
        } else msg = rbytes(draw(5) ? draw(300) : draw(65536));
    }
    uint8_t *buf = (uint8_t *)malloc(msg.size() ? msg.size() : 1);
    memcpy(buf, msg.data(), msg.size());
    void *list = nullptr;
    int r = shim_srv_lookup_buf(C.ctx, buf, msg.size(), &list);
    free(buf);
    Str hx = hex((const uint8_t *)msg.data(), std::min<size_t>(msg.size(), 400));
    if (r < 0 || (r == 1) != (list != nullptr)) {
        fail("dns-outcome", "result %d with %s list; message %s", r, list ? "a" : "no", hx.c_str());
        return;
    }
    int n = list ? shim_srv_count(list) : 0;
    shim_srv_t prev = {0, 0, 0, nullptr, 0};
    std::vector<std::tuple<unsigned, unsigned, unsigned, Str>> got, exp;
    for (int i = 0; i < n && i < 4000; i++) {
        shim_srv_t s;
        shim_srv_get(list, i, &s);
        if (strnlen(s.target, s.target_cap) >= s.target_cap || strnlen(s.target, s.target_cap) >= 256) fail("dns-target-nul", "target of record %d is not a NUL-terminated string below 256 bytes; message %s", i, hx.c_str());
        else got.emplace_back(s.prio, 65535 - s.weight, s.port, Str(s.target));
        if (i && (prev.prio > s.prio || (prev.prio == s.prio && prev.weight < s.weight))) fail("dns-order", "record %d (prio %u weight %u) after (prio %u weight %u)", i, s.prio, s.weight, prev.prio, prev.weight);
        prev = s;
    }
    if (!corrupt) {
        for (auto &x : want) exp.emplace_back(x.prio, 65535 - x.weight, x.port, x.target);
        std::sort(got.begin(), got.end());
        std::sort(exp.begin(), exp.end());
        if (got != exp) {
            Str d = fmt("well-formed response with %zu IN/SRV answers decoded to %d records;", exp.size(), n);
            for (auto &e : exp) d += fmt(" want(%u %u %u %s)", std::get<0>(e), 65535 - std::get<1>(e), std::get<2>(e), esc(std::get<3>(e), 300).c_str());
            for (auto &e : got) d += fmt(" got(%u %u %u %s)", std::get<0>(e), 65535 - std::get<1>(e), std::get<2>(e), esc(std::get<3>(e), 300).c_str());
            fail("dns-records", "%s message %s", d.substr(0, 1500).c_str(), hx.c_str());
        }
        note(exp.empty() ? "well-formed, no SRV" : exp.size() == 1 ? "well-formed, 1 SRV" : "well-formed, several SRV");
        if (tiny_tail) note("well-formed, last record has short rdata");
        if (!exp.empty()) nontrivial();
    } else { note(mode == 2 ? "random/pointer-chain buffer" : "corrupted response"); nontrivial(); if (r == 1) note("corrupted, still found"); }
    if (list) shim_srv_free(C.ctx, list);
    C.done("resolver");
    fingerprint(msg);
    if (want_sample()) sample(fmt("%zu bytes, %s %s, %u answers -> %d records: %s", msg.size(), corrupt ? "corrupted" : "well-formed", how.c_str(), an, n, hx.substr(0, 160).c_str()));
}
PROP(c15, "C15", c15, 150000, 6000000,
     "a case = a DNS response built from random records (SRV/A/CNAME/TXT/AAAA/other, classes, compression pointers, names up to 255 octets, all sections), left well-formed (records "
     "compared with the generator's), corrupted by 1-4 mutations, or random/pointer-chain bytes up to 64 KiB (consistency, memory safety). Buffers end at an ASan red zone. "
     "Non-trivial: has an IN/SRV answer or is corrupted; distinct by message bytes",
     0, nullptr, 20, {"labels of well-formed names contain no NUL octet"});
