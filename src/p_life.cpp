// C12: every object is freed exactly once and lives as long as it is referred to.
#include "app.h"
#include <dlfcn.h>
#include <expat.h>
#include <unistd.h>
#include <sys/wait.h>
#include <cstdarg>
void hist(const char *);
void sm_case(const char *);

// ---- the library's own calls of the C allocator (see build.sh) ---------------------------------
static void bypass(const char *fn, void *ra)
{
    if (vh_bypass) return;
    vh_bypass = true;
    Dl_info di;
    vh_bypass_msg = Str("the library calls ") + fn + "() itself" + (dladdr(ra, &di) && di.dli_sname ? Str(" in ") + di.dli_sname : Str());
}
#define BY(f) bypass(f, __builtin_return_address(0))
static bool from_ctx(void *p) { for (auto *v : g_vmems) if (v->live.count(p)) return true; return false; }
extern "C" {
void *vhx_malloc(size_t n) { BY("malloc"); return malloc(n); }
void *vhx_calloc(size_t a, size_t b) { BY("calloc"); return calloc(a, b); }
void *vhx_realloc(void *p, size_t n) { BY("realloc"); return realloc(p, n); }
void vhx_free(void *p) { if (p) BY("free"); free(p); }
char *vhx_strdup(const char *s) { BY("strdup"); return strdup(s); }
char *vhx_strndup(const char *s, size_t n) { BY("strndup"); return strndup(s, n); }
int vhx_vasprintf(char **o, const char *f, va_list ap) { BY("vasprintf"); return vasprintf(o, f, ap); }
int vhx_asprintf(char **o, const char *f, ...) { BY("asprintf"); va_list ap; va_start(ap, f); int n = vasprintf(o, f, ap); va_end(ap); return n; }
static void z_check(z_streamp z, const char *who)
{
    bool ok = z->zalloc && z->zfree;
    if (ok) {
        void *p = z->zalloc(z->opaque, 3, 16);
        ok = p && from_ctx(p);
        if (p) z->zfree(z->opaque, p);
        if (p && from_ctx(p)) ok = false;
    }
    if (!ok && !vh_bypass) { vh_bypass = true; vh_bypass_msg = Str(who) + " is not given the context's allocator"; }
}
int vhx_deflateInit_(z_streamp z, int l, const char *v, int s) { z_check(z, "deflate"); return deflateInit_(z, l, v, s); }
int vhx_deflateInit2_(z_streamp z, int l, int m, int w, int mm, int st, const char *v, int s) { z_check(z, "deflate"); return deflateInit2_(z, l, m, w, mm, st, v, s); }
int vhx_inflateInit_(z_streamp z, const char *v, int s) { z_check(z, "inflate"); return inflateInit_(z, v, s); }
int vhx_inflateInit2_(z_streamp z, int w, const char *v, int s) { z_check(z, "inflate"); return inflateInit2_(z, w, v, s); }
XML_Parser vhx_XML_ParserCreate(const XML_Char *e) { vh_expat_default++; return XML_ParserCreate(e); }
XML_Parser vhx_XML_ParserCreateNS(const XML_Char *e, XML_Char s) { vh_expat_default++; return XML_ParserCreateNS(e, s); }
XML_Parser vhx_XML_ParserCreate_MM(const XML_Char *e, const XML_Memory_Handling_Suite *m, const XML_Char *s)
{
    bool ok = false;
    if (m) {
        void *p = m->malloc_fcn(24);
        ok = p && from_ctx(p);
        if (p) m->free_fcn(p);
        if (p && from_ctx(p)) ok = false;
    }
    if (ok) vh_expat_ctx++; else vh_expat_default++;
    return XML_ParserCreate_MM(e, m, s);
}
}
// Run in a process of its own: the parsers of the first context, and of a second one, use the context's allocator.
int first_context_probe()
{
    int r = 0;
    for (int i = 0; i < 2; i++) {
        VMem vm;
        xmpp_ctx_t *c = xmpp_ctx_new(&vm.mem, vlog());
        vh_expat_default = vh_expat_ctx = 0;
        xmpp_stanza_t *s = xmpp_stanza_new_from_string(c, "<a x='1'><b/>text</a>");
        if (s) xmpp_stanza_release(s);
        xmpp_conn_t *k = xmpp_conn_new(c);
        xmpp_conn_release(k);
        if (vh_expat_default) r |= i ? 2 : 1;
        xmpp_ctx_free(c);
        if (!vm.live.empty() || vm.bad) r |= 4;
    }
    return 64 + r;
}
static void probe_contexts()
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) { execl("/proc/self/exe", "vh", "--first-context", (char *)nullptr); _exit(1); }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    int r = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
    note("fresh process");
    nontrivial();
    if (r < 64) { fail("probe", "a process that makes two contexts one after the other ends with status %d", st); return; }
    if (r & 1) { fail("expat-first-context", "the XML parser of the first context of a process does not use its allocator"); return; }
    if (r & 4) { fail("leak", "blocks are left, or freed twice, after the contexts were freed"); return; }
    if (r & 2) { fail("expat-second-context", "the XML parsers of a second context of a process use the C allocator"); return; }
}
// ---- programs over stanzas ---------------------------------------------------------------------
namespace {
struct M;
typedef std::shared_ptr<M> MP;
struct M {
    xmpp_stanza_t *st = nullptr;
    unsigned handles = 0;
    M *parent = nullptr;
    std::vector<MP> kids;
    Str name, text; bool has_name = false, has_text = false, is_text = false, is_tag = false;
    std::map<Str, Str> at;
};
struct Prog {
    VMem vm;
    xmpp_ctx_t *ctx = nullptr;
    xmpp_conn_t *conn = nullptr;
    std::vector<MP> held;        // those with handles
    unsigned ops = 0, survivors = 0, moved = 0;
    void own(M &m)               // what the node says about itself
    {
        const char *n = xmpp_stanza_get_name(m.st), *t = xmpp_stanza_is_text(m.st) ? xmpp_stanza_get_text_ptr(m.st) : nullptr;
        m.is_text = xmpp_stanza_is_text(m.st); m.is_tag = xmpp_stanza_is_tag(m.st);
        m.has_name = n; m.name = n ? n : ""; m.has_text = t; m.text = t ? t : "";
        m.at.clear();
        int c = xmpp_stanza_get_attribute_count(m.st);
        std::vector<const char *> v((size_t)(c > 0 ? c : 0) * 2 + 1);
        int k = xmpp_stanza_get_attributes(m.st, v.data(), c * 2);
        for (int i = 0; i + 1 < k; i += 2) m.at[v[i]] = v[i + 1];
    }
    MP adopt(xmpp_stanza_t *st, M *parent = nullptr)
    {
        MP m(new M);
        m->st = st; m->parent = parent;
        own(*m);
        for (xmpp_stanza_t *c = xmpp_stanza_get_children(st); c; c = xmpp_stanza_get_next(c)) m->kids.push_back(adopt(c, m.get()));
        return m;
    }
    void hold(MP m) { if (!m->handles++) held.push_back(m); }
    M *root(M *m) { while (m->parent) m = m->parent; return m; }
    void verify(const MP &m)
    {
        M now; now.st = m->st;
        own(now);
        if (now.has_name != m->has_name || now.name != m->name || now.has_text != m->has_text || now.text != m->text || now.at != m->at || now.is_text != m->is_text || now.is_tag != m->is_tag) {
            fail("changed", "a stanza that is still referred to is not what it was: %s '%s' instead of '%s'", m->is_text ? "text" : "element", esc(now.name + now.text, 60).c_str(), esc(m->name + m->text, 60).c_str());
            throw CaseAbort();
        }
        size_t i = 0;
        for (xmpp_stanza_t *c = xmpp_stanza_get_children(m->st); c; c = xmpp_stanza_get_next(c), i++)
            if (i >= m->kids.size() || m->kids[i]->st != c) { fail("children-changed", "child %zu of a stanza is not what it was (%zu children expected)", i, m->kids.size()); throw CaseAbort(); }
        if (i != m->kids.size()) { fail("children-changed", "%zu children instead of %zu", i, m->kids.size()); throw CaseAbort(); }
        for (auto &k : m->kids) verify(k);
    }
    void verify_all() { for (auto &m : held) if (!m->parent) verify(m); else verify(MP(m)); check(); }
    void check()
    {
        if (vm.bad) { fail("allocator", "%s", vm.badmsg.c_str()); throw CaseAbort(); }
        if (vh_bypass) { fail("allocator-bypassed", "%s", vh_bypass_msg.c_str()); throw CaseAbort(); }
        if (failed()) throw CaseAbort();
    }
    void collect(M *m, std::vector<M *> &v) { v.push_back(m); for (auto &k : m->kids) collect(k.get(), v); }
    // the parent's reference is gone, or the last handle is
    void gone(const MP &m)
    {
        for (auto &k : m->kids) {
            k->parent = nullptr;
            if (!k->handles) gone(k); else survivors++;
        }
        m->kids.clear();
    }
    void release(const MP &m)
    {
        bool last = m->handles == 1 && !m->parent;
        trace("release %p (%u handles%s)", (void *)m->st, m->handles, m->parent ? ", has a parent" : "");
        int r = xmpp_stanza_release(m->st);
        if (!r != !last) { fail(last ? "not-released" : "released-early", "releasing %s returned %d", last ? "the last reference of a stanza" : "one of several references", r); throw CaseAbort(); }
        if (--m->handles == 0) {
            MP keep = m;
            for (size_t i = 0; i < held.size(); i++) if (held[i] == keep) { held.erase(held.begin() + (long)i); break; }
            if (last) gone(keep);
        }
    }
    MP any(const MP &from)       // a stanza of the tree
    {
        MP m = from;
        while (!m->kids.empty() && draw(3)) m = m->kids[draw((uint32_t)m->kids.size())];
        return m;
    }
    Str word() { return Str(pickc({"a", "b", "body", "to", "from", "xmlns", "type", "id", "longer-name", "\xc3\xa9"})); }
    Str val() { switch (draw(6)) { case 0: return ""; case 1: return Str(draw(300), 'v'); default: return Str(pickc({"x", "user@example.com/r", "<&>'\"", "jabber:client", "urn:x", "get", "result"})); } }
    void op()
    {
        ops++;
        unsigned k = held.size() > 14 ? 4 : held.empty() ? draw(4) : weighted({12, 4, 5, 5, 22, 14, 8, 26, 10, 12, 10, 6, 6, 5, 8});
        MP h = held.empty() ? nullptr : held[draw((uint32_t)held.size())];
        switch (k) {
        case 0: {
            xmpp_stanza_t *s = xmpp_stanza_new(ctx);
            if (draw(6)) { if (draw(3)) xmpp_stanza_set_name(s, word().c_str()); else xmpp_stanza_set_text(s, val().c_str()); }
            hold(adopt(s));
            trace("new %p", (void *)s);
            break;
        }
        case 1: {
            xmpp_stanza_t *s;
            switch (draw(5)) {
            case 0: s = xmpp_message_new(ctx, draw(2) ? "chat" : nullptr, draw(2) ? "a@b" : nullptr, draw(2) ? "i" : nullptr); if (draw(2)) xmpp_message_set_body(s, val().c_str()); break;
            case 1: s = xmpp_iq_new(ctx, "get", draw(2) ? "i" : nullptr); break;
            case 2: s = xmpp_presence_new(ctx); break;
            default: s = xmpp_error_new(ctx, (xmpp_error_type_t)draw(XMPP_SE_XML_NOT_WELL_FORMED + 1), draw(2) ? val().c_str() : nullptr);
            }
            hold(adopt(s));
            trace("built %p %s", (void *)s, xmpp_stanza_get_name(s));
            break;
        }
        case 2: {
            Str x = draw(2) ? soup() : Str(pickc({"<a/>", "<a x='1' y='2'>t<b xmlns='urn:x'/>u</a>", "<a><b><c><d>deep</d></c></b></a>", "<a>", "</a>", "", "text", "<a/><b/>", "<a></b>", "<a x='1' x='2'/>", "<!-- c --><a/>", "<stream:stream xmlns:stream='s'><x/></stream:stream>"}));
            if (!draw(8)) x = x.substr(0, draw((uint32_t)x.size() + 1));
            size_t live = vm.live.size();
            xmpp_stanza_t *s = xmpp_stanza_new_from_string(ctx, x.c_str());
            trace("from string %s -> %p", esc(x, 100).c_str(), (void *)s);
            if (s) hold(adopt(s));
            else if (vm.live.size() != live) { fail("leak", "%lld blocks are left by a string that is not a stanza", (long long)(vm.live.size() - live)); throw CaseAbort(); }
            break;
        }
        case 3: {                // things that are not stanzas
            size_t live = vm.live.size();
            misc();
            if (vm.live.size() != live) { fail("leak", "%lld blocks are left by an object that was freed", (long long)(vm.live.size() - live)); throw CaseAbort(); }
            break;
        }
        case 4: release(h); break;
        case 5: {                // another reference, perhaps to something inside
            MP m = any(h);
            xmpp_stanza_t *s = xmpp_stanza_clone(m->st);
            trace("clone %p", (void *)m->st);
            if (s != m->st) { fail("clone", "xmpp_stanza_clone returned another object"); throw CaseAbort(); }
            hold(m);
            break;
        }
        case 6: {
            MP m = any(h);
            xmpp_stanza_t *s = xmpp_stanza_copy(m->st);
            trace("copy of %p -> %p", (void *)m->st, (void *)s);
            if (s) hold(adopt(s));
            break;
        }
        case 7: case 8: {        // a stanza without a parent becomes a child
            MP p = any(h), c;
            std::vector<MP> v;
            for (auto &x : held) if (!x->parent && root(p.get()) != x.get() && x->st != p->st) v.push_back(x);
            if (v.empty()) break;
            c = v[draw((uint32_t)v.size())];
            if (p->is_text && draw(10)) break;
            bool give = k == 8 && c->handles >= 1;
            int r;
            if (give) r = xmpp_stanza_add_child_ex(p->st, c->st, 0);
            else r = draw(2) ? xmpp_stanza_add_child(p->st, c->st) : xmpp_stanza_add_child_ex(p->st, c->st, 1);
            trace("add %p to %p%s -> %d", (void *)c->st, (void *)p->st, give ? ", giving the reference" : "", r);
            if (r != 0) { fail("add-child", "add_child returned %d", r); throw CaseAbort(); }
            p->kids.push_back(c);
            c->parent = p.get();
            moved++;
            if (give && --c->handles == 0) for (size_t i = 0; i < held.size(); i++) if (held[i] == c) { held.erase(held.begin() + (long)i); break; }
            break;
        }
        case 9: {
            MP m = any(h);
            Str n = word(), v = val();
            switch (draw(8)) {
            case 0: xmpp_stanza_set_name(m->st, n.c_str()); break;
            case 1: xmpp_stanza_set_text(m->st, v.c_str()); break;
            case 2: xmpp_stanza_set_text_with_size(m->st, v.data(), draw((uint32_t)v.size() + 1)); break;
            case 3: xmpp_stanza_del_attribute(m->st, n.c_str()); break;
            case 4: xmpp_stanza_set_ns(m->st, v.c_str()); break;
            case 5: xmpp_stanza_set_id(m->st, v.c_str()); xmpp_stanza_set_type(m->st, v.c_str()); break;
            case 6: if (m->is_text || m->is_tag) { // a part of itself
                const char *s = m->is_text ? xmpp_stanza_get_text_ptr(m->st) : xmpp_stanza_get_attribute(m->st, n.c_str());
                if (s) { if (m->is_text) xmpp_stanza_set_text(m->st, s); else xmpp_stanza_set_attribute(m->st, n.c_str(), s); }
                break;
            }
            // fall through
            default: xmpp_stanza_set_attribute(m->st, n.c_str(), v.c_str());
            }
            own(*m);
            break;
        }
        case 10: {
            MP m = any(h);
            char *b = nullptr; size_t n;
            int r = xmpp_stanza_to_text(m->st, &b, &n);
            if (r == 0) xmpp_free(ctx, b);
            char *t = xmpp_stanza_get_text(m->st);
            if (t) xmpp_free(ctx, t);
            char *bd = m->is_tag && m->name == "message" ? xmpp_message_get_body(m->st) : nullptr;
            if (bd) xmpp_free(ctx, bd);
            break;
        }
        case 11: {
            MP m = any(h);
            if (!m->is_tag) break;
            xmpp_stanza_t *s = draw(2) ? xmpp_stanza_reply(m->st) : xmpp_stanza_reply_error(m->st, "cancel", draw(2) ? "item-not-found" : nullptr, draw(2) ? "why" : nullptr);
            trace("reply to %p -> %p", (void *)m->st, (void *)s);
            if (s) hold(adopt(s));
            break;
        }
        case 12: xmpp_send(conn, any(h)->st); break;
        case 13: {
            MP m = any(h);
            (void)xmpp_stanza_get_child_by_name(m->st, "b"); (void)xmpp_stanza_get_child_by_ns(m->st, "urn:x"); (void)xmpp_stanza_get_child_by_name_and_ns(m->st, "b", "urn:x");
            if (m->has_name) (void)xmpp_stanza_get_child_by_path(m->st, XMPP_STANZA_NAME_IN_NS("a", "urn:x"), "b", nullptr);
            break;
        }
        default: if (h->parent == nullptr) (void)xmpp_stanza_get_next(h->st); verify_all();
        }
        check();
    }
    void misc()
    {
        switch (draw(8)) {
        case 0: { char *s = xmpp_uuid_gen(ctx); if (s) xmpp_free(ctx, s); break; }
        case 1: { xmpp_sha1_t *s = xmpp_sha1_new(ctx); xmpp_sha1_update(s, (const unsigned char *)"abc", draw(4)); if (draw(2)) { xmpp_sha1_final(s); char *t = xmpp_sha1_to_string_alloc(s); if (t) xmpp_free(ctx, t); } xmpp_sha1_free(s); break; }
        case 2: { char *t = xmpp_sha1(ctx, (const unsigned char *)"abc", 3); if (t) xmpp_free(ctx, t); break; }
        case 3: {
            Str d = val();
            char *e = xmpp_base64_encode(ctx, (const unsigned char *)d.data(), d.size());
            if (!e) break;
            Str bad = e; if (!bad.empty() && draw(2)) bad[draw((uint32_t)bad.size())] = (char)draw(256);
            char *s = xmpp_base64_decode_str(ctx, bad.c_str(), strlen(bad.c_str())); if (s) xmpp_free(ctx, s);
            unsigned char *o; size_t n; xmpp_base64_decode_bin(ctx, bad.data(), bad.size(), &o, &n); if (o) xmpp_free(ctx, o);
            xmpp_free(ctx, e);
            break;
        }
        case 4: {
            Str j = pickc({"a@b/c", "b", "a@b", "b/c", "@b", "a@", "/", "", "a@b/c@d/e"});
            if (char *t = xmpp_jid_bare(ctx, j.c_str())) xmpp_free(ctx, t);
            if (char *t = xmpp_jid_node(ctx, j.c_str())) xmpp_free(ctx, t);
            if (char *t = xmpp_jid_domain(ctx, j.c_str())) xmpp_free(ctx, t);
            if (char *t = xmpp_jid_resource(ctx, j.c_str())) xmpp_free(ctx, t);
            if (char *t = xmpp_jid_new(ctx, draw(2) ? "a" : nullptr, draw(8) ? "b" : nullptr, draw(2) ? "c" : nullptr)) xmpp_free(ctx, t);
            break;
        }
        case 5: { xmpp_rand_t *r = xmpp_rand_new(ctx); if (!r) break; char b[20]; xmpp_rand(r); xmpp_rand_nonce(r, b, sizeof b); xmpp_rand_free(ctx, r); break; }
        case 6: { char *s = xmpp_strdup(ctx, val().c_str()); s = (char *)xmpp_realloc(ctx, s, 400); xmpp_free(ctx, s); if ((s = xmpp_strndup(ctx, "abc", draw(6)))) xmpp_free(ctx, s); break; }
        default: {
            // connections that are configured and never used
            xmpp_conn_t *c = xmpp_conn_new(ctx), *d = draw(2) ? xmpp_conn_clone(c) : nullptr;
            unsigned n = draw(6);
            while (n--) switch (draw(18)) {
            case 0: {
                const char *j = draw(2) ? "a@b" : "c@d/e";
                xmpp_conn_set_jid(c, j);
                const char *g = xmpp_conn_get_jid(c);
                if (!g || strcmp(g, j)) { fail("jid-readback", "the address set as %s reads back as %s", j, g ? g : "NULL"); throw CaseAbort(); }
                break;
            }
            case 1: {
                Str p = val();
                xmpp_conn_set_pass(c, p.c_str());
                const char *g = xmpp_conn_get_pass(c);
                if (!g || p.c_str() != Str(g)) { fail("pass-readback", "the password set as %s reads back as %s", esc(p).c_str(), g ? esc(g).c_str() : "NULL"); throw CaseAbort(); }
                break;
            }
            case 10: xmpp_conn_set_keepalive(c, (int)draw(3), (int)draw(3)); break;
            case 11: if (xmpp_conn_get_context(c) != ctx) { fail("context", "the connection names another context"); throw CaseAbort(); } break;
            case 12: xmpp_conn_disable_tls(c); if (!draw(2)) xmpp_conn_set_flags(c, 0); break;
            case 13: {
                static const Str blob("\x1a\0\0\0\0\x1a\0\0\0\0\x7a\0\0\0\x02sm\x9a\0\0\0\x01\x7a\0\0\0\x04<q/>\xba\0\0\0\0", 36);
                Str b = blob;
                if (!draw(3)) b.resize(draw((uint32_t)b.size()));
                (void)xmpp_conn_restore_sm_state(c, (const unsigned char *)b.data(), b.size());
                break;
            }
            case 14: if (char *t = xmpp_conn_send_queue_drop_element(c, draw(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST)) xmpp_free(ctx, t); (void)xmpp_conn_send_queue_len(c); break;
            case 15: xmpp_conn_set_password_callback(c, nullptr, nullptr); xmpp_conn_set_password_retries(c, draw(5)); (void)xmpp_conn_get_keyfile(c); xmpp_conn_set_certfail_handler(c, nullptr); break;
            case 16: { xmpp_tlscert_t *t = xmpp_conn_get_peer_cert(c); if (t) xmpp_tlscert_free(t); (void)xmpp_conn_get_bound_jid(c); break; }
            case 2: xmpp_conn_set_cafile(c, "/nonexistent"); xmpp_conn_set_capath(c, "/nonexistent"); break;
            case 3: xmpp_conn_set_client_cert(c, "/nonexistent/c", draw(2) ? "/nonexistent/k" : nullptr); break;
            case 4: xmpp_handler_add(c, [](xmpp_conn_t *, xmpp_stanza_t *, void *) { return 0; }, "ns", draw(2) ? "n" : nullptr, draw(2) ? "t" : nullptr, nullptr); break;
            case 5: xmpp_id_handler_add(c, [](xmpp_conn_t *, xmpp_stanza_t *, void *) { return 0; }, "id", nullptr); break;
            case 6: xmpp_timed_handler_add(c, [](xmpp_conn_t *, void *) { return 0; }, 100, nullptr); break;
            case 7: { xmpp_conn_set_client_cert(c, "/nonexistent/c", nullptr); char *t = xmpp_conn_cert_xmppaddr(c, draw(2)); if (t) xmpp_free(ctx, t); xmpp_conn_cert_xmppaddr_num(c); break; }
            case 8: { xmpp_sm_state_t *st = xmpp_conn_get_sm_state(c); if (st) { if (draw(2)) xmpp_free_sm_state(st); else if (xmpp_conn_set_sm_state(c, st)) xmpp_free_sm_state(st); } break; }
            case 9: xmpp_send_raw_string(c, "<a>%d</a>", 1); break;
            default: xmpp_disconnect(c);
            }
            if (d) { if (xmpp_conn_release(d) != 0) { fail("released-early", "releasing one of two references frees the connection"); throw CaseAbort(); } }
            if (xmpp_conn_release(c) != 1) { fail("not-released", "releasing the only reference does not free the connection"); throw CaseAbort(); }
        }
        }
    }
    void run()
    {
        sim.begin();
        ctx = xmpp_ctx_new(&vm.mem, vlog());
        conn = xmpp_conn_new(ctx);
        unsigned n = 5 + draw(60);
        while (n--) {
            op();
            Str f = fmt("%u.%zu", ops, held.size());
            fingerprint(f);
        }
        verify_all();
        bool conn_first = draw(2);
        if (conn_first) xmpp_conn_release(conn);
        while (!held.empty()) {
            release(held[draw((uint32_t)held.size())]);
            check();
            if (!draw(4)) verify_all();
        }
        if (!conn_first) xmpp_conn_release(conn);
        xmpp_ctx_free(ctx);
        check();
        if (!vm.live.empty()) fail("leak", "%zu blocks (%zu bytes) were not returned to the allocator", vm.live.size(), vm.bytes());
        note("stanza programs");
        note("children that outlive their parent", survivors);
        if (moved && survivors) nontrivial();
        if (want_sample()) sample(fmt("stanza program of %u operations: %u additions to parents, %u children outlived their parent, %llu allocations", ops, moved, survivors, (unsigned long long)vm.allocs));
        sim.end();
    }
};
}
static void c12()
{
    switch (weighted({350, 450, 200, 2})) {
    case 0: { Prog p; try { p.run(); } catch (CaseAbort &) {} sim.end(); break; }
    case 1: hist("C12"); break;
    case 2: sm_case("C12"); break;
    default: probe_contexts();
    }
}
PROP(c12, "C12", c12, 28000, 1500000, "one of three kinds of programs over one context whose allocator tracks every block: stanza programs (non-trivial: a child outlived its parent), connection histories as in C01 with further references, certificates, state hand-over "
     "and reconfiguration (non-trivial: an attempt was accepted), stream management histories as in C05; a few cases check the parsers' allocator in a process of its own", 0, nullptr, 30, {"the C library, OpenSSL and the resolver may use their own allocator"});
