// C09: stanza trees built through the API against a model of the tree, read back by three parsers.
#include "vh.h"
#include "xml.h"
#include <libxml/parser.h>
#include <libxml/tree.h>

namespace {
static const char *D = "jabber:client";
struct M { // the model of a stanza
    bool text = false;
    Str data;                    // text or name
    std::map<Str, Str> at;
    std::vector<std::unique_ptr<M>> kids;
    M *parent = nullptr;
    xmpp_stanza_t *s = nullptr;  // valid as long as the root is
    bool legal = true;
};
typedef std::unique_ptr<M> MP;

// bytes that are not part of a legal XML character become '?'
static Str sane(const Str &s)
{
    Str o;
    for (size_t i = 0; i < s.size();) {
        size_t n = 0;
        for (size_t k = 1; k <= 4 && i + k <= s.size(); k++) if (xml_chars_ok(s.substr(i, k))) { n = k; break; }
        if (n) { o += s.substr(i, n); i += n; } else { o += '?'; i++; }
    }
    return o;
}
static Str gen_value(bool &legal, bool attr)
{
    (void)attr;
    Str s;
    unsigned n = coin(40) ? range(200, 1500) : coin(150) ? range(30, 120) : small(20);
    unsigned mode = weighted({4, 4, 3, 2, 2, 2, 1});
    static const char *evil[] = {"</a>", "<b/>", "]]>", "<![CDATA[", "-->", "<!--", "&lt;", "&amp;", "&#60;", "' x='y", "\" x=\"y", "\"/>", "<?pi?>", "&", "<", ">", "\"", "'", "</stream:stream>", "=", "xmlns=\"x\"", "&#x0;", "%s%n%d", "/>"};
    static const char *uni[] = {"\xc3\xa4", "\xd0\xb6", "\xe4\xb8\xad", "\xf0\x9f\x98\x80", "\xef\xbf\xbd", "\xc2\x85", "\xe2\x80\xa8", "\xc2\xa0", "\xef\xbb\xbf", "\xe2\x82\xac", "\xf4\x8f\xbf\xbd", "\xc2\x80"};
    for (unsigned i = 0; i < n; i++) {
        unsigned k = mode == 0 ? 0 : mode == 1 ? 1 : mode == 2 ? 2 : mode == 3 ? 3 : mode == 4 ? 4 : draw(5);
        if (k == 0) s += (char)('a' + draw(26));
        else if (k == 1) s += evil[draw(24)];
        else if (k == 2) s += (char)range(0x20, 0x7e);
        else if (k == 3) s += "\n\t \r"[draw(4)];
        else s += uni[draw(12)];
    }
    if (coin(12)) { // what XML cannot express
        static const char *bad[] = {"\x01", "\x1f", "\x0b", "\x0c", "\xff", "\xc0\xaf", "\xe2\x82", "\xed\xa0\x80", "\xef\xbf\xbf", "\xf8\x88\x80\x80\x80", "\x80", "\xc3"};
        Str b = bad[draw(12)];
        s.insert(draw((uint32_t)s.size() + 1), b);
    }
    if (!xml_chars_ok(s)) legal = false;
    return s;
}
static const char *NSS[] = {"jabber:client", "urn:x", "urn:ietf:params:xml:ns:xmpp-stanzas", "jabber:iq:roster", "http://a/b?c=d&e", "jabber:server", "urn:y"};
static Str gen_name(const M *parent)
{
    static const char *names[] = {"a", "b", "message", "body", "iq", "query", "item", "x", "presence", "error", "text", "A-b.c_d", "_u", "\xc3\xa9l\xc3\xa9ment", "longer-element-name-that-is-not-short-at-all", "xmlnsx"};
    // a prefix that is declared above
    if (parent && coin(60)) {
        for (const M *p = parent; p; p = p->parent)
            for (auto &a : p->at) if (a.first.compare(0, 6, "xmlns:") == 0) return a.first.substr(6) + ":" + names[draw(8)];
    }
    return names[coin(30) ? draw(16) : draw(12)];
}
static Str gen_key(const M *self, bool &decl)
{
    static const char *keys[] = {"id", "type", "to", "from", "a", "b", "x", "name", "value", "jid", "h", "xmlnsx", "a.b-c", "_k", "\xc3\xbc", "seconds"};
    decl = false;
    if (coin(25)) return "xml:lang";
    if (coin(25)) { decl = true; return pickc({"xmlns:p", "xmlns:q", "xmlns:stream2"}); }
    if (coin(30)) {
        for (const M *p = self; p; p = p->parent)
            for (auto &a : p->at) if (a.first.compare(0, 6, "xmlns:") == 0) return a.first.substr(6) + ":" + keys[draw(10) + 4];
    }
    return keys[draw(16)];
}
// ---- canonical forms ---------------------------------------------------------
static Str res(const M *m, const Str &prefix)
{
    if (prefix == "xml") return "http://www.w3.org/XML/1998/namespace";
    for (const M *p = m; p; p = p->parent) { auto i = p->at.find("xmlns:" + prefix); if (i != p->at.end()) return i->second; }
    return prefix == "stream" ? "http://etherx.jabber.org/streams" : "?";
}
static Str def_ns(const M *m, const M *top)
{
    for (const M *p = m; p; p = p->parent) {
        auto i = p->at.find("xmlns");
        if (i != p->at.end()) return i->second;
        if (p == top) break;
    }
    return D;
}
// lib: as the library's own reader presents it (attribute namespaces dropped, no namespace and jabber:client alike)
static Str canon(const M *m, const M *top, bool lib)
{
    if (m->text) return "\"" + sane(m->data) + "\"";
    Str local = m->data, ns;
    size_t c = local.find(':');
    if (c != Str::npos) { ns = res(m, local.substr(0, c)); local = local.substr(c + 1); }
    else ns = def_ns(m, top);
    if (lib && ns.empty()) ns = D;
    Str s = "{" + sane(ns) + "}" + local;
    std::vector<Str> as;
    for (auto &a : m->at) {
        if (a.first == "xmlns" || a.first.compare(0, 6, "xmlns:") == 0) continue;
        size_t p = a.first.find(':');
        Str k = p == Str::npos ? a.first : lib ? a.first.substr(p + 1) : "{" + sane(res(m, a.first.substr(0, p))) + "}" + a.first.substr(p + 1);
        as.push_back(k + "=\"" + sane(a.second) + "\"");
    }
    std::sort(as.begin(), as.end());
    s += "[";
    for (auto &a : as) s += a + " ";
    s += "](";
    Str run; bool have = false;
    for (auto &k : m->kids) {
        if (k->text) { run += k->data; have = true; continue; }
        if (have && !run.empty()) s += "\"" + sane(run) + "\" ";
        run.clear(); have = false;
        s += canon(k.get(), top, lib) + " ";
    }
    if (!run.empty()) s += "\"" + sane(run) + "\"";
    return s + ")";
}
static Str canon_lib(xmpp_stanza_t *st)
{
    const char *ns = xmpp_stanza_get_ns(st), *nm = xmpp_stanza_get_name(st);
    Str s = "{" + Str(ns && *ns ? ns : D) + "}" + (nm ? nm : "(null)");
    std::vector<Str> as;
    int n = xmpp_stanza_get_attribute_count(st);
    auto eq = [&](const char *what, const char *g) {
        const char *w = xmpp_stanza_get_attribute(st, what);
        if (!g != !w || (g && strcmp(g, w))) fail("attribute-getter", "the getter of '%s' returns %s, the attribute is %s", what, g ? g : "NULL", w ? w : "NULL");
    };
    eq("type", xmpp_stanza_get_type(st)); eq("id", xmpp_stanza_get_id(st)); eq("to", xmpp_stanza_get_to(st)); eq("from", xmpp_stanza_get_from(st)); eq("xmlns", xmpp_stanza_get_ns(st));
    std::vector<const char *> v((size_t)n * 2 + 2);
    int k = xmpp_stanza_get_attributes(st, v.data(), n * 2 + 2);
    if (k != n * 2) fail("attribute-count", "%d attributes are counted and %d strings returned", n, k);
    for (int i = 0; i + 1 < k; i += 2) {
        const char *g = xmpp_stanza_get_attribute(st, v[i]);
        if (!g || strcmp(g, v[i + 1])) fail("attribute-get", "get_attribute(%s) is %s, get_attributes has %s", v[i], g ? g : "NULL", v[i + 1]);
        if (!strcmp(v[i], "xmlns")) continue;
        as.push_back(Str(v[i]) + "=\"" + v[i + 1] + "\"");
    }
    std::sort(as.begin(), as.end());
    s += "[";
    for (auto &a : as) s += a + " ";
    s += "](";
    Str run;
    for (xmpp_stanza_t *c = xmpp_stanza_get_children(st); c; c = xmpp_stanza_get_next(c)) {
        if (xmpp_stanza_is_text(c)) { const char *t = xmpp_stanza_get_text_ptr(c); run += t ? t : "(null)"; continue; }
        if (!run.empty()) { s += "\"" + run + "\" "; run.clear(); }
        s += canon_lib(c) + " ";
    }
    if (!run.empty()) s += "\"" + run + "\"";
    return s + ")";
}
static Str canon_dom(xmlNode *n)
{
    Str s = "{" + Str(n->ns && n->ns->href ? (const char *)n->ns->href : "") + "}" + (const char *)n->name;
    std::vector<Str> as;
    for (xmlAttr *a = n->properties; a; a = a->next) {
        xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1);
        as.push_back((a->ns ? "{" + Str((const char *)a->ns->href) + "}" : "") + (const char *)a->name + "=\"" + (v ? (const char *)v : "") + "\"");
        xmlFree(v);
    }
    std::sort(as.begin(), as.end());
    s += "[";
    for (auto &a : as) s += a + " ";
    s += "](";
    Str run;
    for (xmlNode *c = n->children; c; c = c->next) {
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) { run += (const char *)c->content; continue; }
        if (!run.empty()) { s += "\"" + run + "\" "; run.clear(); }
        if (c->type == XML_ELEMENT_NODE) s += canon_dom(c) + " ";
        else s += fmt("(node type %d) ", c->type);
    }
    if (!run.empty()) s += "\"" + run + "\"";
    return s + ")";
}
static void quiet(void *, const char *, ...) {}
static bool dom_canon(const Str &x, Str &out)
{
    static bool init = false;
    if (!init) { init = true; xmlInitParser(); xmlSetGenericErrorFunc(nullptr, quiet); }
    Str doc = Str("<w xmlns=\"") + D + "\" xmlns:stream=\"http://etherx.jabber.org/streams\">" + x + "</w>";
    xmlDoc *d = xmlReadMemory(doc.data(), (int)doc.size(), nullptr, "UTF-8", XML_PARSE_NOENT | XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
    if (!d) return false;
    xmlNode *r = xmlDocGetRootElement(d);
    unsigned n = 0;
    for (xmlNode *c = r->children; c; c = c->next) { n++; out = c->type == XML_ELEMENT_NODE ? canon_dom(c) : "(not an element)"; }
    if (n != 1) out = fmt("(%u top-level nodes)", n);
    xmlFreeDoc(d);
    return true;
}
static bool own_canon(const Str &x, Str &out, Str &err)
{
    XmlReader r;
    r.xmpp = false;
    if (!r.feed(Str("<w xmlns=\"") + D + "\" xmlns:stream=\"http://etherx.jabber.org/streams\">" + x + "</w>")) { err = r.err; return false; }
    if (!r.done || r.root.kids.size() != 1 || r.root.kids[0].text) { err = fmt("%zu top-level nodes", r.root.kids.size()); return false; }
    out = r.root.kids[0].show();
    return true;
}
// ---- building ------------------------------------------------------------------
struct Builder {
    xmpp_ctx_t *ctx;
    unsigned budget, uid = 0;
    bool legal = true;
    unsigned ops = 0;
    void set_at(M *m, const Str &k, const Str &v, int how)
    {
        int r;
        if (k == "id" && how) r = xmpp_stanza_set_id(m->s, v.c_str());
        else if (k == "type" && how) r = xmpp_stanza_set_type(m->s, v.c_str());
        else if (k == "to" && how) r = xmpp_stanza_set_to(m->s, v.c_str());
        else if (k == "from" && how) r = xmpp_stanza_set_from(m->s, v.c_str());
        else if (k == "xmlns" && how) r = xmpp_stanza_set_ns(m->s, v.c_str());
        else r = xmpp_stanza_set_attribute(m->s, k.c_str(), v.c_str());
        if (r != 0) fail("set-attribute", "setting %s returned %d", k.c_str(), r);
        m->at[k] = v;
        ops++;
    }
    void gen_ns(M *m, bool top)
    {
        if (!coin(top ? 400 : 350)) return;
        Str v = coin(60) ? Str("") : NSS[draw(7)];
        if (coin(300)) for (M *p = m->parent; p; p = p->parent) if (p->at.count("xmlns")) { v = p->at["xmlns"]; break; }
        set_at(m, "xmlns", v, draw(2));
    }
    bool free_key(M *m, const Str &k)
    {
        // the library's reader drops prefixes: no two attributes with one local name
        Str l = k.substr(k.find(':') == Str::npos ? 0 : k.find(':') + 1);
        for (auto &a : m->at) {
            if (a.first == k) return true;
            if (a.first == "xmlns" || a.first.compare(0, 6, "xmlns:") == 0) continue;
            size_t c = a.first.find(':');
            if ((c == Str::npos ? a.first : a.first.substr(c + 1)) == l) return false;
        }
        return true;
    }
    void attrs(M *m)
    {
        unsigned n = coin(30) ? range(10, 40) : small(5);
        for (unsigned i = 0; i < n; i++) {
            bool decl;
            Str k = coin(100) && n > 8 ? fmt("k%u", i) : gen_key(m, decl);
            if (k.compare(0, 6, "xmlns:") == 0) { if (!m->at.count(k)) set_at(m, k, pickc({"urn:p", "urn:q", "urn:x"}), 0); continue; }
            if (!free_key(m, k)) continue;
            set_at(m, k, gen_value(legal, true), draw(2));
        }
        if (coin(80) && !m->at.empty()) { // take one away again
            auto it = m->at.begin();
            std::advance(it, draw((uint32_t)m->at.size()));
            if (it->first.compare(0, 6, "xmlns:")) {
                int r = xmpp_stanza_del_attribute(m->s, it->first.c_str());
                if (r != 0) fail("del-attribute", "deleting attribute %s returned %d", it->first.c_str(), r);
                m->at.erase(it);
            }
        }
        if (coin(40)) { int r = xmpp_stanza_del_attribute(m->s, "nosuch"); if (r == 0) fail("del-attribute", "deleting an attribute that does not exist returned 0"); }
    }
    MP text_node(M *parent)
    {
        MP m(new M);
        m->text = true; m->parent = parent;
        m->s = xmpp_stanza_new(ctx);
        Str v = gen_value(legal, false);
        if (coin(100)) xmpp_stanza_set_text(m->s, "first thought & more");
        if (coin(300)) { // exactly sized, nothing after it
            std::unique_ptr<char[]> b(new char[v.size() + 1]);
            memcpy(b.get(), v.data(), v.size());
            b[v.size()] = 'Z';
            int r = xmpp_stanza_set_text_with_size(m->s, b.get(), v.size());
            if (r != 0) fail("set-text", "set_text_with_size returned %d", r);
        } else { int r = xmpp_stanza_set_text(m->s, v.c_str()); if (r != 0) fail("set-text", "set_text returned %d", r); }
        m->data = v;
        if (xmpp_stanza_set_name(m->s, "x") == 0) fail("kind", "set_name on a text stanza succeeded");
        return m;
    }
    void add(M *p, MP c)
    {
        if (coin(500)) xmpp_stanza_add_child_ex(p->s, c->s, 0);
        else { xmpp_stanza_add_child(p->s, c->s); xmpp_stanza_release(c->s); }
        ops++;
        p->kids.push_back(std::move(c));
    }
    MP element(M *parent, unsigned depth)
    {
        MP m(new M);
        m->parent = parent;
        if (budget) budget--;
        bool ready = false;
        if (!parent && coin(400)) {
            ready = true;
            Str id = coin(700) ? gen_value(legal, true) : "", to = coin(700) ? gen_value(legal, true) : "", ty = pickc({"get", "set", "chat", "result", "error", ""});
            unsigned k = draw(3);
            if (k == 0) { m->s = xmpp_message_new(ctx, ty.empty() ? nullptr : ty.c_str(), to.empty() ? nullptr : to.c_str(), id.empty() ? nullptr : id.c_str()); m->data = "message"; }
            else if (k == 1) { m->s = xmpp_iq_new(ctx, ty.empty() ? nullptr : ty.c_str(), id.empty() ? nullptr : id.c_str()); m->data = "iq"; to = ""; }
            else { m->s = xmpp_presence_new(ctx); m->data = "presence"; id = to = ty = ""; }
            if (!id.empty()) m->at["id"] = id;
            if (!to.empty()) m->at["to"] = to;
            if (!ty.empty()) m->at["type"] = ty;
        } else {
            m->s = xmpp_stanza_new(ctx);
            if (coin(60)) xmpp_stanza_set_name(m->s, "draft");
            m->data = gen_name(parent);
            xmpp_stanza_set_name(m->s, m->data.c_str());
            if (xmpp_stanza_set_text(m->s, "x") == 0) fail("kind", "set_text on an element succeeded");
            if (xmpp_stanza_set_text_with_size(m->s, "xy", 1) == 0) fail("kind", "set_text_with_size on an element succeeded");
        }
        (void)ready;
        // the order of the steps is the user's choice
        bool attrs_first = coin(600);
        if (attrs_first) { gen_ns(m.get(), !parent); attrs(m.get()); }
        unsigned n = !budget || depth > 150 ? 0 : coin(30) ? range(5, 20) : small(4);
        if (coin(20) && depth < 100) n = std::max(n, 1u);
        for (unsigned i = 0; i < n && budget; i++) {
            if (coin(350)) add(m.get(), text_node(m.get()));
            else if (coin(300)) { // the child is added before it is filled
                MP c(new M);
                c->parent = m.get();
                c->s = xmpp_stanza_new(ctx);
                c->data = gen_name(m.get());
                xmpp_stanza_set_name(c->s, c->data.c_str());
                M *pc = c.get();
                add(m.get(), std::move(c));
                gen_ns(pc, false);
                attrs(pc);
                if (budget) { budget--; if (coin(600)) add(pc, text_node(pc)); if (coin(400)) add(pc, element(pc, depth + 1)); }
            } else add(m.get(), element(m.get(), depth + 1));
        }
        if (!attrs_first) { // later declarations could capture prefixes below: none are generated here
            if (coin(500)) { Str k = pickc({"id", "a", "b"}); if (free_key(m.get(), k)) set_at(m.get(), k, gen_value(legal, true), draw(2)); }
            gen_ns(m.get(), !parent);
        }
        if (m->data == "message" && !parent && coin(500)) {
            bool has = false;
            for (auto &k : m->kids) if (!k->text && k->data == "body") has = true;
            Str t = gen_value(legal, false);
            int r = xmpp_message_set_body(m->s, t.c_str());
            if ((r == 0) == has) fail("set-body", "set_body returned %d on a message with%s a body", r, has ? "" : "out");
            if (r == 0) {
                MP b(new M), x(new M);
                b->data = "body"; b->parent = m.get(); x->text = true; x->data = t; x->parent = b.get();
                for (xmpp_stanza_t *c = xmpp_stanza_get_children(m->s); c; c = xmpp_stanza_get_next(c)) b->s = c;
                x->s = xmpp_stanza_get_children(b->s);
                char *g = xmpp_message_get_body(m->s);
                if (t.empty() ? g && *g : !g || t != g) fail("get-body", "body set to %s reads %s", esc(t).c_str(), g ? esc(g).c_str() : "NULL");
                if (g) xmpp_free(ctx, g);
                b->kids.push_back(std::move(x));
                m->kids.push_back(std::move(b));
            }
        }
        return m;
    }
};
static void all_elements(M *m, std::vector<M *> &v) { if (m->text) return; v.push_back(m); for (auto &k : m->kids) all_elements(k.get(), v); }
static bool tree_legal(const M *m)
{
    if (m->text) return xml_chars_ok(m->data);
    for (auto &a : m->at) if (!xml_chars_ok(a.second)) return false;
    Str run;
    for (auto &k : m->kids) if (!tree_legal(k.get())) return false;
    return true;
}
// prefixes used in the part and declared above it
static bool closed(const M *m, const M *top)
{
    auto ok = [&](const Str &q) {
        size_t c = q.find(':');
        if (c == Str::npos || q.compare(0, 4, "xml:") == 0 || q.compare(0, 6, "xmlns:") == 0) return true;
        for (const M *p = m; p; p = p->parent) { if (p->at.count("xmlns:" + q.substr(0, c))) return true; if (p == top) break; }
        return false;
    };
    if (m->text) return true;
    if (!ok(m->data)) return false;
    for (auto &a : m->at) if (!ok(a.first)) return false;
    for (auto &k : m->kids) if (!closed(k.get(), top)) return false;
    return true;
}
static Str render(xmpp_ctx_t *ctx, xmpp_stanza_t *s, bool &ok)
{
    char *b = (char *)1; size_t n = 12345;
    int r = xmpp_stanza_to_text(s, &b, &n);
    ok = r == 0;
    if (r != 0) { if (b) fail("to-text-error", "to_text returned %d and left a buffer", r); return ""; }
    Str t(b, strlen(b));
    if (n != t.size()) fail("length", "to_text reports %zu bytes and the string has %zu", n, t.size());
    xmpp_free(ctx, b);
    return t;
}
static bool prefixed(const M *m)
{
    if (m->text) return false;
    if (m->data.find(':') != Str::npos) return true;
    for (auto &a : m->at) if ((a.first.find(':') != Str::npos && a.first.compare(0, 6, "xmlns:")) || (a.first == "xmlns" && a.second.empty())) return true;
    for (auto &k : m->kids) if (prefixed(k.get())) return true;
    return false;
}
static Str around(const Str &a, const Str &b)
{
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t f = i > 60 ? i - 60 : 0;
    return a.size() < 300 ? esc(a) : fmt("...(%zu)", f) + esc(a.substr(f, 160), 700);
}
static void check_text(xmpp_ctx_t *ctx, const Str &x, const M *m, const char *what, bool all)
{
    if (failed()) return;
    bool legal = tree_legal(m);
    if (!xml_chars_ok(x)) {
        if (legal) fail("illegal-output", "%s: legal data is rendered as %s", what, esc(x).c_str());
        else fail("illegal-char", "%s: data with a character that XML cannot express is rendered as %s", what, esc(x).c_str());
        if (failed()) return;
    }
    Str y = sane(x), want = canon(m, m, false), got, err;
    // an inherited namespace is not part of a part
    bool inherits = m->parent && !m->at.count("xmlns") && m->data.find(':') == Str::npos;
    if (inherits) note("part that inherits its namespace");
    if (!own_canon(y, got, err)) { fail("not-well-formed", "%s: %s: %s", what, err.c_str(), esc(x, 2000).c_str()); return; }
    if (got != want) { fail("tree-differs", "%s: rendered %s, read back as %s, built as %s", what, esc(x, 500).c_str(), around(got, want).c_str(), around(want, got).c_str()); return; }
    if (!all) return;
    if (!dom_canon(y, got)) { fail("not-well-formed", "%s: libxml2 rejects %s", what, esc(x, 2000).c_str()); return; }
    if (got != want) { fail("tree-differs", "%s: rendered %s, libxml2 reads %s, built as %s", what, esc(x, 500).c_str(), around(got, want).c_str(), around(want, got).c_str()); return; }
    if (legal) {
        xmpp_stanza_t *r = xmpp_stanza_new_from_string(ctx, x.c_str());
        if (!r) { fail("own-reader", "%s: new_from_string rejects %s", what, esc(x, 2000).c_str()); return; }
        Str g = canon_lib(r), w = canon(m, m, true);
        if (g != w) fail("own-reader", "%s: new_from_string reads %s, built as %s", what, around(g, w).c_str(), around(w, g).c_str());
        bool ok; Str again = render(ctx, r, ok);
        if (!ok) fail("own-reader", "%s: what new_from_string read cannot be rendered", what);
        else {
            Str g2;
            if (!own_canon(again, g2, err)) fail("second-rendering", "%s: second rendering %s: %s", what, esc(again, 1500).c_str(), err.c_str());
            else if (!prefixed(m) && g2 != w) fail("second-rendering", "%s: what new_from_string read is rendered as %s, built as %s", what, around(g2, w).c_str(), around(w, g2).c_str());
        }
        xmpp_stanza_release(r);
    }
}
static void reply_checks(Builder &b, M *root)
{
    xmpp_ctx_t *ctx = b.ctx;
    auto from = root->at.find("from"), to = root->at.find("to"), id = root->at.find("id");
    xmpp_stanza_t *r = xmpp_stanza_reply(root->s);
    if (from == root->at.end()) {
        if (r) { const char *t = xmpp_stanza_get_to(r); if (t) fail("reply-to", "the reply to a stanza without sender goes to %s", esc(t).c_str()); xmpp_stanza_release(r); }
        return;
    }
    if (!r) { fail("reply", "no reply to a stanza from %s", esc(from->second).c_str()); return; }
    auto same = [&](const char *g, std::map<Str, Str>::iterator w) { return w == root->at.end() ? !g : g && w->second == g; };
    if (!same(xmpp_stanza_get_to(r), from)) fail("reply-to", "the reply goes to %s instead of %s", xmpp_stanza_get_to(r) ? esc(xmpp_stanza_get_to(r)).c_str() : "nobody", esc(from->second).c_str());
    if (!same(xmpp_stanza_get_id(r), id)) fail("reply-id", "the reply has another id");
    if (const char *f = xmpp_stanza_get_from(r)) if (to == root->at.end() || to->second != f) fail("reply-from", "the reply comes from %s", esc(f).c_str());
    const char *n = xmpp_stanza_get_name(r);
    if (!n || root->data != n) fail("reply-name", "the reply is called %s", n ? n : "NULL");
    if (xmpp_stanza_get_children(r)) fail("reply-children", "the reply has children");
    xmpp_stanza_release(r);
    static const char *types[] = {"cancel", "continue", "modify", "auth", "wait"};
    static const char *conds[] = {"bad-request", "conflict", "feature-not-implemented", "forbidden", "gone", "internal-server-error", "item-not-found", "jid-malformed", "not-acceptable", "not-allowed", "not-authorized", "policy-violation", "recipient-unavailable", "redirect", "registration-required", "remote-server-not-found", "remote-server-timeout", "resource-constraint", "service-unavailable", "subscription-required", "undefined-condition", "unexpected-request"};
    const char *ty = types[draw(5)], *co = conds[draw(22)];
    bool has = coin(600), legal = true;
    Str t = gen_value(legal, false);
    xmpp_stanza_t *e = xmpp_stanza_reply_error(root->s, ty, co, has ? t.c_str() : nullptr);
    if (!e) { fail("reply-error", "no error reply to a stanza from %s", esc(from->second).c_str()); return; }
    bool ok; Str x = render(ctx, e, ok);
    if (!ok) fail("reply-error", "the error reply cannot be rendered");
    else {
        Node nd; Str err;
        Str y = sane(x);
        bool unbound = !closed(root, root);
        if (unbound) {}
        else if (!xml_parse(y, nd, err, D)) fail("reply-error-xml", "%s: %s", err.c_str(), esc(x).c_str());
        else {
            auto at = [&](const Node &q, const char *k) -> Str { const Str *v = q.attr(k); return v ? *v : "(none)"; };
            Str S = "urn:ietf:params:xml:ns:xmpp-stanzas", shown = nd.show();
            if (at(nd, "type") != "error" || at(nd, "to") != sane(from->second) || (to != root->at.end() && at(nd, "from") != sane(to->second)) || at(nd, "id") != (id == root->at.end() ? Str("(none)") : sane(id->second)))
                fail("reply-error-address", "error reply %s to a stanza from %s to %s", esc(shown).c_str(), esc(from->second).c_str(), to == root->at.end() ? "nobody" : esc(to->second).c_str());
            const Node *er = nullptr; unsigned ne = 0;
            for (auto &k : nd.kids) if (!k.text && k.name == "error" && k.ns == nd.ns) { er = &k; ne++; }
            if (ne != 1 || at(*er, "type") != ty) fail("reply-error-structure", "error reply %s", esc(shown).c_str());
            else {
                unsigned nc = 0, nt = 0;
                Str tx;
                for (auto &k : er->kids) { if (k.text || k.ns != S) { nc += 10; continue; } if (k.name == co) nc++; else if (k.name == "text") { nt++; tx = k.deep_text(); } else nc += 10; }
                if (nc != 1) fail("reply-error-condition", "error reply %s does not have exactly the condition %s", esc(shown).c_str(), co);
                if (nt != (has ? 1u : 0u) || tx != (has ? sane(t) : "")) fail("reply-error-text", "error reply %s, text %s", esc(shown).c_str(), esc(t).c_str());
            }
        }
    }
    xmpp_stanza_release(e);
    note("reply");
}
static void error_checks(xmpp_ctx_t *ctx)
{
    static const std::pair<xmpp_error_type_t, const char *> T[] = {
        {XMPP_SE_BAD_FORMAT, "bad-format"}, {XMPP_SE_BAD_NS_PREFIX, "bad-namespace-prefix"}, {XMPP_SE_CONFLICT, "conflict"}, {XMPP_SE_CONN_TIMEOUT, "connection-timeout"}, {XMPP_SE_HOST_GONE, "host-gone"},
        {XMPP_SE_HOST_UNKNOWN, "host-unknown"}, {XMPP_SE_IMPROPER_ADDR, "improper-addressing"}, {XMPP_SE_INTERNAL_SERVER_ERROR, "internal-server-error"}, {XMPP_SE_INVALID_FROM, "invalid-from"}, {XMPP_SE_INVALID_ID, "invalid-id"},
        {XMPP_SE_INVALID_NS, "invalid-namespace"}, {XMPP_SE_INVALID_XML, "invalid-xml"}, {XMPP_SE_NOT_AUTHORIZED, "not-authorized"}, {XMPP_SE_POLICY_VIOLATION, "policy-violation"}, {XMPP_SE_REMOTE_CONN_FAILED, "remote-connection-failed"},
        {XMPP_SE_RESOURCE_CONSTRAINT, "resource-constraint"}, {XMPP_SE_RESTRICTED_XML, "restricted-xml"}, {XMPP_SE_SEE_OTHER_HOST, "see-other-host"}, {XMPP_SE_SYSTEM_SHUTDOWN, "system-shutdown"}, {XMPP_SE_UNDEFINED_CONDITION, "undefined-condition"},
        {XMPP_SE_UNSUPPORTED_ENCODING, "unsupported-encoding"}, {XMPP_SE_UNSUPPORTED_STANZA_TYPE, "unsupported-stanza-type"}, {XMPP_SE_UNSUPPORTED_VERSION, "unsupported-version"}, {XMPP_SE_XML_NOT_WELL_FORMED, "not-well-formed"}};
    auto &t = T[draw(24)];
    bool legal = true, has = coin(600);
    Str tx = gen_value(legal, false);
    xmpp_stanza_t *e = xmpp_error_new(ctx, t.first, has ? tx.c_str() : nullptr);
    bool ok; Str x = render(ctx, e, ok);
    xmpp_stanza_release(e);
    XmlReader r; r.xmpp = false;
    if (!ok) { fail("error-new", "the stream error cannot be rendered"); return; }
    if (!r.feed(Str("<stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams'>") + sane(x) + "</stream:stream>") || !r.done || r.root.kids.size() != 1) { fail("error-new", "the stream error is %s", esc(x).c_str()); return; }
    const Node &n = r.root.kids[0];
    Str S = "urn:ietf:params:xml:ns:xmpp-streams", g;
    unsigned nc = 0, nt = 0;
    for (auto &k : n.kids) { if (k.text || k.ns != S) { nc += 10; continue; } if (k.name == "text") { nt++; g = k.deep_text(); } else if (k.name == t.second) nc++; else nc += 10; }
    if (n.name != "error" || n.ns != "http://etherx.jabber.org/streams" || nc != 1) fail("error-condition", "the stream error for %s is %s", t.second, esc(x).c_str());
    if (nt != (has ? 1u : 0u) || g != (has ? sane(tx) : "")) fail("error-text", "the stream error with text %s is %s", esc(tx).c_str(), esc(x).c_str());
    note("stream error");
}
static void run_c09()
{
    VMem vm;
    xmpp_ctx_t *ctx = xmpp_ctx_new(&vm.mem, vlog());
    {
        Builder b;
        b.ctx = ctx;
        b.budget = coin(60) ? range(60, 300) : 1 + small(30);
        bool chain = coin(25);
        MP root;
        if (chain) { // deep and thin
            root = b.element(nullptr, 200);
            M *m = root.get();
            unsigned d = range(5, 180);
            for (unsigned i = 0; i < d; i++) {
                b.budget = 1;
                MP c = b.element(m, 200);
                M *pc = c.get();
                b.add(m, std::move(c));
                m = pc;
            }
            note("deep tree");
        } else root = b.element(nullptr, 0);
        bool ok;
        Str x = render(ctx, root->s, ok);
        if (coin(250) && ok) { // bring the length to where buffers are enlarged
            static const unsigned at[] = {1022, 1023, 1024, 1025, 2047, 2048, 2049, 4096, 511, 512};
            unsigned want = at[draw(10)];
            Str padc = pickc({"x", "&", "<", "\"", "\xc3\xa4"});
            size_t base = x.size() + (root->kids.empty() ? root->data.size() + 2 : 0); // "/>" becomes "></name>"
            size_t esc1 = padc == "&" ? 5 : padc == "<" ? 4 : padc == "\"" ? 6 : padc.size();
            if (base + esc1 < want) {
                Str p;
                size_t left = want - base;
                while (left >= esc1) { p += padc; left -= esc1; }
                p.insert(0, Str(left, 'y'));
                MP t(new M);
                t->text = true; t->data = p; t->parent = root.get(); t->s = xmpp_stanza_new(ctx);
                xmpp_stanza_set_text(t->s, p.c_str());
                b.add(root.get(), std::move(t));
                x = render(ctx, root->s, ok);
                note("length brought to a buffer boundary");
                if (ok && x.size() != want && x.find("\"/>") == Str::npos) note("(boundary missed)");
            }
        }
        if (want_sample()) sample(esc(x, 160));
        fingerprint(x);
        trace("rendered: %s", esc(x, 3000).c_str());
        std::vector<M *> els;
        all_elements(root.get(), els);
        bool legal = tree_legal(root.get());
        if (!legal) note("data that XML cannot express");
        note(els.size() > 100 ? "more than 100 elements" : els.size() > 20 ? "21 to 100 elements" : els.size() > 5 ? "6 to 20 elements" : "up to 5 elements");
        if (els.size() > 1 || !root->at.empty() || !root->kids.empty()) nontrivial();
        if (!ok) { if (legal) fail("to-text", "to_text failed"); }
        else {
            check_text(ctx, x, root.get(), "stanza", true);
            // parts of it
            for (unsigned i = 0; i < 2 && els.size() > 1 && !failed(); i++) {
                M *m = els[1 + draw((uint32_t)els.size() - 1)];
                if (!closed(m, m)) continue;
                Str p = render(ctx, m->s, ok);
                if (ok) check_text(ctx, p, m, "part of a stanza", true);
                note("part of a stanza rendered");
            }
            // copies
            M *cm = coin(700) ? root.get() : els[draw((uint32_t)els.size())];
            if (cm == root.get() || closed(cm, cm)) {
                xmpp_stanza_t *c = xmpp_stanza_copy(cm->s);
                if (!c) fail("copy", "copy failed");
                else {
                    Str y = render(ctx, c, ok);
                    if (ok) check_text(ctx, y, cm, "copy", false);
                    // a change to the copy leaves the original alone, and the other way round
                    bool first = coin(500);
                    xmpp_stanza_t *victim = first ? c : cm->s, *other = first ? cm->s : c;
                    Str before = render(ctx, other, ok);
                    std::vector<xmpp_stanza_t *> v = {victim};
                    for (size_t i = 0; i < v.size() && v.size() < 400; i++) for (xmpp_stanza_t *k = xmpp_stanza_get_children(v[i]); k; k = xmpp_stanza_get_next(k)) v.push_back(k);
                    for (unsigned i = 0; i < 3; i++) {
                        xmpp_stanza_t *q = v[draw((uint32_t)v.size())];
                        if (xmpp_stanza_is_text(q)) xmpp_stanza_set_text(q, "changed");
                        else switch (draw(4)) {
                        case 0: xmpp_stanza_set_name(q, "renamed"); break;
                        case 1: xmpp_stanza_set_attribute(q, "id", "changed"); break;
                        case 2: xmpp_stanza_del_attribute(q, "id"); xmpp_stanza_set_ns(q, "urn:changed"); break;
                        default: { xmpp_stanza_t *n = xmpp_stanza_new(ctx); xmpp_stanza_set_text(n, "added"); xmpp_stanza_add_child_ex(q, n, 0); }
                        }
                    }
                    Str after = render(ctx, other, ok);
                    if (before != after) fail("copy-independent", "changing the %s changes the %s from %s to %s", first ? "copy" : "original", first ? "original" : "copy", esc(before).c_str(), esc(after).c_str());
                    if (!first) {
                        // only the copy is left
                        xmpp_stanza_release(root->s); root->s = nullptr;
                        Str z = render(ctx, c, ok);
                        if (z != before) fail("copy-independent", "releasing the original changes the copy");
                    }
                    xmpp_stanza_release(c);
                    note("copy");
                }
            }
            if (root->s && !failed()) {
                bool l2 = true;
                if (cm == root.get() && root->at.size() < 200) for (auto k : {"from", "to", "id"}) if (!root->at.count(k) && coin(k[0] == 'f' ? 800 : 400) && b.free_key(root.get(), k)) b.set_at(root.get(), k, gen_value(l2, true), draw(2));
                reply_checks(b, root.get());
            }
            if (!failed() && coin(300)) error_checks(ctx);
        }
        if (root->s) { int r = xmpp_stanza_release(root->s); if (r != 1) fail("release", "releasing the only reference returned %d", r); }
    }
    xmpp_ctx_free(ctx);
    if (vm.bad) fail("allocator", "%s", vm.badmsg.c_str());
    if (!vm.live.empty()) fail("leak", "%zu blocks are still allocated", vm.live.size());
}
} // namespace
PROP(c09, "C09", run_c09, 40000, 3000000, "the stanza has attributes, text or children");
