// C10: inbound XML is delivered identically however it is chunked.
#include "app.h"
#include "shim.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <libxml/xmlerror.h>

static const Str STREAMNS = "http://etherx.jabber.org/streams", XMLNS = "http://www.w3.org/XML/1998/namespace";
// ---- canonical forms: {ns}name[attributes without their namespaces](children), text merged -----
static Str canon_lib(xmpp_stanza_t *st)
{
    const char *ns = xmpp_stanza_get_ns(st), *nm = xmpp_stanza_get_name(st);
    Str s = "{" + Str(ns ? ns : "") + "}" + (nm ? nm : "(null)");
    std::vector<Str> as;
    int n = xmpp_stanza_get_attribute_count(st);
    std::vector<const char *> v((size_t)(n > 0 ? n : 0) * 2 + 2);
    int k = xmpp_stanza_get_attributes(st, v.data(), n * 2);
    for (int i = 0; i + 1 < k; i += 2) if (strcmp(v[i], "xmlns")) as.push_back(Str(v[i]) + "=\"" + v[i + 1] + "\"");
    std::sort(as.begin(), as.end());
    s += "[";
    for (auto &a : as) s += a + " ";
    s += "](";
    Str run;
    for (xmpp_stanza_t *c = xmpp_stanza_get_children(st); c; c = xmpp_stanza_get_next(c)) {
        if (xmpp_stanza_is_text(c)) { const char *t = xmpp_stanza_get_text_ptr(c); run += t ? t : "(null)"; continue; }
        if (!run.empty()) { s += "\"" + run + "\" "; run.clear(); }
        s += canon_lib(c) + " ";
    }
    if (!run.empty()) s += "\"" + run + "\"";
    return s + ")";
}
static bool dom_odd; // the document uses something the library reports differently by design
static Str canon_dom(xmlNode *n, bool shallow = false, int depth = 1)
{
    if (depth > 1500) dom_odd = true;
    Str s = shallow ? Str((const char *)n->name) : "{" + Str(n->ns && n->ns->href ? (const char *)n->ns->href : "") + "}" + (const char *)n->name;
    std::vector<Str> as;
    std::set<Str> names;
    for (xmlAttr *a = n->properties; a; a = a->next) {
        xmlChar *v = xmlNodeListGetString(n->doc, a->children, 1);
        if (!strcmp((const char *)a->name, "xmlns")) { xmlFree(v); continue; } // in a namespace of its own: dropped, and not taken for a declaration
        if (!names.insert((const char *)a->name).second) dom_odd = true;
        as.push_back(Str((const char *)a->name) + "=\"" + (v ? (const char *)v : "") + "\"");
        xmlFree(v);
    }
    std::sort(as.begin(), as.end());
    s += "[";
    for (auto &a : as) s += a + " ";
    s += "]";
    if (shallow) return s;
    s += "(";
    Str run;
    for (xmlNode *c = n->children; c; c = c->next) {
        if (c->type == XML_TEXT_NODE || c->type == XML_CDATA_SECTION_NODE) { run += (const char *)c->content; continue; }
        if (c->type == XML_COMMENT_NODE || c->type == XML_PI_NODE) continue;
        if (!run.empty()) { s += "\"" + run + "\" "; run.clear(); }
        if (c->type == XML_ELEMENT_NODE) s += canon_dom(c, false, depth + 1) + " ";
        else dom_odd = true;
    }
    if (!run.empty()) s += "\"" + run + "\"";
    return s + ")";
}
typedef std::vector<Str> Evs;
static void quiet(void *, const char *, ...) {}
static int no_entity(const char *) { return 0; }
// what libxml2 makes of the document; false if it is not well-formed (or not namespace-well-formed)
static bool dom_events(const Str &x, Evs &out)
{
    static bool init = false;
    if (!init) { init = true; xmlInitParser(); xmlSetGenericErrorFunc(nullptr, quiet); }
    dom_odd = false;
    xmlParserCtxt *c = xmlNewParserCtxt();
    xmlDoc *d = xmlCtxtReadMemory(c, x.data(), (int)x.size(), nullptr, nullptr, XML_PARSE_NOENT | XML_PARSE_DTDATTR | XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
    bool ok = d && c->wellFormed && c->nsWellFormed && c->errNo == XML_ERR_OK;
    if (ok) {
        xmlNode *r = xmlDocGetRootElement(d);
        out.push_back("open " + canon_dom(r, true));
        for (xmlNode *k = r->children; k; k = k->next)
            if (k->type == XML_ELEMENT_NODE) out.push_back("stanza " + canon_dom(k));
            else if (k->type != XML_TEXT_NODE && k->type != XML_CDATA_SECTION_NODE && k->type != XML_COMMENT_NODE && k->type != XML_PI_NODE) dom_odd = true;
        out.push_back("close");
    }
    if (d) xmlFreeDoc(d);
    xmlFreeParserCtxt(c);
    return ok;
}
// ---- documents -----------------------------------------------------------------------------
struct Doc {
    Str x;                       // the bytes
    Evs want;                    // what is in it
    bool wf = true;
    bool entities = false, multibyte = false, cdata = false, dtd = false, prefixes = false;
    std::vector<Str> stanza_text; // each top-level element by itself (without the declarations of the stream)
};
typedef std::map<Str, Str> Scope; // prefix -> namespace
static const char *TEXTS[] = {"hello", "a", " ", "\n", "\t", "x y", "caf\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "]]", "]", ">", "'", "\"", "=", "0", "--", "\xef\xbf\xbd", "\xc2\x80", "\xed\x9f\xbf", "\xee\x80\x80", "\xf4\x8f\xbf\xbf", "?>", "#38;", "amp;", "\x7f", "\xc2\x85", "\xe2\x80\xa8"};
static const char *NAMES[] = {"message", "presence", "iq", "body", "x", "a", "b", "query", "item", "features", "error", "n-1", "n.2", "_n", "stream", "N\xc3\xa9", "success", "proceed"};
static const char *URIS[] = {"jabber:client", "urn:x", "urn:y", "http://etherx.jabber.org/streams", "jabber:server", "u", "http://a/b?c=d&amp;e"};
static const char *PREFIXES[] = {"stream", "p", "q", "db", "x-1"};
static const char *ATTRS[] = {"id", "to", "from", "type", "a", "b", "c-1", "lang", "version", "\xc3\xa9t"};
static Str uri_value(const char *u) { Str s = u; size_t p; while ((p = s.find("&amp;")) != Str::npos) s.replace(p, 5, "&"); return s; }
static Str ws(unsigned most = 2) { Str s; unsigned n = draw(most + 1); while (n--) s += pickc({" ", "\n", "\t", "\r\n", "  "}); return s; }
static Str ws1() { return Str(pickc({" ", " ", " ", "\n", "\t", "  ", "\r\n "})); }
// one character reference or predefined entity; val is the character
static Str ref(Str &val)
{
    switch (draw(8)) {
    case 0: val = "&"; return "&amp;";
    case 1: val = "<"; return "&lt;";
    case 2: val = ">"; return "&gt;";
    case 3: val = "\""; return "&quot;";
    case 4: val = "'"; return "&apos;";
    case 5: { static const struct { const char *r, *v; } t[] = {{"&#65;", "A"}, {"&#x41;", "A"}, {"&#0010;", "\n"}, {"&#xD;", "\r"}, {"&#9;", "\t"}, {"&#233;", "\xc3\xa9"}, {"&#x20ac;", "\xe2\x82\xac"}, {"&#x1F600;", "\xf0\x9f\x98\x80"}, {"&#38;", "&"}, {"&#60;", "<"}, {"&#x10FFFF;", "\xf4\x8f\xbf\xbf"}, {"&#32;", " "}};
        auto &e = t[draw(12)]; val = e.v; return e.r; }
    default: { unsigned c = 32 + draw(95); val = Str(1, (char)c); return draw(2) ? fmt("&#%u;", c) : fmt("&#x%x;", c); }
    }
}
static Str eol(const Str &s) { Str o; for (size_t i = 0; i < s.size(); i++) if (s[i] == '\r') { o += '\n'; if (i + 1 < s.size() && s[i + 1] == '\n') i++; } else o += s[i]; return o; }
struct Gen {
    Doc d;
    unsigned budget = 60;
    bool in_dtd = false;
    std::map<Str, std::pair<Str, Str>> ents; // name -> (declared text, expanded canonical text)
    Str piece(Str &val, bool attr)           // a run of plain characters
    {
        Str s;
        unsigned n = 1 + draw(4);
        while (n--) s += TEXTS[draw(sizeof TEXTS / sizeof *TEXTS)];
        if (coin(30)) s += Str(1 + draw(6000), 'L');
        if (coin(60)) s += pickc({"\r\n", "\r", "\n\r", "\r\r\n"});
        Str o;
        for (size_t i = 0; i < s.size(); i++) {
            if (attr && (s[i] == '"' || s[i] == '\'')) continue;
            // "]]>" must not appear in text
            if (s[i] == '>' && o.size() >= 2 && o.compare(o.size() - 2, 2, "]]") == 0) continue;
            o += s[i];
        }
        for (unsigned char c : o) if (c >= 0x80) d.multibyte = true;
        val = eol(o);
        if (attr) for (auto &c : val) if (c == '\n' || c == '\t') c = ' ';
        return o;
    }
    // character data; val: what it stands for
    Str text(Str &val)
    {
        Str s;
        unsigned n = 1 + draw(5);
        while (n--) {
            Str v;
            switch (weighted({40, 25, 15, 6, 4, 8, 2})) {
            case 0: s += piece(v, false); break;
            case 1: s += ref(v); d.entities = true; break;
            case 2: {
                Str p = piece(v, false), o;
                if (coin(300)) { p += "<&amp;\"]]"; v += "<&amp;\"]]"; }
                if (coin(100)) { p = v = ""; }
                s += "<![CDATA[" + p + "]]>"; d.cdata = true; break;
            }
            case 3: s += "<!--" + Str(pickc({"", "c", " <a> & ", "\xc3\xa9", "]]>"})) + "-->"; break;
            case 4: s += Str("<?") + pickc({"pi", "p-i", "xml-x"}) + pickc({"", " x", " <a>&", " \xe2\x82\xac"}) + "?>"; break;
            case 5: if (!ents.empty()) { auto it = ents.begin(); std::advance(it, draw((uint32_t)ents.size())); s += "&" + it->first + ";"; v = it->second.second; d.entities = true; } break;
            default: break;
            }
            val += v;
            // "]]" + ">" over the border of two pieces
            if (s.size() >= 2 && s.compare(s.size() - 2, 2, "]]") == 0) { s += "."; val += "."; }
            if (s.size() && s.back() == ']') { s += "."; val += "."; }
            if (s.size() && s.back() == '\r') { s += "."; val += "."; }
        }
        return s;
    }
    Str value(Str &val)
    {
        Str s; val.clear();
        unsigned n = draw(3);
        while (n--) {
            Str v;
            if (draw(3)) s += piece(v, true); else { s += ref(v); d.entities = true; }
            if (s.size() && s.back() == '\r') { s += "."; v += "."; }
            val += v;
        }
        char q = draw(2) ? '"' : '\'';
        return Str(1, q) + s + Str(1, q);
    }
    // an element; returns its canonical form
    Str element(Scope sc, unsigned depth, bool root)
    {
        if (budget) budget--;
        Str tag, name, prefix;
        std::vector<Str> as;
        std::vector<Str> decl;
        std::vector<Str> at;
        std::set<Str> used;
        if (root) {
            if (coin(850)) {
                name = "stream"; prefix = "stream";
                sc[""] = "jabber:client"; sc["stream"] = STREAMNS;
                decl.push_back("xmlns='jabber:client'"); decl.push_back("xmlns:stream=\"" + STREAMNS + "\"");
            } else name = NAMES[draw(18)];
        } else name = NAMES[draw(18)];
        if (coin(root ? 100 : 220)) {
            const char *u = URIS[draw(7)];
            bool have = false;
            for (auto &x : decl) if (x.compare(0, 6, "xmlns=") == 0) have = true;
            if (!have) {
                if (coin(120)) { sc[""] = ""; decl.push_back("xmlns=''"); }
                else { sc[""] = uri_value(u); decl.push_back(Str("xmlns='") + u + "'"); }
            }
        }
        if (coin(160)) {
            const char *p = PREFIXES[1 + draw(4)], *u = URIS[draw(7)];
            sc[p] = uri_value(u); decl.push_back(Str("xmlns:") + p + "=\"" + u + "\"");
            d.prefixes = true;
        }
        std::vector<Str> ps;
        for (auto &p : sc) if (!p.first.empty()) ps.push_back(p.first);
        if (!root && !ps.empty() && coin(200)) prefix = pick(ps);
        Str ns = sc.count(prefix) ? sc[prefix] : "";
        unsigned na = draw(4);
        while (na--) {
            Str k = ATTRS[draw(10)], v;
            if (!used.insert(k).second) continue;
            Str q = k;
            if (k == "lang") q = "xml:lang";
            else if (!ps.empty() && coin(80)) q = pick(ps) + ":" + k;
            Str lit = value(v);
            at.push_back(q + ws(1) + "=" + ws(1) + lit);
            as.push_back(k + "=\"" + v + "\"");
        }
        if (!root && !ps.empty() && coin(40)) { Str v; at.push_back(pick(ps) + ":xmlns=" + value(v)); note("prefixed attribute named xmlns"); }
        for (auto &x : decl) at.push_back(x);
        for (size_t i = at.size(); i > 1; i--) std::swap(at[i - 1], at[draw((uint32_t)i)]);
        Str qn = (prefix.empty() ? "" : prefix + ":") + name;
        d.x += "<" + qn;
        for (auto &a : at) d.x += ws1() + a;
        d.x += ws(1);
        std::sort(as.begin(), as.end());
        Str attrs = "[";
        for (auto &a : as) attrs += a + " ";
        attrs += "]";
        if (root) {
            d.want.push_back("open " + name + attrs);
            bool empty = coin(20);
            if (empty) { d.x += "/>"; d.want.push_back("close"); return ""; }
            d.x += ">";
            unsigned n = draw(6);
            while (n--) {
                if (coin(400)) { Str v; Str g = coin(600) ? ws(3) : text(v); d.x += g; }
                size_t p0 = d.x.size();
                Str c = element(sc, depth + 1, false);
                d.want.push_back("stanza " + c);
                d.stanza_text.push_back(d.x.substr(p0));
            }
            d.x += ws(1) + "</" + qn + ws(1) + ">";
            d.want.push_back("close");
            return "";
        }
        Str s = "{" + ns + "}" + name + attrs + "(", run;
        if (coin(120)) { d.x += "/>"; return s + ")"; }
        d.x += ">";
        unsigned n = draw(4);
        if (depth > 6 || !budget) n = std::min(n, 1u);
        while (n--) {
            if ((depth > 6 || !budget) || coin(550)) { Str v; d.x += text(v); run += v; continue; }
            if (!run.empty()) { s += "\"" + run + "\" "; run.clear(); }
            s += element(sc, depth + 1, false) + " ";
        }
        if (!run.empty()) s += "\"" + run + "\"";
        d.x += "</" + qn + ws(1) + ">";
        return s + ")";
    }
    Str misc() { Str s; unsigned n = draw(3); while (n--) s += pickc({"\n", " ", "<!-- c -->", "<?pi x?>", "\r\n"}); return s; }
    void document()
    {
        bool decl = coin(600);
        if (decl) d.x += pickc({"<?xml version='1.0'?>", "<?xml version=\"1.0\" encoding='UTF-8'?>", "<?xml version='1.0' encoding=\"utf-8\" standalone='yes' ?>", "<?xml  version='1.0'  standalone='no'?>"});
        else if (coin(30)) d.x += "\xef\xbb\xbf";
        d.x += misc();
        if (coin(80)) {
            d.dtd = true;
            d.x += "<!DOCTYPE r [";
            unsigned n = 1 + draw(3);
            for (unsigned i = 0; i < n; i++) {
                Str nm = fmt("e%u", i), v, t;
                switch (draw(3)) {
                case 0: t = v = pickc({"", "text", "caf\xc3\xa9", "two words"}); break;
                case 1: t = "x&#38;amp;y"; v = "x&y"; break;
                default: if (i) { t = "<&e0;>"; t = fmt("[&e%u;]", i - 1); v = "[" + ents[fmt("e%u", i - 1)].second + "]"; } else t = v = "plain"; break;
                }
                ents[nm] = {t, v};
                d.x += "<!ENTITY " + nm + " '" + t + "'>" + ws(1);
            }
            d.x += "]>" + misc();
        }
        element(Scope(), 0, true);
        d.x += misc();
    }
};
static Doc gen_doc()
{
    Gen g;
    g.document();
    return g.d;
}
static Str gen_deep()
{
    unsigned n = coin(700) ? 2030 + draw(40) : 100 + draw(3000);
    Str s = "<s>";
    for (unsigned i = 1; i < n; i++) s += "<a>";
    if (draw(2)) { s += "t"; for (unsigned i = 1; i < n; i++) s += "</a>"; s += "<b/></s>"; }
    return s;
}
static Str mutate(Str s)
{
    static const char *DICT[] = {"<", ">", "&", ";", "'", "\"", "/", "</", "/>", "<a>", "</a>", "<![CDATA[", "]]>", "<!--", "-->", "<?", "?>", "&#0;", "&#x110000;", "&nope;", "xmlns='u'", "xmlns:p='u' ", "p:", "\xff", "\xc3", "\xe2\x82", "\xf0\x9f", "\xc0\x80", "\xed\xa0\x80", "\x01", "<!DOCTYPE x>", "<?xml version='1.0'?>", "</stream:stream>", "<stream:stream>", " a='1' a='2'", "xml:lang='x'", "]]", "\xef\xbf\xbe", "\xef\xbb\xbf", "&#13;", "\r", "xmlns:p=''", "xmlns:xml='u'"};
    unsigned n = 1 + small(4);
    while (n--) {
        size_t p = s.empty() ? 0 : draw((uint32_t)s.size() + 1);
        switch (draw(8)) {
        case 0: if (p < s.size()) s[p] = (char)draw(256); break;
        case 1: s.insert(p, DICT[draw(sizeof DICT / sizeof *DICT)]); break;
        case 2: if (p < s.size()) s.erase(p, 1 + draw(4)); break;
        case 3: s.resize(p); break;
        case 4: { size_t q = draw((uint32_t)s.size() + 1), l = draw(40); if (q < s.size()) s.insert(p, s.substr(q, l)); break; }
        case 5: if (p < s.size()) s.erase(p, draw(60)); break;
        case 6: if (p < s.size()) s.insert(p, 1, (char)draw(256)); break;
        default: { size_t q = s.find_first_of("<>&'\"=/", p); if (q != Str::npos) { if (draw(2)) s.erase(q, 1); else s[q] = "<>&'\"=/ "[draw(8)]; } }
        }
    }
    return s;
}
// ---- driving the parser ---------------------------------------------------------------------
struct Rec { Evs ev; bool dead = false; xmpp_ctx_t *ctx; };
static void cb_start(char *name, char **attrs, void *u)
{
    Rec *r = (Rec *)u;
    std::vector<Str> as;
    for (int i = 0; attrs && attrs[i]; i += 2) { const char *k = strchr(attrs[i], 0x1f); as.push_back(Str(k ? k + 1 : attrs[i]) + "=\"" + attrs[i + 1] + "\""); }
    std::sort(as.begin(), as.end());
    Str s = Str("open ") + (name ? name : "(null)") + "[";
    for (auto &a : as) s += a + " ";
    r->ev.push_back(s + "]");
}
static void cb_end(char *, void *u) { ((Rec *)u)->ev.push_back("close"); }
static void cb_stanza(xmpp_stanza_t *s, void *u)
{
    Rec *r = (Rec *)u;
    r->ev.push_back("stanza " + canon_lib(s));
}
typedef std::vector<size_t> Cuts;
static bool feed(void *p, Rec &r, const Str &x, size_t a, size_t b)
{
    if (r.dead) return false;
    size_t n = b - a;
    char *c = (char *)malloc(n ? n : 1); // exactly as long, so that reading on is seen
    memcpy(c, x.data() + a, n);
    int ok = shim_parser_feed(p, c, (int)n);
    memset(c, 0x5a, n);              // the caller's buffer is used again
    free(c);
    if (!ok) { r.ev.push_back("error"); r.dead = true; }
    return ok;
}
static void feed_cut(void *p, Rec &r, const Str &x, const Cuts &cuts)
{
    size_t a = 0;
    for (size_t c : cuts) { feed(p, r, x, a, c); a = c; }
    feed(p, r, x, a, x.size());
}
static Cuts gen_cuts(const Str &x)
{
    Cuts c;
    size_t n = x.size();
    switch (weighted({20, 30, 20, 15, 15})) {
    case 0: for (size_t i = 1; i < n; i++) c.push_back(i); break;
    case 1: { unsigned k = 1 + draw(6); while (k-- && n) c.push_back(draw((uint32_t)n + 1)); break; }
    case 2: { size_t p = 0; while (p < n) { p += 1 + draw(12); if (p < n) c.push_back(p); } break; }
    case 3: // at the places that matter
        for (size_t i = 0; i < n; i++) if ((strchr("<>&;]-?/'\"\r", x[i]) && x[i]) || (x[i] & 0x80)) if (draw(2)) c.push_back(i + draw(2));
        break;
    default: { size_t step = 1 + draw(64); for (size_t i = step; i < n; i += step) c.push_back(i); if (coin(200)) c.push_back(n); }
    }
    std::sort(c.begin(), c.end());
    return c;
}
static Str show(const Evs &e) { Str s; for (auto &x : e) s += "  " + x + "\n"; return s; }
static Str first_diff(const Evs &a, const Evs &b)
{
    for (size_t i = 0;; i++) {
        if (i >= a.size() && i >= b.size()) return "";
        Str x = i < a.size() ? a[i] : "(nothing)", y = i < b.size() ? b[i] : "(nothing)";
        if (x == y) continue;
        size_t k = 0;
        while (k < x.size() && k < y.size() && x[k] == y[k]) k++;
        size_t f = k > 60 ? k - 60 : 0;
        return fmt("event %zu at %zu: '%s' / '%s'", i, k, esc(x.substr(f), 160).c_str(), esc(y.substr(f), 160).c_str());
    }
}
struct Parsers { // with its own context and allocator
    VMem vm;
    xmpp_ctx_t *ctx;
    Parsers() { ctx = xmpp_ctx_new(&vm.mem, vlog()); }
    ~Parsers()
    {
        xmpp_ctx_free(ctx);
        if (!failed() && vm.bad) fail("allocator", "%s", vm.badmsg.c_str());
        if (!failed() && !vm.live.empty()) fail("parser-leak", "%zu blocks are left after the parsers were freed", vm.live.size());
    }
    Evs whole(const Str &x) { Rec r; r.ctx = ctx; void *p = shim_parser_new(ctx, cb_start, cb_end, cb_stanza, &r); feed(p, r, x, 0, x.size()); shim_parser_free(p); return r.ev; }
    Evs cut(const Str &x, const Cuts &c) { Rec r; r.ctx = ctx; void *p = shim_parser_new(ctx, cb_start, cb_end, cb_stanza, &r); feed_cut(p, r, x, c); shim_parser_free(p); return r.ev; }
};
static Str cuts_show(const Cuts &c) { Str s; for (size_t i = 0; i < c.size() && i < 30; i++) s += fmt("%zu ", c[i]); if (c.size() > 30) s += "..."; return s; }
static bool ascii(const Str &s) { for (unsigned char c : s) if (c >= 0x80) return false; return true; }
static void check_dom(const Str &x, const Evs &got, bool generated)
{
    Evs dom;
    if (!dom_events(x, dom)) {
        if (generated) fail("generator", "libxml2 does not take the generated document for well-formed");
        note("not well-formed");
        return;
    }
    note("well-formed");
    if (dom_odd) { note("well-formed, not compared (reported differently by design)"); return; }
    if (!generated && (!ascii(x) || x.find("<!DOCTYPE") != Str::npos || x.find("<?xml") != Str::npos)) {
        // what the two parsers know of DTDs, encodings and the fifth edition's names differs: only the content counts
        if (!got.empty() && got.back() == "error") { note("well-formed by libxml2 only"); return; }
    }
    if (got != dom) fail("differs-from-libxml2", "a well-formed document: %s (libxml2 / library)", first_diff(dom, got).c_str());
}
// one document, in several partitions
static void run_doc()
{
    Doc d;
    bool mutated = coin(450), deep = !mutated && coin(15);
    if (deep) { d.x = gen_deep(); d.wf = false; note("deeply nested"); }
    else d = gen_doc();
    if (mutated) { d.x = mutate(d.x); d.wf = false; }
    if (coin(30)) { // UTF-16
        Str u = draw(2) ? Str("\xff\xfe", 2) : Str();
        if (!u.empty() && ascii(d.x) && d.x.find("encoding") == Str::npos) { for (char c : d.x) { u += c; u += '\0'; } d.x = u; note("UTF-16"); }
    }
    fingerprint(d.x);
    trace("document: %s", esc(d.x, 3000).c_str());
    if (want_sample()) sample(esc(d.x, 300));
    Parsers P;
    Evs ref = P.whole(d.x);
    trace("whole:\n%s", show(ref).c_str());
    if (d.wf && ref != d.want) { fail("content", "%s (written / reported)", first_diff(d.want, ref).c_str()); return; }
    if (!deep) check_dom(d.x, ref, d.wf);
    if (failed()) return;
    bool nt = false;
    for (auto &e : ref) if (e.compare(0, 7, "stanza ") == 0) nt = true;
    unsigned reps = d.x.size() < 400 ? 4 : 2;
    std::vector<Cuts> parts;
    if (d.x.size() <= 160 && !deep) for (size_t i = 1; i < d.x.size(); i++) parts.push_back(Cuts{i}); // every single split
    for (unsigned i = 0; i < reps; i++) parts.push_back(gen_cuts(d.x));
    if (nt) nontrivial();
    for (auto &c : parts) {
        Evs e = P.cut(d.x, c);
        note("partitions");
        if (e != ref) { fail("chunks", "cut at %s: %s (whole / cut)", cuts_show(c).c_str(), first_diff(ref, e).c_str()); return; }
    }
    if (!ref.empty() && ref.back() == "error") note("parse errors");
    if (d.multibyte) note("multi-byte characters");
    if (d.cdata) note("CDATA");
    if (d.entities) note("entities");
    if (d.prefixes) note("prefixes");
    if (d.dtd) note("internal DTD");
}
// restarts: a prefix of one document, a reset, the next document
static void run_reset()
{
    Parsers P;
    Rec r; r.ctx = P.ctx;
    void *p = shim_parser_new(P.ctx, cb_start, cb_end, cb_stanza, &r);
    Evs want;
    unsigned n = 2 + draw(4);
    for (unsigned i = 0; i < n; i++) {
        Doc d = gen_doc();
        if (coin(250)) d.x = mutate(d.x);
        Str x = d.x;
        if (i + 1 < n || draw(2)) {
            // in the middle of text, of a tag, of a character, after an error
            size_t at = draw((uint32_t)x.size() + 1);
            if (coin(500)) { size_t q = x.find(pickc({"<![CDATA[", "&", "</", "<", "'", "\"", "\xc3", "\xf0", "]]", "--"}), at); if (q != Str::npos) at = q + draw(4); }
            x = x.substr(0, at);
        }
        trace("document %u: %s", i, esc(x, 1500).c_str());
        fingerprint(x);
        if (i) { int ok = shim_parser_reset(p); if (!ok) fail("reset-fails", "parser_reset returned 0"); r.dead = false; want.push_back("reset"); r.ev.push_back("reset"); if (coin(50)) shim_parser_reset(p); }
        Evs w = P.whole(x);
        want.insert(want.end(), w.begin(), w.end());
        feed_cut(p, r, x, draw(2) ? gen_cuts(x) : Cuts());
    }
    shim_parser_free(p);
    note("restarts", n - 1);
    nontrivial();
    if (r.ev != want) fail("restart", "%s (fresh parser / restarted parser)", first_diff(want, r.ev).c_str());
}
// xmpp_stanza_new_from_string
static void run_string()
{
    Gen g;
    Scope sc;
    Str c = g.element(sc, 1, false);
    Str x = g.d.x;
    bool mut = coin(300);
    if (mut) { x = mutate(x); x = x.c_str(); }
    fingerprint(x);
    trace("string: %s", esc(x, 3000).c_str());
    Parsers P;
    xmpp_stanza_t *s = xmpp_stanza_new_from_string(P.ctx, x.c_str());
    Evs e = P.whole("<stream>" + x + "</stream>");
    note("from string");
    if (!mut) {
        nontrivial();
        if (!s) fail("from-string", "a well-formed stanza is refused");
        else if (canon_lib(s) != c) fail("from-string", "%s (written / reported)", first_diff(Evs{c}, Evs{canon_lib(s)}).c_str());
    } else {
        unsigned n = 0; Str one;
        for (auto &v : e) if (v.compare(0, 7, "stanza ") == 0) { n++; one = v.substr(7); }
        bool err = e.empty() || e.back() == "error";
        if (err && s) fail("from-string", "a stanza was made of a string that is not well-formed");
        if (!err && n == 1 && (!s || canon_lib(s) != one)) fail("from-string", "%s (parser / from string)", first_diff(Evs{one}, Evs{s ? canon_lib(s) : "NULL"}).c_str());
    }
    if (s) xmpp_stanza_release(s);
}
// ---- the same through a connection -----------------------------------------------------------
struct Script : Peer {
    Str doc; Cuts cuts; uint64_t gap = 1; bool started = false, closes = true;
    void on_data(Sock *s, const char *, size_t) override
    {
        if (started) return;
        started = true;
        uint64_t t = 1;
        size_t a = 0;
        for (size_t c : cuts) { if (c > a) sim.push(s, doc.substr(a, c - a), t); a = c; t += gap; }
        if (a < doc.size()) sim.push(s, doc.substr(a), t);
        if (closes) sim.fin(s, 20000);
    }
};
struct Obs { Evs *out; };
static int all_stanzas(xmpp_conn_t *, xmpp_stanza_t *s, void *u) { ((Evs *)u)->push_back("stanza " + canon_lib(s)); return 1; }
static Evs through_conn(const Str &x, const Cuts &cuts, int rmode)
{
    Evs ev;
    App A("C10");
    A.pal_rate = 0; // runs are compared with each other
    Script sp;
    sp.doc = x; sp.cuts = cuts;
    app_run(A, [&] {
        AppCfg c;
        c.kind = 2; c.has_pass = false; c.alt = "example.com"; c.port = 5222; c.flags = XMPP_CONN_FLAG_DISABLE_TLS;
        c.raw_default = false;
        A.start(c);
        sim.rmode = rmode;
        sim.accept = [&](Sock *s) { s->peer = &sp; };
        xmpp_handler_add(A.conn, all_stanzas, nullptr, nullptr, nullptr, &ev);
        A.on_ev = [&](const Ev &e) {
            if (e.type == XMPP_CONN_RAW_CONNECT) {
                char *at[] = {(char *)"to", (char *)"example.com", (char *)"xmlns", (char *)"jabber:client", (char *)"xmlns:stream", (char *)STREAMNS.c_str()};
                xmpp_conn_open_stream(A.conn, at, 6);
                ev.push_back("raw");
            } else if (e.type == XMPP_CONN_CONNECT) ev.push_back("open");
            else ev.push_back(fmt("down error %d stream error %d %s", e.error, e.se ? e.se_type : -1, e.se_text.c_str()));
        };
        if (A.connect() != 0) { fail("conn-refused", "connect failed"); return; }
        A.until([&] { return !A.attempt; }, 40000, 1000);
        if (A.attempt) fail("conn-stuck", "the server has closed and the connection does not end");
        A.finish();
    });
    return ev;
}
static void run_conn()
{
    Doc d = gen_doc();
    bool mutated = coin(350);
    if (mutated) d.x = mutate(d.x);
    if (coin(200)) { // long enough for several reads of the library's own buffer
        size_t p = d.x.find("</");
        if (p != Str::npos && !mutated) d.x.insert(p, "<!--" + Str(3000 + draw(6000), 'c') + "-->");
    }
    fingerprint(d.x);
    trace("document: %s", esc(d.x, 3000).c_str());
    Evs a = through_conn(d.x, Cuts(), 0);
    if (failed()) return;
    trace("whole:\n%s", show(a).c_str());
    // what the parser makes of it is what the handlers see (unless the stream is not one)
    Parsers P;
    Evs w = P.whole(d.x), st, st2;
    bool stream = !w.empty() && w[0].compare(0, 12, "open stream[") == 0;
    if (stream) {
        for (auto &e : w) if (e.compare(0, 7, "stanza ") == 0) st.push_back(e);
        for (auto &e : a) if (e.compare(0, 7, "stanza ") == 0) st2.push_back(e);
        // a stream error ends nothing by itself, so everything has to arrive
        if (st != st2) { fail("handlers", "%s (parser / handlers)", first_diff(st, st2).c_str()); return; }
        if (!st.empty()) nontrivial();
        note("connections with stanzas");
    }
    unsigned n = 2;
    while (n--) {
        Cuts c = gen_cuts(d.x);
        if (c.size() > 400) { Cuts k; for (size_t i = 0; i < c.size(); i += 1 + c.size() / 400) k.push_back(c[i]); c = k; }
        int rm = (int)draw(3);
        if (rm == 2 && d.x.size() > 1500) rm = 1;
        Evs b = through_conn(d.x, c, rm);
        if (failed()) return;
        note("connections cut");
        if (a != b) { fail("chunks-connection", "cut at %s, reads %d: %s (whole / cut)", cuts_show(c).c_str(), rm, first_diff(a, b).c_str()); return; }
    }
}
// a whole negotiation, restarts included, with different fragmentation
// inject: put behind that element in the same segment, where the stream restarts
static bool injected;
static Evs negotiate(const AppCfg &c, const XConf &cf, unsigned frag, int rmode, const Doc &d, const char *at = nullptr, const Str &inject = "")
{
    Evs ev;
    App A("C10");
    A.pal_rate = 0; // runs are compared with each other
    app_run(A, [&] {
        A.start(c);
        A.net.cf = cf;
        sim.rmode = rmode;
        A.net.tweak = [&](XServ &x, const char *step, Str &r) {
            x.frag = frag;
            if (at && !strcmp(step, at) && !injected) { injected = true; r += inject; }
            return false;
        };
        xmpp_handler_add(A.conn, all_stanzas, nullptr, nullptr, nullptr, &ev);
        A.on_ev = [&](const Ev &e) { ev.push_back(fmt("event %d error %d stream error %d", e.type, e.error, e.se ? e.se_type : -1)); };
        if (A.connect() != 0) { ev.push_back("refused"); A.finish(); return; }
        A.until([&] { return !A.attempt || A.n_up; }, 60000, 1000);
        if (A.n_up && A.attempt) {
            XServ *x = A.net.cur();
            // replies of the negotiation carry random values
            ev.erase(std::remove_if(ev.begin(), ev.end(), [](const Str &e) { return e.compare(0, 7, "stanza ") == 0; }), ev.end());
            for (auto &s : d.stanza_text) x->out(s);
            A.until([&] { return !A.attempt; }, 5000, 1000);
            if (A.attempt) { x->out("</stream:stream>"); }
            A.until([&] { return !A.attempt; }, 5000, 1000);
        }
        XServ *x = A.net.cur();
        if (x) for (auto &w : x->wire) if (!w.srv) {
            if (w.kind == Wire::HEADER) ev.push_back("client: header");
            else if (w.kind == Wire::EL) ev.push_back("client: " + w.n.name);
            else if (w.kind == Wire::CLOSE) ev.push_back("client: close");
        }
        A.finish();
    });
    return ev;
}
static void run_nego()
{
    AppCfg c = gen_app({70, 15, 0});
    c.pw_wrong = 0; // wrong passwords are drawn while a run is on and would differ from run to run
    App tmp("C10");
    tmp.cfg = c;
    XConf cf;
    conform(tmp, cf);
    if (!cf.tls && (c.flags & XMPP_CONN_FLAG_MANDATORY_TLS)) cf.tls = true;
    cf.sm = draw(2); cf.zlib = draw(2); cf.session = (int)draw(3);
    Doc d;
    unsigned n = draw(4);
    Scope sc; sc[""] = c.kind == 1 ? "jabber:component:accept" : "jabber:client"; sc["stream"] = STREAMNS;
    Evs want;
    while (n--) { Gen g; Scope s2 = sc; want.push_back("stanza " + g.element(s2, 1, false)); d.stanza_text.push_back(g.d.x); }
    for (auto &s : d.stanza_text) { trace("stanza: %s", esc(s, 500).c_str()); fingerprint(s); }
    Evs a = negotiate(c, cf, 0, 0, d);
    if (failed()) return;
    trace("whole:\n%s", show(a).c_str());
    bool up = false;
    for (auto &e : a) if (e.compare(0, 8, "event 0 ") == 0) up = true;
    note(up ? "negotiations" : "negotiations that fail");
    if (up) {
        nontrivial();
        Evs st;
        bool on = false;
        for (auto &e : a) { if (e.compare(0, 8, "event 0 ") == 0) on = true; else if (on && e.compare(0, 7, "stanza ") == 0) st.push_back(e); }
        if (st.size() > want.size()) fail("negotiated-content", "more stanzas than were sent");
        for (size_t i = 0; i < want.size(); i++) if (i >= st.size() || st[i] != want[i]) { fail("negotiated-content", "%s (written / reported)", first_diff(want, st).c_str()); return; }
    }
    if (up && coin(400)) {
        // input left behind by the old stream must not get into the new one
        const char *at = pickc({"proceed", "success", "compressed"});
        Str inj = pickc({"<message id='inj'>", "<message id='inj'><body>rest", "<a xmlns='urn:left'><b><c>", "<message id='inj'><body>whole</body></message>", "<", "<message id='in", "<![CDATA[", "<!--", "<x>&am", "<x a='", "<x>\xc3", "</stream", "text", "<iq id='_xmpp_bind1' type='result'/>", "<iq id='_xmpp_session1' type='result'/>",
                         "<stream:features><bind xmlns='urn:ietf:params:xml:ns:xmpp-bind'/></stream:features>", "<enabled xmlns='urn:xmpp:sm:3' id='inj' resume='1'/>", "<resumed xmlns='urn:xmpp:sm:3' previd='inj' h='0'/>", "<success xmlns='urn:ietf:params:xml:ns:xmpp-sasl'/>"});
        injected = false;
        Evs b = negotiate(c, cf, 0, 0, d, at, inj);
        if (failed()) return;
        if (injected) {
            note("input left behind at a restart");
            bool up2 = false;
            for (auto &e : b) if (e.compare(0, 8, "event 0 ") == 0) up2 = true;
            // refusing such a server is fine, too
            if (up2 && a != b) fail("restart-leftover", "%s behind <%s/>: %s (clean / with it)", esc(inj).c_str(), at, first_diff(a, b).c_str());
            if (!up2) note("input left behind ends the connection");
        }
        return;
    }
    int rm = 1 + (int)draw(2);
    unsigned fr = draw(2);
    Evs b = negotiate(c, cf, fr, rm, d);
    if (!failed() && a != b) fail("chunks-negotiation", "fragmentation %u, reads %d: %s (whole / cut)", fr, rm, first_diff(a, b).c_str());
}
static void run_c10()
{
    switch (weighted({60, 16, 8, 12, 4})) {
    case 0: run_doc(); break;
    case 1: run_reset(); break;
    case 2: run_string(); break;
    case 3: run_conn(); break;
    default: run_nego(); break;
    }
}
PROP(c10, "C10", run_c10, 35000, 3000000, "at least one complete stanza is delivered");
