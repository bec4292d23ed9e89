#include "xml.h"
const Str *Node::attr(const char *n) const
{
    for (auto &a : attrs) if (a.prefix.empty() && a.name == n) return &a.value;
    return nullptr;
}
const Node *Node::child(const char *n, const char *cns) const
{
    for (auto &k : kids) if (!k.text && (!n || k.name == n) && (!cns || k.ns == cns)) return &k;
    return nullptr;
}
Str Node::deep_text() const
{
    Str s;
    for (auto &k : kids) if (k.text) s += k.data;
    return s;
}
Str Node::show() const
{
    if (text) return "\"" + data + "\"";
    Str s = "{" + ns + "}" + name;
    std::vector<Str> as;
    for (auto &a : attrs) as.push_back((a.ns.empty() ? "" : "{" + a.ns + "}") + a.name + "=\"" + a.value + "\"");
    std::sort(as.begin(), as.end());
    s += "[";
    for (auto &a : as) s += a + " ";
    s += "](";
    Str run;
    for (auto &k : kids) {
        if (k.text) { run += k.data; continue; }
        if (!run.empty()) { s += "\"" + run + "\" "; run.clear(); }
        s += k.show() + " ";
    }
    if (!run.empty()) s += "\"" + run + "\"";
    return s + ")";
}
bool xml_chars_ok(const Str &s)
{
    size_t i = 0, n = s.size();
    while (i < n) {
        unsigned char c = s[i];
        uint32_t cp;
        unsigned k;
        if (c < 0x80) { cp = c; k = 0; }
        else if (c >= 0xc2 && c < 0xe0) { cp = c & 31; k = 1; }
        else if (c >= 0xe0 && c < 0xf0) { cp = c & 15; k = 2; }
        else if (c >= 0xf0 && c < 0xf5) { cp = c & 7; k = 3; }
        else return false;
        if (i + k >= n) return false;
        for (unsigned j = 1; j <= k; j++) {
            unsigned char d = s[i + j];
            if ((d & 0xc0) != 0x80) return false;
            cp = cp << 6 | (d & 63);
        }
        if ((k == 2 && cp < 0x800) || (k == 3 && (cp < 0x10000 || cp > 0x10ffff))) return false;
        if (cp < 0x20 && cp != 9 && cp != 10 && cp != 13) return false;
        if ((cp >= 0xd800 && cp < 0xe000) || cp == 0xfffe || cp == 0xffff) return false;
        i += k + 1;
    }
    return true;
}
Str xml_esc(const Str &s, bool attr)
{
    Str o;
    for (char c : s) {
        if (c == '<') o += "&lt;";
        else if (c == '>') o += "&gt;";
        else if (c == '&') o += "&amp;";
        else if (attr && c == '"') o += "&quot;";
        else if (attr && c == '\'') o += "&apos;";
        else o += c;
    }
    return o;
}
static bool namestart(unsigned char c) { return isalpha(c) || c == '_' || c == ':' || c >= 0x80; }
static bool namechar(unsigned char c) { return namestart(c) || isdigit(c) || c == '-' || c == '.'; }
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\r'; }
static bool unescape(const Str &in, Str &out, bool attr)
{
    out.clear();
    for (size_t i = 0; i < in.size(); i++) {
        char c = in[i];
        if (c == '<') return false;
        if (c == '&') {
            size_t e = in.find(';', i);
            if (e == Str::npos) return false;
            Str n = in.substr(i + 1, e - i - 1);
            if (n == "lt") out += '<';
            else if (n == "gt") out += '>';
            else if (n == "amp") out += '&';
            else if (n == "quot") out += '"';
            else if (n == "apos") out += '\'';
            else if (n.size() > 1 && n[0] == '#') {
                char *end;
                unsigned long v = n[1] == 'x' ? strtoul(n.c_str() + 2, &end, 16) : strtoul(n.c_str() + 1, &end, 10);
                if (*end || v > 0x10ffff || v == 0) return false;
                if (v < 0x80) out += (char)v;
                else if (v < 0x800) { out += (char)(0xc0 | v >> 6); out += (char)(0x80 | (v & 63)); }
                else if (v < 0x10000) { out += (char)(0xe0 | v >> 12); out += (char)(0x80 | ((v >> 6) & 63)); out += (char)(0x80 | (v & 63)); }
                else { out += (char)(0xf0 | v >> 18); out += (char)(0x80 | ((v >> 12) & 63)); out += (char)(0x80 | ((v >> 6) & 63)); out += (char)(0x80 | (v & 63)); }
            } else return false;
            i = e;
        } else if (attr && (c == '\t' || c == '\n' || c == '\r')) {
            if (c == '\r' && i + 1 < in.size() && in[i + 1] == '\n') i++;
            out += ' ';
        } else if (c == '\r') { out += '\n'; if (i + 1 < in.size() && in[i + 1] == '\n') i++; }
        else out += c;
    }
    return true;
}
void XmlReader::reset()
{
    stack.clear();
    err.clear();
    buf.clear();
    scan = 0;
    raw.clear();
    done = false;
    root = Node();
}
bool XmlReader::lookup(const Str &prefix, bool attr, Str &ns, const Node &self)
{
    if (prefix == "xml") { ns = "http://www.w3.org/XML/1998/namespace"; return true; }
    ns.clear();
    if (attr && prefix.empty()) return true;
    auto in = [&](const Node &n) {
        for (auto &d : n.decls) if (d.first == prefix) { ns = d.second; return true; }
        return false;
    };
    if (in(self)) return true;
    for (size_t i = stack.size(); i-- > 0;) if (in(stack[i])) return true;
    return prefix.empty();
}
static bool bad(XmlReader *r, const Str &m) { if (r->err.empty()) r->err = m; return false; }
bool XmlReader::finish(Node n, const Str &t)
{
    if (stack.empty()) { // root closed
        done = true;
        root = std::move(n);
        if (on_close) on_close();
        return true;
    }
    if (stack.size() == 1 && xmpp) {
        if (on_stanza) on_stanza(n, raw);
        raw.clear();
        return true;
    }
    stack.back().kids.push_back(std::move(n));
    return true;
}
bool XmlReader::tag(const Str &t)
{
    if (t.size() >= 2 && t[1] == '/') {
        Str n = t.substr(2, t.size() - 3);
        while (!n.empty() && ws(n.back())) n.pop_back();
        if (stack.empty()) return bad(this, "closing tag " + t + " with nothing open");
        Node top = std::move(stack.back());
        Str full = top.prefix.empty() ? top.name : top.prefix + ":" + top.name;
        if (n != full) return bad(this, "closing tag " + t + " does not match " + full);
        stack.pop_back();
        return finish(std::move(top), t);
    }
    bool empty = t[t.size() - 2] == '/';
    Str b = t.substr(1, t.size() - (empty ? 3 : 2));
    size_t i = 0;
    if (b.empty() || !namestart(b[0])) return bad(this, "bad tag " + t);
    while (i < b.size() && namechar(b[i])) i++;
    Str qn = b.substr(0, i);
    Node n;
    std::vector<Node::Attr> as;
    while (i < b.size()) {
        size_t j = i;
        while (i < b.size() && ws(b[i])) i++;
        if (i == b.size()) break;
        if (i == j) return bad(this, "no white space before attribute in " + t);
        j = i;
        if (!namestart(b[i])) return bad(this, "bad attribute name in " + t);
        while (i < b.size() && namechar(b[i])) i++;
        Str an = b.substr(j, i - j);
        while (i < b.size() && ws(b[i])) i++;
        if (i >= b.size() || b[i] != '=') return bad(this, "attribute without value in " + t);
        i++;
        while (i < b.size() && ws(b[i])) i++;
        if (i >= b.size() || (b[i] != '"' && b[i] != '\'')) return bad(this, "unquoted attribute in " + t);
        char q = b[i++];
        size_t e = b.find(q, i);
        if (e == Str::npos) return bad(this, "unterminated attribute in " + t);
        Str v;
        if (!unescape(b.substr(i, e - i), v, true)) return bad(this, "bad attribute value in " + t);
        i = e + 1;
        size_t colon = an.find(':');
        if (an == "xmlns") { n.decls.push_back({"", v}); continue; }
        if (colon == 5 && an.compare(0, 6, "xmlns:") == 0) { n.decls.push_back({an.substr(6), v}); continue; }
        Node::Attr a;
        if (colon != Str::npos) { a.prefix = an.substr(0, colon); a.name = an.substr(colon + 1); }
        else a.name = an;
        a.value = v;
        as.push_back(a);
    }
    for (auto &a : as) {
        if (!lookup(a.prefix, true, a.ns, n)) { if (strict_ns) return bad(this, "undeclared prefix " + a.prefix + " in " + t); a.ns = a.prefix; }
        for (auto &o : n.attrs) if (o.name == a.name && o.ns == a.ns) return bad(this, "duplicate attribute in " + t);
        n.attrs.push_back(a);
    }
    for (size_t x = 0; x < n.decls.size(); x++) for (size_t y = 0; y < x; y++) if (n.decls[x].first == n.decls[y].first) return bad(this, "duplicate xmlns in " + t);
    size_t colon = qn.find(':');
    if (colon != Str::npos) { n.prefix = qn.substr(0, colon); n.name = qn.substr(colon + 1); }
    else n.name = qn;
    if (!lookup(n.prefix, false, n.ns, n)) { if (strict_ns) return bad(this, "undeclared prefix in " + t); }
    if (stack.empty()) {
        if (done) return bad(this, "second root element " + t);
        if (on_open) on_open(n);
        if (!empty) { stack.push_back(std::move(n)); return true; }
        return finish(std::move(n), t);
    }
    if (!empty) { stack.push_back(std::move(n)); return true; }
    return finish(std::move(n), t);
}
bool XmlReader::chars(const Str &t, bool cdata)
{
    if (t.empty()) return true;
    Str v;
    if (cdata) v = t;
    else {
        if (t.find("]]>") != Str::npos) return bad(this, "]]> in character data");
        if (!unescape(t, v, false)) return bad(this, "bad character data '" + t + "'");
    }
    if (stack.size() <= (xmpp ? 1u : 0u)) {
        for (char c : v) if (!ws(c)) { if (on_junk) on_junk(v); if (stack.empty()) return bad(this, "text outside the root"); break; }
        if (!stack.empty()) raw.clear();
        return true;
    }
    Node n;
    n.text = true;
    n.data = v;
    if (!stack.back().kids.empty() && stack.back().kids.back().text) stack.back().kids.back().data += v;
    else stack.back().kids.push_back(n);
    return true;
}
// consumes one token of buf; false: need more or error
bool XmlReader::token()
{
    if (buf.empty()) return false;
    if (buf[0] != '<') {
        size_t e = buf.find('<', scan);
        if (e == Str::npos) {
            scan = buf.size();
            // plain white space between stanzas need not wait
            if (stack.size() <= 1 && xmpp) {
                for (char c : buf) if (!ws(c)) return false;
                consumed += buf.size(); buf.clear(); scan = 0;
            }
            return false;
        }
        Str t = buf.substr(0, e);
        buf.erase(0, e);
        consumed += e;
        scan = 0;
        raw += t;
        return chars(t, false);
    }
    if (buf.compare(0, 9, "<![CDATA[") == 0) {
        size_t e = buf.find("]]>", std::max<size_t>(9, scan > 3 ? scan - 3 : 0));
        if (e == Str::npos) { scan = buf.size(); return false; }
        Str t = buf.substr(9, e - 9);
        raw += buf.substr(0, e + 3);
        buf.erase(0, e + 3);
        consumed += e + 3;
        scan = 0;
        return chars(t, true);
    }
    if (buf.compare(0, 4, "<!--") == 0) {
        size_t e = buf.find("-->", 4);
        if (e == Str::npos) return false;
        buf.erase(0, e + 3);
        consumed += e + 3;
        scan = 0;
        return true;
    }
    if (buf.size() < 9 && (Str("<![CDATA[").compare(0, buf.size(), buf) == 0)) return false;
    if (buf[1] == '?' || buf.size() == 1) {
        if (buf.size() == 1) return false;
        size_t e = buf.find("?>");
        if (e == Str::npos) return false;
        Str t = buf.substr(0, e + 2);
        buf.erase(0, e + 2);
        consumed += e + 2;
        scan = 0;
        if (t.compare(0, 5, "<?xml") == 0 && restart_on_prolog) {
            if (stack.size() > 1) return bad(this, "stream restarted inside a stanza");
            stack.clear();
            raw.clear();
            done = false;
        }
        return true;
    }
    // a tag: find '>' outside quotes, resuming is not worth it unless large
    char q = 0;
    size_t i = 1;
    for (; i < buf.size(); i++) {
        char c = buf[i];
        if (q) { if (c == q) q = 0; }
        else if (c == '"' || c == '\'') q = c;
        else if (c == '>') break;
        else if (c == '<') return bad(this, "'<' inside a tag: " + esc(buf.substr(0, i + 1), 200));
    }
    if (i >= buf.size()) return false;
    Str t = buf.substr(0, i + 1);
    buf.erase(0, i + 1);
    consumed += i + 1;
    scan = 0;
    raw += t;
    return tag(t);
}
bool XmlReader::feed(const Str &s)
{
    if (!err.empty()) return false;
    buf += s;
    while (err.empty() && token()) {}
    return err.empty();
}
bool xml_parse(const Str &s, Node &out, Str &err, const Str &default_ns)
{
    XmlReader r;
    r.xmpp = false;
    Node outer; // scope for the default namespace
    if (!xml_chars_ok(s)) { err = "illegal characters or UTF-8"; return false; }
    if (!default_ns.empty()) {
        if (!r.feed("<wrap xmlns=\"" + default_ns + "\">" + s + "</wrap>")) { err = r.err; return false; }
        if (!r.done || r.root.kids.size() != 1 || r.root.kids[0].text) { err = "not exactly one element"; return false; }
        out = r.root.kids[0];
        return true;
    }
    if (!r.feed(s)) { err = r.err; return false; }
    if (!r.done) { err = "incomplete"; return false; }
    out = r.root;
    return true;
}
