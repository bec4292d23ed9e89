// Independent strict XML reader used by the simulated server and by oracles.
#pragma once
#include "vh.h"
struct Node {
    bool text = false;
    Str data;                       // text nodes
    Str name, prefix, ns;           // element: local name, prefix, effective namespace
    struct Attr { Str name, prefix, ns, value; };
    std::vector<Attr> attrs;        // without xmlns declarations
    std::vector<std::pair<Str, Str>> decls; // xmlns declarations
    std::vector<Node> kids;
    const Str *attr(const char *n) const;           // unprefixed attribute
    const Node *child(const char *n, const char *ns = nullptr) const;
    Str deep_text() const;          // concatenated direct text
    Str show() const;               // canonical form: {ns}name[attrs](children)
};
struct XmlReader {
    std::vector<Node> stack;
    bool strict_ns = true;
    Str err;
    std::function<void(const Node &)> on_open;      // depth-0 element opened
    std::function<void(const Node &, const Str &raw)> on_stanza; // depth-1 element complete
    std::function<void()> on_close;
    std::function<void(const Str &)> on_junk;       // non-white text at depth 1 (or outside)
    XmlReader() { reset(); }
    void reset();
    bool feed(const Str &s);        // false on error (err set)
    size_t offset() const { return consumed; } // bytes of complete tokens consumed
    bool idle() const { return buf.empty(); }
    bool restart_on_prolog = false; // "<?xml" begins a new stream
    bool xmpp = true;               // depth-1 elements reported and dropped; else whole document kept in root
    Node root;
    bool done = false;
private:
    Str buf;
    size_t scan = 0, consumed = 0;
    Str raw;                        // raw bytes of the current stanza
    bool token();
    bool tag(const Str &t);
    bool chars(const Str &t, bool cdata);
    bool lookup(const Str &prefix, bool attr, Str &ns, const Node &self);
    bool finish(Node n, const Str &t);
};
bool xml_parse(const Str &s, Node &out, Str &err, const Str &default_ns = "");
bool xml_chars_ok(const Str &s);     // legal XML 1.0 characters in valid UTF-8
Str xml_esc(const Str &s, bool attr = false);
