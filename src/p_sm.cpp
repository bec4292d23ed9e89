// Stream management: C04 (outbound), C05 (inbound count), C16 (persisted state).
#include "hist.h"

// ---- the persisted state, read and written independently ------------------------------------------
struct Blob {
    uint32_t sent = 0, handled = 0;
    Str id;
    std::vector<Str> send;
    std::vector<std::pair<uint32_t, Str>> sm;
    static void u32(Str &o, uint8_t ty, uint32_t v) { o += (char)ty; for (int i = 3; i >= 0; i--) o += (char)(v >> (8 * i)); }
    Str enc() const
    {
        Str o("\x1a\0\0\0\0", 5);
        u32(o, 0x1a, sent); u32(o, 0x1a, handled);
        u32(o, 0x7a, (uint32_t)id.size()); o += id;
        u32(o, 0x9a, (uint32_t)send.size());
        for (auto &x : send) { u32(o, 0x7a, (uint32_t)x.size()); o += x; }
        u32(o, 0xba, (uint32_t)sm.size());
        for (auto &x : sm) { u32(o, 0x1a, x.first); u32(o, 0x7a, (uint32_t)x.second.size()); o += x.second; }
        return o;
    }
    bool dec(const Str &d)
    {
        size_t p = 0;
        auto num = [&](uint8_t ty, uint32_t &v) {
            if (d.size() - p < 5 || (uint8_t)d[p] != ty) return false;
            v = 0;
            for (int i = 1; i < 5; i++) v = v << 8 | (uint8_t)d[p + i];
            p += 5;
            return true;
        };
        auto str = [&](Str &s) {
            uint32_t n;
            if (!num(0x7a, n) || n > d.size() - p) return false;
            s = d.substr(p, n); p += n;
            return true;
        };
        uint32_t v, n;
        if (!num(0x1a, v) || v != 0 || !num(0x1a, sent) || !num(0x1a, handled) || !str(id)) return false;
        if (id.find('\0') != Str::npos) return false;
        if (!num(0x9a, n)) return false;
        send.clear(); sm.clear();
        for (uint32_t i = 0; i < n; i++) { Str s; if (!str(s)) return false; send.push_back(s); }
        if (!num(0xba, n)) return false;
        for (uint32_t i = 0; i < n; i++) { uint32_t h; Str s; if (!num(0x1a, h) || !str(s)) return false; sm.push_back({h, s}); }
        return p == d.size();
    }
    Str show() const
    {
        Str s = fmt("sent %u handled %u id %s unsent [", sent, handled, esc(id).c_str());
        for (auto &x : send) s += esc(x, 40) + " ";
        s += "] unacknowledged [";
        for (auto &x : sm) s += fmt("%u:", x.first) + esc(x.second, 40) + " ";
        return s + "]";
    }
};

// ---- model of a session ----------------------------------------------------------------------------
static bool is_stanza(const Node &n) { return n.ns == "jabber:client" && (n.name == "message" || n.name == "presence" || n.name == "iq"); }
static bool u32_attr(const Node &n, const char *k, uint32_t &v)
{
    const Str *s = n.attr(k);
    if (!s || s->empty() || s->size() > 10) return false;
    uint64_t x = 0;
    for (char c : *s) { if (c < '0' || c > '9') return false; x = x * 10 + (c - '0'); }
    if (x > 0xffffffffu) return false;
    v = (uint32_t)x;
    return true;
}
struct SrvLog { std::vector<Str> sent; uint32_t first = 0; };   // stanzas of a session, number first+i
struct Sm {
    App a;
    // what the client has to retain
    std::deque<Str> un;
    uint32_t base = 0;
    size_t written = 0;          // of un, on this connection
    size_t ghost = 0;            // the first so many may have been released
    std::deque<Str> sub;         // submitted, not started
    std::deque<Str> tail;        // a compressed stream: may have been taken for written, c.f. conn_end()
    bool act = false, nosm = false, judged = true;
    bool ghost_new = false;      // those belong to the session before
    int can = 0;                 // may be resumed: 0 no, 1 yes, 2 unknown
    Str id;
    uint32_t handled = 0;        // dispatched since the session was enabled
    // the current connection
    XServ *x = nullptr;
    size_t pos = 0;
    int req = 0;                 // client's last request: 1 enable, 2 resume
    int stage = 0;               // server's last answer: 1 enabled, 2 resumed, 3 resume failed, 4 enable failed
    bool st_res = false, st_h = false, st_ok = false, bindres = false, srv_close = false, cli_close = false, no_resume_seen = true, sm_offered = false;
    uint32_t h = 0; Str st_id;
    std::deque<std::pair<bool, uint32_t>> acks;
    std::deque<uint32_t> want_a;
    uint32_t srv_cnt = 0;
    unsigned nr = 0, na = 0, nretx = 0, nnew = 0, nresumes = 0, nfails = 0, nacked = 0;
    std::map<Str, SrvLog> logs;  // per session id
    std::map<Str, int> handled_by_server; // id of stanza -> count
    Str cur_sess;
    unsigned ctr = 0, sctr = 0;
    bool zip = false, closing = false;
    Str path;
    Sm(const char *p) : a(p) {}
    void bad(const char *props, const char *sig, const Str &m) { if (judged) a.chk(props, false, sig, "%s", m.c_str()); }
    void sync();
    void client_stanza(const Wire &w);
    void commit_failed();
    void commit_connect();
    void ack(bool ok, uint32_t n);
    void conn_end();
    void conn_begin();
    void settle();
    void check_blob(const char *when);
    bool adopt(const Blob &b, const char *when);
    void send_one();
    void srv_send();
    void srv_r();
    void setup_net();
    bool connect();
    void op();
    void lose();
    void next_conn();
    void restore(const Str &blob);
    void crafted();
    void codec();
    bool try_bytes(const Str &d, bool expect_known = false);
    static Blob gen_blob(Sm &s, bool wild);
    static Str mutate(const Blob &b);
    void settings_refused();
    void run();
};
static Str show_un(const std::deque<Str> &q) { Str s; for (auto &r : q) { size_t p = r.find("id="); s += p == Str::npos ? esc(r, 20) : esc(r.substr(p + 4, r.find_first_of("'\"", p + 4) - p - 4), 20); s += " "; } return s; }
void Sm::ack(bool ok, uint32_t n)
{
    if (!ok || !act) return;
    uint32_t d = n - base;
    if (d > un.size()) return;   // stale
    if (d > written) { judged = false; return; }
    nacked += d;
    un.erase(un.begin(), un.begin() + d);
    written -= d;
    ghost = ghost > d ? ghost - d : 0;
    base = n;
}
void Sm::commit_failed()
{
    if (stage != 3) return;
    stage = 0;
    if (st_h) {
        uint32_t d = h - base;
        if (d <= un.size()) { un.erase(un.begin(), un.begin() + d); ghost = ghost > d ? ghost - d : 0; nacked += d; }
    }
    can = 0; nfails++;
    act = false;
}
void Sm::commit_connect()
{
    if (stage == 1 && req == 1) {
        base = 0; written = 0; handled = 0; act = true; ghost_new = ghost != 0; nosm = false;
        can = st_res ? 1 : 0; id = st_id;
        note("session enabled");
    } else if (stage == 2 && req == 2) {
        if (!st_ok || st_id != id) { judged = false; note("bogus <resumed> accepted"); return; }
        uint32_t d = h - base;
        if (d > un.size()) { judged = false; return; }
        if (d < ghost) ghost -= d; else ghost = 0;
        un.erase(un.begin(), un.begin() + d);
        nacked += d;
        base = h; written = 0; act = true; nosm = false; can = 1; nresumes++;
        note("session resumed");
    } else { act = false; nosm = true; can = 0; written = 0; note("session without stream management"); }
    stage = 0;
    acks.clear();
}
void Sm::client_stanza(const Wire &w)
{
    const Str &r = w.raw;
    if (a.prop == "C05") return;
    if (written < un.size()) {
        size_t k = written;
        if (k == 0 && ghost) {
            size_t g = 0;
            while (g < ghost && g < un.size() && un[g] != r) g++;
            if (g && g == un.size()) { un.clear(); ghost = 0; goto fresh; }
            un.erase(un.begin(), un.begin() + g);
        }
        ghost = 0;
        if (un[k] != r) { bad("C04", "retransmission", fmt("expected the retransmission of %s, the client sent %s; unacknowledged: %s", esc(un[k], 120).c_str(), esc(r, 120).c_str(), show_un(un).c_str())); judged = false; return; }
        nretx++;
        note("retransmitted");
        if (nosm) un.pop_front(); else written++;
        return;
    }
fresh:
    if (auto it = std::find(tail.begin(), tail.end(), r); it != tail.end()) {
        tail.erase(tail.begin(), it + 1);
        nretx++;
        if (!nosm) { un.push_back(r); written++; }
        return;
    }
    tail.clear();
    if (sub.empty()) { bad("C04", "unexpected-stanza", "the client sent " + esc(r, 200) + " which is not outstanding (sent before, dropped or never submitted)"); judged = false; return; }
    if (sub.front() != r) { bad("C04", "order", "the client sent " + esc(r, 120) + ", next in order is " + esc(sub.front(), 120)); judged = false; return; }
    sub.pop_front();
    nnew++;
    if (nosm) return;
    un.push_back(r);
    written++;
}
void Sm::conn_begin()
{
    x = a.net.cur(); pos = 0;
    req = stage = 0; bindres = srv_close = cli_close = sm_offered = false; no_resume_seen = true;
    acks.clear(); want_a.clear(); act = nosm = false; written = 0;
    sub.clear(); closing = false;
}
void Sm::conn_end()
{
    // what the server sent last may or may not have been read
    for (auto &p : acks) if (p.first) { uint32_t d = p.second - base; if (d <= written && d > ghost) { ghost = d; ghost_new = false; } }
    acks.clear();
    if (stage == 3 && st_h) { uint32_t d = h - base; if (d <= un.size() && d > ghost) { ghost = d; ghost_new = false; } }
    if (stage == 3 && can == 1) can = 2;
    if (bindres && can == 1) can = 2;
    if (srv_close && can == 1) can = 2;
    if (zip) {
        // what went into the compressor when the transport failed counts as written
        if (act) tail.insert(tail.end(), sub.begin(), sub.end());
        if (nosm) ghost = un.size();
    }
    act = nosm = false; written = 0; stage = 0;
    want_a.clear();
}
void Sm::sync()
{
    if (!x) return;
    for (; pos < x->wire.size(); pos++) {
        const Wire &w = x->wire[pos];
        if (w.kind == Wire::EVENT) {
            if (w.ev == XMPP_CONN_CONNECT) commit_connect();
            if (w.ev == XMPP_CONN_DISCONNECT) conn_end();
            continue;
        }
        if (w.kind == Wire::CLOSE) { (w.srv ? srv_close : cli_close) = true; continue; }
        if (w.kind != Wire::EL) continue;
        if (w.srv) {
            if (w.sis("features", NS_STREAMS) && w.n.child("sm", NS_SM)) sm_offered = true;
            if (w.sis("enabled", NS_SM)) {
                stage = 1;
                const Str *r = w.n.attr("resume"), *i = w.n.attr("id");
                st_res = r && (*r == "1" || !strcasecmp(r->c_str(), "true")) && i;
                st_id = i ? *i : "";
                cur_sess = st_id;
                srv_cnt = 0;
            } else if (w.sis("resumed", NS_SM)) {
                stage = 2;
                st_ok = u32_attr(w.n, "h", h);
                const Str *p = w.n.attr("previd");
                st_id = p ? *p : "";
            } else if (w.sis("failed", NS_SM)) {
                stage = req == 2 ? 3 : 4;
                st_h = u32_attr(w.n, "h", h);
            } else if (w.sis("a", NS_SM)) {
                uint32_t n = 0;
                bool ok = u32_attr(w.n, "h", n);
                acks.push_back({ok, n});
            } else if (w.sis("r", NS_SM)) {
                if (x->sm_on) { want_a.push_back(srv_cnt); nr++; }
            } else if (is_stanza(w.n)) {
                const Str *i = w.n.attr("id"), *t = w.n.attr("type");
                if (i && t && *t == "result" && *i == "_xmpp_bind1") bindres = true;
                else if (x->sm_on) srv_cnt++;
            }
            continue;
        }
        if (w.is("resume", NS_SM)) {
            req = 2; no_resume_seen = false;
            uint32_t ch = 0;
            const Str *p = w.n.attr("previd");
            if (can == 0) continue;
            bool ok = u32_attr(w.n, "h", ch);
            if (!p || *p != id) { bad("C04 C16", "resume-previd", fmt("<resume/> names session '%s', the session is '%s'", p ? esc(*p).c_str() : "(none)", esc(id).c_str())); judged = false; }
            if (!ok || ch != handled) bad("C05 C16", "resume-h", fmt("<resume/> reports h='%s', %u stanzas were received and dispatched on the session", w.n.attr("h") ? w.n.attr("h")->c_str() : "(none)", handled));
            srv_cnt = ch;
            note("resume requested");
            continue;
        }
        if (w.is("enable", NS_SM)) { commit_failed(); req = 1; can = 0; continue; }
        if (w.is("r", NS_SM)) continue;
        if (w.is("a", NS_SM)) {
            na++;
            uint32_t ch = 0;
            bool ok = u32_attr(w.n, "h", ch);
            if (want_a.empty()) { bad("C05", "ack-unprompted", "an <a/> was sent although every <r/> had been answered"); continue; }
            if (!ok || ch != want_a.front()) bad("C05", "ack-h", fmt("<a h='%s'/> was sent, before the <r/> the server had sent %u stanzas on the session", w.n.attr("h") ? w.n.attr("h")->c_str() : "(none)", want_a.front()));
            want_a.pop_front();
            note("answered <r/>");
            continue;
        }
        if (!is_stanza(w.n)) continue;
        if (w.n.child("bind", NS_BIND)) {
            commit_failed();
            if (can == 1 && sm_offered && no_resume_seen) bad("C04", "no-resume", "the previous session can be resumed and stream management is offered, but the client bound a new session");
            continue;
        }
        if (w.n.child("session", NS_SESSION)) continue;
        if (!act && !nosm) continue;
        client_stanza(w);
    }
}
bool Sm::adopt(const Blob &b, const char *when)
{
    size_t k = 0;
    auto same = [&](size_t from) {
        uint32_t off = base + (uint32_t)(ghost_new ? 0 : from);
        if (un.size() - from != b.sm.size()) return false;
        for (size_t i = 0; i < b.sm.size(); i++) if (un[from + i] != b.sm[i].second || b.sm[i].first != off + (uint32_t)i) return false;
        return b.sent == off + (uint32_t)b.sm.size();
    };
    for (k = 0; k <= ghost && k <= un.size(); k++) if (same(k)) break;
    if (k > ghost || k > un.size()) {
        bad("C04 C16", "state-blob", fmt("%s: the persisted state is %s; expected sent %u, unacknowledged from %u: %s", when, b.show().c_str(), base + (uint32_t)un.size(), base, show_un(un).c_str()));
        judged = false;
        return false;
    }
    if (b.handled != handled) bad("C05 C16", "state-handled", fmt("%s: the persisted state reports %u handled stanzas, %u were dispatched", when, b.handled, handled));
    if (b.id != id) bad("C16", "state-id", fmt("%s: the persisted state belongs to session %s instead of %s", when, esc(b.id).c_str(), esc(id).c_str()));
    return true;
}
void Sm::check_blob(const char *when)
{
    if (!judged || !act || can != 1 || !a.cfg.sm_cb || zip) return;
    if (!a.have_blob) { bad("C04 C16", "state-missing", fmt("%s: the session can be resumed and no state was handed out", when)); return; }
    Blob b;
    if (!b.dec(a.last_blob)) { bad("C16", "state-format", fmt("%s: the state handed out is malformed: %s", when, esc(a.last_blob).c_str())); return; }
    if (!adopt(b, when)) return;
    std::vector<Str> u;
    for (auto &s : b.send) if (s != "<r xmlns='urn:xmpp:sm:3'/>" && s.compare(0, 3, "<a ")) u.push_back(s);
    bool ok = u.size() == sub.size();
    for (size_t i = 0; ok && i < u.size(); i++) ok = u[i] == sub[i];
    if (!ok) bad("C16", "state-unsent", fmt("%s: the persisted state lists %zu unsent elements, %zu are outstanding: %s", when, u.size(), sub.size(), b.show().c_str()));
    note("state compared");
}
void Sm::settle()
{
    sim.wmode = sim.rmode = 0;
    if (x && x->s) x->s->tx_blocked = 0;
    for (int i = 0; i < 200 && a.attempt; i++) {
        bool busy = x && x->s && (!x->s->rx.empty() || x->timer != UINT64_MAX);
        size_t w0 = x ? x->wire.size() : 0;
        uint64_t n0 = sim.now;
        a.iter(50);
        sync();
        if (!busy && x && w0 == x->wire.size() && sim.now - n0 >= 50) break;
    }
    if (!a.attempt || !x) return;
    // everything the server sent has been read now
    while (!acks.empty()) { ack(acks.front().first, acks.front().second); acks.pop_front(); }
    if (!a.n_up || cli_close || srv_close || x->we_closed || x->deaf) return;
    if (judged && (act || nosm)) {
        if (written < un.size()) {
            if (ghost >= un.size() && !written) { un.clear(); ghost = 0; }
            else { bad("C04", "not-retransmitted", fmt("the connection is idle and %zu of the unacknowledged stanzas (%s) have not been sent again", un.size() - written, show_un(un).c_str())); judged = false; return; }
        }
        if (!sub.empty() && a.prop != "C05") { bad("C04", "not-sent", fmt("the connection is idle and %zu submitted stanzas were not sent", sub.size())); judged = false; return; }
        if (!want_a.empty()) bad("C05", "ack-missing", fmt("%zu <r/> were not answered", want_a.size()));
        check_blob("idle");
    }
}
// ---- stimuli ------------------------------------------------------------------------------------------
void Sm::send_one()
{
    if (!a.attempt || !a.n_up || cli_close || closing) return;
    Str sid = fmt("u%u", ++ctr);
    static const unsigned SZ[] = {0, 1, 10, 300, 2000, 9000};
    Str body(SZ[weighted({6, 4, 4, 2, 1, 1})], 'b');
    if (coin(250)) {
        Str r = fmt("<message id='%s' to='x@y'><body>%s</body></message>", sid.c_str(), body.c_str());
        sub.push_back(r);
        trace("  APP: raw %s", sid.c_str());
        xmpp_send_raw(a.conn, r.data(), r.size());
    } else {
        xmpp_stanza_t *m;
        switch (draw(3)) {
        case 0: m = xmpp_message_new(a.ctx, "chat", "peer@example.com", sid.c_str()); xmpp_message_set_body(m, body.c_str()); break;
        case 1: m = xmpp_iq_new(a.ctx, "get", sid.c_str()); { xmpp_stanza_t *q = xmpp_stanza_new(a.ctx); xmpp_stanza_set_name(q, "r"); xmpp_stanza_set_ns(q, "urn:xmpp:sm:3"); xmpp_stanza_add_child_ex(m, q, 0); } break;
        default: m = xmpp_presence_new(a.ctx); xmpp_stanza_set_id(m, sid.c_str());
        }
        char *t; size_t n;
        xmpp_stanza_to_text(m, &t, &n);
        sub.push_back(Str(t, n));
        xmpp_free(a.ctx, t);
        trace("  APP: sends %s", sid.c_str());
        xmpp_send(a.conn, m);
        xmpp_stanza_release(m);
    }
}
void Sm::srv_send()
{
    if (!x || !x->up || x->we_closed || x->client_closed) return;
    Str s = fmt("s%u", ++sctr);
    Str e;
    switch (draw(7)) {
    case 0: e = "<message id='" + s + "' from='p@q'><body>x</body></message>"; break;
    case 1: e = "<presence id='" + s + "'/>"; break;
    case 2: e = "<iq id='" + s + "' type='get'><ping xmlns='urn:xmpp:ping'/></iq>"; break;
    case 3: e = "<iq id='" + s + "' type='result'/>"; break;
    case 4: e = "<message id='" + s + "'><r xmlns='urn:xmpp:sm:3'/><a xmlns='urn:xmpp:sm:3' h='0'/></message>"; break;
    case 5: e = "<message id='" + s + "' type='error'>" + Str(draw(5000), 'x') + "</message>"; break;
    default: e = "<c:message xmlns:c='jabber:client' id='" + s + "'/>"; break;
    }
    if (x->sm_on) logs[cur_sess].sent.push_back(e);
    x->send_stanza(e);
}
void Sm::srv_r() { if (x && x->sm_on && x->up && !x->we_closed && !x->client_closed) x->out(element("r", NS_SM)); }
void Sm::setup_net()
{
    a.net.tweak = [this](XServ &s, const char *step, Str &rep) {
        x = &s;
        if (!strcmp(step, "enabled")) {
            switch (weighted({12, 2, 1, 1, 1})) {
            case 0: break;
            case 1:
                s.sm_on = false; s.sm = nullptr;
                rep = element("failed", NS_SM, element(pickc({"unexpected-request", "feature-not-implemented", "internal-server-error"}), NS_STANZAS));
                s.out(rep);
                return true;
            case 2: rep = element("enabled", NS_SM); break;
            case 3: rep = element("enabled", NS_SM, "", "resume='true'"); break;
            default: rep = element("enabled", NS_SM, "", "id='" + s.sm->id + "' resume='1' max='300'");
            }
            s.out(rep);
            sync();
            // stanzas that are on the way at once
            if (coin(300)) { s.up = true; unsigned n = 1 + draw(3); while (n--) { if (draw(2)) srv_send(); else srv_r(); } }
            return true;
        }
        if (!strcmp(step, "resumed")) {
            sync();
            if (coin(60)) { // the server gets it wrong
                switch (draw(3)) {
                case 0: rep = element("resumed", NS_SM, "", fmt("previd='other' h='%u'", s.sm->h_in)); break;
                case 1: rep = element("resumed", NS_SM, "", "previd='" + xml_esc(s.sm->id, true) + "'"); break;
                default: rep = element("resumed", NS_SM, "", "previd='" + xml_esc(s.sm->id, true) + "' h='" + pickc({"x", "", "-1", "4294967296"}) + "'");
                }
                s.out(rep);
                note("bogus <resumed>");
                return true;
            }
            cur_sess = s.sm->id;
            s.out(rep);
            // the stanzas the client did not report
            SrvLog &l = logs[s.sm->id];
            uint32_t d = srv_cnt - l.first;
            std::vector<Str> again;
            if (d <= l.sent.size()) { again.assign(l.sent.begin() + d, l.sent.end()); }
            l.first = srv_cnt; l.sent.clear();
            for (auto &e : again) { l.sent.push_back(e); s.send_stanza(e); }
            if (coin(300)) { s.up = true; unsigned n = 1 + draw(3); while (n--) { if (draw(2)) srv_send(); else srv_r(); } }
            return true;
        }
        if (!strcmp(step, "resume-failed")) {
            Str ha;
            size_t p = rep.find(" h='");
            if (p != Str::npos && coin(500)) { size_t e = rep.find('\'', p + 4); ha = rep.substr(p, e + 1 - p); }
            if (coin(50)) ha = Str(" h='") + pickc({"x", "", "4294967296", "-1"}) + "'";
            rep = Str("<failed xmlns='") + NS_SM + "'" + ha + ">" + (coin(700) ? element(pickc({"item-not-found", "feature-not-implemented", "unexpected-request"}), NS_STANZAS) : "") + "</failed>";
            return false;
        }
        if (!strcmp(step, "a")) {
            switch (weighted({10, 3, 3, 2})) {
            case 0: return false;
            case 1: return true;      // later, or never
            case 2: { uint32_t back = draw(5); rep = element("a", NS_SM, "", fmt("h='%u'", s.sm->h_in - back)); return false; }
            default: s.out(element("a", NS_SM, "", pickc({"", "h=''", "h='x'", "h='-1'", "h='4294967296'", "h='99999999999999999999'", "h=' 1'", "h='1 '", "h='0x1'"}))); return coin(500);
            }
        }
        if (!strcmp(step, "bind") && coin(100)) { s.out(rep); s.out("<message id='early'><body>before</body></message>"); return true; }
        if (!strcmp(step, "end") && coin(300)) { if (s.sm) s.sm->forgotten = true; s.close_tcp(); return true; }
        if (!strcmp(step, "end") && s.sm) s.sm->forgotten = true;
        return false;
    };
}
bool Sm::connect()
{
    App &A = a;
    size_t n0 = A.net.conns.size();
    A.on_ev = [this](const Ev &) { if (!a.net.conns.empty() && a.net.cur() == x) sync(); };
    sub.clear();
    x = nullptr;
    auto base_acc = sim.accept;
    A.net.begin();
    auto b = sim.accept;
    sim.accept = [b, this](Sock *s) { b(s); conn_begin(); };
    int rc = A.connect();
    if (rc) { A.chk("C04 C05 C16", false, "connect", "connect returned %d", rc); return false; }
    A.until([&] { sync(); return !A.attempt || A.n_up; }, 70000, 200);
    sync();
    (void)n0;
    return A.attempt && A.n_up;
}
void Sm::op()
{
    App &A = a;
    if (!A.attempt) return;
    switch (weighted({8, 3, 6, 4, 3, 2, 2, 3, 2})) {
    case 0: send_one(); break;
    case 1: { unsigned n = 1 + draw(6); while (n--) send_one(); break; }
    case 2: srv_send(); if (coin(300)) srv_r(); break;
    case 3: srv_r(); if (coin(200)) srv_r(); break;
    case 4: if (x && x->sm_on && x->up && !x->we_closed) x->out(element("a", NS_SM, "", fmt("h='%u'", x->sm->h_in - (coin(300) ? draw(4) : 0)))); break;
    case 5: {
        bool old = draw(2);
        char *t = xmpp_conn_send_queue_drop_element(A.conn, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
        trace("  APP: drop -> %s", t ? esc(t, 80).c_str() : "NULL");
        if (t) {
            auto it = std::find(sub.begin(), sub.end(), Str(t));
            auto iu = std::find(un.begin() + (long)written, un.end(), Str(t));
            auto il = std::find(tail.begin(), tail.end(), Str(t));
            if (it != sub.end()) sub.erase(it);
            else if (il != tail.end()) tail.erase(il);
            else if ((act || nosm) && iu != un.end()) {
                // waits to be sent again: the user gives it up
                size_t k = (size_t)(iu - un.begin());
                un.erase(iu);
                if (old && k <= ghost) { // what came before has been acknowledged, but for one that may be half written
                    if (k) un.erase(un.begin(), un.begin() + (long)k - 1);
                    ghost = k ? 1 : 0;
                }
                else if (k < ghost) ghost--;
                note("dropped before it was sent again");
            }
            else { bad("C04", "drop-unknown", "the dropped element " + esc(t, 120) + " is not an unsent element of the user"); judged = false; }
            xmpp_free(A.ctx, t);
            note("dropped");
        }
        break;
    }
    case 6: if (!x->tls_on && !x->z_on && x->s) { x->s->tx_blocked = sim.now + 20 + draw(400); trace("  transport blocked"); } break;
    case 7: if (coin(a.prop == "C16" ? 300 : 20)) settings_refused(); else settle(); break;
    default: if (!x->tls_on && !x->z_on) sim.wmode = coin(500) ? 1 : 0; break;
    }
    unsigned n = weighted({3, 5, 2});
    while (n-- && A.attempt) { A.iter(draw(2) ? 0 : 20); sync(); }
}
void Sm::lose()
{
    App &A = a;
    if (!A.attempt || !x) return;
    if (coin(350) && A.n_up) {
        x->lost = true;
        trace("  from now on nothing reaches the server");
        unsigned n = 1 + draw(5);
        while (n-- && A.attempt) op();
    }
    if (!A.attempt) { sync(); return; }
    switch (weighted({5, 4, 3, 2, 2, 3})) {
    case 0: x->close_tcp(); path += "F"; break;
    case 1: x->close_tcp(true); path += "R"; break;
    case 2: if (x->s) x->s->tx_dead = true; send_one(); path += "D"; if (!A.n_up || !sub.size()) x->close_tcp(true); break;
    case 3: closing = true; A.disconnect(); path += "G"; break;
    case 4: x->out("<stream:error><system-shutdown xmlns='urn:ietf:params:xml:ns:xmpp-streams'/></stream:error>"); if (draw(2)) x->out("</stream:stream>"); x->close_tcp(); path += "E"; break;
    default: return next_conn();
    }
    sim.wmode = 0;
    if (x->s) x->s->tx_blocked = 0;
    A.until([&] { sync(); return !A.attempt; }, 30000, 200);
    sync();
    if (A.attempt) { // the client has not noticed
        if (!x->we_closed) x->close_tcp();
        closing = true; A.disconnect();
        A.until([&] { sync(); return !A.attempt; }, 30000, 200);
        sync();
    }
    A.chk("C01", !A.attempt, "never-ends", "the connection does not end");
}
// the connection object is replaced
void Sm::next_conn()
{
    App &A = a;
    bool was = A.attempt;
    xmpp_sm_state_t *st = nullptr;
    bool hand = false;
    if (!was && coin(500)) {
        st = xmpp_conn_get_sm_state(A.conn);
        hand = st != nullptr;
        if (!hand) { bad("C16", "get-state", "a disconnected connection hands out no state"); }
    }
    A.release();
    sync();
    A.new_conn();
    sub.clear();
    if (hand) {
        int rc = xmpp_conn_set_sm_state(A.conn, st);
        trace("  APP: state handed over -> %d", rc);
        if (rc) { bad("C16", "set-state", fmt("set_sm_state on a fresh connection returned %d", rc)); xmpp_free_sm_state(st); un.clear(); can = 0; ghost = 0; return; }
        note("state handed over");
        path += "H";
        return;
    }
    if (A.cfg.sm_cb && A.have_blob && can && coin(850)) {
        path += "B";
        restore(A.last_blob);
        return;
    }
    // everything is forgotten
    path += "0";
    un.clear(); can = 0; ghost = 0; handled = 0;
}
void Sm::restore(const Str &blob)
{
    App &A = a;
    Blob b;
    if (!b.dec(blob)) { bad("C16", "state-format", "the state handed out is malformed: " + esc(blob)); un.clear(); can = 0; return; }
    tail.clear();
    if (can == 1 && !zip) {
        if (!adopt(b, "at restore")) return;
    }
    un.clear();
    for (auto &p : b.sm) un.push_back(p.second);
    base = b.sm.empty() ? b.sent : b.sm[0].first;
    ghost = 0; ghost_new = false; can = 1; id = b.id; handled = b.handled;
    std::unique_ptr<unsigned char[]> buf(new unsigned char[blob.size()]);
    memcpy(buf.get(), blob.data(), blob.size());
    int rc = xmpp_conn_restore_sm_state(A.conn, buf.get(), blob.size());
    trace("  APP: restore -> %d", rc);
    if (rc) { bad("C16", "restore", fmt("restoring a state the library handed out returned %d: %s", rc, b.show().c_str())); un.clear(); can = 0; judged = false; return; }
    A.restored = true;
    note("state restored");
    int n = xmpp_conn_send_queue_len(A.conn);
    if (n != (int)b.send.size()) bad("C16", "restored-queue-len", fmt("the restored send queue has length %d instead of %zu", n, b.send.size()));
    if (coin(300)) {
        std::deque<Str> q(b.send.begin(), b.send.end());
        unsigned k = 1 + draw((uint32_t)q.size() + 1);
        while (k--) {
            bool old = draw(2);
            char *t = xmpp_conn_send_queue_drop_element(A.conn, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
            if (q.empty()) { if (t) { bad("C16", "restored-drop", "an empty restored queue yields " + esc(t)); xmpp_free(A.ctx, t); } break; }
            Str want = old ? q.front() : q.back();
            if (!t || strcmp(want.c_str(), t)) { bad("C16", "restored-drop", fmt("dropping the %s restored element returned %s instead of %s", old ? "oldest" : "youngest", t ? esc(t, 100).c_str() : "NULL", esc(want, 100).c_str())); if (t) xmpp_free(A.ctx, t); break; }
            if (old) q.pop_front(); else q.pop_back();
            xmpp_free(A.ctx, t);
            if (A.cfg.sm_cb) {
                Blob c;
                if (!A.have_blob || !c.dec(A.last_blob)) { bad("C16", "restored-state", "after a drop the restored connection hands out no valid state"); break; }
                Blob e = b; e.send.assign(q.begin(), q.end());
                if (c.enc() != e.enc()) { bad("C16", "restored-state", "after a drop the restored connection hands out " + c.show() + " instead of " + e.show()); break; }
                note("restored state read back");
            }
        }
    }
}
Blob Sm::gen_blob(Sm &s, bool wild)
{
    static const uint32_t C[] = {0, 1, 5, 1000, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu, 0xfffffffdu};
    Blob b;
    b.sent = C[draw(9)] + draw(8);
    b.handled = wild ? (uint32_t)bits64() : C[draw(9)];
    auto text = [&]() {
        switch (weighted({6, 3, 2, 1})) {
        case 0: return fmt("<message id='u%u'/>", ++s.ctr);
        case 1: { Str r = fmt("<message id='u%u'><body>", ++s.ctr); r += Str(draw(300), 'q'); return r + "</body></message>"; }
        case 2: { Str r; unsigned n = small(20); while (n--) r += (char)draw(256); return r; }
        default: return Str(60000 + draw(10000), 'w');
        }
    };
    static const unsigned L[] = {0, 1, 3, 20, 300};
    unsigned il = L[weighted({1, 2, 4, 6, 1})];
    if (il) il += draw(3);
    while (il--) b.id += wild ? (char)(1 + draw(255)) : (char)('a' + draw(26));
    unsigned n = small(5), m = small(5);
    if (coin(20)) n += 40;
    while (n--) b.send.push_back(text());
    for (unsigned i = 0; i < m; i++) b.sm.push_back({b.sent - m + i, text()});
    return b;
}
Str Sm::mutate(const Blob &b)
{
    Str d = b.enc();
    // the offsets of all fields
    std::vector<size_t> f = {0, 5, 10, 15};
    size_t p = 20 + b.id.size();
    f.push_back(p); p += 5;
    for (auto &e : b.send) { f.push_back(p); p += 5 + e.size(); }
    f.push_back(p); p += 5;
    for (auto &e : b.sm) { f.push_back(p); p += 5; f.push_back(p); p += 5 + e.second.size(); }
    static const uint8_t T[] = {0x1a, 0x7a, 0x9a, 0xba, 0x1b, 0x7b, 0x00, 0xff, 0x18, 0x9f};
    unsigned k = 1 + small(2);
    while (k--) switch (weighted({4, 3, 4, 8, 2, 2, 1, 1})) {
    case 0: if (!d.empty()) d.resize(draw((uint32_t)d.size())); break;
    case 1: { unsigned n = 1 + small(12); if (coin(300)) d += d.substr(f[draw((uint32_t)f.size())] % (d.size() + 1)); else while (n--) d += coin(500) ? (char)T[draw(10)] : (char)draw(256); break; }
    case 2: { size_t o = pick(f); if (o < d.size()) d[o] = (char)(coin(700) ? T[draw(10)] : draw(256)); break; }
    case 3: {
        size_t o = pick(f);
        if (o + 5 > d.size()) break;
        uint32_t v = 0;
        for (int i = 1; i < 5; i++) v = v << 8 | (uint8_t)d[o + i];
        switch (draw(8)) {
        case 0: v++; break;
        case 1: v--; break;
        case 2: v = 0; break;
        case 3: v = 0xffffffffu - draw(40); break;
        case 4: v = 0x80000000u + draw(20) - 10; break;
        case 5: v ^= 1u << draw(32); break;
        case 6: v = (uint32_t)(d.size() - o) - 5 + draw(3) - 1; break; // up to the end of the data, one less, one more
        default: v = (uint32_t)bits64();
        }
        for (int i = 0; i < 4; i++) d[o + 1 + i] = (char)(v >> (24 - 8 * i));
        break;
    }
    case 4: if (d.size() > 21) { size_t o = 20 + draw((uint32_t)std::min<size_t>(d.size() - 20, b.id.size() + 1)); if (o < d.size()) d[o] = 0; } break;
    case 5: { size_t x = pick(f), y = pick(f); if (x > y) std::swap(x, y); if (y <= d.size()) { if (coin(500)) d.erase(x, y - x); else d.insert(y, d.substr(x, y - x)); } break; }
    case 6: if (!d.empty()) d[draw((uint32_t)d.size())] ^= (char)(1 << draw(8)); break;
    default: { unsigned n = small(80); d.clear(); while (n--) d += (char)draw(256); }
    }
    return d;
}
// true: accepted
bool Sm::try_bytes(const Str &d, bool)
{
    App &A = a;
    Blob m;
    bool ok = m.dec(d);
    std::unique_ptr<unsigned char[]> buf(new unsigned char[d.size()]);
    memcpy(buf.get(), d.data(), d.size());
    int n0 = xmpp_conn_send_queue_len(A.conn);
    uint64_t live = A.vm.live.size();
    int rc = xmpp_conn_restore_sm_state(A.conn, d.empty() && coin(500) ? nullptr : buf.get(), d.size());
    if (ok ? rc != XMPP_EOK : rc == XMPP_EOK) { a.chk("C16", false, ok ? "valid-refused" : "invalid-accepted", "restoring %s (%zu bytes) returned %d", esc(d).c_str(), d.size(), rc); return rc == 0; }
    int n1 = xmpp_conn_send_queue_len(A.conn);
    if (!ok) {
        note("invalid state refused");
        if (n1 != n0) a.chk("C16", false, "refused-queue", "the refused state changed the length of the send queue from %d to %d: %s", n0, n1, esc(d).c_str());
        if (A.vm.live.size() != live) a.chk("C16 C12", false, "refused-leak", "refusing a state left %lld more blocks allocated: %s", (long long)(A.vm.live.size() - live), esc(d).c_str());
        return false;
    }
    note("valid state accepted");
    if (n1 != n0 + (int)m.send.size()) a.chk("C16", false, "restored-queue-len", "the restored send queue has length %d instead of %zu", n1 - n0, m.send.size());
    return true;
}
// many byte strings against the reference decoder
void Sm::codec()
{
    App &A = a;
    Blob b = gen_blob(*this, true);
    Str e = b.enc();
    unsigned nacc = 0, nref = 0;
    auto attempt = [&](const Str &d) {
        if (try_bytes(d)) {
            nacc++;
            // a second state is refused
            Str e2 = coin(500) ? e : d;
            int n0 = xmpp_conn_send_queue_len(A.conn);
            int rc = xmpp_conn_restore_sm_state(A.conn, (const unsigned char *)e2.data(), e2.size());
            a.chk("C16", rc != 0, "second-restore", "a second state was accepted");
            a.chk("C16", xmpp_conn_send_queue_len(A.conn) == n0, "second-restore-queue", "a refused second state changed the queue");
            xmpp_conn_release(A.conn); A.conn = nullptr; A.new_conn();
        } else nref++;
        if (failed()) throw CaseAbort();
    };
    if (e.size() < 600 && coin(300)) {
        // every truncation, and every value of a type byte
        for (size_t n = 0; n < e.size(); n++) attempt(e.substr(0, n));
        note("all truncations");
    } else {
        unsigned k = 3 + small(20);
        while (k--) attempt(mutate(b));
    }
    switch (draw(4)) {
    case 0: A.release(); A.new_conn(); break;
    case 1: break;
    default: { // the valid one, after all this
        can = 0;
        restore(e);
        judged = false;      // the texts are arbitrary, so is what goes over the wire
        if (coin(300)) { xmpp_sm_state_t *st = xmpp_conn_get_sm_state(A.conn); if (!st) a.chk("C16", false, "get-state", "no state in a connection that was given one"); else { if (coin(500)) { int rc = xmpp_conn_set_sm_state(A.conn, st); a.chk("C16", rc == 0, "set-state", "set_sm_state returned %d", rc); if (rc) xmpp_free_sm_state(st); } else { xmpp_free_sm_state(st); note("state freed"); } } }
    }
    }
    if (coin(400) && !failed()) {
        un.clear(); can = 0; judged = false;
        a.net.tweak = nullptr;
        if (connect()) {
            unsigned n = small(6);
            while (n-- && A.attempt) { A.iter(20); sync(); }
            if (coin(500) && A.attempt) settle();
        }
        if (A.attempt) { closing = true; A.disconnect(); A.until([&] { sync(); return !A.attempt; }, 30000, 200); }
        a.chk("C01 C16", !A.attempt, "never-ends", "the connection does not end");
        path += "c";
    }
    if (nacc + nref) nontrivial();
    fingerprint(path + fmt("|codec %u %u %zu", nacc, nref, e.size()));
    if (want_sample()) sample(fmt("state %s: %u mutations refused, %u valid ones accepted", b.show().c_str(), nref, nacc));
    A.finish();
}
// only while disconnected
void Sm::settings_refused()
{
    App &A = a;
    Blob b = gen_blob(*this, false);
    Str e = b.enc();
    int n0 = xmpp_conn_send_queue_len(A.conn);
    a.chk("C16 C13", xmpp_conn_restore_sm_state(A.conn, (const unsigned char *)e.data(), e.size()) == XMPP_EINVOP, "restore-online", "a state was restored while the connection is not disconnected");
    xmpp_sm_state_t *st = xmpp_conn_get_sm_state(A.conn);
    a.chk("C16 C13", !st, "get-online", "the state was detached while the connection is not disconnected");
    a.chk("C16", n0 == xmpp_conn_send_queue_len(A.conn), "restore-online-queue", "a refused state changed the queue");
    note("state operations while online");
}
// a session that has been running for long
void Sm::crafted()
{
    App &A = a;
    static const uint32_t C[] = {0, 1, 5, 1000, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xffffffffu, 0xfffffffdu};
    Blob b;
    unsigned n = small(8);
    b.sent = C[draw(9)] + draw(8);
    b.handled = C[draw(9)] + draw(3);
    if (a.prop == "C16" || coin(100)) {
        Blob o = gen_blob(*this, true);
        unsigned k = small(6);
        while (k--) if (try_bytes(mutate(o))) { xmpp_conn_release(a.conn); a.conn = nullptr; a.new_conn(); }
        if (failed()) throw CaseAbort();
        if (coin(150)) { note("used after refusals"); path += "X"; return; } // go on without a state
    }
    b.id = pickc({"s", "an id with spaces", "sm-0123456789abcdef", "<&>'\"", "\xc3\xa9"});
    for (unsigned i = 0; i < n; i++) {
        static const unsigned SZ[] = {0, 0, 50, 1500};
        Str raw = fmt("<message id='u%u'><body>%s</body></message>", ++ctr, Str(SZ[draw(4)], 'c').c_str());
        b.sm.push_back({b.sent - n + i, raw});
    }
    unsigned m = small(3);
    for (unsigned i = 0; i < m; i++) b.send.push_back(i % 2 ? "<r xmlns='urn:xmpp:sm:3'/>" : fmt("<message id='u%u'/>", ++ctr));
    SmSess *s = new SmSess;
    A.net.sess.emplace_back(s);
    s->id = b.id; s->jid = A.cfg.jid; s->live = true;
    uint32_t hd = draw(n + 1);
    s->h_in = b.sent - n + hd;
    if (coin(120)) s->forgotten = true;
    logs[b.id].first = b.handled - (coin(300) ? 0 : 0);
    if (coin(300)) { unsigned k = 1 + draw(3); while (k--) logs[b.id].sent.push_back(fmt("<message id='s%u'/>", ++sctr)); }
    trace("crafted: %s; server counted %u", b.show().c_str(), s->h_in);
    can = 0;
    restore(b.enc());
    note("crafted state");
    path += "C";
}
void Sm::run()
{
    App &A = a;
    AppCfg c;
    c.flags = XMPP_CONN_FLAG_DISABLE_TLS;
    c.resource = "res"; c.jid = "user@example.com/res"; c.user = "user";
    c.sm_cb = coin(800);
    bool tls = coin(60);
    zip = coin(80);
    if (tls) c.flags = 0;
    if (zip) c.flags |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
    A.start(c);
    XConf &k = A.net.cf;
    k = XConf();
    k.user = c.user; k.pass = c.pass; k.domain = c.domain; k.tls = tls; k.zlib = zip;
    k.mech_plain = k.mech_tls = {"PLAIN"};
    k.session = coin(200) ? 2 : 0;
    A.on_st = [this](xmpp_stanza_t *s) {
        const char *ns = xmpp_stanza_get_ns(s), *n = xmpp_stanza_get_name(s);
        if (!ns || strcmp(ns, NS_SM)) { if (n && (!strcmp(n, "message") || !strcmp(n, "presence") || !strcmp(n, "iq"))) handled++; }
        if (coin(60)) send_one();
    };
    setup_net();
    if (a.prop == "C16" && coin(600)) return codec();
    unsigned cycles = 2 + small(4);
    if (coin(a.prop == "C16" ? 500 : 250)) { sim.rmode = 0; crafted(); }
    for (unsigned i = 0; i < cycles; i++) {
        if (failed()) throw CaseAbort();
        k.sm = !coin(60);
        k.sm_resume = !coin(100);
        if (coin(120)) for (auto &s : A.net.sess) s->forgotten = true;
        sim.wmode = !tls && !zip && coin(250) ? 1 : 0;
        sim.rmode = (int)weighted({6, 2, 1});
        if (connect()) {
            path += x->sm_on ? (nresumes ? "r" : "e") : "n";
            unsigned nops = small(14);
            while (nops-- && A.attempt) op();
            if (coin(300)) settle();
        } else path += "x";
        if (failed()) throw CaseAbort();
        if (A.attempt) lose(); else if (coin(150)) next_conn();
        if (!A.conn) return;
    }
    // a connection to a server that does everything right
    if (A.attempt) lose();
    if (failed()) throw CaseAbort();
    k.sm = true; k.sm_resume = true;
    sim.wmode = sim.rmode = 0;
    A.net.tweak = [this](XServ &s, const char *step, Str &) {
        x = &s;
        if (!strcmp(step, "enabled") || !strcmp(step, "resumed")) sync();
        if (!strcmp(step, "resumed")) { cur_sess = s.sm->id; logs[cur_sess] = SrvLog(); logs[cur_sess].first = srv_cnt; }
        return false;
    };
    if (!connect()) {
        if (judged) A.chk("C04 C05 C16", false, "final-connect", "a connection to a conforming server does not come up");
    } else {
        settle();
        unsigned n = 1 + draw(3);
        while (n--) send_one();
        srv_send(); srv_r();
        settle();
        if (A.attempt && x->sm_on) {
            x->out(element("a", NS_SM, "", fmt("h='%u'", x->sm->h_in)));
            settle();
            if (judged && act && !un.empty()) bad("C04", "not-released", fmt("everything is acknowledged and %zu stanzas are still retained", un.size()));
        }
    }
    if (nretx || nacked || na || nresumes) nontrivial();
    fingerprint(path + fmt("|%u %u %u %u %u %u %u", nretx, nnew, nacked, na, nresumes, nfails, (unsigned)un.size()));
    if (want_sample()) sample(fmt("path %s: %zu connections, %u new stanzas, %u retransmitted, %u acknowledged, %u resumptions, %u failed resumptions, %u <r/> answered", path.c_str(), A.net.conns.size(), nnew, nretx, nacked, nresumes, nfails, na));
    if (A.attempt) { closing = true; A.disconnect(); A.until([&] { sync(); return !A.attempt; }, 30000, 200); }
    A.finish();
}
void sm_case(const char *p) { Sm s(p); app_run(s.a, [&] { s.run(); }); }
static void c04() { sm_case("C04"); }
static void c05() { sm_case("C05"); }
static void c16() { sm_case("C16"); }
#define SMRULE "a case = a history of 3 to 7 connections of one client to a server with XEP-0198: drawn stanza traffic in both directions, drawn acknowledgement policy (prompt, late, stale, malformed, none), " \
    "back-pressure, drops from the queue, loss of the connection in six ways (with or without bytes under way), resumption accepted, refused with or without h, forgotten, not offered, " \
    "hand-over to another connection object by object or by persisted state, counters around 2^31 and 2^32; then a connection to a conforming server. "
PROP(c04, "C04", c04, 30000, 1500000, SMRULE "Non-trivial: something was acknowledged, retransmitted, resumed or answered. Oracle: reference model of the retained queue against the elements on the wire and the persisted state", 0, nullptr, 30, {"a server never acknowledges more than it was sent", "stanzas the client could not start to write before the connection was lost are not promised to be delivered"});
PROP(c05, "C05", c05, 30000, 1500000, SMRULE "Non-trivial: something was acknowledged, retransmitted, resumed or answered. Oracle: count of the stanzas the server sent before each <r/> and of those the user's handler saw", 0, nullptr, 30, {"the server sends only message, presence, iq and stream management elements after negotiation"});
PROP(c16, "C16", c16, 40000, 1500000, "60 % of the cases restore drawn byte strings: valid states (arbitrary texts, counters and ids) and structure-aware mutations of them (truncation at drawn or at every position, extension, type, length and count fields altered, NUL in the id, fields removed or doubled, noise) in exactly sized buffers, judged by a reference decoder, then go on with the connection. The others are: " SMRULE "Non-trivial: at least one byte string was judged, or something was acknowledged, retransmitted or resumed. Oracle: reference decoder for acceptance; reference model for the persisted state and for what a restored connection sends", 0, nullptr, 30, {"a byte string that decodes completely is a state, whatever texts and numbers it contains"});
