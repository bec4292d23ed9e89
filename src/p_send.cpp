// Outbound queue under back-pressure (C06) and stream compression (C20).
#include "hist.h"

struct Item { Str text; bool user = true; int pat = 0; }; // pat 1: stream error, 2: stream end (library-owned, text not ours)
struct Snd {
    App a;
    XServ *x = nullptr;
    bool sm = false, tls = false, zip = false, opaque = false;
    bool exact = true;            // zero-length elements make the length ambiguous
    std::deque<Item> q;           // submitted, not dropped, not completely matched on the wire
    size_t base = 0;              // of x->xml, matched so far
    bool head_started = false, head_maybe = false, partial_lib = false;
    unsigned ctr = 0, nsent = 0, ndrop = 0, nlib = 0, nshort = 0, nagain = 0, nlen = 0, ndone = 0;
    int pol = 0; unsigned polk = 1;
    bool fatal = false, closing = false, wedge = false, finish_z = false;
    bool burst_ok = false;
    Str path;
    // inbound (C20)
    std::deque<Str> inb;          // canonical form of what the server sent
    unsigned nin = 0;
    Snd(const char *p) : a(p) {}
    void bad(const char *sig, const Str &m) { a.chk("C06 C20", false, sig, "%s", m.c_str()); if (failed()) throw CaseAbort(); }
    void match();
    void check_len(const char *when);
    void drop(bool old);
    Str text_();
    void send_one();
    void policy();
    void srv_send();
    void seen(xmpp_stanza_t *);
    bool up(const AppCfg &, const XConf &);
    void drain(bool all);
    void op();
    void after_loss();
    void run();
};
static const char *R_ = "<r xmlns='urn:xmpp:sm:3'/>";
// length of a library-owned element at the beginning of s; 0 if none; -1 if s may be the beginning of one
static long lib_at(const char *s, size_t n)
{
    size_t k = strlen(R_);
    if (n >= k ? !memcmp(s, R_, k) : !memcmp(s, R_, n)) return n >= k ? (long)k : -1;
    static const char A[] = "<a h=\"";
    k = strlen(A);
    if (n < k) return memcmp(s, A, n) ? 0 : -1;
    if (memcmp(s, A, k)) return 0;
    size_t p = k;
    while (p < n && p < k + 10 && isdigit((unsigned char)s[p])) p++;
    if (p == n) return -1;
    static const char B[] = "\" xmlns=\"urn:xmpp:sm:3\"/>";
    k = std::min(n - p, strlen(B));
    if (p == 6 || memcmp(s + p, B, k)) return 0;
    return k == strlen(B) ? (long)(p + k) : -1;
}
void Snd::match()
{
    if (!x) return;
    const Str &g = x->xml;
    head_started = head_maybe = partial_lib = false;
    for (;;) {
        const char *s = g.data() + base;
        size_t n = g.size() - base;
        if (!q.empty() && !q.front().pat && n >= q.front().text.size() && !memcmp(s, q.front().text.data(), q.front().text.size())) {
            base += q.front().text.size();
            if (q.front().user) ndone++;
            q.pop_front();
            continue;
        }
        if (!n) return;
        if (!q.empty() && q.front().pat == 2) {
            static const Str E = "</stream:stream>";
            if (n >= E.size() && !memcmp(s, E.data(), E.size())) { base += E.size(); q.pop_front(); continue; }
            if (n < E.size() && !memcmp(s, E.data(), n)) { partial_lib = true; return; }
        }
        if (!q.empty() && q.front().pat == 1) {
            static const Str B = "<stream:error>", E = "</stream:error>";
            size_t k = std::min(n, B.size());
            if (!memcmp(s, B.data(), k)) {
                size_t e = g.find(E, base);
                if (e == Str::npos) { partial_lib = true; return; }
                base = e + E.size(); q.pop_front();
                continue;
            }
        }
        long l = sm ? lib_at(s, n) : 0;
        if (l > 0) { base += (size_t)l; nlib++; continue; }
        if (!q.empty() && !q.front().pat && n < q.front().text.size() && !memcmp(s, q.front().text.data(), n)) {
            head_started = true; head_maybe = l < 0;
            return;
        }
        if (l < 0) { partial_lib = true; return; }
        bad("wire", fmt("after %zu bytes the server received %s; next in the queue is %s (%zu elements outstanding)", base, esc(g.substr(base, 120)).c_str(), q.empty() ? "nothing" : q.front().pat ? "a library element" : esc(q.front().text, 120).c_str(), q.size()));
        return;
    }
}
void Snd::check_len(const char *when)
{
    if (!exact) return;
    match();
    int L = xmpp_conn_send_queue_len(a.conn);
    int n = 0;
    for (size_t i = 0; i < q.size(); i++) if (q[i].user && !(i == 0 && head_started && !head_maybe)) n++;
    bool ok;
    if (zip) ok = L >= 0 && L <= n;
    else if (tls || head_maybe) ok = L == n || (L == n - 1 && q.size() && q.front().user);
    else ok = L == n;
    nlen++;
    if (!ok) bad("queue-len", fmt("%s: the reported queue length is %d, %d user elements have not been started", when, L, n));
}
void Snd::drop(bool old)
{
    if (!exact) return;
    check_len("before a drop");
    bool live = a.attempt;
    int L = xmpp_conn_send_queue_len(a.conn);
    std::vector<size_t> us;      // user elements in q
    for (size_t i = 0; i < q.size(); i++) if (q[i].user) us.push_back(i);
    char *t = xmpp_conn_send_queue_drop_element(a.conn, old ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
    trace("  APP: drop %s -> %s", old ? "oldest" : "youngest", t ? esc(t, 80).c_str() : "NULL");
    std::unique_ptr<Str> s(t ? new Str(t) : nullptr);
    if (t) xmpp_free(a.ctx, t);
    if (!live) { // whatever had been started can be taken out as well
        if (!t) { if (L > 0) bad("drop-null", fmt("%d elements are queued and the drop returned nothing", L)); return; }
        if ((size_t)L > us.size()) bad("drop-len", "length exceeds what is outstanding");
        size_t i = us.size() - (size_t)L;
        if (old) {
            if (L && !strcmp(q[us[i]].text.c_str(), s->c_str())) { us.erase(us.begin(), us.begin() + (long)i + 0); q.erase(q.begin(), q.begin() + (long)us[0] + 1); }
            else if (i && !strcmp(q[us[i - 1]].text.c_str(), s->c_str())) q.erase(q.begin(), q.begin() + (long)us[i - 1] + 1);
            else bad("drop-oldest", fmt("dropping the oldest of %d elements after the connection was lost returned %s", L, esc(*s, 100).c_str()));
        } else {
            if (us.empty() || strcmp(q[us.back()].text.c_str(), s->c_str())) bad("drop-youngest", fmt("dropping the youngest element after the connection was lost returned %s", esc(*s, 100).c_str()));
            if (us.back() == 0) head_started = head_maybe = false;
            q.erase(q.begin() + (long)us.back());
        }
        if (old) head_started = head_maybe = false;
        ndrop++;
        return;
    }
    if (L == 0) {
        if (t) bad("drop-unexpected", fmt("the queue holds no user element that has not been started and the drop returned %s", esc(*s, 100).c_str()));
        return;
    }
    if ((size_t)L > us.size()) bad("drop-len", "length exceeds what is outstanding");
    size_t i = old ? us[us.size() - (size_t)L] : us.back();
    if (!t) bad("drop-null", fmt("%d elements are queued and the drop returned nothing", L));
    if (*s != q[i].text.c_str()) bad("drop-text", fmt("dropping the %s of %d elements returned %s instead of %s", old ? "oldest" : "youngest", L, esc(*s, 150).c_str(), esc(q[i].text, 150).c_str()));
    q.erase(q.begin() + (long)i);
    ndrop++;
    int L2 = xmpp_conn_send_queue_len(a.conn);
    if (L2 != L - 1) bad("drop-len", fmt("a drop changed the queue length from %d to %d", L, L2));
    note(old ? "dropped oldest" : "dropped youngest");
}
Str Snd::text_()
{
    static const unsigned SZ[] = {1, 2, 30, 300, 1023, 1024, 4096, 5000, 20000, 70000};
    unsigned n = SZ[weighted({4, 3, 8, 6, 2, 2, 2, 2, 1, 1})];
    if (n > 2) n += draw(n / 2 + 1) - n / 4;
    Str s;
    uint64_t seed = bits64();
    bool rnd = draw(3) == 0;
    s.reserve(n);
    for (unsigned i = 0; i < n; i++) { seed = seed * 6364136223846793005ull + 1442695040888963407ull; s += rnd ? (char)('0' + (seed >> 40) % 75) : "abcdefgh"[i % 8]; }
    for (auto &c : s) if (c == '<' || c == '>' || c == '&') c = '.';
    return s;
}
void Snd::send_one()
{
    if (!a.attempt || closing) return;
    bool isup = a.n_up > 0;
    Str id = fmt("u%u", ++ctr);
    Item it;
    switch (weighted({5, 3, 2, 2, opaque ? 4u : 0u})) {
    case 0: {
        xmpp_stanza_t *m = xmpp_message_new(a.ctx, "chat", "peer@example.com", id.c_str());
        xmpp_message_set_body(m, text_().c_str());
        char *t; size_t n;
        xmpp_stanza_to_text(m, &t, &n);
        it.text = Str(t, n);
        xmpp_free(a.ctx, t);
        xmpp_send(a.conn, m);
        xmpp_stanza_set_attribute(m, "id", "changed"); // does not concern what was submitted
        xmpp_stanza_release(m);
        break;
    }
    case 1: {
        it.text = fmt("<message id='%s'><body>%s</body></message>", id.c_str(), text_().c_str());
        Str copy = it.text;
        xmpp_send_raw(a.conn, &copy[0], copy.size());
        std::fill(copy.begin(), copy.end(), '!');
        break;
    }
    case 2: {
        Str b = text_();
        it.text = fmt("<iq id='%s' type='get'>%s%d</iq>", id.c_str(), b.c_str(), 4711);
        xmpp_send_raw_string(a.conn, "<iq id='%s' type='get'>%s%d</iq>", id.c_str(), b.c_str(), 4711);
        break;
    }
    case 3: {
        // around the size of the formatting buffer
        unsigned n = 1015 + draw(20);
        Str h = fmt("<presence id='%s'>", id.c_str()), e = "</presence>";
        Str b(n > h.size() + e.size() ? n - h.size() - e.size() : 1, 'p');
        it.text = h + b + e;
        xmpp_send_raw_string(a.conn, "%s", it.text.c_str());
        break;
    }
    default: {
        unsigned n = weighted({1, 4, 2, 1}) * 17;
        if (exact || n) n = n + 1 + draw(16);
        while (n--) it.text += (char)draw(256);
        if (exact) for (auto &c : it.text) if (!c) c = 1;
        std::unique_ptr<char[]> b(new char[it.text.size()]);
        memcpy(b.get(), it.text.data(), it.text.size());
        xmpp_send_raw(a.conn, b.get(), it.text.size());
    }
    }
    trace("  APP: submits %zu bytes: %s", it.text.size(), esc(it.text, 60).c_str());
    if (!isup) return;           // refused while the stream is negotiated
    nsent++;
    q.push_back(it);
}
void Snd::policy()
{
    pol = (int)weighted({4, 4, 3, 2, 2, 2});
    static const unsigned K[] = {1, 2, 3, 7, 16, 100, 1000, 4096};
    polk = K[draw(8)];
}
void Snd::srv_send()
{
    if (!x || !x->up || x->we_closed || opaque) return;
    unsigned n = 1 + small(4);
    Str burst;
    while (n--) {
        Str id = fmt("s%u", ++nin), b = text_(), e;
        switch (draw(4)) {
        case 0: e = "<message id='" + id + "' from='p@q'><body>" + b + "</body></message>"; break;
        case 1: e = "<presence id='" + id + "'><status xml:lang='de'>" + b + "&lt;&amp;&#xe9;</status></presence>"; break;
        case 2: e = "<iq id='" + id + "' type='get'><q xmlns='urn:x'><a/><b c=\"" + b + "\"/></q></iq>"; break;
        default: e = "<message id='" + id + "'><![CDATA[" + b + "<x>]]>" + b + "</message>"; break;
        }
        inb.push_back(id);
        Node nd; Str err;
        if (!xml_parse(e, nd, err, "jabber:client")) { fprintf(stderr, "p_send: %s\n", err.c_str()); abort(); }
        inb.back() = nd.show();
        if (x->sm_on && x->sm) x->sm->out_nr++;
        burst += e;
    }
    if (finish_z) x->zflush = Z_FINISH;
    else if (zip) x->zflush = coin(300) ? Z_FULL_FLUSH : coin(200) ? Z_BLOCK : Z_SYNC_FLUSH;
    if (x->zflush == Z_BLOCK) { // nothing is promised before the next flush
        x->out(burst);
        x->zflush = Z_SYNC_FLUSH;
        if (coin(500)) { x->out(" "); }
        else { Str e = "<presence id='x'/>"; Node nd; Str err; xml_parse(e, nd, err, "jabber:client"); inb.push_back(nd.show()); if (x->sm_on && x->sm) x->sm->out_nr++; x->out(e); }
    } else x->out(burst);
}
static void strip_empty(Node &n)
{
    for (size_t i = 0; i < n.kids.size();) {
        if (n.kids[i].text && n.kids[i].data.empty()) n.kids.erase(n.kids.begin() + (long)i);
        else { if (!n.kids[i].text) strip_empty(n.kids[i]); i++; }
    }
}
void Snd::seen(xmpp_stanza_t *s)
{
    if (opaque || !a.n_up) return;
    const char *ns = xmpp_stanza_get_ns(s);
    if (ns && !strcmp(ns, NS_SM)) return;
    const char *sid = xmpp_stanza_get_id(s);
    if (sid && !strncmp(sid, "_xmpp_", 6)) return; // the one that completed the negotiation
    char *t; size_t n;
    if (xmpp_stanza_to_text(s, &t, &n)) return;
    Str txt(t, n);
    xmpp_free(a.ctx, t);
    Node nd; Str err;
    // the library drops the prefix of xml:lang
    if (!xml_parse(txt, nd, err, "jabber:client")) { bad("inbound", "a received stanza renders to malformed XML: " + esc(txt)); return; }
    std::function<void(Node &)> lang = [&](Node &k) { for (auto &at : k.attrs) if (at.name == "lang" && at.ns.empty()) at.ns = "http://www.w3.org/XML/1998/namespace"; for (auto &c : k.kids) lang(c); };
    lang(nd);
    strip_empty(nd);
    Str got = nd.show();
    if (inb.empty()) { bad("inbound-extra", "a stanza was dispatched that the server did not send: " + esc(txt, 200)); return; }
    if (inb.front() != got) bad("inbound", fmt("dispatched %s, the server sent %s", esc(got, 200).c_str(), esc(inb.front(), 200).c_str()));
    inb.pop_front();
    note("inbound stanza compared");
}
bool Snd::up(const AppCfg &c, const XConf &k)
{
    if (!a.ctx) a.start(c);
    a.net.cf = k;
    a.net.begin();
    x = nullptr;
    a.on_ev = [this](const Ev &e) {
        if (e.type == XMPP_CONN_CONNECT) {
            x = a.net.cur();
            base = x->xml.size();
            x->opaque = opaque;
            if (coin(300)) { unsigned n = 1 + draw(4); while (n--) send_one(); }
        }
    };
    a.on_st = [this](xmpp_stanza_t *s) { seen(s); if (coin(100)) send_one(); };
    a.on_timed = [this]() { if (coin(200)) send_one(); };
    if (a.connect()) { a.chk("C06 C20", false, "connect", "connect refused"); return false; }
    sim.wpolicy = [this](Sock *, size_t n) -> long {
        if (fatal && !draw(6)) { trace("  transport fails"); return -1000 - (draw(2) ? 32 : 104); }
        switch (pol) {
        case 0: return (long)n;
        case 1: { long k = (long)std::min<size_t>(n, polk); if ((size_t)k < n) nshort++; return k; }
        case 2: { if (draw(3) == 1) { nagain++; return -1; } long k = 1 + (long)draw((uint32_t)std::min<size_t>(n, polk)); if ((size_t)k < n) nshort++; return k; }
        case 3: nagain++; return -1;
        case 4: if (draw(2)) { nagain++; return -2; } return (long)n;
        default: { long k = 1 + (long)draw((uint32_t)n); if ((size_t)k < n) nshort++; return k; }
        }
    };
    pol = (int)weighted({5, 1, 1, 0, 1, 1});
    polk = 1 + draw(200); fatal = false;
    // the queue inspection is of no use to the user before there is something of his
    unsigned peeks = draw(4);
    a.until([&] {
        if (peeks && a.attempt && !a.n_up) {
            peeks--;
            int L = xmpp_conn_send_queue_len(a.conn);
            if (L) bad("queue-len", fmt("during negotiation the reported queue length is %d", L));
            char *t = xmpp_conn_send_queue_drop_element(a.conn, draw(2) ? XMPP_QUEUE_OLDEST : XMPP_QUEUE_YOUNGEST);
            if (t) bad("drop-library", fmt("during negotiation a drop returned %s", esc(t, 100).c_str()));
            if (coin(300)) send_one();
        }
        return !a.attempt || a.n_up > 0; }, 60000, 20);
    if (!a.n_up) { a.chk("C06 C20", false, "no-connect", "the connection to a conforming server does not come up"); return false; }
    return a.attempt;
}
// the transport accepts everything: the queue has to go out
void Snd::drain(bool all)
{
    pol = 0; fatal = false; sim.rmode = 0;
    if (!a.attempt) return;
    if (x->s) x->s->tx_blocked = 0;
    if (!all) {
        // once nothing is held back, one iteration of the loop sends and flushes what was submitted before it
        a.iter(0);
        a.iter(0);
        while (coin(500)) send_one();
        size_t n0 = q.size();
        (void)n0;
        std::deque<Item> mine = q;
        std::deque<Item> later;
        a.iter(0);
        match();
        // what callbacks queued during the iteration can be left
        size_t left = q.size();
        unsigned cb = (unsigned)(nsent + 0);
        (void)cb; (void)later;
        if (zip && a.attempt && !mine.empty() && left) {
            bool still = false;
            for (auto &i : q) if (i.text == mine.back().text && !i.pat) still = true;
            if (still) bad("not-flushed", fmt("%zu elements submitted before the loop iteration are not completely received after it although the transport takes everything", left));
        }
        if (!a.attempt) return;
        note("flush checked");
    }
    for (int i = 0; i < 1500 && a.attempt; i++) { a.iter(q.empty() ? 5 : 20); match(); if (q.empty() && (opaque || inb.empty() || i > 1400) && (!x->s || x->s->rx.empty()) && i > 2) break; }
    if (!a.attempt) return;
    match();
    if (!q.empty()) bad("not-sent", fmt("%zu elements are never sent although the transport takes everything; the first: %s", q.size(), esc(q.front().text, 100).c_str()));
    if (head_started || partial_lib) bad("not-sent", "an element stays partially sent although the transport takes everything");
    if (exact) { int L = xmpp_conn_send_queue_len(a.conn); if (L) bad("queue-len", fmt("everything was received and the reported length is %d", L)); }
    if (!opaque && !inb.empty() && (!x->s || x->s->rx.empty())) bad("inbound-missing", fmt("%zu stanzas the server sent were not dispatched; the first: %s", inb.size(), esc(inb.front(), 150).c_str()));
    if (x->z_err) bad("deflate", "what the client sends cannot be inflated");
}
void Snd::op()
{
    if (!a.attempt) return;
    switch (weighted({10, 4, 5, 5, 3, 4, sm ? 3u : 0u, 3, 1})) {
    case 0: send_one(); break;
    case 1: { unsigned n = 2 + draw(6); while (n--) send_one(); break; }
    case 2: drop(true); break;
    case 3: drop(false); break;
    case 4: check_len("at some point"); break;
    case 5: policy(); break;
    case 6: if (x->sm_on && x->up && !x->we_closed) { x->out(element("r", NS_SM)); } break;
    case 7: srv_send(); break;
    default: if (coin(300) && !zip) { // a library-owned element in between
            Item i; i.user = false; i.pat = 1;
            if (!closing) { q.push_back(i); xmpp_send_error(a.conn, XMPP_SE_INVALID_XML, (char *)"no <reason>"); trace("  APP: xmpp_send_error"); }
        } break;
    }
    unsigned n = weighted({4, 5, 2, 1});
    while (n-- && a.attempt) { a.iter(draw(2) ? 0 : 20); if (a.attempt) match(); }
    if (a.attempt && coin(400)) check_len("after a loop iteration");
}
void Snd::after_loss()
{
    match();                     // what was received is a prefix
    if (!exact) return;
    check_len("after the connection was lost");
    path += "L";
    if (sm) return;
    x = nullptr;
    unsigned n = small(4);
    while (n--) drop(draw(2));
    note("queue inspected after the loss");
}
void Snd::run()
{
    AppCfg c;
    XConf k;
    bool c20 = a.prop == "C20";
    sm = coin(400);
    tls = coin(c20 ? 250 : 150);
    zip = c20 || coin(100);
    c.flags = tls ? 0 : XMPP_CONN_FLAG_DISABLE_TLS;
    if (!sm) c.flags |= XMPP_CONN_FLAG_DISABLE_SM;
    if (zip) c.flags |= XMPP_CONN_FLAG_ENABLE_COMPRESSION;
    if (zip && coin(400)) c.flags |= XMPP_CONN_FLAG_COMPRESSION_DONT_RESET;
    c.sm_cb = sm && coin(300);
    c.user = "user"; c.jid = "user@example.com/res"; c.resource = "res";
    k.user = c.user; k.pass = c.pass; k.domain = c.domain; k.tls = tls; k.zlib = zip; k.sm = sm;
    k.mech_plain = k.mech_tls = {coin(500) ? "PLAIN" : "SCRAM-SHA-1"};
    k.session = coin(200) ? 2 : 0;
    opaque = !c20 && !sm && coin(400);
    exact = !(opaque && coin(100));
    path = fmt("%s%s%s%s", tls ? "T" : "", zip ? "Z" : "", sm ? "M" : "", opaque ? "o" : "");
    note(fmt("%s%s%s", tls ? "tls " : "plain ", zip ? "zlib " : "", sm ? "sm" : ""));
    unsigned conns = 1 + (sm ? 0 : small(2));
    static const unsigned LV[] = {Z_DEFAULT_COMPRESSION + 0u, 0, 1, 9};
    a.start(c);
    int lv = (int)LV[draw(4)];
    a.net.tweak = [this, lv](XServ &s, const char *step, Str &rep) {
        (void)rep;
        s.zlevel = lv;
        if (!strcmp(step, "features")) s.frag = burst_ok;
        return false;
    };
    for (unsigned i = 0; i < conns; i++) {
        q.clear(); inb.clear(); base = 0; closing = false;
        sim.rmode = (int)weighted({5, 3, 1});
        burst_ok = coin(300);
        if (!up(c, k)) break;
        if (sm && !x->sm_on) bad("no-sm", "stream management was not enabled");
        if (zip && !x->z_on) bad("no-zip", "compression was offered and not negotiated");
        a.iter(0);
        policy();
        unsigned nops = 3 + small(25);
        while (nops-- && a.attempt) op();
        if (!a.attempt) bad("lost", "the connection was lost although nothing went wrong");
        switch (weighted({4, 4, 3, 2, zip && !opaque ? 2u : 0u})) {
        case 4: // the compressed stream is finished: what it contains is still delivered
            drain(false);
            if (!a.attempt || !x || x->we_closed) break;
            finish_z = true;
            srv_send();
            finish_z = false;
            for (int j = 0; j < 400 && a.attempt && !inb.empty(); j++) a.iter(20);
            if (!inb.empty()) bad("inbound-finish", fmt("%zu stanzas in the last block of the compressed stream are not dispatched", inb.size()));
            x->close_tcp(false);
            a.until([&] { return !a.attempt; }, 30000, 50);
            after_loss();
            note("compressed stream finished");
            path += "E";
            break;
        case 0: drain(false); path += "d"; break;
        case 1: drain(true); path += "D"; break;
        case 2: // the transport fails
            policy(); fatal = true;
            for (int j = 0; j < 6 && a.attempt; j++) op();
            sim.rmode = 0;
            if (a.attempt) x->close_tcp(true);
            a.until([&] { return !a.attempt; }, 30000, 50);
            after_loss();
            path += "F";
            break;
        default: drain(false); break;
        }
        if (a.attempt) {
            // the end of the stream comes after everything else
            Item e; e.user = false; e.pat = 2;
            policy();
            while (coin(600)) send_one();
            closing = true;
            q.push_back(e);
            a.disconnect();
            if (coin(500) && a.attempt) { drop(draw(2)); check_len("while closing"); }
            for (int j = 0; j < 3 && a.attempt; j++) { a.iter(10); if (a.attempt) check_len("while closing"); }
            pol = 0; sim.rmode = 0;
            a.until([&] { return !a.attempt; }, 30000, 50);
            match();
            if (!q.empty() && sim.now < 0) bad("not-sent", "elements submitted before xmpp_disconnect are missing");
            path += "C";
        }
        a.chk("C01 C06 C20", !a.attempt, "never-ends", "the connection does not end");
        sim.wpolicy = nullptr;
    }
    if (nshort || nagain || ndrop || (c20 && nsent)) nontrivial();
    fingerprint(path + fmt("|%u %u %u %u %u %u", nsent, ndrop, nshort, nagain, nlib, nin));
    if (want_sample()) sample(fmt("%s: %u elements submitted, %u dropped, %u short writes, %u refused writes, %u library elements seen, %u length checks, %u received", path.c_str(), nsent, ndrop, nshort, nagain, nlib, nlen, nin));
    note("elements submitted", nsent); note("drops", ndrop); note("short writes", nshort); note("refused writes", nagain);
    a.finish();
}
static void send_case(const char *p) { Snd s(p); app_run(s.a, [&] { s.run(); }); }
static void c06() { send_case("C06"); }
static void c20() { send_case("C20"); }
PROP(c06, "C06", c06, 20000, 1000000, "a case = one to three connections (plain, TLS, zlib, with or without stream management) over a transport that accepts per write everything, a few bytes, nothing, or fails with EAGAIN or EINTR by a drawn policy that changes over time; elements of drawn sizes (also arbitrary bytes) are submitted by all three send functions and from callbacks, the oldest or youngest is dropped, the length is asked for; then the transport recovers, fails or the stream is closed. Non-trivial: a write was short or refused, or an element was dropped. Oracle: FIFO model against the bytes the server received, reported length and dropped text against the model", 0, nullptr, 30, {"under TLS and compression the library may hold data of an element before the server can see any of it; the reported length may then be lower by what is held"});
PROP(c20, "C20", c20, 12000, 600000, "a case = one to three connections with zlib (with or without TLS and stream management, either flush mode) to a server that inflates and deflates independently with drawn levels and flush modes, compressed bytes in drawn pieces in both directions; sends, drops and inbound bursts as for C06. Non-trivial: something was sent. Oracle: FIFO model against what the server inflates, what was submitted before a loop iteration is complete after it, stanzas dispatched against what was deflated", 0, nullptr, 30, {});
