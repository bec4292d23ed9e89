// C11: handlers fire exactly when their filter matches, in order, and stay deleted.
#include "app.h"

namespace {
enum { NC = 2, NF = 5, NT = 3, NG = 3, NU = 3, NNS = 5 };
const char *NS_POOL[NNS] = {"jabber:client", "urn:a", "urn:b", "urn:c", "jabber:iq:roster"};
const char *NAME_POOL[] = {"message", "presence", "iq", "x"};
const char *TYPE_POOL[] = {"chat", "get", "set", "result", "error", "", "resul"};
struct Reg {                     // a registration
    uint64_t no;
    int cb, ud;
    bool alive = true;
    bool has_ns = false, has_name = false, has_type = false;
    Str ns, name, type, id;
    uint64_t period = 0, stamp = 0;
    uint64_t lo = 0, hi = 0;     // the period runs from somewhere between these
    uint64_t born_iter = 0;
};
typedef std::shared_ptr<Reg> R;
struct St { uint64_t n; Str id, ns, name, type; bool has_id = false, has_type = false; std::vector<Str> kid_ns; Str x; bool silent = false; };
struct World;
struct Mini : Peer {             // a server that negotiates the bare minimum
    World *w; int c; Sock *s = nullptr; Str in; int hdr = 0; bool bound = false, closed = false;
    void on_data(Sock *, const char *, size_t) override;
    void on_client_close(Sock *) override { closed = true; }
};
struct C {
    xmpp_conn_t *conn = nullptr;
    bool raw = true, attempt = false, up = false;
    uint64_t t_hdr = 0;
    std::unique_ptr<Mini> peer;
    std::vector<std::unique_ptr<Mini>> old;
    std::vector<R> hs, ids, ts;
    std::deque<St> pending;      // sent, and not known to have been dispatched
    bool active = false;         // a stanza is being dispatched
    St cur; std::vector<R> snap; size_t pos = 0;
    std::vector<R> cur_ids_end;
};
struct World {
    VMem vm;
    xmpp_ctx_t *ctx = nullptr;
    C c[NC]; int nc = 1;
    std::vector<R> gs;
    uint64_t reg_no = 0, st_no = 0, iter_no = 0;
    unsigned budget = 0;         // operations left
    bool in_cb = false;
    unsigned fired = 0, fired_timed = 0, mutations = 0, reconnects = 0;
    R firing; bool self_deleted = false, self_readded = false;
    int id_pool = 6;
    void chk(bool ok, const char *sig, const Str &m) { if (!ok) fail(sig, "%s", m.c_str()); }
    int index(xmpp_conn_t *x) { for (int i = 0; i < nc; i++) if (c[i].conn == x) return i; return -1; }
    Str show(const R &r) { return fmt("handler %d/%d (registration %llu)", r->cb, r->ud, (unsigned long long)r->no); }
    bool matches(const Reg &r, const St &s)
    {
        if (!r.id.empty()) return s.has_id && s.id == r.id;
        if (r.has_ns) {
            bool any = s.ns == r.ns;
            for (auto &k : s.kid_ns) if (k == r.ns) any = true;
            if (!any) return false;
        }
        if (r.has_name && s.name != r.name) return false;
        if (r.has_type && (!s.has_type || s.type != r.type)) return false;
        return true;
    }
    std::vector<R> expect(C &k, const St &s)
    {
        std::vector<R> v;
        for (auto &r : k.ids) if (r->alive && matches(*r, s)) v.push_back(r);
        for (auto &r : k.hs) if (r->alive && matches(*r, s)) v.push_back(r);
        return v;
    }
    // something other than a dispatched stanza is about to change the lists
    void before_change()
    {
        for (int i = 0; i < nc; i++) {
            end_dispatch(c[i]);
            mark(c[i]);
        }
    }
    void mark(C &k)
    {
        {
            for (auto &s : k.pending) { if (!s.silent) s.silent = expect(k, s).empty(); if (!s.silent) break; }
        }
    }
    void end_dispatch(C &k)
    {
        if (!k.active) return;
        k.active = false;
        for (size_t i = k.pos; i < k.snap.size(); i++)
            if (k.snap[i]->alive && matches(*k.snap[i], k.cur)) { chk(false, "not-called", fmt("%s matches stanza %llu %s and was not called", show(k.snap[i]).c_str(), (unsigned long long)k.cur.n, esc(k.cur.x, 300).c_str())); return; }
    }
    void passed(C &k, const St &s)   // dispatched without a call
    {
        if (s.silent) return;
        auto v = expect(k, s);
        if (!v.empty()) chk(false, "not-called", fmt("%s matches stanza %llu %s and was not called", show(v[0]).c_str(), (unsigned long long)s.n, esc(s.x, 300).c_str()));
    }
    void begin_dispatch(int ci, uint64_t n)
    {
        for (int i = 0; i < nc; i++) end_dispatch(c[i]);
        C &k = c[ci];
        while (!k.pending.empty() && k.pending.front().n != n) { passed(k, k.pending.front()); k.pending.pop_front(); }
        if (k.pending.empty()) { chk(false, "unknown-stanza", fmt("a handler is called for stanza %llu, which was not sent or had been dispatched before", (unsigned long long)n)); return; }
        k.cur = k.pending.front(); k.pending.pop_front();
        k.active = true;
        k.snap = expect(k, k.cur);
        k.pos = 0;
    }
    void flush(C &k)
    {
        end_dispatch(k);
        while (!k.pending.empty()) { passed(k, k.pending.front()); k.pending.pop_front(); }
    }
    // ---- operations ---------------------------------------------------------------------------
    Str rnd_id() { return fmt("id%u", draw(id_pool)); }
    void op();
    int behave(std::vector<R> *, R r);
    int on_stanza(int cb, xmpp_conn_t *conn, xmpp_stanza_t *s, void *ud);
    int on_timed(int cb, xmpp_conn_t *conn, void *ud);
    int on_global(int cb, void *ud);
    void iterate(unsigned long timeout);
    void send(int ci, unsigned n);
    void connect(int ci);
    void drain();
};
World *W;
int UD[NU];
template <int I> int fh(xmpp_conn_t *c, xmpp_stanza_t *s, void *u) { return W->on_stanza(I, c, s, u); }
template <int I> int ft(xmpp_conn_t *c, void *u) { return W->on_timed(I, c, u); }
template <int I> int fg(xmpp_ctx_t *, void *u) { return W->on_global(I, u); }
xmpp_handler FH[NF] = {fh<0>, fh<1>, fh<2>, fh<3>, fh<4>};
xmpp_timed_handler FT[NT] = {ft<0>, ft<1>, ft<2>};
xmpp_global_timed_handler FG[NG] = {fg<0>, fg<1>, fg<2>};

R find(std::vector<R> &v, int cb, int ud, const Str &id = "") { for (auto &r : v) if (r->alive && r->cb == cb && r->ud == ud && r->id == id) return r; return nullptr; }
void purge(std::vector<R> &v) { v.erase(std::remove_if(v.begin(), v.end(), [](const R &r) { return !r->alive; }), v.end()); }
uint64_t gen_period() { switch (draw(6)) { case 0: return 0; case 1: return 1; case 2: return 100 * (1 + draw(20)); case 3: return 1000 * (1 + draw(20)); case 4: return draw(500); default: return 7 + draw(5000); } }

void World::op()
{
    C &k = c[draw(nc)];
    int ci = (int)(&k - c);
    auto is_self = [&](const R &r) { return firing && r == firing; };
    mutations++;
    switch (weighted({20, 14, 10, 10, 10, 6, 6, 4, 8, 6})) {
    case 0: {
        int cb = draw(NF), ud = draw(NU);
        R r = std::make_shared<Reg>();
        r->cb = cb; r->ud = ud;
        if (coin(400)) { r->has_ns = true; r->ns = NS_POOL[draw(NNS)]; }
        if (coin(400)) { r->has_name = true; r->name = NAME_POOL[draw(4)]; }
        if (coin(300)) { r->has_type = true; r->type = TYPE_POOL[draw(7)]; }
        bool dup = find(k.hs, cb, ud) != nullptr;
        trace("  op: conn %d add stanza handler %d/%d ns=%s name=%s type=%s%s", ci, cb, ud, r->has_ns ? r->ns.c_str() : "-", r->has_name ? r->name.c_str() : "-", r->has_type ? r->type.c_str() : "-", dup ? " (again)" : "");
        // the caller's strings are gone afterwards
        Str a = r->ns, b = r->name, t = r->type;
        xmpp_handler_add(k.conn, FH[cb], r->has_ns ? a.c_str() : nullptr, r->has_name ? b.c_str() : nullptr, r->has_type ? t.c_str() : nullptr, &UD[ud]);
        if (!dup) { r->no = ++reg_no; k.hs.push_back(r); if (firing && self_deleted && firing->id.empty() && firing->cb == cb && firing->ud == ud) self_readded = true; }
        else note("registered again");
        break;
    }
    case 1: {
        int cb = draw(NF), ud = draw(NU);
        R r = std::make_shared<Reg>();
        r->cb = cb; r->ud = ud; r->id = rnd_id();
        bool dup = find(k.ids, cb, ud, r->id) != nullptr;
        trace("  op: conn %d add id handler %d/%d id=%s%s", ci, cb, ud, r->id.c_str(), dup ? " (again)" : "");
        Str id = r->id;
        xmpp_id_handler_add(k.conn, FH[cb], id.c_str(), &UD[ud]);
        if (!dup) { r->no = ++reg_no; k.ids.push_back(r); if (firing && self_deleted && firing->id == id && firing->cb == cb && firing->ud == ud) self_readded = true; }
        else note("registered again");
        break;
    }
    case 2: {
        int cb = draw(NF);
        if (firing && coin(400)) cb = firing->cb;
        trace("  op: conn %d delete stanza handler %d", ci, cb);
        for (auto &r : k.hs) if (r->alive && r->cb == cb) { if (is_self(r)) self_deleted = true; r->alive = false; note("deleted"); }
        xmpp_handler_delete(k.conn, FH[cb]);
        break;
    }
    case 3: {
        int cb = draw(NF);
        Str id = rnd_id();
        if (firing && !firing->id.empty() && coin(500)) { id = firing->id; if (coin(500)) cb = firing->cb; }
        trace("  op: conn %d delete id handler %d id=%s", ci, cb, id.c_str());
        for (auto &r : k.ids) if (r->alive && r->cb == cb && r->id == id) { if (is_self(r)) self_deleted = true; r->alive = false; note("deleted"); }
        xmpp_id_handler_delete(k.conn, FH[cb], id.c_str());
        break;
    }
    case 4: {
        int cb = draw(NT), ud = draw(NU);
        uint64_t p = gen_period();
        bool dup = find(k.ts, cb, ud) != nullptr;
        trace("  op: conn %d add timed handler %d/%d period %llu%s", ci, cb, ud, (unsigned long long)p, dup ? " (again)" : "");
        if (!dup) {
            R r = std::make_shared<Reg>();
            r->no = ++reg_no; r->cb = cb; r->ud = ud; r->period = p; r->lo = r->hi = sim.now; r->born_iter = iter_no;
            if (firing && self_deleted && firing->cb == cb && firing->ud == ud) self_readded = true;
            k.ts.push_back(r);
        }
        xmpp_timed_handler_add(k.conn, FT[cb], p, &UD[ud]);
        break;
    }
    case 5: {
        int cb = draw(NT);
        trace("  op: conn %d delete timed handler %d", ci, cb);
        for (auto &r : k.ts) if (r->alive && r->cb == cb) { if (is_self(r)) self_deleted = true; r->alive = false; }
        xmpp_timed_handler_delete(k.conn, FT[cb]);
        break;
    }
    case 6: {
        int cb = draw(NG), ud = draw(NU);
        uint64_t p = gen_period();
        bool dup = find(gs, cb, ud) != nullptr;
        trace("  op: add global handler %d/%d period %llu%s", cb, ud, (unsigned long long)p, dup ? " (again)" : "");
        if (!dup) {
            R r = std::make_shared<Reg>();
            r->no = ++reg_no; r->cb = cb; r->ud = ud; r->period = p; r->lo = r->hi = sim.now; r->born_iter = iter_no;
            if (firing && self_deleted && firing->cb == cb && firing->ud == ud) self_readded = true;
            gs.push_back(r);
        }
        xmpp_global_timed_handler_add(ctx, FG[cb], p, &UD[ud]);
        break;
    }
    case 7: {
        int cb = draw(NG);
        trace("  op: delete global handler %d", cb);
        for (auto &r : gs) if (r->alive && r->cb == cb) { if (is_self(r)) self_deleted = true; r->alive = false; }
        xmpp_global_timed_handler_delete(ctx, FG[cb]);
        break;
    }
    case 8: {
        if (!k.up) break;
        trace("  op: conn %d send", ci);
        xmpp_stanza_t *m = xmpp_message_new(ctx, "chat", "a@b", "out");
        xmpp_send(k.conn, m);
        xmpp_stanza_release(m);
        break;
    }
    default: {
        uint64_t d = draw(3) ? draw(300) : draw(4000);
        trace("  op: busy for %llu ms", (unsigned long long)d);
        sim.advance(sim.now + d);
    }
    }
}
// the body of a callback: a few operations, then whether it wants to stay
int World::behave(std::vector<R> *, R r)
{
    in_cb = true;
    firing = r; self_deleted = self_readded = false;
    unsigned n = budget ? (unsigned)weighted({60, 20, 10, 10}) : 0;
    n = std::min(n, budget);
    budget -= n;
    while (n-- && !failed()) op();
    bool stay = coin(250) ? false : true;
    if (!budget) stay = draw(4) != 3;
    if (self_readded) stay = true;       // what false means then is not specified
    if (!stay) { r->alive = false; trace("  -> false"); }
    firing = nullptr;
    in_cb = false;
    return stay;
}
int World::on_stanza(int cb, xmpp_conn_t *conn, xmpp_stanza_t *s, void *ud)
{
    int ci = index(conn), u = (int)((int *)ud - UD);
    const char *ns_ = xmpp_stanza_get_attribute(s, "n"), *id = xmpp_stanza_get_id(s), *nm = xmpp_stanza_get_name(s);
    if (ci < 0 || u < 0 || u >= NU) { chk(false, "arguments", "a handler is called with a wrong connection or user data"); return 1; }
    C &k = c[ci];
    if (!ns_) { // not ours: the reply that completed the negotiation
        chk(k.attempt && k.up, "too-early", fmt("handler %d/%d is called for <%s id='%s'/> before the connection is up", cb, u, nm ? nm : "", id ? id : ""));
        return 1;
    }
    uint64_t n = strtoull(ns_, nullptr, 10);
    trace("  call: handler %d/%d, conn %d, stanza %llu", cb, u, ci, (unsigned long long)n);
    fired++;
    if (!k.up) { chk(false, "not-connected", fmt("handler %d/%d is called while the connection is not up", cb, u)); return 1; }
    if (!k.active || k.cur.n != n) begin_dispatch(ci, n);
    if (failed()) return 1;
    // the next one that is still registered and matches
    while (k.pos < k.snap.size() && !k.snap[k.pos]->alive) k.pos++;
    if (k.pos >= k.snap.size()) {
        chk(false, "called-wrongly", fmt("handler %d/%d is called for stanza %llu %s, for which no (further) handler is due", cb, u, (unsigned long long)n, esc(k.cur.x, 300).c_str()));
        return 1;
    }
    R r = k.snap[k.pos];
    if (r->cb != cb || r->ud != u) {
        chk(false, "order", fmt("handler %d/%d is called for stanza %llu %s, %s is due", cb, u, (unsigned long long)n, esc(k.cur.x, 300).c_str(), show(r).c_str()));
        return 1;
    }
    k.pos++;
    for (int i = 0; i < nc; i++) if (i != ci) mark(c[i]);
    return behave(nullptr, r);
}
int World::on_timed(int cb, xmpp_conn_t *conn, void *ud)
{
    before_change();
    int ci = index(conn), u = (int)((int *)ud - UD);
    if (ci < 0 || u < 0 || u >= NU) { chk(false, "arguments", "a timed handler is called with a wrong connection or user data"); return 1; }
    C &k = c[ci];
    trace("  [%llu] call: timed %d/%d, conn %d", (unsigned long long)(sim.now - SIM_EPOCH), cb, u, ci);
    fired_timed++;
    R r = find(k.ts, cb, u);
    if (!r) { chk(false, "timed-deleted", fmt("timed handler %d/%d is called although it is not registered", cb, u)); return 1; }
    if (!k.up) { chk(false, "timed-not-connected", fmt("timed handler %d/%d is called while the connection is not up", cb, u)); return 1; }
    if (sim.now - r->lo < r->period) { chk(false, "timed-early", fmt("timed handler %d/%d with period %llu is called %llu ms after it was registered, re-armed or last fired", cb, u, (unsigned long long)r->period, (unsigned long long)(sim.now - r->lo))); return 1; }
    r->lo = r->hi = sim.now;
    r->stamp = iter_no;
    return behave(nullptr, r);
}
int World::on_global(int cb, void *ud)
{
    before_change();
    int u = (int)((int *)ud - UD);
    if (u < 0 || u >= NU) { chk(false, "arguments", "a global handler is called with wrong user data"); return 1; }
    trace("  [%llu] call: global %d/%d", (unsigned long long)(sim.now - SIM_EPOCH), cb, u);
    fired_timed++;
    R r = find(gs, cb, u);
    if (!r) { chk(false, "timed-deleted", fmt("global handler %d/%d is called although it is not registered", cb, u)); return 1; }
    if (sim.now - r->lo < r->period) { chk(false, "timed-early", fmt("global handler %d/%d with period %llu is called %llu ms after it was registered or last fired", cb, u, (unsigned long long)r->period, (unsigned long long)(sim.now - r->lo))); return 1; }
    r->lo = r->hi = sim.now;
    r->stamp = iter_no;
    return behave(nullptr, r);
}
void conn_event(xmpp_conn_t *conn, xmpp_conn_event_t ev, int, xmpp_stream_error_t *, void *)
{
    World &w = *W;
    int ci = w.index(conn);
    if (ci < 0) return;
    C &k = w.c[ci];
    trace("  [%llu] conn %d event %d", (unsigned long long)(sim.now - SIM_EPOCH), ci, ev);
    w.before_change();
    if (ev == XMPP_CONN_RAW_CONNECT) {
        k.up = true;
        for (auto &r : k.ts) { r->lo = r->hi = sim.now; }
        xmpp_conn_open_stream_default(conn);
    } else if (ev == XMPP_CONN_CONNECT) {
        k.up = true;
        for (auto &r : k.ts) {
            if (k.raw) r->lo = r->hi = sim.now;
            // some time between the server's first header and now
            else { r->lo = std::max(r->lo, k.t_hdr); r->hi = std::max(r->hi, sim.now); }
        }
    } else {
        // stanzas that were not read yet are lost
        k.pending.clear();
        k.up = false; k.attempt = false;
    }
    // handlers added here must not see the stanza that completed the negotiation
    if (ev != XMPP_CONN_DISCONNECT && w.budget && coin(300)) { w.budget--; w.op(); }
}
void Mini::on_data(Sock *sk, const char *d, size_t n)
{
    in.append(d, n);
    C &k = w->c[c];
    Str hdrx = "<?xml version='1.0'?><stream:stream xmlns='jabber:client' xmlns:stream='http://etherx.jabber.org/streams' from='example.com' id='s' version='1.0'>";
    size_t p;
    if ((p = in.find("<stream:stream")) != Str::npos && in.find('>', p) != Str::npos) {
        in.erase(0, in.find('>', p) + 1);
        hdr++;
        if (hdr == 1) k.t_hdr = sim.now;
        Str f;
        if (!k.raw) f = hdr == 1 ? "<stream:features><mechanisms xmlns='urn:ietf:params:xml:ns:xmpp-sasl'><mechanism>ANONYMOUS</mechanism></mechanisms></stream:features>" : "<stream:features><bind xmlns='urn:ietf:params:xml:ns:xmpp-bind'/></stream:features>";
        sim.push(sk, hdrx + f);
    }
    if (k.raw || bound) { in.clear(); return; }
    if (in.find("<auth") != Str::npos && in.find('>', in.find("<auth")) != Str::npos) { in.clear(); sim.push(sk, "<success xmlns='urn:ietf:params:xml:ns:xmpp-sasl'/>"); }
    if (in.find("_xmpp_bind1") != Str::npos && in.find("</iq>") != Str::npos) {
        bound = true;
        in.clear();
        sim.push(sk, "<iq type='result' id='_xmpp_bind1'><bind xmlns='urn:ietf:params:xml:ns:xmpp-bind'><jid>u@example.com/r</jid></bind></iq>");
    }
}
void World::connect(int ci)
{
    C &k = c[ci];
    if (k.attempt) return;
    trace("connect %d (%s)", ci, k.raw ? "raw" : "client");
    if (k.peer) k.old.push_back(std::move(k.peer));
    k.peer.reset(new Mini); k.peer->w = this; k.peer->c = ci;
    sim.accept = [this, ci](Sock *s) { if (c[ci].peer) { s->peer = c[ci].peer.get(); c[ci].peer->s = s; } };
    sim.enter_loop(1000);
    k.attempt = true;
    int rc = k.raw ? xmpp_connect_raw(k.conn, "10.0.0.1", 5222, conn_event, nullptr) : xmpp_connect_client(k.conn, "10.0.0.1", 5222, conn_event, nullptr);
    sim.leave_loop();
    if (rc != 0) { k.attempt = false; fail("connect", "connect returned %d", rc); return; }
    // the socket is accepted in a following iteration
    for (int i = 0; i < 60 && !failed() && k.attempt && !(k.up && (k.raw ? k.peer->hdr > 0 : k.peer->bound)); i++) iterate(50 + draw(200));
}
void World::send(int ci, unsigned n)
{
    C &k = c[ci];
    if (!k.up || !k.peer || !k.peer->s || k.peer->closed) return;
    Str seg;
    while (n--) {
        St s;
        s.n = ++st_no;
        s.name = NAME_POOL[draw(4)];
        s.ns = "jabber:client";
        Str a, decl, kids;
        if (coin(250)) { s.ns = NS_POOL[draw(NNS)]; decl = " xmlns='" + s.ns + "'"; }
        if (coin(700)) { s.has_id = true; s.id = rnd_id(); a += " id='" + s.id + "'"; }
        if (coin(600)) { s.has_type = true; s.type = TYPE_POOL[draw(7)]; a += " type='" + s.type + "'"; }
        unsigned m = draw(3);
        for (unsigned i = 0; i < m; i++) {
            switch (draw(4)) {
            case 0: kids += "text"; break;
            case 1: kids += "<body>b</body>"; s.kid_ns.push_back(s.ns); break;
            case 2: { const char *u = NS_POOL[draw(NNS)]; kids += Str("<query xmlns='") + u + "'/>"; s.kid_ns.push_back(u); break; }
            // a grandchild does not count
            default: { const char *u = NS_POOL[draw(NNS)]; kids += Str("<y><query xmlns='") + u + "'/></y>"; s.kid_ns.push_back(s.ns); break; }
            }
        }
        s.x = "<" + s.name + decl + a + fmt(" n='%llu'>", (unsigned long long)s.n) + kids + "</" + s.name + ">";
        trace("server %d: %s", ci, s.x.c_str());
        fingerprint(s.x);
        seg += s.x;
        k.pending.push_back(s);
    }
    sim.push(k.peer->s, seg, draw(3) ? 0 : draw(300));
}
void World::iterate(unsigned long timeout)
{
    if (failed()) throw CaseAbort();
    iter_no++;
    // what is due at the start of an iteration fires in it
    struct Due { R r; int ci; };
    std::vector<Due> due;
    for (int i = 0; i < nc; i++) for (auto &r : c[i].ts) if (r->alive && c[i].up && sim.now - r->hi >= r->period) due.push_back({r, i});
    for (auto &r : gs) if (r->alive && sim.now - r->hi >= r->period) due.push_back({r, -1});
    bool was_up[NC];
    for (int i = 0; i < NC; i++) was_up[i] = c[i].up;
    sim.enter_loop(timeout);
    xmpp_run_once(ctx, timeout);
    sim.leave_loop();
    if (failed()) throw CaseAbort();
    if (vm.bad) fail("allocator", "%s", vm.badmsg.c_str());
    for (auto &d : due) {
        if (!d.r->alive || d.r->stamp == iter_no) continue;
        if (d.ci >= 0 && (!c[d.ci].up || !was_up[d.ci])) continue;
        // re-armed by a stream start in this iteration
        if (sim.now - d.r->hi < d.r->period) continue;
        chk(false, "timed-late", fmt("%s timed %s with period %llu was due at the start of an iteration and did not fire in it", d.ci < 0 ? "global" : "connection", show(d.r).c_str(), (unsigned long long)d.r->period));
    }
    for (int i = 0; i < nc; i++) {
        // everything that was sent has been read and dispatched
        C &k = c[i];
        if (k.peer && k.peer->s && k.peer->s->rx.empty() && k.up) flush(k);
        else end_dispatch(k);
        purge(k.hs); purge(k.ids); purge(k.ts);
    }
    purge(gs);
    if (failed()) throw CaseAbort();
}
void World::drain()
{
    for (int i = 0; i < 30; i++) {
        bool any = false;
        for (int j = 0; j < nc; j++) if (c[j].up && c[j].peer && c[j].peer->s && !c[j].peer->s->rx.empty()) any = true;
        if (!any) break;
        iterate(400);
    }
}
void run_world()
{
    World w;
    W = &w;
    sim.begin();
    sim.resolve = [](const Str &, std::vector<Addr> &v) { Addr a; a.ip = "10.0.0.1"; v.push_back(a); return true; };
    w.ctx = xmpp_ctx_new(&w.vm.mem, vlog());
    try {
        w.nc = 1 + (int)draw(2);
        w.id_pool = coin(300) ? 60 : 3 + (int)draw(5);
        for (int i = 0; i < w.nc; i++) {
            C &k = w.c[i];
            k.raw = draw(4) != 3;
            k.conn = xmpp_conn_new(w.ctx);
            xmpp_conn_set_flags(k.conn, XMPP_CONN_FLAG_DISABLE_TLS);
            xmpp_conn_set_jid(k.conn, "example.com");
        }
        w.budget = 1000;
        unsigned n0 = draw(12);
        while (n0--) w.op();
        w.budget = 4 + draw(24);
        unsigned steps = 3 + draw(14);
        while (steps--) {
            int ci = (int)draw(w.nc);
            C &k = w.c[ci];
            switch (weighted({45, 15, 12, 8, 12, 4})) {
            case 0:
                if (!k.attempt) w.connect(ci);
                w.send(ci, 1 + draw(draw(3) ? 3 : 8));
                if (draw(3)) w.drain();
                break;
            case 1: w.before_change(); { unsigned n = 1 + draw(4); while (n--) w.op(); } break;
            case 2: w.iterate(draw(2) ? draw(200) : draw(5000)); break;
            case 3: { uint64_t d = draw(6000); trace("idle %llu ms", (unsigned long long)d); sim.advance(sim.now + d); break; }
            case 4: { unsigned n = 1 + draw(10); while (n--) w.iterate(10 + draw(700)); break; }
            default:
                if (k.attempt && k.up && k.peer && k.peer->s) {
                    w.drain();
                    trace("conn %d is closed", ci);
                    if (!k.up) break;
                    if (draw(2)) sim.push(k.peer->s, "</stream:stream>");
                    sim.fin(k.peer->s);
                    for (int i = 0; i < 20 && k.attempt; i++) w.iterate(200);
                    if (k.attempt) fail("no-disconnect", "the connection does not end");
                    w.reconnects++;
                    note("reconnects");
                }
            }
            if (failed()) throw CaseAbort();
        }
        w.drain();
        for (int i = 0; i < 3; i++) w.iterate(300);
        note("stanza handler calls", w.fired);
        note("timed handler calls", w.fired_timed);
        note("stanzas", w.st_no);
        if (w.fired && w.mutations) nontrivial();
        if (w.nc > 1) note("two connections");
        if (want_sample()) sample(fmt("%d connection(s), %llu stanzas, %u operations, %u calls, %u timed calls", w.nc, (unsigned long long)w.st_no, w.mutations, w.fired, w.fired_timed));
        for (int i = 0; i < w.nc; i++) {
            w.budget = 0;
            sim.enter_loop(1000);
            xmpp_conn_release(w.c[i].conn);
            sim.leave_loop();
            w.c[i].conn = nullptr;
        }
        xmpp_ctx_free(w.ctx);
        if (!failed() && w.vm.bad) fail("allocator", "%s", w.vm.badmsg.c_str());
        if (!failed() && !w.vm.live.empty()) fail("handler-leak", "%zu blocks are left", w.vm.live.size());
    } catch (CaseAbort &) {}
    sim.end();
    W = nullptr;
}
}
static void run_c11() { run_world(); }
PROP(c11, "C11", run_c11, 150000, 6000000, "at least one stanza handler was called and handlers were added or deleted");
