// C14: every candidate endpoint is tried, in order, before the client gives up.
#include "app.h"

namespace {
const int NC = 2;
template <class T> T pk(std::initializer_list<T> l) { return l.begin()[draw((uint32_t)l.size())]; }
struct Target { Str host; int port = 0, prio = 0, weight = 0; std::vector<Addr> addrs; Str wire_host; bool dot = false; };
struct World;
struct Cap : Peer {              // records what the client writes
    World *w; int c; Sock *s; Str in; bool closed = false;
    void on_data(Sock *, const char *d, size_t n) override;
    void on_client_close(Sock *) override { closed = true; }
};
struct C {
    xmpp_conn_t *conn = nullptr;
    int kind = 0; bool legacy = false;
    Str jid, domain, alt; unsigned port = 0;
    // the attempt
    bool attempt = false, over = false, srv_ok = false, bypass = false, optional_srv = false;
    std::vector<std::vector<std::vector<Target>>> orders; // acceptable lists; each is a sequence of groups of equal rank
    size_t total = 0;
    struct Seen { Str addr; int port; bool skip; };
    std::vector<Seen> seen;
    std::vector<ConnectPlan> outs;
    std::set<size_t> so_fail; bool so = false; int so_errno = 1; bool so_scribble = false; size_t so_calls = 0; bool armed = false;
    uint64_t t_last = 0, fin_at = 0; int last_mode = -1; // fin_at: when the last attempt is over
    bool accepted = false; uint64_t t_acc = 0;
    int n_raw = 0, n_up = 0, n_down = 0;
    std::vector<std::unique_ptr<Cap>> peers;
    int attempts = 0;
    unsigned srv_queries = 0;
    Str answer;                  // DNS message, empty: failure
    std::map<Str, std::vector<Addr>> hosts;
};
struct World {
    VMem vm;
    xmpp_ctx_t *ctx = nullptr;
    C c[NC]; int nc = 1;
    bool v6_off = false;
    int index(xmpp_conn_t *x) { for (int i = 0; i < nc; i++) if (c[i].conn == x) return i; return -1; }
};
World *W;
void Cap::on_data(Sock *, const char *d, size_t n) { in.append(d, n); }

// ---- DNS ------------------------------------------------------------------------------------
void be16(Str &s, unsigned v) { s += (char)(v >> 8); s += (char)v; }
Str dns_name(const Str &n)
{
    Str s;
    size_t i = 0;
    while (i < n.size()) {
        size_t j = n.find('.', i);
        if (j == Str::npos) j = n.size();
        s += (char)(j - i);
        s += n.substr(i, j - i);
        i = j + 1;
    }
    return s + Str(1, '\0');
}
Str dns_answer(const Str &q, const Str &domain, const std::vector<Target> &ts, bool noise)
{
    Str s;
    be16(s, draw(65536)); s += (char)0x81; s += (char)0x80;
    Str rr;
    unsigned n = 0;
    auto other = [&] {           // a record of another type
        n++;
        be16(rr, 0xc00c);
        unsigned k = draw(3);
        be16(rr, k == 0 ? 1 : k == 1 ? 5 : 16); be16(rr, 1); rr += Str("\0\0\1\0", 4);
        Str rd = k == 0 ? Str("\x0a\x09\x08\x07", 4) : k == 1 ? dns_name("other.example") : Str("\x03txt");
        be16(rr, (unsigned)rd.size()); rr += rd;
    };
    size_t qoff = 12;
    for (auto &t : ts) {
        if (noise && !draw(4)) other();
        n++;
        if (draw(5)) be16(rr, 0xc00c); else rr += dns_name(q);
        be16(rr, 33); be16(rr, 1); rr += Str("\0\0\1\x2c", 4);
        Str rd;
        be16(rd, (unsigned)t.prio); be16(rd, (unsigned)t.weight); be16(rd, (unsigned)t.port);
        size_t hl = t.host.size(), dl = domain.size();
        size_t dpos = q.size() - dl; // the domain within the question name: label lengths make offsets equal
        if (t.dot) rd += Str(1, '\0');
        else if (draw(2) && hl > dl + 1 && t.host.compare(hl - dl - 1, Str::npos, "." + domain) == 0) {
            Str h = dns_name(t.host.substr(0, hl - dl - 1));
            h.pop_back();
            rd += h;
            be16(rd, 0xc000 | (unsigned)(qoff + dpos));
        } else rd += dns_name(t.host);
        be16(rr, (unsigned)rd.size()); rr += rd;
    }
    if (noise && !draw(4)) other();
    bool ns = noise && draw(2);
    be16(s, 1); be16(s, n); be16(s, ns ? 1 : 0); be16(s, 0);
    s += dns_name(q); be16(s, 33); be16(s, 1);
    s += rr;
    if (ns) { be16(s, 0xc00c); be16(s, 2); be16(s, 1); s += Str("\0\0\1\0", 4); Str rd = dns_name("ns.example"); be16(s, (unsigned)rd.size()); s += rd; }
    return s;
}
// ---- the reference order --------------------------------------------------------------------
bool usable(const Addr &a) { return !(a.v6 && W->v6_off); }
size_t n_usable(const Target &t) { size_t n = 0; for (auto &a : t.addrs) n += usable(a); return n; }
bool match_group(const std::vector<Target> &g, std::vector<bool> &used, const std::vector<C::Seen> &seen, size_t &pos)
{
    // some order of the rest of the group explains what was seen from pos on
    if (pos >= seen.size()) { return true; }
    bool left = false;
    for (size_t i = 0; i < g.size(); i++) {
        if (used[i]) continue;
        left = true;
        size_t p = pos;
        bool ok = true;
        for (auto &a : g[i].addrs) {
            if (!usable(a)) continue;
            if (p >= seen.size()) break;
            if (!seen[p].skip && (seen[p].addr != a.ip || seen[p].port != g[i].port)) { ok = false; break; }
            p++;
        }
        if (!ok) continue;
        used[i] = true;
        size_t save = pos;
        pos = p;
        if (match_group(g, used, seen, pos)) return true;
        pos = save;
        used[i] = false;
    }
    return !left;
}
bool match(const std::vector<std::vector<Target>> &order, const std::vector<C::Seen> &seen)
{
    size_t pos = 0;
    for (auto &g0 : order) {
        std::vector<Target> g;
        for (auto &t : g0) if (n_usable(t)) g.push_back(t);
        std::vector<bool> used(g.size());
        if (!match_group(g, used, seen, pos)) return false;
        if (pos >= seen.size()) return true;
    }
    return pos >= seen.size();
}
size_t count(const std::vector<std::vector<Target>> &o) { size_t n = 0; for (auto &g : o) for (auto &t : g) n += n_usable(t); return n; }
Str show_order(C &k)
{
    Str s;
    for (size_t i = 0; i < k.orders.size(); i++) {
        if (i) s += " or ";
        for (auto &g : k.orders[i]) { s += "("; for (auto &t : g) for (auto &a : t.addrs) s += (usable(a) ? "" : "!") + a.ip + ":" + std::to_string(t.port) + " "; s += ")"; }
    }
    return s;
}
Str show_seen(C &k) { Str s; for (auto &x : k.seen) s += x.skip ? Str("* ") : x.addr + ":" + std::to_string(x.port) + " "; return s; }
// keeps the acceptable lists that agree with what was seen
void check_prefix(C &k)
{
    std::vector<std::vector<std::vector<Target>>> keep;
    for (auto &o : k.orders) if (match(o, k.seen)) keep.push_back(o);
    if (keep.empty()) {
        fail("order", "the attempts %sdo not follow the candidates %s", show_seen(k).c_str(), show_order(k).c_str());
        return;
    }
    k.orders = keep;
}
void must_be_exhausted(C &k, const char *how)
{
    for (auto &o : k.orders) if (count(o) == k.seen.size()) return;
    fail("gave-up-early", "%s after %zu of %zu candidates: tried %s of %s", how, k.seen.size(), count(k.orders[0]), show_seen(k).c_str(), show_order(k).c_str());
}
// ---- callbacks -------------------------------------------------------------------------------
void step_to_next(C &k, const char *what)
{
    if (k.accepted) { fail("connects-after-accept", "%s although an endpoint accepted", what); return; }
    if (k.last_mode >= 0 && sim.now < k.fin_at) {
        fail("abandoned", "%s %llu ms after the previous attempt, which %s", what, (unsigned long long)(sim.now - k.t_last),
             k.last_mode == 3 ? "has not timed out" : k.last_mode == 2 ? "has not failed yet" : "would be accepted");
        return;
    }
}
ConnectPlan on_connect(int ci, const Str &addr, int port)
{
    C &k = W->c[ci];
    step_to_next(k, "connect()");
    if (k.so && !k.armed) fail("no-sockopt-callback", "connect() without a call of the socket option callback");
    k.armed = false;
    k.seen.push_back({addr, port, false});
    check_prefix(k);
    size_t i = k.seen.size() - 1;
    ConnectPlan p;
    if (i < k.outs.size()) p = k.outs[i]; else p.mode = 1;
    k.t_last = sim.now;
    k.last_mode = p.mode;
    k.fin_at = p.mode == 1 || p.mode == 4 ? sim.now : p.mode == 3 ? sim.now + 5000 : sim.now + p.delay;
    if (p.mode == 0 || p.mode == 4) note("accepting endpoint"); else note(p.mode == 1 ? "refused at once" : p.mode == 2 ? "fails late" : "hangs");
    return p;
}
int so_cb(xmpp_conn_t *conn, void *sock)
{
    int ci = W->index(conn);
    if (ci < 0) { fail("wrong-conn", "the socket option callback got another connection"); return 0; }
    C &k = W->c[ci];
    k.so_calls++;
    if (k.so_scribble) *(int *)sock = -1;
    if (k.so_fail.count(k.seen.size())) {
        step_to_next(k, "the next candidate is used");
        trace("  socket option callback fails");
        k.seen.push_back({"", 0, true});
        check_prefix(k);
        k.last_mode = 1; k.t_last = k.fin_at = sim.now;
        errno = k.so_errno;
        return -1;
    }
    k.armed = true;
    return 0;
}
void conn_cb(xmpp_conn_t *conn, xmpp_conn_event_t ev, int error, xmpp_stream_error_t *, void *)
{
    int ci = W->index(conn);
    C &k = W->c[ci];
    trace("  [%llu] conn %d: event %d error %d", (unsigned long long)(sim.now - SIM_EPOCH), ci, (int)ev, error);
    if (ev == XMPP_CONN_DISCONNECT) {
        k.n_down++;
        k.over = true;
        if (!k.accepted) {
            if (k.last_mode >= 0 && sim.now < k.fin_at) fail("gave-up-early", "the failure is reported while the last attempt is in progress");
            must_be_exhausted(k, "the failure is reported");
        }
    } else if (ev == XMPP_CONN_RAW_CONNECT) {
        k.n_raw++;
        if (!k.accepted) fail("connect-without-accept", "RAW_CONNECT and no endpoint accepted");
        xmpp_conn_open_stream_default(conn);
    } else if (ev == XMPP_CONN_CONNECT) k.n_up++;
}
// ---- generator --------------------------------------------------------------------------------
int gen_u16() { switch (draw(6)) { case 0: return 0; case 1: return 1; case 2: return pk<int>({254, 255, 256, 257, 32767, 32768, 65535, 65534}); case 3: return (int)draw(65536); default: return (int)draw(5) * 10; } }
std::vector<Addr> gen_addrs(int ci, int tno, unsigned max)
{
    std::vector<Addr> v;
    unsigned n = weighted({12, 40, 24, 12, 8, 4});
    n = std::min(n, max);
    for (unsigned i = 0; i < n; i++) {
        Addr a;
        a.v6 = !draw(3);
        a.ip = a.v6 ? fmt("fd00::%d:%d:%d", ci + 1, tno + 1, i + 1) : fmt("10.%d.%d.%d", ci + 1, tno + 1, i + 1);
        v.push_back(a);
    }
    return v;
}
void gen_attempt(int ci)
{
    C &k = W->c[ci];
    k.attempt = true; k.over = k.accepted = false;
    k.seen.clear(); k.outs.clear(); k.orders.clear(); k.hosts.clear(); k.so_fail.clear();
    k.last_mode = -1; k.n_raw = k.n_up = k.n_down = 0; k.srv_queries = 0; k.so_calls = 0; k.answer.clear(); k.armed = false; k.optional_srv = false;
    k.alt = ""; k.port = 0;
    if (k.kind == 1) { k.alt = fmt("comp%d.host", ci); if (draw(2)) k.port = 1 + draw(65535); }
    else switch (weighted({70, 12, 12, 6})) {
    case 0: break;
    case 1: k.alt = draw(4) ? fmt("alt%d.example", ci) : fmt("10.%d.77.1", ci + 1); break;
    case 2: k.alt = fmt("alt%d.example", ci); k.port = 1 + draw(65535); break;
    default: k.port = 1 + draw(65535);
    }
    k.bypass = k.kind == 1 || !k.alt.empty() || k.legacy;
    k.optional_srv = !k.bypass && k.port; // only a port is given
    int defport = k.kind == 1 ? 5347 : k.legacy ? 5223 : 5222;
    int port = k.port ? (int)k.port : defport;
    // a list to fall back to, or the only one
    Target fb;
    fb.host = k.alt.empty() ? k.domain : k.alt;
    fb.port = port;
    fb.addrs = gen_addrs(ci, 0, 5);
    k.hosts[fb.host] = fb.addrs;
    std::vector<Target> ts;
    bool found = false;
    {
        // the answer exists even if it is not asked for
        unsigned mode = weighted({78, 8, 6, 4, 4}); // records, lookup fails, no record, rcode, not a response
        unsigned nt = mode ? 0 : 1 + (draw(12) ? draw(7) : draw(20));
        bool ranks = draw(3) != 0, same = !draw(5);
        Str q = "_xmpp-client._tcp." + k.domain;
        for (unsigned i = 0; i < nt; i++) {
            Target t;
            if (i && !draw(10)) { t = ts[draw(i)]; }
            else {
                t.host = draw(3) ? fmt("s%u.", i) + k.domain : fmt("h%u.c%d.example", i, ci);
                if (!draw(20)) t.host = Str(1 + draw(60), 'a') + fmt("%u.", i) + t.host;
                if (!draw(25)) { t.host = ""; t.dot = true; }
                else if (!draw(12)) t.host = k.domain;
                if (k.hosts.count(t.host)) t.addrs = k.hosts[t.host];
                else if (!t.dot) k.hosts[t.host] = t.addrs = gen_addrs(ci, (int)i + 1, nt > 6 ? 2 : 5);
            }
            t.port = draw(3) ? pk<int>({5222, 443, 80, 1, 65535, 5223, 5269, 256, 9999, 10000}) : 1 + (int)draw(65535);
            if (same) { t.prio = 10; t.weight = 5; }
            else { t.prio = ranks ? gen_u16() : (int)draw(3); t.weight = gen_u16(); }
            ts.push_back(t);
        }
        for (size_t i = ts.size(); i > 1; i--) std::swap(ts[i - 1], ts[draw(i)]);
        if (mode == 0) { k.answer = dns_answer(q, k.domain, ts, draw(3) == 0); found = true; }
        else if (mode == 2) k.answer = dns_answer(q, k.domain, {}, draw(2));
        else if (mode >= 3) {
            Target t; t.host = "wrong.example"; t.port = 7; t.addrs = gen_addrs(ci, 200, 2);
            k.hosts[t.host] = t.addrs;
            k.answer = dns_answer(q, k.domain, {t}, false);
            if (mode == 3) k.answer[3] = (char)(0x80 | (1 + draw(5)));
            else k.answer[2] = 0x01;
        }
        if (!k.bypass) note(mode == 0 ? "SRV answer with records" : mode == 1 ? "SRV lookup fails" : mode == 2 ? "SRV answer without records" : mode == 3 ? "SRV answer with an error code" : "SRV answer that is no response");
    }
    if (k.bypass) { k.orders = {{{fb}}}; note(k.kind == 1 ? "component" : k.legacy ? "legacy SSL" : "explicit host"); }
    else if (!found) k.orders = {{{fb}}};
    else {
        std::stable_sort(ts.begin(), ts.end(), [](const Target &a, const Target &b) { return a.prio != b.prio ? a.prio < b.prio : a.weight > b.weight; });
        std::vector<std::vector<Target>> o;
        for (auto &t : ts) {
            if (o.empty() || o.back()[0].prio != t.prio || o.back()[0].weight != t.weight) o.push_back({});
            o.back().push_back(t);
        }
        k.orders = {o};
        if (k.optional_srv) k.orders.push_back({{fb}});
        note(fmt("targets:%s", ts.size() == 1 ? "1" : ts.size() < 4 ? "2-3" : ts.size() < 8 ? "4-7" : "8+"));
    }
    size_t n = 0;
    for (auto &o : k.orders) n = std::max(n, count(o));
    k.total = n;
    // which endpoint accepts, and how the others fail
    size_t first = draw(4) == 0 ? n : n ? draw(n + 1) : 0;
    if (draw(5) == 0 && n) first = n - 1;
    unsigned style = draw(5);    // one way for all, or mixed
    for (size_t i = 0; i < n; i++) {
        ConnectPlan p;
        p.err = pk<int>({ECONNREFUSED, ENETUNREACH, EHOSTUNREACH, ETIMEDOUT, EACCES, EADDRNOTAVAIL, EPERM});
        p.delay = draw(3) ? draw(200) : draw(4900);
        if (i == first || (i > first && draw(2))) { p.mode = draw(10) ? 0 : 4; if (!draw(3)) p.delay = 0; }
        else { unsigned m = style < 3 ? style : draw(3); p.mode = 1 + (int)m; }
        k.outs.push_back(p);
    }
    k.so = draw(4) == 0;
    if (k.so) {
        k.so_scribble = draw(2);
        k.so_errno = pk<int>({EPERM, EINVAL, ENOPROTOOPT, ENOMEM});
        if (draw(2)) for (size_t i = 0; i < n; i++) if (!draw(4)) k.so_fail.insert(i);
        note("socket option callback");
    }
    { Str fp = show_order(k); for (auto &o : k.outs) fp += fmt("%d,", o.mode); fingerprint(fp); }
    xmpp_conn_set_sockopt_callback(k.conn, k.so ? so_cb : [](xmpp_conn_t *, void *) { return 0; });
    trace("conn %d: kind %d jid %s host %s port %u%s; candidates %s", ci, k.kind, k.jid.c_str(), k.alt.c_str(), k.port, k.legacy ? " legacy SSL" : "", show_order(k).c_str());
}
Str header_to(const Str &in)
{
    size_t p = in.find("<stream:stream");
    if (p == Str::npos) return "(no header)";
    size_t e = in.find('>', p);
    size_t t = in.find(" to=\"", p);
    if (e == Str::npos || t == Str::npos || t > e) return "(no destination)";
    t += 5;
    return in.substr(t, in.find('"', t) - t);
}
void do_connect(int ci)
{
    C &k = W->c[ci];
    gen_attempt(ci);
    k.attempts++;
    k.peers.clear();
    sim.enter_loop(1000);
    int rc;
    const char *alt = k.alt.empty() ? nullptr : k.alt.c_str();
    if (k.kind == 1) rc = xmpp_connect_component(k.conn, alt, (unsigned short)k.port, conn_cb, nullptr);
    else if (k.kind == 2) rc = xmpp_connect_raw(k.conn, alt, (unsigned short)k.port, conn_cb, nullptr);
    else rc = xmpp_connect_client(k.conn, alt, (unsigned short)k.port, conn_cb, nullptr);
    sim.leave_loop();
    trace("  connect -> %d", rc);
    if (failed()) throw CaseAbort();
    if (k.bypass && k.srv_queries) fail("srv-not-bypassed", "SRV records are looked up although %s", k.legacy ? "legacy SSL is used" : "the host is given");
    if (!k.bypass && !k.optional_srv && !k.srv_queries) fail("no-srv", "SRV records are not looked up");
    if (rc != 0) {
        k.attempt = false;
        if (k.accepted) fail("gave-up-early", "connect fails although an endpoint accepted");
        must_be_exhausted(k, "connect() reports a failure");
        note("connect returns an error");
    } else if (k.last_mode == 1) fail("stuck", "connect() returns 0 and the last attempt failed at once");
    if (failed()) throw CaseAbort();
}
bool busy(C &k) { return k.attempt && !k.over && !k.accepted; }
void iterate(unsigned long timeout)
{
    uint64_t t0 = sim.now;
    // what has to have happened by the end of this iteration
    bool due[NC]; size_t n0[NC];
    for (int i = 0; i < W->nc; i++) { C &k = W->c[i]; n0[i] = k.seen.size(); due[i] = busy(k) && k.last_mode >= 0 && (k.last_mode == 3 ? t0 > k.fin_at : k.last_mode == 2 ? t0 >= k.fin_at : false); }
    sim.enter_loop(timeout);
    xmpp_run_once(W->ctx, timeout);
    sim.leave_loop();
    if (failed()) throw CaseAbort();
    if (W->vm.bad) fail("allocator", "%s", W->vm.badmsg.c_str());
    for (int i = 0; i < W->nc; i++) {
        C &k = W->c[i];
        if (due[i] && busy(k) && k.seen.size() == n0[i])
            fail("stuck", "attempt %zu of %zu %s at %llu and by %llu neither the next candidate is tried nor the failure reported", k.seen.size(), k.total,
                 k.last_mode == 3 ? "timed out" : "failed", (unsigned long long)(k.fin_at - SIM_EPOCH), (unsigned long long)(sim.now - SIM_EPOCH));
        if (due[i] && busy(k) && k.last_mode == 1) fail("stuck", "the last attempt failed at once and no failure was reported");
    }
    if (failed()) throw CaseAbort();
}
void run_c14()
{
    World w;
    W = &w;
    sim.begin();
    sim.sock_err = [](int fam) { return fam == AF_INET6 && W->v6_off ? EAFNOSUPPORT : 0; };
    auto conn_of_addr = [](const Str &a) { for (int i = 0; i < W->nc; i++) if (a.compare(0, 5, fmt("10.%d.", i + 1)) == 0 || a.compare(0, 8, fmt("fd00::%d:", i + 1)) == 0) return i; return -1; };
    sim.plan = [=](const Str &a, int port) {
        int ci = conn_of_addr(a);
        if (ci < 0) { fail("order", "connect(%s) is nobody's candidate", a.c_str()); return ConnectPlan(); }
        if (!W->c[ci].attempt || W->c[ci].over) fail("connects-when-over", "connect(%s) although no attempt is in progress", a.c_str());
        return on_connect(ci, a, port);
    };
    sim.accept = [=](Sock *s) {
        int ci = conn_of_addr(s->addr);
        C &k = W->c[ci];
        k.accepted = true; k.t_acc = sim.now;
        k.peers.emplace_back(new Cap);
        Cap *p = k.peers.back().get();
        p->w = W; p->c = ci; p->s = s;
        s->peer = p;
    };
    sim.resolve = [](const Str &h, std::vector<Addr> &v) {
        for (int i = 0; i < W->nc; i++) {
            auto it = W->c[i].hosts.find(h);
            if (it != W->c[i].hosts.end()) { v = it->second; return !v.empty(); }
        }
        return false;
    };
    sim.srv = [](const Str &name, unsigned char *a, int n) {
        for (int i = 0; i < W->nc; i++) {
            C &k = W->c[i];
            Str q = "_xmpp-client._tcp." + k.domain;
            if (strcasecmp(name.c_str(), q.c_str()) && strcasecmp(name.c_str(), (q + ".").c_str())) continue;
            k.srv_queries++;
            if (k.answer.empty()) return -1;
            memcpy(a, k.answer.data(), std::min<size_t>(k.answer.size(), (size_t)n));
            return (int)k.answer.size();
        }
        fail("srv-name", "SRV query for %s", name.c_str());
        return -1;
    };
    // flags that matter to the choice of the endpoint, and others which must not
    auto settings = [&](C &k) {
        long f = 0;
        k.legacy = false;
        if (k.kind != 1) { if (!draw(6)) { f |= XMPP_CONN_FLAG_LEGACY_SSL; k.legacy = true; } else if (draw(2)) f |= XMPP_CONN_FLAG_DISABLE_TLS; }
        if (k.kind != 1 && !(f & XMPP_CONN_FLAG_DISABLE_TLS)) { if (coin(300)) f |= XMPP_CONN_FLAG_TRUST_TLS; if (coin(200)) f |= XMPP_CONN_FLAG_MANDATORY_TLS; }
        for (long x : {XMPP_CONN_FLAG_LEGACY_AUTH, XMPP_CONN_FLAG_DISABLE_SM, XMPP_CONN_FLAG_ENABLE_COMPRESSION}) if (coin(100)) f |= x;
        if (xmpp_conn_set_flags(k.conn, f) != 0) fail("flags", "the flags 0x%lx are refused", f);
    };
    w.ctx = xmpp_ctx_new(&w.vm.mem, vlog());
    try {
        w.nc = draw(5) ? 1 : 2;
        w.v6_off = draw(5) == 0;
        for (int i = 0; i < w.nc; i++) {
            C &k = w.c[i];
            k.kind = (int)weighted({60, 10, 30});
            k.conn = xmpp_conn_new(w.ctx);
            k.domain = k.kind == 1 ? fmt("comp%d.example", i) : draw(6) ? fmt("d%d.example", i) : fmt("d%d.%s.example", i, Str(1 + draw(50), 'x').c_str());
            k.jid = k.kind == 1 ? k.domain : pk<Str>({"user@", "", "u.x@"}) + k.domain + pk<Str>({"", "/res", "/a@b/c"});
            xmpp_conn_set_jid(k.conn, k.jid.c_str());
            xmpp_conn_set_pass(k.conn, "pw");
            settings(k);
        }
        unsigned rounds = 1 + weighted({60, 30, 10});
        unsigned accepts = 0, fallbacks = 0;
        for (bool later = false; rounds--; later = true) {
            bool gaps = draw(4) == 0;
            unsigned long step = pk<unsigned long>({1, 100, 700, 1000, 6000, 6000});
            for (int i = 0; i < w.nc; i++) {
                if (w.nc > 1 && draw(2)) { unsigned n = draw(3); while (n--) iterate(100); }
                if (later && draw(3) == 0) settings(w.c[i]);
                do_connect(i);
            }
            uint64_t t0 = sim.now;
            unsigned guard = 0;
            auto any_busy = [&] { for (int i = 0; i < w.nc; i++) if (busy(w.c[i])) return true; return false; };
            while (any_busy()) {
                uint64_t ev = sim.next_event(), lim = sim.now + 6000;
                if (gaps && draw(2)) { uint64_t d = draw(2) ? draw(300) : draw(8000); trace("idle %llu ms", (unsigned long long)d); sim.advance(sim.now + d); }
                unsigned long to = step < 50 ? (unsigned long)std::min<uint64_t>(std::max<uint64_t>(std::min(ev, lim) - sim.now, 1), 700 + step) : step;
                iterate(to);
                if (++guard > 20000) { fail("stuck", "the attempt does not end (%llu ms)", (unsigned long long)(sim.now - t0)); throw CaseAbort(); }
            }
            // the accepted ones go on
            for (int i = 0; i < 8; i++) iterate(100);
            for (int i = 0; i < w.nc; i++) {
                C &k = w.c[i];
                if (k.seen.size() > 1) { fallbacks++; note("attempts beyond the first", k.seen.size() - 1); }
                if (!k.accepted) { if (k.attempt) note("all candidates fail"); else if (k.seen.empty()) note("nothing to try"); continue; }
                accepts++;
                Cap *p = k.peers.back().get();
                if (k.peers.size() != 1) { fail("connects-after-accept", "%zu endpoints accepted", k.peers.size()); throw CaseAbort(); }
                if (k.legacy && k.kind != 2) { if (p->in.empty() || p->in[0] != 0x16) fail("no-tls", "legacy SSL and the first octets are %s", esc(p->in, 40).c_str()); }
                else {
                    Str to = header_to(p->in);
                    if (to != k.domain) fail("header-destination", "the stream header is addressed to %s instead of %s", esc(to, 60).c_str(), k.domain.c_str());
                    if (k.kind == 2 && k.n_raw != 1) fail("raw-connect", "%d RAW_CONNECT events", k.n_raw);
                }
                if (failed()) throw CaseAbort();
                if (k.attempt && !k.over) {
                    size_t n = k.seen.size();
                    if (draw(2)) { if (draw(2)) sim.rst(k.peers.back()->s); else sim.fin(k.peers.back()->s); }
                    else { sim.enter_loop(1000); xmpp_disconnect(k.conn); sim.leave_loop(); }
                    for (int j = 0; j < 60 && !k.over; j++) iterate(100);
                    if (!k.over) { fail("no-disconnect", "the connection does not end"); throw CaseAbort(); }
                    if (k.seen.size() != n) fail("connects-after-accept", "another candidate is tried after the connection ended");
                }
                k.attempt = false;
            }
            for (int i = 0; i < w.nc; i++) w.c[i].attempt = false;
            if (failed()) throw CaseAbort();
        }
        if (fallbacks) nontrivial();
        note("accepted", accepts);
        if (want_sample()) sample(fmt("%d connection(s); last attempt: candidates %s tried %s-> %s", w.nc, show_order(w.c[0]).c_str(), show_seen(w.c[0]).c_str(), w.c[0].accepted ? "accepted" : "failure"));
        for (int i = 0; i < w.nc; i++) { sim.enter_loop(1000); xmpp_conn_release(w.c[i].conn); sim.leave_loop(); w.c[i].conn = nullptr; }
        if (!failed() && sim.open_socks()) fail("socket-leak", "%u sockets are left open", sim.open_socks());
        xmpp_ctx_free(w.ctx);
        if (!failed() && w.vm.bad) fail("allocator", "%s", w.vm.badmsg.c_str());
        if (!failed() && !w.vm.live.empty()) fail("srv-leak", "%zu blocks are left", w.vm.live.size());
    } catch (CaseAbort &) {}
    sim.end();
    W = nullptr;
}
}
PROP(c14, "C14", run_c14, 30000, 3000000, "at least one attempt went beyond its first candidate");
