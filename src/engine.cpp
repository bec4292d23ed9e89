#include "vh.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <errno.h>
#include <cstdlib>
#include <time.h>

extern "C" const char *__asan_default_options()
{
    return "detect_leaks=0:exitcode=78:abort_on_error=0:handle_abort=1:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:max_malloc_fill_size=0:quarantine_size_mb=32:"
           "malloc_context_size=12:print_legend=0:detect_odr_violation=0:intercept_tls_get_addr=0:"
           "alloc_dealloc_mismatch=0";
}
extern "C" const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=78:print_stacktrace=1"; }

static double now_real()
{
    struct timespec ts;
    syscall(SYS_clock_gettime, CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec / 1e9;
}
static void sleep_real(double s)
{
    struct timespec ts = {(time_t)s, (long)((s - (time_t)s) * 1e9)};
    syscall(SYS_nanosleep, &ts, nullptr);
}

// ---- RNG ----------------------------------------------------------------------
struct Rng {
    uint64_t s[2];
    static uint64_t mix(uint64_t &x)
    {
        uint64_t z = (x += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    void seed(uint64_t x) { s[0] = mix(x); s[1] = mix(x); }
    uint64_t next()
    {
        uint64_t a = s[0], b = s[1];
        s[0] = b;
        a ^= a << 23;
        s[1] = a ^ b ^ (a >> 18) ^ (b >> 5);
        return s[1] + b;
    }
};

// ---- shared state between parent and one worker -----------------------------------
enum { ST_IDLE = 0, ST_RUN, ST_VIOL, ST_HANG, ST_DONE };
static const uint32_t MAXTAPE = 1u << 20;
struct Shm {
    volatile int status;
    volatile uint64_t index;
    volatile uint64_t done;
    volatile uint32_t len;
    char sig[256];
    char msg[3000];
    uint32_t tape[MAXTAPE];
};
static Shm *shm;

// ---- tape -------------------------------------------------------------------------
static Rng g_rng;
static const uint32_t *g_in;    // replayed prefix
static uint32_t g_inlen;
static bool g_random;           // after the prefix: random, else zeros
static uint32_t g_drawlimit = MAXTAPE - 1;

uint32_t draw(uint32_t n)
{
    if (n == 0) n = 1;
    uint32_t i = shm->len, v;
    if (i < g_inlen) v = g_in[i] % n;
    else if (g_random && i < g_drawlimit) v = (uint32_t)(g_rng.next() >> 11) % n;
    else v = 0;
    if (i < MAXTAPE) { shm->tape[i] = v; shm->len = i + 1; }
    return v;
}
uint32_t small(uint32_t hi)
{
    switch (draw(4)) {
    case 0: return draw(std::min<uint32_t>(hi, 2) + 1);
    case 1: return draw(std::min<uint32_t>(hi, 8) + 1);
    case 2: return draw(std::min<uint32_t>(hi, 40) + 1);
    default: return draw(hi + 1);
    }
}
uint32_t weighted(std::initializer_list<unsigned> w)
{
    unsigned t = 0;
    for (auto x : w) t += x;
    uint32_t d = draw(t), i = 0;
    for (auto x : w) { if (d < x) return i; d -= x; i++; }
    return 0;
}
uint64_t bits64() { uint64_t a = draw(1u << 22), b = draw(1u << 21), c = draw(1u << 21); return a | b << 22 | c << 43; }

// ---- case context -------------------------------------------------------------------
static bool g_failed, g_nontriv, g_tracing, g_thorough;
static uint64_t g_fp;
static Str g_trace;
static std::map<Str, uint64_t> g_notes;
static std::set<uint64_t> g_distinct;
static std::vector<Str> g_samples;
static bool g_sampled;
static uint64_t g_evals;
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
void register_prop(const Prop &p) { props().push_back(p); }

bool failed() { return g_failed; }
bool tracing() { return g_tracing; }
bool thorough() { return g_thorough; }
Str fmt(const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *p = nullptr;
    int n = vasprintf(&p, f, ap);
    va_end(ap);
    Str s(n >= 0 ? p : "");
    free(p);
    return s;
}
Str esc(const Str &s, size_t max)
{
    Str o;
    for (size_t i = 0; i < s.size() && i < max; i++) {
        unsigned char c = s[i];
        if (c == '\\') o += "\\\\";
        else if (c >= 0x20 && c < 0x7f) o += c;
        else if (c == '\n') o += "\\n";
        else o += fmt("\\x%02x", c);
    }
    if (s.size() > max) o += fmt("...(%zu bytes)", s.size());
    return o;
}
static void add_trace(const char *s)
{
    if (g_trace.size() < 400000) { g_trace += s; g_trace += '\n'; }
    if (getenv("VH_ECHO")) { fprintf(stderr, "%s\n", s); }
}
void trace(const char *f, ...)
{
    if (!g_tracing) return;
    va_list ap; va_start(ap, f);
    char *p = nullptr;
    if (vasprintf(&p, f, ap) >= 0) add_trace(p);
    free(p);
    va_end(ap);
}
void fail(const char *sig, const char *f, ...)
{
    va_list ap; va_start(ap, f);
    char *p = nullptr;
    if (vasprintf(&p, f, ap) < 0) p = nullptr;
    va_end(ap);
    if (g_tracing) add_trace((Str("!! FAIL [") + sig + "] " + (p ? p : "")).c_str());
    if (!g_failed) {
        g_failed = true;
        snprintf(shm->sig, sizeof shm->sig, "%s", sig);
        snprintf(shm->msg, sizeof shm->msg, "%s", p ? p : "");
    }
    free(p);
}
void note(const Str &k, uint64_t n) { g_notes[k] += n; }
void nontrivial() { g_nontriv = true; }
void fingerprint(const void *p, size_t n)
{
    const uint8_t *b = (const uint8_t *)p;
    for (size_t i = 0; i < n; i++) g_fp = (g_fp ^ b[i]) * 0x100000001b3ull;
    g_fp = (g_fp ^ 0xff51) * 0x100000001b3ull;
}
bool want_sample() { return g_tracing || (!g_sampled && g_samples.size() < 3); }
void sample(const Str &s)
{
    if (g_tracing) add_trace(("sample: " + s).c_str());
    if (!g_sampled && g_samples.size() < 3) { g_samples.push_back(s); g_sampled = true; }
}
uint64_t case_seed()
{
    return ((uint64_t)draw(1u << 30) << 20) ^ 0x5bd1e995;
}

// ---- allocator / log ------------------------------------------------------------------
uint8_t vmem_fill = 0xA5;
static void *vm_alloc(size_t n, void *u)
{
    VMem *m = (VMem *)u;
    void *p = malloc(n);
    if (p) { memset(p, vmem_fill, n); m->live[p] = n; m->allocs++; }
    return p;
}
static void vm_free(void *p, void *u)
{
    VMem *m = (VMem *)u;
    if (!p) return;
    auto it = m->live.find(p);
    if (it == m->live.end()) {
        if (!m->bad) { m->bad = true; m->badmsg = "free of a block that is not live in this allocator"; }
        // let ASan classify it with a stack trace when it is a double free
        free(p);
        return;
    }
    m->live.erase(it);
    m->frees++;
    free(p);
}
static void *vm_realloc(void *p, size_t n, void *u)
{
    VMem *m = (VMem *)u;
    if (!p) return vm_alloc(n, u);
    auto it = m->live.find(p);
    if (it == m->live.end()) {
        if (!m->bad) { m->bad = true; m->badmsg = "realloc of a block that is not live in this allocator"; }
        return realloc(p, n);
    }
    size_t old = it->second;
    void *q = malloc(n);
    if (!q) return q;
    memset(q, vmem_fill, n);
    memcpy(q, p, std::min(old, n));
    m->live.erase(it);
    free(p);
    m->live[q] = n;
    return q;
}
std::set<VMem *> g_vmems;
bool vh_bypass; Str vh_bypass_msg; unsigned vh_expat_default, vh_expat_ctx;
VMem::VMem()
{
    mem.alloc = vm_alloc;
    mem.free = vm_free;
    mem.realloc = vm_realloc;
    mem.userdata = this;
    g_vmems.insert(this);
    vh_bypass = false;
}
VMem::~VMem() { g_vmems.erase(this); }
size_t VMem::bytes() const { size_t t = 0; for (auto &x : live) t += x.second; return t; }
static void vlog_handler(void *, xmpp_log_level_t level, const char *area, const char *msg)
{
    static volatile size_t sink;
    sink = strlen(msg) + strlen(area);
    if (g_tracing) add_trace(fmt("    log %d %s: %s", level, area, esc(msg, 300).c_str()).c_str());
}
xmpp_log_t *vlog()
{
    static xmpp_log_t l = {vlog_handler, nullptr};
    return &l;
}

// ---- running one case --------------------------------------------------------------------
static const Prop *g_prop;
static void set_watchdog(unsigned cpu)
{
    struct itimerval it = {{0, 0}, {(time_t)cpu, 0}};
    setitimer(ITIMER_PROF, &it, nullptr);
}
static void on_prof(int)
{
    shm->status = ST_HANG;
    snprintf(shm->sig, sizeof shm->sig, "hang");
    snprintf(shm->msg, sizeof shm->msg, "case did not finish within the CPU limit");
    _exit(79);
}
static void run_case(const uint32_t *in, uint32_t inlen, bool rnd, uint64_t seed)
{
    g_in = in; g_inlen = inlen; g_random = rnd; g_rng.seed(seed);
    g_failed = g_nontriv = g_sampled = false;
    g_fp = 0xcbf29ce484222325ull;
    g_trace.clear();
    shm->len = 0;
    shm->sig[0] = shm->msg[0] = 0;
    shm->status = ST_RUN;
    set_watchdog(g_prop->cpu_limit);
    try { g_prop->run(); } catch (CaseAbort &) {}
    set_watchdog(0);
    g_evals++;
    if (g_nontriv) g_distinct.insert(g_fp);
    shm->status = g_failed ? ST_VIOL : ST_IDLE;
}

// ---- known findings ------------------------------------------------------------------------
struct Known { Str prop, sig, text; };
static std::vector<Known> g_known;
static void load_known(const Str &path)
{
    FILE *f = fopen(path.c_str(), "r");
    if (!f) return;
    char line[4096];
    while (fgets(line, sizeof line, f)) {
        Str s(line);
        while (!s.empty() && (s.back() == '\n' || s.back() == ' ')) s.pop_back();
        // known: property=<id> sig=<signature> <text>
        if (s.compare(0, 7, "known: ") != 0) continue;
        size_t p = s.find("property="), q = s.find(" sig=");
        if (p == Str::npos || q == Str::npos) continue;
        Str id = s.substr(p + 9, s.find(' ', p) - p - 9);
        size_t e = s.find(' ', q + 5);
        g_known.push_back({id, s.substr(q + 5, e == Str::npos ? Str::npos : e - q - 5), e == Str::npos ? "" : s.substr(e + 1)});
    }
    fclose(f);
}
static const Known *is_known(const char *sig)
{
    for (auto &k : g_known) if (k.prop == g_prop->id && k.sig == sig) return &k;
    return nullptr;
}

// ---- workers -------------------------------------------------------------------------------
static Str g_dir;
static uint64_t seed_for(uint64_t base, uint64_t idx)
{
    uint64_t x = base * 0x9E3779B97F4A7C15ull + idx * 0xD1B54A32D192ED03ull + 12345;
    return Rng::mix(x);
}
static void json_str(FILE *f, const Str &s)
{
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
        else if (c < 0x20 || c >= 0x7f) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}
static void write_stats(const Str &path)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "evals %llu\n", (unsigned long long)g_evals);
    for (auto &n : g_notes) fprintf(f, "note %llu %s\n", (unsigned long long)n.second, n.first.c_str());
    for (auto &s : g_samples) fprintf(f, "sample %s\n", esc(s, 3000).c_str());
    for (auto d : g_distinct) fprintf(f, "d %llx\n", (unsigned long long)d);
    fclose(f);
}
static void redirect_err(const Str &p)
{
    int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    if (fd >= 0) { dup2(fd, 2); if (fd != 2) close(fd); }
}
static void worker(int w, int W, uint64_t base, uint64_t enum_n, uint64_t total, double deadline)
{
    redirect_err(g_dir + fmt("/w%d.err", w));
    signal(SIGPROF, on_prof);
    std::vector<uint32_t> pre;
    uint64_t known_hits = 0;
    for (uint64_t i = w; i < enum_n + total; i += W) {
        if (now_real() > deadline) { note("stopped early by the time budget"); break; }
        shm->index = i;
        pre.clear();
        if (i < enum_n) g_prop->enum_prefix(i, pre);
        run_case(pre.data(), pre.size(), true, seed_for(base, i));
        shm->done = shm->done + 1;
        if (g_failed) {
            if (is_known(shm->sig)) { note(Str("known finding seen: ") + shm->sig); known_hits++; continue; }
            write_stats(g_dir + fmt("/w%d.stats", w));
            _exit(77);
        }
    }
    shm->status = ST_DONE;
    write_stats(g_dir + fmt("/w%d.stats", w));
    _exit(0);
}

struct Outcome { bool bad = false; Str kind, sig, msg; std::vector<uint32_t> tape; Str err; };
static Str read_file(const Str &p, size_t max = 20000)
{
    Str s;
    int fd = open(p.c_str(), O_RDONLY);
    if (fd < 0) return s;
    char b[4096];
    ssize_t n;
    while (s.size() < max && (n = read(fd, b, sizeof b)) > 0) s.append(b, n);
    close(fd);
    return s;
}
// classify how a worker/child ended
static Outcome classify(Shm *s, int st, const Str &errfile)
{
    Outcome o;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return o;
    o.bad = true;
    o.tape.assign(s->tape, s->tape + s->len);
    if (WIFEXITED(st) && WEXITSTATUS(st) == 77) {
        o.kind = "oracle";
        o.sig = s->sig;
        o.msg = s->msg;
    } else if (WIFEXITED(st) && WEXITSTATUS(st) == 79) {
        o.kind = "hang";
        o.sig = "hang";
        o.msg = s->msg;
    } else {
        o.kind = "crash";
        o.err = read_file(errfile);
        Str k = "crash";
        size_t p = o.err.find("ERROR: AddressSanitizer: ");
        if (p != Str::npos) {
            size_t e = o.err.find_first_of(" \n", p + 25);
            k = "asan-" + o.err.substr(p + 25, e - p - 25);
        } else if ((p = o.err.find("runtime error: ")) != Str::npos) k = "ubsan";
        else if (o.err.find("Assertion") != Str::npos) k = "assert";
        o.sig = k;
        o.msg = WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st)) : fmt("exit status %d", WEXITSTATUS(st));
    }
    return o;
}
static Outcome exec_tape(const std::vector<uint32_t> &t, bool tr, Str *trace_out = nullptr)
{
    Str errf = g_dir + "/child.err", trf = g_dir + "/child.trace";
    shm->len = 0;
    pid_t pid = fork();
    if (pid == 0) {
        if (!getenv("VH_ECHO")) redirect_err(errf);
        signal(SIGPROF, on_prof);
        g_tracing = tr;
        std::vector<uint32_t> c(t);
        if (tr) {
            // stream the trace so that a crash keeps it
            unlink(trf.c_str());
        }
        struct Dump { static void go(const Str &p) { FILE *f = fopen(p.c_str(), "w"); if (f) { fwrite(g_trace.data(), 1, g_trace.size(), f); fclose(f); } } };
        if (tr) {
            static Str path; path = trf;
            extern void vh_on_death(void (*)());
            vh_on_death([] { Dump::go(path); });
        }
        run_case(c.data(), c.size(), false, 0);
        if (tr) Dump::go(trf);
        _exit(g_failed ? 77 : 0);
    }
    int st = 0;
    double t0 = now_real();
    while (true) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now_real() - t0 > 8.0 * g_prop->cpu_limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); st = 79 << 8; break; }
        sleep_real(0.0005);
    }
    if (trace_out) *trace_out = read_file(trf, 500000);
    return classify(shm, st, errf);
}
extern "C" void __asan_set_death_callback(void (*)(void));
extern "C" void __sanitizer_set_death_callback(void (*)(void));
void vh_on_death(void (*f)()) { __sanitizer_set_death_callback(f); }

static bool same(const Outcome &a, const Outcome &b)
{
    if (!b.bad || a.kind != b.kind) return false;
    return a.kind == "crash" ? true : a.sig == b.sig;
}
static std::vector<uint32_t> shrink(const Outcome &orig, double budget, unsigned &runs)
{
    std::vector<uint32_t> best = orig.tape;
    double end = now_real() + budget;
    auto attempt = [&](const std::vector<uint32_t> &c) {
        if (now_real() > end) return false;
        runs++;
        Outcome o = exec_tape(c, false);
        if (!same(orig, o)) return false;
        std::vector<uint32_t> n = o.tape;
        if (n.size() > c.size()) n = c; // it read past the end: zeros
        while (!n.empty() && n.back() == 0) n.pop_back();
        if (n.size() < best.size() || (n.size() == best.size() && n < best)) { best = n; return true; }
        return false;
    };
    while (!best.empty() && best.back() == 0) best.pop_back();
    bool progress = true;
    while (progress && now_real() < end) {
        progress = false;
        for (size_t k = std::max<size_t>(best.size() / 2, 1); k >= 1 && now_real() < end; k /= 2) {
            for (size_t i = 0; i + k <= best.size() && now_real() < end;) {
                std::vector<uint32_t> c(best);
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) { progress = true; continue; }
                c = best;
                bool nz = false;
                for (size_t j = i; j < i + k; j++) { nz |= c[j] != 0; c[j] = 0; }
                if (nz && attempt(c)) { progress = true; }
                i += k;
            }
            if (k == 1) break;
        }
        for (size_t i = 0; i < best.size() && now_real() < end; i++) {
            while (i < best.size() && best[i] > 0) {
                std::vector<uint32_t> c(best);
                c[i] = best[i] / 2;
                if (attempt(c)) { progress = true; continue; }
                c = best;
                c[i] = best[i] - 1;
                if (attempt(c)) { progress = true; continue; }
                break;
            }
        }
    }
    return best;
}

static void write_replay(const Str &path, const Outcome &o, const std::vector<uint32_t> &t, const Str &tr)
{
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return;
    fprintf(f, "property %s\nkind %s\nsig %s\nmessage %s\ntape", g_prop->id, o.kind.c_str(), o.sig.c_str(), esc(o.msg, 2500).c_str());
    for (auto v : t) fprintf(f, " %u", v);
    fprintf(f, "\n--- trace of the minimised case ---\n%s\n", tr.c_str());
    if (!o.err.empty()) fprintf(f, "--- stderr ---\n%s\n", o.err.c_str());
    fclose(f);
}

int first_context_probe();
int main(int argc, char **argv)
{
    Str id, ev, replay, root = "/verif", knownf;
    uint64_t seed = 1, cases = 0;
    int W = 8;
    double budget = 0;
    bool thr = false, list = false;
    if (getenv("VERIF_SEED")) seed = strtoull(getenv("VERIF_SEED"), nullptr, 10);
    if (getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough")) thr = true;
    if (argc == 2 && !strcmp(argv[1], "--first-context")) return first_context_probe();
    for (int i = 1; i < argc; i++) {
        Str a(argv[i]);
        auto nxt = [&]() -> Str { return ++i < argc ? argv[i] : ""; };
        if (a == "--prop") id = nxt();
        else if (a == "--seed") seed = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--cases") cases = strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--jobs") W = atoi(nxt().c_str());
        else if (a == "--budget") budget = atof(nxt().c_str());
        else if (a == "--root") root = nxt();
        else if (a == "--replay") replay = nxt();
        else if (a == "--thorough") thr = true;
        else if (a == "--list") list = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 2; }
    }
    if (list) { for (auto &p : props()) printf("%s\n", p.id); return 0; }
    setenv("TZ", "UTC", 1);
    std::vector<uint32_t> rtape;
    if (!replay.empty()) {
        Str s = read_file(replay, 10000000);
        size_t p = s.find("property ");
        if (p == Str::npos) { fprintf(stderr, "bad replay file\n"); return 2; }
        id = s.substr(p + 9, s.find('\n', p) - p - 9);
        p = s.find("\ntape");
        Str line = s.substr(p + 5, s.find('\n', p + 1) - p - 5);
        const char *c = line.c_str();
        char *e;
        while (true) { unsigned long v = strtoul(c, &e, 10); if (e == c) break; rtape.push_back(v); c = e; }
    }
    for (auto &p : props()) if (id == p.id) g_prop = &p;
    if (!g_prop) { fprintf(stderr, "unknown property '%s'\n", id.c_str()); return 2; }
    g_thorough = thr;
    load_known(root + "/known_findings.txt");
    mkdir((root + "/build").c_str(), 0755);
    mkdir((root + "/replay").c_str(), 0755);
    mkdir((root + "/evidence").c_str(), 0755);
    g_dir = root + fmt("/build/run.%s.%d", id.c_str(), getpid());
    mkdir(g_dir.c_str(), 0755);
    auto cleanup = [&] {
        if (fork() == 0) { execl("/bin/rm", "rm", "-rf", g_dir.c_str(), (char *)nullptr); _exit(1); }
        wait(nullptr);
    };
    double t0 = now_real();
    if (!replay.empty()) {
        shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        Str tr;
        Outcome o = exec_tape(rtape, true, &tr);
        printf("%s\n", tr.c_str());
        if (!o.err.empty()) printf("--- stderr ---\n%s\n", o.err.c_str());
        printf("replay: %s %s %s\n", o.bad ? "FAILS" : "passes", o.sig.c_str(), o.msg.c_str());
        cleanup();
        if (o.bad) { printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str()); return 1; }
        return 0;
    }
    uint64_t total = cases ? cases : (thr ? g_prop->thorough : g_prop->quick);
    if (budget <= 0) budget = thr ? 780 : 240;
    uint64_t enum_n = g_prop->enum_prefix ? g_prop->enum_n : 0;
    std::vector<Shm *> shms(W);
    std::vector<pid_t> pids(W);
    double deadline = t0 + budget;
    fflush(stdout);
    for (int w = 0; w < W; w++) {
        shms[w] = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pids[w] = fork();
        if (pids[w] == 0) { shm = shms[w]; worker(w, W, seed, enum_n, total, deadline); }
    }
    // wait; stop everything on the first bad outcome
    Outcome bad;
    int alive = W;
    std::vector<double> last(W, now_real());
    std::vector<uint64_t> lastdone(W, 0);
    while (alive > 0) {
        bool any = false;
        for (int w = 0; w < W; w++) {
            if (!pids[w]) continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == pids[w]) {
                any = true;
                pids[w] = 0;
                alive--;
                Outcome o = classify(shms[w], st, g_dir + fmt("/w%d.err", w));
                if (o.bad && !bad.bad) bad = o;
            } else {
                if (shms[w]->done != lastdone[w]) { lastdone[w] = shms[w]->done; last[w] = now_real(); }
                else if (now_real() - last[w] > 10.0 * g_prop->cpu_limit) { // asleep for real
                    kill(pids[w], SIGKILL);
                    waitpid(pids[w], &st, 0);
                    any = true; pids[w] = 0; alive--;
                    Outcome o = classify(shms[w], 79 << 8, "");
                    o.msg = "case blocked (no progress in real time)";
                    if (!bad.bad) bad = o;
                }
            }
        }
        if (bad.bad) {
            for (int w = 0; w < W; w++) if (pids[w]) kill(pids[w], SIGTERM);
            for (int w = 0; w < W; w++) if (pids[w]) { int st; waitpid(pids[w], &st, 0); }
            break;
        }
        if (!any) sleep_real(0.005);
    }
    // merge the statistics
    uint64_t evals = 0;
    std::map<Str, uint64_t> notes;
    std::set<uint64_t> distinct;
    std::vector<Str> samples;
    for (int w = 0; w < W; w++) {
        FILE *f = fopen((g_dir + fmt("/w%d.stats", w)).c_str(), "r");
        if (!f) { evals += shms[w]->done; continue; }
        static char line[20000];
        while (fgets(line, sizeof line, f)) {
            size_t n = strlen(line);
            if (n && line[n - 1] == '\n') line[--n] = 0;
            if (!strncmp(line, "evals ", 6)) evals += strtoull(line + 6, nullptr, 10);
            else if (!strncmp(line, "note ", 5)) { char *e; uint64_t v = strtoull(line + 5, &e, 10); notes[e + 1] += v; }
            else if (!strncmp(line, "sample ", 7)) { if (samples.size() < 6) samples.push_back(line + 7); }
            else if (!strncmp(line, "d ", 2)) distinct.insert(strtoull(line + 2, nullptr, 16));
        }
        fclose(f);
    }
    int rc = 0;
    Str rpath;
    if (bad.bad) {
        shm = (Shm *)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        printf("found: [%s] %s: %s\n", bad.kind.c_str(), bad.sig.c_str(), bad.msg.c_str());
        if (!bad.err.empty()) printf("%s\n", bad.err.substr(0, 3000).c_str());
        int repro = 0;
        for (int i = 0; i < 3; i++) repro += same(bad, exec_tape(bad.tape, false));
        unsigned runs = 0;
        if (repro == 3) {
            std::vector<uint32_t> t = shrink(bad, getenv("VH_SHRINK") ? atof(getenv("VH_SHRINK")) : bad.kind == "hang" ? 40 : 25, runs);
            Str tr;
            Outcome fin = exec_tape(t, true, &tr);
            if (!same(bad, fin)) { t = bad.tape; fin = exec_tape(t, true, &tr); }
            rpath = root + fmt("/replay/%s-%016llx.tape", id.c_str(), (unsigned long long)seed_for(seed, t.size()));
            write_replay(rpath, fin, t, tr);
            printf("minimised %zu -> %zu choices in %u runs: [%s] %s\n", bad.tape.size(), t.size(), runs, fin.sig.c_str(), fin.msg.c_str());
            size_t from = tr.size() > 4000 ? tr.size() - 4000 : 0;
            printf("%s\n", tr.substr(from).c_str());
            if (!fin.err.empty()) printf("%s\n", fin.err.substr(0, 2500).c_str());
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), rpath.c_str());
            rc = 1;
        } else {
            // keep the evidence, but do not claim what cannot be reproduced
            rpath = root + fmt("/replay/%s-unreproduced.tape", id.c_str());
            write_replay(rpath, bad, bad.tape, "");
            printf("UNREPRODUCED: %d of 3 replays failed; tape kept in %s\n", repro, rpath.c_str());
            if (repro > 0 || bad.kind == "crash") {
                // a crash is a crash, even if it needs the worker's history
                printf("VIOLATION property=%s replay=%s\n", id.c_str(), rpath.c_str());
                rc = 1;
            } else rc = 3;
        }
    }
    for (auto &k : g_known) if (k.prop == id) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), k.text.c_str());
    double wall = now_real() - t0;
    Str evp = root + "/evidence/" + id + ".json";
    FILE *f = fopen(evp.c_str(), "w");
    if (f) {
        fprintf(f, "{\"property\": \"%s\", \"tier\": \"%s\", \"seed\": %llu, \"level\": \"exploration\",\n \"coverage\": {\"evaluations\": %llu, \"distinct_nontrivial\": %llu,\n  \"rule\": ",
                id.c_str(), thr ? "thorough" : "quick", (unsigned long long)seed, (unsigned long long)evals, (unsigned long long)distinct.size());
        json_str(f, g_prop->rule);
        fprintf(f, ",\n  \"enumerated_cases\": %llu, \"workers\": %d,\n  \"classes\": {", (unsigned long long)enum_n, W);
        bool first = true;
        for (auto &n : notes) { fprintf(f, first ? "\n    " : ",\n    "); first = false; json_str(f, n.first); fprintf(f, ": %llu", (unsigned long long)n.second); }
        fprintf(f, "},\n  \"samples\": [");
        first = true;
        for (auto &s : samples) { fprintf(f, first ? "\n    " : ",\n    "); first = false; json_str(f, s); }
        fprintf(f, "]},\n \"assumptions\": [");
        first = true;
        for (auto &s : g_prop->assumptions) { fprintf(f, first ? "" : ", "); first = false; json_str(f, s); }
        fprintf(f, "],\n \"wall_s\": %.2f, \"violations\": %d}\n", wall, rc == 1 ? 1 : 0);
        fclose(f);
    }
    printf("%s: %llu cases, %llu distinct non-trivial, %.1f s, %s\n", id.c_str(), (unsigned long long)evals, (unsigned long long)distinct.size(), wall, rc == 0 ? "held" : "NOT held");
    if (getenv("VH_NOTES")) for (auto &n : notes) printf("  %-60s %llu\n", n.first.c_str(), (unsigned long long)n.second);
    cleanup();
    return rc;
}
