// Property-based testing engine: choice tape, case context, property registry.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstring>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <deque>
#include <functional>
#include <memory>
#include <algorithm>

typedef std::string Str;

// ---- choice tape ----------------------------------------------------------
uint32_t draw(uint32_t n);              // uniform in [0,n); 0 is the simplest choice
static inline bool coin(unsigned permille) { return draw(1000) >= 1000 - permille; } // 0 => false
static inline uint32_t range(uint32_t lo, uint32_t hi) { return lo + draw(hi - lo + 1); }
uint32_t small(uint32_t hi);            // [0,hi], biased to small
uint32_t weighted(std::initializer_list<unsigned> w); // index, by weight
uint64_t bits64();
template <class C> auto &pick(C &c) { return c[draw((uint32_t)c.size())]; }
static inline const char *pickc(std::initializer_list<const char *> l) { return l.begin()[draw((uint32_t)l.size())]; }

// ---- reporting --------------------------------------------------------------
// Record a violation of the property under check (first one wins).
void fail(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
bool failed();
struct CaseAbort {};                     // thrown to leave a case early (after fail)
void trace(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool tracing();
void note(const Str &klass, uint64_t n = 1);   // classification counters for the evidence
void nontrivial();                      // mark this case non-trivial
void fingerprint(const void *p, size_t n); // extra data that distinguishes the case
static inline void fingerprint(const Str &s) { fingerprint(s.data(), s.size()); }
bool want_sample();
void sample(const Str &s);
Str fmt(const char *f, ...) __attribute__((format(printf, 1, 2)));
Str esc(const Str &s, size_t max = 400);       // printable
bool thorough();
uint64_t case_seed();                   // derived from the tape: deterministic on replay

// ---- registry ---------------------------------------------------------------
struct Prop {
    const char *id;
    void (*run)();
    uint64_t quick, thorough;           // number of random cases
    const char *rule;
    uint64_t enum_n = 0;                // enumerated (forced-prefix) cases
    void (*enum_prefix)(uint64_t i, std::vector<uint32_t> &out) = nullptr;
    unsigned cpu_limit = 20;            // CPU seconds per case before it is called a hang
    std::vector<const char *> assumptions = {};
};
void register_prop(const Prop &p);
#define PROP(name, ...) static struct name##_reg { name##_reg() { register_prop(Prop{__VA_ARGS__}); } } name##_reg_inst

// ---- instrumented allocator --------------------------------------------------
extern "C" {
#include "strophe.h"
}
struct VMem {
    xmpp_mem_t mem;
    std::map<void *, size_t> live;
    uint64_t allocs = 0, frees = 0;
    bool bad = false;
    Str badmsg;
    VMem();
    ~VMem();
    size_t bytes() const;
};
extern uint8_t vmem_fill;
extern std::set<VMem *> g_vmems;
extern bool vh_bypass;                  // the library used the C allocator, or gave it to zlib
extern Str vh_bypass_msg;
extern unsigned vh_expat_default, vh_expat_ctx; // expat parsers created with the default and with the context's allocator
xmpp_log_t *vlog();                     // log object: touches every message; prints when tracing
