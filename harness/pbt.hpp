// A small property-based testing engine.
//
// A case is a sequence of bounded integer choices.  In exploration the choices
// come from a generator seeded with (VERIF_SEED, property, case number); every
// choice is recorded in shared memory as it is drawn, so that a case that
// crashes the process can be replayed and shrunk all the same.  Shrinking works
// on the choice sequence (delete blocks, zero, lower), each candidate running in
// a forked child.  0 is always the simplest choice.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>

namespace pbt {

constexpr size_t MAX_CHOICES = 1 << 20;
constexpr size_t MSG_SIZE = 4096;

struct Trace {                    // lives in shared memory, one per worker
    volatile uint64_t n;
    uint64_t v[MAX_CHOICES];
};

class Gen {
public:
    Gen(Trace *t, uint64_t seed) : trace(t), state(seed) { t->n = 0; }
    Gen(Trace *t, const std::vector<uint64_t> *replay) : trace(t), rep(replay) { t->n = 0; }

    // uniform in [0, max]
    uint64_t u(uint64_t max);
    // uniform in [lo, hi]
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + u(hi - lo); }
    // true with probability num/den (false is the simple outcome)
    bool chance(unsigned num, unsigned den) { return u(den - 1) >= den - num; }
    bool flip() { return u(1); }
    // pick by weight; index 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> w);
    template<class T> const T &pick(const std::vector<T> &v) { return v[u(v.size() - 1)]; }
    template<class T> T one(std::initializer_list<T> l) { return *(l.begin() + u(l.size() - 1)); }
    // a size in [0, max]: small ones often, powers of two and neighbours, log-uniform
    uint64_t size(uint64_t max);
    // a number of the given bit width: boundaries, single bits, small, uniform
    uint64_t num(unsigned bits);
    // a byte string of given length
    std::string bytes(size_t len);
    // continue a list? (expected length avg)
    bool more(unsigned avg) { return u(avg) != 0; }
    bool overflow() const { return over; }
    // a generator that plays the same choices again (and records nothing new)
    Gen again() const;
private:
    Trace *trace;
    const std::vector<uint64_t> *rep = nullptr;
    uint64_t state = 0;
    bool over = false;
    bool quiet = false;      // plays the recorded trace
    uint64_t pos = 0;
    uint64_t next();
};

uint64_t mix(uint64_t x);

// ---- inside a case ----
// Ends the case (and the process) as failed.  soft: the verdict rests on a
// deadline and needs every replay to agree.
extern bool progressing;              // set: what is waited for is on its way, a miss is a matter of speed
[[noreturn]] void fail(bool soft, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
#define PBT_FAIL(...) ::pbt::fail(false, __VA_ARGS__)
#define PBT_LATE(...) ::pbt::fail(true, __VA_ARGS__)
#define PBT_CHECK(c, ...) do { if (!(c)) ::pbt::fail(false, __VA_ARGS__); } while (0)
// counts this case in class `label`
void label(const char *label);
void labeln(const char *label, uint64_t n);
// this case is non-trivial by the property's rule
void nontrivial();
// text describing the case (kept for samples and replays); append
void note(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
// the case matched a listed known finding: excluded from judgement, counted
void known(const char *key);
// printable form of bytes
std::string hex(const std::string &s, size_t max = 48);
// scratch directory of this run (removed at its end)
const std::string &scratch();
// exploring the thorough tier?
bool thorough();
// running a replay or shrink candidate?
bool replaying();

struct Prop {
    const char *id;        // property id, e.g. C01
    const char *sub;       // name of this generator/oracle
    void (*fn)(Gen &);
    uint64_t quick, thor;  // cases per tier
    unsigned workers;      // parallel workers
    unsigned timeout;      // seconds after which a single case counts as hung
    const char *rule;      // how cases are made and what is non-trivial
};
void add(const Prop &p);
struct Reg { Reg(const Prop &p) { add(p); } };
#define PBT_PROP(id_, sub_, quick_, thor_, workers_, timeout_, rule_) \
    static void prop_##id_##_##sub_(::pbt::Gen &g); \
    static ::pbt::Reg reg_##id_##_##sub_({#id_, #sub_, prop_##id_##_##sub_, quick_, thor_, workers_, timeout_, rule_}); \
    static void prop_##id_##_##sub_(::pbt::Gen &g)

int main(int argc, char **argv);
// run before each case in the worker (reset of harness state); optional
extern void (*before_case)();
}
