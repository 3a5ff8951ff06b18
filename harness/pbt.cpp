#include "pbt.hpp"
#include <algorithm>
#include <atomic>
#include <cstdarg>
#include <ctime>
#include <cinttypes>
#include <exception>
#include <map>
#include <set>
#include <unordered_set>
#include <dirent.h>
#include <fcntl.h>
#include <sys/syscall.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <ftw.h>

extern "C" const char *__asan_default_options() {
    return "exitcode=78:detect_leaks=0:max_allocation_size_mb=1024:hard_rss_limit_mb=6000:"
           "handle_abort=1:detect_stack_use_after_return=0:malloc_context_size=12:quarantine_size_mb=16:"
           "detect_odr_violation=0:print_summary=1:allocator_release_to_os_interval_ms=-1";
}
extern "C" const char *__ubsan_default_options() { return "print_stacktrace=1:exitcode=78"; }

namespace pbt {

void (*before_case)() = nullptr;

uint64_t mix(uint64_t x) {
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

uint64_t Gen::next() {
    state += 0x9e3779b97f4a7c15ull;
    uint64_t x = state;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}

Gen Gen::again() const { Gen g(*this); g.quiet = true; g.pos = 0; return g; }

uint64_t Gen::u(uint64_t max) {
    if (quiet) { uint64_t r = pos < trace->n ? trace->v[pos] : 0; pos++; return r > max ? max : r; }
    uint64_t i = trace->n, r;
    if (i >= MAX_CHOICES) { over = true; return 0; }
    if (rep) {
        r = i < rep->size() ? (*rep)[i] : 0;
        if (r > max) r = max;
    } else if (max == UINT64_MAX) {
        r = next();
    } else {
        r = (uint64_t)(((unsigned __int128)next() * (max + 1)) >> 64);
    }
    trace->v[i] = r;
    trace->n = i + 1;
    return r;
}

size_t Gen::weighted(std::initializer_list<unsigned> w) {
    unsigned sum = 0;
    for (unsigned x : w) sum += x;
    uint64_t r = u(sum - 1);
    size_t i = 0;
    for (unsigned x : w) { if (r < x) return i; r -= x; i++; }
    return 0;
}

uint64_t Gen::size(uint64_t max) {
    switch (weighted({5, 3, 2, 1})) {
        case 0: return u(std::min<uint64_t>(max, 8));
        case 1: return u(std::min<uint64_t>(max, 64));
        case 2: {   // log-uniform
            unsigned b = 0; while ((1ull << b) < max && b < 40) b++;
            uint64_t hi = 1ull << u(b);
            return std::min(max, u(hi));
        }
        default: {  // around powers of two
            unsigned b = 0; while ((1ull << (b + 1)) <= max && b < 40) b++;
            uint64_t x = 1ull << u(b);
            int64_t y = (int64_t)x + (int64_t)u(4) - 2;
            if (y < 0) y = 0;
            return std::min<uint64_t>(max, y);
        }
    }
}

uint64_t Gen::num(unsigned bits) {
    uint64_t mask = bits >= 64 ? ~0ull : (1ull << bits) - 1;
    switch (weighted({3, 3, 3, 4})) {
        case 0: return u(std::min<uint64_t>(mask, 255));
        case 1: { // boundaries of all widths
            uint64_t x = 1ull << u(bits - 1);
            return (x + u(4) - 2) & mask;
        }
        case 2: { // high end / complement
            uint64_t x = u(255);
            return ~x & mask;
        }
        default: return u(mask);
    }
}

std::string Gen::bytes(size_t len) {
    std::string s(len, 'a');
    switch (weighted({2, 2, 4, 1, 1})) {
        case 0: break;
        case 1: for (size_t i = 0; i < len; i++) s[i] = 'a' + i % 26; break;
        case 2: { uint64_t x = u(UINT32_MAX); for (size_t i = 0; i < len; i++) { s[i] = (char)(x >> 24); x = mix(x); } break; }
        case 3: for (size_t i = 0; i < len; i++) s[i] = 0; break;
        default: for (size_t i = 0; i < len; i++) s[i] = (char)0xff; break;
    }
    return s;
}

// ---------------------------------------------------------------- shared state
constexpr size_t MAX_WORKERS = 128, MAX_REPLAYS = 8;
constexpr size_t MAX_LABELS = 160;
constexpr size_t HASH_SLOTS = 1 << 22;
constexpr size_t MAX_SAMPLES = 8;
enum Kind { K_NONE = 0, K_HARD, K_SOFT, K_CRASH, K_HANG, K_STUCK };
static const char *kind_name[] = {"none", "assertion", "deadline", "crash", "hang", "stuck"};

struct Slot {
    volatile uint64_t idx;
    volatile int64_t start_ms;   // 0: between cases
    volatile int kind;
    char msg[MSG_SIZE];
    char notes[MSG_SIZE];
    volatile uint32_t notes_len;
};
struct Label { std::atomic<int> used; char name[192]; std::atomic<uint64_t> n; };
struct Shared {
    std::atomic<uint64_t> next_case;
    std::atomic<int> stop;
    std::atomic<uint64_t> evals, nontriv, distinct, knowns;
    std::atomic<int> nsamples;
    char samples[MAX_SAMPLES][MSG_SIZE];
    Label labels[MAX_LABELS];
    Label known[32];
    std::atomic<uint64_t> hashes[HASH_SLOTS];
    Slot slots[MAX_WORKERS + MAX_REPLAYS];
};
static Shared *sh;
static Trace *traces;   // [MAX_WORKERS+MAX_REPLAYS]
static Slot *slot;      // of this process
static Trace *trace;
static bool is_nontrivial;
static bool is_thorough, is_replay;
static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
void add(const Prop &p) { props().push_back(p); }
static std::string scratch_root;
const std::string &scratch() { return scratch_root; }
bool thorough() { return is_thorough; }
bool replaying() { return is_replay; }

static int64_t now_ms() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000ll + t.tv_nsec / 1000000; }

// true if no thread of the process (but `self`) was seen running or ready to run
// for `ms`: whatever it waits for is not a matter of speed
static bool quiescent(pid_t pid, pid_t self, int ms) {
    char path[64]; snprintf(path, sizeof path, "/proc/%d/task", (int)pid);
    for (int64_t end = now_ms() + ms; now_ms() < end; usleep(10000)) {
        DIR *d = opendir(path);
        if (!d) return false;
        while (dirent *e = readdir(d)) {
            int tid = atoi(e->d_name);
            if (tid <= 0 || tid == self) continue;
            char f[128], b[512]; snprintf(f, sizeof f, "%s/%d/stat", path, tid);
            int fd = open(f, O_RDONLY | O_CLOEXEC);
            if (fd < 0) continue;
            ssize_t n = syscall(SYS_read, fd, b, sizeof b - 1);
            syscall(SYS_close, fd);
            if (n <= 0) continue;
            b[n] = 0;
            char *c = strrchr(b, ')');
            if (c && c[1] && c[2] != 'S') { closedir(d); return false; }
        }
        closedir(d);
    }
    return true;
}

bool progressing = false;
void fail(bool soft, const char *fmt, ...) {
    static std::atomic<int> once{0};
    if (once.exchange(1)) for (;;) pause();   // another thread is already reporting
    va_list ap; va_start(ap, fmt);
    vsnprintf(slot->msg, MSG_SIZE, fmt, ap);
    va_end(ap);
    slot->kind = !soft ? K_HARD : !progressing && quiescent(getpid(), syscall(SYS_gettid), 1500) ? K_STUCK : K_SOFT;
    _exit(77);
}

static void bump(Label *tab, size_t n, const char *name, uint64_t k) {
    for (size_t i = 0; i < n; i++) {
        int st = tab[i].used.load();
        if (st == 0) {
            int z = 0;
            if (tab[i].used.compare_exchange_strong(z, 1)) {
                strncpy(tab[i].name, name, 191);
                tab[i].used.store(2);
            }
        }
        while (tab[i].used.load() == 1) {}
        if (!strncmp(tab[i].name, name, 191)) { tab[i].n += k; return; }
    }
}
void label(const char *name) { if (!is_replay) bump(sh->labels, MAX_LABELS, name, 1); }
void labeln(const char *name, uint64_t n) { if (!is_replay) bump(sh->labels, MAX_LABELS, name, n); }
static std::string known_file;      // content of known_findings.txt
static const char *cur_id = "";
void known(const char *key) {
    std::string line = std::string("known: property=") + cur_id + " " + key + "\n";
    if (known_file.find(line) == std::string::npos) fail(false, "%s (not a listed finding)", key);
    bump(sh->known, 32, key, 1);
}
void nontrivial() { is_nontrivial = true; }
void note(const char *fmt, ...) {
    uint32_t l = slot->notes_len;
    if (l + 2 >= MSG_SIZE) return;
    va_list ap; va_start(ap, fmt);
    int k = vsnprintf(slot->notes + l, MSG_SIZE - l, fmt, ap);
    va_end(ap);
    if (k < 0) return;
    slot->notes_len = std::min<uint32_t>(MSG_SIZE - 1, l + k);
}
std::string hex(const std::string &s, size_t max) {
    std::string r; char b[4];
    for (size_t i = 0; i < s.size() && i < max; i++) { snprintf(b, 4, "%02x", (unsigned char)s[i]); r += b; }
    if (s.size() > max) r += "..(" + std::to_string(s.size()) + "B)";
    return r;
}

// runs one case in this process
static void run_case(const Prop &p, Gen &g) {
    slot->kind = K_NONE; slot->msg[0] = 0; slot->notes[0] = 0; slot->notes_len = 0;
    is_nontrivial = false;
    cur_id = p.id;
    if (before_case) before_case();
    try {
        p.fn(g);
    } catch (const std::exception &e) {
        fail(false, "uncaught exception: %s", e.what());
    } catch (...) {
        fail(false, "uncaught exception");
    }
}

static uint64_t case_seed(const Prop &p, uint64_t seed, uint64_t idx) {
    uint64_t h = mix(seed ^ 0x5bd1e995);
    for (const char *c = p.id; *c; c++) h = mix(h ^ (unsigned char)*c);
    for (const char *c = p.sub; *c; c++) h = mix(h ^ (unsigned char)*c);
    return mix(h ^ idx * 0x9e3779b97f4a7c15ull);
}

static void worker(const Prop &p, uint64_t seed, uint64_t total) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    for (;;) {
        if (sh->stop.load()) break;
        uint64_t i = sh->next_case++;
        if (i >= total) break;
        slot->idx = i;
        slot->start_ms = now_ms();
        Gen g(trace, case_seed(p, seed, i));
        run_case(p, g);
        slot->start_ms = 0;
        sh->evals++;
        if (is_nontrivial) {
            sh->nontriv++;
            uint64_t h = 1469598103934665603ull;
            for (uint64_t k = 0; k < trace->n; k++) h = mix(h ^ trace->v[k]);
            if (!h) h = 1;
            for (uint64_t q = 0; q < 64; q++) {
                auto &e = sh->hashes[(h + q) % HASH_SLOTS];
                uint64_t z = 0;
                if (e.compare_exchange_strong(z, h)) { sh->distinct++; break; }
                if (z == h) break;
            }
            if (slot->notes_len && sh->nsamples.load() < (int)MAX_SAMPLES && (i % 7 == 3 || total < 200)) {
                int k = sh->nsamples++;
                if (k < (int)MAX_SAMPLES) memcpy(sh->samples[k], slot->notes, MSG_SIZE);
            }
        }
    }
    _exit(0);
}

struct Outcome { int kind = 0; std::string msg, notes; std::vector<uint64_t> choices; };

// runs given choices (or a seed) in n forked children at once; slots behind those of the workers are used
static std::vector<Outcome> run_children(const Prop &p, const std::vector<uint64_t> *rep, uint64_t seed, unsigned timeout, unsigned n, bool verbose = false) {
    std::vector<pid_t> pids(n, 0);
    std::vector<Outcome> out(n);
    if (n > MAX_REPLAYS) n = MAX_REPLAYS;
    fflush(stdout); fflush(stderr);
    for (unsigned k = 0; k < n; k++) {
        Slot *s = &sh->slots[MAX_WORKERS + k];
        Trace *t = &traces[MAX_WORKERS + k];
        s->kind = K_NONE; s->msg[0] = 0; s->notes[0] = 0; s->notes_len = 0; t->n = 0;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            setpgid(0, 0);
            is_replay = true;
            if (!verbose || k) { int d = open("/dev/null", O_WRONLY); dup2(d, 2); dup2(d, 1); }
            slot = s; trace = t;
            if (rep) { Gen g(t, rep); run_case(p, g); }
            else { Gen g(t, seed); run_case(p, g); }
            _exit(0);
        }
        pids[k] = pid;
    }
    int64_t end = now_ms() + timeout * 1000ll;
    useconds_t nap = 200;
    for (unsigned left = n; left;) {
        for (unsigned k = 0; k < n; k++) {
            pid_t pid = pids[k];
            if (!pid) continue;
            int st = 0; bool hung = false, stuck = false;
            pid_t r = waitpid(pid, &st, WNOHANG);
            if (r != pid) {
                if (now_ms() <= end) continue;
                stuck = quiescent(pid, 0, 1000); kill(pid, SIGKILL); waitpid(pid, &st, 0); hung = true;
            }
            kill(-pid, SIGKILL);
            pids[k] = 0; left--;
            Slot *s = &sh->slots[MAX_WORKERS + k];
            Trace *t = &traces[MAX_WORKERS + k];
            Outcome &o = out[k];
            o.notes = s->notes;
            o.choices.assign(t->v, t->v + t->n);
            if (hung) { o.kind = stuck ? K_STUCK : K_HANG; o.msg = "case did not finish within " + std::to_string(timeout) + " s"; }
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.kind = K_NONE;
            else if (WIFEXITED(st) && WEXITSTATUS(st) == 77) { o.kind = s->kind; o.msg = s->msg; }
            else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.kind = K_NONE; o.msg = "killed"; }
            else {
                o.kind = K_CRASH;
                o.msg = WIFSIGNALED(st) ? "process died with signal " + std::to_string(WTERMSIG(st))
                                        : "process ended by sanitizer or exit, status " + std::to_string(WEXITSTATUS(st));
            }
        }
        usleep(nap); if (nap < 5000) nap *= 2;
    }
    return out;
}
static Outcome run_child(const Prop &p, const std::vector<uint64_t> *rep, uint64_t seed, unsigned timeout, bool verbose = false) {
    return run_children(p, rep, seed, timeout, 1, verbose)[0];
}

static bool same_class(int a, int b) {
    auto late = [](int k) { return k == K_SOFT || k == K_HANG || k == K_STUCK; };
    bool la = late(a), lb = late(b);
    return a != K_NONE && b != K_NONE && la == lb;
}

static Outcome shrink(const Prop &p, Outcome best, int64_t budget_ms, unsigned max_runs) {
    int64_t end = now_ms() + budget_ms;
    unsigned runs = 0;
    auto attempt = [&](const std::vector<uint64_t> &c) -> bool {
        if (now_ms() > end || runs >= max_runs) return false;
        runs++;
        unsigned to = std::max<int64_t>(1, std::min<int64_t>(p.timeout, (end - now_ms()) / 1000 + 1));
        Outcome o = run_child(p, &c, 0, p.timeout < to ? p.timeout : to);
        if ((o.kind == K_HANG || o.kind == K_STUCK) && to < p.timeout) return false;
        if (!same_class(o.kind, best.kind)) return false;
        // strip: choices actually used
        if (o.choices.size() > c.size() || (o.choices.size() == c.size() && !(o.choices < best.choices || c.size() < best.choices.size()))) {
            if (o.choices.size() > c.size()) o.choices.resize(c.size());
        }
        best = o;
        return true;
    };
    // choices beyond the end are zero: drop trailing zeros
    bool progress = true;
    while (progress && now_ms() < end && runs < max_runs) {
        progress = false;
        for (size_t blk : {256, 64, 32, 16, 8, 4, 3, 2, 1}) {
            for (size_t i = 0; i + blk <= best.choices.size();) {
                if (now_ms() > end || runs >= max_runs) break;
                auto c = best.choices;
                // delete from the end first
                size_t pos = c.size() - blk - i;
                c.erase(c.begin() + pos, c.begin() + pos + blk);
                size_t before = best.choices.size();
                if (attempt(c)) { progress = true; if (best.choices.size() >= before) i += blk; }
                else i += blk > 1 ? blk : 1;
            }
        }
        for (size_t blk : {32, 8, 4, 2, 1}) {
            for (size_t i = 0; i + blk <= best.choices.size(); i += blk) {
                auto c = best.choices;
                bool any = false;
                for (size_t k = i; k < i + blk; k++) { if (c[k]) any = true; c[k] = 0; }
                if (any && attempt(c)) progress = true;
            }
        }
        for (size_t i = 0; i < best.choices.size(); i++) {
            uint64_t lo = 0, hi = best.choices[i];
            while (lo < hi && now_ms() < end && runs < max_runs && i < best.choices.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                auto c = best.choices; c[i] = mid;
                if (attempt(c)) { progress = true; hi = mid; }
                else lo = mid + 1;
            }
        }
    }
    return best;
}

static std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}

static std::string write_replay(const std::string &dir, const Prop &p, const Outcome &o, uint64_t seed, uint64_t idx, const char *how) {
    mkdir(dir.c_str(), 0777);
    std::string path = dir + "/" + p.id + "-" + p.sub + "-" + std::to_string(seed) + "-" + std::to_string(idx) + ".replay";
    FILE *f = fopen(path.c_str(), "w");
    if (!f) return path;
    fprintf(f, "property %s\nsub %s\nseed %" PRIu64 "\ncase %" PRIu64 "\nkind %s\nconfirmed %s\n", p.id, p.sub, seed, idx, kind_name[o.kind], how);
    fprintf(f, "message %s\nnotes %s\nchoices", jstr(o.msg).c_str(), jstr(o.notes).c_str());
    for (auto c : o.choices) fprintf(f, " %" PRIu64, c);
    fprintf(f, "\n");
    fclose(f);
    return path;
}

static void reset_shared() {
    sh->next_case = 0; sh->stop = 0;
    for (auto &s : sh->slots) { s.kind = 0; s.start_ms = 0; }
}

struct Found { bool any = false; Outcome o; uint64_t idx; std::string path; };

// explores one generator; returns a confirmed violation if any
static Found explore(const Prop &p, uint64_t seed, uint64_t total, const std::string &rdir, double deadline_ms) {
    Found found;
    reset_shared();
    unsigned W = std::min<size_t>(p.workers, MAX_WORKERS);
    std::vector<pid_t> pids(W, 0);
    struct Raw { uint64_t idx; int kind; std::string msg; };
    unsigned unconfirmed_hard = 0, unconfirmed_soft = 0, killed = 0;
    std::set<uint64_t> skip;
    auto spawn = [&](unsigned w) {
        sh->slots[w].start_ms = 0; sh->slots[w].kind = 0; sh->slots[w].idx = UINT64_MAX;
        fflush(stdout); fflush(stderr);
        pid_t pid = fork();
        if (pid == 0) {
            setpgid(0, 0);
            slot = &sh->slots[w]; trace = &traces[w];
            worker(p, seed, total);
        }
        pids[w] = pid;
    };
    for (unsigned w = 0; w < W && w < total; w++) spawn(w);
    int64_t start = now_ms();
    int64_t hard_ms = deadline_ms > 0 ? (int64_t)deadline_ms + 60000 : INT64_MAX;
    unsigned late_agreed = 0; Outcome last_late;
    for (;;) {
        bool alive = false;
        std::vector<Raw> raws;
        for (unsigned w = 0; w < W; w++) {
            if (!pids[w]) continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            Slot &s = sh->slots[w];
            if (r == pids[w]) {
                kill(-pids[w], SIGKILL);
                pids[w] = 0;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                if (WIFEXITED(st) && WEXITSTATUS(st) == 77) raws.push_back({s.idx, s.kind, s.msg});
                else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { killed++; if (killed < 20) spawn(w), alive = true; }
                else raws.push_back({s.idx, K_CRASH, "crash"});
                continue;
            }
            alive = true;
            int64_t t0 = s.start_ms;
            if (t0 && now_ms() - t0 > p.timeout * 1000ll) {
                bool stuck = quiescent(pids[w], 0, 1000);
                kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); kill(-pids[w], SIGKILL);
                pids[w] = 0;
                raws.push_back({s.idx, stuck ? K_STUCK : K_HANG, "hang"});
            }
        }
        if (!raws.empty()) {
            // let the others finish their current case
            sh->stop = 1;
            int64_t end = now_ms() + 3000;
            for (unsigned w = 0; w < W; w++) {
                if (!pids[w]) continue;
                int st;
                while (now_ms() < end && waitpid(pids[w], &st, WNOHANG) == 0) usleep(2000);
                if (kill(pids[w], 0) == 0) { kill(pids[w], SIGKILL); waitpid(pids[w], &st, 0); }
                kill(-pids[w], SIGKILL);
                pids[w] = 0;
            }
            for (auto &r : raws) {
                if (skip.count(r.idx)) continue;
                skip.insert(r.idx);
                printf("candidate: %s.%s case %" PRIu64 " (%s): %s\n", p.id, p.sub, r.idx, kind_name[r.kind], r.msg.c_str());
                fflush(stdout);
                bool late = r.kind == K_SOFT || r.kind == K_HANG;
                // replay: a deadline verdict needs three agreeing replays (over all candidates of
                // this generator), others one of twelve (of five when the process was seen stuck
                // with nothing to run) or a second candidate
                Outcome last; unsigned agree = 0, done = 0;
                bool stuck = r.kind == K_STUCK;
                unsigned tries = late ? 3 : stuck ? 5 : 12;
                while (done < tries) {
                    unsigned n = std::min(tries - done, late ? 3u : stuck ? 5u : done ? 4u : 1u);
                    for (Outcome &o : run_children(p, nullptr, case_seed(p, seed, r.idx), p.timeout + 10, n, !done)) {
                        done++;
                        if (o.kind != K_NONE) { if (agree == 0 || o.kind == K_HARD) last = o; agree++; }
                    }
                    if (!late && agree >= (stuck ? 2 : 3)) break;
                }
                printf("  replays agreeing: %u of %u\n", agree, done); fflush(stdout);
                if (late) { late_agreed += agree; if (agree && last.kind != K_NONE) last_late = last; }
                bool confirmed = late ? late_agreed >= 3 : agree >= 1;
                if (late && confirmed && !agree) last = last_late;
                if (!confirmed) {
                    if (late) unconfirmed_soft++; else unconfirmed_hard++;
                    if (late || unconfirmed_hard < 2) {
                        if (now_ms() - start > hard_ms) break;
                        continue;
                    }
                    last.kind = r.kind; last.msg = r.msg;
                }
                Outcome best = last;
                bool flaky = !confirmed || agree < (stuck ? 2 : 3) || now_ms() - start > hard_ms;
                if (!flaky) best = shrink(p, last, late || stuck ? 45000 : 40000, late || stuck ? 12 : 1500);
                found.any = true; found.o = best; found.idx = r.idx;
                char how[64]; snprintf(how, 64, "%u of %u replays", agree, done);
                found.path = write_replay(rdir, p, best, seed, r.idx, how);
                return found;
            }
            if (found.any) return found;
            // resume the rest
            if (deadline_ms > 0 && now_ms() - start > deadline_ms) break;
            sh->stop = 0;
            for (unsigned w = 0; w < W; w++) spawn(w);
            alive = true;
        }
        if (!alive) break;
        if (deadline_ms > 0 && now_ms() - start > deadline_ms && !sh->stop) {
            sh->stop = 1;   // inconclusive remainder; what ran is reported
        }
        usleep(5000);
    }
    if (unconfirmed_soft) bump(sh->labels, MAX_LABELS, "deadline not confirmed by replay", unconfirmed_soft);
    if (unconfirmed_hard) bump(sh->labels, MAX_LABELS, "failure not confirmed by replay", unconfirmed_hard);
    if (killed) bump(sh->labels, MAX_LABELS, "worker killed from outside", killed);
    return found;
}

static bool read_replay(const char *path, std::string &id, std::string &sub, std::vector<uint64_t> &choices) {
    FILE *f = fopen(path, "r");
    if (!f) return false;
    char *line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0) {
        std::string s(line, n);
        while (!s.empty() && (s.back() == '\n')) s.pop_back();
        if (s.rfind("property ", 0) == 0) id = s.substr(9);
        else if (s.rfind("sub ", 0) == 0) sub = s.substr(4);
        else if (s.rfind("choices", 0) == 0) {
            const char *c = s.c_str() + 7; char *e;
            for (;;) { uint64_t v = strtoull(c, &e, 10); if (e == c) break; choices.push_back(v); c = e; }
        }
    }
    free(line); fclose(f);
    return true;
}

static int run_replay(const std::string &replay) {
        std::string id, sub; std::vector<uint64_t> c;
        if (!read_replay(replay.c_str(), id, sub, c)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 2; }
        for (auto &p : props()) if (id == p.id && sub == p.sub) {
            Outcome o = run_child(p, &c, 0, p.timeout + 10, true);
            printf("notes: %s\nresult: %s %s\n", o.notes.c_str(), kind_name[o.kind], o.msg.c_str());
            if (o.kind) printf("VIOLATION property=%s replay=%s\n", id.c_str(), replay.c_str());
            return o.kind ? 1 : 0;
        }
        fprintf(stderr, "no such property %s.%s\n", id.c_str(), sub.c_str());
        return 2;
    }

int main(int argc, char **argv) {
    std::string want, tier = "quick", evidence, rdir = "replays", replay, only;
    uint64_t seed = 1; double limit_s = 0; double scale = 1; bool list = false; long long one_case = -1; unsigned times = 1;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") want = val();
        else if (a == "--sub") only = val();
        else if (a == "--tier") tier = val();
        else if (a == "--seed") seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--evidence") evidence = val();
        else if (a == "--replaydir") rdir = val();
        else if (a == "--replay") replay = val();
        else if (a == "--limit") limit_s = atof(val().c_str());
        else if (a == "--scale") scale = atof(val().c_str());
        else if (a == "--known") {
            if (FILE *f = fopen(val().c_str(), "r")) { char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) known_file.append(b, n); fclose(f); }
        }
        else if (a == "--case") { one_case = strtoll(val().c_str(), nullptr, 10); times = atoi(val().c_str()); }
        else if (a == "--list") list = true;
    }
    if (list) { for (auto &p : props()) printf("%s %s\n", p.id, p.sub); return 0; }
    is_thorough = tier == "thorough";
    signal(SIGPIPE, SIG_DFL);
    sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    traces = (Trace *)mmap(nullptr, sizeof(Trace) * (MAX_WORKERS + MAX_REPLAYS), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED || traces == MAP_FAILED) { perror("mmap"); return 2; }
    slot = &sh->slots[MAX_WORKERS]; trace = &traces[MAX_WORKERS];

    struct Scratch {
        Scratch() { char t[] = "/tmp/dowow-check-XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(2); } scratch_root = t; }
        ~Scratch() { nftw(scratch_root.c_str(), [](const char *p, const struct stat *, int, struct FTW *) { return remove(p); }, 16, FTW_DEPTH | FTW_PHYS); }
    } scratch_dir;
    if (!replay.empty()) return run_replay(replay);
    if (one_case >= 0) {        // a single generated case, a number of times
        int bad = 0;
        for (auto &p : props()) if (want == p.id && only == p.sub) for (unsigned k = 0; k < times; k += 8)
            for (Outcome &o : run_children(p, nullptr, case_seed(p, seed, one_case), p.timeout + 10, std::min(8u, times - k), !bad)) if (o.kind || times == 1) { bad += o.kind != 0; printf("%s: %s\nnotes: %s\n", kind_name[o.kind], o.msg.c_str(), o.notes.c_str()); }
        printf("%d of %u failed\n", bad, times);
        return bad ? 1 : 0;
    }
    int64_t t0 = now_ms();
    bool violated = false; std::string rules, subs; unsigned matched = 0;
    for (auto &p : props()) {
        if (want != p.id || (!only.empty() && only != p.sub)) continue;
        matched++;
        uint64_t total = (uint64_t)((is_thorough ? p.thor : p.quick) * scale);
        if (total < 1) total = 1;
        uint64_t e0 = sh->evals, n0 = sh->nontriv;
        int64_t s0 = now_ms();
        double left = limit_s > 0 ? std::max(20000.0, limit_s * 1000 - (s0 - t0)) : 0;
        Found f = explore(p, seed, total, rdir, left);
        printf("%s.%s: %" PRIu64 " cases (%" PRIu64 " non-trivial) of %" PRIu64 " in %.1f s\n", p.id, p.sub,
               sh->evals - e0, sh->nontriv - n0, total, (now_ms() - s0) / 1000.0);
        if (!rules.empty()) { rules += " | "; subs += ", "; }
        rules += std::string(p.sub) + ": " + p.rule;
        subs += jstr(p.sub) + ": {\"cases\": " + std::to_string(sh->evals - e0) + ", \"nontrivial\": " + std::to_string(sh->nontriv - n0) + "}";
        if (f.any) {
            printf("  %s: %s\n  case: %s\n", kind_name[f.o.kind], f.o.msg.c_str(), f.o.notes.c_str());
            printf("VIOLATION property=%s replay=%s\n", p.id, f.path.c_str());
            violated = true;
            break;
        }
    }
    if (!matched) { fprintf(stderr, "no property %s here\n", want.c_str()); return 2; }
    for (auto &k : sh->known) if (k.used.load() == 2) printf("KNOWN-FINDING: property=%s %s\n", want.c_str(), k.name);
    if (!evidence.empty()) {
        FILE *f = fopen(evidence.c_str(), "w");
        if (!f) { perror("evidence"); return 2; }
        fprintf(f, "{\n \"property\": \"%s\", \"tier\": \"%s\", \"seed\": %" PRIu64 ", \"level\": \"exploration\",\n", want.c_str(), tier.c_str(), seed);
        fprintf(f, " \"coverage\": {\n  \"evaluations\": %" PRIu64 ",\n  \"distinct_nontrivial\": %" PRIu64 ",\n  \"rule\": %s,\n",
                sh->evals.load(), sh->distinct.load(), jstr(rules).c_str());
        fprintf(f, "  \"generators\": {%s},\n  \"classes\": {", subs.c_str());
        bool first = true;
        for (auto &l : sh->labels) if (l.used.load() == 2) { fprintf(f, "%s%s: %" PRIu64, first ? "" : ", ", jstr(l.name).c_str(), l.n.load()); first = false; }
        fprintf(f, "},\n  \"excluded_known_findings\": {");
        first = true;
        for (auto &l : sh->known) if (l.used.load() == 2) { fprintf(f, "%s%s: %" PRIu64, first ? "" : ", ", jstr(l.name).c_str(), l.n.load()); first = false; }
        fprintf(f, "},\n  \"samples\": [");
        int ns = std::min<int>(sh->nsamples, MAX_SAMPLES);
        for (int i = 0; i < ns; i++) fprintf(f, "%s\n   %s", i ? "," : "", jstr(sh->samples[i]).c_str());
        fprintf(f, "]\n },\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", (now_ms() - t0) / 1000.0, violated ? 1 : 0);
        fclose(f);
    }
    return violated ? 1 : 0;
}
}

int main(int argc, char **argv) { return pbt::main(argc, argv); }
