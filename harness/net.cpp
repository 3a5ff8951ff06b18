#include "net.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <dirent.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <pthread.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/timerfd.h>
#include <sys/un.h>
#include <time.h>
#include <unistd.h>

namespace net {
Real R;
std::atomic<bool> remap_bind{false}; uint32_t remap_to; std::atomic<uint16_t> remapped_port{0};
Faults F;
static std::atomic<bool> tracking{false};
enum : uint8_t { FD_UNKNOWN = 0, FD_LIB, FD_DEAD, FD_OURS };
static std::atomic<uint8_t> fdst[65536];

template<class T> static void sym(T &p, const char *n) { p = (T)dlsym(RTLD_NEXT, n); }
static void resolve() {
    static std::atomic<int> done{0};
    if (done.load() == 2) return;
    int z = 0;
    if (!done.compare_exchange_strong(z, 1)) { return; }
    sym(R.mutex_lock, "pthread_mutex_lock"); sym(R.mutex_unlock, "pthread_mutex_unlock");
    sym(R.poll, "poll"); sym(R.recv, "recv"); sym(R.send, "send"); sym(R.read, "read"); sym(R.write, "write");
    sym(R.close, "close"); sym(R.socket, "socket"); sym(R.accept, "accept"); sym(R.accept4, "accept4");
    sym(R.connect, "connect"); sym(R.bind, "bind"); sym(R.shutdown, "shutdown"); sym(R.eventfd, "eventfd");
    sym(R.timerfd_create, "timerfd_create"); sym(R.timerfd_settime, "timerfd_settime");
    done = 2;
}
__attribute__((constructor(101))) static void init() { resolve(); }

static uint64_t draw() { return pbt::mix(F.seed + F.ctr.fetch_add(1, std::memory_order_relaxed) * 0x9e3779b97f4a7c15ull); }
static bool hit(unsigned n) { return n && draw() % n == 0; }
static void doze(uint64_t us) {
    if (F.budget_us.fetch_sub(us) < (int64_t)us) { F.budget_us.fetch_add(us); return; }
    F.n_delay++;
    timespec t{(time_t)(us / 1000000), (long)(us % 1000000) * 1000};
    nanosleep(&t, nullptr);
}
static void maybe_delay() {
    if (!F.on.load(std::memory_order_relaxed) || !F.delay) return;
    if (hit(F.delay)) { uint64_t d = draw(); doze(d % 4 ? 1 + d / 4 % 300 : 1 + d / 4 % F.delay_us); }
}
static void use(int fd, const char *op) {
    if (fd < 0 || fd >= 65536 || !tracking.load(std::memory_order_relaxed)) return;
    uint8_t s = fdst[fd].load();
    if (s == FD_DEAD) PBT_FAIL("%s on descriptor %d which the library has already closed", op, fd);
    if (s == FD_OURS) PBT_FAIL("%s on descriptor %d which belongs to the application", op, fd);
}
static void opened(int fd) { if (fd >= 0 && fd < 65536) fdst[fd] = FD_LIB; }
void track(bool on) { tracking = on; }
void own(int fd) { if (fd >= 0 && fd < 65536) fdst[fd] = FD_OURS; }
void give(int fd) { if (fd >= 0 && fd < 65536) fdst[fd] = FD_LIB; }
void disown(int fd) { if (fd >= 0 && fd < 65536) fdst[fd] = FD_UNKNOWN; }
int hclose(int fd) { disown(fd); return R.close(fd); }
static size_t cap(size_t n, unsigned c) {
    if (!F.on.load(std::memory_order_relaxed) || !c) return n;
    size_t k = F.cap_random ? 1 + draw() % c : c;
    if (k < n) { F.n_short++; return k; }
    return n;
}
static std::atomic<bool> is_timer[65536];
static bool on() { return F.on.load(std::memory_order_relaxed); }
}

using namespace net;
extern "C" {
int poll(struct pollfd *p, nfds_t n, int t) {
    resolve();
    if (tracking) for (nfds_t i = 0; i < n; i++) use(p[i].fd, "poll");
    if (on()) {
        maybe_delay();
        if (t && n > 1 && F.long_poll && F.long_left > 0 && hit(F.long_poll) && F.long_left-- > 0) {
            F.n_long++;
            timespec ts{(time_t)(F.long_ms / 1000), (long)(F.long_ms % 1000) * 1000000};
            nanosleep(&ts, nullptr);
        }
        if (t && hit(F.eintr)) { F.n_eintr++; errno = EINTR; return -1; }
    }
    int r = R.poll(p, n, t);
    if (on()) {
        int e = errno; maybe_delay();
        if (F.timer_ms && r > 0 && n > 1) for (nfds_t i = 0; i < n; i++)
            if ((p[i].revents & POLLIN) && p[i].fd >= 0 && p[i].fd < 65536 && is_timer[p[i].fd] && F.timer_left-- > 0) {
                timespec ts{(time_t)(F.timer_ms / 1000), (long)(F.timer_ms % 1000) * 1000000};
                F.n_timer++; nanosleep(&ts, nullptr); break;
            }
        errno = e;
    }
    return r;
}
ssize_t recv(int fd, void *b, size_t n, int fl) {
    resolve(); use(fd, "recv");
    if (on()) { maybe_delay(); if (hit(F.eintr)) { F.n_eintr++; errno = EINTR; return -1; } }
    return R.recv(fd, b, n ? cap(n, F.recv_cap) : n, fl);
}
ssize_t send(int fd, const void *b, size_t n, int fl) {
    resolve(); use(fd, "send");
    if (on()) {
        maybe_delay();
        if ((fl & MSG_DONTWAIT) && hit(F.eintr)) { F.n_eintr++; errno = EINTR; return -1; }
        if ((fl & MSG_DONTWAIT) && hit(F.eagain)) { F.n_again++; errno = EAGAIN; return -1; }
    }
    return R.send(fd, b, n ? cap(n, F.send_cap) : n, fl);
}
ssize_t read(int fd, void *b, size_t n) { resolve(); use(fd, "read"); if (on()) maybe_delay(); return R.read(fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { resolve(); use(fd, "write"); if (on()) maybe_delay(); return R.write(fd, b, n); }
int close(int fd) {
    resolve(); use(fd, "close");
    if (on()) maybe_delay();
    if (fd >= 0 && fd < 65536) { is_timer[fd] = false; if (fdst[fd] == FD_LIB) fdst[fd] = FD_DEAD; }
    return R.close(fd);
}
static bool no_fd() {
    if (!on() || F.fd_fails.load(std::memory_order_relaxed) <= 0) return false;
    if (F.fd_skip.fetch_sub(1) > 0 || F.fd_fails.fetch_sub(1) <= 0) return false;
    F.n_nofd++; errno = EMFILE; return true;
}
int socket(int a, int b, int c) { resolve(); if (no_fd()) return -1; int r = R.socket(a, b, c); opened(r); return r; }
int accept(int fd, sockaddr *a, socklen_t *l) {
    resolve(); use(fd, "accept");
    int r = R.accept(fd, a, l);
    if (r >= 0 && on() && hit(F.abort_accept)) { R.close(r); F.n_aborted++; errno = ECONNABORTED; return -1; }
    opened(r); return r;
}
int accept4(int fd, sockaddr *a, socklen_t *l, int fl) {
    resolve(); use(fd, "accept");
    if (on()) {
        maybe_delay();
        if (hit(F.eintr)) { F.n_eintr++; errno = EINTR; return -1; }
        if (no_fd()) return -1;
        if (hit(F.fail_accept)) { static const int es[] = {EMFILE, ENFILE, ENOBUFS, ENOMEM}; F.n_failacc++; errno = es[draw() % 4]; return -1; }
    }
    int r = R.accept4(fd, a, l, fl);
    if (r >= 0 && on() && hit(F.abort_accept)) { R.close(r); F.n_aborted++; errno = ECONNABORTED; return -1; }
    opened(r); return r;
}
int bind(int fd, const sockaddr *a, socklen_t l) {
    resolve(); use(fd, "bind");
    if (!net::remap_bind || a->sa_family != AF_INET) return R.bind(fd, a, l);
    sockaddr_in b{}; b.sin_family = AF_INET; b.sin_addr.s_addr = net::remap_to;
    int r = R.bind(fd, (sockaddr *)&b, sizeof b);
    socklen_t k = sizeof b;
    if (!r && !getsockname(fd, (sockaddr *)&b, &k)) net::remapped_port = ntohs(b.sin_port);
    return r;
}
int connect(int fd, const sockaddr *a, socklen_t l) { resolve(); use(fd, "connect"); if (on()) maybe_delay(); return R.connect(fd, a, l); }
int shutdown(int fd, int how) { resolve(); use(fd, "shutdown"); if (on()) maybe_delay(); return R.shutdown(fd, how); }
int eventfd(unsigned v, int fl) { resolve(); if (on()) maybe_delay(); if (no_fd()) return -1; int r = R.eventfd(v, fl); opened(r); return r; }
int timerfd_create(int c, int fl) { resolve(); if (no_fd()) return -1; int r = R.timerfd_create(c, fl); opened(r); if (r >= 0 && r < 65536) is_timer[r] = true; return r; }
int timerfd_settime(int fd, int fl, const struct itimerspec *n, struct itimerspec *o) {
    resolve(); use(fd, "timerfd_settime");
    itimerspec q;
    if (on() && F.fast_sa && n && n->it_value.tv_sec == 10 && !n->it_value.tv_nsec) {
        q = *n; q.it_value = timespec{(time_t)(F.fast_sa / 1000), (long)(F.fast_sa % 1000) * 1000000};
        if (q.it_interval.tv_sec == 10) q.it_interval = q.it_value;
        n = &q; F.n_fast++;
    }
    return R.timerfd_settime(fd, fl, n, o);
}
static bool lock_hit() {
    if (!on() || !F.lock_delay) return false;
    return hit(F.lock_delay);
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!R.mutex_lock) resolve();
    if (!R.mutex_lock) return 0;
    if (lock_hit()) doze(1 + draw() % F.delay_us);
    return R.mutex_lock(m);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!R.mutex_unlock) resolve();
    if (!R.mutex_unlock) return 0;
    int r = R.mutex_unlock(m);
    if (lock_hit()) doze(1 + draw() % F.delay_us);
    return r;
}
}

namespace net {
void gen_faults(Gen &g, unsigned level) {
    F.on = false;
    F.seed = g.u(UINT32_MAX); F.ctr = 0;
    F.recv_cap = F.send_cap = F.eintr = F.eagain = F.abort_accept = F.fail_accept = F.fast_sa = F.delay = F.lock_delay = F.long_poll = F.timer_ms = 0; F.n_timer = 0; F.timer_left = 0; F.fd_skip = F.fd_fails = 0; F.n_nofd = 0;
    F.cap_random = false; F.delay_us = 1000; F.budget_us = 1200000;
    F.n_eintr = F.n_short = F.n_delay = F.n_aborted = F.n_again = F.n_long = F.n_failacc = F.n_fast = 0;
    if (!level) return;
    static const unsigned caps[] = {0, 0, 1, 2, 3, 4, 5, 7, 64, 1000};
    if (g.flip()) { F.recv_cap = caps[g.u(9)]; F.send_cap = caps[g.u(9)]; F.cap_random = g.flip(); }
    if (level >= 2 && g.flip()) { F.delay = g.one<unsigned>({40, 10, 4, 100}); F.delay_us = g.one<unsigned>({300, 1000, 5000}); }
    if (level >= 2 && g.flip()) { F.lock_delay = g.one<unsigned>({60, 15, 6}); F.delay_us = g.one<unsigned>({300, 1000, 5000}); }
    if (level >= 3 && g.flip()) F.eintr = g.one<unsigned>({20, 5, 3, 2});
    if (level >= 3 && g.flip()) F.eagain = g.one<unsigned>({20, 5, 3, 2});
    if (level >= 1 && g.chance(1, 4)) F.fast_sa = g.one<unsigned>({5, 20, 100});
    F.on = true;
}
void faults_off() { F.on = false; }
std::string show_faults() {
    char b[200];
    snprintf(b, sizeof b, "faults{rcap %u scap %u%s eintr 1/%u eagain 1/%u delay 1/%u lock 1/%u %uus sa %ums} ", F.recv_cap, F.send_cap, F.cap_random ? " random" : "",
             F.eintr, F.eagain, F.delay, F.lock_delay, F.delay_us, F.fast_sa);
    return F.any() || F.fast_sa ? b : "";
}
void label_faults() {
    if (F.n_short) pbt::label("short counts injected");
    if (F.n_eintr) pbt::label("EINTR injected");
    if (F.n_again) pbt::label("EAGAIN injected");
    if (F.n_delay) pbt::label("delays injected");
    if (F.n_aborted) pbt::label("aborted accepts injected");
    if (F.n_failacc) pbt::label("accepts without resources injected");
    if (F.n_nofd) pbt::label("descriptors lacking (injected)");
    if (F.n_fast) pbt::label("keep-alive requests in between (fast timer)");
    if (F.n_long) pbt::label("late polls injected");
    if (F.n_timer) pbt::label("late handling of an expired timer injected");
}

int64_t now_us() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000000ll + t.tv_nsec / 1000; }
double now_s() { return now_us() / 1e6; }
void nap(int us) { int64_t end = now_us() + us; for (;;) { int64_t l = end - now_us(); if (l <= 0) return; timespec t{(time_t)(l / 1000000), (long)(l % 1000000) * 1000}; nanosleep(&t, nullptr); } }

static std::vector<Raw *> raws;   // main thread only
static uint64_t moved;            // bytes moved by raw peers
void pump_all() { for (size_t i = 0; i < raws.size(); i++) raws[i]->pump(); }
bool wait_for(const std::function<bool()> &pred, double limit) {
    int64_t t0 = now_us(), end = t0 + (int64_t)(limit * 1e6);
    for (unsigned k = 0;; k++) {
        uint64_t m = moved;
        pump_all();
        if (pred()) return true;
        int64_t t = now_us();
        if (t > end) return false;
        if (k < 4) sched_yield(); else nap(moved != m ? 50 : t - t0 < 5000 ? 100 : t - t0 < 200000 ? 500 : 3000);
    }
}
void wait_until(const std::function<bool()> &pred, const char *what, double limit) {
    if (wait_for(pred, limit)) return;
    // slow or stuck? the peers have to go on reading to tell
    uint64_t m = moved;
    pbt::progressing = wait_for([&] { return moved - m > 1000; }, 1.5);
    PBT_LATE("%s: not within %.0f s", what, limit);
}

Raw::Raw(int fd_) { raws.push_back(this); if (fd_ >= 0) open(fd_); }
Raw::~Raw() { close(); raws.erase(std::remove(raws.begin(), raws.end(), this), raws.end()); }
void Raw::open(int fd_) { fd = fd_; own(fd); fcntl(fd, F_SETFL, fcntl(fd, F_GETFL) | O_NONBLOCK); }
void Raw::pump() {
    if (fd < 0) return;
    for (int k = 0; k < 12 && writing && outpos < out.size(); k++) {
        size_t n = std::min(out.size() - outpos, write_chunk);
        ssize_t r = R.send(fd, out.data() + outpos, n, MSG_NOSIGNAL | MSG_DONTWAIT);
        if (r > 0) { outpos += r; moved += r; if (outpos > (1 << 20) && outpos == out.size()) { out.clear(); outpos = 0; } }
        else { if (r < 0 && errno != EAGAIN && errno != EINTR) { outpos = out.size(); cut = true; } break; }
        if (write_chunk < 65536) sched_yield();
    }
    if (reading && !ended()) {
        static thread_local char b[65536];
        for (int k = 0; k < 8; k++) {
            size_t n = std::min(std::min(read_chunk, sizeof b), read_limit - in.size());
            if (!n) break;
            ssize_t r = R.recv(fd, b, n, MSG_DONTWAIT);
            if (r > 0) { last_in = now_s(); in.append(b, r); moved += r; }
            else if (r == 0) { eof = true; eof_at = now_s(); break; }
            else { if (errno != EAGAIN && errno != EINTR) { reset = true; eof_at = now_s(); } break; }
            if (read_chunk < 65536) break;
        }
        parse();
    }
}
void Raw::parse() {
    while (in.size() - parsed >= 4) {
        uint32_t l = (uint8_t)in[parsed] | (uint8_t)in[parsed + 1] << 8 | (uint8_t)in[parsed + 2] << 16 | (uint32_t)(uint8_t)in[parsed + 3] << 24;
        if (l < 10) PBT_FAIL("the library sent a frame of announced length %u: %s", l, pbt::hex(in.substr(parsed)).c_str());
        if (in.size() - parsed < l) break;
        std::string f = in.substr(parsed, l);
        parsed += l;
        if (keep_times) times.push_back(now_s());
        MReq m; size_t used;
        if (!dec_req(f.data(), f.size(), m, used) || used != f.size()) PBT_FAIL("the library sent an ill-formed frame %s", pbt::hex(f).c_str());
        if (m.name == "_") keepalives++;
        else frames.push_back(f);
    }
}
void Raw::send_now(const std::string &s) { send(s); pump(); }
void Raw::close(bool rst) {
    if (fd < 0) return;
    if (rst) { linger l{1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    hclose(fd); fd = -1;
}
void Raw::shut_wr() { R.shutdown(fd, SHUT_WR); }

int long_timeout(pbt::Gen &g) {
    switch (g.u(3)) {
        case 0: return -(int)(1 + g.u(3));
        case 1: return g.one<int>({INT32_MAX, 4294968, 8589935, 2147484, 4295, 8590, 2148, 256, 257, 512, 65536, 65537, 131072, 65538, 8388608, 16777216, 16777217, 1 << 30, INT32_MAX - 1, 4294967, 12884902, INT32_MIN, INT32_MIN + 1, -65536, -65535, -256});
        case 2: { int x = (int)g.num(31); return x < 20 ? 20 + x : x; }
        default: { int x = -(int)g.num(31); return x ? x : -1; }
    }
}
void unix_pair(int sv[2]) { if (socketpair(AF_UNIX, SOCK_STREAM, 0, sv)) PBT_FAIL("harness: socketpair: %s", strerror(errno)); }
uint32_t lo_addr() { uint32_t p = getpid(); return htonl(0x7f400000u | (p & 0x3fffff)); }
std::string lo() { in_addr a; a.s_addr = lo_addr(); char b[32]; return inet_ntop(AF_INET, &a, b, sizeof b); }
uint16_t own_port() { return 20000 + getpid() % 12000; }
int tcp_listen(uint16_t *port, int backlog, int share) {
    for (int k = 0; k < 50; k++) {
        int l = R.socket(AF_INET, SOCK_STREAM, 0);
        sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = lo_addr();
        socklen_t n = sizeof a; int on = 1;
        if (share & 1) setsockopt(l, SOL_SOCKET, SO_REUSEADDR, &on, sizeof on);
        if (share & 2) setsockopt(l, SOL_SOCKET, SO_REUSEPORT, &on, sizeof on);
        if (l >= 0 && !R.bind(l, (sockaddr *)&a, sizeof a) && !listen(l, backlog) && !getsockname(l, (sockaddr *)&a, &n)) {
            *port = ntohs(a.sin_port); own(l); return l;
        }
        if (l >= 0) R.close(l);
        nap(20000);
    }
    PBT_LATE("harness: cannot listen on loopback: %s", strerror(errno));
}
int unix_listen(const std::string &path, int backlog) {
    int l = R.socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
    if (R.bind(l, (sockaddr *)&a, sizeof a) || listen(l, backlog)) PBT_FAIL("harness: cannot listen on %s: %s", path.c_str(), strerror(errno));
    own(l);
    return l;
}
int raw_unix(const std::string &path) {
    int s = R.socket(AF_UNIX, SOCK_STREAM, 0);
    sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
    if (R.connect(s, (sockaddr *)&a, sizeof a)) { int e = errno; R.close(s); errno = e; return -1; }
    own(s);
    return s;
}
int raw_tcp(uint16_t port) {
    int s = R.socket(AF_INET, SOCK_STREAM, 0);
    sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = lo_addr(); a.sin_port = htons(port);
    int r; do r = R.connect(s, (sockaddr *)&a, sizeof a); while (r && errno == EINTR);
    if (r) { int e = errno; R.close(s); errno = e; return -1; }
    own(s);
    return s;
}
int raw_accept(int lfd, double limit) {
    int64_t end = now_us() + (int64_t)(limit * 1e6);
    for (;;) {
        pollfd p{lfd, POLLIN, 0};
        if (R.poll(&p, 1, 50) > 0) { int s = R.accept4(lfd, nullptr, nullptr, 0); if (s >= 0) { own(s); return s; } }
        if (now_us() > end) PBT_LATE("nobody connected to the harness's listener within %.0f s", limit);
    }
}
void tcp_pair(int sv[2]) {
    uint16_t port; int l = tcp_listen(&port);
    sv[1] = raw_tcp(port);
    if (sv[1] < 0) PBT_LATE("harness: loopback connect: %s", strerror(errno));
    sv[0] = raw_accept(l);
    hclose(l);
    int one = 1;
    for (int i = 0; i < 2; i++) setsockopt(sv[i], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
}
void set_bufs(int fd, int snd, int rcv) {
    if (snd) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &snd, sizeof snd);
    if (rcv) setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &rcv, sizeof rcv);
}
std::string sock_path(const char *tag) {
    static std::atomic<unsigned> n{0};
    char b[108]; snprintf(b, sizeof b, "%s/%s%d-%u", pbt::scratch().c_str(), tag, (int)getpid(), n++);
    return b;
}

MReq read_req(Request *r) {
    MReq m; m.id = r->GetId(); m.name = r->GetName();
    for (Datum *d : r->GetArguments()) m.args.push_back({d->GetName(), read(d->GetValue())});
    return m;
}
MReq gen_req(Gen &g, size_t max) {
    Lim l; l.str = 40; l.depth = 2; l.elems = 3; l.args = 3; l.name = 12;
    MReq m = gen_request(g, l);
    if (m.name == "_") m.name = "__";
    if (g.chance(1, 4) && max > 400) {
        MArg a; a.name = "pad"; a.v.type = STR; a.v.bytes = g.bytes(g.size(max - 300));
        bool dup = false; for (auto &x : m.args) dup |= x.name == a.name;
        if (!dup) m.args.push_back(a);
    }
    while (enc(m).size() > max && m.args.size()) m.args.pop_back();
    return m;
}
MReq tagged(uint32_t a, uint32_t b, size_t pad, const char *name) {
    MReq m; m.name = name;
    MArg x; x.name = "a"; x.v.type = U32; x.v.num = a; m.args.push_back(x);
    x.name = "b"; x.v.num = b; m.args.push_back(x);
    if (pad) { MArg p; p.name = "p"; p.v.type = STR; p.v.bytes.assign(pad, 'x'); for (size_t i = 0; i < pad; i++) p.v.bytes[i] = (char)(i * 7 + b); m.args.push_back(p); }
    return m;
}
bool untag(const MReq &r, uint32_t &a, uint32_t &b) {
    if (r.args.size() < 2 || r.args[0].name != "a" || r.args[1].name != "b" || r.args[0].v.type != U32 || r.args[1].v.type != U32) return false;
    a = r.args[0].v.num; b = r.args[1].v.num;
    if (r.args.size() == 3) for (size_t i = 0; i < r.args[2].v.bytes.size(); i++) if (r.args[2].v.bytes[i] != (char)(i * 7 + b)) return false;
    return true;
}
MReq parse(const std::string &f) {
    MReq m; size_t used;
    if (!dec_req(f.data(), f.size(), m, used) || used != f.size()) PBT_FAIL("ill-formed frame %s", pbt::hex(f).c_str());
    return m;
}
bool untag(const std::string &f, uint32_t &a, uint32_t &b) { return untag(parse(f), a, b); }
std::string with_id(const std::string &f, uint32_t id) { std::string s = f; std::string b = le(id, 4); for (int i = 0; i < 4; i++) s[4 + i] = b[i]; return s; }
std::string keepalive() { MReq m; m.name = "_"; return enc(m); }
Request *make(const MReq &m) { Request *r = new Request(); build_into(*r, m); return r; }

RequestHandler H[NH];
std::vector<Rec> hlog;
Spin hlock;
std::function<void(Connection *, Request *, int)> on_request;
std::atomic<uint64_t> hcalls{0};
template<int N> static void handler(Connection *c, Request *r) {
    MReq m = read_req(r);
    { Lk l(hlock); hlog.push_back({c, N, enc(m)}); }
    hcalls++;
    if (on_request) on_request(c, r, N);
    delete r;
}
size_t hcount() { Lk l(hlock); return hlog.size(); }
std::vector<Rec> hcopy() { Lk l(hlock); return hlog; }
struct HInit { HInit() { H[0] = handler<0>; H[1] = handler<1>; H[2] = handler<2>; H[3] = handler<3>; H[4] = handler<4>; H[5] = handler<5>; H[6] = handler<6>; H[7] = handler<7>; } } hinit;

Connection *conn_on(int fd) { give(fd); return new Connection(fd); }

void reset() {
    faults_off();
    F.long_poll = 0; F.long_left = 0; F.timer_ms = 0; F.timer_left = 0; F.fd_skip = F.fd_fails = 0;
    track(false);
    { Lk l(hlock); hlog.clear(); }
    on_request = nullptr; hcalls = 0;
    for (auto &s : fdst) s.store(FD_UNKNOWN, std::memory_order_relaxed);
}
struct BInit { BInit() { pbt::before_case = reset; } } binit;

size_t open_fds(std::vector<int> *list) {
    DIR *d = opendir("/proc/self/fd");
    size_t n = 0;
    while (dirent *e = readdir(d)) {
        int f = atoi(e->d_name);
        if (e->d_name[0] == '.' || f == dirfd(d)) continue;
        n++; if (list) list->push_back(f);
    }
    closedir(d);
    return n;
}
size_t threads() {
    DIR *d = opendir("/proc/self/task"); size_t n = 0;
    while (dirent *e = readdir(d)) if (e->d_name[0] != '.') n++;
    closedir(d);
    return n;
}
}
