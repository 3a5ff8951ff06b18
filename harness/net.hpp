// Harness side of the connection/server properties: fault and delay injection at
// the libc boundary, descriptor ownership tracking, raw peers with an independent
// codec, handler recording.
#pragma once
#include "model.hpp"
#include "Connection.hpp"
#include "Client.hpp"
#include "Server.hpp"
#include "SafeConnection.hpp"
#include <atomic>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <poll.h>
#include <sys/socket.h>
#include <thread>

namespace net {
using namespace model;
using pbt::Gen;

// ---- real libc entry points (never intercepted), for the harness's own use
struct Real {
    int (*poll)(struct pollfd *, nfds_t, int);
    ssize_t (*recv)(int, void *, size_t, int);
    ssize_t (*send)(int, const void *, size_t, int);
    ssize_t (*read)(int, void *, size_t);
    ssize_t (*write)(int, const void *, size_t);
    int (*close)(int);
    int (*socket)(int, int, int);
    int (*accept)(int, sockaddr *, socklen_t *);
    int (*accept4)(int, sockaddr *, socklen_t *, int);
    int (*connect)(int, const sockaddr *, socklen_t);
    int (*bind)(int, const sockaddr *, socklen_t);
    int (*shutdown)(int, int);
    int (*eventfd)(unsigned, int);
    int (*timerfd_create)(int, int);
    int (*timerfd_settime)(int, int, const struct itimerspec *, struct itimerspec *);
    int (*mutex_lock)(pthread_mutex_t *);
    int (*mutex_unlock)(pthread_mutex_t *);
};
extern Real R;
// TCP binds of the code under test are redirected to a free port of this address
extern std::atomic<bool> remap_bind; extern uint32_t remap_to; extern std::atomic<uint16_t> remapped_port;

// ---- faults of the current case (read by the intercepted calls of the library)
struct Faults {
    std::atomic<bool> on{false};
    uint64_t seed = 0;
    std::atomic<uint64_t> ctr{0};
    unsigned recv_cap = 0, send_cap = 0;      // max bytes per call (0: none); random in 1..cap when cap_random
    bool cap_random = false;
    unsigned eintr = 0;                        // 1 of N polls / recvs / sends is interrupted (0: never)
    unsigned eagain = 0;                       // 1 of N MSG_DONTWAIT sends finds no room
    unsigned abort_accept = 0;                 // 1 of N accepts fails with ECONNABORTED
    unsigned fail_accept = 0;                  // 1 of N accepts fails for lack of resources, the client keeps waiting
    unsigned fast_sa = 0;                      // timers of the default keep-alive interval (10 s) take this many ms
    unsigned delay = 0;                        // 1 of N intercepted calls sleeps
    unsigned delay_us = 0;                     // ... up to this long
    unsigned lock_delay = 0;                   // 1 of N mutex operations sleeps
    std::atomic<int64_t> budget_us{0};         // total sleep allowed
    unsigned long_poll = 0;                    // 1 of N polls is entered long_ms late
    unsigned long_ms = 0;
    std::atomic<int> long_left{0};
    std::atomic<int> fd_skip{0}, fd_fails{0};  // after fd_skip creations of descriptors by the library, fd_fails fail (process-wide lack)
    std::atomic<uint64_t> n_nofd{0};
    unsigned timer_ms = 0;                     // polls that report an expired timer return this late
    std::atomic<int> timer_left{0};
    std::atomic<uint64_t> n_timer{0};
    std::atomic<uint64_t> n_eintr{0}, n_short{0}, n_delay{0}, n_aborted{0}, n_again{0}, n_long{0}, n_failacc{0}, n_fast{0};
    bool any() const { return recv_cap || send_cap || eintr || eagain || abort_accept || fail_accept || delay || lock_delay; }
};
extern Faults F;
// draws a fault plan; level 0 none .. 3 everything
void gen_faults(Gen &g, unsigned level);
void faults_off();
std::string show_faults();
void label_faults();

// ---- descriptor tracking
void track(bool on);                 // judge operations on dead or foreign descriptors?
void own(int fd);                    // harness-owned descriptor
void give(int fd);                   // descriptor handed to the library
void disown(int fd);
int hclose(int fd);                  // harness closes its own descriptor

// ---- time and waiting
int64_t now_us();
double now_s();
void nap(int us);
class Raw;
// pumps all raw peers until pred() holds; PBT_LATE after the limit
void wait_until(const std::function<bool()> &pred, const char *what, double limit = 20);
bool wait_for(const std::function<bool()> &pred, double limit);
void pump_all();

struct Spin {
    std::atomic_flag f = ATOMIC_FLAG_INIT;
    void lock() { while (f.test_and_set(std::memory_order_acquire)) sched_yield(); }
    void unlock() { f.clear(std::memory_order_release); }
};
typedef std::lock_guard<Spin> Lk;

// ---- raw peers
class Raw {
public:
    int fd = -1;
    bool eof = false, reset = false, cut = false;   // cut: a send failed
    bool reading = true, writing = true;
    size_t read_chunk = 65536, write_chunk = 65536;   // bytes per pump
    size_t read_limit = SIZE_MAX;                      // total bytes to accept
    std::string in;               // all bytes received
    size_t parsed = 0;
    bool keep_times = false;
    std::vector<double> times;    // arrival of every frame (keep-alive included), if keep_times
    std::vector<std::string> frames;   // complete frames that are not keep-alive
    unsigned keepalives = 0;
    double eof_at = 0, last_in = 0;
    std::string out; size_t outpos = 0;
    explicit Raw(int fd_ = -1);
    ~Raw();
    Raw(const Raw &) = delete;
    void open(int fd_);
    void pump();
    void send(const std::string &s) { out += s; }
    void send_now(const std::string &s);   // send, pump once
    bool sent() const { return outpos == out.size(); }
    bool ended() const { return eof || reset; }
    void close(bool rst = false);
    void shut_wr();
    bool complete() const { return parsed == in.size(); }
private:
    void parse();
};

// endpoints made by the harness
// a timeout in seconds: negative, or much longer than any case lasts, also where its milli- or microseconds do not fit
int long_timeout(pbt::Gen &g);
void unix_pair(int sv[2]);
void tcp_pair(int sv[2]);               // [0] accepted side, [1] connecting side
void set_bufs(int fd, int snd, int rcv);
int unix_listen(const std::string &path, int backlog = 64);
int tcp_listen(uint16_t *port, int backlog = 64, int share = 0);     // share: 1 SO_REUSEADDR, 2 SO_REUSEPORT
int raw_unix(const std::string &path);  // connected socket or -1
int raw_tcp(uint16_t port);
// every process has a loopback address of its own: a port freed by one worker is
// never taken over by another
std::string lo();
uint32_t lo_addr();                      // network byte order
uint16_t own_port();                    // a port no other worker uses (below the ephemeral range)
int raw_accept(int lfd, double limit = 15);
std::string sock_path(const char *tag); // fresh path in the scratch directory

// ---- requests
MReq read_req(Request *r);
MReq gen_req(Gen &g, size_t max_bytes);
MReq tagged(uint32_t a, uint32_t b, size_t pad = 0, const char *name = "t");   // (a,b) recoverable
bool untag(const MReq &r, uint32_t &a, uint32_t &b);
bool untag(const std::string &frame, uint32_t &a, uint32_t &b);
MReq parse(const std::string &frame);
std::string with_id(const std::string &frame, uint32_t id);
std::string keepalive();
Request *make(const MReq &m);

// ---- handlers
constexpr int NH = 8;
extern RequestHandler H[NH];
struct Rec { Connection *c; int h; std::string enc; };
extern std::vector<Rec> hlog;            // under hlock
extern Spin hlock;
extern std::function<void(Connection *, Request *, int)> on_request;   // called after logging
size_t hcount();
std::vector<Rec> hcopy();
extern std::atomic<uint64_t> hcalls;

// a Connection that the harness can build on a descriptor
Connection *conn_on(int fd);

// per case: reset everything; called through pbt::before_case
void reset();
// counts of /proc/self
size_t open_fds(std::vector<int> *list = nullptr);
size_t threads();
int hardware();
}
