// C16-C20, C22: server, client connecting, life cycles as a whole.
#include "net.hpp"
#include <algorithm>
#include <arpa/inet.h>
#include <cerrno>
#include <deque>
#include <fcntl.h>
#include <netinet/in.h>
#include <set>
#include <signal.h>
#include <sys/eventfd.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <unistd.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace net;
using namespace pbt;

// ------------------------------------------------------------------ announcements
struct Ann { bool up; Connection *c; uint32_t id; std::string tag; Server *s; };
static std::vector<Ann> anns; static Spin annl;
static std::function<void(Server *, Connection *)> on_up, on_down;
static void up_handler(Server *s, Connection *c) { { Lk k(annl); anns.push_back({true, c, c->id, c->tag, s}); } if (on_up) on_up(s, c); }
static void down_handler(Server *s, Connection *c) { { Lk k(annl); anns.push_back({false, c, c->id, c->tag, s}); } if (on_down) on_down(s, c); }
static std::vector<Ann> announcements() { Lk k(annl); return anns; }
static size_t count_ann(bool up) { Lk k(annl); size_t n = 0; for (auto &a : anns) n += a.up == up; return n; }
static void reset_server() { { Lk k(annl); anns.clear(); } on_up = nullptr; on_down = nullptr; }

static bool timed(const char *what, double limit, const std::function<void()> &f) {
    double t = now_s(); f(); t = now_s() - t;
    if (t > limit) PBT_LATE("%s took %.1f s", what, t);
    return true;
}

// a server on a fresh endpoint and raw access to it
struct Site {
    Server s; bool tcp; std::string path; uint16_t port = 0;
    explicit Site(bool t) : tcp(t) {}
    void start() {
        if (tcp) { PBT_CHECK(s.StartTcp(lo(), port), "StartTcp(loopback, %u) failed", port); if (!port) port = s.GetTcpPort(); }
        else { if (path.empty()) path = sock_path("s"); PBT_CHECK(s.StartUnix(path), "StartUnix(fresh path) failed"); }
    }
    int dial() {
        int r = tcp ? raw_tcp(port) : raw_unix(path);
        return r;
    }
    bool dial(Client &c, int timeout = 20) { return tcp ? c.ConnectTcp(lo(), port, timeout) : c.ConnectUnix(path, timeout); }
};

// ------------------------------------------------------------------ C16
PBT_PROP(C16, refs, 9000, 120000, 12, 60,
    "on a server with 1-4 clients, references are taken (by id, by tag, inside request handlers, in the connected handler), copied, assigned, used and released in generated order from several threads while peers leave, connections are disconnected and the server is stopped; every call on a referenced connection returns, the object stays valid (AddressSanitizer), and once the last reference is gone the connection is announced as gone and can no longer be found, and a stopping server stops; non-trivial: a connection ended while referenced")
{
    reset_server();
    gen_faults(g, g.u(2));
    auto site = std::make_unique<Site>(g.chance(1, 6));
    Server &s = site->s;
    unsigned n = 1 + g.u(3);
    struct Ref { SafeConnection *r; unsigned k; bool early; };   // early: taken before the end
    Spin rl; std::vector<Ref> refs;
    bool in_up = g.chance(1, 4);
    std::atomic<unsigned> ups{0};
    s.SetConnectedHandler(up_handler); s.SetDisconnectedHandler(down_handler);
    std::vector<Connection *> conns(8); std::vector<uint32_t> ids(8);
    on_up = [&](Server *, Connection *c) {
        unsigned k = ups;
        conns[k] = c; ids[k] = c->id; c->tag = "t" + std::to_string(k);
        c->SetMaxRequestSize(1 << 20);
        c->SetHandlerNamed("ref", H[2]); c->SetHandlerNamed("S", H[7]);
        if (in_up) { Lk l(rl); refs.push_back({new SafeConnection(c), k, true}); }
        ups = k + 1;
    };
    std::vector<uint64_t> extra(8);
    on_request = [&](Connection *c, Request *, int h) { if (h == 2) for (unsigned k = 0; k < 8; k++) if (conns[k] == c) { Lk l(rl); refs.push_back({new SafeConnection(c), k, true}); } };
    site->start();
    std::vector<std::unique_ptr<Raw>> raws;
    std::vector<bool> gone(n), found(n);
    for (unsigned k = 0; k < n; k++) {
        raws.emplace_back(new Raw(site->dial()));
        PBT_CHECK(raws[k]->fd >= 0, "connecting to a running server failed: %s", strerror(errno));
        wait_until([&] { return ups > k; }, "announcement of a client");
    }
    wait_until([&] { return count_ann(true) == n; }, "announcements");
    bool stopped = false;
    auto held = [&](unsigned k) { Lk l(rl); unsigned c = 0; for (auto &r : refs) c += r.k == k; return c; };
    auto use = [&](Ref &rf, unsigned what) {
        Connection &c = (*rf.r)(); unsigned k = rf.k;
        switch (what) {
            case 0: timed("Push", 15, [&] { Request r("p"); c.Push(r); }); break;
            case 1: timed("Push of a handed over request", 15, [&] { c.Push(make(tagged(1, k)), false); }); break;
            case 2: timed("Pull(0)", 15, [&] { delete c.Pull(0); }); break;
            case 3: if (gone[k]) timed("Pull(-1) on an ended connection", 20, [&] { delete c.Pull(-1); }); break;
            case 4: timed("settings", 15, [&] { c.SetOurSaInterval(10); c.SetTheirNaIntervalLimit(60); c.SetSendBlockSize(100); c.SetRecvBlockSize(100); c.SetHandlerNamed("x", H[3]); c.GetHandlerNamed("x"); c.GetMaxRequestSize(); }); break;
            case 5: timed("state", 15, [&] { c.IsConnected(); c.IsDisconnecting(); c.GetType(); c.GetRefs(); c.GetStoppedEvent(); }); PBT_CHECK(!rf.early || !c.WaitForStop(0), "the stop notification fired although a reference was taken before the end"); break;
            case 6: { std::string t = c.tag; PBT_CHECK(t == "t" + std::to_string(k), "a referenced connection has tag '%s', expected t%u", t.c_str(), k); PBT_CHECK(c.id == ids[k], "a referenced connection has id %u, expected %u", c.id, ids[k]); break; }
            case 7: if (gone[k]) timed("Disconnect(forced)", 15, [&] { c.Disconnect(true); }); break;
            case 8: if (gone[k]) timed("Push(-1) on an ended connection", 20, [&] { Request r("p"); r.SetId(4000000001u); Request *a = c.Push(r, -1, false); PBT_CHECK(!a, "Push(-1) on an ended connection returned a response"); }); break;
            default: if (gone[k]) timed("Disconnect", 15, [&] { c.Disconnect(false); }); break;
        }
    };
    std::vector<std::thread> ts;
    unsigned steps = 4 + g.u(20);
    for (unsigned q = 0; q < steps; q++) {
        unsigned k = g.u(n - 1);
        switch (g.weighted({5, 6, 3, 2, 1, 1, 2})) {
            case 0: {
                SafeConnection *r = nullptr;
                if (g.chance(1, 3)) {   // copied or assigned
                    Lk l(rl); if (refs.empty()) break;
                    Ref &x = refs[g.u(refs.size() - 1)]; Ref &y = refs[g.u(refs.size() - 1)];
                    if (g.chance(2, 3)) { Ref z{new SafeConnection(*x.r), x.k, x.early}; refs.push_back(z); label("reference copied"); }
                    else { *y.r = *x.r; y.k = x.k; y.early = x.early; label("reference assigned"); }
                    break;
                }
                if (g.flip()) timed("GetConnection(id)", 15, [&] { r = s.GetConnection(ids[k]); });
                else timed("GetConnection(tag)", 15, [&] { r = s.GetConnection("t" + std::to_string(k)); });
                if (!r) { PBT_CHECK(gone[k] || stopped, "an admitted client is not found"); break; }
                PBT_CHECK(&(*r)() == conns[k], "lookup returned another connection");
                { Lk l(rl); refs.push_back({r, k, !gone[k] && !stopped}); } label("reference taken"); break; }
            case 1: { Ref r{}; { Lk l(rl); if (refs.empty()) break; r = refs[g.u(refs.size() - 1)]; }
                use(r, g.u(9)); if (gone[r.k]) { nontrivial(); label("used after the end"); } break; }
            case 2: { Ref r{}; { Lk l(rl); if (refs.empty()) break; size_t i = g.u(refs.size() - 1); r = refs[i]; refs.erase(refs.begin() + i); }
                if (g.flip()) { unsigned d = g.u(2000); ts.emplace_back([r, d] { nap(d); (*r.r)().IsConnected(); delete r.r; }); label("released by a thread"); }
                else delete r.r;
                break; }
            case 3: if (!gone[k]) { gone[k] = true; if (held(k)) { nontrivial(); label("ended while referenced"); }
                switch (g.u(2)) { case 0: raws[k]->close(); break; case 1: raws[k]->close(site->tcp); break;
                    default: { Ref r{}; { Lk l(rl); for (auto &x : refs) if (x.k == k) r = x; }
                        if (r.r) { bool f = g.flip(); timed("Disconnect on a referenced connection", 15, [&] { (*r.r)().Disconnect(f); }); label("disconnected through a reference"); } else raws[k]->close(); break; } }
                } break;
            case 4: if (!stopped && g.flip()) { stopped = true; timed("Stop(0)", 15, [&] { s.Stop(0); }); for (unsigned i = 0; i < n; i++) { if (!gone[i] && held(i)) { nontrivial(); label("server stopped while referenced"); } gone[i] = true; } } break;
            case 5: nap(g.u(3000)); pump_all(); break;
            default: if (!gone[k] && raws[k]->fd >= 0) { MReq m; m.name = "ref"; raws[k]->send_now(enc(m)); MReq f; f.name = "S"; size_t before = 0; for (auto &e : hcopy()) before += e.h == 7; raws[k]->send_now(enc(f));
                if (!stopped) wait_until([&] { size_t now = 0; for (auto &e : hcopy()) now += e.h == 7; return now > before; }, "a handler being called"); label("reference taken in a handler"); } break;
        }
    }
    // references still held keep working, also some time after the end
    if (g.flip()) nap(g.u(60000));
    { std::vector<Ref> v; { Lk l(rl); v = refs; } for (auto &r : v) { use(r, 5); use(r, 6); use(r, g.u(9)); } }
    // connections that are still up still work through a reference
    if (!stopped) for (unsigned k = 0; k < n; k++) if (!gone[k]) {
        SafeConnection *r = s.GetConnection(ids[k]); PBT_CHECK(r, "an admitted client is not found");
        size_t before = raws[k]->frames.size(); Request p("last"); (*r)().Push(p);
        wait_until([&] { for (size_t i = before; i < raws[k]->frames.size(); i++) if (parse(raws[k]->frames[i]).name == "last") return true; return false; }, "arrival of a push through a reference");
        delete r;
    }
    for (auto &t : ts) t.join();
    std::vector<Ref> v; { Lk l(rl); v.swap(refs); }
    while (!v.empty()) { size_t i = g.u(v.size() - 1); if (g.chance(1, 3)) nap(g.u(300)); delete v[i].r; v.erase(v.begin() + i); }
    if (!stopped) {
        for (unsigned k = 0; k < n; k++) if (gone[k]) {
            wait_until([&] { for (auto &a : announcements()) if (!a.up && a.id == ids[k]) return true; return false; }, "removal of an ended connection after its last reference was released");
            wait_until([&] { SafeConnection *r = s.GetConnection(ids[k]); delete r; return !r; }, "an ended and released connection disappearing from lookups");
        }
        std::map<uint32_t, unsigned> downs; for (auto &a : announcements()) if (!a.up) downs[a.id]++;
        for (auto &d : downs) { PBT_CHECK(d.second == 1, "client %u was announced as gone %u times", d.first, d.second); bool g2 = false; for (unsigned k = 0; k < n; k++) if (ids[k] == d.first) g2 = gone[k]; PBT_CHECK(g2, "client %u was announced as gone although it is connected", d.first); }
        if (g.flip()) s.Stop(-1);
    } else {
        std::atomic<bool> done{false}; std::thread t([&] { s.WaitForStop(-1); done = true; });
        wait_until([&] { return done.load(); }, "the server stopping after the last reference was released", 25); t.join();
        PBT_CHECK(s.GetType() == SocketTypeUndefined, "the server is running after WaitForStop(-1)");
    }
    label_faults(); F.on = false;
    site.reset();
}

PBT_PROP(C16, direct, 8000, 100000, 12, 60,
    "a connection made from a socket, with 0-5 references taken, copied, assigned and released in generated order by several threads around its end; it is finished (stop notification, end of stream at the peer, destructible) exactly when ended and unreferenced; non-trivial: references outlived the end")
{
    gen_faults(g, g.u(2));
    int sv[2]; unix_pair(sv);
    Raw raw(sv[1]); Connection *c = conn_on(sv[0]);
    std::vector<SafeConnection *> refs;
    unsigned n = g.u(5);
    for (unsigned i = 0; i < n; i++) refs.push_back(i && g.flip() ? new SafeConnection(*refs[g.u(i - 1)]) : new SafeConnection(c));
    if (n && g.flip()) { *refs[g.u(n - 1)] = *refs[g.u(n - 1)]; SafeConnection t(*refs[0]); t = *refs[n - 1]; SafeConnection u(t); }
    PBT_CHECK(c->GetRefs() == n, "GetRefs() is %u with %u references", c->GetRefs(), n);
    unsigned k = g.u(n);
    for (unsigned i = 0; i < k; i++) { delete refs.back(); refs.pop_back(); }
    unsigned end = g.u(2);
    if (end == 0) raw.close(); else c->Disconnect(end == 1);
    if (!refs.empty()) { nontrivial(); label("references outlive the end"); }
    nap(g.u(1500));
    if (!refs.empty()) {
        // the stop is delayed by references, calls are not
        PBT_CHECK(!c->WaitForStop(0), "the stop notification came although %zu references are held", refs.size());
        timed("Push", 15, [&] { Request r("x"); c->Push(r); });
        timed("Pull(-1)", 15, [&] { wait_for([&] { return true; }, 1); });
        timed("Disconnect", 15, [&] { c->Disconnect(g.flip()); c->SetOurSaInterval(5); c->SetTheirNaIntervalLimit(50); });
        if (g.flip()) { SafeConnection *x = new SafeConnection(c); nap(g.u(300)); refs.push_back(x); }
    }
    std::vector<std::thread> ts;
    bool threaded = g.flip();
    while (!refs.empty()) {
        size_t i = g.u(refs.size() - 1); SafeConnection *r = refs[i]; refs.erase(refs.begin() + i);
        if (threaded) { unsigned d = g.u(1000); ts.emplace_back([r, d] { nap(d); delete r; }); } else {
            delete r;
            if (refs.size()) { if (g.flip()) nap(g.u(3000)); PBT_CHECK(!c->WaitForStop(0) && c->IsConnected(), "the connection was finished although %zu references are held", refs.size()); if (refs.size() < 12 && g.chance(1, 3)) refs.push_back(new SafeConnection(c)); }
        }
    }
    for (auto &t : ts) t.join();
    if (!c->WaitForStop(20)) PBT_LATE("no stop notification 20 s after the last reference was released");
    PBT_CHECK(!c->IsConnected(), "connected after the stop notification");
    PBT_CHECK(c->GetRefs() == 0, "GetRefs() is %u without references", c->GetRefs());
    if (raw.fd >= 0) wait_until([&] { return raw.ended(); }, "end of stream at the peer");
    label_faults();
    delete c;
}

PBT_PROP(C16, count, 120, 6000, 24, 60,
    "2-8 threads take, copy and release references to one connection at full speed while it is up or after its peer went; the count agrees with a model at every meeting of the threads and the connection is finished exactly after the last release; non-trivial: always")
{
    int sv[2]; unix_pair(sv); Raw raw(sv[1]); Connection *c = conn_on(sv[0]); nontrivial();
    unsigned n = 2 + g.u(6), rounds = 1 + g.u(3), per = 2000 + g.u(30000);
    std::vector<unsigned> keep(n); for (auto &k : keep) k = g.u(4);
    SafeConnection *own_ref = new SafeConnection(c); unsigned base = 1;
    std::vector<SafeConnection *> held; Spin hl;
    bool ended = g.flip(); if (ended) { raw.close(); label("peer gone"); }
    note("%u threads, %u rounds of %u", n, rounds, per);
    for (unsigned r = 0; r < rounds; r++) {
        std::atomic<unsigned> ready{0}; std::vector<std::thread> ts;
        for (unsigned t = 0; t < n; t++) ts.emplace_back([&, t] {
            ready++; while (ready < n) sched_yield();
            for (unsigned i = 0; i < per; i++) { SafeConnection a(c); if (i % 3 == t % 3) { SafeConnection b(c); } else if (i % 7 == t % 7) { SafeConnection b(a); a = b; } }
            for (unsigned i = 0; i < keep[t]; i++) { auto *x = new SafeConnection(c); Lk l(hl); held.push_back(x); }
        });
        for (auto &t : ts) t.join();
        PBT_CHECK(c->GetRefs() == base + held.size(), "GetRefs() is %u with %zu references", c->GetRefs(), base + held.size());
        PBT_CHECK(!c->WaitForStop(0), "the stop notification came although %zu references are held", base + held.size());
        while (held.size() && g.chance(2, 3)) { delete held.back(); held.pop_back(); }
        PBT_CHECK(c->GetRefs() == base + held.size(), "GetRefs() is %u with %zu references", c->GetRefs(), base + held.size());
    }
    if (!ended) c->Disconnect(true);
    while (!held.empty()) { delete held.back(); held.pop_back(); }
    PBT_CHECK(!c->WaitForStop(0), "the stop notification came although a reference is held");
    delete own_ref;
    if (!c->WaitForStop(20)) PBT_LATE("no stop notification 20 s after the last reference was released");
    delete c;
}

// ------------------------------------------------------------------ C17
PBT_PROP(C17, admission, 14000, 90000, 12, 75,
    "a server with limits -1..6 changed at run time, callbacks set or not, and generated connects (single and in batches), departures by either side, tags and lookups; a model of admitted and waiting clients predicts announcements, lookups and the admission of waiting clients; the number admitted must never exceed the limit; non-trivial: a client had to wait, or more than two were admitted at once")
{
    reset_server();
    gen_faults(g, g.u(2));
    auto site = std::make_unique<Site>(g.chance(1, 8));
    Server &s = site->s;
    struct Cl { std::unique_ptr<Raw> raw; bool admitted = false, leaving = false, abandoned = false; uint32_t id = 0; std::string tag; };
    std::vector<std::unique_ptr<Cl>> cls;
    std::atomic<int> limit{-1}, prev{-1}; std::atomic<int64_t> changed{0};
    std::atomic<unsigned> leaving{0};
    Spin ll; std::set<uint32_t> present;     // announced and not yet leaving
    std::atomic<int> over{0}; std::atomic<int> over_n{0}; std::atomic<bool> gave_up{false};
    unsigned tagmod = 1 + g.u(3);
    // tags: plain, or easily confused with each other
    std::vector<std::string> tags; bool plain = g.flip();
    if (!plain) label("similar tags");
    { std::string L(200, 't');
      std::vector<std::string> pool{"", "t", "T", "t ", "tt", std::string("t\0", 2), std::string("t\0a", 3), std::string("t\0b", 3), std::string("\0", 1), std::string("\0t", 2), L, L + "t", L.substr(1) + "x", "\xff", "\x7f", "%s", "1", "01"};
      for (unsigned i = 0; i < tagmod; i++) tags.push_back(plain ? "t" + std::to_string(i) : pool[g.u(pool.size() - 1)]);
      std::vector<std::string> probe{"", "x", "t", "T0", "t00"}; if (!plain) probe = pool;
      tags.insert(tags.end(), probe.begin(), probe.end()); }
    bool welcome = true;
    on_up = [&](Server *sv, Connection *c) {
        c->tag = tags[c->id % tagmod];
        c->SetHandlerNamed("S", H[7]);
        int n; { Lk k(ll); present.insert(c->id); n = present.size(); }
        // the limit may just have been changed: the larger of both counts for a while
        int l = limit; if (now_us() - changed < 3000000) { int p = prev; if (p < 0 || (l >= 0 && p > l)) l = p; }
        if (l >= 0 && n > l && !gave_up) { over = l + 1; over_n = n; }
        Request w("welcome"); w.Set("id", new Value32U(c->id), false);
        c->Push(w);
    };
    bool with_down = !g.chance(1, 6);
    s.SetConnectedHandler(up_handler);
    if (with_down) s.SetDisconnectedHandler(down_handler); else label("no disconnected handler");
    int first = (int)g.u(7) - 1;
    if (g.flip()) { limit = prev = first; s.SetMaxConnections(first); PBT_CHECK(s.GetMaxConnections() == first, "GetMaxConnections()"); }
    for (unsigned run = 0;; run++) {
    site->start();
    unsigned alive_max = 0;
    std::set<uint32_t> used;
    std::vector<std::pair<uint32_t, std::string>> departed;
    auto admitted_n = [&] { unsigned n = 0; for (auto &c : cls) n += c->admitted && !c->leaving; return n; };
    auto settle = [&](const char *why) {
        // every client that fits must be admitted; the others must not
        wait_until([&] {
            for (auto &c : cls) if (!c->admitted && !c->abandoned && !c->raw->frames.empty()) {
                MReq m = parse(c->raw->frames[0]);
                PBT_CHECK(m.name == "welcome", "unexpected request from the server");
                c->admitted = true; c->id = m.args[0].v.num;
                PBT_CHECK(used.insert(c->id).second, "connection id %u was given twice", c->id);
                c->tag = tags[c->id % tagmod];
            }
            unsigned here = admitted_n(), waiting = 0;
            for (auto &c : cls) waiting += !c->admitted && !c->abandoned;
            return !waiting || (limit >= 0 && (int)here >= limit);
        }, why, 25);
        unsigned here = admitted_n(), waiting = 0; for (auto &c : cls) waiting += !c->admitted && !c->abandoned;
        alive_max = std::max(alive_max, here);
        if (waiting) { nontrivial(); label("clients waiting for a place"); }
        if (over) PBT_FAIL("%d clients were admitted at once, the limit is %d", over_n.load(), over.load() - 1);
        for (auto &c : cls) PBT_CHECK(c->leaving || !c->raw->ended(), "a client was disconnected by itself");
    };
    auto leave = [&](Cl &c, unsigned how) {
        c.leaving = true; { Lk k(ll); present.erase(c.id); }
        departed.push_back({c.id, c.tag});
        if (how == 0) c.raw->close(); else if (how == 1) c.raw->close(site->tcp);
        else { SafeConnection *r = s.GetConnection(c.id); PBT_CHECK(r, "an admitted client is not found by its id %u", c.id); (*r)().Disconnect(how == 2); delete r; label("disconnected by the server"); }
        leaving++;
    };
    auto gone = [&] {
        wait_until([&] {
            for (auto &c : cls) if (c->leaving && !c->abandoned) { SafeConnection *r = s.GetConnection(c->id); if (r) { delete r; return false; } }
            if (with_down) { std::set<uint32_t> d; for (auto &a : announcements()) if (!a.up) d.insert(a.id); for (auto &c : cls) if (c->leaving && !c->abandoned && !d.count(c->id)) return false; }
            return true;
        }, "departed clients being announced and removed");
    };
    unsigned steps = 3 + g.u(14);
    for (unsigned q = 0; q < steps; q++) {
        switch (g.weighted({6, 4, 2, 3, 1})) {
            case 0: {
                unsigned batch = g.chance(1, 4) ? 2 + g.u(6) : 1;
                for (unsigned i = 0; i < batch; i++) {
                    auto c = std::make_unique<Cl>(); int fd = site->dial(); PBT_CHECK(fd >= 0, "connecting to a running server failed: %s", strerror(errno));
                    c->raw.reset(new Raw(fd)); cls.push_back(std::move(c));
                }
                note("+%u ", batch); settle("admission of clients within the limit"); break; }
            case 1: { std::vector<Cl *> v; for (auto &c : cls) if (c->admitted && !c->leaving) v.push_back(c.get());
                if (v.empty()) break;
                for (unsigned k = 1 + g.u(1); k-- && !v.empty();) { size_t i = g.u(v.size() - 1); leave(*v[i], g.u(3)); v.erase(v.begin() + i); note("- "); }
                if (g.flip()) gone();
                settle("admission of waiting clients after a departure"); break; }
            case 2: { int l = (int)g.u(7) - 1; prev = limit.load(); changed = now_us(); limit = l; s.SetMaxConnections(l); changed = now_us(); note("limit %d ", l);
                PBT_CHECK(s.GetMaxConnections() == l, "GetMaxConnections() is %d after setting %d", s.GetMaxConnections(), l);
                settle("admission of waiting clients after the limit was raised"); label("limit changed"); break; }
            case 3: {
                gone();
                std::set<uint32_t> here; for (auto &c : cls) if (c->admitted && !c->leaving) here.insert(c->id);
                for (unsigned k = 1 + g.u(4); k--;) {
                    if (g.flip()) {
                        uint32_t id = g.flip() && !cls.empty() ? cls[g.u(cls.size() - 1)]->id : g.num(32);
                        bool waiting_zero = !id;
                        SafeConnection *r = s.GetConnection(id);
                        if (r) { PBT_CHECK(here.count(id) || gave_up, "lookup of id %u, which no admitted client has, found a connection", id); PBT_CHECK((*r)().id == id, "lookup of id %u found %u", id, (*r)().id); delete r; label("lookup by id: present"); }
                        else { PBT_CHECK(!here.count(id), "lookup of id %u of an admitted client found nothing", id); label("lookup by id: absent"); }
                        (void)waiting_zero;
                    } else {
                        std::string tag = g.chance(1, plain ? 4 : 2) ? tags[tagmod + g.u(tags.size() - tagmod - 1)] : tags[g.u(tagmod - 1)];
                        bool any = false; for (auto &c : cls) any |= c->admitted && !c->leaving && c->tag == tag;
                        SafeConnection *r = s.GetConnection(tag);
                        if (r) { PBT_CHECK(any || gave_up, "lookup of tag '%s', which no admitted client has, found a connection", tag.c_str()); PBT_CHECK((*r)().tag == tag && (gave_up || here.count((*r)().id)), "lookup of tag '%s' found another", tag.c_str()); delete r; label("lookup by tag: present"); }
                        else { PBT_CHECK(!any, "lookup of tag '%s' of an admitted client found nothing", tag.c_str()); label("lookup by tag: absent"); }
                    }
                } break; }
            default: {   // a waiting client gives up: it may still be admitted and announced
                Cl *w = nullptr; for (auto &c : cls) if (!c->admitted && !c->abandoned) w = c.get();
                if (!w || limit != 0) break;      // with the limit 0 nobody takes the place meanwhile
                gave_up = true; w->abandoned = true; w->leaving = true; w->raw->close(); label("waiting client gave up"); break; }
        }
    }
    if (alive_max > 2) nontrivial();
    // serve everybody: without limit all waiting clients get in
    prev = -1; changed = now_us(); limit = -1; s.SetMaxConnections(-1);
    settle("admission of waiting clients without a limit");
    gone();
    // the abandoned ones are admitted and leave at once, or were never seen
    auto v = announcements();
    std::map<uint32_t, int> up, down; std::map<uint32_t, Connection *> who;
    unsigned abandoned = 0; for (auto &c : cls) abandoned += c->abandoned;
    for (auto &a : v) {
        PBT_CHECK(a.s == &s, "announcement by another server");
        if (a.up) { PBT_CHECK(!up[a.id]++, "client %u was announced twice", a.id); who[a.id] = a.c; }
        else { PBT_CHECK(up[a.id], "client %u was announced as gone but never as connected", a.id); PBT_CHECK(!down[a.id]++, "client %u was announced as gone twice", a.id); PBT_CHECK(who[a.id] == a.c, "another connection was announced as gone under id %u", a.id);
               PBT_CHECK(a.tag == tags[a.id % tagmod], "client %u is announced as gone with tag '%s'", a.id, a.tag.c_str()); }
    }
    unsigned stay = 0;
    for (auto &c : cls) if (c->admitted) {
        PBT_CHECK(up[c->id] == 1, "client %u was not announced", c->id);
        if (!c->leaving) { stay++; PBT_CHECK(!down[c->id], "client %u was announced as gone although it is connected", c->id); }
    }
    PBT_CHECK(up.size() <= cls.size() && up.size() >= cls.size() - abandoned, "%zu clients connected, %zu were announced", cls.size(), up.size());
    (void)welcome;
    bool again = run < 2 && g.chance(1, 4);
    bool was_on = F.on; if (!again) { label_faults(); F.on = false; }
    // the limit holds for the next run, too, whenever it was set
    auto relimit = [&] { int l = (int)g.u(5) - 1; prev = limit.load(); changed = now_us(); limit = l; s.SetMaxConnections(l); changed = now_us(); note("limit %d ", l); };
    if (again && g.flip()) relimit();
    s.Stop(-1);
    for (auto &c : cls) if (c->raw->fd >= 0) wait_until([&] { return c->raw->ended(); }, "end of stream at the clients of a stopped server");
    PBT_CHECK(!s.GetConnection((uint32_t)1) && !s.GetConnection("t0"), "a stopped server finds a client");
    if (!again) break;
    cls.clear(); { Lk k(ll); present.clear(); } { Lk k(annl); anns.clear(); } gave_up = false; prev = limit.load(); F.on = was_on; label("started again"); note("again ");
    if (g.chance(1, 3)) { relimit(); prev = limit.load(); }
    }
    // what happens to clients connected at the stop is not announced necessarily
    site.reset(); on_up = nullptr;
}

PBT_PROP(C17, silent, 4000, 30000, 12, 60,
    "servers without one or both callbacks, or with callbacks removed at run time, serve clients all the same: everybody who connects is admitted, found, and can be talked to; non-trivial: always")
{
    reset_server();
    gen_faults(g, g.u(2));
    auto site = std::make_unique<Site>(g.chance(1, 8)); Server &s = site->s;
    unsigned cb = g.u(2);
    if (cb == 1) s.SetConnectedHandler(up_handler);
    if (cb == 2) s.SetDisconnectedHandler(down_handler);
    PBT_CHECK(s.GetConnectedHandler() == (cb == 1 ? up_handler : nullptr), "GetConnectedHandler()");
    PBT_CHECK(s.GetDisconnectedHandler() == (cb == 2 ? down_handler : nullptr), "GetDisconnectedHandler()");
    if (g.flip()) s.SetMaxConnections(g.u(5) + 8);
    site->start(); nontrivial();
    std::vector<std::unique_ptr<Raw>> raws; std::set<uint32_t> ids;
    unsigned n = 1 + g.u(6);
    for (unsigned i = 0; i < n; i++) {
        raws.emplace_back(new Raw(site->dial()));
        uint32_t found = 0; Raw &r = *raws.back();
        PBT_CHECK(r.fd >= 0, "connecting to a running server failed");
        wait_until([&] { for (uint32_t id = 0; id < 32 && !found; id++) if (!ids.count(id)) if (SafeConnection *c = s.GetConnection(id)) { Request q("hi"); (*c)().Push(q); found = id + 1; delete c; } return found; }, "admission of a client to a server without callbacks");
        ids.insert(found - 1);
        wait_until([&] { return !r.frames.empty(); }, "a push to a client of a server without callbacks");
        if (cb == 1 && g.chance(1, 3)) { s.SetConnectedHandler(nullptr); label("callback removed"); }
        if (g.chance(1, 3)) {
            r.close(); uint32_t id = found - 1;
            wait_until([&] { SafeConnection *c = s.GetConnection(id); delete c; return !c; }, "removal of a departed client"); raws.pop_back(); n = std::min(n, i + 4);
        }
    }
    if (cb == 2) { std::set<uint32_t> d; for (auto &a : announcements()) PBT_CHECK(!a.up && d.insert(a.id).second, "client %u announced as gone twice", a.id); }
    site.reset();
}

PBT_PROP(C17, crowd, 40, 120, 3, 100,
    "260-400 clients connect to one server (ids crossing 8 bits, poll sets of that size), a third leave, more connect; all announced once with distinct ids, all served; non-trivial: always")
{
    reset_server();
    auto site = std::make_unique<Site>(false); Server &s = site->s;
    s.SetConnectedHandler(up_handler); s.SetDisconnectedHandler(down_handler);
    on_up = [&](Server *, Connection *c) { c->tag = "n" + std::to_string(c->id); Request w("welcome"); w.Set("id", new Value32U(c->id), false); c->Push(w); };
    site->start(); nontrivial();
    unsigned n = 260 + g.u(140), done = 0;
    struct C { std::unique_ptr<Raw> r; uint32_t id = 0; bool left = false; };
    std::vector<C> cl; std::set<uint32_t> ids; unsigned left = 0;
    auto read_ids = [&] { bool all = true; for (auto &c : cl) if (!c.id && !c.left) { if (c.r->frames.empty()) { all = false; continue; } c.id = parse(c.r->frames[0]).args[0].v.num; PBT_CHECK(ids.insert(c.id).second, "connection id %u was given twice", c.id); } return all; };
    while (done < n) {
        for (unsigned k = 1 + g.u(30); k-- && done < n; done++) { int fd = site->dial(); PBT_CHECK(fd >= 0, "connecting to a running server failed: %s", strerror(errno)); cl.emplace_back(); cl.back().r.reset(new Raw(fd)); }
        wait_until(read_ids, "announcement of all clients", 40);
        if (done > n / 2) for (unsigned k = g.u(8); k--;) { auto &c = cl[g.u(cl.size() - 1)]; if (!c.left) { c.left = true; c.r->close(); left++; } }
    }
    labeln("clients", n);
    wait_until([&] { return count_ann(false) == left; }, "announcement of all departures", 40);
    for (auto &c : cl) {
        SafeConnection *x = s.GetConnection(c.id), *y = s.GetConnection("n" + std::to_string(c.id));
        PBT_CHECK(!x == c.left && !y == c.left, "lookup of a client that is %s", c.left ? "gone" : "connected");
        if (x) { PBT_CHECK(&(*x)() == &(*y)(), "lookups by id and by tag differ"); delete x; delete y; }
    }
    PBT_CHECK(count_ann(true) == n && count_ann(false) == left, "%zu announcements of %u clients, %zu of %u departures", count_ann(true), n, count_ann(false), left);
    site.reset();
}

PBT_PROP(C17, many, 2, 30, 2, 300,
    "more than 66000 clients one after another (up to 30 at a time, some stay all the time) in one run of a server, ids crossing 16 bits; all announced with ids of their own, departures announced, the ones that stay found by id and served at the end; non-trivial: always")
{
    reset_server();
    auto site = std::make_unique<Site>(false); Server &s = site->s; nontrivial();
    static std::atomic<unsigned> ups, downs; static Spin lk; static std::vector<uint32_t> seen;
    ups = downs = 0; seen.clear();
    s.SetConnectedHandler([](Server *, Connection *c) { { Lk l(lk); seen.push_back(c->id); } ups++; });
    s.SetDisconnectedHandler([](Server *, Connection *) { downs++; });
    site->start();
    unsigned n = 65800 + g.u(2000), up = 0, wave = g.one<unsigned>({1, 10, 30}), gone = 0;
    std::vector<std::pair<int, uint32_t>> stay; std::set<uint32_t> ids; size_t at = 0;
    auto fresh = [&] { Lk l(lk); for (; at < seen.size(); at++) PBT_CHECK(ids.insert(seen[at]).second, "client %zu got id %u, which an earlier one had", at, seen[at]); };
    while (up < n) {
        std::vector<int> fds; bool keep = stay.size() < 5 && g.chance(1, 200);
        unsigned k = keep ? 1 : 1 + g.u(wave - 1);
        for (; k--; up++) { int fd = site->dial(); PBT_CHECK(fd >= 0, "connecting to a running server failed: %s", strerror(errno)); fds.push_back(fd); }
        wait_until([&] { return ups >= up; }, "announcement of a client", 40);
        PBT_CHECK(ups == up, "%u announcements of %u clients", ups.load(), up);
        fresh();
        if (keep) { Lk l(lk); stay.push_back({fds[0], seen.back()}); continue; }
        for (int fd : fds) hclose(fd), gone++;
        wait_until([&] { return downs >= gone; }, "announcement of a departure", 40);
    }
    PBT_CHECK(downs == gone, "%u of %u departures announced", downs.load(), gone);
    note("%u clients, %zu stay", n, stay.size());
    for (auto &p : stay) {
        SafeConnection *x = s.GetConnection(p.second);
        PBT_CHECK(x, "the client with id %u, who stayed, is not found", p.second);
        Request r("late"); (*x)().Push(r); delete x;
        Raw raw(p.first); wait_until([&] { return !raw.frames.empty(); }, "a request for a client who stayed");
        PBT_CHECK(parse(raw.frames[0]).name == "late", "another request arrived");
    }
    wait_until([&] { return downs >= up; }, "announcement of the last departures", 40);
    site.reset();
    PBT_CHECK(ups == up && downs == up, "%u announcements and %u departures of %u clients", ups.load(), downs.load(), up);
}

PBT_PROP(C17, limits, 120, 1500, 4, 100,
    "limits of 60-300 (around powers of two too, also reached by raising a small one at run time) and 1-40 clients more than that, in batches; departures one by one and in groups, the limit raised and lowered; never more admitted than the limit, always as many as fit; non-trivial: always")
{
    reset_server();
    auto site = std::make_unique<Site>(false); Server &s = site->s; nontrivial();
    s.SetConnectedHandler(up_handler); s.SetDisconnectedHandler(down_handler);
    std::atomic<int> here{0}, lim{0}, worst{0};
    on_up = [&](Server *, Connection *c) { int n = ++here; if (n > lim) worst = n; Request w("welcome"); w.Set("id", new Value32U(c->id), false); c->Push(w); };
    int limit = g.flip() ? 60 + (int)g.u(240) : g.one<int>({127, 128, 129, 255, 256, 257, 64});
    bool raise = g.flip();
    lim = limit; s.SetMaxConnections(raise ? 1 + g.u(5) : limit); site->start();
    if (raise) { lim = s.GetMaxConnections(); label("limit raised at run time"); }
    unsigned extra = 1 + g.u(39), n = limit + extra;
    std::vector<std::unique_ptr<Raw>> cl;
    auto dial = [&](unsigned k) { while (k--) { int fd = site->dial(); PBT_CHECK(fd >= 0, "connecting to a running server failed: %s", strerror(errno)); cl.emplace_back(new Raw(fd)); } };
    auto admitted = [&] { int k = 0; for (auto &c : cl) k += !c->frames.empty(); return k; };
    auto settle = [&] {
        int want = std::min<int>(cl.size(), lim);
        wait_until([&] { if (worst) PBT_FAIL("%d clients were admitted at once, the limit is %d", worst.load(), lim.load()); return admitted() >= want; }, "admission of as many clients as fit", 40);
        nap(g.u(3000)); pump_all();
        if (worst) PBT_FAIL("%d clients were admitted at once, the limit is %d", worst.load(), lim.load());
        for (auto &c : cl) PBT_CHECK(!c->ended(), "a client was disconnected");
    };
    note("limit %d, %u clients", limit, n);
    if (raise) { dial(20); settle(); lim = limit; s.SetMaxConnections(limit); settle(); }
    while (cl.size() < n) { dial(std::min<size_t>(n - cl.size(), 1 + g.u(40))); if (g.flip()) settle(); }
    settle();
    for (unsigned q = 1 + g.u(5); q--;) {
        unsigned leave = 1 + g.u(g.one<unsigned>({1, 10, 60})), left = 0; size_t downs = count_ann(false);
        for (size_t i = 0; i < cl.size() && left < leave; i++) if (!cl[i]->frames.empty() && g.chance(1, 3)) { here--; cl[i]->close(); left++; cl.erase(cl.begin() + i--); }
        wait_until([&] { return count_ann(false) >= downs + left; }, "announcement of departures", 40);
        if (g.flip()) settle();
        if (g.chance(1, 3)) { int l = limit + (int)g.u(20); lim = std::max<int>(lim, l); s.SetMaxConnections(l); limit = l; lim = l; }
        if (here < lim) dial(g.u(20));
        settle();
    }
    labeln("clients", n);
    site.reset();
}

// ------------------------------------------------------------------ C18
static bool exists(const std::string &p) { struct stat st; return !lstat(p.c_str(), &st); }
static void put_file(const std::string &p, const std::string &c) { int f = open(p.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); R.write(f, c.data(), c.size()); R.close(f); }
static std::string get_file(const std::string &p) { int f = open(p.c_str(), O_RDONLY); if (f < 0) return "?"; char b[100]; ssize_t n = R.read(f, b, 100); R.close(f); return std::string(b, n > 0 ? n : 0); }
static bool can_tcp(uint16_t port) { int s = raw_tcp(port); if (s < 0) return false; hclose(s); return true; }

PBT_PROP(C18, machine, 18000, 90000, 12, 75,
    "generated sequences of StartUnix (fresh, existing file, stale socket, directory, missing directory, over-long and maximal paths, with and without replacement), StartTcp (free, busy, malformed, foreign, any-address and system-chosen endpoints), Stop and WaitForStop with various timeouts (also from several threads at once), clients and destruction; a state model and the file system decide; non-trivial: a start was refused, or the server was restarted")
{
    reset_server();
    gen_faults(g, g.u(2));
    std::string dir = sock_path("d"); mkdir(dir.c_str(), 0700);
    auto sp = std::make_unique<Server>();
    std::vector<std::unique_ptr<Raw>> cl;
    bool running = false, tcp = false; std::string path; uint16_t port = 0; unsigned starts = 0;
    std::vector<std::string> clean; unsigned np = 0;
    std::string ip;
    uint16_t busy_port; int busy = tcp_listen(&busy_port, 64, g.u(3)); std::string busy_path = dir + "/busy"; 
    std::map<std::string, std::string> expect_content;      // files that must keep their content
    sp->SetConnectedHandler(up_handler);
    auto check_running = [&](const char *when) {
        PBT_CHECK(sp->GetType() == (tcp ? SocketTypeTcp : SocketTypeUnix), "%s: GetType() is %u", when, sp->GetType());
        if (tcp) {
            PBT_CHECK(sp->GetTcpPort() == port, "%s: GetTcpPort() is %u, expected %u", when, sp->GetTcpPort(), port);
            in_addr a; inet_aton(ip.c_str(), &a);
            PBT_CHECK(sp->GetTcpIp() == ntohl(a.s_addr), "%s: GetTcpIp() is %08x, expected %08x", when, sp->GetTcpIp(), ntohl(a.s_addr));
            PBT_CHECK(sp->GetTcpIpString() == inet_ntoa(a), "%s: GetTcpIpString() is %s, expected %s", when, sp->GetTcpIpString().c_str(), inet_ntoa(a));
        } else {
            PBT_CHECK(sp->GetUnixPath() == path, "%s: GetUnixPath() is %s, expected %s", when, sp->GetUnixPath().c_str(), path.c_str());
            struct stat st; PBT_CHECK(!lstat(path.c_str(), &st) && S_ISSOCK(st.st_mode), "%s: no socket at the path", when);
        }
        size_t before = count_ann(true);
        int fd = tcp ? raw_tcp(port) : raw_unix(path);
        PBT_CHECK(fd >= 0, "%s: connecting to a running server failed: %s", when, strerror(errno));
        cl.emplace_back(new Raw(fd));
        wait_until([&] { return count_ann(true) > before; }, "admission of a client to a running server");
    };
    auto check_stopped = [&](const char *when, bool ep) {
        PBT_CHECK(sp->GetType() == SocketTypeUndefined, "%s: GetType() is %u", when, sp->GetType());
        if (!ep) return;
        if (tcp) PBT_CHECK(!can_tcp(port), "%s: the port still accepts connections", when);
        else PBT_CHECK(!exists(path), "%s: the socket file is still there", when);
        // clients are disconnected before the server reports being stopped
        for (auto &c : cl) { c->pump(); PBT_CHECK(c->ended(), "%s: a client is still connected", when); }
        cl.clear();
    };
    for (auto &f : {"f1", "f2"}) { std::string p = dir + "/" + f; put_file(p, "keep"); }
    std::string squat; bool squat_sock = false;       // something of another program at a path this server has left
    auto squatter = [&] {
        if (tcp || path.empty() || exists(path)) return;
        squat = path; squat_sock = g.flip();
        if (squat_sock) hclose(unix_listen(squat)); else put_file(squat, "mine");
        label("somebody else took the old path");
    };
    auto squat_ok = [&](const char *when) { if (squat.size()) PBT_CHECK(exists(squat) && (squat_sock || get_file(squat) == "mine"), "%s: a file of another program at the server's earlier path is gone", when); };
    unsigned steps = 3 + g.u(12);
    for (unsigned q = 0; q < steps; q++) {
        squat_ok("between the calls");
        switch (g.weighted({6, 5, 5, 1, 2, 1})) {
            case 0: {   // unix
                std::string p; bool dof = g.flip(), ok = true, dflt = dof && g.flip(); std::string keep, keepc;
                unsigned kind = g.u(9);
                switch (kind) {
                    case 8: ok = false; label("empty path"); break;
                    case 0: case 1: p = dir + "/s" + std::to_string(np++); break;
                    case 2: p = dir + "/" + "r" + std::to_string(np++); put_file(p, "old"); ok = dof; if (!dof) { keep = p; keepc = "old"; } label("existing file"); break;
                    case 3: { p = dir + "/z" + std::to_string(np++); int l = unix_listen(p); hclose(l); ok = dof; label("stale socket"); break; }
                    case 4: p = dir + "/dir" + std::to_string(np++); mkdir(p.c_str(), 0700); put_file(p + "/x", "in"); ok = false; keep = p + "/x"; keepc = "in"; label("directory"); break;
                    case 5: p = dir + "/none/s"; ok = false; label("missing directory"); break;
                    case 6: { size_t len = 108 + g.size(300); p = dir + "/"; while (p.size() < len) p += 'l'; ok = false; label("over-long path"); break; }
                    case 7: { p = dir + "/m" + std::to_string(np++); while (p.size() < 107) p += 'm'; label("longest path"); break; }
                    default: if (!path.empty() && !running && !tcp) p = path; else p = dir + "/s" + std::to_string(np++); ok = !exists(p) || dof; label("same path again"); break;
                }
                bool r = dflt ? sp->StartUnix(p) : sp->StartUnix(p, dof);
                note("unix kind %u%s -> %d; ", kind, dof ? " replace" : "", r);
                if (running) { PBT_CHECK(!r, "StartUnix returned true although the server is running"); if (keep.size()) PBT_CHECK(get_file(keep) == keepc, "a refused start changed a file"); nontrivial(); label("refused: running"); check_running("after a refused start"); break; }
                PBT_CHECK(r == ok, "StartUnix(%s, replace %d) returned %d, expected %d (kind %u)", p.c_str(), dof, r, ok, kind);
                if (!r) { nontrivial(); check_stopped("after a refused start", false); if (keep.size()) PBT_CHECK(get_file(keep) == keepc, "a refused start changed a file"); break; }
                if (p == squat) squat.clear();
                running = true; tcp = false; path = p; if (starts++) { nontrivial(); label("restarted"); }
                check_running("after StartUnix"); break; }
            case 1: {   // tcp
                std::string a = lo(); uint16_t po = 0; bool ok = true; unsigned kind = g.u(6);
                switch (kind) {
                    case 0: break;
                    case 1: po = busy_port; ok = false; label("busy port"); break;
                    case 2: a = g.one<const char *>({"", "abc", "256.1.1.1", "127.0.0.1x", "1.2.3.4.5", "127..1", "::1", "-1.0.0.1", " 127.0.0.1", "\t127.0.0.1", "  0.0.0.0", " ", "+127.0.0.1", "\n127.0.0.1", "127.0.0.1,", "0.0.0.0.", "localhost", "*", "127.0.0.256", "127.0.-0.1"}); ok = false; label("malformed address"); break;
                    case 3: a = g.one<const char *>({"192.0.2.1", "203.0.113.7"}); ok = false; label("foreign address"); break;
                    case 4: a = "0.0.0.0"; po = own_port(); label("any address"); break;
                    case 5: a = g.one<const char *>({"127.0.0.2", "127.1.2.3"}); break;
                    default: if (tcp && !running && port) { po = port; label("same port again"); } break;
                }
                if (!running && (kind == 5 || kind == 6)) {}
                bool r = sp->StartTcp(a, po);
                note("tcp kind %u -> %d; ", kind, r);
                if (running) { PBT_CHECK(!r, "StartTcp returned true although the server is running"); nontrivial(); label("refused: running"); check_running("after a refused start"); break; }
                if ((kind == 6 || kind == 4) && !r && po) { label("not judged: port taken meanwhile"); break; }
                PBT_CHECK(r == ok, "StartTcp(%s, %u) returned %d, expected %d", a.c_str(), po, r, ok);
                if (!r) { nontrivial(); check_stopped("after a refused start", false); break; }
                running = true; tcp = true; ip = a; port = sp->GetTcpPort(); if (starts++) { nontrivial(); label("restarted"); }
                PBT_CHECK(port != 0 && (!po || port == po), "GetTcpPort() is %u", port);
                if (kind == 5) {
                    int s2 = R.socket(AF_INET, SOCK_STREAM, 0); sockaddr_in sa{}; sa.sin_family = AF_INET; sa.sin_port = htons(port); inet_aton(a.c_str(), &sa.sin_addr);
                    size_t before = count_ann(true);
                    PBT_CHECK(!R.connect(s2, (sockaddr *)&sa, sizeof sa), "connecting to a running server at %s failed: %s", a.c_str(), strerror(errno));
                    own(s2); cl.emplace_back(new Raw(s2)); wait_until([&] { return count_ann(true) > before; }, "admission of a client to a running server");
                    PBT_CHECK(sp->GetTcpIpString() == a, "GetTcpIpString() is %s, expected %s", sp->GetTcpIpString().c_str(), a.c_str());
                    // stop it here, the rest of the machine talks to our own address
                    sp->Stop(-1); running = false; cl.back()->pump(); PBT_CHECK(cl.back()->ended(), "a client is still connected after the stop"); cl.pop_back();
                    PBT_CHECK(sp->GetType() == SocketTypeUndefined, "GetType() after Stop(-1)");
                } else check_running("after StartTcp");
                break; }
            case 2: {   // stop
                unsigned how = g.u(4); bool was = running;
                note("stop %u; ", how);
                if (how == 0) { timed("Stop(-1)", 25, [&] { sp->Stop(-1); }); }
                else if (how == 1) { timed("Stop(0)", 15, [&] { sp->Stop(0); }); if (was) { std::atomic<bool> d{false}; std::thread t([&] { sp->WaitForStop(-1); d = true; }); wait_until([&] { return d.load(); }, "WaitForStop(-1) after Stop(0)", 25); t.join(); } }
                else if (how == 2) { timed("Stop(30)", 25, [&] { sp->Stop(30); }); }
                else {   // several threads stop and wait at once
                    std::atomic<int> d{0}; std::vector<std::thread> ts; unsigned n = 2 + g.u(3);
                    std::vector<unsigned> w; for (unsigned i = 0; i < n; i++) w.push_back(g.u(2));
                    std::vector<char> seen_up(n, 0);
                    for (unsigned i = 0; i < n; i++) ts.emplace_back([&, i] { nap(w[i] * 100); if (i == 0) sp->Stop(-1); else if (w[i] == 0) sp->Stop(-1); else sp->WaitForStop(-1);
                        if (sp->GetType() != SocketTypeUndefined) seen_up[i] = 1; d++; });
                    wait_until([&] { return d == (int)n; }, "all threads in Stop(-1) and WaitForStop(-1) returning", 25);
                    for (auto &t : ts) t.join();
                    for (unsigned i = 0; i < n; i++) PBT_CHECK(!seen_up[i], "a thread returned from Stop(-1) or WaitForStop(-1) while the server was running");
                    label("stopped by several threads");
                }
                if (was) { check_stopped("after the stop", true); label("stopped"); } else check_stopped("after stopping a stopped server", false);
                running = false; if (was && g.chance(1, 3)) squatter();
                break; }
            case 3: timed("WaitForStop(0)", 15, [&] { sp->WaitForStop(0); }); if (!running) timed("WaitForStop(-1) on a stopped server", 15, [&] { sp->WaitForStop(-1); }); break;
            case 4: if (running) check_running("later"); else check_stopped("later", false); break;
            default: {  // destroy and begin again
                if (g.flip()) { note("destroy; "); timed("destroying the server", 25, [&] { sp.reset(); });
                    if (running) { if (tcp) PBT_CHECK(!can_tcp(port), "the port of a destroyed server accepts connections"); else PBT_CHECK(!exists(path), "the socket file of a destroyed server is still there");
                        for (auto &c : cl) wait_until([&] { return c->ended(); }, "end of stream at the clients of a destroyed server"); label("destroyed while running"); }
                    cl.clear(); running = false; squat_ok("after destroying the server"); path.clear(); port = 0; sp = std::make_unique<Server>(); sp->SetConnectedHandler(up_handler); } break; }
        }
    }
    squat_ok("at the end");
    PBT_CHECK(get_file(dir + "/f1") == "keep" && get_file(dir + "/f2") == "keep", "an unrelated file was changed");
    label_faults(); F.on = false;
    timed("destroying the server", 25, [&] { sp.reset(); });
    if (running && !tcp) PBT_CHECK(!exists(path), "the socket file of a destroyed server is still there");
    squat_ok("after destroying the server");
    hclose(busy); cl.clear();
    std::string cmd = dir;   // remove our own directory (names are all made above)
    for (unsigned i = 0; i < np; i++) for (const char *k : {"s", "r", "z", "dir"}) { std::string p = dir + "/" + k + std::to_string(i); unlink((p + "/x").c_str()); unlink(p.c_str()); rmdir(p.c_str()); }
}

PBT_PROP(C18, restart, 3000, 12000, 12, 75,
    "a server with connected, busy clients (some waiting for a place, some with unread data) is stopped by a generated call and started again at once on the same or another endpoint, 3-12 times; after each stop everything is released, after each start service is complete and nothing of the previous run is found; non-trivial: always")
{
    reset_server();
    gen_faults(g, g.u(2)); F.budget_us = 2500000;
    auto site = std::make_unique<Site>(g.chance(1, 4)); Server &s = site->s; nontrivial();
    s.SetConnectedHandler(up_handler); s.SetDisconnectedHandler(down_handler);
    on_up = [&](Server *, Connection *c) { c->tag = "x"; c->SetHandlerNamed("S", H[7]); };
    unsigned rounds = 3 + g.u(9);
    int lim = g.one<int>({-1, -1, 1, 3}); s.SetMaxConnections(lim);
    for (unsigned r = 0; r < rounds; r++) {
        size_t base = count_ann(true);
        if (site->tcp && r && g.chance(1, 3)) site->port = 0;
        if (!site->tcp && r && g.chance(1, 3)) { site->path = sock_path("s"); }
        site->start();
        SafeConnection *old = s.GetConnection("x"); PBT_CHECK(!old, "a restarted server finds a client of the previous run");
        unsigned n = g.u(5);
        std::vector<std::unique_ptr<Raw>> cl;
        for (unsigned i = 0; i < n; i++) {
            int fd = site->dial(); PBT_CHECK(fd >= 0, "connecting to a running server failed: %s", strerror(errno));
            cl.emplace_back(new Raw(fd));
            if (g.flip()) cl.back()->send_now(enc(tagged(1, i, g.u(3000))).substr(0, 20 + g.u(3000)));
        }
        unsigned want = lim < 0 ? n : std::min<unsigned>(n, lim);
        if (g.chance(2, 3)) { wait_until([&] { return count_ann(true) - base >= want; }, "admission of clients"); 
            std::set<uint32_t> ids; auto v = announcements(); for (size_t i = 0, k = 0; i < v.size(); i++) if (v[i].up && k++ >= base) PBT_CHECK(ids.insert(v[i].id).second, "id %u given twice in one run", v[i].id);
            if (SafeConnection *c = s.GetConnection("x")) { for (int i = 0; i < 3; i++) (*c)().Push(make(tagged(2, i, g.u(100000))), false); delete c; }
        }
        if (g.flip()) nap(g.u(1000));
        switch (g.u(2)) { case 0: s.Stop(-1); break; case 1: s.Stop(0); s.WaitForStop(-1); break; default: { std::thread t([&] { s.WaitForStop(-1); }); s.Stop(-1); t.join(); } }
        PBT_CHECK(s.GetType() == SocketTypeUndefined, "GetType() is %u after the stop", s.GetType());
        if (site->tcp) PBT_CHECK(!can_tcp(site->port), "the port accepts connections after the stop"); else PBT_CHECK(!exists(site->path), "the socket file is there after the stop");
        for (auto &c : cl) wait_until([&] { return c->ended(); }, "end of stream at the clients of a stopped server");
    }
    label_faults(); F.on = false; site.reset();
}

PBT_PROP(C18, patient, 60, 1200, 32, 75,
    "a server that cannot finish stopping yet (a reference is held, or a request handler is running) is stopped and waited for by 1-4 threads with timeouts of 0 and 1-2 seconds and with practically unlimited ones; timed calls return at about their time, not earlier, unlimited ones exactly when the server has stopped, and until then it is running: starting is refused, its getters keep their values; non-trivial: always")
{
    reset_server(); nontrivial();
    auto site = std::make_unique<Site>(g.chance(1, 3)); Server &s = site->s;
    static std::atomic<bool> gate; gate = false; static std::atomic<int> inside; inside = 0;
    std::atomic<Connection *> conn{nullptr};
    s.SetConnectedHandler(up_handler);
    on_up = [&](Server *, Connection *c) { c->SetHandlerNamed("hold", H[0]); c->tag = "x"; conn = c; };
    on_request = [&](Connection *, Request *, int) { inside++; while (!gate) nap(200); };
    site->start(); uint16_t port = site->tcp ? s.GetTcpPort() : 0;
    Raw raw(site->dial()); wait_until([&] { return conn.load(); }, "admission of a client");
    bool handler = g.flip(); SafeConnection *ref = nullptr;
    if (handler) { MReq m; m.name = "hold"; m.id = 1; raw.send_now(enc(m)); wait_until([&] { return inside > 0; }, "a request being handled"); label("a handler is running"); }
    else { wait_until([&] { ref = s.GetConnection("x"); return ref; }, "a client being found"); label("a reference is held"); }
    unsigned n = 1 + g.u(3), long_stay = 0;
    struct W { int to; bool stop; std::atomic<bool> done{false}; double took = 0; bool up = false; std::thread t; };
    std::vector<std::unique_ptr<W>> ws;
    bool first = true;
    for (unsigned i = 0; i < n; i++) {
        auto w = std::make_unique<W>(); w->to = g.flip() ? (int)g.u(2) : long_timeout(g); w->stop = first || g.flip(); first = false;
        note("%s(%d) ", w->stop ? "Stop" : "WaitForStop", w->to); if (w->to < 0 || w->to > 2) long_stay++;
        W *p = w.get(); ws.push_back(std::move(w));
        p->t = std::thread([p, &s] { double b = now_s(); if (p->stop) s.Stop(p->to); else s.WaitForStop(p->to); p->took = now_s() - b; p->up = s.GetType() != SocketTypeUndefined; p->done = true; });
    }
    if (long_stay) label("waits without limit");
    for (auto &w : ws) if (w->to >= 0 && w->to <= 2) {
        wait_until([&] { return w->done.load(); }, "a timed Stop() or WaitForStop() returning", w->to + 20);
        PBT_CHECK(w->took >= w->to - 0.002 && w->up, "%s(%d) of a server that was not able to stop returned after %.3f s, running: %d", w->stop ? "Stop" : "WaitForStop", w->to, w->took, w->up);
        if (w->took > w->to + 10) PBT_LATE("a wait of %d s took %.1f s", w->to, w->took);
    }
    if (g.flip()) nap(g.u(300000));
    for (auto &w : ws) if (w->to < 0 || w->to > 2) PBT_CHECK(!w->done, "%s(%d) returned before the server stopped", w->stop ? "Stop" : "WaitForStop", w->to);
    PBT_CHECK(s.GetType() == (site->tcp ? SocketTypeTcp : SocketTypeUnix), "GetType() is %u before the server stopped", s.GetType());
    if (site->tcp) PBT_CHECK(s.GetTcpPort() == port, "GetTcpPort() changed before the server stopped"); else PBT_CHECK(s.GetUnixPath() == site->path, "GetUnixPath() changed before the server stopped");
    bool r = g.flip() ? s.StartUnix(sock_path("other")) : s.StartTcp(lo(), 0);
    PBT_CHECK(!r, "a server that has not stopped yet was started again");
    if (handler) gate = true; else delete ref;
    if (g.flip()) s.WaitForStop(-1); else wait_until([&] { return s.GetType() == SocketTypeUndefined; }, "the server stopping when nothing holds it up anymore", 25);
    for (auto &w : ws) { wait_until([&] { return w->done.load(); }, "an unlimited Stop() or WaitForStop() returning when the server has stopped", 20); w->t.join(); if (w->to < 0 || w->to > 2) PBT_CHECK(!w->up, "%s(%d) returned before the server stopped", w->stop ? "Stop" : "WaitForStop", w->to); }
    PBT_CHECK(s.GetType() == SocketTypeUndefined, "GetType() is %u after the stop", s.GetType());
    wait_until([&] { return raw.ended(); }, "end of stream at the client of a stopped server");
    if (site->tcp && g.flip()) site->port = 0;
    site->start(); Raw again(site->dial()); wait_until([&] { return count_ann(true) == 2; }, "admission of a client after the restart");
    on_request = nullptr; site.reset();
}

static std::atomic<unsigned> up2s{0}, down2s{0};
static void up2_handler(Server *s, Connection *c) { up2s++; up_handler(s, c); }
static void down2_handler(Server *s, Connection *c) { down2s++; down_handler(s, c); }
PBT_PROP(C18, callbacks, 12000, 120000, 12, 60,
    "a server that is used from inside its own connected and disconnected callbacks and request handlers: generated actions there (Stop(0), setting the limit, replacing the callbacks, finding and using clients by id and tag, pushing to the client and to others, ending the client gracefully or by force, starting and stopping another server, connecting a client to another server and talking to it, pulling and pushing on the ended connection) for clients that come and leave one after another; every action returns and has its effect, the announcements go to the callbacks that are set, a stop requested inside ends the server, which starts again; non-trivial: an action was carried out inside a callback")
{
    reset_server(); up2s = down2s = 0;
    gen_faults(g, g.u(2)); if (F.recv_cap && F.recv_cap < 4) F.recv_cap = 4;
    auto site = std::make_unique<Site>(g.chance(1, 4)), other = std::make_unique<Site>(g.chance(1, 4)); Server &s = site->s;
    other->start();
    s.SetConnectedHandler(up_handler); s.SetDisconnectedHandler(down_handler);
    struct Act { unsigned what, how; };
    Spin al; std::vector<Act> todo; std::vector<MReq> pushed; std::atomic<unsigned> done{0}; std::string bad; std::atomic<bool> stop_asked{false}; uint32_t serial = 1; unsigned place = 0;
    std::atomic<unsigned> ups{0}, downs{0}, handled{0};
    auto run = [&](Server *sv, Connection *c, unsigned where) {     // where: 0 connected, 1 disconnected, 2 request handler
        std::vector<Act> l; { Lk k(al); if (place != where) return; l.swap(todo); }
        auto check = [&](bool ok, const char *t) { if (!ok) { Lk k(al); if (bad.empty()) bad = t; } };
        auto push = [&](Connection *to) { Lk k(al); MReq m = tagged(4, serial, 50 * (serial % 7)); m.id = serial++; pushed.push_back(m); to->Push(make(m), false, 0, false); };
        for (auto &a : l) {
            switch (a.what) {
                case 0: stop_asked = true; sv->Stop(0); break;
                case 1: sv->SetMaxConnections(a.how % 2 ? -1 : 50 + a.how); check(sv->GetMaxConnections() == (a.how % 2 ? -1 : 50 + (int)a.how), "the limit is not what was set"); break;
                case 2: if (where != 2) { sv->SetConnectedHandler(a.how % 2 ? up2_handler : up_handler); check(sv->GetConnectedHandler() == (a.how % 2 ? up2_handler : up_handler), "the connected callback is not what was set"); } break;
                case 3: if (where != 2) { sv->SetDisconnectedHandler(a.how % 2 ? down2_handler : down_handler); check(sv->GetDisconnectedHandler() == (a.how % 2 ? down2_handler : down_handler), "the disconnected callback is not what was set"); } break;
                case 4: if (where != 1) { SafeConnection *r = a.how % 2 ? sv->GetConnection(c->id) : sv->GetConnection(c->tag); check(r ? &(*r)() == c : where == 2 && stop_asked, "a connection is not found inside its own callback"); delete r; } break;
                case 5: if (where != 1) push(c); else { Request q("x"); check(!c->Push(q, 5), "a response on an ended connection"); delete c->Pull(0); } break;
                case 6: if (where != 1) c->Disconnect(a.how % 2); else { c->Disconnect(a.how % 2); check(!c->IsConnected() && c->WaitForStop(5), "a connection announced as gone has not ended"); } break;
                case 7: { Server x; std::string p = sock_path("cb"); check(x.StartUnix(p), "a server cannot be started inside a callback"); int fd = raw_unix(p); check(fd >= 0, "a server started inside a callback cannot be reached"); if (fd >= 0) hclose(fd); x.Stop(-1); check(x.GetType() == SocketTypeUndefined, "a server stopped inside a callback still runs"); break; }
                case 8: { Client x; check(other->dial(x), "connecting to another server inside a callback failed"); Request *w = x.Pull(15); check(w, "nothing from another server inside a callback"); delete w; Request q("echo"); q.SetId(7000001); Request *r = x.Push(q, 15, false); check(r && r->GetName() == "echo", "no answer from another server inside a callback"); delete r; if (a.how % 2) x.Disconnect(true, true); break; }
                default: c->SetOurSaInterval(50); c->SetTheirNaIntervalLimit(90); c->SetMaxRequestSize(1 << 20); break;
            }
            done++;
        }
    };
    other->s.SetConnectedHandler(up_handler);
    on_up = [&](Server *sv, Connection *c) {
        if (sv == &other->s) { c->SetHandlerDefault(H[1]); Request w("welcome"); c->Push(w); return; }
        c->tag = "k" + std::to_string(c->id); c->SetHandlerNamed("do", H[0]); c->SetMaxRequestSize(1 << 20); Request w("welcome"); c->Push(w);
        run(sv, c, 0); ups++;
    };
    on_down = [&](Server *sv, Connection *c) { if (sv != &other->s) { run(sv, c, 1); downs++; } };
    on_request = [&](Connection *c, Request *r, int h) { if (h == 1) { Request a("echo"); a.SetId(r->GetId()); c->Push(a, 0, false); } else if (h == 0) { run(&s, c, 2); handled++; } };
    site->start();
    std::vector<std::unique_ptr<Raw>> cl; unsigned steps = 2 + g.u(6), eu = 0, ed = 0;       // expected announcements
    bool u2 = false, d2 = false; unsigned e2u = 0, e2d = 0;
    auto healthy = [&](const char *when) { Lk k(al); PBT_CHECK(bad.empty(), "%s: %s", when, bad.c_str()); };
    for (unsigned q = 0; q < steps; q++) {
        // what is to be done where
        unsigned where = g.weighted({4, 3, 3}); if (where && cl.empty()) where = 0;
        std::vector<Act> acts; unsigned n = g.u(3); bool ends = false, stops = false, forced = false; unsigned frames = 0; done = 0;
        for (unsigned i = 0; i < n; i++) {
            Act a{(unsigned)g.weighted({1, 3, 3, 3, 3, 4, 2, 2, 2, 2}), (unsigned)g.u(9)};
            if (a.what == 0) { if (stops) continue; stops = true; }
            if (a.what == 6 && where != 1) { if (ends) continue; ends = true; forced = a.how % 2; }
            if (a.what == 5 && where != 1 && !ends) frames++;
            acts.push_back(a); note("%c%u.%u ", "udr"[where], a.what, a.how);
        }
        { Lk k(al); todo = acts; pushed.clear(); place = where; }
        note("[%u of %zu] ", where, cl.size());
        if (acts.size()) nontrivial();
        bool ou = u2, od = d2;
        for (auto &a : acts) if (where != 2) { if (a.what == 2) u2 = a.how % 2; if (a.what == 3) d2 = a.how % 2; }
        Raw *x = nullptr; size_t base = 0, idx = 0;
        if (where == 0) {
            int fd = site->dial(); if (fd < 0) PBT_FAIL("connecting to a running server failed: %s", strerror(errno));
            cl.emplace_back(new Raw(fd)); idx = cl.size() - 1; x = cl.back().get(); eu++; e2u += ou; base = 1;
        } else { idx = g.u(cl.size() - 1); x = cl[idx].get(); x->pump(); base = x->frames.size();
            if (where == 1) { x->close(); cl.erase(cl.begin() + idx); x = nullptr; ed++; e2d += od; }
            else { MReq m; m.name = "do"; m.id = 5; unsigned hb = handled; x->send_now(enc(m)); wait_until([&] { return handled > hb; }, "a request being handled", 25); } }
        wait_until([&] { return done == acts.size(); }, "the actions inside a callback returning", 25);
        healthy("inside a callback");
        if (x && !forced && !stops) {     // what was pushed inside before a graceful end arrives
            wait_until([&] { return x->frames.size() >= base + frames || x->ended(); }, "what was pushed inside a callback");
            PBT_CHECK(x->frames.size() == base + frames, "%zu frames arrived of %zu pushed inside a callback", x->frames.size() - base, (size_t)frames);
            Lk k(al); for (unsigned i = 0; i < frames; i++) PBT_CHECK(x->frames[base + i] == enc(pushed[i]), "a wrong request arrived");
        }
        if (stops) {
            PBT_CHECK(stop_asked, "harness: stop"); stop_asked = false; label("stopped inside a callback");
            if (g.flip()) timed("WaitForStop(-1)", 25, [&] { s.WaitForStop(-1); }); else wait_until([&] { return s.GetType() == SocketTypeUndefined; }, "the stop requested inside a callback", 25);
            PBT_CHECK(s.GetType() == SocketTypeUndefined, "GetType() after the stop");
            for (auto &c : cl) wait_until([&] { return c->ended(); }, "the end of the clients of a stopped server");
            cl.clear(); ups = downs = 0; eu = ed = 0; e2u = e2d = 0; up2s = down2s = 0;
            if (site->tcp && g.flip()) site->port = 0;
            site->start(); continue;
        }
        if (ends) { wait_until([&] { return x->ended(); }, "the end of a connection that was disconnected inside a callback"); cl.erase(cl.begin() + idx); ed++; e2d += d2; label("disconnected inside a callback"); }
        wait_until([&] { return ups == eu && downs == ed; }, "the announcements");
        PBT_CHECK(up2s == e2u && down2s == e2d, "announcements went to other callbacks than those set: %u %u, expected %u %u", up2s.load(), down2s.load(), e2u, e2d);
        if (cl.size()) { Raw &y = *cl[g.u(cl.size() - 1)]; PBT_CHECK(!y.ended(), "a client was disconnected by nobody"); }
    }
    label_faults(); F.on = false;
    if (g.flip()) { s.Stop(-1); PBT_CHECK(s.GetType() == SocketTypeUndefined, "GetType() after the stop"); }
    site.reset(); other.reset(); on_request = nullptr;
}

static void noop(int) {}
struct Storm {      // sends signals to all threads of the process
    std::atomic<bool> stop{false}; std::thread t; std::atomic<uint64_t> n{0}; unsigned us;
    explicit Storm(unsigned period) : us(period) {
        struct sigaction sa{}; sa.sa_handler = noop; sigaction(SIGUSR1, &sa, nullptr);
        t = std::thread([this] {
            pid_t self = syscall(SYS_gettid), pid = getpid();
            while (!stop) {
                for (int tid : tids()) if (tid != self && tid != pid) { syscall(SYS_tgkill, pid, tid, SIGUSR1); n++; }
                nap(us);
            }
        });
    }
    static std::vector<int> tids() { std::vector<int> v; char p[32]; snprintf(p, 32, "/proc/self/task"); if (DIR_ *d = dir(p)) { v = d->list(); delete d; } return v; }
    struct DIR_ { std::vector<int> l; std::vector<int> list() { return l; } };
    static DIR_ *dir(const char *p);
    ~Storm() { stop = true; t.join(); pbt::labeln("signals sent", n); }
};
#include <dirent.h>
Storm::DIR_ *Storm::dir(const char *p) { DIR *d = opendir(p); if (!d) return nullptr; auto *r = new DIR_; while (dirent *e = readdir(d)) if (e->d_name[0] != '.') r->l.push_back(atoi(e->d_name)); closedir(d); return r; }

// ------------------------------------------------------------------ C19
PBT_PROP(C19, truth, 12000, 180000, 12, 60,
    "generated sequences of TCP and UNIX connect attempts to live, dead, malformed, over-long, non-socket, stale endpoints with timeouts of 1 s to unlimited, interleaved with disconnections and connects while connected; oracle: true iff the endpoint accepts, with an exchange in both directions as proof; a failed attempt is quick, leaves the client unconnected and able to connect; non-trivial: a failed attempt or a refused one while connected")
{
    reset_server();
    gen_faults(g, g.u(2));
    uint16_t port; int tl = tcp_listen(&port); std::string path = sock_path("c19"); int ul = unix_listen(path);
    std::string longest = sock_path("m"); while (longest.size() < 107) longest += 'm';
    int ll = unix_listen(longest);
    std::string stale = sock_path("z"); hclose(unix_listen(stale));
    std::string file = sock_path("f"); put_file(file, "x");
    // reachable under every address of this machine
    uint16_t anyport; int al = R.socket(AF_INET, SOCK_STREAM, 0); own(al);
    { sockaddr_in a{}; a.sin_family = AF_INET; socklen_t l = sizeof a; PBT_CHECK(!R.bind(al, (sockaddr *)&a, l) && !listen(al, 8) && !getsockname(al, (sockaddr *)&a, &l), "harness: bind"); anyport = ntohs(a.sin_port); }
    uint16_t dead; int deadfd = R.socket(AF_INET, SOCK_STREAM, 0); own(deadfd);      // bound, not listening
    { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = lo_addr(); socklen_t l = sizeof a; PBT_CHECK(!R.bind(deadfd, (sockaddr *)&a, l) && !getsockname(deadfd, (sockaddr *)&a, &l), "harness: bind"); dead = ntohs(a.sin_port); }
    auto cl = std::make_unique<Client>(); Client &c = *cl; c.SetHandlerNamed("in", H[0]);
    std::unique_ptr<Raw> peer; uint32_t n = 1; std::deque<std::string> unread; std::string rest;
    auto exchange = [&](const char *when) {
        MReq m = tagged(n, n); m.name = "in"; m.id = n; size_t hb = hcount(), fb = peer->frames.size();
        peer->send_now(enc(m)); Request r("out"); r.Set("n", new Value32U(n), false); c.Push(r);
        wait_until([&] { return hcount() > hb && peer->frames.size() > fb; }, when);
        PBT_CHECK(hcopy().back().enc == enc(m) && parse(peer->frames.back()).args[0].v.num == n, "%s: wrong requests were exchanged", when);
        n++;
    };
    unsigned steps = 2 + g.u(8);
    for (unsigned q = 0; q < steps; q++) {
        int to = g.flip() ? g.one<int>({30, 1, 2, 5, -1}) : long_timeout(g);
        unsigned kind = g.u(9); bool ok = false; int l = -1; bool res = false; double t = now_s();
        std::function<bool()> go;
        switch (kind) {
            case 0: go = [&] { return c.ConnectUnix(path, to); }; ok = true; l = ul; break;
            case 1: if (g.flip()) { go = [&] { return c.ConnectTcp(lo(), port, to); }; } else { go = [&] { return c.ConnectTcp(lo(), port); }; } ok = true; l = tl; break;
            case 2: go = [&] { return c.ConnectUnix(longest, to); }; ok = true; l = ll; label("longest path"); break;
            case 3: if (g.chance(1, 4)) { go = [&] { return c.ConnectUnix("", to); }; label("empty path"); } else { go = [&] { return c.ConnectUnix(path + ".none", to); }; label("no such path"); } break;
            case 4: go = [&] { return c.ConnectUnix(stale, to); }; label("stale socket"); break;
            case 5: go = [&] { return c.ConnectUnix(file, to); }; label("not a socket"); break;
            case 6: { size_t len = 108 + g.size(5000); std::string p = longest; while (p.size() < len) p += 'l'; go = [&, p] { return c.ConnectUnix(p, to); }; label("over-long path"); break; }
            case 7: { std::string a = g.one<const char *>({"", "abc", "256.1.1.1", "127.0.0.1x", "1.2.3.4.5", "127..1", "::1", "localhost", " ", "  ", ".", "127.0.0.1.", "127.0.0.1:80", "-127.0.0.1", "127,0,0,1", "0x", "1.2.3.-4", "127.0.0.256", "*", "any", "0.0.0.0/0", " 127.0.0.1", "\t127.0.0.1", "\n127.0.0.1", "+127.0.0.1"}); go = [&, a] { return c.ConnectTcp(a, anyport, to); }; label("malformed address"); break; }
            case 8: go = [&] { return c.ConnectTcp(lo(), dead, to); }; label("nobody listens"); break;
            default: go = [&] { return c.ConnectUnix(path, to); }; ok = true; l = ul; break;
        }
        if (g.chance(1, 8) && !c.IsConnected()) PBT_CHECK(!c.IsConnecting(), "IsConnecting() without an attempt");
        bool was = c.IsConnected();
        if (was) {      // things that an attempt must not disturb
            for (unsigned k = g.u(2); k--;) { MReq m = tagged(n, k, g.u(40)); m.id = 70000 + n++; unread.push_back(enc(m)); peer->send(unread.back()); }
            if (g.flip()) exchange("an exchange before a refused attempt");
            if (g.chance(1, 3)) { MReq m = tagged(n, 5, 300); m.id = 90000 + n++; std::string f = enc(m); size_t cut = 1 + g.u(f.size() - 2); unread.push_back(f); peer->send_now(f.substr(0, cut)); rest = f.substr(cut); label("partial frame before a refused attempt"); }
            if (g.flip()) { c.SetMaxRequestSize(50000 + g.u(100)); c.SetSendBlockSize(1 + g.u(2000)); c.SetRecvBlockSize(1 + g.u(2000)); c.SetOurSaInterval(5 + g.u(9)); c.SetTheirNaIntervalLimit(40 + g.u(9)); }
            t = now_s();
        }
        auto state = [&] { char b[200]; snprintf(b, 200, "%u %u %u %lld %lld %d %d %d %u", c.GetMaxRequestSize(), c.GetSendBlockSize(), c.GetRecvBlockSize(), (long long)c.GetOurSaInterval(), (long long)c.GetTheirNaIntervalLimit(), c.GetHandlerNamed("in") == H[0], c.GetHandlerDefault() == nullptr, (int)c.GetType(), c.GetRefs()); return std::string(b); };
        std::string st = state();
        res = go(); t = now_s() - t;
        if (was) PBT_CHECK(state() == st, "connecting while connected changed the settings: %s, before: %s", state().c_str(), st.c_str());
        note("kind %u -> %d; ", kind, res);
        if (was) {
            PBT_CHECK(!res, "connecting while connected returned true (kind %u)", kind);
            PBT_CHECK(c.IsConnected() && !c.IsConnecting(), "connecting while connected changed the state");
            PBT_CHECK(!c.WaitForStop(0) && !c.IsDisconnecting(), "connecting while connected changed the state");
            if (rest.size()) { peer->send(rest); rest.clear(); }
            exchange("the existing connection after a refused attempt"); nontrivial(); label("refused: connected");
            while (unread.size() && !g.chance(1, 4)) { Request *r = c.Pull(20); PBT_CHECK(r, "a received request was lost by a refused attempt"); std::string f = enc(read_req(r)); delete r; PBT_CHECK(f == unread.front(), "Pull returned something else than expected after a refused attempt"); unread.pop_front(); label("unread requests before a refused attempt"); }
            if (unread.empty()) PBT_CHECK(!c.Pull(0), "a request from nowhere after a refused attempt");
        } else {
            PBT_CHECK(!c.IsConnecting(), "IsConnecting() after the attempt");
            PBT_CHECK(res == ok, "connect (kind %u, timeout %d) returned %d, expected %d", kind, to, res, ok);
            PBT_CHECK(c.IsConnected() == ok, "IsConnected() is %d after connect returned %d", c.IsConnected(), res);
            if (!ok) { nontrivial(); PBT_CHECK(c.GetType() == SocketTypeUndefined, "GetType() after a failed attempt"); if (t > 15) PBT_LATE("a hopeless attempt (kind %u) took %.1f s", kind, t); }
            else {
                PBT_CHECK(c.GetType() == (l == tl ? SocketTypeTcp : SocketTypeUnix), "GetType() is %u", c.GetType());
                peer.reset(new Raw(raw_accept(l))); exchange("an exchange on a new connection");
            }
        }
        if (c.IsConnected() && c.GetType() == SocketTypeUnix && rest.empty() && g.chance(1, 4)) {      // attempts while a graceful disconnection is in progress
            peer->pump(); peer->reading = false; size_t fb = peer->frames.size(); std::vector<std::string> want; unsigned nb = 2 + g.u(1);
            bool on = F.on; F.on = false; c.SetSendBlockSize(1 << 20);
            for (unsigned k = 0; k < nb; k++) { MReq m = tagged(n, k, 300000 + g.u(100000)); m.id = 500 + k; c.Push(make(m), false, 0, false); want.push_back(enc(m)); }
            c.SetTheirNaIntervalLimit(60); c.Disconnect(false);
            if (g.flip()) nap(g.u(2000));
            if (c.IsDisconnecting()) for (unsigned k = 1 + g.u(1); k--;) {
                bool un = g.flip(), r = un ? c.ConnectUnix(path, 20) : c.ConnectTcp(lo(), port, 20); bool still = c.IsConnected();
                PBT_CHECK(still, "the disconnecting connection ended although %u requests are to be sent yet", nb);
                PBT_CHECK(!r, "connecting while a graceful disconnection is in progress returned true");
                label("refused: disconnecting"); nontrivial();
            }
            peer->reading = true; wait_until([&] { return peer->ended(); }, "the end of a gracefully disconnected connection", 30);
            std::vector<std::string> got(peer->frames.begin() + fb, peer->frames.end());
            PBT_CHECK(got == want, "%zu of %zu requests pushed before the graceful disconnection arrived", got.size(), want.size());
            c.WaitForStop(-1); PBT_CHECK(!c.IsConnected(), "connected after the stop"); unread.clear(); F.on = on;
        }
        if (c.IsConnected() && g.flip()) {
            if (g.flip()) c.Disconnect(g.flip(), true); else { peer->close(); c.WaitForStop(-1); }
            PBT_CHECK(!c.IsConnected(), "connected after the stop"); label("disconnected");
            unread.clear();
        }
    }
    label_faults(); F.on = false;
    cl.reset(); hclose(tl); hclose(ul); hclose(ll); hclose(al); hclose(deadfd);
    for (auto &p : {path, longest, stale, file}) unlink(p.c_str());
}

PBT_PROP(C19, unresponsive, 250, 5000, 64, 75,
    "attempts to endpoints that do not answer (full backlog, TCP or UNIX) with timeouts of 1-3 s or long, half of them with real signals to the connecting threads up to 50 times per second: false close to the timeout (never before it, not long after it), or true when a place becomes free in time; afterwards the client can connect; non-trivial: always")
{
    bool tcp = g.flip(); uint16_t port = 0; std::string path; int l;
    if (tcp) l = tcp_listen(&port, 0); else { path = sock_path("full"); l = unix_listen(path, 0); }
    // fill the backlog
    std::vector<int> fill;
    for (int k = 0; k < 4; k++) {
        int s = R.socket(tcp ? AF_INET : AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); own(s); fill.push_back(s);
        if (tcp) { sockaddr_in a{}; a.sin_family = AF_INET; a.sin_addr.s_addr = lo_addr(); a.sin_port = htons(port); R.connect(s, (sockaddr *)&a, sizeof a); nap(2000); }
        else { sockaddr_un a{}; a.sun_family = AF_UNIX; strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1); if (R.connect(s, (sockaddr *)&a, sizeof a) && errno == EAGAIN) break; }
    }
    nap(5000); nontrivial();
    bool freed = g.flip();
    std::unique_ptr<Storm> storm;
    if (g.flip()) { storm.reset(new Storm(20000 + g.u(600000))); label("signals meanwhile"); }
    int to = freed ? 20 + g.u(20) : 1 + g.u(2);
    Client c; std::atomic<bool> done{false}; bool res = false; double took = 0;
    std::thread t([&] { double s = now_s(); res = tcp ? c.ConnectTcp(lo(), port, to) : c.ConnectUnix(path, to); took = now_s() - s; done = true; });
    nap(100000 + g.u(400000));
    bool early = done;
    if (early && res) { label("not judged: the backlog was not full"); t.join(); for (int s : fill) hclose(s); hclose(l); return; }
    PBT_CHECK(!early, "an attempt with a timeout of %d s to an endpoint that does not answer returned false at once", to);
    PBT_CHECK(!c.IsConnected(), "IsConnected() during an attempt");
    if (!done) PBT_CHECK(c.IsConnecting() || done, "IsConnecting() is false during an attempt");
    note("%s timeout %d%s%s", tcp ? "tcp" : "unix", to, freed ? ", a place becomes free" : "", storm ? ", signals" : "");
    if (freed) {
        std::vector<int> acc; double e = now_s() + 15;
        while (!done && now_s() < e) { pollfd p{l, POLLIN, 0}; if (R.poll(&p, 1, 20) > 0) { int s = R.accept4(l, nullptr, nullptr, 0); if (s >= 0) { own(s); acc.push_back(s); } } }
        if (!done) PBT_LATE("an attempt did not succeed within 15 s after the endpoint had places free (%s)", tcp ? "tcp" : "unix");
        t.join();
        PBT_CHECK(res, "an attempt with a timeout of %d s returned false after %.2f s although the endpoint accepted it", to, took);
        PBT_CHECK(c.IsConnected(), "IsConnected() is false after connect returned true");
        for (int s : acc) hclose(s);
        label("freed in time");
    } else {
        wait_until([&] { return done.load(); }, "an attempt to an unresponsive endpoint giving up", to + 25); t.join();
        PBT_CHECK(!res && !c.IsConnected() && !c.IsConnecting(), "an attempt to an unresponsive endpoint succeeded");
        PBT_CHECK(took >= to - 0.05, "an attempt with a timeout of %d s gave up after %.2f s", to, took);
        if (took > to + 10) PBT_LATE("an attempt with a timeout of %d s took %.2f s", to, took);
        label("timed out");
        // still able to connect elsewhere
        uint16_t p2; int l2 = tcp_listen(&p2); PBT_CHECK(c.ConnectTcp(lo(), p2, 20), "a client could not connect after a failed attempt"); hclose(l2);
    }
    for (int s : fill) hclose(s); hclose(l); if (!tcp) unlink(path.c_str());
}

// ------------------------------------------------------------------ C20
static void history(Gen &g) {
    reset_server();
    unsigned lv = g.u(3);
    gen_faults(g, lv); F.budget_us = 800000;
    if (F.recv_cap && F.recv_cap < 4) F.recv_cap = 4;
    std::vector<int> pre; open_fds(&pre); for (int f : pre) own(f);
    std::vector<int> decoys;
    auto decoy = [&] { for (unsigned k = 1 + g.u(2); k--;) { int f = R.eventfd(7, EFD_NONBLOCK); own(f); decoys.push_back(f); } };
    {
        std::vector<std::unique_ptr<Site>> sites; std::vector<std::unique_ptr<Client>> clients; std::vector<std::unique_ptr<Connection>> direct; std::vector<std::unique_ptr<Raw>> raws;
        std::vector<SafeConnection *> refs; std::vector<std::thread> ts;
        track(true);
        auto any = [&]() -> Connection * { size_t n = clients.size() + direct.size(); if (!n) return nullptr; size_t i = g.u(n - 1); return i < clients.size() ? (Connection *)clients[i].get() : direct[i - clients.size()].get(); };
        unsigned steps = 3 + g.u(22);
        for (unsigned q = 0; q < steps; q++) {
            unsigned op = g.weighted({3, 4, 3, 3, 5, 4, 3, 3, 2, 2, 3, 2, 2, 2, 2});
            switch (op) {
                case 0: if (sites.size() < 2) { sites.emplace_back(new Site(g.chance(1, 4))); Site &s = *sites.back(); if (g.flip()) s.s.SetConnectedHandler(up_handler); if (g.flip()) s.s.SetDisconnectedHandler(down_handler); s.start(); note("server "); label("server started"); } break;
                case 1: if (clients.size() < 3) clients.emplace_back(new Client()); if (sites.size() && clients.size()) { Client &c = *clients[g.u(clients.size() - 1)]; Site &s = *sites[g.u(sites.size() - 1)]; if (s.s.GetType()) { bool was = c.IsConnected(); bool r = s.dial(c); if (!was && r) c.SetMaxRequestSize(1 << 20); note("connect=%d ", r); label("client connected"); } } break;
                case 2: if (direct.size() < 3) { int sv[2]; if (g.chance(1, 6)) tcp_pair(sv); else unix_pair(sv); raws.emplace_back(new Raw(sv[1])); direct.emplace_back(conn_on(sv[0])); note("pair "); } break;
                case 3: if (sites.size() && raws.size() < 6) { Site &s = *sites[g.u(sites.size() - 1)]; if (s.s.GetType()) { int fd = s.dial(); if (fd >= 0) raws.emplace_back(new Raw(fd)); note("raw "); } } break;
                case 4: if (auto *c = any()) { for (unsigned k = 1 + g.u(4); k--;) { MReq m = tagged(1, k, g.size(3000)); if (g.flip()) c->Push(make(m), false); else { Request r; build_into(r, m); c->Push(&r); } } note("push "); } break;
                case 5: if (raws.size()) { Raw &r = *raws[g.u(raws.size() - 1)]; if (r.fd >= 0) { std::string f; switch (g.u(6)) { case 4: case 5: { // legal length, not decodable, or decodable with an ill-formed argument
                    for (unsigned k = 1 + g.u(3); k--;) { MReq m = tagged(4, 4, g.u(300)); if (g.flip()) { MArg a; a.name = "x"; Lim l; l.str = 40; l.depth = 2; l.elems = 4; a.v = gen_value(g, l); m.args.push_back(a); } std::string e = enc(m);
                        if (g.flip()) { size_t at = 8 + g.u(std::min<size_t>(e.size() - 9, 60)); e[at] = (char)g.u(255); } else if (g.flip()) { e.resize(10 + g.u(e.size() - 10)); e.replace(0, 4, le(e.size(), 4)); } else e[8] = (char)0xff, e[9] = (char)0x7f;
                        f += e; } label("undecodable frames"); break; } case 0: f = le(1 << 30, 4); break; case 1: f = g.bytes(1 + g.u(40)); break; case 2: f = enc(tagged(3, 3, 200)).substr(0, 1 + g.u(100)); break; default: f = enc(tagged(3, 3, g.u(2000))); } r.send_now(f); note("data "); } } break;
                case 6: if (auto *c = any()) { bool w = g.flip() && c->IsConnected(); c->Disconnect(g.flip(), false); if (w) c->WaitForStop(10); note("disc "); label("disconnected"); } break;
                case 7: if (raws.size()) { size_t i = g.u(raws.size() - 1); raws[i]->close(g.chance(1, 3)); raws.erase(raws.begin() + i); note("close "); } break;
                case 8: { Client *c; if (clients.empty()) clients.emplace_back(new Client()); c = clients[g.u(clients.size() - 1)].get(); if (!c->IsConnected()) { switch (g.u(4)) { case 0: c->ConnectTcp("nonsense", 1, 5); break; case 1: c->ConnectUnix("/nonexistent/dowow", 5); break; case 2: c->ConnectUnix(std::string(300, 'x'), 5); break; case 3: { uint16_t p; int l = tcp_listen(&p); hclose(l); c->ConnectTcp(lo(), p, 5); break; } default: c->ConnectUnix(scratch(), 5); } label("failed connect"); note("badconnect "); } break; }
                case 9: {
                    auto fresh = std::make_unique<Server>(); Server *bad = fresh.get();
                    if (sites.size() && g.flip()) bad = &sites[g.u(sites.size() - 1)]->s;      // also a running server, or a stopped one
                    for (unsigned n = 1 + g.u(1); n--;) {
                        unsigned k = g.u(6); bool r;
                        switch (k) {
                            case 0: r = bad->StartTcp("nonsense", 0); break;
                            case 1: r = bad->StartUnix("/nonexistent/dowow"); break;
                            case 2: r = bad->StartUnix(scratch()); break;
                            case 3: r = bad->StartUnix(std::string(200, 'y')); break;
                            case 4: r = bad->StartTcp("192.0.2.1", 0); break;
                            case 5: { uint16_t p; int l = tcp_listen(&p); r = bad->StartTcp(lo(), p); hclose(l); break; }
                            default: { std::string p = sock_path("occ"); put_file(p, "x"); r = bad->StartUnix(p, false); unlink(p.c_str()); break; }
                        }
                        PBT_CHECK(!r, "a hopeless start succeeded (kind %u)", k);
                    }
                    label("failed start"); note("badstart "); break; }
                case 10: if (auto *c = any()) { c->SetOurSaInterval(5 + g.u(10)); c->SetTheirNaIntervalLimit(50); c->GetStoppedEvent(); c->IsConnected(); delete c->Pull(0); c->SetHandlerNamed("t", g.flip() ? H[0] : nullptr); note("calls "); } break;
                case 11: if (auto *c = any()) { if (!c->IsConnected()) { delete c->Pull(g.one<int>({-1, 3})); } else { ts.emplace_back([c] { Request *r = c->Pull(1); delete r; }); for (auto &t : ts) t.join(); ts.clear(); label("timed out or served Pull"); } note("pull "); } break;
                case 12: switch (g.u(2)) {
                    case 0: if (sites.size()) { size_t i = g.u(sites.size() - 1); if (g.flip()) { if (sites[i]->s.GetType()) { sites[i]->s.Stop(g.flip() ? -1 : 0); sites[i]->s.WaitForStop(-1); } if (g.flip() && refs.empty()) sites[i]->start(); } else if (refs.empty()) sites.erase(sites.begin() + i); note("stop "); label("server stopped"); } break;
                    case 1: if (clients.size()) { clients.erase(clients.begin() + g.u(clients.size() - 1)); note("~client "); } break;
                    default: if (direct.size()) { direct.erase(direct.begin() + g.u(direct.size() - 1)); note("~conn "); } break; }
                    break;
                case 13: decoy(); note("decoy "); break;
                default: if (sites.size()) { Site &s = *sites[g.u(sites.size() - 1)]; SafeConnection *r = s.s.GetConnection((uint32_t)(1 + g.u(3))); if (r) { (*r)().Push(make(tagged(5, 5)), false); delete (*r)().Pull(0); if (g.flip()) (*r)().Disconnect(g.flip()); if (g.flip()) nap(g.u(500)); delete r; label("reference used"); note("ref "); } } break;
            }
            if (g.chance(1, 5)) decoy();
            if (g.chance(1, 4)) { nap(g.u(400)); pump_all(); }
        }
        for (auto *r : refs) delete r;
        // destruction in a generated order
        while (sites.size() || clients.size() || direct.size() || raws.size()) {
            switch (g.u(3)) {
                case 0: if (sites.size()) sites.pop_back(); else if (clients.size()) clients.pop_back(); else if (direct.size()) direct.pop_back(); else raws.pop_back(); break;
                case 1: if (clients.size()) clients.erase(clients.begin()); break;
                case 2: if (direct.size()) direct.erase(direct.begin()); break;
                default: if (raws.size()) raws.erase(raws.begin()); break;
            }
        }
    }
    // detached connecting threads may still be leaving
    label_faults(); F.on = false;
    for (int f : decoys) { uint64_t v = 0; ssize_t n = R.read(f, &v, 8); PBT_CHECK(n == 8 && v == 7, "a descriptor of the application was changed or closed (%zd, %llu)", n, (unsigned long long)v); hclose(f); }
    track(false);
    { Lk k(hlock); std::vector<Rec>().swap(hlog); } { Lk k(annl); std::vector<Ann>().swap(anns); }
}
PBT_PROP(C20, balance, 1000, 120000, 10, 75,
    "generated histories over servers, clients, connections on socket pairs and raw peers (starts and connects that succeed or fail, traffic, garbage, waiting calls, disconnections, calls on ended connections, references, restarts, destruction in any order), interleaved with the application opening descriptors of its own, under injected delays and faults; afterwards the same descriptors and threads exist as before, the heap has not grown in three of three repetitions, every descriptor was closed exactly once and nothing operated on a closed or foreign one; non-trivial: at least one connection was established")
{
    auto fds = [] { std::vector<int> v; open_fds(&v); std::sort(v.begin(), v.end()); return v; };
    static bool warm = false;
    auto before = fds(); size_t th = threads();
    auto after = [&] {
        wait_until([&] { return threads() <= th; }, "threads ending after everything was destroyed");
        auto a = fds();
        if (a != before) {
            std::string d; for (int f : a) if (!std::binary_search(before.begin(), before.end(), f)) { char p[64], t[200] = ""; snprintf(p, 64, "/proc/self/fd/%d", f); ssize_t n = readlink(p, t, 199); d += " " + std::to_string(f) + "=" + std::string(t, n > 0 ? n : 0); }
            for (int f : before) if (!std::binary_search(a.begin(), a.end(), f)) d += " -" + std::to_string(f);
            PBT_FAIL("open descriptors differ from before:%s", d.c_str());
        }
    };
    auto heap = [] { return (long long)__sanitizer_get_current_allocated_bytes(); };
    long long h0 = heap();
    history(g); after();
    long long grown = heap() - h0;
    nontrivial();
    if (!warm) { warm = true; return; }
    for (int i = 0; grown > 0 && i < 3; i++) {
        Gen again = g.again(); h0 = heap(); history(again); after(); grown = heap() - h0;
        if (i == 2) PBT_CHECK(grown <= 0, "the heap grew by %lld bytes in each of four executions of this history", grown);
    }
}

// ------------------------------------------------------------------ C22
PBT_PROP(C22, service, 900, 60000, 12, 75,
    "a server under a generated mix of injected EINTR, short counts, aborted accepts, real signals to all its threads, and hostile clients (closing or resetting before or right after being accepted, sending garbage, over-long announcements, parts of frames, never reading), while good clients keep exchanging requests and new ones keep connecting; threads wait in WaitForStop meanwhile; every good exchange completes, good connections stay up, waiting calls return only at the stop; non-trivial: a fault was injected or a hostile client appeared before a good exchange")
{
    reset_server();
    gen_faults(g, 3); F.budget_us = 1500000;
    if (g.flip()) { F.abort_accept = g.one<unsigned>({2, 3, 6}); F.on = true; }
    if (g.flip()) { F.fail_accept = g.one<unsigned>({2, 3, 6}); F.on = true; }
    if (F.recv_cap && F.recv_cap < 3) F.recv_cap = 3;
    auto site = std::make_unique<Site>(g.chance(1, 4)); Server &s = site->s;
    s.SetConnectedHandler(up_handler); s.SetDisconnectedHandler(down_handler);
    on_up = [&](Server *, Connection *c) { c->SetHandlerDefault(H[0]); c->SetMaxRequestSize(70000); Request w("welcome"); c->Push(w); };
    on_request = [&](Connection *c, Request *r, int h) { if (h == 0 && r->GetName() == "bye") { for (int i = 0; i < 8; i++) c->Push(make(tagged(7, i, 60000)), false); c->Disconnect(false); }
        if (h == 0 && r->GetName() == "echo") { MReq m = read_req(r); c->Push(make(m), false, 0, false); } };
    site->start();
    std::unique_ptr<Storm> storm; if (g.chance(1, 3)) { storm.reset(new Storm(g.one<unsigned>({200, 1000, 3000}))); label("real signals"); }
    std::atomic<bool> waited{false}; std::thread w([&] { s.WaitForStop(-1); waited = true; });
    struct Good { std::unique_ptr<Raw> raw; std::unique_ptr<Client> cl; uint32_t n = 0; };
    std::vector<std::unique_ptr<Good>> good; std::vector<std::unique_ptr<Raw>> bad;
    bool trouble = F.any();
    auto join = [&] {
        auto x = std::make_unique<Good>();
        if (g.flip()) {
            // an injected abort drops the connection before it is accepted: try again
            wait_until([&] {
                if (!x->raw) { int fd = site->dial(); if (fd < 0) PBT_FAIL("connecting to a running server failed: %s", strerror(errno)); x->raw.reset(new Raw(fd)); }
                if (x->raw->ended() && x->raw->frames.empty() && F.n_aborted) x->raw.reset();
                return x->raw && !x->raw->frames.empty();
            }, "a new client being served");
        } else {
            x->cl.reset(new Client()); x->cl->SetMaxRequestSize(70000); bool served = false; uint64_t tries = 0;
            wait_until([&] {
                if (!x->cl->IsConnected()) { if (tries++) { if (!F.n_aborted) PBT_FAIL("a good client was disconnected"); x->cl->WaitForStop(-1); } if (!site->dial(*x->cl)) { if (!F.n_aborted) PBT_FAIL("a client could not connect to a running server"); return false; } }
                if (Request *r = x->cl->Pull(0)) { served = r->GetName() == "welcome"; delete r; }
                return served;
            }, "a new client being served");
        }
        good.push_back(std::move(x));
    };
    auto talk = [&](Good &x) {
        unsigned n = 1 + g.u(3); std::vector<std::string> want;
        size_t base = x.raw ? x.raw->frames.size() : 0;
        for (unsigned i = 0; i < n; i++) { MReq m = tagged(7, x.n++, g.size(F.recv_cap && F.recv_cap < 100 ? 300 : 20000)); m.name = "echo"; m.id = x.n; want.push_back(enc(m)); if (x.raw) x.raw->send(enc(m)); else x.cl->Push(make(m), false, 0, false); }
        std::vector<std::string> got;
        wait_until([&] { if (x.raw) { PBT_CHECK(!x.raw->ended() || x.raw->frames.size() >= base + n, "a good client was disconnected"); got.assign(x.raw->frames.begin() + base, x.raw->frames.end()); }
            else { while (Request *r = x.cl->Pull(0)) { got.push_back(enc(read_req(r))); delete r; } PBT_CHECK(x.cl->IsConnected() || got.size() >= n, "a good client was disconnected"); }
            return got.size() >= n; }, "an exchange of a good client", 30);
        PBT_CHECK(got == want, "a good client got other answers than expected");
        if (trouble) nontrivial();
    };
    unsigned steps = 4 + g.u(14);
    join();
    for (unsigned q = 0; q < steps; q++) {
        switch (g.weighted({3, 5, 5})) {
            case 0: if (good.size() < 4) join(); break;
            case 1: talk(*good[g.u(good.size() - 1)]); break;
            default: {
                trouble = true;
                unsigned k = g.u(8); note("h%u ", k); int fd = site->dial(); if (fd < 0) PBT_FAIL("connecting to a running server failed: %s", strerror(errno));
                auto b = std::make_unique<Raw>(fd); label("hostile client");
                if (k >= 2 && g.flip()) { size_t n = count_ann(true); wait_for([&] { return count_ann(true) > n; }, 0.02); }
                switch (k) {
                    case 0: b->close(); break;
                    case 1: b->close(true); break;
                    case 2: b->send_now(g.bytes(1 + g.u(500))); break;
                    case 3: b->send_now(le(0xffffffff - g.u(1000000), 4)); break;
                    case 4: b->send_now(le(g.u(9), 4)); if (g.flip()) b->close(); break;
                    case 5: b->send_now(enc(tagged(1, 1, 500)).substr(0, 1 + g.u(300))); b->close(g.flip()); break;
                    case 6: { b->reading = false; MReq m = tagged(7, 1, 60000); m.name = "echo"; for (int i = 0; i < 8; i++) b->send(enc(m)); b->pump(); break; }
                    case 7: {   // disconnected by the server with much left for it, and gone before it has read that
                        b->reading = false; MReq m; m.name = "bye"; size_t n = hcount(); b->send_now(enc(m)); wait_for([&] { return hcount() > n; }, 0.2); nap(g.u(2000)); b->close(g.flip()); label("gone while being disconnected"); break; }
                    default: b->send_now(keepalive()); b->shut_wr(); break;
                }
                if (g.flip()) bad.push_back(std::move(b));
                break; }
        }
        PBT_CHECK(!waited, "WaitForStop(-1) returned although the server was not stopped");
        PBT_CHECK(s.GetType() != SocketTypeUndefined, "the server stopped by itself");
    }
    join(); for (auto &x : good) talk(*x);
    if (g.chance(1, 3)) {       // a client vanishes while it is being accepted and nobody else comes
        unsigned was = F.abort_accept; bool on = F.on; uint64_t n = F.n_aborted;
        auto p = std::make_unique<Good>(); { int fd; wait_until([&] { if (p->raw) { if (!p->raw->ended()) return !p->raw->frames.empty(); p->raw.reset(); } fd = site->dial(); if (fd < 0) return false; p->raw.reset(new Raw(fd)); return false; }, "a new client being served"); }
        n = F.n_aborted; F.fail_accept = 0; F.abort_accept = 1; F.on = true;
        auto b = std::make_unique<Raw>(site->dial());
        wait_until([&] { return F.n_aborted > n; }, "a client being accepted"); F.abort_accept = 0;
        nap(g.u(3000)); size_t downs = count_ann(false); label("nobody comes after an aborted accept");
        p->raw->close();
        wait_until([&] { return count_ann(false) > downs; }, "announcement of a departure after an aborted accept");
        for (auto &x : good) talk(*x);
        (void)was; (void)on;
    }
    label_faults();
    PBT_CHECK(!waited, "WaitForStop(-1) returned although the server was not stopped");
    std::atomic<bool> st{false}; std::thread t([&] { s.Stop(-1); st = true; });
    wait_until([&] { return st && waited; }, "the server stopping when told to", 25);
    t.join(); w.join(); storm.reset();
    good.clear(); bad.clear(); F.on = false; site.reset();
}

PBT_PROP(C22, waits, 250, 4000, 64, 60,
    "Pull, WaitForStop and connect wait while their thread is interrupted by real signals 20-1000 times per second: no return before the timeout (strict) and the awaited event is still noticed; non-trivial: always")
{
    int sv[2]; unix_pair(sv); Raw raw(sv[1]); Connection *c = conn_on(sv[0]); nontrivial();
    Storm storm(1000 + g.u(49000));
    unsigned what = g.u(4); int to = 1 + g.u(1); std::atomic<bool> done{false}; double took = 0; bool ok = false; Request *r = nullptr;
    note("what %u timeout %d", what, to);
    std::thread t([&] {
        double s = now_s();
        switch (what) { case 0: r = c->Pull(to); break; case 1: ok = c->WaitForStop(to); break; case 2: r = c->Pull(-1); break; case 3: ok = c->WaitForStop(-1); break; default: { Server srv; srv.StartUnix(sock_path("w")); srv.WaitForStop(to); ok = srv.GetType() != SocketTypeUndefined; } }
        took = now_s() - s; done = true;
    });
    if (what == 2 || what == 3) {
        nap(200000 + g.u(600000));
        PBT_CHECK(!done, "a call waiting without limit returned %s after being interrupted by signals", r ? "a request" : "nothing");
        if (what == 2) raw.send_now(enc(tagged(1, 1))); else raw.close();
    }
    wait_until([&] { return done.load(); }, "a waiting call returning", to + 20); t.join();
    switch (what) {
        case 0: PBT_CHECK(!r && took >= to - 0.002, "Pull(%d) returned after %.3f s while being interrupted by signals", to, took); break;
        case 1: PBT_CHECK(!ok && took >= to - 0.002, "WaitForStop(%d) returned %d after %.3f s while being interrupted by signals", to, ok, took); break;
        case 2: PBT_CHECK(r, "Pull(-1) returned null although the connection is up and a request came"); break;
        case 3: PBT_CHECK(ok, "WaitForStop(-1) returned false"); break;
        default: PBT_CHECK(ok && took >= to - 0.002, "Server::WaitForStop(%d) returned after %.3f s while being interrupted by signals", to, took); break;
    }
    if (took > 15) PBT_LATE("a wait of %d s took %.1f s", to, took);
    delete r; 
    PBT_CHECK(what == 3 || c->IsConnected(), "a connection ended because of signals");
    delete c;
}

// ------------------------------------------------------------------ C28
PBT_PROP(C28, busy, 4000, 120000, 12, 75,
    "a server with 1-8 clients (raw peers and Client objects): in generated order handlers of server or client connections are held for as long as the case wants, peers stop reading with up to 7 MB on the way to them or stop in the middle of a frame, are released again, and meanwhile the others exchange requests both ways, clients join and leave, are looked up, limits change, and the busy connections are pushed to, asked, set up and forcibly disconnected; everything not held back itself must complete, a busy connection handles nothing else meanwhile and everything in order afterwards; non-trivial: something was held or stuck while another exchange, join or departure completed")
{
    reset_server();
    gen_faults(g, g.u(2)); if (F.recv_cap && F.recv_cap < 64) F.recv_cap = 64; if (F.send_cap && F.send_cap < 64) F.send_cap = 64;
    auto site = std::make_unique<Site>(g.chance(1, 4)); Server &s = site->s;
    note("%s cap %u/%u ", site->tcp ? "tcp" : "unix", F.send_cap, F.recv_cap); if (site->tcp) label("tcp");
    struct P { std::unique_ptr<Raw> raw; std::unique_ptr<Client> cl; Connection *sc = nullptr; uint32_t id = 0; size_t from = 0;
        int gate = -1; bool bs = false, bc = false, stuck = false, ending = false, gone = false; std::string rest; size_t held = 0;
        std::vector<std::string> toS, app, echo; bool free() const { return gate < 0 && !stuck && rest.empty() && !gone && !ending; } };
    static std::atomic<bool> gates[64]; for (auto &x : gates) x = false;
    int ngate = 0; uint32_t serial = 1;
    uint32_t sbs = g.one<uint32_t>({0, 0, 64, 4000, 100000, 2000000, 0xffffffffu}), rbs = g.one<uint32_t>({0, 0, 64, 100000, 2000000, 0xffffffffu});
    s.SetConnectedHandler(up_handler); s.SetDisconnectedHandler(down_handler);
    on_up = [&](Server *, Connection *c) { c->SetHandlerDefault(H[0]); c->SetMaxRequestSize(1 << 20); if (sbs) c->SetSendBlockSize(sbs); if (rbs) c->SetRecvBlockSize(rbs); c->tag = "n" + std::to_string(c->id); Request w("welcome"); w.Set("id", new Value32U(c->id), false); c->Push(w); };
    on_request = [&](Connection *c, Request *r, int) {
        if (r->GetName() == "hold") { uint32_t k = r->Get<Value32U>("a")->Get(); while (!gates[k]) nap(100); }
        if (r->GetName() == "echo") { MReq m = read_req(r); m.name = "answer"; c->Push(make(m), false, 0, false); }
    };
    site->start();
    std::vector<std::unique_ptr<P>> ps;
    auto gotS = [&](P &p) { std::vector<std::string> v; for (auto &e : hcopy()) if (e.c == p.sc && e.h == 0) v.push_back(e.enc); return v; };
    auto gotC = [&](P &p) { std::vector<std::string> v; if (p.raw) v = p.raw->frames; else for (auto &e : hcopy()) if (e.c == p.cl.get() && e.h == 1) v.push_back(e.enc); return v; };
    // what arrived so far must be the beginning of what was sent; true: all of it
    auto prefix = [&](const std::vector<std::string> &got, const std::vector<std::string> &want, const char *what, P &p) {
        PBT_CHECK(got.size() <= want.size(), "client %u: %zu %s arrived, %zu were sent", p.id, got.size(), what, want.size());
        for (size_t i = 0; i < got.size(); i++) PBT_CHECK(got[i] == want[i], "client %u: %s %zu is %s, sent was %s", p.id, what, i, show(parse(got[i])).substr(0, 300).c_str(), show(parse(want[i])).substr(0, 300).c_str());
        return got.size() == want.size();
    };
    auto server_has = [&](P &p) { return prefix(gotS(p), p.toS, "requests to the server", p); };
    auto client_has = [&](P &p) {
        std::vector<std::string> a, e;
        for (auto &f : gotC(p)) { MReq m = parse(f); if (m.name == "answer") e.push_back(f); else if (m.name == "app" || m.name == "hold") a.push_back(f); }
        bool x = prefix(a, p.app, "requests of the server", p), y = prefix(e, p.echo, "answers", p); return x && y;
    };
    auto up = [&](P &p) { PBT_CHECK(p.sc->IsConnected(), "client %u was disconnected", p.id); if (p.raw) PBT_CHECK(!p.raw->ended(), "client %u was disconnected", p.id); else PBT_CHECK(p.cl->IsConnected(), "client %u was disconnected", p.id); };
    auto client_push = [&](P &p, const MReq &m) { if (p.raw) p.raw->send(enc(m)); else p.cl->Push(make(m), false, 0, false); p.toS.push_back(enc(m)); };
    auto server_push = [&](P &p, const MReq &m) { p.sc->Push(make(m), false, 0, false); p.app.push_back(enc(m)); };
    auto msg = [&](const char *name, size_t pad) { MReq m = tagged(1, serial, pad); m.name = name; m.id = serial++; return m; };
    auto answer = [&](P &p, MReq m) { m.name = "answer"; p.echo.push_back(enc(m)); };
    auto some_to_server = [&](P &p) { for (unsigned k = 1 + g.u(3); k--;) { MReq m = msg(g.flip() ? "echo" : "note", g.chance(1, 4) ? g.size(20000) : 0); client_push(p, m); if (m.name == "echo") answer(p, m); } };
    auto some_to_client = [&](P &p) { for (unsigned k = 1 + g.u(3); k--;) server_push(p, msg("app", g.chance(1, 4) ? g.size(20000) : 0)); };
    auto blocked = [&] { for (auto &p : ps) if (!p->gone && (p->gate >= 0 || p->stuck || !p->rest.empty())) return true; return false; };
    auto done = [&] { if (blocked()) nontrivial(); };
    auto join = [&] {
        auto p = std::make_unique<P>();
        if (g.flip()) { int fd = site->dial(); PBT_CHECK(fd >= 0, "connecting to a running server failed: %s", strerror(errno)); p->raw.reset(new Raw(fd)); wait_until([&] { return !p->raw->frames.empty(); }, "a new client being served while others are busy"); p->id = parse(p->raw->frames[0]).args[0].v.num; }
        else {
            p->cl.reset(new Client()); p->cl->SetMaxRequestSize(1 << 20);
            PBT_CHECK(site->dial(*p->cl), "a client could not connect to a running server");
            Request *r = p->cl->Pull(20); if (!r) PBT_LATE("a new client was not served while others are busy"); p->id = r->Get<Value32U>("id") ? r->Get<Value32U>("id")->Get() : 0; delete r;
            p->cl->SetHandlerDefault(H[1]);
        }
        for (auto &a : announcements()) if (a.up && a.id == p->id) p->sc = a.c;
        PBT_CHECK(p->sc, "no announcement of client %u", p->id);
        ps.push_back(std::move(p)); done();
    };
    auto pick = [&](const std::function<bool(P &)> &ok) -> P * { std::vector<P *> v; for (auto &p : ps) if (ok(*p)) v.push_back(p.get()); return v.empty() ? nullptr : v[g.u(v.size() - 1)]; };
    auto gone = [&](P &p) { wait_until([&] { for (auto &a : announcements()) if (!a.up && a.id == p.id) return true; return false; }, "announcement of a departure while others are busy"); p.gone = true; done(); };
    auto release = [&](P &p) {
        if (p.gate >= 0) gates[p.gate] = true, p.gate = -1, p.bs = p.bc = false;
        if (p.stuck) { p.raw->reading = true; p.stuck = false; }
        if (!p.rest.empty()) { p.raw->send(p.rest); p.rest.clear(); }
        if (p.ending) { wait_until([&] { server_has(p); client_has(p); for (auto &a : announcements()) if (!a.up && a.id == p.id) return true; return false; }, "the end of a connection that was disconnected while busy"); p.gone = true; return; }
        wait_until([&] { bool x = server_has(p), y = client_has(p); if (!(x && y)) up(p); return x && y; }, "a busy connection going on after it was released", 25);
    };
    join();
    unsigned steps = 4 + g.u(20);
    for (unsigned q = 0; q < steps; q++) {
        unsigned what = g.weighted({6, 4, 4, 2, 2, 3, 3, 3, 2, 2, 2});
        note("%u ", what);
        switch (what) {
            case 0: {   // exchange
                P *p = pick([](P &p) { return p.free(); }); if (!p) { if (ps.size() < 8) join(); break; }
                if (g.flip()) some_to_server(*p); if (g.flip()) some_to_client(*p); if (g.flip()) some_to_server(*p);
                wait_until([&] { up(*p); bool x = server_has(*p), y = client_has(*p); return x && y; }, "an exchange while others are busy", 25); done(); break; }
            case 1: {   // hold a handler
                P *p = pick([](P &p) { return p.free(); }); if (!p || ngate >= 60) break;
                MReq m = msg("hold", 0); m.args[0].v.num = ngate; p->gate = ngate++;
                bool cs = p->cl && g.flip();
                if (cs) { p->bc = true; server_push(*p, m); wait_until([&] { return client_has(*p); }, "a handler of the client being called", 25); }
                else { p->bs = true; client_push(*p, m); wait_until([&] { return server_has(*p); }, "a handler of the server being called", 25); p->held = p->toS.size(); }
                label(cs ? "handler of a client held" : "handler of the server held"); break; }
            case 2: {   // the busy ones are pushed to
                P *p = pick([](P &p) { return p.gate >= 0 && !p.ending && !p.gone; }); if (!p) break;
                some_to_server(*p); some_to_client(*p); if (p->cl && g.flip()) some_to_server(*p);
                nap(g.u(300)); pump_all(); break; }
            case 3: if (ps.size() < 8) join(); break;
            case 4: {   // departure
                P *p = pick([](P &p) { return p.free(); }); if (!p || ps.size() < 2) break;
                switch (g.u(2)) { case 0: p->sc->Disconnect(g.flip()); break; default: if (p->raw) p->raw->close(); else p->cl->Disconnect(g.flip()); }
                gone(*p); break; }
            case 5: {   // stops reading
                P *p = pick([](P &p) { return p.free() && p.raw; }); if (!p) break;
                p->raw->reading = false; p->stuck = true; label("peer stops reading");
                for (unsigned k = 1 + g.u(7); k--;) server_push(*p, msg("app", g.one<size_t>({100, 100000, 1000, 900000}) / (F.send_cap ? 1 + 4096 / F.send_cap : 1)));
                // what it sends is handled all the same
                some_to_server(*p); wait_until([&] { up(*p); return server_has(*p); }, "the requests of a peer that does not read being handled", 25); done(); break; }
            case 6: {   // stops in a frame
                P *p = pick([](P &p) { return p.free() && p.raw; }); if (!p) break;
                MReq m = msg(g.flip() ? "echo" : "note", g.size(5000)); std::string f = enc(m); size_t cut = 1 + g.u(f.size() - 2);
                p->raw->send(f.substr(0, cut)); p->rest = f.substr(cut); label("peer stops in a frame"); if (!g.chance(1, 3)) for (unsigned k = 0; k < 6; k++) { pump_all(); nap(500); }
                some_to_client(*p); wait_until([&] { up(*p); return client_has(*p); }, "requests for a peer that has sent a part of a frame", 25); done();
                p->toS.push_back(f); if (m.name == "echo") answer(*p, m); break; }
            case 7: {   // calls on busy connections and on the server
                P *p = pick([](P &p) { return !p.free() && !p.gone; }); if (!p) break;
                Connection *c = p->bc ? (Connection *)p->cl.get() : p->sc;
                timed("a call on a busy connection", 10, [&] {
                    switch (g.u(6)) {
                        case 0: { Request *r = c->Pull(0); if (r) { delete r; PBT_FAIL("Pull returned a request although all are handled"); } break; }
                        case 1: PBT_CHECK(c->IsConnected() && (p->ending || !c->IsDisconnecting()), "a busy connection reports being disconnected"); break;
                        case 2: c->SetHandlerNamed("unused", H[2]); c->GetHandlerDefault(); c->SetHandlerNamed("unused", nullptr); break;
                        case 3: c->SetOurSaInterval(10); c->SetTheirNaIntervalLimit(60); break;
                        case 4: PBT_CHECK(!c->WaitForStop(0), "WaitForStop(0) reports a busy connection as stopped"); break;
                        case 5: c->SetSendBlockSize(500 + g.u(2000)); c->SetMaxRequestSize(1 << 20); break;
                        default: c->IncreaseRefs(); c->GetRefs(); c->DecreaseRefs();
                    }
                });
                label("calls on busy connections"); break; }
            case 8: timed("a call on the server", 10, [&] {
                for (auto &p : ps) {
                    SafeConnection *x = g.flip() ? s.GetConnection(p->id) : s.GetConnection("n" + std::to_string(p->id));
                    bool found = x; bool same = x && &(*x)() == p->sc; delete x;
                    // it is announced just before it cannot be found anymore
                    if (p->gone && found) { wait_until([&] { SafeConnection *y = s.GetConnection(p->id); delete y; return !y; }, "a client that was announced as gone not being found anymore"); found = false; }
                    PBT_CHECK(found == !p->gone, "client %u is not found", p->id); PBT_CHECK(!found || same, "the lookup of client %u gives another connection", p->id);
                }
                s.SetMaxConnections(g.flip() ? -1 : 20); s.GetMaxConnections(); s.GetType(); }); break;
            case 9: { P *p = pick([](P &p) { return !p.free() && !p.gone; }); if (p) release(*p); break; }
            default: {  // forced end of a busy connection
                P *p = pick([](P &p) { return p.gate >= 0 && !p.ending && !p.gone; }); if (!p) break;
                timed("Disconnect(true) of a busy connection", 10, [&] { (p->bc ? (Connection *)p->cl.get() : p->sc)->Disconnect(true); }); p->ending = true; label("busy connection disconnected"); break; }
        }
        for (auto &p : ps) if (p->bs) { size_t n = gotS(*p).size(); PBT_CHECK(n == p->held, "a second handler of client %u was called while one was running (%zu requests, %zu before)", p->id, n, p->held); }
    }
    for (auto &p : ps) if (!p->gone) { if (p->free()) { some_to_server(*p); wait_until([&] { up(*p); bool x = server_has(*p), y = client_has(*p); return x && y; }, "an exchange while others are busy", 25); done(); } }
    for (auto &p : ps) if (!p->gone && !p->free()) release(*p);
    for (auto &x : gates) x = true;
    label_faults();
    PBT_CHECK(s.GetType() != SocketTypeUndefined, "the server stopped by itself");
    for (auto &p : ps) if (!p->gone) up(*p);
    ps.clear(); F.on = false; site.reset();
}

// ------------------------------------------------------------------ C29
static void no_descriptors(Gen &g) {
    reset_server();
    gen_faults(g, g.u(2)); F.budget_us = 600000; F.on = true; F.fast_sa = 0;
    if (F.recv_cap && F.recv_cap < 4) F.recv_cap = 4;
    std::vector<int> pre; open_fds(&pre); for (int f : pre) own(f);
    track(true);
    // the library finds no descriptors from its `skip`-th creation on, `n` times
    uint64_t base = 0;
    auto lack = [&](unsigned skip, unsigned n) { base = F.n_nofd; F.fd_skip = skip; F.fd_fails = n; };
    auto plenty = [&] { F.fd_fails = 0; return F.n_nofd != base; };
    auto some = [&] { return (unsigned)g.one<int>({1000000, 1, 2, 3}); };
    {
        uint16_t port; int tl = tcp_listen(&port); std::string path = sock_path("c29"); int ul = unix_listen(path);
        std::unique_ptr<Site> site(new Site(g.chance(1, 4))); std::vector<std::unique_ptr<Raw>> live; std::atomic<unsigned> ups{0}, downs{0};
        site->s.SetConnectedHandler(up_handler); site->s.SetDisconnectedHandler(down_handler);
        on_up = [&](Server *, Connection *c) { c->SetHandlerDefault(H[0]); c->SetMaxRequestSize(1 << 20); Request w("welcome"); c->Push(w); ups++; };
        on_down = [&](Server *, Connection *) { downs++; };
        on_request = [&](Connection *c, Request *r, int h) { if (h == 0 && r->GetName() == "echo") { MReq m = read_req(r); c->Push(make(m), false, 0, false); } };
        uint32_t n = 1;
        auto ask = [&](Raw &r) { MReq m = tagged(n, n, g.u(200)); m.name = "echo"; m.id = n++; r.send_now(enc(m)); return enc(m); };
        auto echo = [&](Raw &r, const char *when) { size_t b = r.frames.size(); std::string f = ask(r); wait_until([&] { PBT_CHECK(!r.ended(), "%s: a connection that was established was closed", when); return r.frames.size() > b; }, when); PBT_CHECK(r.frames.back() == f, "%s: a wrong answer", when); };
        auto join = [&](const char *when) { int fd = site->dial(); if (fd < 0) PBT_FAIL("%s: connecting to a running server failed: %s", when, strerror(errno)); live.emplace_back(new Raw(fd)); Raw &r = *live.back(); wait_until([&] { PBT_CHECK(!r.ended(), "%s was turned away", when); return r.frames.size() == 1; }, when); echo(r, when); };
        bool lacking = g.chance(1, 4);
        if (lacking) { lack(0, some()); site.reset(new Site(site->tcp)); plenty(); site->s.SetConnectedHandler(up_handler); site->s.SetDisconnectedHandler(down_handler); label("server made without descriptors"); }
        site->start(); join("a client of a running server");
        unsigned steps = 1 + g.u(5);
        for (unsigned q = 0; q < steps; q++) {
            switch (g.u(6)) {
                case 0: case 1: {       // connecting
                    bool un = g.flip(); unsigned skip = g.u(7), m = some(); bool early = g.chance(1, 5);
                    if (early) lack(0, m);
                    std::unique_ptr<Client> c(new Client());
                    if (early) plenty();
                    c->SetHandlerNamed("in", H[1]);
                    unsigned tries = 1 + g.u(1);
                    for (unsigned t = 0; t <= tries; t++) {
                        bool last = t == tries; if (!last) lack(skip, m);
                        bool res = un ? c->ConnectUnix(path, 20) : c->ConnectTcp(lo(), port, 20); bool hit = !last && plenty();
                        note("connect(skip %u) hit %d -> %d; ", skip, hit, res);
                        PBT_CHECK(res || hit, "connecting failed although there are descriptors");
                        PBT_CHECK(c->IsConnected() == res && !c->IsConnecting(), "connect returned %d, IsConnected() %d, IsConnecting() %d", res, c->IsConnected(), c->IsConnecting());
                        if (hit) nontrivial();
                        int l = un ? ul : tl;
                        if (!res) { // whoever got through is gone
                            pollfd p{l, POLLIN, 0};
                            while (R.poll(&p, 1, 0) > 0) { Raw x(raw_accept(l)); wait_until([&] { return x.ended(); }, "the end of the socket of a failed attempt"); label("failed after the socket was connected"); }
                            if (g.flip()) { PBT_CHECK(!c->Pull(0), "a request from nowhere"); c->WaitForStop(0); Request r("x"); c->Push(r); c->Disconnect(g.flip(), true); }
                            skip = g.u(7); continue;
                        }
                        Raw peer(raw_accept(l)); MReq mr = tagged(n, n); mr.name = "in"; mr.id = n++; size_t hb = hcount(); Request out("out"); c->Push(out); peer.send_now(enc(mr));
                        wait_until([&] { return hcount() > hb && peer.frames.size() == 1; }, "an exchange on a new connection");
                        if (last || g.flip()) { c->Disconnect(g.flip(), true); wait_until([&] { return peer.ended(); }, "the end of a disconnected connection"); }
                        else { peer.close(); wait_until([&] { return !c->IsConnected(); }, "noticing that the peer is gone"); c->WaitForStop(-1); }
                    }
                    break;
                }
                case 2: {               // admission
                    unsigned skip = g.u(7), m = some(); bool limit = g.chance(1, 3);
                    wait_until([&] { return ups - downs == live.size(); }, "the announcements of arrivals and departures");
                    if (limit) site->s.SetMaxConnections(live.size() + 1);
                    lack(skip, m);
                    int fd = site->dial(); if (fd < 0) PBT_FAIL("connecting to a running server failed: %s", strerror(errno));
                    std::unique_ptr<Raw> x(new Raw(fd));
                    wait_for([&] { return x->frames.size() || x->ended(); }, F.n_nofd != base ? 0.3 : 0.1);
                    if (live.size()) echo(*live[g.u(live.size() - 1)], "an established connection while there are no descriptors");
                    bool hit = plenty();
                    wait_until([&] { return x->frames.size() || x->ended(); }, "a client being admitted or turned away");
                    note("admission(skip %u) hit %d -> %s; ", skip, hit, x->frames.size() ? "served" : "turned away");
                    if (x->frames.empty()) { PBT_CHECK(hit, "a client was turned away although there are descriptors"); x.reset(); label("turned away"); }
                    else { echo(*x, "a client admitted while there are hardly any descriptors"); live.push_back(std::move(x)); }
                    if (hit) nontrivial();
                    wait_until([&] { return ups - downs == live.size(); }, "the announcements of arrivals and departures");
                    if (limit && live.size() < (size_t)site->s.GetMaxConnections()) { join("a client after another was turned away, within the limit"); label("turned away within a limit"); }
                    site->s.SetMaxConnections(-1);
                    break;
                }
                case 3: {               // waiting for a response or for a request
                    int sv[2]; unix_pair(sv); Raw peer(sv[1]); std::unique_ptr<Connection> c(conn_on(sv[0])); c->SetMaxRequestSize(1 << 20);
                    bool push = g.flip(), copied = g.flip(); int to = g.one<int>({-1, 30}); std::atomic<int> st{0};
                    uint32_t id = 0; std::string got; MReq m = tagged(1, n++, g.u(300));
                    lack(0, some());
                    std::thread t([&] {
                        Request *a;
                        if (!push) a = c->Pull(to); else if (copied) { Request r; build_into(r, m); a = c->Push(r, to); } else a = c->Push(make(m), false, to);
                        if (a) { got = enc(read_req(a)); delete a; }
                        st = 1;
                    });
                    bool frame = false;
                    wait_for([&] { frame = push && peer.frames.size(); return st || frame; }, 0.2);
                    bool hit = plenty(), gave = st; if (hit) nontrivial();
                    note("%s hit %d -> %d; ", push ? "push" : "pull", hit, gave);
                    PBT_CHECK(!gave || hit, "a waiting call returned although nothing happened and there are descriptors");
                    if (push && !hit && !frame) wait_until([&] { return peer.frames.size() == 1; }, "the arrival of a request");
                    if (push && peer.frames.size()) { id = parse(peer.frames[0]).id; PBT_CHECK(peer.frames[0] == with_id(enc(m), id), "a wrong request arrived"); }
                    MReq r = tagged(9, n++, g.u(50)); if (push) r.id = id; peer.send_now(enc(r));
                    if (!gave) {        // (if it could not wait for the response then at least for the end)
                        if (hit) wait_for([&] { return st == 1; }, 0.3); else wait_until([&] { return st == 1; }, "the return of a waiting call");
                        if (!hit) PBT_CHECK(got == enc(r), "a waiting call returned something else than what arrived");
                    } else if (!push) { wait_until([&] { Request *a = c->Pull(0); if (a) { got = enc(read_req(a)); delete a; } return a; }, "a request after a refused Pull"); PBT_CHECK(got == enc(r), "a wrong request was pulled"); }
                    if (gave && push) PBT_CHECK(got.empty(), "a response although there was none");
                    if (g.flip()) peer.close(); else c->Disconnect(true);
                    wait_until([&] { return st == 1; }, "the return of a waiting call from an ended connection");
                    t.join(); c->WaitForStop(-1); label(push ? "push with a timeout" : "pull with a timeout");
                    break;
                }
                case 4: {               // references to ending connections
                    wait_until([&] { return ups - downs == live.size(); }, "the announcements of arrivals and departures");
                    size_t d = downs; join("a client"); Connection *k = nullptr; { Lk l(annl); for (auto &a : anns) if (a.up) k = a.c; }
                    SafeConnection *r = new SafeConnection(k);
                    lack(0, some());
                    if (g.flip()) (*r)().Disconnect(true); else live.back()->close();
                    live.pop_back();
                    wait_for([&] { return F.n_nofd != base; }, 0.05); if (g.flip()) nap(g.u(3000));
                    PBT_CHECK(!(*r)().WaitForStop(0), "the connection ended although it is referenced");
                    if (g.flip()) plenty();
                    delete r;
                    wait_until([&] { return downs == d + 1; }, "the end of a connection after its last reference is gone");
                    if (plenty()) nontrivial(); label("reference released");
                    break;
                }
                case 5: case 6: {       // starting
                    wait_until([&] { return ups - downs == live.size(); }, "the announcements of arrivals and departures");
                    bool tcp = g.chance(1, 3); unsigned skip = g.u(4), m = some(); bool early = g.chance(1, 4);
                    if (early) lack(0, m);
                    Server s; if (early) plenty();
                    s.SetConnectedHandler(up_handler);
                    std::string p = sock_path("d29"); unsigned tries = 1 + g.u(1);
                    for (unsigned t = 0; t <= tries; t++) {
                        bool last = t == tries; if (!last) lack(skip, m);
                        bool dof = g.flip(), res = tcp ? s.StartTcp(lo(), 0) : s.StartUnix(p, dof); bool hit = !last && plenty();
                        note("start(skip %u) hit %d -> %d; ", skip, hit, res);
                        PBT_CHECK(res || hit, "starting failed although there are descriptors");
                        PBT_CHECK((s.GetType() != SocketTypeUndefined) == res, "start returned %d, GetType() %u", res, s.GetType());
                        if (hit) nontrivial();
                        if (!res) { PBT_CHECK(tcp || access(p.c_str(), F_OK), "the file of a failed start is left"); if (g.flip()) { s.Stop(-1); s.WaitForStop(-1); s.SetMaxConnections(5); PBT_CHECK(!s.GetConnection(1), "a connection of a server that does not run"); } skip = g.u(4); label("failed start"); continue; }
                        size_t ub = ups, db = downs;
                        if (early) s.SetMaxConnections(0);
                        int fd = tcp ? raw_tcp(s.GetTcpPort()) : raw_unix(p); if (fd < 0) PBT_FAIL("connecting to a running server failed: %s", strerror(errno));
                        if (early) { nap(2000); s.SetMaxConnections(1); }
                        { Raw x(fd); wait_until([&] { PBT_CHECK(!x.ended(), "a client of a server started again was turned away"); return x.frames.size() == 1; }, "a client of a server started again"); echo(x, "a client of a server started again"); }
                        s.Stop(-1); PBT_CHECK(s.GetType() == SocketTypeUndefined, "running after the stop");
                        ups = ub; downs = db;       // not of the other server
                    }
                    break;
                }
            }
            if (live.size() && g.flip()) echo(*live[g.u(live.size() - 1)], "an established connection");
            if (live.size() > 1 && g.flip()) live.pop_back();
        }
        lack(g.u(3), some());
        if (g.flip()) { site->s.Stop(-1); PBT_CHECK(site->s.GetType() == SocketTypeUndefined, "running after the stop"); }
        site.reset(); plenty();
        for (auto &r : live) wait_until([&] { return r->ended(); }, "the end of the connections of a destroyed server");
        live.clear(); hclose(tl); hclose(ul); unlink(path.c_str());
    }
    label_faults(); F.on = false; track(false);
}
PBT_PROP(C29, lack, 1500, 60000, 12, 75,
    "generated sequences of connecting, starting, admitting clients, pushing and pulling with timeouts, releasing references and stopping while, from a generated descriptor creation on (sockets, accepted sockets, events, timers), creations of descriptors by the library fail once, a few times or always; what needs one either fails as documented (false, null, client turned away) with nothing left behind, or works entirely; no call hangs, established connections go on being served, and with descriptors back everything works; afterwards the same descriptors and threads exist as before; non-trivial: a creation failed")
{
    auto fds = [] { std::vector<int> v; open_fds(&v); std::sort(v.begin(), v.end()); return v; };
    auto before = fds(); size_t th = threads();
    no_descriptors(g);
    wait_until([&] { return threads() <= th; }, "threads ending after everything was destroyed");
    auto a = fds();
    PBT_CHECK(a == before, "open descriptors differ from before: %zu, before: %zu", a.size(), before.size());
}
