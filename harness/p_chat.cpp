// C23: the example chat server, compiled with main renamed and its port redirected,
// run in a child process per case and talked to by raw peers.
#include "net.hpp"
#include <algorithm>
#include <cerrno>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace net;
using namespace pbt;

__attribute__((weak)) int chat_main();
__attribute__((weak)) int chat_main(int, char **);

static MReq rq(const char *name) { MReq m; m.name = name; return m; }
static MReq &arg(MReq &m, const char *n, const std::string &s) { MArg a; a.name = n; a.v.type = STR; a.v.bytes = s; m.args.push_back(a); return m; }
static const MV *get(const MReq &m, const char *n) { for (auto &a : m.args) if (a.name == n) return &a.v; return nullptr; }
static std::string str(const MReq &m, const char *n) { const MV *v = get(m, n); return v && v->type == STR ? v->bytes : std::string(); }
static bool is_str(const MReq &m, const char *n) { const MV *v = get(m, n); return v && v->type == STR; }

void (*volatile pbt_after_find)() = nullptr;      // see slowfind.hpp
static std::atomic<unsigned> finds{0}; static unsigned find_ms = 0;
static void slow_find() { unsigned k = finds++; if (k < 2) usleep((find_ms + k * (10 + find_ms / 2)) * 1000); }

struct Chat {      // the server's process
    pid_t pid = -1; std::atomic<uint16_t> *port;
    Chat() {
        port = (std::atomic<uint16_t> *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (port) std::atomic<uint16_t>(0);
        uint32_t addr = lo_addr(); pid_t parent = getpid();
        fflush(stdout); fflush(stderr);
        pid = fork();
        if (pid < 0) PBT_LATE("harness: fork failed");
        if (!pid) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            if (getppid() != parent) _exit(9);
            int n = ::open("/dev/null", O_RDWR); dup2(n, 0); dup2(n, 1);
            remap_to = addr; remap_bind = true;
            std::thread t([this] { while (!remapped_port) usleep(100); port->store(remapped_port); });
            t.detach();
            char a0[] = "chat"; char *av[] = {a0, nullptr};
            int (*f0)() = chat_main; int (*f1)(int, char **) = chat_main;
            int r = f0 ? f0() : f1 ? f1(1, av) : 9;
            _exit(r ? r : 3);      // it has no reason to end
        }
        F.on = false;
        wait_until([&] { check(); return port->load() != 0; }, "the chat server starting");
    }
    void check() {
        int st; if (pid > 0 && waitpid(pid, &st, WNOHANG) == pid) { pid = -1; PBT_FAIL("the chat server ended by itself (status %x)", st); }
    }
    ~Chat() { if (pid > 0) { kill(pid, SIGKILL); int st; waitpid(pid, &st, 0); } munmap(port, 4096); }
    int dial() {
        int fd = -1;
        wait_until([&] { check(); fd = raw_tcp(port->load()); return fd >= 0; }, "connecting to the chat server");
        return fd;
    }
};

struct Cli { std::unique_ptr<Raw> r; std::string user; size_t seen = 0; bool left = false; };

static std::string gen_user(Gen &g, unsigned n) {
    std::string s;
    switch (g.u(4)) {
        case 0: s = std::string(1, 'a' + n % 26) + std::to_string(n); break;
        case 1: s = "user" + std::to_string(n); break;
        case 2: s = g.bytes(1) + char('0' + n % 10) + g.bytes(g.u(12)); break;
        case 3: s = std::to_string(n % 10) + "_23456789abcdef"; break;       // 16 bytes, with n < 10
        default: s = g.one<const char *>({"server", "Server", "SERVER1", "_x", "ab", "auth", " x"}); break;
    }
    if (s.size() < 2) s += "xx";
    if (s.size() > 16) s.resize(16);
    return s;
}

PBT_PROP(C23, session, 500, 40000, 10, 75,
    "the real example chat server in a process of its own (port redirected), under short counts, EINTR and delays, with 1-5 clients and generated sequences of joins, authorizations (valid, taken, too short, too long, reserved, missing, of a wrong type, repeated), public and private messages (any bytes, to participants, oneself, strangers, without text), status queries, unknown requests and departures, one at a time; a model of the participants predicts what every client receives; non-trivial: a message was delivered or a request was refused")
{
    gen_faults(g, g.u(2)); F.budget_us = 1000000;
    if (F.recv_cap && F.recv_cap < 3) F.recv_cap = 3;
    if (F.send_cap && F.send_cap < 3) F.send_cap = 3;
    Chat srv;
    std::vector<std::unique_ptr<Cli>> cl;
    auto here = [&] { std::vector<Cli *> v; for (auto &c : cl) if (!c->left) v.push_back(c.get()); return v; };
    auto auths = [&] { std::vector<Cli *> v; for (auto &c : cl) if (!c->left && c->user.size()) v.push_back(c.get()); return v; };
    // a reply to a status query comes after everything the server did for the client before
    // (somebody who is not authorized gets a notice instead, after `notices` other ones)
    auto fetch = [&](Cli &c, unsigned notices = 0) {
        std::vector<MReq> out; size_t at = 0; bool found = false; unsigned n = 0;
        c.r->send_now(enc(rq("status")));
        wait_until([&] {
            srv.check();
            PBT_CHECK(!c.r->ended(), "a client was disconnected by itself");
            size_t from = std::max(at, c.seen);
            for (size_t i = from; i < c.r->frames.size() && !found; i++) {
                MReq m = parse(c.r->frames[i]);
                at = i + 1;
                if (c.user.size() ? m.name == "status" : m.name == "message" && str(m, "from") == "SERVER" && n++ == notices) found = true;
                else out.push_back(m);
                if (found && c.user.size()) out.push_back(m);
            }
            return found;
        }, "the reply to a status query");
        c.seen = at;
        return out;
    };
    // what the others got of an operation of c
    auto settle = [&](Cli *actor, unsigned notices) {
        std::map<Cli *, std::vector<MReq>> got;
        if (actor && !actor->left) got[actor] = fetch(*actor, notices);
        for (auto *c : here()) if (c != actor) got[c] = fetch(*c);
        // what reached the actor meanwhile
        return got;
    };
    auto check_status = [&](Cli &c, const MReq &m) {
        PBT_CHECK(str(m, "username") == c.user, "status says the name is '%s', expected '%s'", hex(str(m, "username")).c_str(), hex(c.user).c_str());
        std::vector<std::string> want, have; for (auto *p : auths()) want.push_back(p->user);
        const MV *n = get(m, "amount"), *t = get(m, "them");
        PBT_CHECK(n && n->type == U32 && n->num == want.size(), "status says there are %llu participants, expected %zu", n ? (unsigned long long)n->num : 0, want.size());
        PBT_CHECK(t && t->type == ARR, "status has no list of participants");
        size_t undef = 0;
        for (auto &e : t->elems) { if (e.type == UNDEF) undef++; else { PBT_CHECK(e.type == STR, "status lists something that is not a name"); have.push_back(e.bytes); } }
        std::sort(want.begin(), want.end()); std::sort(have.begin(), have.end());
        PBT_CHECK(want == have, "status lists %zu names, which are not the %zu participants", have.size(), want.size());
        if (undef) { PBT_CHECK(undef == want.size(), "status lists %zu undefined values", undef); known("the status of the chat server lists an undefined value for every participant before the names"); }
    };
    // splits off the replies to status queries and checks them
    auto strip = [&](Cli &c, std::vector<MReq> &v) {
        std::vector<MReq> r;
        for (auto &m : v) { if (m.name == "status" && c.user.size()) check_status(c, m); else r.push_back(m); }
        v = r;
    };
    auto notices_only = [&](const std::vector<MReq> &v, const char *who) {
        for (auto &m : v) PBT_CHECK(m.name == "message" && str(m, "from") == "SERVER", "%s got an unexpected '%s' from '%s'", who, m.name.c_str(), hex(str(m, "from")).c_str());
    };
    auto sync = [&](Cli *actor, unsigned notices = 0) { auto g2 = settle(actor, notices); for (auto &e : g2) strip(*e.first, e.second); return g2; };
    unsigned serial = 0;
    auto join = [&]() -> Cli & {
        cl.emplace_back(new Cli()); Cli &c = *cl.back(); c.r.reset(new Raw(srv.dial()));
        wait_until([&] { srv.check(); return c.r->frames.size() >= 1; }, "the invitation of a new client");
        PBT_CHECK(parse(c.r->frames[0]).name == "auth" && parse(c.r->frames[0]).args.empty(), "a new client got '%s' instead of an invitation", parse(c.r->frames[0]).name.c_str());
        c.seen = 1;
        // its handlers are registered before the invitation
        auto got = sync(&c, 1);
        for (auto &e : got) notices_only(e.second, e.first == &c ? "a new client" : "another client");
        return c;
    };
    bool over = false;
    auto auth = [&](Cli &c, unsigned kind) {
        MReq m = rq("auth"); std::string name; bool ok = false; auto ps = auths(); bool reserved = false;
        switch (kind) {
            case 0: name = gen_user(g, serial++); ok = true; for (auto *p : ps) if (p->user == name) ok = false; arg(m, "username", name); break;
            case 1: if (ps.size()) name = ps[g.u(ps.size() - 1)]->user; arg(m, "username", name); label("name taken"); break;
            case 2: name = g.bytes(g.u(1)); arg(m, "username", name); label("name too short"); break;
            case 3: name = std::string(17 + g.size(300), 'n'); arg(m, "username", name); label("name too long"); break;
            case 4: label("no name"); break;
            case 5: { MArg a; a.name = "username"; a.v.type = g.flip() ? U32 : ARR; m.args.push_back(a); label("name of a wrong type"); break; }
            case 6: arg(m, "Username", "abcd"); label("name under a wrong key"); break;
            default: name = "SERVER"; arg(m, "username", name); reserved = true; label("reserved name"); break;
        }
        if (g.chance(1, 4)) arg(m, "extra", "x");
        bool again = c.user.size();
        note("auth(%s%s) ", ok ? "ok" : "bad", again ? ", again" : "");
        c.r->send_now(enc(m));
        if (ok || reserved) {
            // afterwards it is a participant: the reply to a status query tells
            std::string before = c.user;
            std::vector<MReq> v; size_t from = c.seen;
            wait_until([&] { srv.check(); return c.r->frames.size() > from; }, "the reply to an authorization");
            bool in = parse(c.r->frames[from]).name == "auth_success";
            if (reserved && in) { known("the chat server accepts the reserved name SERVER"); over = true; return; }
            if (again) {
                if (in) { over = true;
                    // it is now in the list twice: every message reaches it twice
                    MReq x = rq("message"); arg(x, "text", "\x01" "twice"); c.r->send_now(enc(x));
                    std::string me = c.user; size_t n = 0;
                    c.r->send_now(enc(rq("status")));
                    wait_until([&] { srv.check(); n = 0; bool st = false; for (size_t i = from; i < c.r->frames.size(); i++) { MReq y = parse(c.r->frames[i]); st |= y.name == "status"; n += y.name == "message" && str(y, "text") == "\x01" "twice"; } return st; }, "the reply to a status query");
                    PBT_CHECK(n == 1 || n == 2, "a message reached a participant %zu times", n);
                    if (n == 2) known("authorizing again makes a second participant of the same client, who gets every public message twice");
                    return; }
            } else { PBT_CHECK(!ok || in, "an acceptable name was refused (%s): %s", hex(name).c_str(), show(parse(c.r->frames[from])).c_str()); if (in) c.user = name; }
        }
        auto got = sync(&c, 1);
        size_t success = 0;
        for (auto &e : got) {
            std::vector<MReq> rest;
            for (auto &x : e.second) if (x.name == "auth_success") { PBT_CHECK(e.first == &c, "somebody else got auth_success"); success++; } else rest.push_back(x);
            notices_only(rest, e.first == &c ? "the caller of auth" : "another client");
            if (e.first == &c && !success) { PBT_CHECK(!rest.empty(), "a refused authorization was not answered"); }
            if (e.first != &c && e.first->user.empty()) PBT_CHECK(rest.empty(), "a client that is not authorized got a message");
        }
        PBT_CHECK(success == (ok && !again), "an authorization with %s name was answered by %zu auth_success", ok ? "an acceptable" : "an unacceptable", success);
        if (success) { label("authorized"); for (auto *p : auths()) if (p != &c) { bool told = false; for (auto &x : got[p]) told |= str(x, "text").find(name) != std::string::npos; PBT_CHECK(told, "a participant was not told about the new one"); } }
        else nontrivial();
    };
    // somebody who sees every departure, so that the next step can wait for it
    Cli *watch = &join(); auth(*watch, 0);
    unsigned steps = 4 + g.u(20);
    for (unsigned q = 0; q < steps && !over; q++) {
        auto all = here(); auto ps = auths();
        Cli &c = *all[g.u(all.size() - 1)];
        switch (g.weighted({4, 6, 7, 6, 2, 2, 3, 1})) {
            case 0: if (all.size() < 5) { join(); note("join "); } break;
            case 1: { Cli *u = nullptr; for (auto *x : all) if (x->user.empty()) u = x;
                if (!u && g.chance(1, 6)) { auth(c, 0); break; }     // repeated
                if (u) auth(*u, g.chance(2, 3) ? 0 : 1 + g.u(6)); else if (c.user.size()) auth(c, 1 + g.u(4)); break; }
            case 2: {   // public
                MReq m = rq("message"); std::string text = g.flip() ? "hello" + std::to_string(q) : g.bytes(g.size(3000));
                if (g.flip()) arg(m, "to", ""); arg(m, "text", text); if (g.chance(1, 5)) std::reverse(m.args.begin(), m.args.end());
                note("public "); c.r->send_now(enc(m)); auto got = sync(&c, 1);
                for (auto &e : got) {
                    bool should = c.user.size() && e.first->user.size(); size_t n = 0;
                    for (auto &x : e.second) {
                        PBT_CHECK(x.name == "message", "unexpected '%s' after a message", x.name.c_str());
                        if (!c.user.size()) { PBT_CHECK(e.first == &c && str(x, "from") == "SERVER", "a message of a client that is not authorized was delivered"); n++; continue; }
                        PBT_CHECK(should, "a message reached a client that is not authorized");
                        PBT_CHECK(str(x, "from") == c.user && is_str(x, "from"), "a message of '%s' says it is from '%s'", hex(c.user).c_str(), hex(str(x, "from")).c_str());
                        PBT_CHECK(is_str(x, "text") && str(x, "text") == text, "a message arrived with another text (%zu bytes, expected %zu)", str(x, "text").size(), text.size()); n++;
                    }
                    if (should) { PBT_CHECK(n == 1, "a public message reached a participant %zu times", n); label("public message delivered"); nontrivial(); }
                    if (!c.user.size() && e.first == &c) { PBT_CHECK(n >= 1, "the message of an unauthorized client was not answered"); label("message refused: not authorized"); nontrivial(); }
                }
                break; }
            case 3: {   // private
                Cli *to = nullptr; std::string name; MReq m = rq("message"); std::string text = g.flip() ? "psst" + std::to_string(q) : g.bytes(1 + g.size(2000));
                if (g.chance(3, 4)) { to = ps[g.u(ps.size() - 1)]; name = to->user; } else { name = g.one<const char *>({"nobody", "x", "\x01\x02\x03", "SERVER"}); for (auto *p : ps) if (p->user == name) to = p; }
                arg(m, "to", name); arg(m, "text", text); if (g.flip()) std::reverse(m.args.begin(), m.args.end());
                note("private "); c.r->send_now(enc(m)); auto got = sync(&c, 1);
                if (!c.user.size()) to = nullptr;
                for (auto &e : got) {
                    size_t n = 0;
                    for (auto &x : e.second) {
                        PBT_CHECK(x.name == "message", "unexpected '%s' after a private message", x.name.c_str());
                        if (e.first == &c && str(x, "from") == "SERVER") continue;      // a notice to the sender
                        PBT_CHECK(e.first == to, "a private message reached somebody else");
                        PBT_CHECK(str(x, "from") == c.user && str(x, "to") == name, "a private message has a wrong sender or recipient");
                        n++;
                        if (str(x, "text") != text) { PBT_CHECK(str(x, "text") == name, "a private message arrived with another text"); known("a private message of the chat server carries the name of the recipient instead of the text"); }
                    }
                    if (e.first == to) { PBT_CHECK(n == 1, "a private message reached its recipient %zu times", n); label("private message delivered"); nontrivial(); }
                }
                break; }
            case 4: {   // no text
                MReq m = rq("message"); if (g.flip()) arg(m, "to", ps[0]->user); if (g.flip()) { MArg a; a.name = "text"; a.v.type = g.flip() ? U8 : ARR; m.args.push_back(a); }
                note("textless "); c.r->send_now(enc(m)); auto got = sync(&c, 1); nontrivial();
                for (auto &e : got) { if (e.first == &c) { notices_only(e.second, "the sender"); PBT_CHECK(!e.second.empty(), "a message without text was not answered"); } else PBT_CHECK(e.second.empty(), "a message without text was delivered"); }
                label("message without text"); break; }
            case 5: { c.r->send_now(enc(rq(g.one<const char *>({"nothing", "Status", "auth_success", "", "_"})))); auto got = sync(&c); for (auto &e : got) PBT_CHECK(e.second.empty(), "an unknown request had an effect"); label("unknown request"); break; }
            case 6: {   // departure
                if (&c == watch) break;
                bool bye = g.flip(); note("%s ", bye ? "bye" : "leave"); c.left = true; std::string name = c.user;
                if (bye) { c.r->send_now(enc(rq("bye"))); wait_until([&] { srv.check(); return c.r->ended(); }, "the end of a client that said bye"); }
                else c.r->close(g.chance(1, 3));
                if (name.size()) {
                    for (auto *p : auths()) wait_until([&] { srv.check();
                        for (size_t i = p->seen; i < p->r->frames.size(); i++) { MReq x = parse(p->r->frames[i]); if (x.name == "message" && str(x, "from") == "SERVER" && str(x, "text").find(name) != std::string::npos) return true; }
                        return false; }, "the announcement of a departure");
                    label("departure announced"); nontrivial();
                } else nap(2000);
                // the server's thread has finished the departure when it serves a new client
                Raw probe(srv.dial()); wait_until([&] { srv.check(); return !probe.frames.empty(); }, "the invitation of a new client"); probe.close(); nap(500);
                auto got = sync(nullptr); for (auto &e : got) notices_only(e.second, "a client");
                break; }
            default: if (ps.size()) { auto got = sync(ps[g.u(ps.size() - 1)]); for (auto &e : got) PBT_CHECK(e.second.empty(), "a status query had an effect on others"); label("status"); } break;
        }
    }
    srv.check();
    label_faults();
}

static const char *K_UNDEF = "the status of the chat server lists an undefined value for every participant before the names";
static const char *K_PRIV = "a private message of the chat server carries the name of the recipient instead of the text";

PBT_PROP(C23, crowd, 500, 30000, 10, 75,
    "as session, with 3-8 clients: they authorize one after another (some under a name that is taken), then all send public and private messages and status queries at the same time, then some leave; one holder per name, every message reaches whom it is meant for exactly once, those of one sender in order, every status is exact; non-trivial: always")
{
    gen_faults(g, g.u(2)); F.budget_us = 1500000;
    if (F.recv_cap && F.recv_cap < 5) F.recv_cap = 5;
    if (F.send_cap && F.send_cap < 5) F.send_cap = 5;
    Chat srv; nontrivial();
    unsigned n = 3 + g.u(5), pool = 1 + g.u(2 * n); std::vector<std::unique_ptr<Cli>> cl; std::vector<std::string> want(n);
    for (unsigned i = 0; i < n; i++) { cl.emplace_back(new Cli()); cl[i]->r.reset(new Raw(srv.dial())); want[i] = "name" + std::to_string(g.u(pool)); }
    // (before the invitation the handlers are not necessarily registered)
    wait_until([&] { srv.check(); for (auto &c : cl) if (c->r->frames.size() < 2) return false; return true; }, "the invitations of new clients");
    std::map<std::string, unsigned> winner;
    for (unsigned i = 0; i < n; i++) {      // one at a time: concurrent authorizations are C23.race
        MReq m = rq("auth"); arg(m, "username", want[i]); cl[i]->r->send_now(enc(m));
        bool free_ = winner.insert({want[i], i}).second;
        wait_until([&] {
            srv.check(); unsigned k = 0; bool in = false;
            for (auto &f : cl[i]->r->frames) { MReq m = parse(f); in |= m.name == "auth_success"; k += m.name == "message"; }
            PBT_CHECK(!in || free_, "the name '%s' was given to two clients", want[i].c_str());
            return free_ ? in && k >= 3 : k >= 2;       // the handler is done with the list
        }, "the reply to an authorization", 30);
        if (free_) cl[i]->user = want[i]; else label("name taken");
    }
    std::vector<unsigned> win; for (auto &w : winner) win.push_back(w.second);
    // messages; to: -1 public
    struct Msg { int to; std::string text; };
    std::vector<std::vector<Msg>> sent(n); std::vector<bool> leaves(n); std::vector<unsigned> asked(n);
    unsigned per = 1 + g.u(g.one<unsigned>({3, 10, 25}));
    for (unsigned i = 0; i < n; i++) {
        for (unsigned k = 0; k < per; k++) {
            if (g.chance(1, 5)) { cl[i]->r->send(enc(rq("status"))); asked[i]++; continue; }
            MReq m = rq("message"); int to = g.flip() ? -1 : (int)win[g.u(win.size() - 1)];
            std::string text = std::to_string(i) + ":" + std::to_string(k) + ":" + std::to_string(to) + ":" + std::string(g.size(500), '.');
            if (to >= 0) arg(m, "to", cl[to]->user);
            arg(m, "text", text); cl[i]->r->send(enc(m));
            if (cl[i]->user.size()) sent[i].push_back({to, text});
        }
        if (cl[i]->user.size() && win.size() > 1 && i != win[0] && g.chance(1, 4)) { leaves[i] = true; label("leaves"); }
    }
    note("%u clients, %zu names, %u requests each", n, winner.size(), per); labeln("messages", n * per);
    std::set<std::string> names; for (auto &w : winner) names.insert(w.first);
    auto check = [&](unsigned i, size_t gone) {       // everything client i has got so far; returns whether it is all
        Cli &c = *cl[i]; std::vector<size_t> at(n); size_t got = 0, cya = 0, due = 0;
        for (auto &f : c.r->frames) {
            MReq m = parse(f);
            if (m.name == "status") {
                std::set<std::string> have; const MV *t = get(m, "them"), *a = get(m, "amount");
                PBT_CHECK(c.user.size() && str(m, "username") == c.user, "a status names the caller '%s', it is '%s'", str(m, "username").c_str(), c.user.c_str());
                PBT_CHECK(t && t->type == ARR && a && a->type == U32, "a status without a list or an amount");
                size_t undef = 0; std::vector<MV> el; for (auto &e : t->elems) { if (e.type == UNDEF) undef++; else el.push_back(e); }
                if (undef) { PBT_CHECK(undef == el.size(), "status lists %zu undefined values", undef); known(K_UNDEF); }
                PBT_CHECK(a->num == el.size(), "a status has a wrong amount");
                for (auto &e : el) PBT_CHECK(e.type == STR && names.count(e.bytes) && have.insert(e.bytes).second, "a status lists a wrong or repeated name");
                PBT_CHECK(have.count(c.user), "a status does not list its caller");
                continue;
            }
            if (m.name == "auth" || m.name == "auth_success") continue;
            PBT_CHECK(m.name == "message", "unexpected '%s'", m.name.c_str());
            std::string from = str(m, "from"), text = str(m, "text");
            if (from == "SERVER") { if (text.compare(0, 5, "Cya, ") == 0) cya++; continue; }
            PBT_CHECK(c.user.size(), "a message reached a client that is not authorized");
            auto w = winner.find(from); PBT_CHECK(w != winner.end(), "a message of the unknown '%s'", hex(from).c_str());
            unsigned k = w->second; size_t &p = at[k];
            // messages before the client's own authorization cannot exist: all were sent after
            while (p < sent[k].size() && sent[k][p].to != -1 && sent[k][p].to != (int)i) p++;
            bool priv = p < sent[k].size() && sent[k][p].to == (int)i;
            if (priv && text != sent[k][p].text && text == c.user) { known(K_PRIV); text = sent[k][p].text; }
            PBT_CHECK(p < sent[k].size() && sent[k][p].text == text, "a message of '%s' arrived out of order, twice or changed: %s", from.c_str(), hex(text).c_str());
            if (sent[k][p].to == (int)i) PBT_CHECK(str(m, "to") == c.user, "a private message has a wrong recipient");
            p++; got++;
        }
        for (unsigned k = 0; k < n; k++) { for (auto &x : sent[k]) due += x.to == -1 || x.to == (int)i; }
        if (c.user.empty()) return true;
        PBT_CHECK(cya <= gone, "more departures announced than happened"); return got == due && cya >= gone;
    };
    auto all_got = [&](size_t gone) { return [&, gone] {
        srv.check(); bool all = true;
        for (unsigned i = 0; i < n; i++) if (!cl[i]->left) { PBT_CHECK(!cl[i]->r->ended(), "a client was disconnected by itself"); all &= cl[i]->r->sent() && check(i, gone); }
        return all;
    }; };
    wait_until(all_got(0), "delivery of all messages", 40);
    // (a query asked after the last message is answered when the handlers of all others are done with the list)
    for (unsigned i = 0; i < n; i++) {
        size_t from = cl[i]->r->frames.size(); cl[i]->r->send_now(enc(rq("frobnicate"))); cl[i]->r->send_now(enc(rq("status")));
        wait_until([&] { srv.check(); size_t k = 0; for (auto &f : cl[i]->r->frames) { MReq m = parse(f); k += cl[i]->user.size() ? m.name == "status" : m.name == "message"; } return k >= (cl[i]->user.size() ? asked[i] + 1 : 3 + per); }, "the replies to status queries");
        (void)from;
    }
    size_t gone = 0;
    for (unsigned i = 0; i < n; i++) if (leaves[i]) {
        if (g.flip()) cl[i]->r->send_now(enc(rq("bye"))); else cl[i]->r.reset();
        cl[i]->left = true; gone++; 
        wait_until(all_got(gone), "the announcement of a departure", 30);
        if (cl[i]->r) wait_until([&] { srv.check(); return cl[i]->r->ended(); }, "the end of the connection of a client that said bye");
    }
    // the departures are complete when a new client is served
    { Raw probe(srv.dial()); wait_until([&] { srv.check(); return !probe.frames.empty(); }, "the invitation of a new client"); }
    std::set<std::string> stay; for (auto &w : winner) if (!leaves[w.second]) stay.insert(w.first);
    for (unsigned i = 0; i < n; i++) if (cl[i]->user.size() && !leaves[i]) {
        size_t at = 0; auto count = [&] { size_t k = 0; for (size_t q = 0; q < cl[i]->r->frames.size(); q++) if (parse(cl[i]->r->frames[q]).name == "status") { k++; at = q; } return k; };
        // (all earlier queries are answered before the last message is handled or after: wait for one more than now, asked last)
        size_t before = 1 + asked[i]; wait_until([&] { srv.check(); return count() >= before; }, "the replies to status queries");
        cl[i]->r->send_now(enc(rq("status"))); wait_until([&] { srv.check(); return count() > before; }, "the reply to a status query");
        const MReq m = parse(cl[i]->r->frames[at]); std::set<std::string> have; for (auto &e : get(m, "them")->elems) if (e.type == STR) have.insert(e.bytes);
        PBT_CHECK(have == stay && get(m, "amount")->num == stay.size(), "the final status lists %zu participants, there are %zu", have.size(), stay.size());
        check(i, gone);
    }
    srv.check(); label_faults();
}

PBT_PROP(C23, race, 12, 600, 10, 75,
    "two clients ask for the same name at the same moment while searching the list of participants takes 20-100 ms in the server; at most one gets it; non-trivial: always")
{
    static const char *K_RACE = "two clients that authorize at the same moment get the same name (the handlers use the list of participants without a lock)";
    finds = 0; find_ms = 20 + g.u(80); pbt_after_find = slow_find;
    Chat srv; pbt_after_find = nullptr; nontrivial();
    Raw a(srv.dial()), b(srv.dial());
    wait_until([&] { srv.check(); return a.frames.size() >= 2 && b.frames.size() >= 2; }, "the invitations of new clients");
    std::string name = gen_user(g, g.u(50));
    MReq m = rq("auth"); arg(m, "username", name);
    a.send_now(enc(m)); b.send_now(enc(m));
    auto won = [&](Raw &r) { for (auto &f : r.frames) if (parse(f).name == "auth_success") return true; return false; };
    wait_until([&] { srv.check(); return a.frames.size() >= 3 && b.frames.size() >= 3 && (won(a) || won(b)); }, "the replies to concurrent authorizations", 30);
    usleep(20000); srv.check();
    label(won(a) && won(b) ? "both won" : "one won");
    if (won(a) && won(b)) known(K_RACE);
}
