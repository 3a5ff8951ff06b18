// C08-C15, C21, C24: one connection and its background thread.
#include "net.hpp"
#include <algorithm>
#include <deque>
#include <set>
#include <unistd.h>
#include <fcntl.h>
#include <cerrno>
using namespace net;
using namespace pbt;

// ------------------------------------------------------------------ common
struct Listener {
    bool tcp; uint16_t port = 0; std::string path; int fd;
    explicit Listener(bool t) : tcp(t) { if (tcp) fd = tcp_listen(&port); else { path = sock_path("l"); fd = unix_listen(path); } }
    ~Listener() { hclose(fd); if (!tcp) unlink(path.c_str()); }
    // connects c; returns the accepted socket
    int connect(Client &c) {
        bool up = false; std::atomic<bool> done{false};
        std::thread t([&] { up = tcp ? c.ConnectTcp(lo(), port, 20) : c.ConnectUnix(path, 20); done = true; });
        int s = raw_accept(fd);
        wait_until([&] { return done.load(); }, "return of the connect call");
        t.join();
        PBT_CHECK(up, "connecting to a listening endpoint returned false");
        PBT_CHECK(c.IsConnected(), "IsConnected() is false right after a successful connect");
        return s;
    }
};

// A client that has had one or two connections before, with things left behind, and is
// connected once more; peer: the accepted socket.
static void old_life(Gen &g, Listener &L, Client &c) {
    for (unsigned k = 1 + g.u(1); k--;) {
        Raw r(L.connect(c));
        for (unsigned n = g.u(3); n--;) r.send(enc(tagged(0xfeed, n, g.u(60), "old")));
        if (g.flip()) { std::string f = enc(tagged(0xfeed, 9, 100, "old")); f.resize(1 + g.u(f.size() - 2)); r.send(f); }
        for (unsigned n = g.u(2); n--;) { Request q("old"); c.Push(q); }
        r.pump();
        if (g.flip()) { wait_for([&] { return r.sent(); }, 5); nap(g.u(1000)); }
        switch (g.u(3)) { case 0: r.close(); break; case 1: c.Disconnect(true); break; case 2: c.Disconnect(false); wait_until([&] { return r.ended(); }, "end of a connection"); break; default: r.shut_wr(); }
        if (!c.WaitForStop(20)) PBT_LATE("a connection did not end within 20 s");
    }
    label("client with earlier connections");
}
static Client *used_client(Gen &g, int &peer) {
    Listener L(g.chance(1, 5)); Client *c = new Client();
    old_life(g, L, *c);
    peer = L.connect(*c); disown(peer);
    return c;
}

struct Link { int a, b; bool tcp; Connection *made = nullptr; };   // a: for the library, b: for the other side
static Link make_link(Gen &g, bool bufs = true) {
    Link l{}; int sv[2];
    if (g.chance(1, 8)) { l.made = used_client(g, l.b); l.tcp = l.made->GetType() == SocketTypeTcp; l.a = -1; return l; }
    l.tcp = g.chance(1, 6);
    if (l.tcp) tcp_pair(sv); else unix_pair(sv);
    if (bufs && g.chance(1, 3)) {
        int s = g.one<int>({2304, 4608, 20000});
        set_bufs(sv[0], s, s); set_bufs(sv[1], s, s);
        label("small socket buffers");
    }
    l.a = sv[0]; l.b = sv[1];
    if (l.tcp) label("tcp");
    return l;
}
static Connection *first(Link &l) { return l.made ? l.made : conn_on(l.a); }
static uint32_t gen_block(Gen &g) { return g.one<uint32_t>({1024, 1, 2, 3, 5, 17, 100, 4096, 70000, 0x7fffffff, 0, 0x80000000, 0xffffffff}); }
static void push(Connection *c, Gen &g, const MReq &m, bool change) {
    switch (g.u(2)) {
        case 0: { Request r; build_into(r, m); c->Push(&r, true, 0, change); break; }
        case 1: c->Push(make(m), false, 0, change); break;
        default: { Request r; build_into(r, m); c->Push(r, 0, change); break; }
    }
}
static std::string frame_diff(const std::string &got, const std::string &want) {
    MReq a = parse(got), b = parse(want);
    return "got " + show(a) + " expected " + show(b);
}
static void check_frame(const std::string &got, const std::string &want, bool any_id, size_t i, const char *dir) {
    if (any_id ? with_id(got, 0) == with_id(want, 0) : got == want) return;
    PBT_FAIL("%s: request %zu differs: %s", dir, i, frame_diff(got, want).c_str());
}
static uint32_t id_of(const std::string &f) { return (uint8_t)f[4] | (uint8_t)f[5] << 8 | (uint8_t)f[6] << 16 | (uint32_t)(uint8_t)f[7] << 24; }

// what a library side has received: by default handler or by Pull
struct Inbox {
    Connection *c; bool pulling; std::vector<std::string> got;
    void collect() {
        if (pulling) { while (Request *r = c->Pull(0)) { got.push_back(enc(read_req(r))); delete r; } }
        else { got.clear(); for (auto &e : hcopy()) if (e.c == c) got.push_back(e.enc); }
    }
};

// ------------------------------------------------------------------ C08
PBT_PROP(C08, stream, 3500, 300000, 12, 60,
    "requests of generated shape (to 200 kB) are pushed by a connection to a raw peer, by a raw peer to a connection, both, or between two connections, with generated block sizes, receive limits (down to the exact frame size), socket buffers, transport, cuts of the byte stream, injected short counts, interruptions and delays; every side must see exactly the pushed list; non-trivial: at least two requests and a cut inside a frame (piece, block or count smaller than a frame)")
{
    gen_faults(g, g.u(3));
    unsigned mode = g.u(3);
    Link l = make_link(g);
    uint32_t bs[4]; for (auto &b : bs) b = gen_block(g);
    unsigned least = 100000;
    for (unsigned x : {F.recv_cap, F.send_cap, (unsigned)bs[0], (unsigned)bs[1], (unsigned)bs[2], (unsigned)bs[3]}) if (x) least = std::min(least, x);
    if (!bs[0] || !bs[1] || !bs[2] || !bs[3]) least = 1;
    if (F.eintr == 2 || F.eagain == 2) least = std::min(least, 500u);
    size_t total = least < 10 ? 12000 : least < 200 ? 100000 : 800000;
    size_t each = least < 10 ? 3000 : 200000;
    note("mode %u %s blocks %u/%u/%u/%u %s", mode, l.tcp ? "tcp" : "unix", bs[0], bs[1], bs[2], bs[3], show_faults().c_str());

    auto gen_list = [&](std::vector<MReq> &v) {
        size_t sum = 0;
        unsigned avg = g.one<unsigned>({4, 15, 60});
        do {
            MReq m = gen_req(g, each);
            sum += enc(m).size();
            if (sum > total && v.size() > 1) break;
            v.push_back(m);
        } while (g.more(avg));
    };
    std::vector<MReq> fwd, back;    // a->b, b->a
    if (mode != 0) gen_list(fwd);
    if (mode != 1) gen_list(back);
    size_t big = 10;
    for (auto *v : {&fwd, &back}) for (auto &m : *v) big = std::max(big, enc(m).size());
    size_t longest = big;
    if (least < longest) label("cut inside frames");
    size_t bigf = 10, bigb = 10;
    for (auto &m : fwd) bigf = std::max(bigf, enc(m).size());
    for (auto &m : back) bigb = std::max(bigb, enc(m).size());

    Connection *a = first(l);
    std::unique_ptr<Raw> raw; Connection *b = nullptr;
    bool exact = g.flip();
    if (mode == 3) { b = conn_on(l.b); b->SetMaxRequestSize(exact ? bigf : 1 << 20); b->SetSendBlockSize(bs[2]); b->SetRecvBlockSize(bs[3]); }
    else raw.reset(new Raw(l.b));
    a->SetMaxRequestSize(exact ? bigb : 1 << 20); a->SetSendBlockSize(bs[0]); a->SetRecvBlockSize(bs[1]);
    if (exact) label("limit equals the largest frame");
    Inbox ia{a, g.flip()}, ib{b, g.flip()};
    if (!ia.pulling) a->SetHandlerDefault(H[0]);
    if (b && !ib.pulling) b->SetHandlerDefault(H[1]);
    if (raw) {
        raw->write_chunk = g.one<size_t>({65536, 1, 3, 4, 5, 64, 1500});
        if (raw->write_chunk < 64 && back.size() > 3 && bigb > 500) raw->write_chunk = 64;
        raw->read_chunk = g.one<size_t>({65536, 1000, 100, 65536});
        if (raw->write_chunk < bigb && !back.empty()) { label("raw peer writes pieces"); if (back.size() > 1) nontrivial(); }
    }
    if (least < longest && fwd.size() + back.size() > 1) nontrivial();
    labeln("requests", fwd.size() + back.size());

    // both directions, interleaved
    std::vector<bool> fauto(fwd.size()), bauto(back.size());
    size_t i = 0, j = 0;
    while (i < fwd.size() || j < back.size()) {
        if (i < fwd.size() && (j >= back.size() || g.flip())) { fauto[i] = g.flip(); push(a, g, fwd[i], fauto[i]); i++; }
        else if (j < back.size()) {
            if (b) { bauto[j] = g.flip(); push(b, g, back[j], bauto[j]); }
            else raw->send(enc(back[j]));
            j++;
        }
        if (g.chance(1, 6)) { a->SetSendBlockSize(gen_block(g) | 64); a->SetRecvBlockSize(gen_block(g) | 64); }
        if (g.chance(1, 4)) pump_all();
    }
    auto verify = [&](const std::vector<std::string> &got, const std::vector<MReq> &want, const std::vector<bool> *autoid, const char *dir) {
        std::set<uint32_t> ids;
        PBT_CHECK(got.size() <= want.size(), "%s: %zu requests arrived, only %zu were pushed", dir, got.size(), want.size());
        for (size_t k = 0; k < got.size(); k++) {
            bool au = autoid && (*autoid)[k];
            check_frame(got[k], enc(want[k]), au, k, dir);
            if (au) PBT_CHECK(ids.insert(id_of(got[k])).second, "%s: automatic id %u used twice", dir, id_of(got[k]));
        }
    };
    static std::vector<std::string> none;
    wait_until([&] {
        ia.collect(); if (b) ib.collect();
        const auto &fg = b ? ib.got : raw->frames;
        verify(ia.got, back, b ? &bauto : nullptr, "to the first connection");
        verify(fg, fwd, &fauto, b ? "to the second connection" : "to the raw peer");
        return ia.got.size() >= back.size() && fg.size() >= fwd.size();
    }, "arrival of all pushed requests", 40);
    PBT_CHECK(a->IsConnected(), "the connection ended by itself");
    if (b) PBT_CHECK(b->IsConnected(), "the connection ended by itself");
    // end it and look for surplus
    if (raw) {
        raw->read_chunk = 65536;
        bool drop = g.flip();
        if (drop) {
            raw->shut_wr();   // everything sent was received; the connection drains and ends
        } else a->Disconnect();
        wait_until([&] { return raw->ended(); }, "end of stream after disconnection", 40);
        // (only a keep-alive request may be on its way when the connection is dropped)
        bool cut_ka = drop && !keepalive().compare(0, raw->in.size() - raw->parsed, raw->in.substr(raw->parsed));
        PBT_CHECK(raw->complete() || cut_ka, "the stream ended inside a frame: %s", hex(raw->in.substr(raw->parsed)).c_str());
        a->WaitForStop(-1);
        ia.collect();
        verify(ia.got, back, nullptr, "to the first connection");
        verify(raw->frames, fwd, &fauto, "to the raw peer");
    } else {
        (g.flip() ? a : b)->Disconnect();
        a->WaitForStop(-1); b->WaitForStop(-1);
        ia.collect(); ib.collect();
        verify(ia.got, back, &bauto, "to the first connection");
        verify(ib.got, fwd, &fauto, "to the second connection");
    }
    label_faults();
    delete a; delete b;
}

PBT_PROP(C08, duplex, 700, 30000, 12, 60,
    "two connections push large requests (total 0.1-2 MB per direction, far more than the generated small socket buffers hold) to each other at once, with generated block sizes up to whole requests, faults and slow handlers that push back from inside; every side must see exactly the pushed list; non-trivial: both directions exceed the socket buffers and a block exceeds the free room")
{
    gen_faults(g, g.u(1));
    F.recv_cap = F.send_cap = 0;
    int sv[2]; bool tcp = g.chance(1, 6);
    if (tcp) tcp_pair(sv); else unix_pair(sv);
    int buf = tcp ? g.one<int>({60000, 200000}) : g.one<int>({2304, 4608, 20000, 100000});   // (tiny TCP windows are just slow)
    set_bufs(sv[0], buf, buf); set_bufs(sv[1], buf, buf);
    Connection *c[2] = {conn_on(sv[0]), conn_on(sv[1])};
    uint32_t bs[2];
    for (int k = 0; k < 2; k++) {
        bs[k] = g.one<uint32_t>({1024, 4096, 70000, 1 << 20, 0x7fffffff, 0x80000000, 0xffffffff});
        c[k]->SetMaxRequestSize(1 << 21); c[k]->SetSendBlockSize(bs[k]); c[k]->SetRecvBlockSize(g.one<uint32_t>({1024, 4096, 70000, 1 << 20}));
    }
    bool echo = g.chance(1, 3);      // requests are sent back by the handler
    std::vector<MReq> v[2];
    size_t sum[2] = {};
    for (int k = 0; k < (echo ? 1 : 2); k++) for (unsigned n = 1 + g.u(5); n--;) { MReq m = tagged(k, v[k].size(), 20000 + g.u(380000)); sum[k] += enc(m).size(); v[k].push_back(m); }
    if (echo) { v[1] = v[0]; sum[1] = sum[0]; on_request = [&](Connection *x, Request *r, int h) { if (h == 1) x->Push(*r, 0, true); }; label("echoed by a handler"); }
    c[0]->SetHandlerDefault(H[0]); c[1]->SetHandlerDefault(H[1]);
    note("%s buffers %d, blocks %u/%u, %zu+%zu bytes%s", tcp ? "tcp" : "unix", buf, bs[0], bs[1], sum[0], sum[1], echo ? ", echo" : "");
    if (sum[0] > 100000 && sum[1] > 100000 && std::min(bs[0], bs[1]) >= 70000) nontrivial();
    size_t i[2] = {};
    while (i[0] < v[0].size() || (!echo && i[1] < v[1].size())) {
        int k = echo ? 0 : g.flip();
        if (i[k] >= v[k].size()) k ^= 1;
        push(c[k], g, v[k][i[k]++], true);
        if (g.chance(1, 4)) nap(g.u(1000));
    }
    wait_until([&] {
        size_t n[2] = {};
        for (auto &e : hcopy()) {
            int to = e.c == c[1];     // what arrives at 1 was pushed by 0
            auto &w = v[!to];
            PBT_CHECK(n[to] < w.size(), "more requests arrived than were pushed");
            check_frame(e.enc, enc(w[n[to]]), true, n[to], to ? "to the second connection" : "to the first connection");
            n[to]++;
        }
        return n[1] >= v[0].size() && n[0] >= v[1].size();
    }, "arrival of all pushed requests in both directions", 40);
    PBT_CHECK(c[0]->IsConnected() && c[1]->IsConnected(), "a connection ended by itself");
    label_faults();
    delete c[0]; delete c[1];
}

PBT_PROP(C08, giant, 12, 200, 4, 100,
    "requests of 16-80 MB (lengths beyond 24 bits) between small ones, in one or both directions between two connections or to a raw peer, with large and default block sizes; every side must see exactly the pushed list; non-trivial: always")
{
    int sv[2]; unix_pair(sv); nontrivial();
    Connection *c[2] = {conn_on(sv[0]), conn_on(sv[1])};
    bool both = g.flip(); std::vector<MReq> v[2];
    for (int k = 0; k < 2; k++) { c[k]->SetMaxRequestSize(100000000); c[k]->SetSendBlockSize(g.one<uint32_t>({65536, 1 << 20, 0xffffffff, 1 << 24})); c[k]->SetRecvBlockSize(g.one<uint32_t>({65536, 1 << 20, 1 << 24})); }
    for (int k = 0; k < 1 + both; k++) for (unsigned n = 1 + g.u(2), big = g.u(n - 1), i = 0; i < n; i++) v[k].push_back(tagged(k, i, i == big ? g.one<size_t>({1 << 24, (1 << 24) - 30, 20000000, 1 << 25, 40000000, 1 << 26}) + g.u(1000) : g.u(1000)));
    for (int k = 0; k < 2; k++) for (auto &m : v[k]) { note("%zu ", enc(m).size()); c[k]->Push(make(m), false, 0, false); }
    for (int k = 0; k < 2; k++) for (size_t i = 0; i < v[!k].size(); i++) {
        Request *r = c[k]->Pull(60); if (!r) { PBT_CHECK(c[k]->IsConnected(), "the connection ended by itself"); PBT_LATE("a large request did not arrive within 60 s"); }
        check_frame(enc(read_req(r)), enc(v[!k][i]), false, i, k ? "to the second connection" : "to the first connection"); delete r;
    }
    delete c[0]; delete c[1];
}

// ------------------------------------------------------------------ C09
// an undecodable frame of legal length
static std::string bad_frame(Gen &g, size_t limit, MReq &prefix, bool &optional) {
    optional = false;
    MReq m = gen_req(g, limit);
    std::string f = enc(m);
    prefix = m;
    unsigned how = g.u(3);
    if (how >= 1 && m.args.size()) {
        // ill-formed argument: the well-formed arguments before it may be delivered
        for (int k = 0; k < 20; k++) {
            std::string x = f;
            size_t head = 10 + m.name.size();
            size_t p = head + g.u(x.size() - head - 1);
            x[p] = (char)g.u(255);
            if (how == 3) x.resize(p), x.replace(0, 4, le(x.size(), 4));
            MReq t; size_t used;
            if (x.size() >= 10 && !(dec_req(x.data(), x.size(), t, used) && used == x.size())) { optional = true; return x; }
        }
    }
    // header: name does not fit
    size_t over = 1 + g.size(60000);
    size_t nl = std::min<size_t>(65535, f.size() - 10 + over);
    if (f.size() - 10 >= 65535) { f.resize(20); f.replace(0, 4, le(20, 4)); nl = 11 + g.u(60000); }
    f.replace(8, 2, le(nl, 2));
    return f;
}

PBT_PROP(C09, hostile, 3500, 500000, 12, 60,
    "a raw peer sends a generated script of well-formed frames (up to exactly the limit), undecodable frames of legal length and a final fault (announced length above the limit by 1 to 2^32-1, a length 0-9, garbage, a cut followed by close or reset) in generated pieces; oracle: every well-formed frame before the first fault delivered once and in order, nothing of an over-limit frame, end of connection after it, no crash; non-trivial: a fault or undecodable frame occurs")
{
    gen_faults(g, g.u(3));
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l);
    uint32_t bs = gen_block(g);
    c->SetRecvBlockSize(bs);
    bool slow = bs < 10 || (F.recv_cap && F.recv_cap < 10) || F.eintr == 2;
    size_t limit = g.one<size_t>({16384, 10, 11, 64, 300, 1000, 1024, 70000});
    if (slow) limit = std::min<size_t>(limit, 1000);
    bool deflt = g.chance(1, 8);
    if (deflt) { limit = 16384; label("default limit"); }
    else c->SetMaxRequestSize(limit == 10 && g.flip() ? g.u(9) : limit);
    bool pulling = g.flip();
    if (!pulling) c->SetHandlerDefault(H[0]);
    raw->write_chunk = g.one<size_t>({65536, 1, 3, 5, 64, 1500});
    if (raw->write_chunk < 64 && limit > 1000) raw->write_chunk = 700;
    note("limit %zu block %u piece %zu %s", limit, bs, raw->write_chunk, show_faults().c_str());

    struct Exp { std::string f; bool optional; MReq m; };
    std::vector<Exp> exp;
    std::vector<std::string> got;
    auto collect = [&] {
        if (pulling) { while (Request *r = c->Pull(0)) { got.push_back(enc(read_req(r))); delete r; } }
        else { got.clear(); for (auto &e : hcopy()) got.push_back(e.enc); }
    };
    // matches got against exp; complete: everything must be there
    auto match = [&](bool complete, bool extra_ok) {
        // optional elements may be skipped or appear as a prefix of their well-formed arguments
        size_t i = 0;
        for (size_t k = 0; k < got.size(); k++) {
            for (;; i++) {
                if (i == exp.size()) { if (extra_ok) return true; PBT_FAIL("unexpected request delivered: %s", show(parse(got[k])).c_str()); }
                if (!exp[i].optional) {
                    if (got[k] != exp[i].f) PBT_FAIL("request %zu: %s", i, frame_diff(got[k], exp[i].f).c_str());
                    i++; break;
                }
                MReq d = parse(got[k]);
                bool ok = d.id == exp[i].m.id && d.name == exp[i].m.name;
                if (ok) { i++; break; }
            }
        }
        if (!complete) return true;
        for (; i < exp.size(); i++) if (!exp[i].optional) return false;
        return true;
    };
    size_t n = 0, budget = slow ? 6000 : 150000;
    uint32_t serial = 1000;
    auto add_good = [&](bool exact) {
        MReq m = gen_req(g, limit);
        m.id = serial++;
        if (exact) {
            MReq e; e.id = m.id; e.name = "x";
            size_t base = enc(e).size();
            if (limit >= 65000 || limit < base) { e.name = std::string(std::min<size_t>(limit - 10, 200), 'n'); }
            else e.name = std::string(limit - 10, 'n');
            m = e; label("frame of exactly the limit");
            if (limit > 210 && limit >= 65000) { MArg a; a.name = "p"; a.v.type = STR; m.args.push_back(a); size_t have = enc(m).size(); m.args[0].v.bytes.assign(limit - have, 'q'); }
        }
        std::string f = enc(m);
        if (f.size() > limit) return;
        n += f.size();
        raw->send(f); exp.push_back({f, false, m});
    };
    unsigned items = 0, bads = 0;
    do {
        if (n > budget) break;
        switch (g.weighted({5, 2, 3, 1, 1})) {
            case 0: add_good(false); break;
            case 1: add_good(true); break;
            case 2: { MReq p; bool opt; std::string f = bad_frame(g, limit, p, opt);
                      if (f.size() > limit || f.size() < 10) break;
                      uint32_t id = serial++; f = with_id(f, id); p.id = id;
                      n += f.size(); raw->send(f); bads++;
                      if (opt) exp.push_back({f, true, p});
                      label(opt ? "ill-formed argument" : "undecodable frame"); break; }
            case 3: if (limit >= 11) raw->send(keepalive()); break;
            default: pump_all(); break;
        }
        items++;
        if (g.chance(1, 10) && !deflt) {
            // change the limit at a quiet point: everything sent so far is delivered first
            wait_until([&] { collect(); return match(true, false); }, "delivery before the limit is changed");
            nap(g.u(300));
            // the sentinel proves that nothing sent before is still being received
            MReq s; s.name = "s"; s.id = serial++; if (limit >= 11) { raw->send(enc(s)); exp.push_back({enc(s), false, s}); wait_until([&] { collect(); return match(true, false); }, "delivery of a sentinel"); }
            else if (bads) continue;
            limit = g.one<size_t>({1000, 10, 30, 64, 500, 20000});
            if (slow) limit = std::min<size_t>(limit, 1000);
            c->SetMaxRequestSize(limit); label("limit changed");
        }
    } while (g.more(10));
    if (g.chance(1, 10)) {      // a long series of undecodable frames
        unsigned k = 17 + g.size(slow ? 100 : 1500);
        for (unsigned i = 0; i < k; i++) { MReq p; bool opt; std::string f = bad_frame(g, std::min<size_t>(limit, 60), p, opt); if (f.size() > limit || f.size() < 10) continue; uint32_t id = serial++; f = with_id(f, id); p.id = id; raw->send(f); bads++; if (opt) exp.push_back({f, true, p}); }
        add_good(false); label("long series of undecodable frames");
    }
    if (bads) nontrivial();
    // final fault
    unsigned end = g.u(6);
    bool must_end = false, extra_ok = false;
    switch (end) {
        case 0: break;
        case 1: { uint64_t x = 0;
                  switch (g.u(2)) {
                      case 0: x = limit + 1 + g.size(70000); break;
                      case 1: x = limit + 1 + g.u(0xffffffffull - limit - 1); break;
                      // a legal length with one more bit, or in the wrong byte order
                      default: x = g.u(limit);
                               if (g.chance(1, 4)) x = __builtin_bswap32((uint32_t)x);
                               else { int b = 31; for (; b && g.flip(); b--); x |= 1ull << b; label("legal length with a high bit"); }
                               if (x <= limit) x = 0xffffffffull - g.u(15);
                  }
                  if (x > 0xffffffffull) x = 0xffffffffull;
                  std::string f = le(x, 4);
                  if (g.flip()) { MReq m = tagged(1, 2, g.u(200)); f += enc(m).substr(4); }
                  raw->send(f); must_end = true; label("over the limit"); nontrivial(); note("announces %llu ", (unsigned long long)x);
                  if (g.flip()) { MReq m = tagged(3, 4); raw->send(enc(m)); }
                  break; }
        case 2: raw->send(le(g.u(9), 4)); extra_ok = true; label("length below 10"); nontrivial(); if (g.flip()) raw->send(enc(tagged(1, 2))); break;
        case 3: raw->send(g.bytes(1 + g.size(3000))); extra_ok = true; label("garbage"); nontrivial(); break;
        case 4: case 5: { std::string f = enc(gen_req(g, std::max<size_t>(limit, 10))); if (f.size() <= limit) { f.resize(g.u(f.size() - 1)); raw->send(f); } label("cut"); nontrivial(); break; }
        default: label("limit check by exact frame"); add_good(true); break;
    }
    // send everything out
    wait_until([&] { collect(); match(false, extra_ok); return raw->sent() || !c->IsConnected(); }, "the connection reading what the peer sends", 30);
    wait_until([&] { collect(); return match(true, extra_ok); }, "delivery of the frames before the fault", 30);
    if (must_end) {
        wait_until([&] { return !c->IsConnected(); }, "end of the connection after an over-limit frame");
        wait_until([&] { return raw->ended(); }, "end of stream after an over-limit frame");
        collect(); match(true, false);
    } else if (end == 0 || end == 6) {
        PBT_CHECK(c->IsConnected(), "the connection ended although no fault occurred");
    }
    if (end == 5 && l.tcp && g.flip()) raw->close(true); else if (!raw->ended() && end >= 3) { if (end == 3 || g.flip()) raw->close(); else raw->shut_wr(); }
    if (end >= 3 && end <= 5) {
        if (end != 3) wait_until([&] { return !c->IsConnected(); }, "end of the connection after the peer has closed");
        else if (raw->fd < 0) wait_until([&] { return !c->IsConnected(); }, "end of the connection after the peer has closed");
        collect(); match(true, extra_ok);
    }
    label_faults();
    delete c;
}

// ------------------------------------------------------------------ C10
// names that are easily confused with each other or with the keep-alive name
static std::vector<std::string> pool_names() {
    std::string L(300, 'l');
    return {"a", "b", "aa", "", "A", "_x", std::string("a\0b", 3), "long-name-long-name", "__", std::string("_\0", 2), std::string("_\0x", 3), std::string("a\0", 2), std::string("\0", 1), std::string("\0a", 2), "x_", " _", L, L + "l", L.substr(1) + "m", "\xe4", "\x64", "ab", "ba"};
}

PBT_PROP(C10, dispatch, 9000, 400000, 12, 60,
    "a raw peer sends bursts of requests with colliding names between generated changes of named and default handlers (made by the application at quiet points and by handlers while running); a model predicts for every request the handler or the pull queue; non-trivial: a handler change between two requests of the same name")
{
    gen_faults(g, g.u(2));
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l);
    std::map<std::string, int> named; int deflt = -1;     // model
    std::vector<std::string> names;
    { auto pool = pool_names(); bool usual = g.flip(); for (unsigned i = 0; i < 8; i++) names.push_back(usual ? pool[i] : pool[g.u(pool.size() - 1)]); }
    auto nm = [&](unsigned i) { return names[i]; };
    struct Act { bool dflt; std::string name; int h; };
    std::map<uint32_t, std::vector<Act>> acts;            // by request id, run inside the handler that gets it
    Spin al;
    on_request = [&](Connection *cc, Request *r, int) {
        std::vector<Act> v; { Lk k(al); auto it = acts.find(r->GetId()); if (it != acts.end()) v = it->second; }
        for (auto &a : v) { if (a.dflt) cc->SetHandlerDefault(a.h < 0 ? nullptr : H[a.h]); else cc->SetHandlerNamed(a.name, a.h < 0 ? nullptr : H[a.h]); }
    };
    named["S"] = 7; c->SetHandlerNamed("S", H[7]);
    uint32_t id = 1;
    std::vector<std::pair<int, std::string>> want;        // handler calls in order
    std::deque<std::string> queue;                        // to be pulled
    bool changed = false, used = false;
    auto apply = [&](const Act &a) { if (a.dflt) deflt = a.h; else if (a.h < 0) named.erase(a.name); else named[a.name] = a.h; };
    auto gen_act = [&] { Act a; a.dflt = g.chance(1, 4); a.name = g.chance(1, 12) ? "_" : nm(g.u(7)); a.h = (int)g.u(6) - 1; if (g.chance(1, 3)) a.h = -1; return a; };
    do {
        for (unsigned k = g.u(3); k--;) {
            Act a = gen_act(); apply(a);
            if (a.dflt) c->SetHandlerDefault(a.h < 0 ? nullptr : H[a.h]); else c->SetHandlerNamed(a.name, a.h < 0 ? nullptr : H[a.h]);
            note(" [%s%s=%d]", a.dflt ? "default" : "", a.dflt ? "" : hex(a.name).c_str(), a.h);
            if (used) changed = true;
        }
        // getters agree with the model
        PBT_CHECK(c->GetHandlerDefault() == (deflt < 0 ? nullptr : H[deflt]), "GetHandlerDefault()");
        for (unsigned k = 0; k < 8; k++) { auto it = named.find(nm(k)); PBT_CHECK(c->GetHandlerNamed(nm(k)) == (it == named.end() ? nullptr : H[it->second]), "GetHandlerNamed(%s)", hex(nm(k)).c_str()); }
        unsigned burst = 1 + g.u(g.one<unsigned>({3, 12, 40}));
        for (unsigned k = 0; k < burst; k++) {
            if (g.chance(1, 12)) {
                MReq ka; ka.name = "_"; if (g.chance(1, 3)) ka.id = g.num(32);
                if (g.chance(1, 4)) { Lim l; l.str = 20; l.args = 3; l.depth = 1; l.elems = 4; l.name = 20; MReq m = gen_request(g, l); ka.args = m.args; label("keep-alive with arguments"); }
                raw->send(enc(ka)); label("keep-alive in between");
            }
            MReq m; m.id = id++; m.name = nm(g.u(7));
            if (g.chance(1, 4)) { MArg a; a.name = "v"; a.v = gen_scalar(g); m.args.push_back(a); }
            std::string f = enc(m);
            raw->send(f);
            auto it = named.find(m.name);
            int h = it != named.end() ? it->second : deflt;
            if (h < 0) queue.push_back(f); else want.push_back({h, f});
            if (h >= 0 && g.chance(1, 5)) {
                std::vector<Act> v; for (unsigned q = 0; q <= g.u(1); q++) v.push_back(gen_act());
                { Lk kk(al); acts[m.id] = v; }
                for (auto &a : v) { apply(a); note(" <%s%s=%d>", a.dflt ? "default" : "", a.dflt ? "" : hex(a.name).c_str(), a.h); }
                label("handler changes handlers"); changed = true;
            }
            used = true;
        }
        MReq s; s.id = id++; s.name = "S"; raw->send(enc(s)); want.push_back({7, enc(s)});
        wait_until([&] {
            auto v = hcopy();
            PBT_CHECK(v.size() <= want.size() || true, " ");
            for (size_t k = 0; k < v.size(); k++) {
                PBT_CHECK(k < want.size(), "a handler got an unexpected request: %s", show(parse(v[k].enc)).c_str());
                PBT_CHECK(v[k].enc == want[k].second, "handler call %zu: %s", k, frame_diff(v[k].enc, want[k].second).c_str());
                PBT_CHECK(v[k].h == want[k].first, "request %s was given to handler %d, expected %d", show(parse(v[k].enc)).c_str(), v[k].h, want[k].first);
            }
            return v.size() >= want.size();
        }, "dispatch of all requests");
        for (unsigned k = g.flip() ? 100000 : g.u(3); k--;) {
            Request *r = c->Pull(0);
            if (!r) { PBT_CHECK(queue.empty(), "an unhandled request is not available through Pull: %s", show(parse(queue.front())).c_str()); break; }
            PBT_CHECK(!queue.empty(), "Pull returned a request that was handled: %s", show(read_req(r)).c_str());
            std::string f = enc(read_req(r)); delete r;
            PBT_CHECK(f == queue.front(), "Pull: %s", frame_diff(f, queue.front()).c_str());
            queue.pop_front();
        }
    } while (g.more(4));
    if (changed) nontrivial();
    raw->close();
    c->WaitForStop(-1);
    PBT_CHECK(hcount() == want.size(), "%zu handler calls, expected %zu", hcount(), want.size());
    while (Request *r = c->Pull(0)) {
        PBT_CHECK(!queue.empty(), "Pull returned an unexpected request");
        std::string f = enc(read_req(r)); delete r;
        PBT_CHECK(f == queue.front(), "Pull: %s", frame_diff(f, queue.front()).c_str());
        queue.pop_front();
    }
    PBT_CHECK(queue.empty(), "%zu unhandled requests cannot be pulled", queue.size());
    delete c;
}

PBT_PROP(C10, swap, 1500, 60000, 12, 60,
    "a raw peer streams requests while another thread keeps replacing and removing handlers; every request must reach exactly one admissible place, each place in arrival order; non-trivial: at least two different places were used")
{
    gen_faults(g, g.u(2));
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l);
    // name a: handlers 0,1 or default 2 or pull; name b: handler 3 fixed; name d: default 2 or pull
    c->SetHandlerNamed("b", H[3]); c->SetHandlerNamed("S", H[7]);
    std::atomic<bool> stop{false};
    std::vector<unsigned> script; for (unsigned i = 0; i < 40; i++) script.push_back(g.u(7));
    unsigned pace = g.u(200);
    std::thread swapper([&] {
        for (size_t i = 0; !stop; i++) {
            switch (script[i % script.size()]) {
                case 0: case 1: c->SetHandlerNamed("a", H[0]); break;
                case 2: c->SetHandlerNamed("a", H[1]); break;
                case 3: c->SetHandlerNamed("a", nullptr); break;
                case 4: c->SetHandlerDefault(H[2]); break;
                case 5: c->SetHandlerDefault(nullptr); break;
                case 6: for (int k = 0; k < 20; k++) c->SetHandlerNamed("z" + std::to_string(k), H[4]); break;
                default: for (int k = 0; k < 20; k++) c->SetHandlerNamed("z" + std::to_string(k), nullptr); break;
            }
            nap(pace);
        }
    });
    unsigned n = 20 + g.u(400);
    std::vector<std::string> sent;
    std::vector<std::string> pulled;
    auto pull = [&] { while (Request *r = c->Pull(0)) { pulled.push_back(enc(read_req(r))); delete r; } };
    for (unsigned i = 0; i < n; i++) {
        MReq m; m.id = i; m.name = g.one<const char *>({"a", "b", "d"});
        sent.push_back(enc(m)); raw->send(sent.back());
        if (g.chance(1, 8)) { pump_all(); nap(g.u(300)); }
        if (g.chance(1, 20)) pull();
    }
    MReq s; s.id = n; s.name = "S"; raw->send(enc(s));
    wait_until([&] { pull(); auto v = hcopy(); return !v.empty() && v.back().h == 7; }, "dispatch of all requests");
    stop = true; swapper.join();
    pull();
    std::vector<int> place(n, -1);
    uint32_t last = 0; bool first = true;
    for (auto &e : hcopy()) {
        if (e.h == 7) break;
        uint32_t i = id_of(e.enc);
        PBT_CHECK(i < n && e.enc == sent[i], "a handler got a request that was not sent");
        PBT_CHECK(first || i > last, "handlers ran out of arrival order: %u after %u", i, last);
        first = false; last = i; place[i] = e.h;
        std::string name = parse(e.enc).name;
        bool ok = name == "a" ? e.h == 0 || e.h == 1 || e.h == 2 : name == "b" ? e.h == 3 : e.h == 2;
        PBT_CHECK(ok, "request '%s' was given to handler %d", name.c_str(), e.h);
    }
    first = true;
    for (auto &f : pulled) {
        uint32_t i = id_of(f);
        PBT_CHECK(i < n && f == sent[i], "Pull returned a request that was not sent");
        PBT_CHECK(place[i] == -1, "request %u was both handled and pulled", i);
        PBT_CHECK(first || i > last, "Pull out of arrival order"); first = false; last = i;
        PBT_CHECK(parse(f).name != "b", "request 'b' was queued although it has a handler");
        place[i] = 8;
    }
    std::set<int> places;
    for (unsigned i = 0; i < n; i++) { PBT_CHECK(place[i] != -1, "request %u of %u was not dispatched anywhere", i, n); places.insert(place[i]); }
    if (places.size() > 2) nontrivial();
    raw->close();
    delete c;
}

// ------------------------------------------------------------------ C11
// runs f in a thread, collects its result
struct Async {
    std::atomic<bool> done{false}; double took = 0, at = 0; Request *res = nullptr; bool ok = false; std::thread t;
    void pull(Connection *c, int timeout) { t = std::thread([this, c, timeout] { double s = now_s(); res = c->Pull(timeout); at = now_s(); took = at - s; done = true; }); }
    void stop(Connection *c, int timeout) { t = std::thread([this, c, timeout] { double s = now_s(); ok = c->WaitForStop(timeout); at = now_s(); took = at - s; done = true; }); }
    void push(Connection *c, const MReq &m, int timeout) { t = std::thread([this, c, m, timeout] { Request r; build_into(r, m); double s = now_s(); res = c->Push(r, timeout, false); at = now_s(); took = at - s; done = true; }); }
    void join(const char *what, double limit = 20) { wait_until([&] { return done.load(); }, what, limit); t.join(); }
    ~Async() { if (t.joinable()) t.join(); delete res; }
};

PBT_PROP(C11, fifo, 16000, 400000, 12, 60,
    "generated sequences of arriving requests (some handled, some keep-alive), Pull calls with zero, long and unlimited timeouts (data already there or arriving while waiting) and finally the end of the connection with requests left; a queue model predicts every result, and results must come long before the timeout; non-trivial: a Pull waited for an arrival or requests were left at the end")
{
    gen_faults(g, g.u(2));
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l);
    c->SetHandlerNamed("S", H[7]); c->SetHandlerNamed("h", H[1]);
    std::deque<std::string> q;
    uint32_t id = 1; size_t sentinels = 0, handled = 0;
    auto one = [&](const char *name) { MReq m; m.id = id++; m.name = name; if (g.chance(1, 3)) { MArg a; a.name = "v"; a.v = gen_scalar(g); m.args.push_back(a); } return enc(m); };
    auto sync = [&] {
        raw->send(one("S")); sentinels++;
        wait_until([&] { return hcount() >= sentinels + handled; }, "arrival of a sentinel");
    };
    auto take = [&](Request *r, const char *how) {
        PBT_CHECK(r, "%s returned null although %zu requests are queued", how, q.size());
        std::string f = enc(read_req(r)); delete r;
        PBT_CHECK(!q.empty(), "%s returned a request although none is queued: %s", how, show(parse(f)).c_str());
        PBT_CHECK(f == q.front(), "%s: %s", how, frame_diff(f, q.front()).c_str());
        q.pop_front();
    };
    do {
        switch (g.weighted({4, 4, 2, 3})) {
            case 0: for (unsigned k = 1 + g.u(5); k--;) {
                    unsigned what = g.weighted({4, 1, 1});
                    if (what == 0) { q.push_back(one("q")); raw->send(q.back()); }
                    else if (what == 1) { raw->send(one("h")); handled++; }
                    else raw->send(keepalive());
                }
                sync(); break;
            case 1: for (unsigned k = 1 + g.u(4); k--;) {
                    if (q.empty()) {
                        double t = now_s(); Request *r = c->Pull(0); t = now_s() - t;
                        PBT_CHECK(!r, "Pull(0) returned a request although none is queued: %s", show(read_req(r)).c_str());
                        if (t > 10) PBT_LATE("Pull(0) on an empty queue took %.1f s", t);
                    } else {
                        int to = g.one<int>({0, -1, 1, 30, 0x7fffffff, INT32_MIN});
                        double t = now_s(); take(c->Pull(to), "Pull with queued requests"); t = now_s() - t;
                        if (t > 10) PBT_LATE("Pull(%d) with queued requests took %.1f s", to, t);
                    }
                } break;
            case 2: {   // waits for an arrival
                if (!q.empty()) break;
                int to = g.one<int>({-1, 40, 3600, -5, 0x7fffffff, 2147484, INT32_MIN});
                Async p; p.pull(c, to);
                nap(g.u(3000));
                if (g.chance(1, 3)) { raw->send(one("h")); handled++; raw->send(keepalive()); pump_all(); nap(g.u(2000)); label("handled requests while a Pull waits"); }
                nap(200);
                PBT_CHECK(!p.done, "Pull(%d) returned %s before anything arrived and while the connection is up", to, p.res ? "a request" : "null");
                q.push_back(one("q")); raw->send(q.back());
                unsigned more = g.u(2); for (unsigned k = 0; k < more; k++) { q.push_back(one("q")); raw->send(q.back()); }
                p.join("a waiting Pull returning after a request arrived");
                Request *r = p.res; p.res = nullptr; take(r, "waiting Pull");
                sync(); label("waited for arrival"); nontrivial(); break; }
            default: for (unsigned k = 1 + g.u(3); k--;) { if (g.flip()) { raw->send(one("h")); handled++; } else raw->send(keepalive()); } break;
        }
    } while (g.more(6));
    // the end
    unsigned left = g.u(4);
    for (unsigned k = 0; k < left; k++) { q.push_back(one("q")); raw->send(q.back()); }
    note("%zu left at end ", q.size());
    unsigned how = g.u(3);
    bool waiting = q.empty() && g.flip();
    Async p;
    if (waiting) { p.pull(c, g.one<int>({-1, 50, 100000})); nap(g.u(2000)); label("end while a Pull waits"); nontrivial(); }
    if (how != 0 || left) { sync(); }
    switch (how) {
        case 0: wait_until([&] { return raw->sent(); }, "the connection reading what the peer sends"); raw->close(); break;
        case 1: raw->close(); break;
        case 2: c->Disconnect(true); break;
        default: c->Disconnect(false); break;
    }
    if (waiting) { p.join("a waiting Pull returning when the connection ends"); PBT_CHECK(!p.res, "Pull returned a request that was never sent"); }
    bool ok = c->WaitForStop(-1);
    PBT_CHECK(ok, "WaitForStop(-1) returned false");
    if (!q.empty()) { label("requests left at the end"); nontrivial(); }
    while (!q.empty()) take(c->Pull(g.one<int>({0, -1, 20})), "Pull after the connection ended");
    for (int to : {0, 40, -1}) {
        double t = now_s(); Request *r = c->Pull(to); t = now_s() - t;
        PBT_CHECK(!r, "Pull on an ended connection returned a request that was not queued");
        if (t > 15) PBT_LATE("Pull(%d) on an ended connection with nothing queued took %.1f s", to, t);
    }
    delete c;
    // never connected
    if (g.chance(1, 8)) {
        Client cl; double t = now_s(); Request *r = cl.Pull(g.one<int>({0, 40, -1})); t = now_s() - t;
        PBT_CHECK(!r, "Pull on a never connected client returned a request");
        if (t > 15) PBT_LATE("Pull on a never connected client took %.1f s", t);
        label("never connected");
    }
}

PBT_PROP(C11, timing, 600, 16000, 64, 60,
    "Pull with a positive timeout of 1-3 s: nothing arrives (other traffic may), something arrives before or after, or the connection ends meanwhile; it must not return empty-handed before the timeout while the connection is up (strict), not wait much longer than it, and return what arrives in time; non-trivial: the timeout expired or something arrived while waiting")
{
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l);
    c->SetHandlerNamed("h", H[1]);
    int to = 1 + g.u(2);
    unsigned what = g.u(3);   // 0 nothing, 1 arrives before, 2 arrives after, 3 ends
    double delay = what == 1 ? g.u(to * 1000 - 300) / 1000.0 : what == 3 ? g.u(to * 1000) / 1000.0 : 0;
    note("timeout %d what %u delay %.3f", to, what, delay);
    MReq m; m.name = "q"; m.id = 7; std::string f = enc(m);
    MReq h; h.name = "h";
    Async p; double t0 = now_s(); p.pull(c, to);
    bool noise = g.flip();
    double next = t0 + 0.1; bool fired = false; double fired_at = 0;
    wait_until([&] {
        double t = now_s();
        if (noise && t > next && !(what == 3 && fired)) { raw->send(g.flip() ? enc(h) : keepalive()); next = t + 0.2; }
        if (!fired && (what == 1 || what == 3) && t >= t0 + delay) { fired = true; fired_at = t; if (what == 1) raw->send_now(f); else raw->close(); }
        return p.done.load();
    }, "Pull with a positive timeout returning", to + 20.0);
    p.t.join();
    if (what == 0 || what == 2) {
        PBT_CHECK(!p.res, "Pull returned a request that was not sent");
        PBT_CHECK(p.took >= to - 0.002, "Pull(%d) returned null after %.3f s although the connection is up", to, p.took);
        if (p.took > to + 8) PBT_LATE("Pull(%d) waited %.1f s", to, p.took);
        label("timed out"); nontrivial();
        if (what == 2) {
            raw->send_now(f); Request *r = c->Pull(30);
            PBT_CHECK(r && enc(read_req(r)) == f, "a request that arrived after a timed out Pull was lost"); delete r;
        }
    } else if (what == 1) {
        if (p.res) { PBT_CHECK(enc(read_req(p.res)) == f, "Pull returned another request"); nontrivial(); label("arrived in time"); }
        else {
            PBT_CHECK(p.took >= to - 0.002, "Pull(%d) returned null after %.3f s although the connection is up", to, p.took);
            if (fired) PBT_LATE("Pull(%d) returned null although a request arrived %.3f s after it started", to, fired_at - t0);
        }
    } else {
        PBT_CHECK(!p.res, "Pull returned a request that was not sent");
        // judged only when the end came before the timeout could expire
        if (!fired) PBT_CHECK(p.took >= to - 0.002, "Pull(%d) returned null after %.3f s although the connection is up", to, p.took);
        else { nontrivial(); label("ended while waiting"); }
        PBT_CHECK(fired || p.took < to + 8 || true, " ");
    }
    delete c;
}

PBT_PROP(C11, patient, 250, 5000, 64, 60,
    "Pull with a very long timeout (also such that its milli- or microseconds exceed 16, 31, 32 bits) or a negative one (any), while nothing comes for 0.8-3.5 s (other traffic may); it must still be waiting then, and return the request that comes, or null when the connection ends; non-trivial: always")
{
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l); c->SetHandlerNamed("h", H[1]);
    int to = long_timeout(g);
    double wait = 0.8 + g.u(2700) / 1000.0; bool noise = g.flip(), ends = g.chance(1, 4);
    note("timeout %d, %.2f s, %s", to, wait, ends ? "end" : "request"); nontrivial();
    Async p; double t0 = now_s(), next = t0; p.pull(c, to);
    MReq h; h.name = "h"; MReq m; m.name = "q"; m.id = 7;
    wait_for([&] { double t = now_s(); if (noise && t > next) { raw->send(g.flip() ? enc(h) : keepalive()); next = t + 0.3; } return p.done || t > t0 + wait; }, wait + 5);
    PBT_CHECK(!p.done, "Pull(%d) returned %s after %.3f s although nothing had arrived and the connection is up", to, p.res ? "a request" : "null", p.took);
    if (ends) raw->close(); else raw->send_now(enc(m));
    p.join("Pull returning");
    if (ends) PBT_CHECK(!p.res, "Pull returned a request that was not sent");
    else { PBT_CHECK(p.res, "Pull(%d) returned null although a request arrived and the connection is up", to); PBT_CHECK(enc(read_req(p.res)) == enc(m), "Pull returned another request"); }
    delete c;
}

PBT_PROP(C11, race, 2000, 60000, 64, 60,
    "30-80 rounds in which a Pull (negative, 20 s or longer timeout) and the arrival of one request start at nearly the same moment, every mutex operation and system call of the library being drawn out now and then; each Pull must return its request within a few seconds; in the last round the connection ends instead; non-trivial: always")
{
    F.seed = g.num(64); F.ctr = 0; F.lock_delay = g.one<unsigned>({2, 3, 6}); F.delay = g.one<unsigned>({3, 6, 0}); F.delay_us = g.one<unsigned>({50, 300, 1000}); F.budget_us = 4000000; F.on = true;
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l); c->SetHandlerNamed("h", H[1]);
    unsigned rounds = 30 + g.u(50); bool noise = g.flip();
    std::atomic<unsigned> go{0}; std::atomic<bool> stop{false};
    std::vector<int> to(rounds + 1), off(rounds + 1);
    for (unsigned i = 0; i <= rounds; i++) { to[i] = g.one<int>({-1, 20, -7, 3600, 0x7fffffff}); off[i] = g.one<int>({0, (int)g.u(60), (int)g.u(600), -(int)g.u(60), -(int)g.u(600)}); }
    std::vector<Request *> got(rounds + 1, nullptr); std::vector<double> at(rounds + 1, 0);
    std::atomic<unsigned> back{0};
    std::thread t([&] {
        for (unsigned i = 0; i <= rounds && !stop; i++) {
            while (go <= i && !stop) sched_yield();
            if (stop) break;
            if (off[i] < 0) nap(-off[i]);
            got[i] = c->Pull(to[i]); at[i] = now_s(); back = i + 1;
        }
    });
    MReq h; h.name = "h"; nontrivial(); bool late = false; unsigned i;
    double sent_at = 0;
    for (i = 0; i <= rounds && !late; i++) {
        MReq m; m.name = "q"; m.id = i + 1;
        std::string f = (noise ? enc(h) : "") + enc(m);
        go = i + 1;
        if (off[i] > 0) nap(off[i]);
        sent_at = now_s();
        if (i == rounds) { if (g.flip()) raw->close(); else c->Disconnect(true); } else raw->send_now(f);
        late = !wait_for([&] { return back > i; }, 6);
    }
    if (late) {   // let it go, then judge
        stop = true;
        if (raw->fd >= 0) for (int k = 0; k < 3; k++) { MReq m; m.name = "z"; raw->send_now(enc(m)); nap(20000); }
        wait_for([&] { return back >= i; }, 5);
        if (back < i) c->Disconnect(true);
    }
    F.on = false; 
    if (late && back < i) wait_for([&] { return back >= i; }, 5);
    if (late && back < i) { t.detach(); PBT_LATE("Pull(%d) did not return although a request arrived / the connection ended", to[i - 1]); }
    t.join();
    std::vector<MReq> rs; for (unsigned k = 0; k <= rounds; k++) if (got[k]) { rs.push_back(read_req(got[k])); delete got[k]; } else { MReq n; n.id = 0; rs.push_back(n); }
    if (late) PBT_LATE("round %u: Pull(%d) was still waiting 6 s after %s", i - 1, to[i - 1], i - 1 == rounds ? "the connection had ended" : "a request had arrived");
    for (unsigned k = 0; k < rounds; k++) {
        PBT_CHECK(rs[k].id, "round %u: Pull(%d) returned null although a request arrived and the connection is up", k, to[k]);
        PBT_CHECK(rs[k].id == k + 1, "round %u: Pull returned the request of round %u", k, rs[k].id - 1);
    }
    PBT_CHECK(!rs[rounds].id, "Pull returned a request that was never sent");
    label_faults();
    delete c;
}

// ------------------------------------------------------------------ C12
PBT_PROP(C12, ids, 4000, 100000, 12, 60,
    "generated pushes in all forms (copy, reference, handed over; automatic or given id) from both sides of a connection (client and accepting side), then pushes on ended, disconnecting and never connected connections; automatic ids must be distinct per side and disjoint between sides, given ids sent unchanged, the caller's object unchanged, nothing refused ever delivered, memory freed exactly once (AddressSanitizer, leak count); non-trivial: both sides numbered requests or a push was refused")
{
    static unsigned warm = 0;
    auto body = [&](Gen &g) {
        gen_faults(g, g.u(2));
        std::string path = sock_path("c12"); uint16_t port = 0;
        bool tcp = g.chance(1, 5);
        int lfd = tcp ? tcp_listen(&port) : unix_listen(path);
        {
            Client cl;
            auto refuse = [&](Connection *c, const char *state) {
                MReq m = tagged(0xdead, 1, g.u(20)); m.id = 99;
                Request r; build_into(r, m);
                std::string before = enc(read_req(&r));
                switch (g.u(2)) {
                    case 0: { Request *x = c->Push(&r, true, g.one<int>({0, 1, -1}), g.flip()); PBT_CHECK(!x, "Push on a %s connection returned a request", state); break; }
                    case 1: { Request *x = c->Push(make(m), false, 0, g.flip()); PBT_CHECK(!x, "Push on a %s connection returned a request", state); break; }
                    default: { Request *x = c->Push(r, 0, g.flip()); PBT_CHECK(!x, "Push on a %s connection returned a request", state); break; }
                }
                PBT_CHECK(enc(read_req(&r)) == before, "a refused Push changed the caller's request");
                label("refused push");
            };
            if (g.flip()) refuse(&cl, "never connected");
            unsigned rounds = 1 + g.u(1);
            for (unsigned round = 0; round < rounds; round++) {
                bool up = false;
                std::thread t([&] { up = tcp ? cl.ConnectTcp(lo(), port, 20) : cl.ConnectUnix(path, 20); });
                int s = raw_accept(lfd); t.join();
                PBT_CHECK(up, "connecting to a listening endpoint failed");
                // the accepting side is a raw peer or a Connection
                bool libpeer = g.flip();
                std::unique_ptr<Raw> raw; Connection *b = nullptr;
                if (libpeer) { disown(s); b = conn_on(s); b->SetMaxRequestSize(1 << 20); } else raw.reset(new Raw(s));
                cl.SetMaxRequestSize(1 << 20);
                Inbox ia{&cl, true}, ib{b, true};
                std::vector<std::string> fa, fb; std::vector<bool> aa, ab;
                unsigned n = g.one<unsigned>({3, 10, 40});
                for (unsigned i = 0; i < n; i++) {
                    bool from_b = b && g.flip();
                    Connection *c = from_b ? b : &cl;
                    MReq m = gen_req(g, 2000); m.id = g.num(32);
                    bool au = g.flip();
                    switch (g.u(2)) {
                        case 0: { Request r; build_into(r, m); std::string before = enc(read_req(&r)); c->Push(&r, true, 0, au);
                            PBT_CHECK(enc(read_req(&r)) == before, "pushing a copy changed the caller's request: %s", frame_diff(enc(read_req(&r)), before).c_str()); break; }
                        case 1: c->Push(make(m), false, 0, au); break;
                        default: { Request r; build_into(r, m); std::string before = enc(read_req(&r)); c->Push(r, 0, au);
                            PBT_CHECK(enc(read_req(&r)) == before, "pushing a reference changed the caller's request: %s", frame_diff(enc(read_req(&r)), before).c_str()); break; }
                    }
                    (from_b ? fb : fa).push_back(enc(m)); (from_b ? ab : aa).push_back(au);
                    if (g.chance(1, 5)) pump_all();
                }
                wait_until([&] { ia.collect(); if (b) ib.collect(); return (b ? ib.got : raw->frames).size() >= fa.size() && ia.got.size() >= fb.size(); }, "arrival of all pushed requests");
                std::set<uint32_t> ida, idb;
                auto check = [&](const std::vector<std::string> &got, const std::vector<std::string> &want, const std::vector<bool> &au, std::set<uint32_t> &ids, const char *dir) {
                    PBT_CHECK(got.size() == want.size(), "%s: %zu requests arrived, %zu were pushed", dir, got.size(), want.size());
                    for (size_t i = 0; i < got.size(); i++) {
                        check_frame(got[i], want[i], au[i], i, dir);
                        if (au[i]) PBT_CHECK(ids.insert(id_of(got[i])).second, "%s: automatic id %u used twice", dir, id_of(got[i]));
                    }
                };
                check(b ? ib.got : raw->frames, fa, aa, ida, "client to acceptor");
                check(ia.got, fb, ab, idb, "acceptor to client");
                for (uint32_t x : ida) PBT_CHECK(!idb.count(x), "both sides numbered a request %u", x);
                if (!ida.empty() && !idb.empty()) { nontrivial(); label("both sides numbered"); }
                // disconnecting: the peer does not read, so that the graceful end has to wait
                bool stall = raw && g.flip();
                size_t expect = fa.size();
                if (stall) {
                    raw->reading = false;
                    unsigned k = 0; for (; k < 3; k++) { cl.Push(make(tagged(5, k, 300000)), false, 0, true); }
                    if (F.send_cap && F.send_cap < 1000) F.send_cap = 1000, F.cap_random = false;
                    expect += k;
                    cl.Disconnect(false);
                    for (unsigned q = 1 + g.u(2); q--;) refuse(&cl, "disconnecting");
                    raw->reading = true; raw->read_chunk = 65536;
                    wait_until([&] { return raw->ended(); }, "graceful end");
                    label("refused while disconnecting"); nontrivial();
                } else if (g.flip()) cl.Disconnect(true); else if (raw) raw->close(); else b->Disconnect(true);
                cl.WaitForStop(-1);
                for (unsigned q = g.u(2); q--;) { refuse(&cl, "ended"); nontrivial(); }
                if (raw && raw->fd >= 0) {
                    wait_until([&] { return raw->ended(); }, "end of stream");
                    PBT_CHECK(raw->frames.size() <= expect, "a refused push was delivered: %s", show(parse(raw->frames.back())).c_str());
                }
                if (b) { b->WaitForStop(-1); if (g.flip()) refuse(b, "ended"); delete b; }
                label_faults(); F.on = false;
            }
        }
        hclose(lfd);
        if (!tcp) unlink(path.c_str());
    };
    body(g);
    (void)warm;
}

PBT_PROP(C12, many, 10, 200, 8, 100,
    "more than 70000 automatically numbered pushes from one side (crossing 16-bit ids) and several thousand from the other; all ids distinct and disjoint; non-trivial: always")
{
    int sv[2]; unix_pair(sv);
    Raw raw(sv[1]); raw.keep_times = false;
    Connection *c = conn_on(sv[0]);
    unsigned n = 66000 + g.u(12000);
    std::set<uint32_t> ids; size_t seen = 0;
    MReq m; m.name = "n";
    Request proto; build_into(proto, m);
    for (unsigned i = 0; i < n; i++) {
        c->Push(proto, 0, true);
        if (i % 512 == 511) { wait_until([&] { return raw.frames.size() + 20000 > i - seen; }, "reading"); for (auto &f : raw.frames) PBT_CHECK(ids.insert(id_of(f)).second, "automatic id %u used twice among %zu", id_of(f), ids.size()); seen += raw.frames.size(); raw.frames.clear(); raw.in.erase(0, raw.parsed); raw.parsed = 0; }
    }
    wait_until([&] { return seen + raw.frames.size() >= n; }, "arrival of all pushed requests", 40);
    for (auto &f : raw.frames) PBT_CHECK(ids.insert(id_of(f)).second, "automatic id %u used twice among %zu", id_of(f), ids.size());
    PBT_CHECK(ids.size() == n, "%zu requests arrived, %u pushed", ids.size(), n);
    nontrivial(); labeln("requests", n);
    delete c;
}

// ------------------------------------------------------------------ C13
PBT_PROP(C13, flush, 5000, 250000, 12, 60,
    "generated pushes, then one or more graceful disconnections (from the application, from a handler, with an empty queue, with later pushes and configuration changes), against a raw or library peer that reads slowly, starts late and may be sending itself; exactly the pushed requests arrive, then end of stream, and the connection stops by itself; non-trivial: the socket buffers could not hold what was left, or it ran in a handler, was repeated or had nothing to send")
{
    gen_faults(g, g.u(3));
    Link l = make_link(g);
    unsigned from = g.u(1);    // 0 application, 1 handler
    bool libpeer = g.chance(1, 4);
    // (over TCP, the keep-alive of the peer arriving last makes the kernel drop the tail, see C13.tcp)
    if (libpeer && l.tcp) F.fast_sa = 0;
    std::unique_ptr<Raw> raw; Connection *b = nullptr;
    Connection *c = first(l);
    uint32_t bs = gen_block(g); c->SetSendBlockSize(bs);
    bool slowio = bs < 20 || (F.send_cap && F.send_cap < 20) || F.eintr == 2 || F.eagain == 2;
    if (libpeer) { b = conn_on(l.b); b->SetMaxRequestSize(1 << 20); b->SetHandlerDefault(H[1]); } else raw.reset(new Raw(l.b));
    std::vector<std::string> want;
    // the peer may be sending all the time (UNIX sockets only: TCP may drop the tail then)
    bool noisy = raw && !l.tcp && g.chance(1, 3);
    bool chatty = libpeer && !l.tcp && g.flip();    // ... or a peer connection pushing
    size_t chat_len = chatty ? g.one<size_t>({20, 3000, 100000}) : 0; unsigned chat_left = 40;
    auto chat = [&] { if (!chatty || !chat_left || !b->IsConnected()) return; chat_left--; Request r("chat"); ValueStr v(std::string(chat_len, 'c')); r.Set("v", v); b->Push(r); };
    if (chatty) { c->SetMaxRequestSize(1 << 20); label("the peer is pushing too"); for (unsigned k = g.u(3); k--;) chat(); }
    if (raw) {
        raw->read_chunk = slowio ? 65536 : g.one<size_t>({65536, 30000, 5000});
        if (g.flip()) raw->reading = false;
    }
    unsigned n = g.chance(1, 6) ? 0 : 1 + g.u(g.one<unsigned>({2, 10, 40}));
    size_t bytes = 0;
    std::vector<MReq> list;
    for (unsigned i = 0; i < n; i++) {
        MReq m = tagged(1, i, g.chance(1, 3) ? g.size(slowio ? 2000 : g.one<size_t>({300, 20000, 300000})) : 0);
        if (bytes + enc(m).size() > (slowio ? 8000 : 1500000)) break;
        bytes += enc(m).size(); list.push_back(m); want.push_back(enc(m));
    }
    if (bytes > 400000) { label("more than the socket buffers hold"); nontrivial(); }
    if (list.empty()) { label("nothing to send"); nontrivial(); }
    bool early = g.flip();       // let the queue drain first sometimes
    unsigned repeat = g.weighted({4, 2, 1});
    bool after = g.flip();
    note("%zu requests %zu bytes from %s%s%s%s %s", list.size(), bytes, from ? "handler" : "application", libpeer ? " to a connection" : "", noisy ? " noisy peer" : "", l.tcp ? " tcp" : "", show_faults().c_str());
    auto go = [&](Connection *c) {
        for (auto &m : list) { Request r; build_into(r, m); c->Push(r, 0, false); }
        if (early && list.size() && g.flip()) nap(500);
        c->Disconnect(false);
        for (unsigned k = 0; k < repeat; k++) c->Disconnect(false);
        if (after) { c->Push(make(tagged(9, 9)), false); Request r("late"); c->Push(r); c->Push(&r, true, 0, false); }
    };
    std::atomic<bool> went{false};
    unsigned lag = chatty ? g.one<unsigned>({0, 200, 1000}) : 0;    // handler time of the peer
    on_request = [&](Connection *cc, Request *, int h) { if (h == 0 && !went.exchange(true)) go(cc); if (h == 1 && lag) nap(lag); };
    if (from == 1) {
        c->SetHandlerNamed("go", H[0]);
        MReq m; m.name = "go";
        if (raw) raw->send_now(enc(m)); else { Request r("go"); b->Push(r); }
        label("from a handler"); nontrivial();
        wait_until([&] { return went.load(); }, "the handler being called");
    } else go(c);
    if (repeat) { label("repeated"); nontrivial(); }
    if (after) label("pushes after the disconnection");
    // what the peer says after the disconnection was requested does not matter, as long as it reads
    if (raw && !l.tcp && !noisy) switch (g.weighted({4, 2, 1, 1})) {
        case 1: nap(g.one<unsigned>({0, 20, 200})); wait_for([&] { return raw->sent() || raw->cut; }, 5); raw->shut_wr(); label("the peer ends its direction after the disconnection"); nontrivial(); break;
        case 2: raw->send_now(std::string("\xff\xff\xff\xff", 4)); label("the peer announces too much after the disconnection"); nontrivial(); break;
        case 3: raw->send_now(std::string(4, 0)); label("the peer announces nothing after the disconnection"); nontrivial(); break;
        default: break;
    }
    if (g.chance(1, 6)) { c->SetTheirNaIntervalLimit(60); c->SetOurSaInterval(30); }
    if (raw && !raw->reading) { nap(g.u(3000)); raw->reading = true; label("reader starts late"); }
    MReq nm; nm.name = "noise"; std::string noise = enc(nm);
    Async w; w.stop(c, -1);
    size_t sent = 0;
    wait_until([&] {
        if (noisy && raw->sent() && sent < 200000 && !raw->ended()) { raw->send(noise); sent += noise.size(); }
        if (raw) return raw->ended() && w.done.load();
        chat();
        size_t k = 0; for (auto &e : hcopy()) if (e.c == b) k++;
        return (k >= want.size() || !b->IsConnected()) && w.done.load();
    }, "the end of the connection after a graceful disconnection", 30);
    w.t.join();
    PBT_CHECK(w.ok, "WaitForStop(-1) returned false");
    PBT_CHECK(!c->IsConnected(), "the connection is reported connected after its stop");
    std::vector<std::string> got;
    if (raw) { PBT_CHECK(raw->complete(), "the stream ended inside a frame"); got = raw->frames; }
    else { b->WaitForStop(-1); for (auto &e : hcopy()) if (e.c == b) got.push_back(e.enc); }
    for (size_t i = 0; i < got.size() && i < want.size(); i++) if (got[i] != want[i]) PBT_FAIL("request %zu: %s", i, frame_diff(got[i], want[i]).c_str());
    PBT_CHECK(got.size() >= want.size(), "%zu of %zu requests pushed before the graceful disconnection arrived", got.size(), want.size());
    PBT_CHECK(got.size() <= want.size(), "a request pushed after the graceful disconnection arrived: %s", show(parse(got[want.size()])).c_str());
    if (noisy) label("peer sending meanwhile");
    label_faults();
    delete c; delete b;
}

PBT_PROP(C13, slow, 350, 9000, 64, 75,
    "graceful disconnection with 1-3 s silence limits of the disconnecting side while the peer reads slowly (total longer than the limit, every pause shorter) and may itself stay silent; everything must be delivered; non-trivial: flushing took longer than the silence limit")
{
    Link l = make_link(g, false);
    if (!l.made) set_bufs(l.a, 20000, 20000); set_bufs(l.b, 20000, 20000);
    std::unique_ptr<Raw> raw(new Raw(l.b));
    Connection *c = first(l);
    int na = 1 + g.u(1);
    c->SetTheirNaIntervalLimit(na);
    c->SetSendBlockSize(g.one<uint32_t>({1024, 20000, 300}));
    std::vector<std::string> want;
    unsigned n = 3 + g.u(5);
    for (unsigned i = 0; i < n; i++) { MReq m = tagged(1, i, 150000 + g.u(150000)); want.push_back(enc(m)); Request r; build_into(r, m); c->Push(r, 0, false); }
    size_t total = 0; for (auto &f : want) total += f.size();
    raw->reading = false;
    double t0 = now_s();
    c->Disconnect(false);
    // reads a part every ~150 ms so that it lasts longer than the limit
    double lasts = na + 0.5 + g.u(1500) / 1000.0;
    unsigned steps = lasts / 0.12; size_t part = total / steps + 1;
    size_t granted = 0; double gap = 0, lastt = t0;
    raw->reading = true; raw->read_limit = 0;
    while (!raw->ended() && now_s() - t0 < 60) {
        granted = std::min(granted + part, (size_t)1 << 40); raw->read_limit = granted;
        double t = now_s(); gap = std::max(gap, t - lastt); lastt = t;
        for (double e = t + 0.1; now_s() < e && !raw->ended();) { pump_all(); nap(5000); }
        if (granted > total + 1000) raw->read_limit = SIZE_MAX;
    }
    double took = now_s() - t0;
    note("limit %d s, %zu bytes in %.1f s, longest pause %.2f s", na, total, took, gap);
    if (gap > 0.6) { label("not judged: the reader was not scheduled"); delete c; return; }
    if (took > na) { nontrivial(); label("flush longer than the silence limit"); }
    // a stalled machine could make the reader look silent: deadline verdict
    if (raw->frames != want) PBT_LATE("%zu of %zu requests arrived from a gracefully disconnected connection to a slowly reading peer", raw->frames.size(), want.size());
    delete c;
}

// known: over TCP, unread incoming data at close makes the kernel reset the connection
PBT_PROP(C13, tcp, 300, 6000, 8, 60,
    "as flush over TCP with the peer itself sending until the end; losing the tail here is the listed known finding, anything else (wrong, reordered or surplus requests, no end) is judged; non-trivial: always")
{
    int sv[2]; tcp_pair(sv);
    Raw raw(sv[1]); Connection *c = conn_on(sv[0]);
    MReq nm; nm.name = "noise"; std::string noise = enc(nm);
    std::vector<std::string> want;
    unsigned n = 1 + g.u(20);
    raw.reading = g.flip();
    for (unsigned i = 0; i < n; i++) { MReq m = tagged(1, i, g.size(100000)); want.push_back(enc(m)); Request r; build_into(r, m); c->Push(r, 0, false); raw.send_now(noise); }
    c->Disconnect(false);
    raw.send_now(noise); raw.reading = true;
    wait_until([&] { if (raw.sent() && !raw.ended()) raw.send(noise); return raw.ended() && !c->IsConnected(); }, "the end of the connection after a graceful disconnection", 30);
    nontrivial();
    for (size_t i = 0; i < raw.frames.size(); i++) {
        PBT_CHECK(i < want.size(), "surplus request arrived");
        PBT_CHECK(raw.frames[i] == want[i], "request %zu: %s", i, frame_diff(raw.frames[i], want[i]).c_str());
    }
    if (raw.frames.size() < want.size()) {
        PBT_CHECK(raw.reset || raw.cut, "%zu of %zu requests arrived although the connection was not reset", raw.frames.size(), want.size());
        known("graceful disconnection over TCP while the peer is sending loses unread requests (close with unread data resets the connection)");
    }
    delete c;
}

// ------------------------------------------------------------------ C14
// One round: connect a client to the harness's listener, bring the connection into a
// generated state, end it in a generated way, check the end; then the next round must
// start clean.
static void ending_case(Gen &g, bool realtime) {
    gen_faults(g, realtime ? 0 : g.u(3));
    Listener L(g.chance(1, 4));
    if (L.tcp) label("tcp");
    std::unique_ptr<Client> cl(new Client());
    Client &c = *cl;
    c.SetMaxRequestSize(100000);
    if (g.flip()) c.SetSendBlockSize(gen_block(g) | 512);
    if (g.flip()) c.SetRecvBlockSize(gen_block(g));
    c.SetHandlerNamed("S", H[7]);
    size_t nS = 0;
    uint32_t first_id = 0;
    if (F.send_cap && F.send_cap < 500) F.send_cap = 500, F.cap_random = false;   // large unsent data has to be flushed
    unsigned rounds = 2 + g.u(2);
    uint32_t serial = 1;
    for (unsigned round = 0; round < rounds; round++) {
        std::unique_ptr<Raw> raw(new Raw(L.connect(c)));
        // ---- clean start
        PBT_CHECK(!c.WaitForStop(0), "round %u: the stop notification of a new connection is already set", round);
        PBT_CHECK(!c.IsDisconnecting(), "round %u: a new connection is reported disconnecting", round);
        if (Request *r = c.Pull(0)) PBT_FAIL("round %u: a new connection has a request of an old one: %s", round, show(read_req(r)).c_str());
        MReq hello = tagged(round, serial++);
        Request hr; build_into(hr, hello);
        c.Push(hr, 0, true);
        MReq s; s.name = "S"; s.id = serial++;
        raw->send(enc(s)); nS++;
        wait_until([&] { return !raw->frames.empty() && hcount() >= nS; }, "first requests of a new connection in both directions");
        PBT_CHECK(with_id(raw->frames[0], 0) == with_id(enc(hello), 0), "round %u: the first request of a new connection: %s", round, frame_diff(raw->frames[0], enc(hello)).c_str());
        uint32_t id = id_of(raw->frames[0]);
        if (!round) first_id = id;
        else PBT_CHECK(id == first_id, "round %u: the first automatic id is %u, on the first connection it was %u", round, id, first_id);
        PBT_CHECK(raw->frames.size() == 1 && raw->in.find("old") == std::string::npos, "round %u: more than what was pushed was sent", round);
        PBT_CHECK(hcopy().back().enc == enc(s), "round %u: the first request received differs", round);
        PBT_CHECK(c.IsConnected(), "round %u: a new connection ended by itself", round);

        // ---- state at the end
        unsigned unread = g.u(3), unsent = g.u(3);
        bool block = g.flip();       // the peer stops reading
        unsigned end = g.u(realtime ? 7 : 6);
        bool waiter = g.flip(), puller = g.flip() && !unread, watcher = g.flip(), asker = g.chance(1, 3);
        unsigned cut = g.u(3);
        Async w, p, e;
        for (unsigned k = 0; k < unread; k++) { MReq m = tagged(7, serial++, g.u(50), "old"); raw->send(enc(m)); }
        if (unread) { MReq s2; s2.name = "S"; s2.id = serial++; raw->send(enc(s2)); nS++; wait_until([&] { return hcount() >= nS; }, "arrival of a sentinel"); label("unread requests at the end"); }
        if (block) raw->reading = false;
        for (unsigned k = 0; k < unsent; k++) { MReq m = tagged(8, serial++, block ? 400000 : g.u(3000), "old"); Request r; build_into(r, m); c.Push(r); }
        if (block && unsent) label("unsent requests at the end");
        if (waiter) w.stop(&c, -1);
        if (puller) p.pull(&c, -1);
        std::atomic<bool> evdone{false}; std::thread ev;
        if (asker) { MReq m = tagged(9, serial++, 0, "old"); m.id = 4000000000u; e.push(&c, m, -1); label("waiting for a response at the end"); }
        if (watcher) { int fd = c.GetStoppedEvent(); ev = std::thread([&evdone, fd] { pollfd q{fd, POLLIN, 0}; while (R.poll(&q, 1, -1) <= 0); evdone = true; }); }
        if (cut) {   // partial data of the peer
            std::string f = enc(tagged(6, serial++, 200, "old"));
            if (end == 4) {} // a protocol violation needs a frame start
            else { f.resize(cut == 1 ? 1 + g.u(2) : 4 + g.u(f.size() - 5)); raw->send_now(f); label("partial frame at the end"); }
        }
        if (g.flip()) nap(g.u(1500));
        note("round %u: unread %u unsent %u%s cut %u end %u%s%s; ", round, unread, unsent, block ? " blocked" : "", cut, end, waiter ? " waiter" : "", puller ? " puller" : "");
        if (unread || (block && unsent) || cut || waiter || puller || asker) nontrivial();
        bool linger = false;
        double t0 = now_s();
        switch (end) {
            case 0: c.Disconnect(true); label("forced"); break;
            case 1: raw->close(false); label("peer closes"); break;
            case 2: if (L.tcp) { raw->close(true); label("peer resets"); } else raw->close(); break;
            case 3: c.Disconnect(false); if (block && g.flip()) { nap(g.u(1000)); raw->close(g.flip()); label("graceful, peer gone meanwhile"); } else { raw->reading = true; label("graceful"); } break;
            case 4: { raw->send_now(le(100001 + g.u(1 << 30), 4)); raw->reading = g.flip(); linger = true; label("protocol violation"); break; }
            case 5: c.Disconnect(true, true); label("forced, waiting"); PBT_CHECK(!c.IsConnected(), "connected after Disconnect(forced, wait)"); break;
            case 6: c.Disconnect(false); if (g.flip()) nap(g.u(500)); c.Disconnect(true); label("graceful, then forced"); break;
            default: c.SetTheirNaIntervalLimit(1); label("silence"); raw->reading = g.flip(); linger = true; break;
        }
        (void)linger;
        // ---- the end
        wait_until([&] { return !c.IsConnected(); }, "the connection being reported disconnected", 25);
        bool ok = c.WaitForStop(20);
        if (!ok) PBT_LATE("the stop notification did not come within 20 s after the end");
        PBT_CHECK(!c.IsConnected(), "connected after the stop notification");
        PBT_CHECK(c.GetType() == SocketTypeUndefined, "GetType() is %u after the stop notification", c.GetType());
        if (waiter) { w.join("WaitForStop(-1) returning"); PBT_CHECK(w.ok, "WaitForStop(-1) returned false"); }
        if (puller) { p.join("Pull(-1) returning at the end of the connection"); PBT_CHECK(!p.res, "Pull(-1) returned a request that was never sent"); }
        if (asker) { e.join("Push(-1) returning at the end of the connection"); PBT_CHECK(!e.res, "Push(-1) returned a response that was never sent"); }
        if (watcher) { wait_until([&] { return evdone.load(); }, "the stop event being signalled"); ev.join(); }
        if (raw->fd >= 0) { raw->reading = true; wait_until([&] { return raw->ended(); }, "the peer seeing the end of stream"); }
        if (end == 7) { PBT_CHECK(now_s() - t0 > 0.99, "disconnected for silence after %.3f s with a limit of 1 s", now_s() - t0); c.SetTheirNaIntervalLimit(60); }
        // calls on the ended connection
        PBT_CHECK(c.WaitForStop(0), "WaitForStop(0) is false on a stopped connection");
        if (g.flip()) { c.Disconnect(g.flip()); c.SetOurSaInterval(10); Request r("x"); c.Push(r); }
        // leave unread requests for the next connection sometimes
        if (unread && g.flip()) {
            int how = g.one({0, 1, -1});
            unsigned k = 0; while (Request *r = c.Pull(k < unread ? how : 0)) { k++; delete r; }
            PBT_CHECK(k == unread, "%u of %u received requests could be pulled after the end", k, unread);
            unread = 0;
        } else if (unread && g.flip()) {
            unsigned k = 1 + g.u(unread - 1);
            for (unsigned i = 0; i < k; i++) { Request *r = c.Pull(-1); PBT_CHECK(r, "%u of %u received requests could be pulled after the end", i, unread); delete r; }
            unread -= k;
        }
        // nothing is left and nothing will come
        if (!unread) {
            Async l; l.pull(&c, g.flip() ? -1 : 60); l.join("a Pull with time on an ended connection returning");
            PBT_CHECK(!l.res, "a Pull on an ended connection without requests returned one");
        }
    }
    label_faults();
    cl.reset();
}
PBT_PROP(C14, endings, 3000, 80000, 16, 60,
    "a client connects to a raw listener 2-4 times; every connection is brought into a generated state (unread requests, unsent data behind a blocked peer, partial frames, threads waiting in Pull, WaitForStop and on the stop event) and ended in a generated way (forced, graceful, both, waiting, peer close, peer reset, protocol violation); the end is checked on both sides and the next connection must start clean (stop notification, queues, first id, first bytes); non-trivial: some such state at an end")
{ ending_case(g, false); }
PBT_PROP(C14, silence, 250, 5000, 64, 75,
    "as endings, with the end by silence (limit 1 s) included; non-trivial as there")
{ ending_case(g, true); }

PBT_PROP(C14, patient, 150, 3000, 64, 60,
    "WaitForStop with a timeout of 1-3 s, a very long one (also where its milli- or microseconds exceed 16, 31 or 32 bits) or a negative one, and a push waiting for a response likewise, while the connection stays up for a while: none returns before its timeout, and all return once the connection has ended; non-trivial: always")
{
    Link l = make_link(g, false);
    std::unique_ptr<Raw> raw(new Raw(l.b)); Connection *c = first(l); nontrivial();
    unsigned n = 1 + g.u(2); std::vector<std::unique_ptr<Async>> v; std::vector<int> to;
    double wait = 0.8 + g.u(2700) / 1000.0, t0 = now_s();
    for (unsigned i = 0; i < n; i++) {
        to.push_back(g.chance(1, 3) ? 1 + (int)g.u(2) : long_timeout(g)); v.emplace_back(new Async());
        if (g.chance(1, 3)) v[i]->push(c, tagged(1, i), to[i]); else v[i]->stop(c, to[i]);
        note("%d ", to[i]);
    }
    wait_for([&] { return now_s() > t0 + wait; }, wait + 5);
    double t1 = now_s();
    for (unsigned i = 0; i < n; i++) if (v[i]->done) PBT_CHECK(to[i] >= 1 && v[i]->took >= to[i] - 0.003 && !v[i]->ok && !v[i]->res, "a call with timeout %d returned %d after %.3f s while the connection was up", to[i], v[i]->ok || v[i]->res, v[i]->took);
    switch (g.u(2)) { case 0: raw->close(); break; case 1: c->Disconnect(true); break; default: c->Disconnect(false); }
    for (unsigned i = 0; i < n; i++) { bool was = v[i]->done; v[i]->join("a waiting call returning after the end"); PBT_CHECK(was || v[i]->took >= t1 - t0 - 0.5 || (to[i] >= 1 && v[i]->took >= to[i] - 0.003), "a call with timeout %d returned after %.3f s", to[i], v[i]->took); }
    delete c;
}

PBT_PROP(C14, churn, 300, 8000, 12, 75,
    "a client reconnects 10-60 times as fast as possible with endings by either side and no pause, pushing before, during and after; every connection must start clean and end; non-trivial: always")
{
    gen_faults(g, g.u(2));
    F.budget_us = 3000000;
    Listener L(g.chance(1, 8));
    Client c;
    unsigned n = 10 + g.u(50);
    nontrivial();
    for (unsigned i = 0; i < n; i++) {
        std::unique_ptr<Raw> raw(new Raw(L.connect(c)));
        Request r("round"); r.Set("i", new Value32U(i), false);
        if (g.flip()) {
            c.Push(r);
            wait_until([&] { return !raw->frames.empty(); }, "the first request of a new connection");
            MReq m = parse(raw->frames[0]);
            PBT_CHECK(m.name == "round" && m.args[0].v.num == i, "round %u: first request is %s", i, show(m).c_str());
        } else c.Push(r);
        switch (g.u(4)) {
            case 0: c.Disconnect(true, true); break;
            case 1: c.Disconnect(false, true); break;
            case 2: raw->close(); c.WaitForStop(-1); break;
            case 3: raw->close(); wait_until([&] { return !c.IsConnected(); }, "the connection being reported disconnected"); break;
            default: c.Disconnect(true); wait_until([&] { return !c.IsConnected(); }, "the connection being reported disconnected"); break;
        }
        for (unsigned k = g.u(2); k--;) c.Push(r);
        pump_all();
        for (auto &f : raw->frames) { MReq m = parse(f); PBT_CHECK(m.args.size() && m.args[0].v.num == i, "round %u received a request of round %llu", i, (unsigned long long)m.args[0].v.num); }
    }
}

// ------------------------------------------------------------------ C15
PBT_PROP(C15, silent, 250, 6000, 64, 75,
    "silence limits of -5 to 3 s set before or during a connection; the peer sends nothing, or bytes (even parts of a frame) and frames at generated moments, then falls silent; strict: never ended earlier than the limit after the last byte; it ends soon after it; non-trivial: data arrived before the silence, or the limit was changed while connected")
{
    Listener L(g.chance(1, 6));
    Client c;
    int lim = g.one<int>({1, 2, 3, 0, -1, -5, 2, 1});
    int eff = std::max(lim, 1);
    bool before = g.flip();
    if (before) c.SetTheirNaIntervalLimit(lim);
    else if (g.flip()) c.SetTheirNaIntervalLimit(4 + g.u(3));
    if (g.flip()) old_life(g, L, c);    // judge a later connection of this client
    double t0 = now_s();
    Raw raw(L.connect(c));
    double last = t0, set_at = t0;
    bool busy = g.chance(1, 3);      // the connection itself keeps sending
    if (!before) { nap(g.u(600000)); last = t0; set_at = now_s(); c.SetTheirNaIntervalLimit(lim); label("limit changed while connected"); nontrivial(); }
    unsigned bursts = g.u(3);
    double gap_max = 0;
    std::string part = enc(tagged(1, 1, 60)); size_t pos = 0;
    for (unsigned k = 0; k < bursts; k++) {
        double wait = g.u(800) / 1000.0;
        for (double e = now_s() + wait; now_s() < e;) { pump_all(); if (raw.ended()) break; if (busy && g.chance(1, 10)) { Request r("busy"); c.Push(r); } nap(20000); }
        if (raw.ended()) break;
        double t = now_s(); gap_max = std::max(gap_max, t - last);
        switch (g.u(2)) {
            case 0: raw.send_now(part.substr(pos, 1)); pos = (pos + 1) % part.size(); break;
            case 1: raw.send_now(part.substr(pos)); pos = 0; break;
            default: if (!pos) raw.send_now(keepalive()); else { raw.send_now(part.substr(pos, 2)); pos += 2; if (pos >= part.size()) pos = 0; } break;
        }
        last = t; label("data before the silence"); nontrivial();
    }
    double base = std::max(last, before || bursts ? last : set_at);
    note("limit %d %s, %u bursts, last data %.2f s", lim, before ? "before" : "during", bursts, last - t0);
    wait_until([&] { if (busy && g.chance(1, 20)) { Request r("busy"); c.Push(r); } return raw.ended(); }, "disconnection of a silent peer", eff + 25);
    double silence = raw.eof_at - last;
    PBT_CHECK(silence >= eff - 0.003, "a peer was disconnected %.3f s after its last data, the limit is %d s", silence, eff);
    if (raw.eof_at - base > eff + 10) PBT_LATE("a silent peer was disconnected %.1f s after its last data or the change, the limit is %d s", raw.eof_at - base, eff);
    wait_until([&] { return !c.IsConnected(); }, "the connection being reported disconnected");
}

PBT_PROP(C15, alive, 250, 6000, 64, 75,
    "keep-alive intervals of -5 to 2 s set before or during a connection to a raw peer that only watches, or sends and is not answered; keep-alive requests must keep coming (generous upper bound), never more often than one per interval (strict, counted over the whole time) and not before the interval has passed since the last thing sent; non-trivial: at least two keep-alive requests were seen")
{
    Listener L(g.chance(1, 6));
    Client c;
    int iv = g.one<int>({1, 2, 0, -1, -5, 1});
    int eff = std::max(iv, 1);
    bool before = g.flip();
    if (before) c.SetOurSaInterval(iv);
    if (g.flip()) old_life(g, L, c);
    double t0 = now_s();
    Raw raw(L.connect(c)); raw.keep_times = true;
    double base = t0;
    if (!before) { nap(g.u(400000)); base = now_s(); c.SetOurSaInterval(iv); label("interval changed while connected"); }
    bool incoming = g.flip();       // received traffic does not make keep-alive unnecessary
    double push_at = g.flip() ? now_s() + g.u(1500) / 1000.0 : 0; double pushed = 0;
    unsigned want = 2 + g.u(1);
    double next = now_s();
    wait_until([&] {
        double t = now_s();
        if (incoming && t > next) { raw.send(keepalive()); next = t + 0.15; }
        if (push_at && t >= push_at) { pushed = t; Request r("data"); c.Push(r); push_at = 0; }
        return raw.keepalives >= want || raw.ended();
    }, "keep-alive requests of an idle connection", want * eff + 25);
    PBT_CHECK(!raw.ended(), "the connection ended");
    double end = now_s();
    // strict: the k-th thing sent after the interval was set cannot come before k intervals of silence
    double ka = raw.times.empty() ? 0 : raw.times[0] - base;
    if (!pushed) for (size_t k = 0; k < raw.times.size(); k++)
        PBT_CHECK(raw.times[k] - base >= (k + 1) * (double)eff - 0.003, "keep-alive %zu came %.3f s after the start, the interval is %d s", k + 1, raw.times[k] - base, eff);
    else {
        // after the push: next keep-alive not before one interval
        for (size_t k = 0; k + 1 < raw.times.size(); k++) if (raw.times[k] >= pushed) {
            PBT_CHECK(raw.times[k + 1] - pushed >= eff - 0.003, "a keep-alive came %.3f s after other traffic, the interval is %d s", raw.times[k + 1] - pushed, eff); break; }
        label("other traffic in between");
    }
    if (end - base > (want + 1) * eff + 12) PBT_LATE("%u keep-alive requests took %.1f s, the interval is %d s", raw.keepalives, end - base, eff);
    note("interval %d %s, first after %.2f s", iv, before ? "before" : "during", ka);
    nontrivial(); label(incoming ? "peer sending" : "peer watching");
}

PBT_PROP(C15, settings, 300, 6000, 64, 75,
    "keep-alive interval and silence limit are set several times before and during a connection (also while the running timers are partly over, to the same, longer, shorter, zero, negative and huge values up to the largest one) at generated moments; getters must tell the setting, the last one must govern: no keep-alive and no silence end before its interval has passed since the last thing sent or received (strict), and they come soon after it when it is short, the connection stays up for 2-4 s when they are long; non-trivial: a setting was changed during the connection")
{
    Listener L(g.chance(1, 6)); Client c;
    if (g.chance(1, 4)) old_life(g, L, c);
    auto value = [&]() -> time_t { switch (g.u(3)) { case 0: return 1 + (time_t)g.u(2); case 1: return g.one<time_t>({1, 2, 0, -1, INT64_MIN, -4294967296, 3}); case 2: return g.one<time_t>({60, 3600, 2147483647, 2147483648, 4294967295, 4294967296, 4294967297, 4294967298, 8589934593, 1LL << 40, (1LL << 40) + 1, 9223372036, 9223372037, 18446744074, INT64_MAX, INT64_MAX - 1, 65536, 65537, 256, 257}); default: return (time_t)g.num(33) + 30; } };
    time_t sa = 10, na = 60; auto eff = [](time_t x) -> double { return x < 1 ? 1 : (double)x; };
    auto set_sa = [&](time_t v) { sa = v; c.SetOurSaInterval(v); PBT_CHECK(c.GetOurSaInterval() == (v < 1 ? 1 : v), "GetOurSaInterval() is %lld after setting %lld", (long long)c.GetOurSaInterval(), (long long)v); note("keep-alive %lld; ", (long long)v); };
    auto set_na = [&](time_t v) { na = v; c.SetTheirNaIntervalLimit(v); PBT_CHECK(c.GetTheirNaIntervalLimit() == (v < 1 ? 1 : v), "GetTheirNaIntervalLimit() is %lld after setting %lld", (long long)c.GetTheirNaIntervalLimit(), (long long)v); note("limit %lld; ", (long long)v); };
    if (g.flip()) set_sa(value());
    if (g.flip()) set_na(value());
    double t0 = now_s();
    Raw raw(L.connect(c)); raw.keep_times = true;
    // Lower bounds of the moments of the last thing sent and received.  A change that returned
    // before the earlier timer could expire leaves no doubt; otherwise one expiry is not judged.
    double sent_lb = t0, in_lb = t0; unsigned sa_free = 0; bool na_free = false; size_t seen = 0; bool judged = false;
    auto scan = [&] {
        pump_all();
        for (; seen < raw.times.size(); seen++) {
            if (sa_free) { sa_free--; continue; }
            PBT_CHECK(raw.times[seen] >= sent_lb + eff(sa) - 0.003, "a keep-alive request came at most %.3f s after the thing sent before it, the interval is %.0f s", raw.times[seen] - sent_lb, eff(sa));
            sent_lb += eff(sa);
        }
        if (raw.ended() && !judged) { judged = true; if (!na_free) PBT_CHECK(raw.eof_at >= in_lb + eff(na) - 0.003, "a peer was disconnected %.3f s after its last data, the limit is %.0f s", raw.eof_at - in_lb, eff(na)); }
        return raw.ended();
    };
    unsigned changes = g.u(4);
    for (unsigned k = 0; k < changes; k++) {
        double e = now_s() + g.u(1300) / 1000.0;
        while (now_s() < e && !scan()) nap(3000);
        if (scan()) break;
        switch (g.u(2)) {
            case 0: { double due = sent_lb + eff(sa); set_sa(value()); if (now_s() >= due - 0.003) sa_free++; nontrivial(); label("keep-alive interval changed"); break; }
            case 1: { double due = in_lb + eff(na); set_na(value()); if (now_s() >= due - 0.003) na_free = true; nontrivial(); label("silence limit changed"); break; }
            default: { double t = now_s(); raw.send_now(keepalive()); if (t < in_lb + eff(na) - 0.5) in_lb = t; break; }
        }
    }
    // from here on the last settings govern
    if (!scan()) {
        bool end = eff(na) < 4, ka = !end && eff(sa) < 4; unsigned had = raw.keepalives;
        double start = now_s(), len = 2 + g.u(2000) / 1000.0;
        wait_until([&] { if (scan()) return true; return end ? false : ka ? raw.keepalives > had : now_s() > start + len; }, end ? "the end of a silent connection after the limit was changed" : "a keep-alive request after the interval was changed", 25);
        double t = now_s() - start;
        if (end && t > eff(na) + 10) PBT_LATE("a silent peer was disconnected %.1f s after the limit was set to %.0f s", t, eff(na));
        if (ka && t > eff(sa) + 10) PBT_LATE("a keep-alive request came %.1f s after the interval was set to %.0f s", t, eff(sa));
        label(end ? "ends for silence" : ka ? "keeps alive" : "long intervals");
    }
    if (raw.ended()) c.WaitForStop(-1);
}

PBT_PROP(C15, busy, 120, 4000, 64, 75,
    "a connection with a keep-alive interval of 1-2 s pushes at gaps of 0.1-0.6 s for 2-4 s: no keep-alive request may appear; judged only when the harness itself was never late; non-trivial: the traffic lasted longer than the interval")
{
    Link l = make_link(g, false);
    Raw raw(l.b); Connection *c = first(l);
    int iv = 1 + g.u(1);
    c->SetOurSaInterval(iv);
    double t0 = now_s(), len = iv + 1 + g.u(1500) / 1000.0, last = t0, worst = 0;
    unsigned n = 0;
    while (now_s() - t0 < len) {
        double wait = 0.1 + g.u(500) / 1000.0;
        for (double e = now_s() + wait; now_s() < e;) { pump_all(); nap(5000); }
        double t = now_s(); worst = std::max(worst, t - last); last = t;
        Request r("data"); c->Push(r); n++;
    }
    wait_until([&] { return raw.frames.size() >= n; }, "arrival of the traffic");
    worst = std::max(worst, now_s() - last);
    note("interval %d s, %u pushes in %.1f s, longest gap %.2f", iv, n, len, worst);
    if (worst < 0.8 * iv) { nontrivial(); if (raw.keepalives) PBT_LATE("%u keep-alive requests although requests were sent at most %.2f s apart (interval %d s)", raw.keepalives, worst, iv); }
    else label("not judged: late harness");
    delete c;
}

PBT_PROP(C15, transfer, 100, 3000, 64, 75,
    "a connection with a keep-alive interval of 1-2 s sends 1-4 requests to a peer that reads steadily but so slowly that each takes 0.5-4 s; data flows all the time, so no keep-alive may appear until an interval after the end; judged only when no gap between arrivals exceeded 0.4 of the interval; non-trivial: the transfer lasted longer than the interval")
{
    // (UNIX only: over TCP the small buffers that are needed here make the data come in bursts)
    int sv[2]; unix_pair(sv); set_bufs(sv[0], 4608, 4608); set_bufs(sv[1], 4608, 4608);
    int iv = 1 + g.u(1);
    Connection *c = conn_on(sv[0]);
    c->SetOurSaInterval(iv); c->SetSendBlockSize(g.one<uint32_t>({1024, 200, 65536}));
    Raw raw(sv[1]); raw.read_chunk = 800 + g.u(1200); unsigned every = 4000 + g.u(6000); bool both = g.flip();
    unsigned n = 1 + g.u(3); double rate = raw.read_chunk * 1e6 / (every + 100); size_t total = 0; uint32_t id = 1;
    for (unsigned i = 0; i < n; i++) { size_t len = rate * (0.5 + g.u(2500) / 1000.0) / n; total += len; c->Push(make(tagged(1, i, len)), false, 0, false); }
    note("interval %d, %u requests, %zu bytes", iv, n, total);
    double t0 = now_s(), last = t0, gap = 0; size_t had = 0;
    while (raw.frames.size() < n && now_s() < t0 + 15 && gap < 0.4 * iv) {
        raw.pump(); double t = now_s(); PBT_CHECK(!raw.ended(), "the connection ended");
        if (raw.in.size() > had) { gap = std::max(gap, t - last); last = t; had = raw.in.size(); } else gap = std::max(gap, t - last);
        if (both && g.chance(1, 20)) raw.send(with_id(enc(tagged(7, id)), 70000 + id)), id++;
        nap(every);
    }
    double dur = now_s() - t0; raw.read_chunk = 65536;
    if (gap >= 0.4 * iv || raw.frames.size() < n) label("not judged: not steady");
    else {
        if (dur > iv) nontrivial();
        double end = last + 0.5 * iv; while (now_s() < end) { raw.pump(); if (now_s() < end) PBT_CHECK(!raw.keepalives, "%u keep-alive requests came with a transfer of %.1f s that never paused for more than %.2f s, interval %d s", raw.keepalives, dur, gap, iv); nap(3000); }
    }
    delete c;
}
PBT_PROP(C15, mutual, 120, 4000, 64, 75,
    "two connections with generated keep-alive intervals, each shorter than the silence limit of the other side, stay connected while idle, with slow handlers or with polling that happens late (injected) as long as data arrives in time, for longer than the limits; non-trivial: always")
{
    Link l = make_link(g, false);
    gen_faults(g, 0);
    unsigned kind = g.u(2);      // 0 idle, 1 slow handler, 2 late polls
    double t0 = now_s();
    nontrivial();
    if (kind == 0) {
        Connection *a = first(l), *b = conn_on(l.b);
        int na = 3 + g.u(1), nb = 3 + g.u(1);
        a->SetTheirNaIntervalLimit(na); b->SetTheirNaIntervalLimit(nb);
        a->SetOurSaInterval(g.u(1)); b->SetOurSaInterval(1);
        double len = std::max(na, nb) + 1.5;
        while (now_s() - t0 < len) { nap(50000); if (!a->IsConnected() || !b->IsConnected()) PBT_LATE("an idle connection with keep-alive 1 s and silence limits %d/%d s ended after %.2f s", na, nb, now_s() - t0); }
        label("idle"); delete a; delete b;
    } else {
        Raw raw(l.b); Connection *a = first(l);
        double hold = kind == 1 ? 1.2 + g.u(900) / 1000.0 : 0;
        if (kind == 1) { on_request = [&](Connection *, Request *r, int) { if (r->GetName() == "slow") nap(hold * 1e6); }; label("slow handler"); }
        else { F.long_poll = 2; F.long_ms = 1100 + g.u(500); F.long_left = 2; F.seed = g.u(UINT32_MAX); F.on = true; label("late polls"); }
        a->SetHandlerDefault(H[0]);
        a->SetTheirNaIntervalLimit(1);
        unsigned n = 0, at = 1 + g.u(3);
        double worst = 0, last = now_s();
        while (now_s() - t0 < 4) {
            double t = now_s(); worst = std::max(worst, t - last); last = t;
            MReq m; m.name = n++ == at && kind == 1 ? "slow" : "x"; raw.send_now(enc(m));
            for (double e = now_s() + 0.2; now_s() < e;) { pump_all(); nap(10000); }
            if (raw.ended()) break;
        }
        if (raw.ended() && worst < 0.6) PBT_LATE("a peer that sent at most %.2f s apart was disconnected as silent after %.2f s (limit 1 s)", worst, raw.eof_at - t0);
        if (kind == 2) { label_faults(); }
        F.on = false;
        delete a;
    }
}

PBT_PROP(C15, rearm, 150, 4000, 64, 75,
    "a keep-alive or silence timer expires and is handled late (injected) while the settings are changed, requests are pushed or data arrives; afterwards the connection must still receive, send and take settings promptly (an ended one: must be fully stopped); non-trivial: an expired timer was handled late")
{
    Link l = make_link(g, false);
    Raw raw(l.b); Connection *c = first(l);
    c->SetHandlerNamed("S", H[7]);
    bool na = g.chance(1, 4);     // the silence timer too
    c->SetOurSaInterval(1);
    if (na) c->SetTheirNaIntervalLimit(1);
    double t0 = now_s();
    F.timer_ms = 100 + g.u(200); F.timer_left = 1 + g.u(1); F.on = true;
    wait_until([&] { return F.n_timer > 0; }, "an expired timer");
    nap(g.u(F.timer_ms * 500));
    int iv = g.one<int>({30, 60, 1, 3600});
    unsigned what = 1 + g.u(6);
    if (what & 1) c->SetOurSaInterval(iv);
    if (what & 2) { Request r("data"); c->Push(r); }
    if (what & 4) raw.send_now(keepalive());
    if (na && g.flip()) c->SetTheirNaIntervalLimit(30);
    note("%s interval %d actions %u after %.2f s", na ? "both timers" : "keep-alive timer", iv, what, now_s() - t0);
    if (F.n_timer) nontrivial();
    nap(F.timer_ms * 1000 + 50000);
    if (na) {      // may have ended, but then completely
        c->SetTheirNaIntervalLimit(30);
        nap(100000);
        pump_all();
    }
    double t = now_s();
    if (!raw.ended()) {
        MReq m; m.name = "S"; m.id = 1; raw.send_now(enc(m));
        size_t had = raw.frames.size(); (void)had;
        wait_until([&] { return raw.ended() || !hcopy().empty(); }, "a request being handled after a timer was restarted", 6);
        if (now_s() - t > 5) PBT_LATE("a request was handled %.1f s after it had been sent", now_s() - t);
        Request r("after"); c->Push(r); t = now_s();
        wait_until([&] { if (raw.ended()) return true; for (auto &f : raw.frames) if (parse(f).name == "after") return true; return false; }, "a request being sent after a timer was restarted", 6);
        if (!na) PBT_CHECK(!raw.ended(), "the connection ended");
        if (iv == 1 && !na) { unsigned k = raw.keepalives; wait_until([&] { return raw.keepalives > k; }, "the next keep-alive request", 12); }
    } else { c->WaitForStop(-1); label("ended"); }
    label_faults();
    F.on = false;
    delete c;
}

// ------------------------------------------------------------------ C21
static void ask_all(Connection *c) {
    c->GetRefs(); c->GetOurSaInterval(); c->GetTheirNaIntervalLimit(); c->GetSendBlockSize(); c->GetRecvBlockSize(); c->GetMaxRequestSize();
    c->GetHandlerDefault(); c->GetHandlerNamed("x"); c->GetType(); c->IsConnected(); c->IsDisconnecting(); c->GetStoppedEvent(); c->WaitForStop(0);
}
PBT_PROP(C21, threads, 1200, 60000, 12, 75,
    "2-6 threads push (automatic and given ids, all forms), pull, take and release references, read and write settings on a connection at once, under seeded delays at locks and system calls, with a library or raw peer; per-thread order, no loss, no duplicate, distinct ids, every received request pulled exactly once; non-trivial: at least two pushing threads and one delay or more than 50 pushes")
{
    gen_faults(g, 2);
    F.budget_us = 2500000;
    Link l = make_link(g);
    bool libpeer = g.flip();
    Connection *a = first(l), *b = nullptr; std::unique_ptr<Raw> raw;
    if (libpeer) { b = conn_on(l.b); b->SetMaxRequestSize(1 << 20); } else raw.reset(new Raw(l.b));
    a->SetMaxRequestSize(1 << 20);
    unsigned np = 1 + g.u(3), nb = g.u(2), nl = g.u(2), per = 5 + g.u(g.one<unsigned>({20, 60, 200}));
    if (!libpeer) nb = 0;
    bool small = (F.recv_cap && F.recv_cap < 10) || (F.send_cap && F.send_cap < 10);
    if (small) per = std::min(per, 30u);
    size_t pad = small ? 20 : g.one<size_t>({0, 30, 2000});
    uint32_t seed = g.u(UINT32_MAX);
    if (np + nb > 1 && (np + nb) * per > 50) nontrivial();
    note("%u+%u pushing threads x %u, %u pulling, %s %s", np, nb, per, nl, libpeer ? "library peer" : "raw peer", show_faults().c_str());
    std::atomic<bool> stop{false};
    std::vector<std::thread> ts;
    std::atomic<unsigned> pushing{np + nb};
    auto pusher = [&](Connection *c, unsigned who) {
        Gen *none = nullptr; (void)none;
        uint64_t x = mix(seed + who);
        for (unsigned i = 0; i < per; i++) {
            x = mix(x);
            MReq m = tagged(who, i, pad ? x % pad : 0);
            switch ((x >> 20) % 3) {
                case 0: { Request r; build_into(r, m); c->Push(&r, true, 0, true); break; }
                case 1: c->Push(make(m), false, 0, true); break;
                default: { Request r; build_into(r, m); c->Push(r, 0, true); break; }
            }
            switch ((x >> 30) % 12) {
                case 0: { SafeConnection s(c); s().GetType(); break; }
                case 1: c->SetSendBlockSize(64 + (x >> 40) % 5000); break;
                case 2: c->SetOurSaInterval(10); break;
                case 3: c->SetHandlerNamed("u" + std::to_string(who), H[5]); break;
                case 4: nap((x >> 40) % 300); break;
                case 5: c->SetHandlerNamed("u" + std::to_string(who), nullptr); c->GetHandlerDefault(); break;
                case 6: ask_all(c); c->SetRecvBlockSize(64 + (x >> 40) % 5000); c->SetTheirNaIntervalLimit(60); break;
                default: break;
            }
        }
        pushing--;
    };
    for (unsigned i = 0; i < np; i++) ts.emplace_back(pusher, a, i);
    for (unsigned i = 0; i < nb; i++) ts.emplace_back(pusher, b, 100 + i);
    // pulling threads on the receiving side (non-blocking, they may compete)
    std::vector<std::vector<std::string>> pulled(nl + 1);
    auto puller = [&](unsigned k, bool block) { Connection *c = b; while (!stop) { Request *r = c->Pull(block ? 1 : 0); if (r) { pulled[k].push_back(enc(read_req(r))); delete r; } else nap(200); } };
    if (libpeer) for (unsigned k = 0; k < nl; k++) ts.emplace_back(puller, k, false);
    std::vector<std::string> agot;
    auto mine = [&] {
        if (libpeer) { while (Request *r = b->Pull(0)) { pulled[nl].push_back(enc(read_req(r))); delete r; } }
        while (Request *r = a->Pull(0)) { agot.push_back(enc(read_req(r))); delete r; }
    };
    wait_until([&] { mine(); return pushing == 0; }, "all pushing threads returning", 45);
    // a last request in each direction proves that everything before it was dispatched
    if (libpeer) {
        b->SetHandlerNamed("S", H[7]); a->SetHandlerNamed("S", H[6]);
        Request s("S"); a->Push(s); b->Push(s);
        wait_until([&] { mine(); return hcount() >= 2; }, "arrival of everything", 45);
        stop = true;
        for (auto &t : ts) t.join();
        mine();
    } else {
        for (auto &t : ts) t.join();
        wait_until([&] { return raw->frames.size() >= np * per; }, "arrival of everything", 45);
    }
    PBT_CHECK(a->IsConnected(), "the connection ended");
    auto check = [&](std::vector<std::vector<std::string>> lists, unsigned first, unsigned count, const char *dir) {
        std::map<uint32_t, std::vector<bool>> seen; std::set<uint32_t> ids;
        size_t total = 0;
        for (auto &v : lists) {
            std::map<uint32_t, int64_t> last;
            for (auto &f : v) {
                uint32_t w, i; PBT_CHECK(untag(f, w, i) && w >= first && w < first + count && i < per, "%s: a request that was not pushed arrived: %s", dir, show(parse(f)).c_str());
                PBT_CHECK(ids.insert(id_of(f)).second, "%s: automatic id %u used twice", dir, id_of(f));
                auto &s = seen[w]; s.resize(per);
                PBT_CHECK(!s[i], "%s: request %u of thread %u arrived twice", dir, i, w); s[i] = true;
                auto it = last.find(w);
                if (it != last.end()) PBT_CHECK(it->second < i, "%s: requests of thread %u out of order: %u after %lld", dir, w, i, (long long)it->second);
                last[w] = i; total++;
            }
        }
        PBT_CHECK(total == (size_t)count * per, "%s: %zu of %u requests arrived", dir, total, count * per);
    };
    if (libpeer) { check(pulled, 0, np, "to the second connection"); check({agot}, 100, nb, "to the first connection"); }
    else check({raw->frames}, 0, np, "to the raw peer");
    label_faults(); F.on = false;
    delete a; delete b;
}

static std::vector<uint32_t> torrent_seen; static std::atomic<size_t> torrent_n;
static void torrent_handler(Connection *, Request *r) { torrent_seen.push_back(r->GetId()); torrent_n++; delete r; }
PBT_PROP(C21, torrent, 150, 6000, 40, 75,
    "at full speed and without delays, the peer sends 2000-40000 tiny requests in bursts while 1-3 threads pull them (without or with waiting), some go to a handler and 0-3 threads push thousands of requests; every thread gets and delivers in order, nothing is lost or doubled; non-trivial: always")
{
    nontrivial();
    Link l = make_link(g, false); Connection *c = first(l); own(l.b);
    torrent_seen.clear(); torrent_n = 0;
    unsigned n = 2000 + g.u(g.one<unsigned>({3000, 10000, 38000})), np = 1 + g.u(2), nq = g.u(3), per = 500 + g.u(4000), every = g.one<unsigned>({0, 2, 7, 100}), burst = g.one<unsigned>({1, 7, 64, 500});
    std::vector<int> how(np); for (auto &h : how) h = g.one<int>({0, 0, 1, -1});
    note("%u requests in bursts of %u, %u pulling, %u pushing x %u", n, burst, np, nq, per); if (l.tcp) label("tcp");
    if (every) c->SetHandlerNamed("h", torrent_handler);
    if (g.flip()) { c->SetRecvBlockSize(1 << 16); c->SetSendBlockSize(1 << 16); }
    std::atomic<size_t> pulled{0}, arrived{0}; std::atomic<unsigned> pushing{nq}; std::atomic<bool> stop{false}, broken{false};
    std::vector<std::vector<uint32_t>> got(np); std::string out; size_t parsed = 0; std::vector<std::pair<uint32_t, uint32_t>> sent;
    size_t want = 0; for (unsigned i = 0; i < n; i++) want += !(every && i % every == 0);
    std::vector<std::thread> ts;
    ts.emplace_back([&] {
        std::string b; unsigned k = 0;
        for (unsigned i = 0; i < n; i++) {
            bool h = every && i % every == 0;
            b += le(11, 4) + le(i + 1, 4) + le(1, 2) + (h ? "h" : "q");
            if (++k == burst || i + 1 == n) { size_t o = 0; while (o < b.size() && !stop) { ssize_t r = R.send(l.b, b.data() + o, b.size() - o, MSG_NOSIGNAL | MSG_DONTWAIT); if (r > 0) o += r; else if (errno != EAGAIN && errno != EINTR) { broken = true; return; } else sched_yield(); } b.clear(); k = 0; }
        }
    });
    ts.emplace_back([&] { static thread_local char b[65536]; while (!stop) { ssize_t r = R.recv(l.b, b, sizeof b, MSG_DONTWAIT); if (r > 0) { out.append(b, r); size_t k = 0; while (out.size() - parsed >= 4) { uint32_t len; memcpy(&len, &out[parsed], 4); if (len < 10 || out.size() - parsed < len) break; parsed += len; k++; } arrived += k; } else if (r == 0) { broken = true; return; } else nap(20); } });
    for (unsigned p = 0; p < np; p++) ts.emplace_back([&, p] { while (!stop && pulled < want) { Request *r = c->Pull(how[p] < 0 && pulled + np < want ? 1 : how[p] > 0 ? 1 : 0); if (r) { got[p].push_back(r->GetName() == "q" ? r->GetId() : 0); delete r; pulled++; } } });
    for (unsigned q = 0; q < nq; q++) ts.emplace_back([&, q] { for (unsigned i = 0; i < per; i++) { Request *r = new Request("p" + std::to_string(q)); r->Set("i", new Value32U(i), false); c->Push(r, false); } pushing--; });
    bool ok = wait_for([&] { return broken || (pulled >= want && torrent_n >= n - want && pushing == 0 && arrived >= (size_t)nq * per); }, 50);
    nap(g.u(300)); stop = true; for (auto &t : ts) t.join();
    PBT_CHECK(!broken, "the connection ended");
    if (!ok) PBT_LATE("%zu of %zu requests pulled, %zu of %zu handled, %zu of %u pushed ones arrived within 50 s", pulled.load(), want, torrent_n.load(), n - want, arrived.load(), nq * per);
    PBT_CHECK(pulled == want && torrent_n == n - want, "%zu requests were pulled and %zu handled, %zu and %zu were sent", pulled.load(), torrent_n.load(), want, n - want);
    std::vector<char> seen(n + 1);
    auto take = [&](uint32_t id, uint32_t &last, bool h, const char *what) {
        PBT_CHECK(id >= 1 && id <= n && (every && (id - 1) % every == 0) == h, "%s: a request that was not sent like this (%u)", what, id);
        PBT_CHECK(!seen[id]++, "%s: request %u came twice", what, id); PBT_CHECK(id > last, "%s: request %u came after %u", what, id, last); last = id;
    };
    for (auto &v : got) { uint32_t last = 0; for (auto id : v) take(id, last, false, "pulled by a thread"); }
    { uint32_t last = 0; for (auto id : torrent_seen) take(id, last, true, "handled"); }
    std::vector<unsigned> next(nq); std::set<uint32_t> ids; size_t o = 0;
    while (o + 4 <= parsed) { uint32_t len; memcpy(&len, &out[o], 4); MReq m = parse(out.substr(o, len)); o += len; if (m.name == "_") continue;
        unsigned q = m.name.size() == 2 && m.name[0] == 'p' ? m.name[1] - '0' : 99; PBT_CHECK(q < nq && m.args.size() == 1, "a request that was not pushed arrived: %s", show(m).c_str());
        PBT_CHECK(m.args[0].v.num == next[q], "thread %u: request %llu arrived, expected %u", q, (unsigned long long)m.args[0].v.num, next[q]); next[q]++;
        PBT_CHECK(ids.insert(m.id).second, "automatic id %u used twice", m.id); }
    for (unsigned q = 0; q < nq; q++) PBT_CHECK(next[q] == per, "thread %u: %u of %u requests arrived", q, next[q], per);
    delete c; hclose(l.b);
}

PBT_PROP(C21, ends, 1800, 60000, 12, 75,
    "threads push, pull and take references on a client while it is disconnected (any way, also repeatedly and from several threads) and immediately reconnected, several times; per connection each thread's requests arrive as an ordered run without duplicates (without gaps before a graceful end), and nothing pushed before a connection was opened appears on it; non-trivial: a push raced with an end (arrived on neither or the later connection)")
{
    gen_faults(g, 2);
    F.budget_us = 2500000;
    Listener L(g.chance(1, 6));
    std::unique_ptr<Client> cl(new Client()); Client &c = *cl;
    c.SetMaxRequestSize(1 << 20);
    unsigned np = 1 + g.u(3), rounds = 2 + g.u(3);
    unsigned pace = g.one<unsigned>({0, 30, 200, 1000});
    std::atomic<unsigned> epoch{0}; std::atomic<bool> stop{false};
    struct P { Spin l; std::vector<unsigned> ret; };      // epoch when push i had returned
    std::vector<P> ps(np);
    std::vector<std::thread> ts;
    uint32_t seed = g.u(UINT32_MAX);
    bool small = (F.recv_cap && F.recv_cap < 10) || (F.send_cap && F.send_cap < 10);
    size_t pad = small ? 10 : pace < 200 ? g.one<size_t>({0, 100}) : g.one<size_t>({0, 100, 20000});
    for (unsigned w = 0; w < np; w++) ts.emplace_back([&, w] {
        uint64_t x = mix(seed + w);
        for (unsigned i = 0; !stop && i < 20000; i++) {
            x = mix(x);
            MReq m = tagged(w, i, pad ? x % pad : 0);
            switch ((x >> 20) % 3) {
                case 0: { Request r; build_into(r, m); c.Push(&r, true, 0, true); break; }
                case 1: c.Push(make(m), false, 0, true); break;
                default: { Request r; build_into(r, m); c.Push(r, 0, true); break; }
            }
            unsigned e = epoch; { Lk k(ps[w].l); ps[w].ret.push_back(e); }
            if ((x >> 30) % 9 == 0) { SafeConnection s(&c); s().IsConnected(); if ((x >> 40) % 4 == 0) nap(100); }
            if ((x >> 34) % 9 == 0) { if (Request *r = c.Pull(0)) delete r; }
            if ((x >> 38) % 9 == 0) { c.SetTheirNaIntervalLimit(60); c.SetOurSaInterval(10); }
            nap(pace + (x >> 44) % (pace + 1));
        }
    });
    unsigned asking = g.u(2);        // threads that ask for everything all the time
    for (unsigned w = 0; w < asking; w++) ts.emplace_back([&] { while (!stop) { ask_all(&c); { SafeConnection s(&c); s().GetRefs(); } c.IsConnecting(); sched_yield(); } });
    bool raced = false;
    note("%u threads, %u rounds, pace %u us, pad %zu %s", np, rounds, pace, pad, show_faults().c_str());
    for (unsigned round = 1; round <= rounds; round++) {
        epoch = round;                      // pushes returned before this belong to earlier connections
        Raw raw(L.connect(c));
        double until = now_s() + g.u(15000) / 1e6;
        wait_for([&] { return now_s() > until; }, 1);
        unsigned end = g.u(3); bool graceful = end == 0;
        std::vector<size_t> sofar(np);
        std::thread other;
        if (graceful) for (unsigned w = 0; w < np; w++) { Lk k(ps[w].l); sofar[w] = ps[w].ret.size(); }
        if (g.chance(1, 3) && end != 2) other = std::thread([&] { c.Disconnect(!graceful); c.IsDisconnecting(); });
        switch (end) {
            case 0: c.Disconnect(false); break;
            case 1: case 3: c.Disconnect(true); break;
            default: raw.reading = false; raw.close(); break;
        }
        if (other.joinable()) other.join();
        wait_until([&] { return !c.IsConnected() && (raw.fd < 0 || raw.ended()); }, "the end of the connection", 40);
        PBT_CHECK(raw.fd < 0 || !graceful || raw.complete() , "a gracefully ended stream was cut inside a frame");
        std::map<uint32_t, int64_t> first, last; std::set<uint32_t> ids;
        for (auto &f : raw.frames) {
            uint32_t w, i; PBT_CHECK(untag(f, w, i) && w < np, "a request that was not pushed arrived: %s", show(parse(f)).c_str());
            PBT_CHECK(ids.insert(id_of(f)).second, "automatic id %u used twice on connection %u", id_of(f), round);
            auto it = last.find(w);
            if (it == last.end()) first[w] = i;
            else PBT_CHECK((int64_t)i == it->second + 1, "connection %u: request %u of thread %u follows request %lld", round, i, w, (long long)it->second);
            last[w] = i;
            unsigned e; { Lk k(ps[w].l); e = i < ps[w].ret.size() ? ps[w].ret[i] : UINT32_MAX; }
            PBT_CHECK(e >= round, "connection %u received request %u of thread %u, whose push had returned before that connection was opened (during %u)", round, i, w, e);
        }
        if (graceful) for (unsigned w = 0; w < np; w++) {
            // pushes of this connection that had returned before the disconnection was requested must be there
            Lk k(ps[w].l);
            for (size_t i = 0; i < sofar[w]; i++) if (ps[w].ret[i] == round && last.count(w) && (int64_t)i > last[w])
                PBT_FAIL("connection %u ended gracefully without request %zu of thread %u, pushed before the disconnection", round, i, w);
        }
        if (!raw.frames.empty()) raced = true;
    }
    if (raced) nontrivial();
    // end while the threads are still at it, then let them go
    stop = true;
    for (auto &t : ts) t.join();
    label_faults(); F.on = false;
    cl.reset();
}

PBT_PROP(C21, cross, 900, 30000, 12, 75,
    "handlers of 2-4 connections push to each other and to themselves, and set and read handlers, intervals, sizes, references and states of each other, often two at the same moment, while application threads push too; everything returns and every message chain completes; non-trivial: messages crossed in both directions")
{
    gen_faults(g, 2);
    F.budget_us = 2000000;
    unsigned pairs = 1 + g.u(1);
    struct E { Connection *c; }; std::vector<Connection *> cs;
    for (unsigned i = 0; i < pairs; i++) { int sv[2]; unix_pair(sv); cs.push_back(conn_on(sv[0])); cs.push_back(conn_on(sv[1])); }
    std::atomic<unsigned> finished{0};
    unsigned chains = 1 + g.u(7), hops = 1 + g.u(12);
    uint32_t seed = g.u(UINT32_MAX);
    bool meet = g.chance(2, 3);    // handlers use each other's connections at the same time
    std::atomic<int> inside{0}; std::atomic<const char *> bad{nullptr};
    if (meet) label("handlers set up each other's connections");
    std::atomic<unsigned> over{0};
    struct Over { std::atomic<unsigned> &o; ~Over() { o++; } };
    on_request = [&](Connection *c, Request *r, int) {
        auto *left = r->Get<Value32U>("a"); if (!left) return;
        Over ov{over};
        uint32_t n = left->Get();
        if (!n) { finished++; return; }
        uint64_t x = mix(seed + r->GetId() * 31 + n);
        Connection *to = cs[x % cs.size()];     // possibly this connection, or one whose own handler is pushing here
        MReq m = tagged(n - 1, r->GetId());
        if ((x >> 20) % 2) to->Push(make(m), false); else { Request q; build_into(q, m); to->Push(q); }
        if (meet && (x >> 40) % 3 == 0) { inside++; for (int k = 0; k < 40 && inside < 2; k++) nap(10); }
        Connection *o = cs[(x >> 8) % cs.size()];
        std::string nm = "unused" + std::to_string((x >> 16) % 3);
        switch (meet ? (x >> 24) % 12 : 11) {
            case 0: o->IsConnected(); o->SetOurSaInterval(10); o->GetRefs(); break;
            case 1: o->SetHandlerNamed(nm, (x >> 30) & 1 ? H[1] : nullptr); break;
            case 2: if (auto h = o->GetHandlerNamed(nm)) if (h != H[1]) bad = "GetHandlerNamed returned a handler that was never set"; break;
            case 3: o->SetHandlerDefault(H[0]); break;
            case 4: if (o->GetHandlerDefault() != H[0]) bad = "GetHandlerDefault did not return the handler"; break;
            case 5: o->SetTheirNaIntervalLimit(30 + (x >> 32) % 30); o->GetTheirNaIntervalLimit(); o->GetOurSaInterval(); break;
            case 6: o->SetMaxRequestSize(1 << 20); o->GetMaxRequestSize(); o->GetSendBlockSize(); o->GetRecvBlockSize(); break;
            case 7: o->IncreaseRefs(); o->DecreaseRefs(); break;
            case 8: if (o->Pull(0)) bad = "Pull returned a request although all are handled"; break;
            case 9: if (o != c) o->WaitForStop(0); o->IsDisconnecting(); o->GetType(); break;
            case 10: o->SetHandlerNamed("unused" + std::to_string((x >> 48)), H[1]); break;
            default: o->IsConnected(); break;
        }
        if (meet && (x >> 40) % 3 == 0) inside--;
    };
    for (auto c : cs) c->SetHandlerDefault(H[0]);
    std::vector<std::thread> ts;
    for (unsigned k = 0; k < chains; k++) ts.emplace_back([&, k] { MReq m = tagged(hops, k); for (int i = 0; i < 3; i++) cs[(k + i) % cs.size()]->Push(make(m), false); });
    for (auto &t : ts) t.join();
    wait_until([&] { return finished >= chains * 3; }, "all chains of handler pushes completing", 40);
    wait_until([&] { return over >= chains * 3 * (hops + 1); }, "all handlers returning", 40);
    nap(200);
    PBT_CHECK(finished == chains * 3, "%u chains finished, %u were started", finished.load(), chains * 3);
    PBT_CHECK(!bad.load(), "%s", bad.load());
    nontrivial(); label_faults(); F.on = false;
    on_request = nullptr;
    for (auto c : cs) delete c;
}

// ------------------------------------------------------------------ C24
PBT_PROP(C24, response, 3000, 40000, 48, 60,
    "1-5 threads push requests with timeouts (1-2 s, 30 s, unlimited, none; ids chosen by the connection or by the application) to a raw peer that answers in generated order: at once, late, after the timeout, twice, with another id, with the keep-alive name, not at all, or disconnects, interleaved with other traffic for pulls and handlers; oracle: a response is returned by the push that waits for its id and delivered nowhere else, everything else is delivered once in order, null comes once the timeout has passed (not before) or when the connection has ended; non-trivial: a response was sent while somebody waited")
{
    gen_faults(g, g.u(2)); F.budget_us = 600000;
    if (F.recv_cap && F.recv_cap < 4) F.recv_cap = 4;
    if (F.send_cap && F.send_cap < 4) F.send_cap = 4;
    bool tcp = g.chance(1, 8);
    int sv[2]; if (tcp) tcp_pair(sv); else unix_pair(sv);
    auto raw = std::make_unique<Raw>(sv[1]); Connection *c = conn_on(sv[0]);
    struct W { unsigned k; int to; bool copy, change; uint32_t own; std::thread t; std::atomic<bool> done{false}; Request *res = nullptr; double took = 0; uint32_t id = 0; bool seen = false, answered = false, in_time = false; std::string ans; double sent_at = 0; };
    std::vector<std::unique_ptr<W>> ws; std::vector<std::string> others;     // expected from Pull / handler, in order
    std::string expect_h; size_t handled = 0;
    bool with_handler = g.flip(), dflt = g.chance(1, 5);
    std::vector<std::string> for_handler;
    if (with_handler) c->SetHandlerNamed("H", H[0]);
    if (dflt) c->SetHandlerDefault(H[1]);
    auto route = [&](const MReq &m) { if (with_handler && m.name == "H") for_handler.push_back(enc(m)); else if (dflt) for_handler.push_back(enc(m)); else others.push_back(enc(m)); };
    unsigned n = 1 + g.u(4), pushed = 0; uint32_t serial = 100;
    size_t frame_at = 0;
    auto scan = [&] {       // ids under which the requests arrive
        for (; frame_at < raw->frames.size(); frame_at++) {
            uint32_t a, b; MReq m = parse(raw->frames[frame_at]);
            PBT_CHECK(untag(m, a, b) && a == 7 && b < ws.size(), "an unexpected request arrived: %s", show(m).c_str());
            W &w = *ws[b]; PBT_CHECK(!w.seen, "a pushed request arrived twice"); w.seen = true; w.id = m.id;
            if (!w.change) PBT_CHECK(m.id == w.own, "the id %u was changed to %u against the wish", w.own, m.id);
        }
    };
    bool ended = false; double end_at = 0; bool graceful = false;
    auto answer = [&](W &w) {
        MReq m = tagged(9, serial++, g.chance(1, 6) ? g.size(5000) : 0, with_handler && g.flip() ? "H" : "t"); m.id = w.id;
        raw->send_now(enc(m));
        if (!w.answered && w.to) { w.answered = true; w.ans = enc(m); w.sent_at = now_s(); nontrivial(); return false; }
        route(m); return true;
    };
    unsigned steps = 4 + g.u(14);
    bool quick = g.chance(3, 4);       // mostly no timeouts that have to be sat out
    for (unsigned q = 0; q < steps && !ended; q++) {
        switch (g.weighted({5, 5, 4, 2, 1, 1, 1})) {
            case 0: if (pushed < n) {
                ws.emplace_back(new W()); W &w = *ws.back(); w.k = pushed++; w.to = quick ? g.one<int>({30, -1, 100000, 0, 4294968, INT32_MAX, -2, INT32_MIN}) : g.one<int>({1, 30, -1, 2, 0}); w.copy = g.flip(); w.change = g.chance(3, 4); w.own = 1000001 + 2 * w.k;
                MReq m = tagged(7, w.k, g.chance(1, 6) ? g.size(20000) : 0); m.id = w.change ? (uint32_t)g.u(5) : w.own;
                note("push%d ", w.to);
                W *p = &w; unsigned form = g.u(2);
                w.t = std::thread([p, m, c, form] { double s = now_s();
                    if (form == 0) { Request r; build_into(r, m); p->res = c->Push(r, p->to, p->change); } else if (form == 1) { Request r; build_into(r, m); p->res = c->Push(&r, true, p->to, p->change); } else p->res = c->Push(make(m), false, p->to, p->change);
                    p->took = now_s() - s; p->done = true; });
                if (g.flip()) { wait_until([&] { scan(); return w.seen; }, "arrival of a pushed request"); if (w.to > 2 || w.to < 0) PBT_CHECK(!w.done, "Push(timeout %d) returned although there was no response", w.to); }
            } break;
            case 1: { scan(); std::vector<W *> v; for (auto &w : ws) if (w->seen && !w->answered && w->to && !w->done) v.push_back(w.get());
                if (v.empty()) break;
                W &w = *v[g.u(v.size() - 1)];
                if (w.to == 1 || w.to == 2) {   // in time or not, decided by the outcome
                    if (g.flip()) { wait_until([&] { return w.done.load(); }, "a push timing out", w.to + 20); PBT_CHECK(!w.res && w.took >= w.to - 0.01, "Push(timeout %d) returned %s after %.3f s without a response", w.to, w.res ? "something" : "null", w.took); w.to = 0; answer(w); label("answered after the timeout"); }
                    else answer(w);
                } else { answer(w); note("answer "); label("answered"); if (g.chance(1, 4)) { wait_until([&] { return w.done.load(); }, "a push returning its response"); w.to = 0; answer(w); label("answered twice"); } }
                break; }
            case 2: { MReq m = tagged(8, serial++, 0, with_handler && g.flip() ? "H" : "t"); bool clash = true; while (clash) { m.id = 500000 + g.u(1000); clash = false; for (auto &w : ws) clash |= w->id == m.id; } raw->send_now(enc(m)); route(m); note("other "); break; }
            case 3: { // a keep-alive under a waiting id is not a response
                scan(); MReq m; m.name = "_"; for (auto &w : ws) if (w->seen && !w->answered) m.id = w->id; raw->send_now(enc(m)); label("keep-alive with a waiting id"); break; }
            case 4: nap(g.u(3000)); break;
            case 5: { W *last = nullptr; for (auto &w : ws) if (w->to && w->answered) last = w.get(); if (last) { wait_until([&] { return last->done.load(); }, "a push returning its response"); PBT_CHECK(last->res || (last->to > 0 && last->to <= 2), "a push returned null although its response was sent"); } break; }
            default: if (g.chance(1, 2) && !others.empty() && !dflt) { Request *r = c->Pull(20); PBT_CHECK(r && enc(read_req(r)) == others.front(), "Pull returned something else than expected"); delete r; others.erase(others.begin()); label("pulled meanwhile"); } break;
        }
    }
    // the end: everything that waits is answered, or the connection ends
    scan();
    bool end = g.flip();
    if (!end) {
        for (auto &w : ws) { W *p = w.get(); wait_until([&] { scan(); return p->seen; }, "arrival of a pushed request"); if (p->to && !p->answered && !p->done && p->to != 1 && p->to != 2) answer(*p); }
    } else {
        for (auto &w : ws) { W *p = w.get(); wait_until([&] { scan(); return p->seen; }, "arrival of a pushed request"); }
        wait_until([&] { return raw->sent(); }, "harness: sending");
        // responses sent before are received before the end of the stream
        for (auto &w : ws) { W *p = w.get(); if (p->answered && p->to) wait_until([&] { return p->done.load(); }, "a push returning its response"); }
        unsigned how = g.u(2); note("end%u ", how); end_at = now_s();
        if (how == 0) raw->close(tcp); else c->Disconnect(how == 1);
        label("ended while waiting");
    }
    for (auto &w : ws) { W *p = w.get(); wait_until([&] { return p->done.load(); }, "Push returning", (p->to > 0 && p->to <= 2 ? p->to : 0) + 25); p->t.join(); }
    for (auto &w : ws) {
        if (!w->to) { PBT_CHECK(w->answered || !w->res, "a push without a timeout returned something"); if (!w->answered) continue; }
        if (w->answered) {
            if (w->res) PBT_CHECK(enc(read_req(w->res)) == w->ans, "Push returned something else than the response: %s", show(read_req(w->res)).c_str());
            else { PBT_CHECK((w->to == 1 || w->to == 2) && w->took >= w->to - 0.01, "Push(timeout %d) returned null after %.3f s although the response had been sent", w->to, w->took); route(parse(w->ans)); label("not judged: response at the timeout"); }
        } else if (w->to) {
            PBT_CHECK(!w->res, "a response from nowhere: %s", show(read_req(w->res)).c_str());
            if (!end) PBT_CHECK(w->to > 0 && w->took >= w->to - 0.01, "Push(timeout %d) returned null after %.3f s on a working connection", w->to, w->took);
        }
    }
    // nothing else was taken or delivered twice; order is judged unless a late response came in between
    std::vector<std::string> got; bool ordered = true;
    if (!end) { MReq m = tagged(8, 99999, 0, "fin"); m.id = 7777777; raw->send_now(enc(m)); route(m); std::string fin = enc(m);
        if (dflt) wait_until([&] { for (auto &r : hcopy()) if (r.enc == fin) return true; return false; }, "delivery of the last request");
        else { for (;;) { Request *r = c->Pull(20); if (!r) PBT_LATE("Pull(20) returned nothing although a request was sent"); got.push_back(enc(read_req(r))); delete r; if (got.back() == fin) break; } PBT_CHECK(!c->Pull(0), "one request too many"); } }
    else { c->WaitForStop(20); for (;;) { Request *r = c->Pull(0); if (!r) break; got.push_back(enc(read_req(r))); delete r; } }
    std::vector<std::string> hgot; for (auto &r : hcopy()) hgot.push_back(r.enc);
    for (auto &w : ws) if (w->answered && !w->res) ordered = false;
    if (!ordered) { std::sort(others.begin(), others.end()); std::sort(got.begin(), got.end()); std::sort(for_handler.begin(), for_handler.end()); std::sort(hgot.begin(), hgot.end()); }
    if (!end) {
        PBT_CHECK(got == others, "%zu requests were pulled, %zu were expected to be, or others than expected", got.size(), others.size());
        PBT_CHECK(hgot == for_handler, "%zu requests got to handlers, %zu were expected to, or others than expected", hgot.size(), for_handler.size());
    } else {
        for (auto &w : ws) if (w->answered && w->res) for (auto *v : {&got, &hgot}) for (auto &x : *v) PBT_CHECK(x != w->ans, "a response was returned and delivered");
        PBT_CHECK(got.size() <= others.size() && hgot.size() <= for_handler.size(), "more was delivered than was sent");
    }
    label_faults(); F.on = false;
    for (auto &w : ws) delete w->res;
    raw.reset(); delete c;
}

// ------------------------------------------------------------------ C27
struct Settings {
    uint32_t sb = 1024, rb = 1024, max = 16384; time_t sa = 10, na = 60; RequestHandler def = nullptr; std::map<std::string, RequestHandler> named; void *data = nullptr; std::string tag; uint32_t id = 0; uint32_t refs = 0;
};
static const char *S_NAMES[] = {"a", "A", "ab", "", "a\0b", "_", "name with spaces", "0123456789012345678901234567890123456789"};
static std::string s_name(unsigned i) { return i == 4 ? std::string("a\0b", 3) : S_NAMES[i]; }
static void s_check(Connection &c, const Settings &s, const char *when) {
    PBT_CHECK(c.GetSendBlockSize() == s.sb, "%s: GetSendBlockSize() is %u, expected %u", when, c.GetSendBlockSize(), s.sb);
    PBT_CHECK(c.GetRecvBlockSize() == s.rb, "%s: GetRecvBlockSize() is %u, expected %u", when, c.GetRecvBlockSize(), s.rb);
    PBT_CHECK(c.GetMaxRequestSize() == s.max, "%s: GetMaxRequestSize() is %u, expected %u", when, c.GetMaxRequestSize(), s.max);
    PBT_CHECK(c.GetOurSaInterval() == s.sa, "%s: GetOurSaInterval() is %lld, expected %lld", when, (long long)c.GetOurSaInterval(), (long long)s.sa);
    PBT_CHECK(c.GetTheirNaIntervalLimit() == s.na, "%s: GetTheirNaIntervalLimit() is %lld, expected %lld", when, (long long)c.GetTheirNaIntervalLimit(), (long long)s.na);
    PBT_CHECK(c.GetHandlerDefault() == s.def, "%s: another default handler", when);
    for (unsigned i = 0; i < 8; i++) { auto it = s.named.find(s_name(i)); PBT_CHECK(c.GetHandlerNamed(s_name(i)) == (it == s.named.end() ? nullptr : it->second), "%s: another handler of '%s'", when, hex(s_name(i)).c_str()); }
    PBT_CHECK(c.GetSessionData<char>() == s.data, "%s: another session data", when);
    PBT_CHECK(c.tag == s.tag && c.id == s.id, "%s: another tag or id", when);
    PBT_CHECK(c.GetRefs() == s.refs, "%s: %u references, expected %u", when, c.GetRefs(), s.refs);
}
static void s_change(Gen &g, Connection &c, Settings &s) {
    static char cell[8]; unsigned w = g.u(9); note("set%u ", w);
    switch (w) {
        case 0: { uint32_t v = g.num(32); c.SetSendBlockSize(v); s.sb = v < 1 ? 1 : v; break; }
        case 1: { uint32_t v = g.num(32); c.SetRecvBlockSize(v); s.rb = v < 1 ? 1 : v; break; }
        case 2: { uint32_t v = g.flip() ? g.u(30) : g.num(32); c.SetMaxRequestSize(v); s.max = v < 10 ? 10 : v; break; }
        case 3: { time_t v = g.flip() ? (time_t)g.one<int64_t>({0, -1, INT64_MIN, INT64_MAX, -1000000007}) : 30 + g.num(40); c.SetOurSaInterval(v); s.sa = v < 1 ? 1 : v; break; }
        case 4: { time_t v = 30 + (time_t)g.num(40); c.SetTheirNaIntervalLimit(v); s.na = v; break; }
        case 5: { auto h = g.chance(1, 3) ? nullptr : H[g.u(NH - 1)]; c.SetHandlerDefault(h); s.def = h; break; }
        case 6: { auto h = g.chance(1, 3) ? nullptr : H[g.u(NH - 1)]; std::string n = s_name(g.u(7)); c.SetHandlerNamed(n, h); if (h) s.named[n] = h; else s.named.erase(n); break; }
        case 7: { char *p = g.chance(1, 3) ? nullptr : cell + g.u(7); c.SetSessionData(p); s.data = p; break; }
        case 8: s.tag = g.bytes(g.size(60)); c.tag = s.tag; break;
        default: s.id = g.num(32); c.id = s.id; break;
    }
}
PBT_PROP(C27, settings, 10000, 300000, 12, 60,
    "2-4 connections (clients never connected, connected, ended and connected again; connections on sockets): generated sequences of changes of every setting - also inside a handler - with traffic, endings and reconnections between them; after every step every getter of every connection is compared with a model; non-trivial: a setting was changed on one connection and another one was compared")
{
    gen_faults(g, g.u(2)); F.budget_us = 300000;
    struct One { std::unique_ptr<Connection> c; Client *cl = nullptr; std::unique_ptr<Raw> raw; Settings s; std::vector<std::unique_ptr<SafeConnection>> refs; };
    std::vector<std::unique_ptr<One>> v; Listener L(g.chance(1, 4));
    auto all = [&](const char *when) { for (auto &o : v) s_check(*o->c, o->s, when); };
    for (unsigned n = 2 + g.u(2); n--;) {
        v.emplace_back(new One()); One &o = *v.back();
        if (g.flip()) { o.cl = new Client(); o.c.reset(o.cl); }
        else { int sv[2]; unix_pair(sv); o.c.reset(conn_on(sv[0])); o.raw.reset(new Raw(sv[1])); }
        all("a new connection");
    }
    nontrivial();
    for (unsigned n = 2 + g.u(25); n--;) {
        size_t at = g.u(v.size() - 1); One &o = *v[at]; bool up = o.raw && o.c->IsConnected();
        size_t w = g.weighted({10, 3, 3, 2, 2, 2}); note("[%zu:%s] ", at, (const char *[]){"change", "traffic", "handler", "end", "connect", "reference"}[w]);
        switch (w) {
            case 0: s_change(g, *o.c, o.s); all("after a change"); break;
            case 1: if (up && !o.raw->ended()) {      // traffic; everything small enough
                if (o.s.max < 300) { o.c->SetMaxRequestSize(o.s.max = 4000); }
                size_t k = o.raw->frames.size(), have = hcount(); Request q("q"); o.c->Push(q); wait_until([&] { return o.raw->frames.size() > k; }, "arrival of a request");
                o.raw->send_now(enc(tagged(1, 2, 0, "a")));
                if (o.s.named.count("a") || o.s.def) wait_until([&] { return hcount() > have; }, "the handler of a request");
                else { Request *r = nullptr; wait_until([&] { return (r = o.c->Pull(0)) != nullptr; }, "arrival of a request"); delete r; }
                all("after traffic"); label("traffic"); } break;
            case 2: if (up && !o.raw->ended()) {      // changes inside a handler
                if (o.s.max < 300) { o.c->SetMaxRequestSize(o.s.max = 4000); }
                std::atomic<int> done{0}; auto old = o.s.def; bool had = o.s.named.count("a"); auto olda = had ? o.s.named["a"] : nullptr;
                o.c->SetHandlerNamed("a", H[7]);
                on_request = [&](Connection *c, Request *, int) { o.s.named["a"] = H[7]; s_check(*c, o.s, "inside a handler"); s_change(g, *c, o.s); s_check(*c, o.s, "inside a handler, after a change"); done = 1; };
                o.raw->send_now(enc(tagged(1, 2, 0, "a")));
                wait_until([&] { return done.load(); }, "the handler of a request");
                on_request = nullptr; (void)old; (void)olda; all("after a change in a handler"); label("change in a handler"); } break;
            case 3: if (up) { if (g.flip()) o.c->Disconnect(true); else o.raw->close(); if (o.refs.size() && o.c->IsConnected()) { o.refs.clear(); o.s.refs = 0; } wait_until([&] { return !o.c->IsConnected(); }, "the end of a connection"); if (!o.c->WaitForStop(20)) PBT_LATE("the stop notification did not fire"); o.raw.reset(); all("after the end"); label("ended"); } break;
            case 4: if (o.cl && !o.raw) { o.raw.reset(new Raw(L.connect(*o.cl))); all("after connecting"); label("connected"); } break;
            default: if (o.refs.size() && g.flip()) { o.refs.pop_back(); o.s.refs--; } else { o.refs.emplace_back(new SafeConnection(o.c.get())); o.s.refs++; } all("after a reference"); break;
        }
    }
    for (auto &o : v) { o->refs.clear(); o->s.refs = 0; o->raw.reset(); }
    label_faults();
}

static Spin ann_lock; static std::vector<Connection *> announced_; static int ann_kind;
static void ann0(Server *, Connection *c) { Lk l(ann_lock); announced_.push_back(c); ann_kind = 0; }
static void ann1(Server *, Connection *c) { Lk l(ann_lock); announced_.push_back(c); ann_kind = 1; }
static void ann2(Server *, Connection *) {}
PBT_PROP(C27, server, 40000, 600000, 12, 60,
    "as settings, for servers: limit and callbacks through starts and stops (never reset), which callback is called, and the settings of the connections of a server, which start with the defaults and are independent; non-trivial: two clients or a restart")
{
    gen_faults(g, g.u(1)); F.budget_us = 300000;
    static const ConnectionHandler AH[] = {nullptr, ann0, ann1};
    { Lk l(ann_lock); announced_.clear(); }
    struct Peer { std::unique_ptr<Raw> raw; std::unique_ptr<SafeConnection> c; Settings s; };
    Server srv; int32_t max = -1; unsigned con = 0; ConnectionHandler dis = nullptr; bool up = false; unsigned starts = 0; std::string path;
    std::vector<std::unique_ptr<Peer>> v;
    auto check = [&](const char *when) {
        PBT_CHECK(srv.GetMaxConnections() == max, "%s: GetMaxConnections() is %d, expected %d", when, srv.GetMaxConnections(), max);
        PBT_CHECK(srv.GetConnectedHandler() == AH[con] && srv.GetDisconnectedHandler() == dis, "%s: another callback", when);
        for (auto &p : v) if (p->c) s_check((*p->c)(), p->s, when);
    };
    check("a new server");
    auto stop = [&] { for (auto &p : v) p->c.reset(); srv.Stop(-1); if (srv.GetType() != SocketTypeUndefined) PBT_LATE("the server did not stop"); v.clear(); up = false; };
    for (unsigned n = 3 + g.u(20); n--;) {
        size_t w = g.weighted({4, 2, 2, 2, 6, 8, 2}); note("%s ", (const char *[]){"start", "limit", "connected", "disconnected", "client", "change", "stop"}[w]);
        switch (w) {
            case 0: if (!up) { path = sock_path("s"); PBT_CHECK(srv.StartUnix(path), "StartUnix failed"); up = true; if (starts++) { nontrivial(); label("restarted"); } } break;
            case 1: max = g.one<int32_t>({-1, 100, 50, INT32_MAX, INT32_MIN, -100, 30}); srv.SetMaxConnections(max); break;
            case 2: con = g.u(2); srv.SetConnectedHandler(AH[con]); break;
            case 3: dis = g.flip() ? ann2 : nullptr; srv.SetDisconnectedHandler(dis); break;
            case 4: if (up && con && v.size() < 6) {      // (without a callback nobody tells when it is admitted)
                size_t before; { Lk l(ann_lock); before = announced_.size(); ann_kind = -1; }
                int fd = raw_unix(path); PBT_CHECK(fd >= 0, "connecting failed"); v.emplace_back(new Peer()); Peer &p = *v.back(); p.raw.reset(new Raw(fd));
                wait_until([&] { Lk l(ann_lock); return announced_.size() > before; }, "the announcement of a client");
                uint32_t id; { Lk l(ann_lock); PBT_CHECK(announced_.size() == before + 1, "announced twice"); PBT_CHECK(ann_kind == (int)con - 1, "a callback that was replaced before the client connected was called"); id = announced_.back()->id; }
                wait_until([&] { p.c.reset(srv.GetConnection(id)); return (bool)p.c; }, "finding the client");
                p.s.id = id; p.s.refs = 1; s_check((*p.c)(), p.s, "a new connection of a server"); label("client"); if (v.size() > 1) nontrivial();
            } break;
            case 5: if (v.size()) { Peer &p = *v[g.u(v.size() - 1)]; if (p.c) { uint32_t id = p.s.id; s_change(g, (*p.c)(), p.s); p.s.id = id; (*p.c)().id = id; } } break;
            default: if (up) { stop(); label("stopped"); } break;
        }
        check("after a step");
    }
    if (up) stop();
    check("at the end");
    label_faults();
}
