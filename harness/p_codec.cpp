// C01-C07, C25: values, datums, requests and their encoding.
#include "model.hpp"
#include "values/CreateValue.hpp"
#include <algorithm>
#include <memory>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));

using namespace model;
using namespace pbt;

// ------------------------------------------------------------------ helpers
// a heap buffer of exactly the given size, so that AddressSanitizer sees any access outside
struct Exact {
    char *p; size_t n;
    explicit Exact(const std::string &s) : p(new char[s.size()]), n(s.size()) { memcpy(p, s.data(), n); }
    ~Exact() { delete[] p; }
    Exact(const Exact &) = delete;
};

// Leak check around one case.  The first cases of a process are not judged
// (one-time initialisation), and growth must repeat when the same choices are
// played a second time.
template<class F> static void leakcheck(Gen &g, F body) {
    auto cur = [] { return (long long)__sanitizer_get_current_allocated_bytes(); };
    long long a = cur();
    body(g);
    long long grown = cur() - a;
    for (int i = 0; grown > 0 && i < 3; i++) {
        Gen again = g.again();
        a = cur();
        body(again);
        grown = cur() - a;
        if (i == 2) PBT_CHECK(grown <= 0, "memory leaked: %lld bytes per execution of this case", grown);
    }
}

static Lim big_lim(Gen &g) {
    Lim l;
    switch (g.weighted({6, 3, 1})) {
        case 0: l.str = 300; l.elems = 6; l.depth = 3; l.args = 6; break;
        case 1: l.str = 70000; l.elems = 4; l.depth = 6; l.args = 4; l.name = 70; break;
        default: l.str = 64; l.elems = 1500; l.depth = 2; l.args = 300; break;
    }
    return l;
}
// sometimes wraps the value in deep nesting
static MV gen_any(Gen &g, const Lim &l) {
    MV v = gen_value(g, l);
    if (g.chance(1, 12)) {
        size_t d = g.size(400);
        for (size_t i = 0; i < d; i++) { MV a; a.type = ARR; a.elems.push_back(std::move(v)); v = std::move(a); }
    }
    return v;
}
static void classify(const MV &v) {
    label(type_name(v.type));
    if (v.type == ARR) { if (depth_of(v) > 1) label("nested array"); if (v.elems.size() > 255) label("array > 255 elements"); }
    if (v.type == STR && v.bytes.size() > 65535) label("string > 65535 bytes");
    if (v.type == STR && v.bytes.empty()) label("empty string");
}
static bool interesting(const MV &v) {
    return v.type == ARR ? !v.elems.empty() : v.type == STR ? !v.bytes.empty() : v.type == UNDEF ? true : v.num > 127;
}
static std::string firstdiff(const std::string &a, const std::string &b) {
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    size_t s = i > 8 ? i - 8 : 0;
    return "differs at byte " + std::to_string(i) + " (" + std::to_string(a.size()) + "B vs " + std::to_string(b.size()) + "B): .." +
           hex(a.substr(s, 24)) + " vs .." + hex(b.substr(s, 24));
}

// ------------------------------------------------------------------ C01
PBT_PROP(C01, value, 300000, 6000000, 8, 60,
    "a generated value (all types, boundary-biased numbers, strings to 70 kB, arrays to 1500 elements and 400 levels) is built through the API and its bytes compared with an independent encoder; non-trivial: a number above 127, a non-empty string or array, or an undefined value")
{
    Lim l = big_lim(g);
    MV m = gen_any(g, l);
    classify(m);
    if (interesting(m)) nontrivial();
    note("%s", show(m).c_str());
    std::unique_ptr<Value> v(build(m));
    std::string want = enc(m);
    PBT_CHECK(v->GetSize() == want.size(), "GetSize() is %u, wire size is %zu for %s", v->GetSize(), want.size(), show(m).c_str());
    std::string got = ser(v.get());
    PBT_CHECK(got == want, "encoding %s", firstdiff(got, want).c_str());
    std::string again = ser(v.get());
    PBT_CHECK(again == want, "second encoding %s", firstdiff(again, want).c_str());
    std::string d = diff(v.get(), m);
    PBT_CHECK(d.empty(), "serializing changed the value: %s", d.c_str());
}

PBT_PROP(C01, request, 200000, 4000000, 8, 60,
    "a generated request (any id, names to 65535 bytes, up to 300 arguments of generated values) is built through the API, each datum and the whole request compared with an independent encoder; non-trivial: at least one argument")
{
    Lim l = big_lim(g);
    if (g.chance(1, 20)) l.name = 65535;
    MReq m = gen_request(g, l);
    if (!m.args.empty()) { nontrivial(); label("with arguments"); }
    if (m.args.size() > 20) label("> 20 arguments");
    if (m.name.size() > 255) label("name > 255 bytes");
    note("%s", show(m).c_str());
    Request r;
    build_into(r, m);
    std::string want = enc(m);
    PBT_CHECK(r.GetSize() == want.size(), "GetSize() is %u, wire size is %zu", r.GetSize(), want.size());
    std::string got = ser(r);
    PBT_CHECK(got == want, "request encoding %s", firstdiff(got, want).c_str());
    size_t i = 0;
    for (Datum *d : r.GetArguments()) {
        std::string dw = enc_datum(m.args[i].name, m.args[i].v);
        PBT_CHECK(d->GetSize() == dw.size(), "datum GetSize() is %u, wire size is %zu", d->GetSize(), dw.size());
        std::string dg = ser(*d);
        PBT_CHECK(dg == dw, "datum encoding %s", firstdiff(dg, dw).c_str());
        i++;
    }
    std::string d = diff(r, m);
    PBT_CHECK(d.empty(), "serializing changed the request: %s", d.c_str());
    PBT_CHECK(ser(r) == want, "second request encoding differs");
}

// ------------------------------------------------------------------ C02
static std::string gen_suffix(Gen &g) {
    Lim s; s.str = 40; s.depth = 1; s.elems = 3; s.args = 2;
    switch (g.weighted({3, 2, 2, 2, 2})) {
        case 0: return "";
        case 1: return g.bytes(g.size(40));
        case 2: return enc(gen_value(g, s));
        case 3: return enc_datum(gen_name(g, 8), gen_value(g, s));
        default: return enc(gen_request(g, s));
    }
}
PBT_PROP(C02, value, 500000, 10000000, 8, 60,
    "independently encoded values followed by generated trailing bytes are decoded, in an exactly sized buffer, into a fresh or previously filled object; consumed length and content compared with the model; non-trivial: trailing bytes or a previously filled object")
{
    Lim l = big_lim(g);
    MV m = gen_any(g, l);
    classify(m);
    std::unique_ptr<Value> v;
    bool dirty = g.flip();
    if (dirty) {
        Lim dl; dl.str = 100; dl.depth = 2; dl.elems = 5;
        MV old = gen_value(g, dl);
        for (int i = 0; i < 4 && old.type != m.type; i++) old = gen_value(g, dl);
        if (old.type != m.type) { old = m; if (m.type == STR || m.type == UNDEF) old.bytes = "old"; }
        if (m.type == ARR && old.elems.size() > 50) old.elems.resize(3);
        v.reset(build(old));
        label("decoded into a filled object");
    } else v.reset(CreateValue(m.type));
    std::string e = enc(m), suf = gen_suffix(g);
    if (!suf.empty()) label("with following bytes");
    if (dirty || !suf.empty()) nontrivial();
    note("%s, %zu following bytes, into %s object", show(m).c_str(), suf.size(), dirty ? "a filled" : "a fresh");
    Exact buf(e + suf);
    uint32_t used = v->Deserialize(buf.p, buf.n);
    PBT_CHECK(used == e.size(), "decoding %s consumed %u of %zu bytes", show(m).c_str(), used, e.size());
    std::string d = diff(v.get(), m);
    PBT_CHECK(d.empty(), "decoded %s", d.c_str());
    PBT_CHECK(ser(v.get()) == e, "re-encoding the decoded value gives other bytes");
}
PBT_PROP(C02, datum, 300000, 6000000, 8, 60,
    "as value, for datums with names to 65535 bytes; non-trivial: trailing bytes or a filled datum")
{
    Lim l = big_lim(g);
    if (g.chance(1, 20)) l.name = 65535;
    std::string name = gen_name(g, l.name);
    MV m = gen_any(g, l);
    Datum d;
    bool dirty = g.flip();
    if (dirty) { d.SetName(gen_name(g, 10)); Lim o; o.str = 30; d.SetValue(build(gen_value(g, o)), false); }
    std::string e = enc_datum(name, m), suf = gen_suffix(g);
    if (dirty || !suf.empty()) nontrivial();
    note("datum %s=%s, %zu following bytes", hex(name, 8).c_str(), show(m).c_str(), suf.size());
    Exact buf(e + suf);
    uint32_t used = d.Deserialize(buf.p, buf.n);
    PBT_CHECK(used == e.size(), "decoding datum consumed %u of %zu bytes", used, e.size());
    PBT_CHECK(d.GetName() == name, "decoded datum is named %s, expected %s", hex(d.GetName()).c_str(), hex(name).c_str());
    PBT_CHECK(d.GetType() == m.type, "decoded datum has type %d, expected %d", d.GetType(), m.type);
    std::string x = diff(d.GetValue(), m);
    PBT_CHECK(x.empty(), "decoded datum: %s", x.c_str());
}
PBT_PROP(C02, request, 400000, 8000000, 8, 60,
    "as value, for requests (names to 65535 bytes, up to 300 arguments, also repeated names); non-trivial: trailing bytes, a filled request, or at least two arguments")
{
    Lim l = big_lim(g);
    if (g.chance(1, 20)) l.name = 65535;
    MReq m = gen_request(g, l);
    if (m.args.size() >= 2 && g.chance(1, 10)) { m.args.back().name = m.args.front().name; label("repeated argument name"); }
    Request r;
    bool dirty = g.flip();
    if (dirty) {
        Lim o; o.str = 30; o.args = 4;
        MReq old = gen_request(g, o);
        build_into(r, old);
    }
    std::string e = enc(m), suf = gen_suffix(g);
    if (dirty || !suf.empty() || m.args.size() >= 2) nontrivial();
    if (!suf.empty()) label("request with following bytes");
    note("%s, %zu following bytes, into %s request", show(m).c_str(), suf.size(), dirty ? "a filled" : "a fresh");
    Exact buf(e + suf);
    uint32_t used = r.Deserialize(buf.p, buf.n);
    PBT_CHECK(used == e.size(), "decoding request consumed %u of %zu bytes (%zu bytes follow)", used, e.size(), suf.size());
    std::string d = diff(r, m);
    PBT_CHECK(d.empty(), "decoded request: %s", d.c_str());
    PBT_CHECK(ser(r) == e, "re-encoding the decoded request gives other bytes");
}

// ------------------------------------------------------------------ C03
static std::string le32(uint32_t v) { return le(v, 4); }
static uint32_t hostile32(Gen &g, uint32_t orig) {
    switch (g.weighted({4, 3, 3, 3, 2, 2})) {
        case 0: return orig + g.u(16) - 8;
        case 1: return (uint32_t)-1 - g.u(24);
        case 2: return g.u(24);
        case 3: return (1u << g.u(31)) + g.u(2) - 1;
        case 4: return g.u(UINT32_MAX);
        default: return orig * (1 + g.u(3)) ;
    }
}
// mutates an encoding: overwrite a 4- or 2-byte field anywhere (biased to real fields), flip, cut, insert, splice
static void mutate(Gen &g, std::string &s, const std::vector<size_t> &fields) {
    switch (g.weighted({8, 3, 2, 2, 2, 2, 2})) {
        case 0: { // hostile length/count at a real field
            if (fields.empty() || s.size() < 4) break;
            size_t o = fields[g.u(fields.size() - 1)];
            if (o + 4 > s.size()) break;
            uint32_t v; memcpy(&v, &s[o], 4);
            v = hostile32(g, v);
            memcpy(&s[o], &v, 4);
            break;
        }
        case 1: if (!s.empty()) s[g.u(s.size() - 1)] = (char)g.u(255); break;
        case 2: if (!s.empty()) s.resize(g.u(s.size() - 1)); break;
        case 3: s.insert(g.u(s.size()), g.bytes(g.u(8))); break;
        case 4: if (!s.empty()) { size_t a = g.u(s.size() - 1); s.erase(a, 1 + g.u(7)); } break;
        case 5: if (s.size() >= 4) { size_t a = g.u(s.size() - 4); uint32_t v; memcpy(&v, &s[a], 4); v = hostile32(g, v); memcpy(&s[a], &v, 4); } break;
        default: if (s.size() >= 2) { size_t a = g.u(s.size() - 2); uint16_t v = (uint16_t)hostile32(g, s.size()); memcpy(&s[a], &v, 2); } break;
    }
}
// offsets of 4-byte length/count fields in an encoded value starting at off
static void value_fields(const MV &m, size_t off, std::vector<size_t> &f) {
    f.push_back(off + 1);
    if (m.type == STR) f.push_back(off + 5);
    if (m.type == ARR) {
        f.push_back(off + 5);
        size_t o = off + 9;
        for (auto &e : m.elems) { value_fields(e, o, f); o += enc(e).size(); }
    }
}
static void req_fields(const MReq &r, std::vector<size_t> &f) {
    f.push_back(0);
    f.push_back(8);   // name length (2 bytes, then name)
    size_t o = 10 + r.name.size();
    for (auto &a : r.args) {
        f.push_back(o); f.push_back(o + 4);
        value_fields(a.v, o + 6 + a.name.size(), f);
        o += enc_datum(a.name, a.v).size();
    }
}
// memory accounting of one decode
static thread_local bool counting;
static thread_local size_t counted;
static void malloc_hook(const volatile void *, size_t n) { if (counting) counted += n; }
static void free_hook(const volatile void *) {}
static void install_hooks() { static int once = __sanitizer_install_malloc_and_free_hooks(malloc_hook, free_hook); (void)once; }
struct Counting {
    Counting() { install_hooks(); counted = 0; counting = true; }
    ~Counting() { counting = false; }
    static size_t stop() { counting = false; return counted; }
};

static void exercise(Value *v, size_t input) {
    MV a = read(v);
    if (weight(a) < 3000 && depth_of(a) < 200) { std::string s = v->ToString(); (void)s; s = v->ToString(3); }
    std::string e = ser(v);
    std::unique_ptr<Value> c(CreateValue(v->GetType()));
    c->CopyFrom(v);
    std::string x = diff(c.get(), a);
    PBT_CHECK(x.empty(), "copy of a decoded value differs: %s", x.c_str());
    // encode/decode fixpoint
    Exact b(e);
    uint32_t used = c->Deserialize(b.p, b.n);
    PBT_CHECK(used == e.size(), "re-decoding the re-encoded value consumed %u of %zu", used, e.size());
    x = diff(c.get(), a);
    PBT_CHECK(x.empty(), "re-encoding and decoding changed the value: %s", x.c_str());
    (void)input;
}
static Lim fuzz_lim(Gen &g) {
    Lim l;
    l.str = g.chance(1, 8) ? 3000 : 24; l.elems = g.chance(1, 10) ? 200 : 4; l.depth = 3; l.args = 4; l.name = 24;
    return l;
}
static void c03_value(Gen &g) {
    Lim l = fuzz_lim(g);
    std::string s;
    uint8_t type = g.u(11);
    if (g.chance(1, 8)) { s = g.bytes(g.size(200)); if (!s.empty() && g.flip()) s[0] = type; }
    else {
        MV m = gen_value(g, l);
        if (g.chance(1, 10)) { size_t d = g.size(300); for (size_t i = 0; i < d; i++) { MV a; a.type = ARR; a.elems.push_back(m); m = a; if (m.elems[0].elems.size() > 4) break; } }
        type = m.type;
        if (g.chance(1, 15)) type = g.u(12);
        std::vector<size_t> f; value_fields(m, 0, f);
        s = enc(m);
        size_t n = g.u(3);
        for (size_t i = 0; i < n; i++) mutate(g, s, f);
    }
    std::unique_ptr<Value> v(CreateValue(type));
    if (g.flip()) {   // filled object
        for (int i = 0; i < 6; i++) { Lim o; o.str = 20; o.elems = 3; MV old = gen_value(g, o); if (old.type == v->GetType()) { v.reset(build(old)); break; } }
    }
    note("type %d bytes %s", type, hex(s, 64).c_str());
    Exact b(s);
    uint32_t used; size_t mem;
    { Counting c; used = v->Deserialize(b.p, b.n); mem = Counting::stop(); }
    PBT_CHECK(used <= b.n, "decoding a value consumed %u bytes of a %zu byte buffer", used, b.n);
    PBT_CHECK(mem <= 400 * b.n + 65536, "decoding %zu bytes allocated %zu bytes", b.n, mem);
    label(used ? "value accepted" : "value rejected");
    if (b.n >= 5) nontrivial();
    if (!used) { // still usable as a target and destructible
        std::string e = ser(v.get()); (void)e;
        MV a = read(v.get()); (void)a;
        std::string t = v->ToString(); (void)t;
    } else exercise(v.get(), b.n);
    // and it can be reused
    if (g.flip()) {
        Lim o; o.str = 20; o.elems = 3;
        MV m = gen_value(g, o);
        if (m.type == v->GetType()) {
            std::string e = enc(m); Exact eb(e);
            PBT_CHECK(v->Deserialize(eb.p, eb.n) == e.size(), "reusing an object after decoding hostile bytes failed");
            std::string x = diff(v.get(), m);
            PBT_CHECK(x.empty(), "reused object: %s", x.c_str());
        }
    }
}
PBT_PROP(C03, value, 200000, 5000000, 8, 60,
    "random or structurally mutated encodings (hostile length and count fields, truncation, splicing, type changes) decoded as a value under AddressSanitizer in an exactly sized buffer, allocation volume measured, result read, printed, copied, re-encoded, reused; non-trivial: at least 5 bytes")
{
    leakcheck(g, c03_value);
}
static void c03_datum(Gen &g) {
    Lim l = fuzz_lim(g);
    MV m = gen_value(g, l);
    std::string name = gen_name(g, l.name);
    std::string s = enc_datum(name, m);
    std::vector<size_t> f{0, 4}; value_fields(m, 6 + name.size(), f);
    if (g.chance(1, 10)) s = le32(g.u(60)) + g.bytes(g.size(60));
    size_t n = g.u(3);
    for (size_t i = 0; i < n; i++) mutate(g, s, f);
    Datum d;
    if (g.flip()) { d.SetName("old"); d.SetValue(build(gen_scalar(g)), false); }
    note("datum bytes %s", hex(s, 64).c_str());
    Exact b(s);
    uint32_t used; size_t mem;
    { Counting c; used = d.Deserialize(b.p, b.n); mem = Counting::stop(); }
    PBT_CHECK(used <= b.n, "decoding a datum consumed %u bytes of a %zu byte buffer", used, b.n);
    PBT_CHECK(mem <= 400 * b.n + 65536, "decoding %zu bytes allocated %zu bytes", b.n, mem);
    label(used ? "datum accepted" : "datum rejected");
    if (b.n >= 6) nontrivial();
    PBT_CHECK(d.GetValue(), "datum without a value after decoding");
    MV a = read(d.GetValue());
    std::string nm = d.GetName(); (void)nm; d.GetValid();
    std::string e = ser(d); (void)e;
    if (used) {
        Exact b2(e); Datum d2;
        PBT_CHECK(d2.Deserialize(b2.p, b2.n) == e.size(), "re-decoding the re-encoded datum failed");
        std::string x = diff(d2.GetValue(), a);
        PBT_CHECK(x.empty() && d2.GetName() == d.GetName(), "re-encoding and decoding changed the datum: %s", x.c_str());
    }
}
PBT_PROP(C03, datum, 1000000, 20000000, 8, 60, "as value, decoded as a datum; non-trivial: at least 6 bytes")
{
    leakcheck(g, c03_datum);
}
static void c03_request(Gen &g) {
    Lim l = fuzz_lim(g);
    MReq m = gen_request(g, l);
    std::string s = enc(m);
    std::vector<size_t> f; req_fields(m, f);
    if (g.chance(1, 12)) s = le32(g.u(60)) + g.bytes(g.size(60));
    size_t n = g.u(3);
    for (size_t i = 0; i < n; i++) mutate(g, s, f);
    if (g.chance(1, 6) && s.size() >= 4) { uint32_t t = s.size(); memcpy(&s[0], &t, 4); } // as framed by a connection
    Request r("old");
    if (g.flip()) { Lim o; o.str = 10; o.args = 3; build_into(r, gen_request(g, o)); }
    note("request bytes %s", hex(s, 64).c_str());
    Exact b(s);
    uint32_t used; size_t mem;
    { Counting c; used = r.Deserialize(b.p, b.n); mem = Counting::stop(); }
    PBT_CHECK(used <= b.n, "decoding a request consumed %u bytes of a %zu byte buffer", used, b.n);
    PBT_CHECK(mem <= 400 * b.n + 65536, "decoding %zu bytes allocated %zu bytes", b.n, mem);
    label(used ? "request accepted" : "request rejected");
    if (b.n >= 10) nontrivial();
    for (Datum *d : r.GetArguments()) { PBT_CHECK(d && d->GetValue(), "argument without value"); read(d->GetValue()); r.Get(d->GetName()); }
    std::string t = r.ToString(); (void)t;
    std::string e = ser(r);
    Request c; c.CopyFrom(&r);
    PBT_CHECK(ser(c) == e, "copy of a decoded request encodes differently");
    if (used) {
        Exact b2(e); Request r2;
        PBT_CHECK(r2.Deserialize(b2.p, b2.n) == e.size(), "re-decoding the re-encoded request failed");
        PBT_CHECK(ser(r2) == e, "re-encoding and decoding changed the request");
    }
    if (g.flip()) {
        Lim o; o.str = 10; o.args = 3; MReq m2 = gen_request(g, o);
        std::string e2 = enc(m2); Exact b3(e2);
        PBT_CHECK(r.Deserialize(b3.p, b3.n) == e2.size(), "reusing a request after hostile bytes failed");
        std::string x = diff(r, m2);
        PBT_CHECK(x.empty(), "reused request: %s", x.c_str());
    }
}
PBT_PROP(C03, request, 600000, 12000000, 8, 60, "as value, decoded as a request; non-trivial: at least 10 bytes")
{
    leakcheck(g, c03_request);
}

static void c03_deep(Gen &g) {
    // arrays inside each other, up to 200000 levels; the innermost is a scalar, an empty array or cut off
    size_t d = g.flip() ? g.u(4000) : g.u(200000);
    std::string inner = g.flip() ? enc(gen_scalar(g)) : std::string("\x0a\x04\0\0\0\0\0\0\0", 9);
    bool cut = g.chance(1, 4);
    std::string s;
    size_t tail = inner.size();
    for (size_t i = 0; i < d; i++) {
        s += (char)10; s += le(4 + 9 * (d - 1 - i) + tail, 4); s += le(1, 4);
    }
    s += inner;
    if (cut) s.resize(s.size() - 1 - g.u(3));
    bool as_request = g.flip();
    std::string frame = s;
    if (as_request) frame = le(10 + 1 + 6 + 1 + s.size(), 4) + le(7, 4) + le(1, 2) + "r" + le(7 + s.size(), 4) + le(1, 2) + "a" + s;
    note("%zu levels%s%s", d, cut ? " cut" : "", as_request ? " in a request" : "");
    label(d > 1024 ? "nested deeper than 1024" : d > 100 ? "nested 101..1024 deep" : "nested up to 100 deep");
    if (d > 100) nontrivial();
    Exact b(frame);
    size_t mem;
    if (as_request) {
        Request r;
        { Counting c; r.Deserialize(b.p, b.n); mem = Counting::stop(); }
        if (d <= 1000 && !cut) PBT_CHECK(r.Get("a"), "argument nested %zu deep refused", d);
        if (d < 3000 && !cut) { Request c(r); std::string e = ser(c); (void)e; }
    } else {
        ValueArr top; Value8U dummy;
        if (d == 0) return;
        { Counting c; uint32_t used = top.Deserialize(b.p, b.n); mem = Counting::stop();
          PBT_CHECK(used == 0 || used == b.n, "consumed %u of %zu", used, b.n);
          if (cut) PBT_CHECK(used == 0, "cut value accepted");
          if (d <= 1000 && !cut) PBT_CHECK(used, "array nested %zu deep refused", d); }
    }
    PBT_CHECK(mem <= 400 * b.n + 65536, "decoding %zu bytes allocated %zu bytes", b.n, mem);
}
PBT_PROP(C03, deep, 1500, 20000, 8, 60,
    "arrays nested up to 200000 levels, whole or cut off, as a value or in a request: decoded, copied and destroyed without exhausting the stack; non-trivial: more than 100 levels")
{
    leakcheck(g, c03_deep);
}

// ------------------------------------------------------------------ C04
// Three-valued judgement of an encoding: GOOD (must be accepted), BAD (must be
// refused), SLACK (surplus bytes inside a declared length: not judged).
enum J { GOOD, BAD, SLACK };
static uint64_t rd(const char *p, unsigned n) { uint64_t v = 0; for (unsigned i = 0; i < n; i++) v |= (uint64_t)(unsigned char)p[i] << (8 * i); return v; }
static J judge_value(const char *p, size_t n, size_t &used) {
    if (n < 5) return BAD;
    uint8_t t = p[0]; uint64_t len = rd(p + 1, 4);
    if (t > ARR) return BAD;
    if (len > n - 5) return BAD;
    const char *c = p + 5; used = 5 + len;
    if (unsigned b = bits_of(t)) return len < b / 8 ? BAD : len > b / 8 ? SLACK : GOOD;
    if (t == STR) return len < 4 || rd(c, 4) != len - 4 ? BAD : GOOD;
    if (t == ARR) {
        if (len < 4) return BAD;
        uint64_t cnt = rd(c, 4); size_t off = 4;
        for (uint64_t i = 0; i < cnt; i++) {
            size_t u;
            J j = judge_value(c + off, len - off, u);
            if (j != GOOD) return j;
            off += u;
        }
        return off == len ? GOOD : SLACK;
    }
    return GOOD;
}
static J judge_datum(const char *p, size_t n, size_t &used) {
    if (n < 6) return BAD;
    uint64_t total = rd(p, 4), nl = rd(p + 4, 2);
    if (total > n || total < 6 + nl + 5) return BAD;
    size_t u;
    J j = judge_value(p + 6 + nl, total - 6 - nl, u);
    if (j != GOOD) return j;
    used = total;
    return u == total - 6 - nl ? GOOD : SLACK;
}
// header: BAD/GOOD; then good = number of leading well-formed datums, all = GOOD/BAD/SLACK of the argument area
static J judge_request(const char *p, size_t n, size_t &good, J &args, size_t &total_out) {
    if (n < 10) return BAD;
    uint64_t total = rd(p, 4), nl = rd(p + 8, 2);
    if (total > n || total < 10 + nl) return BAD;
    total_out = total;
    good = 0; args = GOOD;
    size_t off = 10 + nl;
    while (off < total) {
        size_t u;
        J j = judge_datum(p + off, total - off, u);
        if (j != GOOD) { args = j; return GOOD; }
        good++; off += u;
    }
    return GOOD;
}
// makes one field ill-formed by a directed change
static void spoil(Gen &g, std::string &s, const std::vector<size_t> &f) {
    if (s.empty()) return;
    switch (g.weighted({6, 4, 2, 2})) {
        case 0: {
            size_t o = f[g.u(f.size() - 1)];
            if (o + 4 > s.size()) return;
            uint32_t v; memcpy(&v, &s[o], 4);
            switch (g.weighted({4, 4, 3, 2})) {
                case 0: v += 1 + g.u(12); break;
                case 1: v -= 1 + g.u(12); break;
                case 2: v = (uint32_t)-1 - g.u(20); break;
                default: v = hostile32(g, v);
            }
            memcpy(&s[o], &v, 4);
            break;
        }
        case 1: s.resize(g.u(s.size() - 1)); break;             // cut short
        case 2: { size_t o = f[g.u(f.size() - 1)]; if (o > 0 && o - 1 < s.size()) s[o - 1] = (char)g.u(12); break; } // a type tag
        default: mutate(g, s, f);
    }
}
PBT_PROP(C04, value, 2500000, 40000000, 8, 60,
    "well-formed encodings spoiled in one or two places (length/count/type fields off by a few, wrap-around, cut short); an independent three-valued judge says must-accept, must-refuse or not judged (surplus bytes); non-trivial: judged must-refuse")
{
    Lim l = fuzz_lim(g);
    MV m = gen_value(g, l);
    std::vector<size_t> f; value_fields(m, 0, f);
    std::string s = enc(m);
    uint8_t type = m.type;
    spoil(g, s, f);
    if (g.chance(1, 4)) spoil(g, s, f);
    if (g.chance(1, 6)) type = g.u(10);
    size_t u = 0;
    J j = judge_value(s.data(), s.size(), u);
    if (j != BAD && (uint8_t)s[0] != type) j = BAD;   // tagged with another type
    std::unique_ptr<Value> v(CreateValue(type));
    note("as %s: %s", type_name(type), hex(s, 64).c_str());
    Exact b(s);
    uint32_t used = v->Deserialize(b.p, b.n);
    if (j == BAD) {
        nontrivial(); label("must refuse");
        PBT_CHECK(used == 0, "ill-formed %s value accepted, %u of %zu bytes consumed", type_name(type), used, b.n);
    } else if (j == GOOD) {
        label("must accept");
        PBT_CHECK(used == u, "well-formed value: consumed %u, expected %zu", used, u);
    } else label("not judged");
}
PBT_PROP(C04, datum, 1500000, 30000000, 8, 60, "as value, for datums; non-trivial: judged must-refuse")
{
    Lim l = fuzz_lim(g);
    MV m = gen_value(g, l);
    std::string name = gen_name(g, l.name);
    std::string s = enc_datum(name, m);
    std::vector<size_t> f{0, 0, 4, 4}; value_fields(m, 6 + name.size(), f);
    spoil(g, s, f);
    if (g.chance(1, 4)) spoil(g, s, f);
    // name length field alone
    if (g.chance(1, 4) && s.size() >= 6) { uint16_t v = g.flip() ? g.u(UINT16_MAX) : (uint16_t)(name.size() + g.u(20) - 10); memcpy(&s[4], &v, 2); }
    size_t u = 0;
    J j = judge_datum(s.data(), s.size(), u);
    Datum d;
    note("%s", hex(s, 64).c_str());
    Exact b(s);
    uint32_t used = d.Deserialize(b.p, b.n);
    if (j == BAD) {
        nontrivial(); label("must refuse");
        PBT_CHECK(used == 0, "ill-formed datum accepted, %u of %zu bytes consumed", used, b.n);
    } else if (j == GOOD) {
        label("must accept");
        PBT_CHECK(used == u, "well-formed datum: consumed %u, expected %zu", used, u);
    } else label("not judged");
}
PBT_PROP(C04, request, 1800000, 36000000, 8, 60,
    "as value, for requests; an ill-formed header must be refused, an ill-formed argument must be refused or leave exactly the well-formed arguments before it; non-trivial: ill-formed header or argument")
{
    Lim l = fuzz_lim(g);
    MReq m = gen_request(g, l);
    std::string s = enc(m);
    std::vector<size_t> f; req_fields(m, f); f.push_back(0);
    spoil(g, s, f);
    if (g.chance(1, 4)) spoil(g, s, f);
    if (g.chance(1, 6) && s.size() >= 10) { uint16_t v = g.flip() ? g.u(UINT16_MAX) : (uint16_t)(m.name.size() + g.u(20) - 10); memcpy(&s[8], &v, 2); }
    if (g.chance(1, 3) && s.size() >= 4) { uint32_t t = s.size(); memcpy(&s[0], &t, 4); }
    size_t good = 0, total = 0; J args = GOOD;
    J j = judge_request(s.data(), s.size(), good, args, total);
    Request r;
    note("%s", hex(s, 64).c_str());
    Exact b(s);
    uint32_t used = r.Deserialize(b.p, b.n);
    if (j == BAD) {
        nontrivial(); label("must refuse");
        PBT_CHECK(used == 0, "request with ill-formed header accepted, %u of %zu bytes consumed", used, b.n);
        return;
    }
    PBT_CHECK(used <= total, "request of %zu bytes: consumed %u", total, used);
    if (args == GOOD) {
        label("must accept");
        PBT_CHECK(used == total, "well-formed request: consumed %u, expected %zu", used, total);
        PBT_CHECK(r.GetArguments().size() == good, "well-formed request has %zu arguments, expected %zu", r.GetArguments().size(), good);
        return;
    }
    if (args == SLACK) { label("not judged"); return; }
    nontrivial(); label("ill-formed argument");
    if (used == 0) return;
    PBT_CHECK(r.GetArguments().size() == good, "request with an ill-formed argument holds %zu arguments, %zu precede it", r.GetArguments().size(), good);
    // the kept ones are right
    MReq want; size_t uu;
    std::string fixed = s.substr(0, 10 + rd(s.data() + 8, 2));
    size_t off = fixed.size();
    for (size_t i = 0; i < good; i++) { size_t x; judge_datum(s.data() + off, total - off, x); fixed += s.substr(off, x); off += x; }
    std::string t = le32(fixed.size()); fixed.replace(0, 4, t);
    PBT_CHECK(dec_req(fixed.data(), fixed.size(), want, uu), "harness: reference decode");
    std::string d = diff(r, want);
    PBT_CHECK(d.empty(), "request with an ill-formed argument: %s", d.c_str());
}

// ------------------------------------------------------------------ C05
static MArg *find(MReq &m, const std::string &n) { for (auto &a : m.args) if (a.name == n) return &a; return nullptr; }
static void mset(MReq &m, const std::string &n, const MV &v) {
    if (MArg *a = find(m, n)) a->v = v; else m.args.push_back({n, v});
}
static void mdel(MReq &m, const std::string &n) {
    for (size_t i = 0; i < m.args.size(); i++) if (m.args[i].name == n) { m.args.erase(m.args.begin() + i); return; }
}
template<class V> static bool typed(Request &r, const std::string &n) { return r.Get<V>(n) != nullptr; }
static bool typed_get(Request &r, const std::string &n, uint8_t t) {
    switch (t) {
        case UNDEF: return typed<ValueUndefined>(r, n); case S64: return typed<Value64S>(r, n); case U64: return typed<Value64U>(r, n);
        case S32: return typed<Value32S>(r, n); case U32: return typed<Value32U>(r, n); case S16: return typed<Value16S>(r, n);
        case U16: return typed<Value16U>(r, n); case U8: return typed<Value8U>(r, n); case S8: return typed<Value8S>(r, n);
        case STR: return typed<ValueStr>(r, n); default: return typed<ValueArr>(r, n);
    }
}
static void emplace(Request &r, const std::string &n, const MV &m) {
    switch (m.type) {
        case S64: r.Emplace<Value64S>(n, (int64_t)m.num); break;
        case U64: r.Emplace<Value64U>(n, m.num); break;
        case S32: r.Emplace<Value32S>(n, (int32_t)m.num); break;
        case U32: r.Emplace<Value32U>(n, (uint32_t)m.num); break;
        case S16: r.Emplace<Value16S>(n, (int16_t)m.num); break;
        case U16: r.Emplace<Value16U>(n, (uint16_t)m.num); break;
        case S8: r.Emplace<Value8S>(n, (int8_t)m.num); break;
        case U8: r.Emplace<Value8U>(n, (uint8_t)m.num); break;
        default: r.Emplace<ValueStr>(n, m.bytes); break;
    }
}
static void c05(Gen &g) {
    Lim l; l.str = 40; l.depth = 2; l.elems = 4;
    MReq m;
    std::unique_ptr<Request> r;
    if (g.flip()) { m.name = gen_name(g, 20); r.reset(new Request(m.name)); } else r.reset(new Request());
    unsigned ops = 0, replaced = 0, deleted = 0;
    bool wide = g.chance(1, 10);   // many distinct names
    auto name = [&]() -> std::string {
        if (wide && g.flip()) return "n" + std::to_string(g.u(200));
        if (!m.args.empty() && g.flip()) return m.args[g.u(m.args.size() - 1)].name;
        return gen_name(g, 40);
    };
    while (g.more(wide ? 120 : 14) && ops < 400) {
        ops++;
        switch (g.weighted({4, 4, 3, 3, 3, 2, 2, 1, 1, 2})) {
            case 0: { // set, copied
                std::string n = name(); MV v = gen_value(g, l);
                std::unique_ptr<Value> x(build(v));
                if (find(m, n)) replaced++;
                note("Set(%s,%s) ", hex(n, 6).c_str(), show(v).c_str());
                r->Set(n, x.get(), true);
                mset(m, n, v);
                if (g.flip()) x.reset(); // the caller's object goes away
                else { // or changes
                    if (auto *s = dynamic_cast<ValueStr *>(x.get())) s->Set("changed");
                    if (auto *a = dynamic_cast<ValueArr *>(x.get())) a->Clear();
                    if (auto *q = dynamic_cast<Value32S *>(x.get())) q->Set(q->Get() + 1);
                }
                break;
            }
            case 1: { // set, handed over
                std::string n = name(); MV v = gen_value(g, l);
                if (find(m, n)) replaced++;
                note("Move(%s,%s) ", hex(n, 6).c_str(), show(v).c_str());
                r->Set(n, build(v), false);
                mset(m, n, v);
                break;
            }
            case 2: { // by reference
                std::string n = name(); MV v = gen_value(g, l);
                std::unique_ptr<Value> x(build(v));
                if (find(m, n)) replaced++;
                note("SetRef(%s,%s) ", hex(n, 6).c_str(), show(v).c_str());
                r->Set(n, *x);
                mset(m, n, v);
                break;
            }
            case 3: { // emplace
                std::string n = name(); MV v;
                if (g.flip()) v = gen_scalar(g); else { v.type = STR; v.bytes = g.bytes(g.size(60)); }
                if (find(m, n)) replaced++;
                note("Emplace(%s,%s) ", hex(n, 6).c_str(), show(v).c_str());
                emplace(*r, n, v);
                mset(m, n, v);
                break;
            }
            case 4: { // delete
                std::string n = name();
                if (find(m, n)) deleted++;
                note("Delete(%s) ", hex(n, 6).c_str());
                r->Set(n, nullptr, g.flip());
                mdel(m, n);
                PBT_CHECK(r->Get(n) == nullptr, "argument still set after Set(name, 0)");
                break;
            }
            case 5: { // a value of the request itself: copied to another or the same name
                if (m.args.empty()) break;
                std::string from = m.args[g.u(m.args.size() - 1)].name, to = g.flip() ? from : name();
                note("SelfSet(%s<-%s) ", hex(to, 6).c_str(), hex(from, 6).c_str());
                MV v = find(m, from)->v;
                if (find(m, to)) replaced++;
                r->Set(to, r->Get(from), true);
                mset(m, to, v);
                label("value taken from the request itself");
                break;
            }
            case 6: { // typed lookups of all types
                std::string n = name(); MArg *a = find(m, n);
                for (uint8_t t = UNDEF; t <= ARR; t++)
                    PBT_CHECK(typed_get(*r, n, t) == (a && a->v.type == t), "typed lookup of %s as %s %s", a ? type_name(a->v.type) : "absent argument", type_name(t), a && a->v.type == t ? "failed" : "succeeded");
                break;
            }
            case 7: m.name = gen_name(g, 30); r->SetName(m.name); note("SetName "); break;
            case 8: m.id = g.num(32); r->SetId(m.id); note("SetId(%u) ", m.id); break;
            default: { // through the wire and back
                std::string e = ser(*r);
                PBT_CHECK(e == enc(m), "encoding %s", firstdiff(e, enc(m)).c_str());
                if (g.flip()) r.reset(new Request("x"));
                Exact b(e);
                PBT_CHECK(r->Deserialize(b.p, b.n) == e.size(), "decoding its own encoding failed");
                note("Wire ");
                break;
            }
        }
        std::string d = diff(*r, m);
        PBT_CHECK(d.empty(), "after %u operations: %s", ops, d.c_str());
        std::string n = name();
        MArg *a = find(m, n); Value *v = r->Get(n);
        PBT_CHECK((a != nullptr) == (v != nullptr), "lookup of %s argument returned %s", a ? "a present" : "an absent", v ? "a value" : "null");
        if (a) { d = diff(v, a->v); PBT_CHECK(d.empty(), "lookup: %s", d.c_str()); }
    }
    if (replaced) label("replaces an argument");
    if (deleted) label("deletes a present argument");
    if (m.args.size() > 30) label("> 30 arguments");
    if (ops >= 3 && (replaced || deleted)) nontrivial();
}
PBT_PROP(C05, map, 120000, 3000000, 8, 60,
    "generated operation sequences on one request compared with a map model after every step, under AddressSanitizer with a leak check per case; non-trivial: at least 3 operations of which one replaces or deletes a present argument")
{
    leakcheck(g, c05);
}

// ------------------------------------------------------------------ C06
static void scalar_set(Value *v, const MV &m) {
    switch (m.type) {
        case S64: ((Value64S *)v)->Set((int64_t)m.num); break;
        case U64: ((Value64U *)v)->Set(m.num); break;
        case S32: ((Value32S *)v)->Set((int32_t)m.num); break;
        case U32: ((Value32U *)v)->Set((uint32_t)m.num); break;
        case S16: ((Value16S *)v)->Set((int16_t)m.num); break;
        case U16: ((Value16U *)v)->Set((uint16_t)m.num); break;
        case S8: ((Value8S *)v)->Set((int8_t)m.num); break;
        case U8: ((Value8U *)v)->Set((uint8_t)m.num); break;
    }
}
PBT_PROP(C06, scalar, 1500000, 20000000, 8, 60,
    "sequences of stores into one scalar or string object, getter, conversion operator, size and printed number compared after each; non-trivial: at least two stores")
{
    unsigned n = 1 + g.u(5);
    if (g.flip()) {
        MV m = gen_scalar(g);
        std::unique_ptr<Value> v(g.flip() ? build(m) : CreateValue(m.type));
        for (unsigned i = 0; i < n; i++) {
            if (i) { uint8_t t = m.type; m.num = g.num(bits_of(t)); }
            scalar_set(v.get(), m);
            note("%s ", show(m).c_str());
            std::string d = diff(v.get(), m);
            PBT_CHECK(d.empty(), "%s", d.c_str());
            std::string want = show(m); want = want.substr(want.find(' ') + 1);
            std::string got = v->ToString();
            PBT_CHECK(got.size() >= want.size() && got.compare(got.size() - want.size(), want.size(), want) == 0 &&
                      (got.size() == want.size() || !(isdigit((unsigned char)got[got.size() - want.size() - 1]) || got[got.size() - want.size() - 1] == '-')),
                      "%s prints as '%s'", show(m).c_str(), got.c_str());
        }
        if (n > 1) nontrivial();
        label("scalar");
    } else {
        MV m; m.type = STR;
        m.bytes = g.bytes(g.size(g.chance(1, 10) ? 200000 : 400));
        std::unique_ptr<ValueStr> v;
        switch (g.u(2)) {
            case 0: v.reset(new ValueStr(m.bytes)); break;
            case 1: v.reset(new ValueStr()); v->Set(m.bytes); break;
            default: m.bytes = std::string(m.bytes.c_str()); v.reset(new ValueStr(m.bytes.c_str()));
        }
        for (unsigned i = 0; i < n; i++) {
            if (i) {
                m.bytes = g.bytes(g.size(400));
                if (g.flip()) v->Set(m.bytes);
                else { Exact b(m.bytes); v->Set(b.p, b.n); }
            }
            note("string[%zu] ", m.bytes.size());
            std::string d = diff(v.get(), m);
            PBT_CHECK(d.empty(), "%s", d.c_str());
            PBT_CHECK(v->GetSize() == 9 + m.bytes.size(), "size of a %zu byte string value is %u", m.bytes.size(), v->GetSize());
            std::string t = v->ToString(); (void)t;
        }
        if (n > 1 || m.bytes.size() > 1) nontrivial();
        label("string");
    }
}
// a node of a value's tree together with its model
struct Node { Value *v; MV *m; std::string path; };
static Node pick(Gen &g, Value *v, MV &m) {
    Node n{v, &m, ""};
    while (n.m->type == ARR && !n.m->elems.empty() && g.chance(2, 3)) {
        size_t i = g.u(n.m->elems.size() - 1);
        n.path += "/" + std::to_string(i);
        n.v = ((ValueArr *)n.v)->Get(i); n.m = &n.m->elems[i];
    }
    return n;
}
// an operation whose operands are nodes of the same tree, in any relation
static void alias_op(Gen &g, Value *root, MV &m) {
    Node t = pick(g, root, m), s = pick(g, root, m);
    for (int i = 0; i < 6 && t.m->type != ARR && t.m->type != s.m->type; i++) { t = pick(g, root, m); s = pick(g, root, m); }
    MV x = *s.m;
    if (t.m->type == ARR) {
        auto *a = (ValueArr *)t.v; size_t n = t.m->elems.size();
        switch (g.u(2)) {
            case 0: if (n) { size_t i = g.u(n - 1); note("%s.Set(%zu, own %s) ", t.path.c_str(), i, s.path.c_str()); PBT_CHECK(a->Set(i, s.v), "Set(%zu) with a part of the value refused", i); t.m->elems[i] = x; return; } // fallthrough
            case 1: note("%s.Push(own %s) ", t.path.c_str(), s.path.c_str()); a->Push(s.v); t.m->elems.push_back(x); return;
            default:;
        }
    }
    if (t.m->type == s.m->type) { note("%s.CopyFrom(own %s) ", t.path.c_str(), s.path.c_str()); t.v->CopyFrom(s.v); *t.m = x; }
}
static void c06_array(Gen &g) {
    Lim l; l.str = 30; l.depth = 2; l.elems = 4;
    ValueArr a; MV m; m.type = ARR;
    unsigned ops = 0, oob = 0;
    bool large = g.chance(1, 15);
    auto index = [&]() -> uint32_t {
        size_t n = m.elems.size();
        switch (g.weighted({6, 2, 1, 1})) {
            case 0: return n ? g.u(n - 1) : 0;
            case 1: return n + g.u(2);
            case 2: return (uint32_t)-1 - g.u(3);
            default: return g.num(32);
        }
    };
    while (g.more(large ? 150 : 16) && ops < 600) {
        ops++;
        switch (g.weighted({6, 4, 3, 2, 1, 2, 2})) {
            case 0: { MV v = gen_value(g, l); std::unique_ptr<Value> x(build(v)); a.Push(x.get()); m.elems.push_back(v); note("Push(%s) ", show(v).c_str()); break; }
            case 1: { // set
                uint32_t i = index(); MV v = gen_value(g, l); std::unique_ptr<Value> x(build(v));
                bool in = i < m.elems.size(); if (!in) oob++;
                note("Set(%u) ", i);
                bool ok = a.Set(i, x.get());
                PBT_CHECK(ok == in, "Set(%u) on %zu elements returned %d", i, m.elems.size(), ok);
                if (in) m.elems[i] = v;
                break;
            }
            case 2: { // get
                uint32_t i = index(); bool in = i < m.elems.size(); if (!in) oob++;
                Value *v = a.Get(i);
                PBT_CHECK((v != nullptr) == in, "Get(%u) on %zu elements returned %s", i, m.elems.size(), v ? "a value" : "null");
                if (in) { std::string d = diff(v, m.elems[i]); PBT_CHECK(d.empty(), "Get(%u): %s", i, d.c_str()); }
                break;
            }
            case 3: { uint32_t n = g.size(large ? 3000 : 20); a.New(n); m.elems.assign(n, MV()); note("New(%u) ", n); break; }
            case 4: a.Clear(); m.elems.clear(); note("Clear "); break;
            case 5: { // aliasing: an element of the array, or the array itself
                if (m.elems.empty() || weight(m) > 2000 || depth_of(m) > 6) break;
                label("element aliasing");
                if (g.flip()) { alias_op(g, &a, m); break; }
                uint32_t i = g.u(m.elems.size() - 1), k = g.u(m.elems.size() - 1);
                if (g.flip()) {
                    if (g.flip()) { note("Push(own %u) ", i); MV c = m.elems[i]; a.Push(a.Get(i)); m.elems.push_back(c); }
                    else { note("Set(%u, own %u) ", k, i); MV c = m.elems[i]; PBT_CHECK(a.Set(k, a.Get(i)), "Set with an own element refused"); m.elems[k] = c; }
                } else {
                    if (g.flip()) { note("Push(itself) "); MV c = m; a.Push(&a); m.elems.push_back(c); }
                    else { note("Set(%u, itself) ", k); MV c = m; PBT_CHECK(a.Set(k, &a), "Set with the array itself refused"); m.elems[k] = c; }
                }
                break;
            }
            default: { // modify through the returned element
                if (m.elems.empty()) break;
                uint32_t i = g.u(m.elems.size() - 1);
                if (bits_of(m.elems[i].type)) { m.elems[i].num = g.num(bits_of(m.elems[i].type)); scalar_set(a.Get(i), m.elems[i]); }
                else if (m.elems[i].type == STR) { m.elems[i].bytes = g.bytes(g.size(50)); ((ValueStr *)a.Get(i))->Set(m.elems[i].bytes); }
                note("Modify(%u) ", i);
                break;
            }
        }
        PBT_CHECK(a.Set(0, nullptr) == false, "Set with a null value succeeded");
        PBT_CHECK(a.GetCount() == m.elems.size(), "count is %u, expected %zu", a.GetCount(), m.elems.size());
        if (m.elems.size() < 60 || g.chance(1, 16)) {
            std::string d = diff(&a, m);
            PBT_CHECK(d.empty(), "after %u operations: %s", ops, d.c_str());
            PBT_CHECK(a.GetSize() == enc(m).size(), "size is %u, expected %zu", a.GetSize(), enc(m).size());
        }
    }
    std::string d = diff(&a, m);
    PBT_CHECK(d.empty(), "at the end: %s", d.c_str());
    if (weight(m) < 300) { std::string t = a.ToString(); (void)t; }
    if (oob) label("out-of-range access");
    if (m.elems.size() > 100) label("> 100 elements");
    if (ops >= 3) nontrivial();
}
PBT_PROP(C06, array, 120000, 3000000, 8, 60,
    "operation sequences on one array (push, set, get, new, clear, own elements and the array itself as operands, boundary and wrapped indices) compared with a list model after every step, leak check per case; non-trivial: at least 3 operations")
{
    leakcheck(g, c06_array);
}

// ------------------------------------------------------------------ C07
static void poke(Gen &g, Value *v, MV &m) {   // change a value and its model
    Lim l; l.str = 20; l.depth = 1; l.elems = 3;
    if (bits_of(m.type)) { m.num = g.num(bits_of(m.type)); scalar_set(v, m); }
    else if (m.type == STR) { m.bytes = g.bytes(g.size(60)); ((ValueStr *)v)->Set(m.bytes); }
    else if (m.type == ARR) {
        auto *a = (ValueArr *)v;
        switch (g.u(3)) {
            case 0: { MV x = gen_value(g, l); std::unique_ptr<Value> b(build(x)); a->Push(b.get()); m.elems.push_back(x); break; }
            case 1: if (!m.elems.empty()) { size_t i = g.u(m.elems.size() - 1); poke(g, a->Get(i), m.elems[i]); } break;
            case 2: if (!m.elems.empty()) { size_t i = g.u(m.elems.size() - 1); MV x = gen_value(g, l); std::unique_ptr<Value> b(build(x)); a->Set(i, b.get()); m.elems[i] = x; } break;
            default: a->Clear(); m.elems.clear();
        }
    } else {
        m.bytes = g.bytes(1 + g.size(30)); std::string e = enc(m); Exact b(e); v->Deserialize(b.p, b.n);
    }
}
template<class V> static Value *dup_as(const Value *v) { return new V(*(const V *)v); }
static Value *copy_construct(const Value *v) {
    switch (v->GetType()) {
        case S64: return dup_as<Value64S>(v); case U64: return dup_as<Value64U>(v); case S32: return dup_as<Value32S>(v);
        case U32: return dup_as<Value32U>(v); case S16: return dup_as<Value16S>(v); case U16: return dup_as<Value16U>(v);
        case S8: return dup_as<Value8S>(v); case U8: return dup_as<Value8U>(v); case STR: return dup_as<ValueStr>(v);
        case ARR: return dup_as<ValueArr>(v); default: return dup_as<ValueUndefined>(v);
    }
}
static void c07_value(Gen &g) {
    Lim l; l.str = g.chance(1, 10) ? 5000 : 40; l.elems = g.chance(1, 20) ? 300 : 5; l.depth = 3;
    MV m = gen_value(g, l);
    std::unique_ptr<Value> v(build(m)), c;
    note("%s; ", show(m).c_str());
    classify(m);
    unsigned how = g.u(3);
    if (how == 3 && m.type == ARR && !m.elems.empty()) {
        // alias relations between source and target
        auto *a = (ValueArr *)v.get();
        unsigned k = g.u(4);
        label("aliased copy");
        nontrivial();
        if (k >= 3) {
            for (unsigned n = 1 + g.u(2); n-- && weight(m) < 2000;) {
                alias_op(g, a, m);
                std::string d = diff(a, m);
                PBT_CHECK(d.empty(), "aliased operation: %s", d.c_str());
            }
            return;
        }
        if (k == 0) { note("self copy"); a->CopyFrom(a); }
        else {
            size_t i = g.u(m.elems.size() - 1);
            auto *e = dynamic_cast<ValueArr *>(a->Get(i));
            if (!e) { note("self copy of element"); a->Get(i)->CopyFrom(a->Get(i)); }
            else if (k == 1) { note("copy from own element %zu", i); MV x = m.elems[i]; a->CopyFrom(e); m = x; }
            else { note("copy into own element %zu", i); MV x = m; e->CopyFrom(a); m.elems[i] = x; }
        }
        std::string d = diff(v.get(), m);
        PBT_CHECK(d.empty(), "aliased copy: %s", d.c_str());
        return;
    }
    if (how == 3) { // self copy
        v->CopyFrom(v.get());
        std::string d = diff(v.get(), m);
        PBT_CHECK(d.empty(), "self copy: %s", d.c_str());
        label("self copy");
        return;
    }
    if (how == 2) { c.reset(copy_construct(v.get())); note("copy construction; "); label("copy construction"); }
    else {
        c.reset(CreateValue(m.type));
        if (how == 1) { // filled target
            Lim o; o.str = 60; o.elems = 6; o.depth = 2;
            for (int i = 0; i < 8; i++) { MV x = gen_value(g, o); if (x.type == m.type) { c.reset(build(x)); break; } }
            label("copy onto a filled target");
        }
        note("CopyFrom; ");
        c->CopyFrom(v.get());
    }
    std::string d = diff(c.get(), m);
    PBT_CHECK(d.empty(), "copy: %s", d.c_str());
    d = diff(v.get(), m);
    PBT_CHECK(d.empty(), "copying changed the original: %s", d.c_str());
    MV mc = m;
    nontrivial();
    unsigned n = 1 + g.u(4);
    for (unsigned i = 0; i < n; i++) {
        if (g.flip()) poke(g, v.get(), m); else poke(g, c.get(), mc);
        d = diff(c.get(), mc); PBT_CHECK(d.empty(), "copy after changing one side: %s", d.c_str());
        d = diff(v.get(), m); PBT_CHECK(d.empty(), "original after changing one side: %s", d.c_str());
    }
    if (g.flip()) { v.reset(); d = diff(c.get(), mc); PBT_CHECK(d.empty(), "copy after destroying the original: %s", d.c_str()); }
    else { c.reset(); d = diff(v.get(), m); PBT_CHECK(d.empty(), "original after destroying the copy: %s", d.c_str()); }
}
PBT_PROP(C07, value, 1200000, 20000000, 8, 60,
    "generated values copied by CopyFrom onto fresh or filled targets, by copy construction, onto themselves, into or from their own elements; then both sides changed and destroyed in generated order, each compared with its model, leak check per case; non-trivial: two independent objects or an aliased copy")
{
    leakcheck(g, c07_value);
}
static Request by_value(Request r) { r.SetName(r.GetName() + "!"); return r; }
static void c07_request(Gen &g) {
    Lim l; l.str = 40; l.elems = 5; l.depth = 2; l.args = 8;
    MReq m = gen_request(g, l);
    std::unique_ptr<Request> r(new Request()), c;
    build_into(*r, m);
    if (m.args.size() >= 2 && g.chance(1, 6)) { // repeated names arrive from the wire
        m.args.back().name = m.args.front().name;
        std::string e = enc(m); Exact b(e);
        PBT_CHECK(r->Deserialize(b.p, b.n) == e.size(), "decoding failed");
        label("repeated argument name");
    }
    note("%s; ", show(m).c_str());
    MReq mc = m;
    switch (g.u(4)) {
        case 0: c.reset(new Request("t")); c->CopyFrom(r.get()); note("CopyFrom; "); break;
        case 1: { c.reset(new Request()); Lim o; o.str = 20; o.args = 6; MReq old = gen_request(g, o); build_into(*c, old); c->CopyFrom(r.get()); label("copy onto a filled request"); note("CopyFrom onto filled; "); break; }
        case 2: c.reset(new Request(*r)); label("copy construction"); note("copy construction; "); break;
        case 3: { c.reset(new Request("q")); Lim o; o.str = 20; o.args = 6; build_into(*c, gen_request(g, o)); *c = *r; label("assignment"); note("assignment; "); break; }
        default: {
            if (g.flip()) { r->CopyFrom(r.get()); std::string d = diff(*r, m); PBT_CHECK(d.empty(), "self copy: %s", d.c_str()); label("self copy"); note("self copy; "); }
            else { Request &x = *r; x = *r; std::string d = diff(*r, m); PBT_CHECK(d.empty(), "self assignment: %s", d.c_str()); label("self copy"); }
            Request out = by_value(*r);
            MReq mo = m; mo.name += "!";
            std::string d = diff(out, mo); PBT_CHECK(d.empty(), "passed by value: %s", d.c_str());
            d = diff(*r, m); PBT_CHECK(d.empty(), "passing by value changed the original: %s", d.c_str());
            c.reset(new Request()); c->CopyFrom(r.get());
        }
    }
    nontrivial();
    std::string d = diff(*c, mc); PBT_CHECK(d.empty(), "copy: %s", d.c_str());
    d = diff(*r, m); PBT_CHECK(d.empty(), "copying changed the original: %s", d.c_str());
    unsigned n = 1 + g.u(4);
    for (unsigned i = 0; i < n; i++) {
        Request *t = g.flip() ? r.get() : c.get(); MReq &mt = t == r.get() ? m : mc;
        switch (g.u(3)) {
            case 0: { MV v = gen_value(g, l); std::string nm = gen_name(g, 10); if (MArg *a = find(mt, nm)) a->v = v; else mt.args.push_back({nm, v}); t->Set(nm, build(v), false); break; }
            case 1: if (!mt.args.empty()) {
                auto it = t->GetArguments().begin(); size_t k = g.u(mt.args.size() - 1); std::advance(it, k);
                if (g.chance(1, 4)) { // an argument (or a part of it) becomes the value of the same or another one
                    Node p = pick(g, (*it)->GetValue(), mt.args[k].v); MV x = *p.m;
                    std::string nm = g.flip() ? mt.args[g.u(mt.args.size() - 1)].name : gen_name(g, 10);
                    if (g.flip()) t->Set(nm, p.v, true); else t->Set(nm, *p.v);
                    if (MArg *q = find(mt, nm)) q->v = x; else mt.args.push_back({nm, x});
                    label("own argument set"); note("Set(%s, own) ", hex(nm, 10).c_str());
                } else poke(g, (*it)->GetValue(), mt.args[k].v);
            } break;
            case 2: mt.name = gen_name(g, 10); t->SetName(mt.name); break;
            default: mt.id = g.num(32); t->SetId(mt.id);
        }
        d = diff(*c, mc); PBT_CHECK(d.empty(), "copy after changing one side: %s", d.c_str());
        d = diff(*r, m); PBT_CHECK(d.empty(), "original after changing one side: %s", d.c_str());
    }
    if (g.flip()) { r.reset(); d = diff(*c, mc); PBT_CHECK(d.empty(), "copy after destroying the original: %s", d.c_str()); }
    else { c.reset(); d = diff(*r, m); PBT_CHECK(d.empty(), "original after destroying the copy: %s", d.c_str()); }
}
PBT_PROP(C07, request, 500000, 8000000, 8, 60,
    "as value, for requests (CopyFrom onto fresh and filled targets, copy construction, assignment, by value, self copy); non-trivial: every case")
{
    leakcheck(g, c07_request);
}
static void c07_datum(Gen &g) {
    Lim l; l.str = 40; l.elems = 4; l.depth = 2;
    MV m = gen_value(g, l); std::string n = gen_name(g, 20);
    std::unique_ptr<Datum> a(new Datum()), c;
    a->SetName(n); 
    std::unique_ptr<Value> src(build(m));
    a->SetValue(src.get(), true);
    MV ms = m;
    poke(g, src.get(), ms);                 // changing the caller's value
    std::string d = diff(a->GetValue(), m); PBT_CHECK(d.empty(), "datum value after changing the source: %s", d.c_str());
    src.reset();
    d = diff(a->GetValue(), m); PBT_CHECK(d.empty(), "datum value after destroying the source: %s", d.c_str());
    if (g.flip()) { a->SetValue(a->GetValue(), g.flip()); d = diff(a->GetValue(), m); PBT_CHECK(d.empty(), "datum set to its own value: %s", d.c_str()); label("own value"); }
    if (m.type == ARR && !m.elems.empty() && g.flip()) {
        Node p = pick(g, a->GetValue(), m);
        MV x = *p.m;
        a->SetValue(p.v, true); m = x;
        d = diff(a->GetValue(), m); PBT_CHECK(d.empty(), "datum set to a part of its own value: %s", d.c_str()); label("part of own value");
    }
    if (g.flip()) c.reset(new Datum(*a));
    else { c.reset(new Datum()); if (g.flip()) { c->SetName("z"); c->SetValue(build(gen_value(g, l)), false); } *c = *a; Datum &s = *c; s = *c; }
    MV mc = m; std::string nc = n;
    nontrivial();
    note("datum %s=%s", hex(n, 8).c_str(), show(m).c_str());
    for (int i = 0; i < 3; i++) {
        if (g.flip()) poke(g, a->GetValue(), m); else poke(g, c->GetValue(), mc);
        if (g.flip()) { a->SetName(n = gen_name(g, 10)); } 
        d = diff(a->GetValue(), m); PBT_CHECK(d.empty() && a->GetName() == n, "original datum: %s", d.c_str());
        d = diff(c->GetValue(), mc); PBT_CHECK(d.empty() && c->GetName() == nc, "copied datum: %s", d.c_str());
    }
}
PBT_PROP(C07, datum, 1000000, 10000000, 8, 60,
    "as value, for datums (SetValue by copy, own value, part of the own value, copy construction, assignment); non-trivial: every case")
{
    leakcheck(g, c07_datum);
}

// ------------------------------------------------------------------ large and changing objects
// few choices, many elements: sizes around and beyond 16 and 24 bits
static size_t huge_count(Gen &g) {
    switch (g.u(3)) {
        case 0: return 65534 + g.u(4);
        case 1: return 65536 + g.u(6000);
        case 2: return 131070 + g.u(4);
        default: return 1000 + g.u(150000);
    }
}
static MV gen_huge(Gen &g) {
    MV m;
    switch (g.weighted({4, 3, 2, 1})) {
        case 0: {   // an array of many small elements
            m.type = ARR; size_t n = huge_count(g); unsigned kind = g.u(3); uint64_t k = g.u(255);
            for (size_t i = 0; i < n; i++) {
                MV e; e.type = kind == 0 ? (uint8_t)UNDEF : kind == 1 ? (uint8_t)U8 : kind == 2 ? (uint8_t)S32 : (uint8_t)(S64 + i % 8);
                if (e.type != UNDEF) { e.num = (i + 1) * (2 * k + 1) * 0x9e3779b97f4a7c15ull; if (bits_of(e.type) < 64) e.num &= (1ull << bits_of(e.type)) - 1; }
                m.elems.push_back(e);
            }
            label("array of about or more than 65536 elements"); break; }
        case 1: {   // a string around a boundary
            m.type = STR; size_t n = g.one<size_t>({65535, 65536, 131072, 1u << 20, 1u << 24}) + g.u(40) - 20;
            if (n > (1u << 23)) label("string of more than 16 MB - 20");
            std::string unit = g.bytes(1 + g.u(30)); m.bytes.reserve(n + unit.size());
            while (m.bytes.size() < n) m.bytes += unit;
            m.bytes.resize(n); label("long string"); break; }
        case 2: {   // long strings in an array (the sum passes 24 bits)
            m.type = ARR; size_t n = 2 + g.u(30), len = g.one<size_t>({65536, 600000, 1000}) + g.u(20);
            for (size_t i = 0; i < n; i++) { MV e; e.type = STR; e.bytes.assign(len + i, (char)('a' + i)); m.elems.push_back(e); }
            label("array of long strings"); break; }
        default: {  // raw data
            m.type = UNDEF; m.bytes.assign(65520 + g.u(40), (char)g.u(255)); label("long raw data"); break; }
    }
    if (g.chance(1, 4)) { MV a; a.type = ARR; a.elems.push_back(std::move(m)); if (g.flip()) a.elems.push_back(gen_scalar(g)); m = std::move(a); }
    return m;
}
PBT_PROP(C01, huge, 120, 4000, 8, 60,
    "arrays around and beyond 65536 elements, strings around 2^16, 2^20 and 2^24 bytes, long raw data, also inside arrays and requests, encoded and compared with the independent encoder; non-trivial: always")
{
    MV m = gen_huge(g); nontrivial(); note("%s", show(m).c_str());
    std::unique_ptr<Value> v(build(m));
    std::string want = enc(m);
    PBT_CHECK(v->GetSize() == want.size(), "GetSize() is %u, wire size is %zu", v->GetSize(), want.size());
    std::string got = ser(v.get());
    PBT_CHECK(got == want, "encoding %s", firstdiff(got, want).c_str());
    Request r; MReq q; q.id = g.num(32); q.name = gen_name(g, 40); MArg a; a.name = gen_name(g, 40); a.v = m; q.args.push_back(a); a.name += "2"; a.v = gen_scalar(g); q.args.push_back(a);
    build_into(r, q); want = enc(q);
    PBT_CHECK(r.GetSize() == want.size(), "GetSize() of the request is %u, wire size is %zu", r.GetSize(), want.size());
    got = ser(r);
    PBT_CHECK(got == want, "encoding of the request %s", firstdiff(got, want).c_str());
}
PBT_PROP(C02, huge, 120, 4000, 8, 60,
    "encodings as in C01.huge, and requests of up to 70000 arguments, decoded with and without following bytes into fresh and filled objects; non-trivial: always")
{
    std::string suf = gen_suffix(g); nontrivial();
    if (g.chance(1, 5)) {
        MReq q; q.id = g.num(32); q.name = "many"; size_t n = 65530 + g.u(5000);
        for (size_t i = 0; i < n; i++) { MArg a; a.name = std::to_string(i); a.v.type = U32; a.v.num = i; q.args.push_back(a); }
        std::string e = enc(q); Exact b(e + suf); Request r; if (g.flip()) r.Emplace<Value8U>("old", 1);
        note("request of %zu arguments", n); label("request of more than 65530 arguments");
        uint32_t used = r.Deserialize(b.p, b.n);
        PBT_CHECK(used == e.size(), "decoding request consumed %u of %zu bytes", used, e.size());
        std::string d = diff(r, q); PBT_CHECK(d.empty(), "decoded request: %s", d.c_str());
        PBT_CHECK(ser(r) == e, "re-encoding the decoded request gives other bytes");
        return;
    }
    MV m = gen_huge(g); note("%s", show(m).c_str());
    std::unique_ptr<Value> v(CreateValue(m.type));
    if (g.flip()) { std::unique_ptr<Value> o(build(m.type == ARR ? m.elems[0].type == ARR ? m.elems[0] : m : m)); if (o->GetType() == m.type) v->CopyFrom(o.get()); }
    std::string e = enc(m); Exact b(e + suf);
    uint32_t used = v->Deserialize(b.p, b.n);
    PBT_CHECK(used == e.size(), "decoding consumed %u of %zu bytes", used, e.size());
    std::string d = diff(v.get(), m); PBT_CHECK(d.empty(), "decoded %s", d.c_str());
    PBT_CHECK(ser(v.get()) == e, "re-encoding the decoded value gives other bytes");
}
PBT_PROP(C04, huge, 150, 4000, 8, 60,
    "encodings as in C01.huge with one length or count field changed by 1, 2^8, 2^16 or 2^24, or cut short; oracle as in C04.value; non-trivial: judged must-refuse")
{
    MV m = gen_huge(g); std::string s = enc(m); uint8_t type = m.type; note("%s; ", show(m).c_str());
    std::vector<size_t> f{1}; const MV *x = &m; size_t off = 0;
    for (;;) { if (x->type == STR || x->type == ARR) f.push_back(off + 5); if (x->type != ARR || x->elems.empty()) break; off += 9; f.push_back(off + 1); x = &x->elems[0]; }
    if (g.chance(1, 4)) s.resize(s.size() - 1 - g.u(std::min<size_t>(s.size() - 1, 70000)));
    else {
        size_t o = f[g.u(f.size() - 1)]; uint32_t v; memcpy(&v, &s[o], 4);
        uint32_t d = g.one<uint32_t>({1, 1u << 8, 1u << 16, 1u << 24, 1u << 31, 5}); v = g.flip() ? v + d : v - d; memcpy(&s[o], &v, 4);
        note("field at %zu becomes %u", o, v);
    }
    size_t u = 0; J j = judge_value(s.data(), s.size(), u);
    std::unique_ptr<Value> v(CreateValue(type)); Exact b(s);
    uint32_t used = v->Deserialize(b.p, b.n);
    if (j == BAD) { nontrivial(); label("must refuse"); PBT_CHECK(used == 0, "ill-formed %s value accepted, %u of %zu bytes consumed", type_name(type), used, b.n); }
    else if (j == GOOD) { label("must accept"); PBT_CHECK(used == u, "well-formed value: consumed %u, expected %zu", used, u); }
    else label("not judged");
}
PBT_PROP(C06, huge, 150, 4000, 8, 60,
    "arrays of up to 150000 elements: resizing, pushing across 65536, reading and writing at boundary and wrapped indices, against a list model; strings of the same sizes; non-trivial: always")
{
    nontrivial(); MV m; m.type = ARR; ValueArr a; size_t n = huge_count(g); if (g.flip()) n = 65530 + g.u(10);
    auto all = [&] { std::string d = diff(&a, m); PBT_CHECK(d.empty(), "%s", d.c_str()); };
    a.New(n); m.elems.assign(n, MV()); note("New(%zu) ", n);
    PBT_CHECK(a.GetCount() == n, "%u elements after New(%zu)", a.GetCount(), n);
    for (unsigned q = 2 + g.u(10); q--;) {
        n = m.elems.size();
        uint32_t i = g.one<uint32_t>({0, 255, 256, 65535, 65536, 65537, (uint32_t)n - 1, (uint32_t)n, (uint32_t)n + 65536, 0x80000000u, 0xffffffffu, (uint32_t)(n / 2)});
        switch (g.u(4)) {
            case 0: { Value *v = a.Get(i); PBT_CHECK((v != nullptr) == (i < n), "Get(%u) of %zu elements gives %s", i, n, v ? "something" : "null"); if (v) { std::string d = diff(v, m.elems[i]); PBT_CHECK(d.empty(), "Get(%u): %s", i, d.c_str()); } break; }
            case 1: { MV x = gen_scalar(g); std::unique_ptr<Value> v(build(x)); bool ok = a.Set(i, v.get()); PBT_CHECK(ok == (i < n), "Set(%u) of %zu elements returned %d", i, n, ok); if (ok) m.elems[i] = x; break; }
            case 2: { size_t k = 1 + g.u(20); MV x = gen_scalar(g); std::unique_ptr<Value> v(build(x)); while (k--) { a.Push(v.get()); m.elems.push_back(x); } break; }
            case 3: if (g.chance(1, 3)) { size_t k = g.flip() ? huge_count(g) : g.u(100); a.New(k); m.elems.assign(k, MV()); note("New(%zu) ", k); } break;
            default: { ValueStr s; std::string t(huge_count(g), (char)g.u(255)); if (g.flip()) s.Set(t); else s.Set(t.data(), t.size()); PBT_CHECK(s.Get() == t, "a string of %zu bytes is read back as %zu bytes", t.size(), s.Get().size()); break; }
        }
        PBT_CHECK(a.GetCount() == m.elems.size(), "%u elements, expected %zu", a.GetCount(), m.elems.size());
    }
    all();
}
PBT_PROP(C07, huge, 100, 3000, 8, 60,
    "copies of the objects of C01.huge; non-trivial: always")
{
    nontrivial(); MV m = gen_huge(g); note("%s", show(m).c_str());
    std::unique_ptr<Value> v(build(m)), c(g.flip() ? copy_construct(v.get()) : CreateValue(m.type));
    c->CopyFrom(v.get()); v.reset();
    std::string d = diff(c.get(), m); PBT_CHECK(d.empty(), "copy: %s", d.c_str());
    Request r; r.Set("a", c.get()); Request q(r); r.Set("a", nullptr);
    d = diff(q.Get("a"), m); PBT_CHECK(d.empty(), "copy of a request: %s", d.c_str());
}
// objects whose size and bytes are asked for again and again while parts deep inside of them change
static void c01_changes(Gen &g) {
    Lim l; l.str = 40; l.depth = 3; l.elems = g.chance(1, 4) ? 400 : 8; l.args = 5;
    MReq m; Request r; MV top; std::unique_ptr<Value> v;
    bool req = g.chance(1, 3);
    if (req) { m = gen_request(g, l); build_into(r, m); note("%s; ", show(m).c_str()); }
    else { for (int i = 0; i < 6 && top.type != ARR; i++) top = gen_value(g, l); v.reset(build(top)); note("%s; ", show(top).c_str()); }
    auto check = [&] {
        std::string want = req ? enc(m) : enc(top);
        uint32_t n = req ? r.GetSize() : v->GetSize();
        PBT_CHECK(n == want.size(), "GetSize() is %u after a change, wire size is %zu", n, want.size());
        std::string got = req ? ser(r) : ser(v.get());
        PBT_CHECK(got == want, "encoding after a change %s", firstdiff(got, want).c_str());
    };
    check();
    for (unsigned q = 1 + g.u(6); q--;) {
        if (req && (m.args.empty() || g.chance(1, 3))) {
            std::string name = m.args.size() && g.flip() ? m.args[g.u(m.args.size() - 1)].name : gen_name(g, 8);
            size_t k = 0; while (k < m.args.size() && m.args[k].name != name) k++;
            if (g.chance(1, 4)) { r.Set(name, nullptr); if (k < m.args.size()) m.args.erase(m.args.begin() + k); }
            else { MV x = gen_value(g, l); r.Set(name, build(x), false); if (k < m.args.size()) m.args[k].v = x; else { MArg a; a.name = name; a.v = x; m.args.push_back(a); } }
        } else if (req) { MArg &a = m.args[g.u(m.args.size() - 1)]; poke(g, r.Get(a.name), a.v); }
        else poke(g, v.get(), top);
        if (g.chance(2, 3)) check();
    }
    check();
}
PBT_PROP(C01, changes, 150000, 3000000, 8, 60,
    "a value or request is encoded, then parts at any depth are changed in place (through the pointers that Get returns) and size and encoding compared with the independent encoder after the changes; non-trivial: every case")
{ nontrivial(); leakcheck(g, c01_changes); }


// ------------------------------------------------------------------ C25
static bool valid_name(const std::string &n) {
    if (n.empty() || n.size() > 32) return false;
    for (unsigned char c : n) if (!((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '_' || c == '-')) return false;
    return true;
}
static void c25(Gen &g) {
    Lim l; l.str = 20; l.depth = 1; l.elems = 3;
    Datum d; std::string n; MV m;   // model: empty name, undefined value
    static const char cs[] = "abcxyzABCXYZ0189_-";
    bool saw_valid = false, saw_invalid = false;
    unsigned ops = 1 + g.u(6);
    for (unsigned i = 0; i < ops; i++) {
        switch (g.weighted({5, 2, 1, 2})) {
            case 0: {
                size_t len = g.weighted({3, 3, 1}) == 0 ? g.u(3) : g.flip() ? 30 + g.u(5) : g.u(80);
                n.clear();
                for (size_t k = 0; k < len; k++) n += cs[g.u(sizeof(cs) - 2)];
                if (!n.empty() && g.flip()) n[g.u(n.size() - 1)] = (char)g.u(255);
                note("SetName(%s) ", hex(n, 40).c_str());
                d.SetName(n);
                break;
            }
            case 1: { m = gen_value(g, l); if (g.flip()) d.SetValue(build(m), false); else { std::unique_ptr<Value> v(build(m)); d.SetValue(v.get(), true); } note("SetValue "); break; }
            case 2: d.SetValue(nullptr, g.flip()); m = MV(); note("SetValue(0) "); break;
            default: {
                std::string n2 = gen_name(g, 40); MV m2 = gen_value(g, l);
                std::string e = enc_datum(n2, m2);
                bool spoilt = g.chance(1, 3);
                if (spoilt) e.resize(e.size() - 1);
                Exact b(e);
                uint32_t used = d.Deserialize(b.p, b.n);
                PBT_CHECK(used == (spoilt ? 0 : e.size()), "decode consumed %u", used);
                if (!spoilt) { n = n2; m = m2; }
                note("Decode(%s) ", spoilt ? "cut short" : hex(n2, 8).c_str());
            }
        }
        PBT_CHECK(d.GetName() == n, "name is %s, expected %s", hex(d.GetName()).c_str(), hex(n).c_str());
        PBT_CHECK(d.GetType() == m.type, "type is %d, expected %d", d.GetType(), m.type);
        std::string x = diff(d.GetValue(), m);
        PBT_CHECK(x.empty(), "%s", x.c_str());
        bool want = valid_name(n);
        (want ? saw_valid : saw_invalid) = true;
        PBT_CHECK(d.GetValid() == want, "datum named %s (%zu bytes) reports valid=%d", hex(n, 80).c_str(), n.size(), d.GetValid());
    }
    if (saw_valid) label("valid name"); 
    if (saw_invalid) label("invalid name");
    if (saw_valid && saw_invalid) nontrivial();
}
PBT_PROP(C25, datum, 2500000, 40000000, 8, 60,
    "sequences of name, value and decode operations on a datum, names around the 32 character limit with single foreign bytes; validity, name and value compared with the documented rule; non-trivial: both a valid and an invalid name occur")
{
    leakcheck(g, c25);
}

// ------------------------------------------------------------------ C26
// the text must hold these pieces in this order (numbers as whole numbers)
struct Text {
    const std::string &t; size_t at = 0;
    void lit(const std::string &s, const char *what) {
        size_t p = t.find(s, at);
        PBT_CHECK(p != std::string::npos, "the text lacks %s (%s): %s", what, hex(s).c_str(), hex(t, 300).c_str());
        at = p + s.size();
    }
    void number(const std::string &s, const char *what) {
        for (size_t p = at; (p = t.find(s, p)) != std::string::npos; p++) {
            if (p && (isdigit((unsigned char)t[p - 1]) || t[p - 1] == '-')) continue;
            if (p + s.size() < t.size() && isdigit((unsigned char)t[p + s.size()])) continue;
            at = p + s.size(); return;
        }
        PBT_FAIL("the text lacks %s (%s): %s", what, s.c_str(), hex(t, 300).c_str());
    }
    void value(const MV &m) {
        switch (m.type) {
            case UNDEF: break;      // the library says nothing about its content
            case STR: {
                number(std::to_string(m.bytes.size()), "the length of a string");
                size_t i = 0;       // line by line: lines are indented
                while (i < m.bytes.size()) { size_t e = m.bytes.find('\n', i); if (e == std::string::npos) e = m.bytes.size(); if (e > i) lit(m.bytes.substr(i, e - i), "a line of a string"); i = e + 1; }
                break;
            }
            case ARR: number(std::to_string(m.elems.size()), "the number of elements"); for (auto &e : m.elems) value(e); break;
            default: { std::string s = show(m); number(s.substr(s.find(' ') + 1), "a number"); }
        }
    }
};
PBT_PROP(C26, print, 600000, 12000000, 8, 60,
    "a generated value or request is printed (any indentation): the text holds, in order, every number in decimal, every string with its length and lines, the size and elements of every array and, for a request, its name and the name and value of every argument; printing changes nothing and twice gives the same; non-trivial: an array, a string with a line break or a request with arguments")
{
    Lim l = big_lim(g); l.elems = std::min<size_t>(l.elems, 200); l.args = std::min<size_t>(l.args, 60); l.str = std::min<size_t>(l.str, 3000);
    if (g.flip()) {
        MV m = gen_value(g, l);
        if (g.chance(1, 12)) for (size_t d = g.size(60); d--;) { MV a; a.type = ARR; a.elems.push_back(std::move(m)); m = std::move(a); }
        if (m.type == STR && g.flip()) for (auto &c : m.bytes) if (g.chance(1, 12)) c = '\n';
        if (m.type == ARR || m.bytes.find('\n') != std::string::npos) nontrivial();
        note("%s", show(m).c_str()); label(type_name(m.type));
        std::unique_ptr<Value> v(build(m));
        std::string before = ser(v.get());
        unsigned ind = g.flip() ? 0 : g.size(300);
        std::string t = ind || g.flip() ? v->ToString(ind) : v->ToString();
        PBT_CHECK(t.size() > ind && t.compare(0, ind, std::string(ind, ' ')) == 0, "the text is not indented by %u: %s", ind, hex(t).c_str());
        Text x{t}; x.value(m);
        PBT_CHECK(v->ToString(ind) == t, "printing twice gives different texts");
        PBT_CHECK(ser(v.get()) == before, "printing changed the value");
    } else {
        MReq m = gen_request(g, l); Request r; build_into(r, m);
        if (m.args.size()) nontrivial();
        note("%s", show(m).c_str()); label("request");
        std::string before = ser(r), t = r.ToString();
        Text x{t}; x.lit(m.name, "the name");
        for (auto &a : m.args) { x.lit(a.name, "the name of an argument"); x.value(a.v); }
        PBT_CHECK(r.ToString() == t, "printing twice gives different texts");
        PBT_CHECK(ser(r) == before, "printing changed the request");
    }
}
