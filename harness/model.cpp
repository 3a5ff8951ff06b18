#include "model.hpp"
#include "values/CreateValue.hpp"
#include <cstring>

namespace model {

unsigned bits_of(uint8_t t) {
    switch (t) {
        case S64: case U64: return 64;
        case S32: case U32: return 32;
        case S16: case U16: return 16;
        case S8: case U8: return 8;
        default: return 0;
    }
}
const char *type_name(uint8_t t) {
    static const char *n[] = {"undefined", "int64", "uint64", "int32", "uint32", "int16", "uint16", "uint8", "int8", "string", "array"};
    return t <= ARR ? n[t] : "?";
}
static bool is_signed(uint8_t t) { return t == S64 || t == S32 || t == S16 || t == S8; }

std::string le(uint64_t v, unsigned n) {
    std::string s;
    for (unsigned i = 0; i < n; i++) s += (char)(v >> (8 * i));
    return s;
}
std::string enc(const MV &v) {
    std::string c;
    if (unsigned b = bits_of(v.type)) c = le(v.num, b / 8);
    else if (v.type == STR) c = le(v.bytes.size(), 4) + v.bytes;
    else if (v.type == ARR) {
        c = le(v.elems.size(), 4);
        for (auto &e : v.elems) c += enc(e);
    } else c = v.bytes;
    std::string r;
    r.reserve(c.size() + 5);
    r += (char)v.type;
    r += le(c.size(), 4);
    r += c;
    return r;
}
std::string enc_datum(const std::string &name, const MV &v) {
    std::string e = enc(v);
    return le(6 + name.size() + e.size(), 4) + le(name.size(), 2) + name + e;
}
std::string enc(const MReq &r) {
    std::string a;
    for (auto &x : r.args) a += enc_datum(x.name, x.v);
    return le(10 + r.name.size() + a.size(), 4) + le(r.id, 4) + le(r.name.size(), 2) + r.name + a;
}
static uint64_t rd(const char *p, unsigned n) {
    uint64_t v = 0;
    for (unsigned i = 0; i < n; i++) v |= (uint64_t)(unsigned char)p[i] << (8 * i);
    return v;
}
bool dec(const char *p, size_t n, MV &out, size_t &used, int depth) {
    if (n < 5) return false;
    uint8_t t = p[0];
    uint64_t len = rd(p + 1, 4);
    if (t > ARR) return false;
    if (len > n - 5) return false;
    const char *c = p + 5;
    out = MV();
    out.type = t;
    used = 5 + len;
    if (unsigned b = bits_of(t)) {
        if (len != b / 8) return false;
        out.num = rd(c, b / 8);
        return true;
    }
    if (t == STR) {
        if (len < 4 || rd(c, 4) != len - 4) return false;
        out.bytes.assign(c + 4, len - 4);
        return true;
    }
    if (t == ARR) {
        if (len < 4) return false;
        uint64_t cnt = rd(c, 4);
        size_t off = 4;
        for (uint64_t i = 0; i < cnt; i++) {
            MV e; size_t u;
            if (off > len || !dec(c + off, len - off, e, u, depth + 1)) return false;
            out.elems.push_back(std::move(e));
            off += u;
        }
        return off == len;
    }
    out.bytes.assign(c, len);
    return true;
}
bool dec_datum(const char *p, size_t n, std::string &name, MV &out, size_t &used) {
    if (n < 6) return false;
    uint64_t total = rd(p, 4), nl = rd(p + 4, 2);
    if (total > n || total < 6 + nl + 5) return false;
    name.assign(p + 6, nl);
    size_t u;
    if (!dec(p + 6 + nl, total - 6 - nl, out, u)) return false;
    if (u != total - 6 - nl) return false;
    used = total;
    return true;
}
bool dec_req(const char *p, size_t n, MReq &out, size_t &used) {
    out = MReq();
    if (n < 10) return false;
    uint64_t total = rd(p, 4), nl = rd(p + 8, 2);
    if (total > n || total < 10 + nl) return false;
    out.id = rd(p + 4, 4);
    out.name.assign(p + 10, nl);
    size_t off = 10 + nl;
    while (off < total) {
        MArg a; size_t u;
        if (!dec_datum(p + off, total - off, a.name, a.v, u)) return false;
        out.args.push_back(std::move(a));
        off += u;
    }
    used = total;
    return true;
}

MV gen_scalar(Gen &g) {
    MV v;
    v.type = S64 + g.u(7);
    v.num = g.num(bits_of(v.type));
    return v;
}
MV gen_value(Gen &g, const Lim &l, int depth) {
    MV v;
    switch (g.weighted({5, 4, depth < l.depth ? 3u : 0u, 1})) {
        case 0: return gen_scalar(g);
        case 1: v.type = STR; v.bytes = g.bytes(g.size(l.str)); return v;
        case 2: {
            v.type = ARR;
            size_t n = g.size(l.elems);
            for (size_t i = 0; i < n; i++) {
                if (n > 40) v.elems.push_back(gen_scalar(g));
                else v.elems.push_back(gen_value(g, l, depth + 1));
            }
            return v;
        }
        default:
            v.type = UNDEF;
            if (l.undef_data && g.flip()) v.bytes = g.bytes(g.size(l.str));
            return v;
    }
}
std::string gen_name(Gen &g, size_t max) {
    static const char cs[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0189_-";
    switch (g.weighted({6, 2, 1, 1})) {
        case 0: { // short and colliding
            size_t n = g.u(2); std::string s;
            for (size_t i = 0; i < n + 1; i++) s += (char)('a' + g.u(2));
            return s;
        }
        case 1: {
            size_t n = g.u(std::min<size_t>(max, 32)); std::string s;
            for (size_t i = 0; i < n; i++) s += cs[g.u(sizeof(cs) - 2)];
            return s;
        }
        case 2: return g.bytes(g.size(max));
        default: return g.bytes(g.u(std::min<size_t>(max, 300)));
    }
}
MReq gen_request(Gen &g, const Lim &l) {
    MReq r;
    r.id = g.num(32);
    r.name = gen_name(g, l.name);
    size_t n = g.size(l.args);
    for (size_t i = 0; i < n; i++) {
        MArg a;
        a.name = gen_name(g, l.name);
        for (unsigned k = 0;; k++) {
            bool dup = false;
            for (auto &x : r.args) if (x.name == a.name) dup = true;
            if (!dup) break;
            std::string t = "#" + std::to_string(i) + (k ? "." + std::to_string(k) : "");
            if (a.name.size() + t.size() > l.name) a.name.resize(l.name > t.size() + 4 ? l.name - t.size() - 4 : 0);
            a.name += t;
        }
        a.v = n > 40 ? gen_scalar(g) : gen_value(g, l);
        r.args.push_back(std::move(a));
    }
    return r;
}
size_t weight(const MV &v) { size_t s = 1; for (auto &e : v.elems) s += weight(e); return s; }
int depth_of(const MV &v) { int d = 0; for (auto &e : v.elems) d = std::max(d, depth_of(e) + 1); return d; }

Value *build(const MV &v) {
    switch (v.type) {
        case S64: return new Value64S((int64_t)v.num);
        case U64: return new Value64U(v.num);
        case S32: return new Value32S((int32_t)v.num);
        case U32: return new Value32U((uint32_t)v.num);
        case S16: return new Value16S((int16_t)v.num);
        case U16: return new Value16U((uint16_t)v.num);
        case S8: return new Value8S((int8_t)v.num);
        case U8: return new Value8U((uint8_t)v.num);
        case STR: return new ValueStr(v.bytes);
        case ARR: {
            ValueArr *a = new ValueArr();
            for (auto &e : v.elems) {
                std::unique_ptr<Value> x(build(e));
                a->Push(x.get());
            }
            return a;
        }
        default: {
            ValueUndefined *u = new ValueUndefined();
            if (!v.bytes.empty()) {   // raw data can only come from decoding
                std::string e = enc(v);
                uint32_t r = u->Deserialize(e.data(), e.size());
                if (r != e.size()) PBT_FAIL("decoding raw data of %zu bytes consumed %u of %zu", v.bytes.size(), r, e.size());
            }
            return u;
        }
    }
}
void build_into(Request &r, const MReq &m) {
    r.SetName(m.name);
    r.SetId(m.id);
    for (auto &a : m.args) r.Set(a.name, build(a.v), false);
}

std::string ser(const Value *v) {
    uint32_t n = v->GetSize();
    const char *p = v->Serialize();
    if (!p) PBT_FAIL("Serialize() of a value returned null");
    std::string s(p, n);
    delete[] p;
    if (v->GetSize() != n) PBT_FAIL("GetSize() changed by Serialize()");
    return s;
}
std::string ser(Datum &d) {
    uint32_t n = d.GetSize();
    char *p = d.Serialize();
    if (!p) PBT_FAIL("Serialize() of a datum returned null");
    std::string s(p, n);
    delete[] p;
    return s;
}
std::string ser(const Request &r) {
    uint32_t n = r.GetSize();
    const char *p = r.Serialize();
    if (!p) PBT_FAIL("Serialize() of a request returned null");
    std::string s(p, n);
    delete[] p;
    return s;
}

template<class V, class I> static bool getnum(const Value *v, uint64_t &out) {
    auto *x = dynamic_cast<const V *>(v);
    if (!x) return false;
    I a = x->Get(), b = (I)*x;
    if (a != b) PBT_FAIL("getter and conversion operator disagree for %s", type_name(v->GetType()));
    out = (uint64_t)(typename std::make_unsigned<I>::type)a;
    return true;
}

MV read(const Value *v) {
    MV m;
    m.type = v->GetType();
    bool ok = true;
    switch (m.type) {
        case S64: ok = getnum<Value64S, int64_t>(v, m.num); break;
        case U64: ok = getnum<Value64U, uint64_t>(v, m.num); break;
        case S32: ok = getnum<Value32S, int32_t>(v, m.num); break;
        case U32: ok = getnum<Value32U, uint32_t>(v, m.num); break;
        case S16: ok = getnum<Value16S, int16_t>(v, m.num); break;
        case U16: ok = getnum<Value16U, uint16_t>(v, m.num); break;
        case S8: ok = getnum<Value8S, int8_t>(v, m.num); break;
        case U8: ok = getnum<Value8U, uint8_t>(v, m.num); break;
        case STR: {
            auto *s = dynamic_cast<const ValueStr *>(v);
            if (!s) { ok = false; break; }
            m.bytes = s->Get();
            std::string o = *s;
            if (o != m.bytes) PBT_FAIL("string getter and conversion disagree");
            break;
        }
        case ARR: {
            auto *a = dynamic_cast<const ValueArr *>(v);
            if (!a) { ok = false; break; }
            for (uint32_t i = 0; i < a->GetCount(); i++) {
                Value *e = a->Get(i);
                if (!e) PBT_FAIL("array of %u elements has no element %u", a->GetCount(), i);
                m.elems.push_back(read(e));
            }
            break;
        }
        case UNDEF: {
            ok = dynamic_cast<const ValueUndefined *>(v);
            std::string s = ser(v);
            if (s.size() >= 5) m.bytes = s.substr(5);
            break;
        }
        default: ok = false;
    }
    if (!ok) PBT_FAIL("value claims type %d but is of another class", m.type);
    return m;
}

std::string show(const MV &v) {
    if (bits_of(v.type)) {
        std::string n;
        if (is_signed(v.type)) {
            unsigned sh = 64 - bits_of(v.type);
            n = std::to_string((int64_t)(v.num << sh) >> sh);
        } else n = std::to_string(v.num);
        return std::string(type_name(v.type)) + " " + n;
    }
    if (v.type == STR) return "string[" + std::to_string(v.bytes.size()) + "] " + pbt::hex(v.bytes, 12);
    if (v.type == ARR) {
        std::string s = "array[" + std::to_string(v.elems.size()) + "]{";
        for (size_t i = 0; i < v.elems.size() && s.size() < 200; i++) s += (i ? ", " : "") + show(v.elems[i]);
        return s + "}";
    }
    return "undefined[" + std::to_string(v.bytes.size()) + "]";
}
std::string show(const MReq &r) {
    std::string s = "request id=" + std::to_string(r.id) + " name[" + std::to_string(r.name.size()) + "]=" + (r.name.size() < 20 ? r.name : pbt::hex(r.name, 8)) + " (";
    for (size_t i = 0; i < r.args.size() && s.size() < 400; i++)
        s += (i ? ", " : "") + std::string(r.args[i].name.size() < 20 ? r.args[i].name : pbt::hex(r.args[i].name, 8)) + "=" + show(r.args[i].v);
    return s + ")";
}

std::string diff(const Value *v, const MV &m) {
    if (!v) return "value is null, expected " + show(m);
    if (v->GetType() != m.type) return std::string("type ") + type_name(v->GetType()) + ", expected " + type_name(m.type);
    MV x = read(v);
    if (x != m) {
        if (m.type == ARR && x.elems.size() == m.elems.size()) {
            for (size_t i = 0; i < m.elems.size(); i++)
                if (x.elems[i] != m.elems[i]) return "element " + std::to_string(i) + " is " + show(x.elems[i]) + ", expected " + show(m.elems[i]);
        }
        return "value is " + show(x) + ", expected " + show(m);
    }
    return "";
}
std::string diff(const Request &r, const MReq &m) {
    if (r.GetName() != m.name) return "name is " + pbt::hex(r.GetName()) + ", expected " + pbt::hex(m.name);
    if (r.GetId() != m.id) return "id is " + std::to_string(r.GetId()) + ", expected " + std::to_string(m.id);
    auto &l = r.GetArguments();
    if (l.size() != m.args.size()) return std::to_string(l.size()) + " arguments, expected " + std::to_string(m.args.size());
    size_t i = 0;
    for (auto *d : l) {
        if (d->GetName() != m.args[i].name) return "argument " + std::to_string(i) + " is named " + pbt::hex(d->GetName()) + ", expected " + pbt::hex(m.args[i].name);
        std::string e = diff(d->GetValue(), m.args[i].v);
        if (!e.empty()) return "argument " + std::to_string(i) + ": " + e;
        i++;
    }
    return "";
}
}
