// Reference model of Dowow values and requests, and an independent codec.
#pragma once
#include "pbt.hpp"
#include "Value.hpp"
#include "Datum.hpp"
#include "Request.hpp"
#include "values/All.hpp"
#include <memory>
#include <string>
#include <vector>

namespace model {
using namespace DowowNetwork;
using pbt::Gen;

enum T : uint8_t { UNDEF = 0, S64, U64, S32, U32, S16, U16, U8, S8, STR, ARR };

struct MV {
    uint8_t type = UNDEF;
    uint64_t num = 0;            // two's complement, masked to the width
    std::string bytes;           // STR content or UNDEF raw data
    std::vector<MV> elems;       // ARR
    bool operator==(const MV &o) const { return type == o.type && num == o.num && bytes == o.bytes && elems == o.elems; }
    bool operator!=(const MV &o) const { return !(*this == o); }
};
struct MArg { std::string name; MV v; };
struct MReq {
    uint32_t id = 0;
    std::string name;
    std::vector<MArg> args;
};

unsigned bits_of(uint8_t type);          // 0 for non-scalars
const char *type_name(uint8_t type);

// ---- reference codec
std::string enc(const MV &v);
std::string enc_datum(const std::string &name, const MV &v);
std::string enc(const MReq &r);
std::string le(uint64_t v, unsigned n);
// strict decoder: true iff [p,p+n) starts with a well-formed value; used = its length
bool dec(const char *p, size_t n, MV &out, size_t &used, int depth = 0);
bool dec_datum(const char *p, size_t n, std::string &name, MV &out, size_t &used);
bool dec_req(const char *p, size_t n, MReq &out, size_t &used);

// ---- generators
struct Lim { size_t str = 4096; int depth = 4; size_t elems = 12; size_t name = 40; size_t args = 8; bool undef_data = true; };
MV gen_value(Gen &g, const Lim &l, int depth = 0);
MV gen_scalar(Gen &g);
std::string gen_name(Gen &g, size_t max);
MReq gen_request(Gen &g, const Lim &l);
size_t weight(const MV &v);      // number of values in the tree
int depth_of(const MV &v);

// ---- bridge to the library
Value *build(const MV &v);               // through the public API
void build_into(Request &r, const MReq &m);
// empty string if equal, else what differs
std::string diff(const Value *v, const MV &m);
std::string diff(const Request &r, const MReq &m);
MV read(const Value *v);                 // library value -> model (through getters)
std::string show(const MV &v);
std::string show(const MReq &r);

// serialize through the library, checking the reported size against ASan bounds
std::string ser(const Value *v);
std::string ser(Datum &d);
std::string ser(const Request &r);
}
