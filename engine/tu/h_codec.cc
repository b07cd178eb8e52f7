// Harness entry points: levels made of floating point numbers (passed as their representation), numbers of the codec
#include "arki/core/time.h"
#include "arki/core/binary.h"
#include "arki/types.h"
#include "arki/types/level.h"
#include "arki/matcher/utils.h"
#include "arki/matcher/level.h"
#include <cstring>
#include <string>
#include <vector>

using namespace arki;

static double num(uint64_t v)
{
    double d;
    memcpy(&d, &v, 8);
    return d;
}
static uint64_t rep(double d)
{
    uint64_t v;
    memcpy(&v, &d, 8);
    return v;
}

extern "C" {
types::Type* verif_level_odimh5(uint64_t min, uint64_t max) { return types::Level::createODIMH5(num(min), num(max)).release(); }
void verif_level_odimh5_get(const types::Type* t, uint64_t* out)
{
    double a, b;
    static_cast<const types::Level*>(t)->get_ODIMH5(a, b);
    out[0] = rep(a);
    out[1] = rep(b);
}
matcher::Implementation* verif_level_odimh5_matcher(const uint64_t* v, unsigned n, uint64_t offset, uint64_t min, uint64_t max)
{
    std::vector<double> vals;
    for (unsigned i = 0; i < n; ++i)
        vals.push_back(num(v[i]));
    return new matcher::MatchLevelODIMH5(vals, num(offset), num(min), num(max));
}
// ghost: numbers as numbers
bool verif_fp_lt(uint64_t a, uint64_t b) { return num(a) < num(b); }
bool verif_fp_isnum(uint64_t a) { return num(a) == num(a); }
uint64_t verif_fp_add(uint64_t a, uint64_t b) { return rep(num(a) + num(b)); }
uint64_t verif_fp_sub(uint64_t a, uint64_t b) { return rep(num(a) - num(b)); }

void verif_add_signed(core::BinaryEncoder* e, int v, unsigned n) { e->add_signed(v, n); }
void verif_add_cstring(core::BinaryEncoder* e, const char* s) { e->add_string(s); }
void verif_add_double(core::BinaryEncoder* e, uint64_t v) { e->add_double(num(v)); }
void verif_set_double(uint8_t* buf, uint64_t v) { core::BinaryEncoder::set_double(buf, num(v)); }
uint64_t verif_pop_double(core::BinaryDecoder* d) { return rep(d->pop_double("number")); }
void verif_add_float(core::BinaryEncoder* e, uint32_t v)
{
    float f;
    memcpy(&f, &v, 4);
    e->add_float(f);
}
uint32_t verif_pop_float(core::BinaryDecoder* d)
{
    float f = d->pop_float("number");
    uint32_t v;
    memcpy(&v, &f, 4);
    return v;
}
void verif_skip_leading(core::BinaryDecoder* d, unsigned v) { d->skip_leading(v); }
void verif_pop_data_copy(std::vector<uint8_t>* out, core::BinaryDecoder* d, uint64_t n) { *out = d->pop_data_copy(n, "data"); }
void verif_pop_line(std::string* out, core::BinaryDecoder* d, int sep) { *out = d->pop_line((char)sep); }
void verif_pop_line_sep(std::string* out, core::BinaryDecoder* d, const std::string* sep) { *out = d->pop_line(*sep); }
void verif_pop_data(core::BinaryDecoder* out, core::BinaryDecoder* d, uint64_t n) { *out = d->pop_data(n, "data"); }
unsigned verif_pop_envelope(core::BinaryDecoder* out, core::BinaryDecoder* d)
{
    TypeCode code;
    *out = d->pop_type_envelope(code);
    return code;
}
unsigned verif_pop_bundle(core::BinaryDecoder* out, core::BinaryDecoder* d, std::string* sig)
{
    unsigned version;
    *out = d->pop_metadata_bundle(*sig, version);
    return version;
}
}
