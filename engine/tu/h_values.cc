// Harness entry points: key=value lists
#include "arki/core/time.h"
#include "arki/core/binary.h"
#include "arki/types.h"
#include "arki/types-init.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>

using namespace arki;

// key=value lists
#include <vector>
#include <string>
#include <memory>
#define protected public // only the harness below looks inside
#include "arki/types/values.h"
#undef protected

extern "C" {
types::values::ValueBagBuilder* verif_vb_builder() { return new types::values::ValueBagBuilder; }
void verif_vb_add_int(types::values::ValueBagBuilder* b, const std::string* k, int v) { b->add(*k, v); }
void verif_vb_add_str(types::values::ValueBagBuilder* b, const std::string* k, const std::string* v) { b->add(*k, *v); }
types::ValueBag* verif_vb_build(const types::values::ValueBagBuilder* b) { return new types::ValueBag(b->build()); }
types::ValueBagMatcher* verif_vb_matcher(types::values::ValueBagBuilder* b)
{
    auto* m = new types::ValueBagMatcher;
    m->values = b->values.values;
    b->values.values.clear();
    return m;
}
bool verif_vb_is_subset(const types::ValueBagMatcher* m, const types::ValueBag* vb) { return m->is_subset(*vb); }
int verif_vb_compare(const types::ValueBag* a, const types::ValueBag* b) { return a->compare(*b); }
bool verif_vb_equals(const types::ValueBag* a, const types::ValueBag* b) { return *a == *b; }
void verif_vb_encode(const types::ValueBag* a, core::BinaryEncoder* e) { a->encode(*e); }
types::ValueBag* verif_vb_of(const uint8_t* data, unsigned size) { return new types::ValueBag(data, size, false); }
types::ValueBag* verif_vb_copy(const types::ValueBag* a) { return new types::ValueBag(*a); }
bool verif_vb_empty(const types::ValueBag* a) { return a->empty(); }
}

