// Harness entry points used by the contracts (ghost drivers): thin wrappers that only give an unmangled name to inline
// members of /repo or drive a callback.  Nothing of the code under test is replaced here.
#include "arki/core/time.h"
#include "arki/core/binary.h"
#include "arki/types.h"
#include "arki/types-init.h"
#include <functional>

using namespace arki;

extern "C" {

bool verif_interval_eq(const core::Interval* a, const core::Interval* b) { return *a == *b; }
bool verif_interval_ne(const core::Interval* a, const core::Interval* b) { return *a != *b; }

// ghost state of an iter_months run
struct VerifMonths
{
    core::Time last_end;
    unsigned count;
    unsigned bad;        // gaps, overlaps or pieces that are not inside one calendar month
};

void verif_iter_months(const core::Interval* i, VerifMonths* g)
{
    g->count    = 0;
    g->bad      = 0;
    g->last_end = i->begin;
    i->iter_months([g](const core::Interval& m) {
        if (m.begin != g->last_end)
            g->bad = 1;
        core::Time next = m.begin.start_of_next_month();
        if (m.end > next || m.end < m.begin)
            g->bad = 2;
        g->last_end = m.end;
        ++g->count;
        return true;
    });
}

void verif_init_types()
{
    static bool done = false;
    if (done)
        return;
    done = true;
    types::init_default_types();
}
}

extern "C" {
// virtual members, called through the vtable of the object
bool verif_equals(const types::Type* a, const types::Type* b) { return a->equals(*b); }
int verif_compare(const types::Type* a, const types::Type* b) { return a->compare(*b); }
void verif_destroy(types::Type* a) { delete a; }
types::Type* verif_clone(const types::Type* a) { return a->clone(); }
unsigned verif_type_code(const types::Type* a) { return a->type_code(); }
}
extern "C" {
void verif_encode_inner(const types::Type* a, core::BinaryEncoder* enc) { a->encodeWithoutEnvelope(*enc); }
}

