// Harness entry points: matchers
#include "arki/core/time.h"
#include "arki/core/binary.h"
#include "arki/types.h"
#include "arki/types-init.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>

using namespace arki;

#include "arki/types/values.h"
// matchers
#include "arki/matcher/utils.h"
#include "arki/matcher/origin.h"
#include "arki/matcher/product.h"
#include "arki/matcher/level.h"
#include "arki/matcher/timerange.h"
#include "arki/matcher/run.h"
#include "arki/matcher/task.h"
#include "arki/matcher/quantity.h"
#include "arki/matcher/area.h"
#include "arki/matcher/proddef.h"

extern "C" {
matcher::Implementation* verif_match_parse(unsigned code, const std::string* pattern)
{
    switch (code)
    {
        case TYPE_ORIGIN:    return matcher::MatchOrigin::parse(*pattern);
        case TYPE_PRODUCT:   return matcher::MatchProduct::parse(*pattern);
        case TYPE_LEVEL:     return matcher::MatchLevel::parse(*pattern);
        case TYPE_TIMERANGE: return matcher::MatchTimerange::parse(*pattern);
        case TYPE_RUN:       return matcher::MatchRun::parse(*pattern);
        case TYPE_TASK:      return matcher::MatchTask::parse(*pattern);
        case TYPE_QUANTITY:  return matcher::MatchQuantity::parse(*pattern);
        case TYPE_AREA:      return matcher::MatchArea::parse(*pattern);
        case TYPE_PRODDEF:   return matcher::MatchProddef::parse(*pattern);
        default:             return nullptr;
    }
}
bool verif_match_item(const matcher::Implementation* m, const types::Type* t) { return m->matchItem(*t); }
bool verif_match_buffer(const matcher::Implementation* m, unsigned code, const uint8_t* data, unsigned size)
{
    return m->match_buffer((types::Code)code, data, size);
}
matcher::Implementation* verif_match_clone(const matcher::Implementation* m) { return m->clone(); }
void verif_match_destroy(matcher::Implementation* m) { delete m; }
}

#include "arki/types/area.h"
#include "arki/types/proddef.h"
#include "arki/types/product.h"

extern "C" {
// items made of key=value lists
types::Type* verif_make_bag_item(unsigned which, const types::ValueBag* vb)
{
    switch (which)
    {
        case 0:  return types::area::GRIB::create(*vb).release();
        case 1:  return types::area::ODIMH5::create(*vb).release();
        case 2:  return types::Proddef::createGRIB(*vb).release();
        case 3:  return types::Product::createBUFR(1, 2, 3, *vb).release();
        default: return nullptr;
    }
}
types::Type* verif_make_area_vm2(unsigned id) { return types::area::VM2::create(id).release(); }
}

