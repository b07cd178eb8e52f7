// Harness entry points: records
#include "arki/core/time.h"
#include "arki/core/binary.h"
#include "arki/types.h"
#include "arki/types-init.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>

using namespace arki;

#include "arki/matcher.h"
#include "arki/matcher/utils.h"
#include "arki/types/itemset.h"
#include "arki/metadata.h"
#include "arki/types/area.h"
#include "arki/types/quantity.h"

// metadata records
#include "arki/metadata/data.h"
#include "arki/types/source.h"
#include "arki/types/note.h"
#include "arki/summary/stats.h"

namespace {
struct Holder
{
    std::shared_ptr<Metadata> md;
};
}

extern "C" {
Metadata* verif_md_new() { return new Metadata; }
void verif_md_destroy(Metadata* m) { delete m; }
void verif_md_set(Metadata* m, const types::Type* t) { m->set(*t); }
void verif_md_unset(Metadata* m, unsigned code) { m->unset((types::Code)code); }
const types::Type* verif_md_get(const Metadata* m, unsigned code) { return m->get((types::Code)code); }
bool verif_md_has(const Metadata* m, unsigned code) { return m->has((types::Code)code); }
void verif_md_add_note(Metadata* m, const std::string* s) { m->add_note(*s); }
void verif_md_clear_notes(Metadata* m) { m->clear_notes(); }
const types::Note* verif_md_last_note(const Metadata* m) { return &m->get_last_note(); }
void verif_md_source_inline(Metadata* m, unsigned long size) { m->set_source(types::Source::createInline(DataFormat::GRIB, size)); }
void verif_md_unset_source(Metadata* m) { m->unset_source(); }
const types::Source* verif_md_source(const Metadata* m) { return &m->source(); }
bool verif_md_has_source(const Metadata* m) { return m->has_source(); }
unsigned long verif_md_data_size(const Metadata* m) { return m->data_size(); }
Holder* verif_md_clone(const Metadata* m) { return new Holder{m->clone()}; }
const Metadata* verif_md_held(const Holder* h) { return h->md.get(); }
bool verif_md_equal(const Metadata* a, const Metadata* b) { return *a == *b; }
bool verif_md_items_equal(const Metadata* a, const Metadata* b) { return a->items_equal(*b); }
void verif_md_merge(Metadata* a, const Metadata* b) { a->merge(*b); }
void verif_md_encode(const Metadata* m, std::vector<uint8_t>* out) { *out = m->encodeBinary(); }
Holder* verif_md_decode(const uint8_t* buf, unsigned size)
{
    core::BinaryDecoder dec(buf, size);
    std::filesystem::path p;
    std::string sig;
    unsigned version;
    core::BinaryDecoder inner = dec.pop_metadata_bundle(sig, version);
    if (sig != "MD" || dec.size)
        return nullptr;
    return new Holder{Metadata::read_binary_inner(inner, version, p, p)};
}
void verif_encode_binary(const types::Type* t, core::BinaryEncoder* e) { t->encodeBinary(*e); }
bool verif_matcher_match_md(const Matcher* m, const Metadata* md) { return (*m)(*md); }

const types::Type* verif_itemset_get(const types::ItemSet* s, unsigned code) { return s->get((types::Code)code); }
bool verif_itemset_has(const types::ItemSet* s, unsigned code) { return s->has((types::Code)code); }
void verif_itemset_unset(types::ItemSet* s, unsigned code) { s->unset((types::Code)code); }
unsigned long verif_itemset_size(const types::ItemSet* s) { return s->size(); }
types::ItemSet* verif_itemset_copy(const types::ItemSet* s) { return new types::ItemSet(*s); }
void verif_itemset_assign(types::ItemSet* a, const types::ItemSet* b) { *a = *b; }
bool verif_itemset_equal(const types::ItemSet* a, const types::ItemSet* b) { return *a == *b; }
int verif_itemset_compare(const types::ItemSet* a, const types::ItemSet* b) { return a->compare(*b); }
void verif_itemset_destroy(types::ItemSet* a) { delete a; }

// statistics
void verif_stats_init(summary::Stats* s) { new (s) summary::Stats; }
void verif_stats_interval(const summary::Stats* s, core::Interval* i) { *i = s->make_interval(); }
void verif_stats_of(summary::Stats* s, const Metadata* md) { new (s) summary::Stats(*md); }
void verif_stats_decode(const uint8_t* buf, unsigned size, summary::Stats* res)
{
    core::BinaryDecoder dec(buf, size);
    *res = *summary::Stats::decode(dec);
}
}

namespace {
// an item of any type: stands for every kind of metadata item
struct AnyItem : public types::Type
{
    unsigned code;
    unsigned id;
    AnyItem(unsigned code, unsigned id) : code(code), id(id) {}
    AnyItem* clone() const override { return new AnyItem(code, id); }
    int compare(const types::Type& o) const override
    {
        if (int res = types::Type::compare(o))
            return res;
        const AnyItem& x = static_cast<const AnyItem&>(o);
        return id < x.id ? -1 : id > x.id ? 1 : 0;
    }
    bool equals(const types::Type& t) const override
    {
        return t.type_code() == code && static_cast<const AnyItem&>(t).id == id;
    }
    std::string tag() const override { return "any"; }
    types::Code type_code() const override { return (types::Code)code; }
    size_t serialisationSizeLength() const override { return 1; }
    void encodeWithoutEnvelope(core::BinaryEncoder& enc) const override { enc.add_unsigned(id, 4); }
    std::ostream& writeToOstream(std::ostream& o) const override { return o; }
    void serialise_local(structured::Emitter& e, const structured::Keys& keys, const Formatter* f = 0) const override {}
};
struct OpenMD : public Metadata
{
    using Metadata::m_index;
};
}

extern "C" {
types::Type* verif_any(unsigned code, unsigned id) { return new AnyItem(code, id); }
unsigned verif_any_id(const types::Type* t) { return static_cast<const AnyItem*>(t)->id; }
Metadata* verif_open_md() { return new OpenMD; }
void verif_md_append(Metadata* m, types::Type* t) { static_cast<OpenMD*>(m)->m_index.raw_append(std::unique_ptr<types::Type>(t)); }
unsigned long verif_md_size(const Metadata* m) { return static_cast<const OpenMD*>(m)->m_index.size(); }
const types::Type* verif_md_at(const Metadata* m, unsigned long pos) { return *(static_cast<const OpenMD*>(m)->m_index.begin() + pos); }
void verif_md_take(Metadata* m, types::Type* t) { m->test_set(std::unique_ptr<types::Type>(t)); }
void verif_md_take_note(Metadata* m, types::Type* t) { m->add_note(std::unique_ptr<types::Note>(reinterpret_cast<types::Note*>(t))); }
void verif_md_take_source(Metadata* m, types::Type* t) { m->set_source(std::unique_ptr<types::Source>(reinterpret_cast<types::Source*>(t))); }
unsigned verif_md_notes(const Metadata* m, unsigned long* first)
{
    auto n = m->notes();
    *first = n.first - static_cast<const OpenMD*>(m)->m_index.begin();
    return n.second - n.first;
}
unsigned verif_md_diff(const Metadata* a, const Metadata* b, unsigned* out)
{
    unsigned n = 0;
    a->diff_items(*b, [&](types::Code code, const types::Type* x, const types::Type* y) {
        out[3 * n] = code;
        out[3 * n + 1] = x ? verif_any_id(x) : 0xffffffff;
        out[3 * n + 2] = y ? verif_any_id(y) : 0xffffffff;
        ++n;
    });
    return n;
}
unsigned long verif_itemset_list(const types::ItemSet* s, unsigned* out)
{
    unsigned long n = 0;
    for (const auto& i : *s)
    {
        out[2 * n] = i.first;
        out[2 * n + 1] = verif_any_id(i.second);
        ++n;
    }
    return n;
}
}

#include "arki/types/source/blob.h"
#include "arki/types/source/inline.h"
#include "arki/types/source/url.h"
#include "arki/types/quantity.h"
#include <set>

extern "C" {
types::Type* verif_source_inline(unsigned fmt, unsigned long size) { return types::Source::createInline((DataFormat)fmt, size).release(); }
types::Type* verif_source_url(unsigned fmt, const std::string* url) { return types::Source::createURL((DataFormat)fmt, *url).release(); }
types::Type* verif_source_blob(unsigned fmt, const std::string* base, const std::string* name, unsigned long offset, unsigned long size)
{
    return types::Source::createBlobUnlocked((DataFormat)fmt, *base, *name, offset, size).release();
}
unsigned verif_source_format(const types::Source* s) { return (unsigned)s->format; }
unsigned verif_source_style(const types::Source* s) { return (unsigned)s->style(); }
unsigned long verif_source_inline_size(const types::source::Inline* s) { return s->size; }
const std::string* verif_source_url_url(const types::source::URL* s) { return &s->url; }
const std::string* verif_source_blob_name(const types::source::Blob* s) { return &s->filename.native(); }
unsigned long verif_source_blob_offset(const types::source::Blob* s) { return s->offset; }
unsigned long verif_source_blob_size(const types::source::Blob* s) { return s->size; }
types::Type* verif_quantity(const std::string* a, const std::string* b, const std::string* c)
{
    std::set<std::string> s;
    if (a) s.insert(*a);
    if (b) s.insert(*b);
    if (c) s.insert(*c);
    return types::Quantity::create(s).release();
}
unsigned verif_quantity_get(const types::Quantity* q, std::string* out)
{
    unsigned n = 0;
    for (const auto& s : q->get())
        out[n++] = s;
    return n;
}
unsigned verif_area_vm2_id(const types::Area* a) { return a->get_VM2(); }
}
extern "C" std::string* verif_strings() { return new std::string[4]; }
