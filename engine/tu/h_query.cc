// Harness entry points: queries
#include "arki/core/time.h"
#include "arki/core/binary.h"
#include "arki/types.h"
#include "arki/types-init.h"
#include <functional>
#include <memory>
#include <string>
#include <vector>

using namespace arki;

// query structure
#include "arki/matcher.h"
#include "arki/matcher/reftime.h"
#include "arki/matcher/reftime/parser.h"
#include "arki/core/fuzzytime.h"
#include "arki/types/itemset.h"
#include "arki/metadata.h"

namespace {
// an alternative that gives a stated answer: stands for any expression
struct Fixed : public matcher::Implementation
{
    unsigned id;
    unsigned answer;
    Fixed(unsigned id, unsigned answer) : id(id), answer(answer) {}
    Fixed* clone() const override { return new Fixed(id, answer); }
    std::string name() const override { return "fixed"; }
    bool matchItem(const types::Type&) const override { return answer != 0; }
    bool match_buffer(types::Code, const uint8_t*, unsigned) const override { return answer != 0; }
    std::string toString() const override { return std::string(1, 'a' + id); }
};
struct OpenOR : public matcher::OR
{
    using OR::OR;
    void add(matcher::Implementation* m) { components.emplace_back(m); }
};
struct OpenAND : public matcher::AND
{
    void set(types::Code code, matcher::OR* o) { components[code] = std::shared_ptr<matcher::OR>(o); }
};
}

extern "C" {
matcher::Implementation* verif_fixed(unsigned id, unsigned answer) { return new Fixed(id, answer); }
OpenOR* verif_or_new() { return new OpenOR(""); }
void verif_or_add(OpenOR* o, matcher::Implementation* m) { o->add(m); }
OpenAND* verif_and_new() { return new OpenAND; }
void verif_and_set(OpenAND* o, unsigned code, matcher::OR* m) { o->set((types::Code)code, m); }
matcher::AND* verif_and_clone(const matcher::AND* a) { return a->clone(); }
void verif_and_merge(matcher::AND* a, const matcher::AND* b) { a->merge(*b); }
void verif_and_update(matcher::AND* a, const matcher::AND* b) { a->update(*b); }
bool verif_and_match_set(const matcher::AND* a, const types::ItemSet* s) { return a->matchItemSet(*s); }
types::ItemSet* verif_itemset_new() { return new types::ItemSet; }
void verif_itemset_set(types::ItemSet* s, const types::Type* t) { s->set(*t); }

Matcher* verif_matcher(matcher::AND* a) { return a ? new Matcher(std::shared_ptr<matcher::AND>(a)) : new Matcher; }
bool verif_matcher_match_set(const Matcher* m, const types::ItemSet* s) { return (*m)(*s); }
bool verif_matcher_match_item(const Matcher* m, const types::Type* t) { return (*m)(*t); }
bool verif_matcher_match_interval(const Matcher* m, const core::Interval* t) { return (*m)(*t); }
bool verif_matcher_match_buffer(const Matcher* m, unsigned code, const uint8_t* data, unsigned size)
{
    return (*m)((types::Code)code, data, size);
}
bool verif_matcher_intersect_interval(const Matcher* m, core::Interval* i) { return m->intersect_interval(*i); }
Matcher* verif_matcher_merge(const Matcher* a, const Matcher* b) { return new Matcher(a->merge(*b)); }
Matcher* verif_matcher_update(const Matcher* a, const Matcher* b) { return new Matcher(a->update(*b)); }
bool verif_matcher_empty(const Matcher* a) { return a->empty(); }
void verif_matcher_split(const Matcher* m, unsigned codes, Matcher* with, Matcher* without)
{
    std::set<types::Code> cs;
    for (unsigned i = 0; i < 32; ++i)
        if (codes & (1u << i))
            cs.insert((types::Code)i);
    m->split(cs, *with, *without);
}

// reference times
matcher::reftime::DTMatch* verif_dt(unsigned kind, int ye, int mo, int da, int ho, int mi, int se)
{
    matcher::reftime::Parser p;
    auto f = [&] { return new core::FuzzyTime(ye, mo, da, ho, mi, se); };
    int tt[3] = {ye, mo, da};
    switch (kind)
    {
        case 0:  return p.createLE(f());
        case 1:  return p.createLT(f());
        case 2:  return p.createGE(f());
        case 3:  return p.createGT(f());
        case 4:  return p.createEQ(f());
        case 5:  return p.createTimeLE(tt);
        case 6:  return p.createTimeLT(tt);
        case 7:  return p.createTimeGE(tt);
        case 8:  return p.createTimeGT(tt);
        case 9:  return p.createTimeEQ(tt);
        default: return nullptr;
    }
}
matcher::reftime::DTMatch* verif_dt_step(int val, int idx, const int* base)
{
    matcher::reftime::Parser p;
    return p.createStep(val, idx, base);
}
bool verif_dt_match(const matcher::reftime::DTMatch* m, const core::Time* t) { return m->match(*t); }
bool verif_dt_match_interval(const matcher::reftime::DTMatch* m, const core::Interval* t) { return m->match(*t); }
bool verif_dt_intersect_interval(const matcher::reftime::DTMatch* m, core::Interval* t) { return m->intersect_interval(*t); }
matcher::reftime::DTMatch* verif_dt_clone(const matcher::reftime::DTMatch* m) { return m->clone(); }
matcher::MatchReftime* verif_reftime_new() { return new matcher::MatchReftime; }
void verif_reftime_add(matcher::MatchReftime* m, matcher::reftime::DTMatch* d) { m->tests.push_back(d); }
bool verif_reftime_match_interval(const matcher::MatchReftime* m, const core::Interval* i) { return m->match_interval(*i); }
bool verif_reftime_intersect_interval(const matcher::MatchReftime* m, core::Interval* i) { return m->intersect_interval(*i); }
matcher::reftime::DTMatch* verif_dt_interval(const core::Interval* i) { return matcher::reftime::DTMatch::createInterval(*i); }
}

