// Table entries to make variables of: installed ones, their alterations, and
// synthetic ones, each with the reference description of what it must be
#pragma once
#include "cmp.h"
#include <deque>
namespace varpool {
struct Entry { wreport::Varinfo info; ref::BInfo ref; };
void setup(vf::Ctx& c);
// Entry out of the installed tables, possibly altered
Entry installed(vf::Rng& r);
Entry installed_kind(vf::Rng& r, ref::Kind k);
// Synthetic entry, kept alive until the pool is cleared
struct Synth
{
    std::deque<wreport::_Varinfo> store;
    Entry make(vf::Rng& r, int kind = -1);
};
// Any of the above; never an entry with an empty domain
Entry any(vf::Rng& r, Synth& s);
bool empty_domain(const ref::BInfo& i);
// x * 10^scale, exact enough for any double x and |scale| <= 22
__float128 scaled(double x, int scale);
// Double nearest to i * 10^-scale
double unscaled(int64_t i, int scale);
// Decimal text of i * 10^-scale
std::string text(int64_t i, int scale);
}
