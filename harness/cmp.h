// Comparison between what the library produced and the reference
#pragma once
#include "ref_bufr.h"
#include <wreport/var.h>
#include <wreport/subset.h>
#include <wreport/bulletin.h>
#include <wreport/tables.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
namespace cmp {
// Empty if they correspond, otherwise a description of the difference
std::string info(const wreport::_Varinfo& i, const ref::BInfo& r, bool bufr = true);
std::string var(const wreport::Var& v, const ref::RVar& r, bool bufr = true);
std::string subset(const wreport::Subset& s, const ref::RSubset& r, bool bufr = true);
std::string show(const wreport::Var& v);
// Build, via the public interface, a variable equal to the reference one
wreport::Var make(const wreport::Tables& t, const ref::RVar& r);
// Build a bulletin with the contents of a generated message
std::unique_ptr<wreport::BufrBulletin> build(const ref::GenMsg& g);
// Deterministic dump of everything in a bulletin
std::string dump(const wreport::Bulletin& b);
std::string dump(const wreport::Var& v);
// A string whose storage ends exactly where the data ends
std::string tight(const std::string& m);
std::string dds(const std::vector<ref::Code>& dd);
// Replace some variables with others of the same value, that have another
// scale, width or reference: what they are encoded to stays the same.
// Returns how many were replaced
unsigned disguise(vf::Rng& r, wreport::Subset& s, const ref::RSubset& e, bool bufr);
}
