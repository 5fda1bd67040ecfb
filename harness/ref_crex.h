// Independent reference model of CREX messages
#pragma once
#include "ref_bufr.h"
namespace ref {
struct CrexMsg
{
    unsigned mtn = 0, ed = 2, mtv = 3, cat = 0, subcat = 0xff;
    bool check = false, explicit_factor = false;
    std::vector<Code> dd;
    std::vector<RSubset> expected;
    std::vector<std::vector<Step>> steps;
    std::vector<std::vector<std::string>> tokens; // text of each value, without check digit
    std::vector<std::vector<char>> kinds;         // s(tring) n(umber) f(actor)
    std::string canonical;  // as the encoder must write it
    std::string msg;        // same contents, different layout
    uint64_t shape = 0; unsigned big = 0;
    const TableFile* b = nullptr; const DFile* d = nullptr;
};
struct CrexTables { unsigned mtn, ed, mtv; const TableFile* b; const DFile* d; };
// Combinations of master table, edition and version which can be used, with
// their tables; filled in by the harness, since choosing tables is not the
// point here
std::vector<CrexTables>& crex_tables();
CrexMsg gen_crex(vf::Rng& r, bool allow_big = false);
std::string crex_layout(const CrexMsg& g, bool canonical, vf::Rng* r, const std::vector<std::vector<std::string>>& tokens);
// Bulletin header through the reference layout
}
