// CREX tables and bulletins for the generators
#include "cmp.h"
#include "crexutil.h"
#include <wreport/error.h>

using namespace wreport;

namespace cmp {

void setup_crex(vf::Ctx&)
{
    auto& t = ref::crex_tables();
    if (!t.empty()) return;
    for (unsigned ed = 1; ed <= 2; ++ed)
        for (unsigned v = 1; v <= 33; ++v)
        {
            if (v > 3 && v % 5) continue;
            auto b = CrexBulletin::create();
            b->edition_number = ed; b->master_table_version_number = v; b->master_table_version_number_bufr = 0;
            try { b->load_tables(); } catch (wreport::error&) { continue; }
            const ref::TableFile& tb = ref::load_crex_b(b->tables.btable->path());
            const ref::DFile& td = ref::load_d(b->tables.dtable->path());
            if (!tb.ok || !td.ok) continue;
            unsigned n = v <= 3 ? 4 : 1; // favour the real CREX tables
            while (n--) t.push_back(ref::CrexTables{0, ed, v, &tb, &td});
        }
    if (t.empty()) throw std::runtime_error("no CREX tables can be loaded");
}

std::unique_ptr<CrexBulletin> build(const ref::CrexMsg& g)
{
    auto b = CrexBulletin::create();
    b->master_table_number = g.mtn; b->edition_number = g.ed; b->master_table_version_number = g.mtv; b->master_table_version_number_bufr = 0;
    b->data_category = g.cat; b->data_subcategory = g.subcat;
    b->has_check_digit = g.check;
    b->datadesc.assign(g.dd.begin(), g.dd.end());
    b->load_tables();
    for (unsigned i = 0; i < g.expected.size(); ++i)
    {
        Subset& s = b->obtain_subset(i);
        for (auto& r : g.expected[i])
        {
            Var v(b->tables.btable->query(r.info.code));
            if (r.isset) { if (r.info.kind == ref::STR) v.setc(r.s.c_str()); else v.seti(r.i); }
            s.store_variable(std::move(v));
        }
    }
    return b;
}

}
