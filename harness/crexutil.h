#pragma once
#include "ref_crex.h"
#include <wreport/bulletin.h>
namespace cmp {
// Find which CREX tables are usable
void setup_crex(vf::Ctx& ctx);
std::unique_ptr<wreport::CrexBulletin> build(const ref::CrexMsg& g);
}
