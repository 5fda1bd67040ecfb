// Structure-aware and blind mutation of messages
#pragma once
#include "ref.h"
namespace mut {
std::string bufr(vf::Rng& r, const std::string& base);
// a from-scratch message with a random (mostly nonsensical) template and random data
std::string bufr_synth(vf::Rng& r);
std::string crex(vf::Rng& r, const std::string& base);
std::string blind(vf::Rng& r, std::string m);
// Rebuild a message around a new descriptor list and/or data section
std::string bufr_assemble(unsigned edition, unsigned mtv, unsigned subsets, bool compressed, const std::vector<ref::Code>& dd, const std::string& data,
    bool opt = false, const std::string& optdata = "", unsigned centre = 0, unsigned subcentre = 0, unsigned mtvl = 0);
// Monitored consumption of a message through the whole public interface; only wreport::error may come out
void consume_bufr(vf::Ctx& ctx, const std::string& m, bool heavy);
void consume_crex(vf::Ctx& ctx, const std::string& m, bool heavy);
}
