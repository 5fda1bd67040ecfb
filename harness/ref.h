// Independent reference model: table files, BUFR bit layout, BUFR template
// interpretation.  Nothing here calls into wreport.
#pragma once
#include "vf.h"
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <vector>

namespace ref {

typedef uint16_t Code;
inline Code mk(unsigned f, unsigned x, unsigned y) { return (f << 14) | (x << 8) | y; }
inline unsigned F(Code c) { return c >> 14; }
inline unsigned X(Code c) { return (c >> 8) & 0x3f; }
inline unsigned Y(Code c) { return c & 0xff; }
std::string fxy(Code c);

enum Kind { STR, BIN, INT, DEC };
const char* kind_name(Kind k);

struct BInfo
{
    Code code = 0;
    Kind kind = INT;
    std::string desc, unit;
    int scale = 0;
    int64_t bit_ref = 0;
    unsigned bit_len = 0;
    unsigned len = 0;
    bool table_kind() const { return unit == "CODE TABLE" || unit == "FLAG TABLE"; }
    // Inclusive domain of the unscaled integer value
    int64_t imin() const;
    int64_t imax() const;
    std::string str() const;
};

struct TableFile
{
    std::string path;
    bool ok = true;
    std::vector<BInfo> order;
    std::map<Code, BInfo> b;
};
struct DFile
{
    std::string path;
    bool ok = true;
    std::map<Code, std::vector<Code>> d;
};

// Cached parsers
// Text by characters instead of bytes
size_t utf8_len(const std::string& s);
size_t utf8_col(const std::string& s, size_t col);
std::string utf8_cut(std::string s, size_t bytes);
const TableFile& load_bufr_b(const std::string& path);
const TableFile& load_crex_b(const std::string& path);
const DFile& load_d(const std::string& path);
std::vector<std::string> table_files(char type, const std::string& dir = "");

struct TableSet { const TableFile* b; const DFile* d; };
// Tables for a WMO master table version (centre 0)
TableSet wmo_bufr(unsigned mtv);
std::string tables_dir();

// Messages in a file, delimited by their declared length
std::vector<std::string> split_bufr(const std::string& data);
std::vector<std::string> split_crex(const std::string& data);
struct Msg { std::string name, data; };
const std::vector<Msg>& bufr_corpus();
const std::vector<Msg>& crex_corpus();

// Section boundaries of a well formed BUFR message
struct Layout
{
    bool ok = false;
    unsigned edition = 0, sec1 = 0, sec2 = 0, sec3 = 0, sec4 = 0, end = 0; // offsets; sec2 == 0: absent
    unsigned subsets = 0; bool compressed = false; unsigned mtv = 0, mtn = 0, centre = 0, subcentre = 0, mtvl = 0;
    std::vector<Code> dd;
};
Layout layout(const std::string& msg);
// Set total length and the 3-byte numbers
void put3(std::string& s, size_t pos, unsigned v);
unsigned get3(const std::string& s, size_t pos);

// Upper bound of the interpreter steps spent on things that read no data
double silent_work(const std::vector<Code>& dd, const DFile* d);

// Upper bound of the interpreter steps of a template (saturating), assuming
// every delayed replication is worth `delayed` repetitions
double template_work(const std::vector<Code>& dd, const DFile* d, double delayed, int depth = 0);

/// Bit output
struct BitW
{
    std::string out; unsigned nbits = 0;
    void put(uint64_t val, unsigned n)
    {
        for (unsigned i = n; i > 0; --i)
        {
            if (nbits % 8 == 0) out.push_back(0);
            if (i <= 64 && ((val >> (i - 1)) & 1)) out.back() |= 0x80 >> (nbits % 8);
            ++nbits;
        }
    }
    void ones(unsigned n) { for (unsigned i = 0; i < n; ++i) put(1, 1); }
};

}
