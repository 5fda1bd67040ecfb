// Independent reference model of BUFR data: template interpretation,
// generation of well formed messages, and reading of existing ones.
// Nothing here calls into wreport.
#pragma once
#include "ref.h"

namespace ref {

// The reference cannot judge this case
struct Unsup : public std::runtime_error { using std::runtime_error::runtime_error; };
// The message must be refused
struct BadData : public std::runtime_error { using std::runtime_error::runtime_error; };

struct RVar
{
    BInfo info;
    bool isset = false;
    int64_t i = 0;          // unscaled integer value
    std::string s;          // string or binary value
    std::vector<RVar> attrs; // sorted by code
    std::string str() const;
};
typedef std::vector<RVar> RSubset;

// Altered entry: throws Unsup if the alteration is not representable
BInfo altered(const BInfo& i, int scale, int bit_len, int64_t bit_ref);

enum Field { PLAIN, ATTR, FACTOR, BITMAP_FACTOR, SIG, AF };

struct Walker;

// Where column values come from
struct Src
{
    bool compressed = false;
    unsigned N = 1;
    virtual ~Src() {}
    // Raw unsigned values for a numeric field; ~0ull means missing
    virtual std::vector<uint64_t> num(Walker& w, const BInfo& i, unsigned bits, Field f) = 0;
    // Raw bytes of a field of `chars` characters
    virtual std::vector<std::string> str(Walker& w, unsigned chars, bool raw) = 0;
    // Binary field; empty means missing. Uncompressed only
    virtual std::string bin(Walker& w, unsigned bits) = 0;
    virtual bool bit(Walker& w) = 0;
    // New reference value (sign and magnitude). Uncompressed only
    virtual int64_t refval(Walker& w, const BInfo& i, unsigned bits) = 0;
};

static const uint64_t MISSING = ~0ull;

// One step of a template
struct Step
{
    enum What { VAR, RAW, BITMAP, BITMAP_COUNT, ATTRIBUTE, ASSOC, REFVAL } what;
    std::vector<Code> path;   // sequences and replications it is in
    Code code;
    unsigned pos;             // index of the variable it is about
    int64_t num = 0;          // length of the bitmap, significance, width of the reference value
    int64_t val = 0;          // reference value
};

struct Walker
{
    const TableFile& b;
    const DFile& d;
    Src& src;
    std::vector<RSubset*> out;   // one per column
    std::vector<BitW*> enc;      // expected uncompressed encoding of each column
    bool undef_attrs = false;    // keep attributes without a value

    // Operator state
    int scale_change = 0, width_change = 0, str_len = 0, incr = 0;
    std::map<Code, int64_t> c03; unsigned c03_bits = 0;
    unsigned af_bits = 0, af_sig = 63;
    Code pending = 0;
    std::vector<unsigned> bm; size_t bm_pos = 0; bool bm_current = false; // bitmap being iterated
    bool bm_last = false;        // bm holds the last bitmap, fully used
    bool encode_ambiguous = false;
    std::map<std::pair<unsigned, Code>, unsigned> attr_seen;
    unsigned long steps = 0, max_steps = 200000;
    // What was done, if requested
    std::vector<Step>* log = nullptr;
    std::vector<Code> path;
    void trace(Step::What w, Code c, unsigned pos, int64_t num = 0, int64_t val = 0) { if (log) log->push_back(Step{w, path, c, pos, num, val}); }
    // What was exercised
    std::map<std::string, unsigned>* stats = nullptr;

    Walker(const TableFile& b, const DFile& d, Src& src) : b(b), d(d), src(src) {}

    void run(const std::vector<Code>& ops, int depth = 0);
    bool bm_active() const { return bm_current && bm_pos < bm.size(); }
    unsigned bm_left() const { return bm_current ? bm.size() - bm_pos : 0; }
    BInfo info_for(Code c);
    void stat(const char* s) { if (stats) (*stats)[s]++; }

protected:
    void element(Code c);
    void modifier(Code c, const std::vector<Code>& ops, size_t& pos);
    // Read the values of a field and append their reference encoding
    std::vector<RVar> values(const BInfo& i, Field f);
    void store(std::vector<RVar>& v);
    void set_attr(unsigned pos, std::vector<RVar>& v);
    void define_bitmap(unsigned n);
    unsigned bm_next();
    const BInfo& query(Code c);
};

// Generates random values and writes them to `data`
struct GenSrc : public Src
{
    vf::Rng& r;
    BitW& data;
    unsigned min_factor = 0, max_factor = 4;
    unsigned miss = 8;    // one value in `miss` is missing
    GenSrc(vf::Rng& r, BitW& data) : r(r), data(data) {}
    std::vector<uint64_t> num(Walker& w, const BInfo& i, unsigned bits, Field f) override;
    std::vector<std::string> str(Walker& w, unsigned chars, bool raw) override;
    std::string bin(Walker& w, unsigned bits) override;
    bool bit(Walker& w) override;
    int64_t refval(Walker& w, const BInfo& i, unsigned bits) override;
};

// Reads existing data
struct BitSrc : public Src
{
    const std::string& m; size_t pos, end; // in bits
    BitSrc(const std::string& m, size_t start, size_t stop) : m(m), pos(start * 8), end(stop * 8) {}
    uint64_t get(unsigned n);
    std::vector<uint64_t> num(Walker& w, const BInfo& i, unsigned bits, Field f) override;
    std::vector<std::string> str(Walker& w, unsigned chars, bool raw) override;
    std::string bin(Walker& w, unsigned bits) override;
    bool bit(Walker& w) override;
    int64_t refval(Walker& w, const BInfo& i, unsigned bits) override;
};

struct BufrHeader
{
    unsigned edition = 4, mtn = 0, mtv = 24, mtvl = 0, centre = 0, subcentre = 0, usn = 0, cat = 0, subcat = 0, lsubcat = 0;
    unsigned year = 2020, month = 1, day = 1, hour = 0, minute = 0, second = 0;
    std::string opt;
};
// Section 0 to 5 around the data; `canonical`: as the encoder lays them out
std::string assemble(const BufrHeader& h, unsigned subsets, bool compressed, const std::vector<Code>& dd, const std::string& data, bool canonical, vf::Rng* r = nullptr);

// A generated message with everything that is expected from it
struct GenMsg
{
    BufrHeader h;
    bool compressed = false;
    unsigned subsets = 1;
    std::vector<Code> dd;
    std::string msg;           // the message
    std::string data;          // bytes of its data section
    unsigned data_bits = 0;    // significant bits in data
    std::vector<RSubset> expected;
    std::vector<std::vector<Step>> steps; // one per subset, only one if compressed
    std::string encoded;       // what encoding the decoded bulletin must give
    bool encode_ambiguous = false;
    std::map<std::string, unsigned> stats;
    uint64_t shape = 0;        // hash of template and structure
};
struct GenOpts
{
    bool allow_compressed = true;
    bool force_plain = false;       // no operators
    bool undef_attrs = false;
    bool log_steps = false;
    bool big = false;               // now and then, long messages
    bool factors = false;           // replication factors as plain values, too
    unsigned max_items = 8;
};
// Always succeeds: retries until a representable message is found
GenMsg gen_bufr(vf::Rng& r, const GenOpts& o = GenOpts());

// Master table versions installed for centre 0
const std::vector<unsigned>& wmo_versions();
// Sequences of a D file which only use what the walker supports
const std::vector<Code>& usable_d(unsigned mtv);

}
