// Interface between the simulator core (engine.cpp, not instrumented) and the code that the
// simulator runs (generated translation units: real tok3n headers + harness.h, instrumented).
#pragma once
#include <cstddef>
#include <cstdint>
#include <string>
#include <vector>

namespace sim {

inline uint64_t fnv(const char* p, size_t n, uint64_t h = 1469598103934665603ull)
{
	for (size_t i = 0; i < n; i++) { h ^= (unsigned char)p[i]; h *= 1099511628211ull; }
	return h;
}
inline uint64_t mix(uint64_t h)
{
	h ^= h >> 33; h *= 0xff51afd7ed558ccdull; h ^= h >> 33; h *= 0xc4ceb9fe1a85ec53ull; h ^= h >> 33;
	return h;
}
// What a user function computes from its arguments: known to the harness and to the reference model.
inline uint64_t payload(int site, const std::string& args) { return mix(fnv(args.data(), args.size()) + 0x9e3779b97f4a7c15ull * (uint64_t)(site + 1)); }

struct Rng
{
	uint64_t s;
	explicit Rng(uint64_t seed) : s(mix(seed + 0x1234567ull)) {}
	uint64_t next() { s += 0x9e3779b97f4a7c15ull; uint64_t z = s; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
	uint64_t below(uint64_t n) { return n ? next() % n : 0; }
	int range(int a, int b) { return a + (int)below((uint64_t)(b - a + 1)); }
	bool chance(int num, int den) { return (int)below(den) < num; }
};

// ---- exceptions that simulated user code throws
struct SimExc { uint32_t id; };                                  // kind 0
struct SimRuntime : std::exception { uint32_t id; explicit SimRuntime(uint32_t i) : id(i) {} const char* what() const noexcept override { return "sim"; } }; // kind 2
struct SimBadAlloc;                                              // kind 3, derived from std::bad_alloc (see engine.cpp)
enum ExcKind { EXC_STRUCT = 0, EXC_INT = 1, EXC_RUNTIME = 2, EXC_BADALLOC_USER = 3, EXC_BADALLOC = 4, EXC_OTHER = 5, EXC_STD = 6, EXC_KINDS = 24 };   // EXC_STD and up: derived from, or same as, each of the standard ones
inline int any_exc(Rng& r) { int k = (int)r.below(EXC_KINDS - 2); return k < 4 ? k : k + 2; }

// ---- findings
enum Class { F_VERDICT, F_VALUE, F_REMAIN, F_FAILREM, F_CBLOG, F_TOKSTATE, F_LEAK_TOK, F_LEAK_MEM, F_BADFREE, F_UAF, F_OOB, F_WRITE, F_ALIAS,
	F_EXC, F_UNEXPEXC, F_TERMINATE, F_CRASH, F_HANG, F_RACE, F_IMPURE, F_HELD, F_DIFF, F_COUNT };
const char* class_name(int c);

// ---- plan
enum FaultKind { FK_ALLOC, FK_CB, FK_CMP, FK_VAL, FK_NEST, FK_COUNT };
struct Fault { int kind; int nth; int arg; int fired = 0; };

struct Op
{
	int id = 0, task = 0, g = 0, v = 0, r = 0;
	bool parse = true, hold = false;
	int post = 0;                  // bits: 1 move the result, 2 copy it, 4 access it in every way, 8 assign it
	int buf = 0, place = 0;        // which buffer; 0 end at a guard page, 1 start at a guard page, 2 in the middle
	uint32_t nb = 0;               // seed of what surrounds the input
	int in_off = -1, in_len = 0;   // nested: a view of the outer input (in holds the same symbols)
	std::vector<uint32_t> in;
	std::vector<Fault> faults;
	int grp = -1;                  // ops of one group must agree with each other
};
struct Plan
{
	std::vector<Op> ops;           // top level, in order per task
	std::vector<Op> nested;        // run by user functions (faults of kind FK_NEST)
	std::vector<int> sched;        // pairs: gap, who
	int kind = 0;                  // of the profile: which scenario generated it
	std::vector<int> ev;           // counts of delivery faults applied while generating, by kind
};
std::string to_text(const Plan&);
bool from_text(const std::string&, std::vector<Plan>&);

// ---- the outcome of one operation
struct Outcome
{
	bool done = false;             // returned
	bool ok = false;
	std::string value;             // canonical value, "" when failed
	size_t rem = 0;                // size of the remaining input
	int exc = -1;                  // else ended by exception
	uint32_t exc_id = 0;
	std::string text() const;
};

struct Held
{
	virtual ~Held() = default;
	virtual std::string recanon() = 0;
};

struct OpCtx
{
	const Op* op = nullptr;
	OpCtx* outer = nullptr;
	int task = 0;
	int serial = 0;                // unique in the episode: owner tag of memory and values
	const char* base = nullptr; size_t n = 0, esz = 1;  // the input
	bool cstr = false;
	std::vector<uint32_t> sym;     // the same input as symbols
	Outcome out;
	std::vector<std::string> log;  // calls of user functions
	uint64_t ncb = 0, nalloc = 0, ncmp = 0, nval = 0, ntok = 0;
	uint64_t ticks = 0, budget = 0;
	std::vector<Fault> faults;
	int fired = -1;                // index of the first fault that threw
	Held* held = nullptr;
	bool alias_bad = false;
	std::string note;
};

// ---- seams called from instrumented code
bool eng_leave();                 // harness code begins: returns whether the library was running
void eng_enter(bool was);         // back
OpCtx* eng_ctx();
uint64_t eng_callback(int site, const std::string& args);  // may throw, run a nested operation, switch tasks
void eng_compare();
void eng_val(bool may_throw);     // a special member function of a user value runs
uint32_t eng_tok_new(const void* self);
void eng_tok_del(uint32_t id, const void* self, uint32_t magic);
void* eng_user_alloc(size_t n);   // may throw std::bad_alloc
void eng_user_free(void* p);
int eng_classify_exception(uint32_t& id);   // inside a catch (...)
void eng_finding(int cls, const std::string& detail);

void eng_disarm();                // the call under simulation is over: no more injected faults

struct Guard { bool was; Guard() : was(eng_leave()) {} ~Guard() { eng_enter(was); } };

// ---- grammars, registered by the generated units
enum { NRANGE = 6 };
struct Variant
{
	const char* elem;
	size_t esz;
	int maxsym;                    // symbols this element type can hold
	void (*store)(void* dst, size_t i, uint32_t sym);
	void (*parse[NRANGE])(OpCtx&, void* data, size_t n);
	void (*look[NRANGE])(OpCtx&, void* data, size_t n);
};
struct GrammarDef
{
	int index;
	const char* name;
	const char* sexpr;
	const char* cpp;
	const char* feat;
	int nv;
	const Variant* v;
};
void eng_register(const GrammarDef*);

} // namespace sim
