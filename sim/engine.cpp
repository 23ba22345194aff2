// The simulated world: clock, scheduler, memory, input buffers, faults, invariants.
#include "core.h"
#include <atomic>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <functional>
#include <optional>
#include <stdexcept>
#include <system_error>
#include <variant>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <signal.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>
#include <unordered_map>
#include <unordered_set>

extern "C" char __data_start, _end;

namespace sim {

struct SimBadAlloc : std::bad_alloc { uint32_t id; explicit SimBadAlloc(uint32_t i) : id(i) {} };
// user exceptions derived from a standard one: caught as anything else than themselves, they have been replaced
template <class B> struct SimStd : B { uint32_t id; template <class... A> explicit SimStd(uint32_t i, A&&... a) : B(std::forward<A>(a)...), id(i) {} };
static uint32_t text_id(const std::exception& e) { return (uint32_t)strtoul(e.what(), nullptr, 10); }

Shared* shared;
std::vector<Grammar> grammars;
std::vector<OpCount> counts;

std::vector<const GrammarDef*>& registry() { static std::vector<const GrammarDef*> r; return r; }
void eng_register(const GrammarDef* g) { registry().push_back(g); }

const char* class_name(int c)
{
	static const char* n[] = { "verdict", "value", "remaining", "failure-remaining", "callback-history", "value-state", "value-leak", "memory-leak", "bad-free", "use-after-free",
		"read-outside-input", "write-to-input", "span-outside-input", "exception", "unexpected-exception", "terminate", "crash", "hang", "data-race", "impure-lookahead", "held-result", "difference" };
	return n[c];
}

// ------------------------------------------------------------------ per thread
enum { MAXTASK = 5 };

struct ThreadState
{
	bool in_sut = false;
	bool armed = false;
	OpCtx* ctx = nullptr;
	int task = 0;
	char* stack_lo = nullptr;
	char* stack_hi = nullptr;
};
static __thread ThreadState T __attribute__((tls_model("initial-exec")));

struct Leave { bool was; Leave() : was(T.in_sut) { T.in_sut = false; } ~Leave() { T.in_sut = was; } };

// ------------------------------------------------------------------ the world
static constexpr uintptr_t ARENA = 0x100000000000ull;
static constexpr size_t ARENA_SIZE = 256u << 20;
static constexpr uintptr_t INPUT = 0x110000000000ull;
static constexpr size_t PAGE = 4096, SLOT_PAGES = 140, SLOT = (SLOT_PAGES + 2) * PAGE, NSLOT = 128;

struct Block { uintptr_t addr; size_t size; int owner; int task; bool live; bool user; };

struct Shadow { int wtask = -1; uint32_t wclk = 0; uint32_t rclk[MAXTASK] = {}; };

struct World
{
	// memory
	size_t arena_top = 0;
	std::vector<Block> blocks;
	uint32_t* granule = nullptr;     // granule -> block index + 1
	// values
	struct TokRec { const void* self; int owner; bool live; };
	std::vector<TokRec> toks;
	// time and schedule
	uint64_t hash = 1469598103934665603ull;
	uint64_t sched_hash = 0;
	bool multi = false;
	int64_t gap = INT64_MAX, gap_events = INT64_MAX;
	size_t sched_pos = 0;
	const Plan* plan = nullptr;
	int ntasks = 0;
	bool runnable[MAXTASK] = {};
	bool inflight[MAXTASK] = {};
	int current = -1;
	uint64_t switches = 0;
	uint32_t rr = 0;
	// races
	uint32_t vc[MAXTASK][MAXTASK] = {};
	std::unordered_map<uintptr_t, Shadow> shadow;
	std::unordered_map<uintptr_t, std::vector<uint32_t>> syncvar;
	bool race_reported = false;
	// book keeping
	int serial = 0;
	int plan_index = 0;
	std::vector<Finding> findings;
	std::vector<std::unique_ptr<OpCtx>> heldctx;
	bool verbose = false;
	bool nontrivial = false;
	bool exc_inflight = false;
	std::map<int, std::string> groups;
};
static World w;
static sem_t sem[MAXTASK], sem_main;
static pthread_t threads[MAXTASK];
static bool thread_up[MAXTASK];

static inline void hash_add(uint64_t x) { w.hash = (w.hash ^ x) * 1099511628211ull; w.hash ^= w.hash >> 29; }

static uint64_t& cnt(int c) { return shared->cnt[c]; }
static void probe(int p) { shared->cnt[C_PROBE0 + p]++; }

static void flush_findings()
{
	shared->nfind = 0;
	size_t o = 0;
	for (auto& f : w.findings)
	{
		char b[64];
		int k = snprintf(b, sizeof b, "%d %d %d %d %zu\n", f.cls, f.plan, f.op, (int)f.nested, f.detail.size());
		if (o + (size_t)k + f.detail.size() + 2 > sizeof shared->text) break;
		memcpy(shared->text + o, b, (size_t)k); o += (size_t)k;
		memcpy(shared->text + o, f.detail.data(), f.detail.size()); o += f.detail.size();
		shared->text[o++] = '\n';
		shared->nfind++;
	}
	shared->textlen = (uint32_t)o;
	shared->run_hash = w.hash;
}

std::vector<Finding> read_findings()
{
	std::vector<Finding> v;
	const char* p = shared->text;
	for (uint32_t i = 0; i < shared->nfind; i++)
	{
		int cls, plan, op, nested; size_t len; int used = 0;
		if (sscanf(p, "%d %d %d %d %zu%n", &cls, &plan, &op, &nested, &len, &used) != 5) break;
		p += used + 1;
		v.push_back({ cls, plan, op, nested != 0, std::string(p, len) });
		p += len + 1;
	}
	return v;
}

static void finding(int cls, const std::string& detail)
{
	if (w.findings.size() > 200) return;
	OpCtx* c = T.ctx;
	w.findings.push_back({ cls, w.plan_index, c && c->op ? c->op->id : -1, c && c->outer, detail.substr(0, 1200) });
	hash_add(1000 + (uint64_t)cls);
}

[[noreturn]] static void fatal(int cls, const std::string& detail)
{
	T.in_sut = false;
	finding(cls, detail);
	flush_findings();
	_exit(9);
}

void eng_finding(int cls, const std::string& detail) { Leave l; finding(cls, detail); }

OpCtx* eng_ctx() { return T.ctx; }
bool eng_leave() { bool was = T.in_sut; T.in_sut = false; return was; }
void eng_enter(bool was) { T.in_sut = was; }
void eng_disarm() { T.armed = false; }

// ------------------------------------------------------------------ schedule
static void sched_next()
{
	const auto& s = w.plan->sched;
	if (w.sched_pos + 1 < s.size())
	{
		int g = s[w.sched_pos];
		if (g >= 0) { w.gap = g + 1; w.gap_events = INT64_MAX; }
		else { w.gap = INT64_MAX; w.gap_events = -g; }
	}
	else { w.gap = 20000; w.gap_events = INT64_MAX; }   // nothing may wait for ever for another task's step
}

static int pick_other()
{
	const auto& s = w.plan->sched;
	int who = w.sched_pos + 1 < s.size() ? s[w.sched_pos + 1] : (int)(w.rr++ & 0xffff);
	w.sched_pos += 2;
	int cand[MAXTASK], n = 0;
	for (int i = 0; i < w.ntasks; i++) if (w.runnable[i] && i != w.current) cand[n++] = i;
	sched_next();
	return n ? cand[who % n] : -1;
}

static void switch_to(int t, const void* pc)
{
	int me = w.current;
	w.current = t;
	w.switches++;
	w.sched_hash = mix(w.sched_hash ^ (uint64_t)(me * 8 + t) ^ ((uint64_t)(uintptr_t)pc << 8));
	hash_add(0x5000 + (uint64_t)(me * 8 + t));
	int inflight = 0;
	for (int i = 0; i < w.ntasks; i++) inflight += w.inflight[i];
	if (inflight >= 2) { w.nontrivial = true; probe(PR_TWO_INFLIGHT); }
	sem_post(&sem[t]);
	while (sem_wait(&sem[me]) != 0) {}
}

static __attribute__((noinline)) void preempt(const void* pc)
{
	Leave l;
	int t = pick_other();
	if (t >= 0) switch_to(t, pc);
}

static inline void event_point(const void* pc)
{
	if (w.multi && --w.gap_events <= 0) preempt(pc);
}

static __attribute__((noinline)) void over_budget()
{
	Leave l;
	fatal(F_HANG, "no end after " + std::to_string(T.ctx->ticks) + " steps, where " + std::to_string(T.ctx->budget) + " are more than enough");
}

static inline void tick(const void* pc)
{
	OpCtx* c = T.ctx;
	if (++c->ticks > c->budget) over_budget();
	if (w.multi && --w.gap <= 0) preempt(pc);
}

// ------------------------------------------------------------------ memory of the simulated world
static Block* find_block(uintptr_t a)
{
	if (a < ARENA || a >= ARENA + w.arena_top) return nullptr;
	uint32_t g = w.granule[(a - ARENA) >> 4];
	return g ? &w.blocks[g - 1] : nullptr;
}

static void* arena_alloc(size_t n, bool user)
{
	size_t need = ((n + 15) & ~(size_t)15) + 16;
	if (need < n || w.arena_top + need + 16 > ARENA_SIZE)
		fatal(F_HANG, "unbounded memory use: more than " + std::to_string(ARENA_SIZE >> 20) + " MB, last request " + std::to_string(n) + " bytes");
	uintptr_t a = ARENA + w.arena_top;
	if (w.arena_top == 0) { a += 16; w.arena_top = 16; }
	a = ARENA + w.arena_top;
	w.blocks.push_back({ a, n, T.ctx ? T.ctx->serial : 0, T.task, true, user });
	uint32_t id = (uint32_t)w.blocks.size();
	for (size_t i = 0; i < need >> 4; i++) w.granule[((a - ARENA) >> 4) + i] = id;
	w.arena_top += need;
	memset((void*)a, 0xCD, need);
	hash_add(0x6000 + n);
	return (void*)a;
}

static void arena_free(void* p)
{
	if (!p) return;
	Block* b = find_block((uintptr_t)p);
	if (!b || b->addr != (uintptr_t)p) { finding(F_BADFREE, "memory released that was not obtained"); return; }
	if (!b->live) { finding(F_BADFREE, "memory released twice"); return; }
	b->live = false;
	memset(p, 0xDD, b->size);
	hash_add(0x7000 + b->size);
}

static bool fire(int kind, uint64_t n)
{
	OpCtx* c = T.ctx;
	for (size_t i = 0; i < c->faults.size(); i++)
	{
		Fault& f = c->faults[i];
		if (f.kind != kind) continue;
		bool hit = kind == FK_ALLOC ? n >= (uint64_t)f.nth && n < (uint64_t)f.nth + (uint64_t)std::max(1, f.arg) : n == (uint64_t)f.nth;
		if (!hit) continue;
		f.fired++;
		cnt(C_FIRED0 + kind)++;
		if (c->fired < 0) c->fired = (int)i;
		w.nontrivial = true;
		hash_add(0x8000 + (uint64_t)kind * 64 + n);
		return true;
	}
	return false;
}

static void* sut_alloc(size_t n, bool user, bool nothrow, const void* pc)
{
	Leave l;
	OpCtx* c = T.ctx;
	event_point(pc);
	c->nalloc++;
	cnt(C_ALLOCS)++;
	if (T.armed && fire(FK_ALLOC, c->nalloc))
	{
		if (nothrow) { c->fired = -1; return nullptr; }
		throw std::bad_alloc();
	}
	return arena_alloc(n, user);
}

void* eng_user_alloc(size_t n) { return sut_alloc(n, true, false, __builtin_return_address(0)); }
void eng_user_free(void* p) { Leave l; arena_free(p); }

uint32_t eng_tok_new(const void* self)
{
	Leave l;
	if (T.ctx) T.ctx->ntok++;
	w.toks.push_back({ self, T.ctx ? T.ctx->serial : 0, true });
	return (uint32_t)w.toks.size() - 1;
}

void eng_tok_del(uint32_t id, const void* self, uint32_t magic)
{
	Leave l;
	if (magic != 0x70ca11feu || id >= w.toks.size()) { finding(F_BADFREE, magic == 0xdeadf00du ? "a value was destroyed twice" : "something that is not a value was destroyed"); return; }
	auto& r = w.toks[id];
	if (!r.live) { finding(F_BADFREE, "a value was destroyed twice"); return; }
	if (r.self != self) { finding(F_BADFREE, "a value was moved as raw bytes and destroyed"); }
	r.live = false;
}

// ------------------------------------------------------------------ user code
[[noreturn]] static void throw_user(int kind, uint32_t id)
{
	cnt(C_EXC)++;
	switch (kind)
	{
	case EXC_INT: throw (int)id;
	case EXC_RUNTIME: throw SimRuntime(id);
	case EXC_BADALLOC_USER: throw SimBadAlloc(id);
	case EXC_STD + 0: throw SimStd<std::out_of_range>(id, "sim");
	case EXC_STD + 1: throw SimStd<std::invalid_argument>(id, "sim");
	case EXC_STD + 2: throw SimStd<std::length_error>(id, "sim");
	case EXC_STD + 3: throw SimStd<std::domain_error>(id, "sim");
	case EXC_STD + 4: throw SimStd<std::range_error>(id, "sim");
	case EXC_STD + 5: throw SimStd<std::overflow_error>(id, "sim");
	case EXC_STD + 6: throw SimStd<std::underflow_error>(id, "sim");
	case EXC_STD + 7: throw SimStd<std::system_error>(id, std::make_error_code(std::errc::io_error));
	case EXC_STD + 8: throw SimStd<std::bad_optional_access>(id);
	case EXC_STD + 9: throw SimStd<std::bad_variant_access>(id);
	case EXC_STD + 10: throw SimStd<std::bad_function_call>(id);
	case EXC_STD + 11: throw SimStd<std::bad_cast>(id);
	case EXC_STD + 12: throw SimStd<std::bad_array_new_length>(id);
	case EXC_STD + 13: throw std::out_of_range(std::to_string(id));
	case EXC_STD + 14: throw std::runtime_error(std::to_string(id));
	case EXC_STD + 15: throw std::logic_error(std::to_string(id));
	case EXC_STD + 16: throw std::to_string(id);
	case EXC_STD + 17: { static char text[4096][12]; snprintf(text[id % 4096], 12, "%u", id); throw (const char*)text[id % 4096]; }
	default: throw SimExc{ id };
	}
}

static uint32_t fault_id(OpCtx* c) { return (uint32_t)c->serial * 16u + (uint32_t)c->fired; }

int eng_classify_exception(uint32_t& id)
{
	Leave l;
	T.armed = false;
	try { throw; }
	catch (SimExc& e) { id = e.id; return EXC_STRUCT; }
	catch (int e) { id = (uint32_t)e; return EXC_INT; }
	catch (std::string& e) { id = (uint32_t)strtoul(e.c_str(), nullptr, 10); return EXC_STD + 16; }
	catch (const char* e) { id = (uint32_t)strtoul(e, nullptr, 10); return EXC_STD + 17; }
	catch (std::exception& e)
	{
		const std::type_info& t = typeid(e);
		if (t == typeid(SimRuntime)) { id = static_cast<SimRuntime&>(e).id; return EXC_RUNTIME; }
		if (t == typeid(SimBadAlloc)) { id = dynamic_cast<SimBadAlloc&>(e).id; return EXC_BADALLOC_USER; }
		if (t == typeid(std::bad_alloc)) return EXC_BADALLOC;
		if (t == typeid(std::out_of_range)) { id = text_id(e); return EXC_STD + 13; }
		if (t == typeid(std::runtime_error)) { id = text_id(e); return EXC_STD + 14; }
		if (t == typeid(std::logic_error)) { id = text_id(e); return EXC_STD + 15; }
		int k = EXC_STD;
		auto is = [&]<class X>(std::type_identity<X>) { if (t == typeid(X)) { id = dynamic_cast<X&>(e).id; return true; } k++; return false; };
		auto any = [&]<class... B>(std::type_identity<B>...) { return (is(std::type_identity<SimStd<B>>{}) || ...); };
		if (any(std::type_identity<std::out_of_range>{}, std::type_identity<std::invalid_argument>{}, std::type_identity<std::length_error>{}, std::type_identity<std::domain_error>{}, std::type_identity<std::range_error>{},
			std::type_identity<std::overflow_error>{}, std::type_identity<std::underflow_error>{}, std::type_identity<std::system_error>{}, std::type_identity<std::bad_optional_access>{}, std::type_identity<std::bad_variant_access>{},
			std::type_identity<std::bad_function_call>{}, std::type_identity<std::bad_cast>{}, std::type_identity<std::bad_array_new_length>{})) return k;
		return EXC_OTHER;
	}
	catch (...) { return EXC_OTHER; }
}

static void run_op(const Op& op, OpCtx* outer);

uint64_t eng_callback(int site, const std::string& args)
{
	Leave l;
	OpCtx* c = T.ctx;
	event_point(__builtin_return_address(0));
	c->ncb++;
	cnt(C_CALLBACKS)++;
	std::string s = std::to_string(site) + "(" + args + ")";
	hash_add(fnv(s.data(), s.size()));
	if (c->log.size() < 400000) c->log.push_back(std::move(s));
	if (T.armed)
	{
		for (size_t i = 0; i < c->faults.size(); i++)
		{
			Fault f = c->faults[i];
			if (f.kind != FK_NEST || f.nth != (int)c->ncb) continue;
			if (f.arg < 0 || f.arg >= (int)w.plan->nested.size()) continue;
			c->faults[i].fired++;
			cnt(C_FIRED0 + (int)FK_NEST)++;
			cnt(C_NESTED)++;
			w.nontrivial = true;
			bool armed = T.armed;
			run_op(w.plan->nested[(size_t)f.arg], c);
			T.ctx = c;
			T.armed = armed;
		}
		if (fire(FK_CB, c->ncb)) throw_user(c->faults[(size_t)c->fired].arg, fault_id(c));
	}
	event_point(__builtin_return_address(0));
	return payload(site, args);
}

void eng_compare()
{
	OpCtx* c = T.ctx;
	if (!T.in_sut || !c) return;
	Leave l;
	event_point(__builtin_return_address(0));
	c->ncmp++;
	cnt(C_COMPARES)++;
	if (T.armed && fire(FK_CMP, c->ncmp)) throw_user(c->faults[(size_t)c->fired].arg, fault_id(c));
}

void eng_val(bool may_throw)
{
	OpCtx* c = T.ctx;
	if (!T.in_sut || !c) return;
	Leave l;
	event_point(__builtin_return_address(0));
	cnt(C_VALOPS)++;
	if (!may_throw) return;
	c->nval++;
	if (T.armed && fire(FK_VAL, c->nval)) throw_user(c->faults[(size_t)c->fired].arg, fault_id(c));
}

// ------------------------------------------------------------------ every access to memory
static std::string where(uintptr_t a)
{
	OpCtx* c = T.ctx;
	char b[160];
	long off = ((long)a - (long)c->base) / (long)c->esz;
	snprintf(b, sizeof b, "element %ld of an input of %zu", off, c->n);
	return b;
}

static __attribute__((noinline)) void input_access(uintptr_t a, size_t n, bool write)
{
	for (OpCtx* c = T.ctx; c; c = c->outer)
	{
		uintptr_t b = (uintptr_t)c->base, e = b + (c->n + (c->cstr ? 1 : 0)) * c->esz;
		if (a >= b && a + n <= e)
		{
			if (write) { Leave l; finding(F_WRITE, "wrote to " + where(a)); }
			hash_add(a - INPUT);
			return;
		}
	}
	Leave l;
	finding(write ? F_WRITE : F_OOB, (write ? "wrote to " : "read ") + where(a));
}

static void race_check(uintptr_t a, size_t n, bool write, const void* pc)
{
	Leave l;
	int t = T.task;
	for (uintptr_t x = a & ~7ull; x < a + n; x += 8)
	{
		Shadow& s = w.shadow[x];
		bool bad = false;
		int with = -1;
		if (s.wtask >= 0 && s.wtask != t && s.wclk > w.vc[t][s.wtask]) { bad = true; with = s.wtask; }
		if (write) for (int i = 0; i < w.ntasks; i++) if (i != t && s.rclk[i] > w.vc[t][i]) { bad = true; with = i; }
		if (bad && !w.race_reported)
		{
			w.race_reported = true;
			char b[200];
			snprintf(b, sizeof b, "task %d %s shared memory that task %d %s without synchronisation (code at %p)", t, write ? "writes" : "reads", with, s.wtask == with ? "wrote" : "read", pc);
			finding(F_RACE, b);
		}
		if (write) { s.wtask = t; s.wclk = w.vc[t][t]; }
		else s.rclk[t] = w.vc[t][t];
	}
}

static void heap_access(uintptr_t a, size_t n, bool write, const void* pc)
{
	Block* b = find_block(a);
	if (b && b->live && a >= b->addr && a + n <= b->addr + b->size)
	{
		hash_add(a - ARENA);
		if (w.multi) race_check(a, n, write, pc);
		return;
	}
	Leave l;
	if (b && !b->live) finding(F_UAF, write ? "wrote to released memory" : "read released memory");
	else finding(F_UAF, write ? "wrote outside an allocation" : "read outside an allocation");
}

static inline void access(const void* p, size_t n, bool write, const void* pc)
{
	if (!T.in_sut) return;
	uintptr_t a = (uintptr_t)p;
	if (a >= INPUT && a < INPUT + NSLOT * SLOT) input_access(a, n, write);
	else if (a >= ARENA && a < ARENA + ARENA_SIZE) heap_access(a, n, write, pc);
	else if (a >= (uintptr_t)&__data_start && a < (uintptr_t)&_end)
	{
		hash_add(a);
		if (w.multi) race_check(a, n, write, pc);
	}
	tick(pc);
}

static void sync_acq(uintptr_t a)
{
	auto it = w.syncvar.find(a);
	if (it == w.syncvar.end()) return;
	for (int i = 0; i < MAXTASK; i++) if (it->second[(size_t)i] > w.vc[T.task][i]) w.vc[T.task][i] = it->second[(size_t)i];
}
static void sync_rel(uintptr_t a)
{
	auto& v = w.syncvar[a];
	v.resize(MAXTASK);
	for (int i = 0; i < MAXTASK; i++) if (w.vc[T.task][i] > v[(size_t)i]) v[(size_t)i] = w.vc[T.task][i];
	w.vc[T.task][T.task]++;
}
static void atomic_access(const void* p, bool load, bool store, int order, const void* pc)
{
	if (!T.in_sut) return;
	Leave l;
	hash_add(0x9000);
	if (w.multi && order != __ATOMIC_RELAXED) { if (load) sync_acq((uintptr_t)p); if (store) sync_rel((uintptr_t)p); }
	uintptr_t a = (uintptr_t)p;
	if (a >= INPUT && a < INPUT + NSLOT * SLOT) input_access(a, 1, store);
	tick(pc);
}

// ------------------------------------------------------------------ input buffers
static char* slot_base(int buf) { return (char*)(INPUT + (size_t)(buf % (int)NSLOT) * SLOT + PAGE); }

static void place_input(OpCtx& c, const Op& op, const Grammar& g, const Variant& v)
{
	char* lo = slot_base(op.buf);
	size_t room = SLOT_PAGES * PAGE / v.esz, n = op.in.size();
	size_t extra = op.r == 5 ? 1 : 0;
	if (n + extra > room) { n = room - extra; }
	size_t start;
	if (op.place == 0) { start = room - n - extra; if (n) probe(PR_GUARD_END); }
	else if (op.place == 1) { start = 0; if (n) probe(PR_GUARD_BEGIN); }
	else { start = 40 + op.nb % 64; if (start + n + extra > room) start = room - n - extra; probe(PR_NEIGHBOUR); }
	Rng r(op.nb);
	auto any = [&]() { return r.chance(3, 4) ? g.alphabet[r.below(g.alphabet.size())] : op.in.empty() ? (uint32_t)'a' : op.in[r.below(op.in.size())]; };
	size_t from = start > 24 ? start - 24 : 0, to = std::min(room, start + n + extra + 40);
	std::vector<uint32_t> tempt;
	if (r.chance(1, 2)) tempt = gen_sentence(g, r, 30, 3);
	size_t skip = tempt.empty() ? 0 : r.below(tempt.size());
	for (size_t i = from; i < to; i++)
	{
		uint32_t s;
		if (i >= start && i < start + n) s = op.in[i - start];
		else if (extra && i == start + n) s = 0;
		else if (i >= start + n && i - start - n + skip < tempt.size()) s = tempt[i - start - n + skip];
		else s = any();
		v.store(lo, i, s);
	}
	c.base = lo + start * v.esz;
	c.n = n;
	c.esz = v.esz;
	c.cstr = extra != 0;
}

// ------------------------------------------------------------------ one operation
std::string Outcome::text() const
{
	if (exc >= 0)
	{
		static const char* n[] = { "SimExc", "int", "SimRuntime", "SimBadAlloc", "std::bad_alloc", "other exception", "of type derived from std::out_of_range", "of type derived from std::invalid_argument", "of type derived from std::length_error", "of type derived from std::domain_error", "of type derived from std::range_error",
			"of type derived from std::overflow_error", "of type derived from std::underflow_error", "of type derived from std::system_error", "of type derived from std::bad_optional_access", "of type derived from std::bad_variant_access", "of type derived from std::bad_function_call", "of type derived from std::bad_cast", "of type derived from std::bad_array_new_length",
			"std::out_of_range", "std::runtime_error", "std::logic_error", "std::string", "const char*" };
		static_assert(sizeof n / sizeof *n == EXC_KINDS);
		return std::string("throws ") + n[exc] + (exc < 4 || exc > 5 ? "#" + std::to_string(exc_id) : "");
	}
	if (!ok) return "fails, remaining " + std::to_string(rem);
	return "succeeds, remaining " + std::to_string(rem) + ", value " + value;
}

static std::string short_text(const std::string& s) { return s.size() > 400 ? s.substr(0, 400) + "..." : s; }

static void check_outcome(OpCtx& c, const ModelOut& m, const Op& op)
{
	Outcome& o = c.out;
	const bool threw = o.exc >= 0;
	hash_add(threw ? 0xE0 + (uint64_t)o.exc : o.ok ? 0xA0 : 0xB0);
	hash_add(o.rem);
	hash_add(fnv(o.value.data(), o.value.size()));
	std::string expect;
	{
		Outcome e; e.ok = m.ok; e.rem = m.rem; e.value = m.value;
		expect = e.text();
	}
	const char* ed = " (expected: ";
	if (c.fired >= 0)
	{
		// a fault fired: its exception must be the outcome
		Fault& f = c.faults[(size_t)c.fired];
		int kind = f.kind == FK_ALLOC ? EXC_BADALLOC : f.arg;
		uint32_t id = fault_id(&c);
		bool same = threw && o.exc == kind && (kind == EXC_BADALLOC || o.exc_id == id);
		static const char* what[] = { "a failed allocation", "an exception of a user function", "an exception of a comparison", "an exception of a value operation", "" };
		if (!same) finding(F_EXC, std::string(what[f.kind]) + " (number " + std::to_string(f.nth) + ", kind " + std::to_string(kind) + ") ended as: " + short_text(o.text()));
		// the history is what precedes it
		size_t want = c.log.size();
		bool ok = want <= m.log.size();
		if (f.kind == FK_CB) ok = ok && want == (size_t)f.nth;
		for (size_t i = 0; ok && i < want; i++) ok = c.log[i] == m.log[i];
		if (!ok)
		{
			std::string d = "user functions called up to the exception: ";
			for (auto& s : c.log) { d += s + " "; if (d.size() > 400) break; }
			d += ed;
			for (size_t i = 0; i < m.log.size() && d.size() < 900; i++) d += m.log[i] + " ";
			finding(F_CBLOG, d + ")");
		}
		if (!threw && !o.ok && o.rem != c.n) finding(F_FAILREM, "failed with remaining " + std::to_string(o.rem) + " of " + std::to_string(c.n));
		return;
	}
	if (threw) { finding(F_UNEXPEXC, o.text() + " though nothing that the user supplied did" + ed + short_text(expect) + ")"); return; }
	if (o.ok != m.ok) finding(F_VERDICT, short_text(o.text()) + ed + short_text(expect) + ")");
	else if (!o.ok) { if (o.rem != c.n) finding(F_FAILREM, "failed with remaining " + std::to_string(o.rem) + " of " + std::to_string(c.n)); }
	else
	{
		if (o.rem != m.rem) finding(F_REMAIN, short_text(o.text()) + ed + short_text(expect) + ")");
		if (o.value != m.value)
		{
			bool state = o.value.find("k!") != std::string::npos && m.value.find("k!") == std::string::npos;
			finding(F_VALUE, short_text(o.text()) + ed + short_text(expect) + ")");
			if (state) finding(F_TOKSTATE, "result holds a value that is moved-from or default: " + short_text(o.value));
		}
	}
	if (!o.ok && o.rem != c.n && o.ok != m.ok) finding(F_FAILREM, "failed with remaining " + std::to_string(o.rem) + " of " + std::to_string(c.n));
	if (c.alias_bad) finding(F_ALIAS, c.note);
	if (c.log != m.log)
	{
		size_t i = 0;
		while (i < c.log.size() && i < m.log.size() && c.log[i] == m.log[i]) i++;
		std::string d = "call " + std::to_string(i + 1) + " of a user function is " + (i < c.log.size() ? c.log[i].substr(0, 200) : std::string("missing")) + ed
			+ (i < m.log.size() ? m.log[i].substr(0, 200) : std::string("none")) + "); " + std::to_string(c.log.size()) + " calls" + ed + std::to_string(m.log.size()) + ")";
		finding(F_CBLOG, d);
		if (i < c.log.size() && c.log[i].find("k!") != std::string::npos) finding(F_TOKSTATE, "a user function was given a value that is moved-from or default: " + c.log[i].substr(0, 300));
	}
	if (!op.parse)
	{
		if (c.ncb) finding(F_IMPURE, "lookahead called a user function");
		if (c.nalloc) finding(F_IMPURE, "lookahead allocated memory " + std::to_string(c.nalloc) + " times");
		if (c.ntok) finding(F_IMPURE, "lookahead made user values");
	}
}

static void leak_check(int serial, const char* when)
{
	size_t nt = 0, nm = 0, bytes = 0;
	for (auto& r : w.toks) if (r.live && r.owner == serial) nt++;
	for (auto& b : w.blocks) if (b.live && b.owner == serial) { nm++; bytes += b.size; }
	if (nt) finding(F_LEAK_TOK, std::to_string(nt) + " user values still exist " + when);
	if (nm) finding(F_LEAK_MEM, std::to_string(bytes) + " bytes in " + std::to_string(nm) + " allocations still held " + when);
	if (nt || nm)
	{
		for (auto& r : w.toks) if (r.owner == serial) r.live = false;
		for (auto& b : w.blocks) if (b.owner == serial) b.owner = -1;
	}
}

static void release_held(OpCtx& c)
{
	OpCtx* was = T.ctx;
	T.ctx = &c;
	std::string s = c.held->recanon();
	if (s != (c.out.ok ? c.out.value : std::string()))
		finding(F_HELD, "a result kept by its caller changed from " + short_text(c.out.value) + " to " + short_text(s));
	delete c.held;
	c.held = nullptr;
	leak_check(c.serial, "after the result was destroyed");
	T.ctx = was;
}

static void run_op(const Op& op, OpCtx* outer)
{
	Leave l;
	const Grammar& g = grammars[(size_t)op.g];
	const Variant& v = g.def->v[op.v];
	auto cp = std::make_unique<OpCtx>();
	OpCtx& c = *cp;
	c.op = &op;
	c.outer = outer;
	c.task = T.task;
	c.serial = ++w.serial;
	c.faults = op.faults;
	for (auto& f : c.faults) cnt(C_CONF0 + f.kind)++;
	cnt(C_OPS)++;
	std::vector<uint32_t> in = op.in;
	T.ctx = &c;
	shared->beat++;
	shared->cur_op = op.id;
	shared->cur_nested = outer != nullptr;
	if (outer && op.in_off >= 0)
	{
		// part of the outer input
		size_t off = std::min((size_t)op.in_off, outer->n), len = std::min((size_t)op.in_len, outer->n - off);
		in.assign(outer->sym.begin() + (long)off, outer->sym.begin() + (long)(off + len));
		c.base = outer->base + off * outer->esz;
		c.n = len;
		c.esz = outer->esz;
		probe(off == 0 && len == outer->n ? PR_NEST_SAME : PR_NEST_OVERLAP);
	}
	else if (w.multi && !outer)
	{
		// buffers were delivered before the tasks started
		char* lo = slot_base(op.buf);
		size_t room = SLOT_PAGES * PAGE / v.esz, n = op.in.size(), extra = op.r == 5;
		size_t start = op.place == 0 ? room - n - extra : op.place == 1 ? 0 : 40 + op.nb % 64;
		c.base = lo + start * v.esz; c.n = n; c.esz = v.esz; c.cstr = extra;
	}
	else
	{
		// a caller does not rewrite a buffer that a call is reading
		for (OpCtx* q = outer; q; q = q->outer)
			if (((uintptr_t)q->base - INPUT) / SLOT == ((uintptr_t)slot_base(op.buf) - INPUT) / SLOT) { T.ctx = outer; return; }
		place_input(c, op, g, v);
	}
	if (in.size() > c.n) in.resize(c.n);
	c.sym = in;
	if (c.n == 0) probe(PR_EMPTY_IN);
	if (op.r == 5) probe(PR_CSTR);
	ModelOut m = model_run(g, op.parse, in);
	if (m.overflow) { T.ctx = outer; return; }
	if (m.maxrep > 20) probe(PR_LONGREP);
	if (m.depth > 8) probe(PR_DEEP);
	if (!m.ok && !m.log.empty()) probe(PR_FAIL_AFTER_CB);
	if (g.has("nullrep")) probe(PR_NULLREP);
	c.budget = 200000 + m.steps * 2000;
	hash_add(0xF000 + (uint64_t)op.g);
	auto fn = op.parse ? v.parse[op.r] : v.look[op.r];
	if (w.multi && !outer) w.inflight[T.task] = true;
	T.armed = true;
	shared->calling = 1;
	fn(c, (void*)c.base, c.n);
	if (!w.multi && !outer) shared->calling = 0;
	T.armed = false;
	T.in_sut = false;
	T.ctx = &c;
	if (w.multi && !outer) w.inflight[T.task] = false;
	cnt(C_TICKS) += c.ticks;
	if (c.out.exc >= 0)
	{
		cnt(C_EXC)++;
		w.exc_inflight = true;
		int fl = 0;
		for (int i = 0; i < w.ntasks; i++) fl += w.inflight[i];
		if (w.multi && fl) probe(PR_EXC_CONCURRENT);
		if (outer) probe(PR_NEST_THROW);
		if (!w.heldctx.empty()) probe(PR_HELD_ACROSS_EXC);
	}
	else cnt(c.out.ok ? C_OK : C_FAIL)++;
	hash_add(c.ncb * 31 + c.nalloc);
	check_outcome(c, m, op);
	if (!outer) counts.push_back({ op.id, c.nalloc, c.ncb, c.ncmp, c.nval, c.ticks, c.out.ok, c.out.exc >= 0 });
	if (op.grp >= 0 && c.fired < 0)
	{
		std::string s = c.out.text();
		for (auto& l : c.log) s += "|" + l;
		auto [it, fresh] = w.groups.try_emplace(op.grp, s);
		if (!fresh && it->second != s) finding(F_DIFF, "the same call on the same elements: " + short_text(it->second) + ", and another time: " + short_text(s));
	}
	if (w.verbose)
	{
		printf("  op %d task %d %s %s [%s] in=%zu elements: %s\n", op.id, T.task, op.parse ? "parse" : "lookahead", g.def->name, v.elem, c.n, short_text(c.out.text()).c_str());
		for (auto& f : c.faults) if (f.fired) printf("    fault kind %d number %d fired\n", f.kind, f.nth);
	}
	if (c.held)
	{
		cnt(C_HELD)++;
		if (outer) release_held(c);
		else { w.heldctx.push_back(std::move(cp)); }
	}
	else leak_check(c.serial, c.out.exc >= 0 ? "after the call ended by an exception" : c.out.ok ? "after the result was destroyed" : "after the call failed");
	shared->beat++;
	if (outer) { shared->cur_op = outer->op->id; shared->cur_nested = outer->outer != nullptr; }
	T.ctx = outer;
}

// ------------------------------------------------------------------ tasks
static void task_body(int t)
{
	const Plan& p = *w.plan;
	for (auto& op : p.ops) if (op.task == t)
	{
		run_op(op, nullptr);
		T.ctx = nullptr;
		Leave l;
		if (--w.gap_events <= 0 || (w.plan->sched.size() && w.sched_pos < w.plan->sched.size() && w.plan->sched[w.sched_pos] == 0)) { int o = pick_other(); if (o >= 0) switch_to(o, nullptr); }
	}
}

static void* task_main(void* arg)
{
	int t = (int)(intptr_t)arg;
	T.task = t;
	stack_t ss{}; ss.ss_size = 64 << 10; ss.ss_sp = malloc(ss.ss_size);
	sigaltstack(&ss, nullptr);
	pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
	void* sp; size_t sz; pthread_attr_getstack(&at, &sp, &sz); pthread_attr_destroy(&at);
	T.stack_lo = (char*)sp; T.stack_hi = T.stack_lo + sz;
	for (;;)
	{
		while (sem_wait(&sem[t]) != 0) {}
		task_body(t);
		w.runnable[t] = false;
		int n = pick_other();
		if (n >= 0) { w.current = n; hash_add(0x5100 + (uint64_t)n); sem_post(&sem[n]); }
		else { w.current = -1; sem_post(&sem_main); }
	}
}

static void run_plan(const Plan& p)
{
	w.plan = &p;
	w.arena_top = 0;
	size_t used = w.blocks.empty() ? 0 : (size_t)(w.blocks.back().addr - ARENA + w.blocks.back().size + 64);
	memset(w.granule, 0, ((used >> 4) + 8) * sizeof *w.granule);
	w.blocks.clear();
	w.toks.clear();
	w.shadow.clear();
	w.syncvar.clear();
	w.race_reported = false;
	w.sched_pos = 0;
	w.rr = 0;
	w.sched_hash = 0;
	w.switches = 0;
	w.nontrivial = false;
	w.exc_inflight = false;
	w.groups.clear();
	counts.clear();
	memset(w.vc, 0, sizeof w.vc);
	for (int i = 0; i < MAXTASK; i++) w.vc[i][i] = 1;
	int nt = 0;
	for (auto& o : p.ops) nt = std::max(nt, o.task + 1);
	cnt(C_PLANS)++;
	for (size_t i = 0; i < p.ev.size() && i < 16; i++) { cnt(C_EV0 + (int)i) += (uint64_t)p.ev[i]; if (p.ev[i]) w.nontrivial = true; }
	uint64_t h0 = w.hash;
	w.hash = 1469598103934665603ull;
	if (nt <= 1)
	{
		w.multi = false; w.ntasks = 1;
		T.task = 0;
		for (auto& o : p.ops) { run_op(o, nullptr); T.ctx = nullptr; }
	}
	else
	{
		cnt(C_MULTI)++;
		for (auto& o : p.ops)
		{
			OpCtx c; const Grammar& g = grammars[(size_t)o.g];
			place_input(c, o, g, g.def->v[o.v]);
		}
		w.ntasks = nt;
		for (int i = 0; i < nt; i++) { w.runnable[i] = true; w.inflight[i] = false; }
		for (int i = 0; i < nt; i++) if (!thread_up[i])
		{
			pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstacksize(&at, 16u << 20);
			if (pthread_create(&threads[i], &at, task_main, (void*)(intptr_t)i)) { perror("pthread_create"); _exit(8); }
			pthread_attr_destroy(&at);
			thread_up[i] = true;
		}
		w.multi = true;
		w.current = -1;
		sched_next();
		int first = pick_other();
		w.current = first;
		sem_post(&sem[first]);
		while (sem_wait(&sem_main) != 0) {}
		w.multi = false;
		cnt(C_SWITCHES) += w.switches;
	}
	for (auto& c : w.heldctx) release_held(*c);
	w.heldctx.clear();
	if (shared->ep_plans < 256) shared->stat[shared->ep_plans] = { w.hash, w.sched_hash, w.nontrivial ? 1u : 0u, nt > 1 ? 1u : 0u };
	shared->nplans++;
	shared->ep_plans++;
	w.hash = mix(h0 ^ w.hash);
}

void run_episode_here(const std::function<bool(Plan&)>& next, bool verbose)
{
	w.verbose = verbose;
	w.findings.clear();
	T.ctx = nullptr;
	shared->ep_plans = 0;
	shared->planlen = 0;
	for (int i = 0;; i++)
	{
		Plan p;
		shared->calling = 0;
		if (!next(p)) break;
		std::string s = to_text(p);
		if (shared->planlen + s.size() > sizeof shared->plans) break;
		memcpy(shared->plans + shared->planlen, s.data(), s.size());
		shared->planlen += (uint32_t)s.size();
		w.plan_index = i;
		shared->beat++;
		shared->cur_plan = i;
		if (verbose) { printf("plan %d\n", i); }
		run_plan(p);
		if (verbose) fflush(stdout);
	}
	flush_findings();
}

// ------------------------------------------------------------------ crashes
static void on_signal(int sig, siginfo_t* si, void*)
{
	T.in_sut = false;
	uintptr_t a = (uintptr_t)si->si_addr;
	char b[200];
	OpCtx* c = T.ctx;
	if (sig == SIGSEGV || sig == SIGBUS)
	{
		if (a >= INPUT && a < INPUT + NSLOT * SLOT && c)
		{
			snprintf(b, sizeof b, "read element %ld of an input of %zu, in unmapped memory", ((long)a - (long)c->base) / (long)c->esz, c->n);
			fatal(F_OOB, b);
		}
		if (T.stack_lo && a + (1 << 20) >= (uintptr_t)T.stack_lo && a < (uintptr_t)T.stack_lo + (64 << 10))
			fatal(F_HANG, "recursion without end: the stack is exhausted");
		fatal(F_CRASH, "access to a bad address");
	}
	snprintf(b, sizeof b, "signal %d", sig);
	fatal(sig == SIGABRT ? F_TERMINATE : F_CRASH, b);
}

void new_shared()
{
	shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (shared == MAP_FAILED) { perror("mmap"); exit(8); }
}

void world_init()
{
	void* a = mmap((void*)ARENA, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	void* b = mmap((void*)INPUT, NSLOT * SLOT, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
	if (a != (void*)ARENA || b != (void*)INPUT) { perror("mmap"); exit(8); }
	for (size_t i = 0; i < NSLOT; i++) mprotect((void*)(INPUT + i * SLOT + PAGE), SLOT_PAGES * PAGE, PROT_READ | PROT_WRITE);
	w.granule = (uint32_t*)mmap(nullptr, (ARENA_SIZE >> 4) * 4 + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	new_shared();
	for (auto& s : sem) sem_init(&s, 0, 0);
	sem_init(&sem_main, 0, 0);
	auto& r = registry();
	size_t most = 0;
	for (auto* d : r) most = std::max(most, (size_t)d->index + 1);
	grammars.resize(most);
	for (auto* d : r) load_grammar(grammars[(size_t)d->index], d);
	struct sigaction sa{};
	sa.sa_sigaction = on_signal;
	sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
	for (int s : { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
	stack_t ss{}; ss.ss_size = 64 << 10; ss.ss_sp = malloc(ss.ss_size);
	sigaltstack(&ss, nullptr);
	pthread_attr_t at; pthread_getattr_np(pthread_self(), &at);
	void* sp; size_t sz; pthread_attr_getstack(&at, &sp, &sz); pthread_attr_destroy(&at);
	T.stack_lo = (char*)sp; T.stack_hi = T.stack_lo + sz;
	std::set_terminate([] { T.in_sut = false; fatal(F_TERMINATE, "std::terminate was called"); });
}

} // namespace sim

using namespace sim;

// ------------------------------------------------------------------ the harness' view of spans and values
namespace h {
void put(std::string& s, uint64_t x);
struct TokBase { uint32_t magic; uint32_t id; uint64_t pay; void* body; unsigned char st; };
void canon_span(std::string& s, const void* data, size_t size, size_t esz)
{
	Leave l;
	OpCtx* c = T.ctx;
	if (size == 0)
	{
		s += "s_";
		return;
	}
	const char* p = (const char*)data;
	s += 's';
	// inside the input of this call or, in a nested call, of an outer one: always its own
	if (p < c->base || p + size * esz > c->base + c->n * c->esz || (size_t)(p - c->base) % c->esz)
	{
		s += '!';
		c->alias_bad = true;
		c->note = "a span of " + std::to_string(size) + " elements lies outside the input";
		finding(F_ALIAS, c->note);
		return;
	}
	s += std::to_string((size_t)(p - c->base) / c->esz);
	s += '+';
	s += std::to_string(size);
}
void canon_tok(std::string& s, const TokBase& t)
{
	Leave l;
	s += 'k';
	if (t.magic != 0x70ca11feu || t.id >= w.toks.size() || !w.toks[t.id].live) { s += "!x"; finding(F_UAF, "a destroyed value was handed over"); return; }
	if (t.st == 2) { s += "!m"; return; }
	if (t.st == 3) { s += "!d"; return; }
	for (int i = 28; i >= 0; i -= 4) s += "0123456789abcdef"[(t.pay >> i) & 15];
}
}

// ------------------------------------------------------------------ allocation
static void* op_new(size_t n, bool nothrow, const void* pc)
{
	if (T.in_sut && T.ctx) return sut_alloc(n, false, nothrow, pc);
	void* p = malloc(n ? n : 1);
	if (!p && !nothrow) throw std::bad_alloc();
	return p;
}
static void op_del(void* p)
{
	uintptr_t a = (uintptr_t)p;
	if (a >= ARENA && a < ARENA + ARENA_SIZE) { Leave l; arena_free(p); return; }
	if (T.in_sut && p) { Leave l; finding(F_BADFREE, "memory released that was not obtained by the parse"); }
	free(p);
}
#define PC __builtin_return_address(0)
void* operator new(size_t n) { return op_new(n, false, PC); }
void* operator new[](size_t n) { return op_new(n, false, PC); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return op_new(n, true, PC); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return op_new(n, true, PC); }
void* operator new(size_t n, std::align_val_t) { return op_new(n, false, PC); }
void* operator new[](size_t n, std::align_val_t) { return op_new(n, false, PC); }
void operator delete(void* p) noexcept { op_del(p); }
void operator delete[](void* p) noexcept { op_del(p); }
void operator delete(void* p, size_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t) noexcept { op_del(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { op_del(p); }
void operator delete(void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, std::align_val_t) noexcept { op_del(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { op_del(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { op_del(p); }

// ------------------------------------------------------------------ compiler emitted calls
extern "C" {

void __sanitizer_cov_trace_pc()
{
	if (!T.in_sut) return;
	const void* pc = PC;
	shared->cov[(uintptr_t)pc & ((1u << 22) - 1)] = 1;
	tick(pc);
}

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
void __tsan_read##n(void* p) { access(p, n, false, PC); } \
void __tsan_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_unaligned_read##n(void* p) { access(p, n, false, PC); } \
void __tsan_unaligned_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_volatile_read##n(void* p) { access(p, n, false, PC); } \
void __tsan_volatile_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_unaligned_volatile_read##n(void* p) { access(p, n, false, PC); } \
void __tsan_unaligned_volatile_write##n(void* p) { access(p, n, true, PC); } \
void __tsan_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); } \
void __tsan_unaligned_read_write##n(void* p) { access(p, n, false, PC); access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, size_t n) { access(p, n, false, PC); }
void __tsan_write_range(void* p, size_t n) { access(p, n, true, PC); }
void __tsan_vptr_update(void* p, void*) { access(p, 8, true, PC); }
void __tsan_vptr_read(void* p) { access(p, 8, false, PC); }

#define ATOM(bits, type) \
type __tsan_atomic##bits##_load(const volatile type* a, int mo) { type r = __atomic_load_n(a, __ATOMIC_SEQ_CST); atomic_access((const void*)a, true, false, mo, PC); return r; } \
void __tsan_atomic##bits##_store(volatile type* a, type v, int mo) { atomic_access((const void*)a, false, true, mo, PC); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_exchange(volatile type* a, type v, int mo) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_add(volatile type* a, type v, int mo) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_sub(volatile type* a, type v, int mo) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_and(volatile type* a, type v, int mo) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_or(volatile type* a, type v, int mo) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_fetch_xor(volatile type* a, type v, int mo) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_strong(volatile type* a, type* c, type v, int mo, int) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
int __tsan_atomic##bits##_compare_exchange_weak(volatile type* a, type* c, type v, int mo, int) { atomic_access((const void*)a, true, true, mo, PC); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
type __tsan_atomic##bits##_compare_exchange_val(volatile type* a, type c, type v, int mo, int) { atomic_access((const void*)a, true, true, mo, PC); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// libc functions that touch memory on the library's behalf
int __real_memcmp(const void*, const void*, size_t);
void* __real_memcpy(void*, const void*, size_t);
void* __real_memmove(void*, const void*, size_t);
void* __real_memset(void*, int, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
size_t __real_wcslen(const wchar_t*);
int __real_wmemcmp(const wchar_t*, const wchar_t*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { if (T.in_sut && n) { access(a, n, false, PC); access(b, n, false, PC); } return __real_memcmp(a, b, n); }
void* __wrap_memcpy(void* a, const void* b, size_t n) { if (T.in_sut && n) { access(b, n, false, PC); access(a, n, true, PC); } return __real_memcpy(a, b, n); }
void* __wrap_memmove(void* a, const void* b, size_t n) { if (T.in_sut && n) { access(b, n, false, PC); access(a, n, true, PC); } return __real_memmove(a, b, n); }
void* __wrap_memset(void* a, int c, size_t n) { if (T.in_sut && n) access(a, n, true, PC); return __real_memset(a, c, n); }
void* __wrap_memchr(const void* a, int c, size_t n) { void* r = __real_memchr(a, c, n); if (T.in_sut && n) access(a, r ? (size_t)((char*)r - (char*)a) + 1 : n, false, PC); return r; }
size_t __wrap_strlen(const char* s) { size_t n = __real_strlen(s); if (T.in_sut) access(s, n + 1, false, PC); return n; }
size_t __wrap_wcslen(const wchar_t* s) { size_t n = __real_wcslen(s); if (T.in_sut) access(s, (n + 1) * sizeof(wchar_t), false, PC); return n; }
int __wrap_wmemcmp(const wchar_t* a, const wchar_t* b, size_t n) { if (T.in_sut && n) { access(a, n * sizeof(wchar_t), false, PC); access(b, n * sizeof(wchar_t), false, PC); } return __real_wmemcmp(a, b, n); }
// simple enough to be done here, element by element
wchar_t* __wrap_wmemchr(const wchar_t* s, wchar_t c, size_t n) { for (size_t i = 0; i < n; i++) { if (T.in_sut) access(s + i, sizeof *s, false, PC); if (s[i] == c) return (wchar_t*)(s + i); } return nullptr; }
void* __wrap_memrchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for (size_t i = n; i-- > 0;) { if (T.in_sut) access(p + i, 1, false, PC); if (p[i] == (unsigned char)c) return (void*)(p + i); } return nullptr; }
void* __wrap_rawmemchr(const void* s, int c) { const unsigned char* p = (const unsigned char*)s; for (;; p++) { if (T.in_sut) access(p, 1, false, PC); if (*p == (unsigned char)c) return (void*)p; } }
int __wrap_strncmp(const char* a, const char* b, size_t n) { for (size_t i = 0; i < n; i++) { if (T.in_sut) { access(a + i, 1, false, PC); access(b + i, 1, false, PC); } if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; } return 0; }
int __wrap_strcmp(const char* a, const char* b) { for (size_t i = 0;; i++) { if (T.in_sut) { access(a + i, 1, false, PC); access(b + i, 1, false, PC); } if (a[i] != b[i] || !a[i]) return (int)(unsigned char)a[i] - (int)(unsigned char)b[i]; } }
size_t __wrap_strnlen(const char* s, size_t n) { size_t i = 0; for (; i < n; i++) { if (T.in_sut) access(s + i, 1, false, PC); if (!s[i]) break; } return i; }
char* __wrap_strchr(const char* s, int c) { for (;; s++) { if (T.in_sut) access(s, 1, false, PC); if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }

// synchronisation
static void lock_wait(const void* pc)
{
	bool other = false;
	if (w.multi) for (int i = 0; i < w.ntasks; i++) other |= w.runnable[i] && i != w.current;
	if (!other) { Leave l; fatal(F_HANG, "waits for a lock that nobody will release"); }
	tick(pc);
	preempt(pc);
}
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
	if (!T.in_sut) return __real_pthread_mutex_lock(m);
	const void* pc = PC;
	tick(pc);
	for (;;)
	{
		int e = __real_pthread_mutex_trylock(m);
		if (e != EBUSY) { if (e) return e; break; }
		lock_wait(pc);
	}
	if (w.multi) { Leave l; sync_acq((uintptr_t)m); }
	return 0;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
#define RWLOCK(kind) \
int __wrap_pthread_rwlock_##kind##lock(pthread_rwlock_t* m) \
{ \
	if (!T.in_sut) return __real_pthread_rwlock_##kind##lock(m); \
	const void* pc = PC; \
	tick(pc); \
	for (;;) { int e = pthread_rwlock_try##kind##lock(m); if (e != EBUSY && e != EAGAIN && e != EDEADLK) { if (e) return e; break; } lock_wait(pc); } \
	if (w.multi) { Leave l; sync_acq((uintptr_t)m); } \
	return 0; \
}
RWLOCK(rd) RWLOCK(wr)
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
	if (T.in_sut && w.multi) { Leave l; sync_rel((uintptr_t)m); }
	return __real_pthread_rwlock_unlock(m);
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
	if (T.in_sut && w.multi) { Leave l; sync_rel((uintptr_t)m); }
	return __real_pthread_mutex_unlock(m);
}
int __real_pthread_mutex_trylock(pthread_mutex_t*);
int __wrap_pthread_mutex_trylock(pthread_mutex_t* m)
{
	if (T.in_sut) tick(PC);
	int e = __real_pthread_mutex_trylock(m);
	if (!e && T.in_sut && w.multi) { Leave l; sync_acq((uintptr_t)m); }
	return e;
}
int __real_pthread_once(pthread_once_t*, void (*)());
int __wrap_pthread_once(pthread_once_t* o, void (*f)())
{
	if (!T.in_sut) return __real_pthread_once(o, f);
	enum { NEW = PTHREAD_ONCE_INIT, RUNNING = 1, DONE = 2 };   // 2 is glibc's own "done"
	const void* pc = PC;
	tick(pc);
	while (*o == RUNNING) lock_wait(pc);
	if (*o == NEW)
	{
		*o = RUNNING;
		try { f(); } catch (...) { *o = NEW; throw; }
		*o = DONE;
		if (w.multi) { Leave l; sync_rel((uintptr_t)o); }
	}
	else if (w.multi) { Leave l; sync_acq((uintptr_t)o); }
	return 0;
}
int __cxa_guard_acquire(long long* g)
{
	char* b = (char*)g;
	const void* pc = PC;
	for (;;)
	{
		if (b[0]) { if (T.in_sut && w.multi) { Leave l; sync_acq((uintptr_t)g); } return 0; }
		if (!b[1]) { b[1] = 1; return 1; }
		if (!T.in_sut || !w.multi) abort();   // recursive initialisation
		tick(pc); preempt(pc);
	}
}
void __cxa_guard_release(long long* g)
{
	char* b = (char*)g;
	if (T.in_sut && w.multi) { Leave l; sync_rel((uintptr_t)g); }
	b[0] = 1; b[1] = 0;
}
void __cxa_guard_abort(long long* g) { ((char*)g)[1] = 0; }

} // extern "C"
