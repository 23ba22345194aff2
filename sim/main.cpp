// Seeded search: generates plans, runs them in the simulated world, decides, minimises, reports.
#include "core.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <signal.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

using namespace sim;
using Clock = std::chrono::steady_clock;
using Syms = std::vector<uint32_t>;

static double seconds_since(Clock::time_point t) { return std::chrono::duration<double>(Clock::now() - t).count(); }

// ------------------------------------------------------------------ generating plans
enum Ev { EV_CUT, EV_LOST, EV_DUP, EV_REORDER, EV_FLIP, EV_INSERT, EV_TAIL, EV_RETRY, EV_REWRITE, EV_MOVED, EV_N };
static const char* ev_name[] = { "truncated input", "lost chunk", "duplicated chunk", "reordered chunks", "corrupted element", "inserted garbage", "trailing data", "retry after partial delivery", "buffer rewritten in place", "input relocated" };

struct Src { int g, v; Syms doc; };

struct Profile
{
	std::string prop;
	Rng r;
	int plans_left;
	int stage = 0;
	Src cal; int cal_r = 0;            // calibration state
	Plan calplan;
	int next_id = 0;

	Profile(const std::string& p, uint64_t seed, int n) : prop(p), r(seed), plans_left(n) {}

	int pick_g()
	{
		for (int i = 0; i < 20; i++)
		{
			int g = (int)r.below(grammars.size());
			if (!grammars[(size_t)g].def) { if (i == 19) i--; continue; }
			if (prop == "C11" && !grammars[(size_t)g].has("cb") && !grammars[(size_t)g].has("rec") && i < 19) continue;
			if (prop == "C05" && !grammars[(size_t)g].has("cb") && grammars[(size_t)g].def->v[0].elem != std::string("elem") && i < 10) continue;
			return g;
		}
		return 0;
	}

	void clip(Syms& d, int g, int v)
	{
		uint32_t m = (uint32_t)grammars[(size_t)g].def->v[v].maxsym;
		for (auto& c : d) if (c > m) c = grammars[(size_t)g].alphabet[0] <= m ? grammars[(size_t)g].alphabet[0] : 'a';
	}

	// a document, mostly one that the grammar accepts
	Src source(int g = -1)
	{
		Src s;
		s.g = g < 0 ? pick_g() : g;
		const Grammar& gr = grammars[(size_t)s.g];
		s.v = (int)r.below((uint64_t)gr.def->nv);
		static const int lens[] = { 6, 12, 12, 24, 24, 40, 80, 160 };
		int maxlen = lens[r.below(8)], rep = r.range(1, 4);
		if (r.chance(1, 10)) rep = 12;
		if (r.chance(1, 40)) { maxlen = 700; rep = gr.has("long") || r.chance(1, 3) ? 600 : 40; }
		int kind = (int)r.below(20);
		if (kind == 0) { size_t n = r.below(12); for (size_t i = 0; i < n; i++) s.doc.push_back(gr.alphabet[r.below(gr.alphabet.size())]); }
		else if (gr.has_rec && r.chance(1, 24))
		{
			static const int deeps[] = { 20, 40, 70, 100, 140, 200, 280, 500 };
			s.doc = gen_sentence(gr, r, maxlen, 2, deeps[r.below(8)]);
		}
		else s.doc = gen_sentence(gr, r, maxlen, rep);
		// more than one sentence in a row: what follows the first must be left alone
		if (kind == 1) { auto t = gen_sentence(gr, r, 20, 2); s.doc.insert(s.doc.end(), t.begin(), t.end()); }
		if (s.doc.size() > 1500) s.doc.resize(1500);
		clip(s.doc, s.g, s.v);
		return s;
	}

	uint32_t anysym(int g) { auto& a = grammars[(size_t)g].alphabet; return r.chance(1, 8) ? odd_symbol(grammars[(size_t)g], r) : a[r.below(a.size())]; }

	void damage(Src& s, Plan& p, int n)
	{
		Syms& d = s.doc;
		for (int i = 0; i < n; i++)
		{
			int k = (int)r.below(7);
			if (d.empty() && k != EV_INSERT && k != EV_TAIL) continue;
			switch (k)
			{
			case EV_CUT: d.resize(r.below(d.size() + 1)); break;
			case EV_LOST: { size_t o = r.below(d.size()), l = 1 + r.below(std::min<size_t>(d.size() - o, r.chance(1, 2) ? 1 : 8)); d.erase(d.begin() + (long)o, d.begin() + (long)std::min(d.size(), o + l)); break; }
			case EV_DUP: { size_t o = r.below(d.size()), l = std::min<size_t>(d.size() - o, 1 + r.below(6)); Syms c(d.begin() + (long)o, d.begin() + (long)(o + l)); d.insert(d.begin() + (long)(o + l), c.begin(), c.end()); break; }
			case EV_REORDER: { size_t o = r.below(d.size()), m = std::min(d.size(), o + 1 + r.below(4)), e = std::min(d.size(), m + 1 + r.below(4)); std::rotate(d.begin() + (long)o, d.begin() + (long)m, d.begin() + (long)e); break; }
			case EV_FLIP: d[r.below(d.size())] = anysym(s.g); break;
			case EV_INSERT: d.insert(d.begin() + (long)r.below(d.size() + 1), anysym(s.g)); break;
			case EV_TAIL: { size_t l = 1 + r.below(4); for (size_t j = 0; j < l; j++) d.push_back(anysym(s.g)); break; }
			}
			p.ev[(size_t)k]++;
		}
		clip(d, s.g, s.v);
	}

	int range_kind(const Variant& v, const Syms& in, bool allow)
	{
		if (!allow || r.chance(1, 2)) return 0;
		int k = (int)r.below(NRANGE);
		if (!v.parse[k]) return 0;
		if (k == 5 && std::find(in.begin(), in.end(), 0u) != in.end()) return 0;
		return k;
	}

	Op op(const Src& s, bool parse = true)
	{
		Op o;
		o.id = next_id++;
		o.g = s.g; o.v = s.v; o.in = s.doc; o.parse = parse;
		o.place = (int)r.below(3);
		o.nb = (uint32_t)r.next() & 0x7fffffff;
		o.buf = (int)r.below(8);
		o.r = range_kind(grammars[(size_t)s.g].def->v[s.v], s.doc, true);
		return o;
	}

	Plan fresh(int kind) { Plan p; p.kind = kind; p.ev.assign(EV_N, 0); next_id = 0; return p; }

	bool next(Plan& p)
	{
		if (plans_left-- <= 0) return false;
		if (stage == 0 && (prop == "C04" || prop == "C05" || prop == "C11") && r.chance(1, 250)) return marathon(p);
		if (stage == 0 && prop == "C11" && r.chance(1, 30)) return tower(p);
		if (stage == 0 && (prop == "C13" || prop == "C15" || prop == "C02" || prop == "C09" || prop == "C10" || prop == "C07") && r.chance(1, prop == "C13" ? 5000 : 9000)) return flood(p);
		if (prop == "C01") return concurrent(p);
		if (prop == "C04") return r.chance(1, 12) && stage == 0 ? concurrent(p) : faulty(p);
		if (prop == "C05") return r.chance(1, 12) && stage == 0 ? concurrent(p) : faulty(p);
		if (prop == "C09") return r.chance(1, 5) || stage ? faulty(p) : stream(p);
		if (prop == "C06") return r.chance(1, 4) || stage ? faulty(p) : stream(p);
		if (prop == "C11") return r.chance(1, 6) && stage == 0 ? stream(p) : nested(p);
		if (prop == "C12") return history(p);
		if (prop == "C22" || prop == "C23") return r.chance(1, 5) || stage ? faulty(p) : stream(p);
		return stream(p);
	}

	// One connection: a document arrives in pieces, and is parsed again and again.
	bool stream(Plan& p)
	{
		p = fresh(1);
		Src s = source();
		if (r.chance(1, 2)) damage(s, p, 1 + (int)r.below(3));
		const bool same_buffer = r.chance(1, 2);
		int n = s.doc.size() > 300 ? 2 + (int)r.below(3) : 3 + (int)r.below(9);
		std::vector<size_t> cuts;
		int style = (int)r.below(4);
		if (style == 0) { size_t from = r.below(s.doc.size() + 1); for (int i = 0; i < n; i++) cuts.push_back(std::min(s.doc.size(), from + (size_t)i)); }      // element by element
		else { for (int i = 0; i < n; i++) cuts.push_back(r.below(s.doc.size() + 1)); if (style != 3) std::sort(cuts.begin(), cuts.end()); }
		cuts.push_back(s.doc.size());
		int buf = (int)r.below(8), place = (int)r.below(3);
		for (size_t i = 0; i < cuts.size(); i++)
		{
			Src t = s;
			t.doc.resize(cuts[i]);
			bool parse = prop == "C07" ? r.chance(1, 4) : prop == "C21" ? !r.chance(1, 3) : !r.chance(1, 10);
			Op o = op(t, parse);
			if (same_buffer) { o.buf = buf; o.place = place; if (place == 2) o.nb = (o.nb & ~63u) | (uint32_t)(buf * 5); }
			if (cuts[i] < s.doc.size()) p.ev[EV_CUT]++;
			if (i) p.ev[EV_RETRY]++;
			if (parse)
			{
				if (prop == "C09" || r.chance(1, 6)) o.post = (int)r.below(16);
				if (prop == "C09" || prop == "C12" ? r.chance(1, 2) : r.chance(1, 10)) o.hold = true;
			}
			if (!parse && r.chance(1, 2))
			{
				// armed, but must find nothing to hit
				o.faults.push_back({ FK_ALLOC, 1 + (int)r.below(2), 1 });
				o.faults.push_back({ FK_CB, 1 + (int)r.below(2), any_exc(r) });
			}
			if (prop == "C03")
			{
				// once more with different memory around it
				Op q = o;
				o.grp = q.grp = (int)i;
				q.id = next_id++;
				q.nb = (uint32_t)r.next() & 0x7fffffff;
				q.place = (int)r.below(3);
				q.buf = (int)r.below(8);
				q.hold = false;
				p.ops.push_back(o);
				p.ops.push_back(q);
				p.ev[EV_MOVED]++;
				continue;
			}
			p.ops.push_back(o);
		}
		return true;
	}

	Fault aim(const OpCount& c)
	{
		Fault f{};
		for (int i = 0; i < 8; i++)
		{
			int k = (int)r.below(4);
			if (prop == "C04") k = FK_ALLOC;
			else if (prop == "C05") k = 1 + (int)r.below(3);
			else if (prop == "C06") k = r.chance(3, 4) ? FK_CB : FK_VAL;
			uint64_t n = k == FK_ALLOC ? c.nalloc : k == FK_CB ? c.ncb : k == FK_CMP ? c.ncmp : c.nval;
			f.kind = k;
			f.nth = 1 + (int)r.below(n ? n : 1);
			f.arg = k == FK_ALLOC ? (r.chance(1, 5) ? 1 + (int)r.below(3) : 1) : any_exc(r);
			if (n) break;
		}
		return f;
	}

	// A clean run tells how often each fault point is passed; then each is made to fail.
	bool faulty(Plan& p)
	{
		if (stage == 0)
		{
			p = fresh(2);
			cal = source();
			if (r.chance(1, 4)) damage(cal, p, 1);
			Op o = op(cal);
			cal_r = o.r;
			p.ops.push_back(o);
			stage = 1;
			return true;
		}
		stage = 0;
		OpCount c = counts.empty() ? OpCount{} : counts[0];
		p = fresh(3);
		int n = 3 + (int)r.below(8);
		uint64_t most = prop == "C04" ? c.nalloc : std::max({ c.ncb, c.ncmp, c.nval });
		bool sweep = most > 0 && most <= 14 && r.chance(1, 2);
		if (sweep) n = (int)most;
		int kind = r.chance(1, 2) ? 1 : 3;
		for (int i = 0; i < n; i++)
		{
			Op o = op(cal);
			o.r = cal_r;
			Fault f = aim(c);
			if (sweep)
			{
				if (prop == "C04") f = { FK_ALLOC, i + 1, 1 };
				else if (prop == "C05") { int k = c.ncmp > c.ncb && c.ncmp >= c.nval ? FK_CMP : kind == 1 && c.ncb ? FK_CB : c.nval ? FK_VAL : FK_CB; f = { k, i + 1, any_exc(r) }; }
			}
			o.faults.push_back(f);
			if (prop == "C05" && r.chance(1, 8)) o.parse = false;
			if (r.chance(1, 6)) o.post = (int)r.below(16);
			p.ops.push_back(o);
			if (r.chance(1, 3) || i == n - 1)
			{
				Op q = op(cal);
				q.r = cal_r;
				q.hold = r.chance(1, 3);
				if (r.chance(1, 3)) { Src t = source(r.chance(1, 2) ? cal.g : -1); int id = q.id; q = op(t); q.id = id; }
				p.ops.push_back(q);
			}
		}
		return true;
	}

	void schedule(Plan& p, int nops)
	{
		int style = (int)r.below(5);
		int n = style == 0 ? 1 + (int)r.below(4) : 4 + (int)r.below(40);
		if (style == 4) n = 200;
		p.sched = { 0, (int)r.below(6) };
		for (int i = 0; i < n; i++)
		{
			int gap;
			if (style == 4) gap = (int)r.below(12);                                     // nearly every step
			else if (style == 1 || r.chance(1, 5)) gap = -1 - (int)r.below(6);          // at callbacks, allocations, compares
			else gap = (int)r.below(1ull << r.range(2, 12));
			p.sched.push_back(gap);
			p.sched.push_back((int)r.below(6));
		}
		(void)nops;
	}

	bool concurrent(Plan& p)
	{
		p = fresh(4);
		int nt = r.range(2, 4);
		struct In { Src s; int buf, place; uint32_t nb; };
		std::vector<In> ins;
		int shape = (int)r.below(4);   // 0: all on one input and parser, 1: one parser, several inputs, 2,3: anything
		int ni = shape == 0 ? 1 : 1 + (int)r.below(3);
		int g0 = -1;
		for (int i = 0; i < ni; i++)
		{
			Src s = source(shape <= 1 ? g0 : -1);
			g0 = s.g;
			if (r.chance(1, 3)) damage(s, p, 1);
			if (s.doc.size() > 160) s.doc.resize(160);
			ins.push_back({ s, i, (int)r.below(3), (uint32_t)r.next() & 0x7fffffff });
		}
		int nbuf = ni;
		for (int t = 0; t < nt; t++)
		{
			int n = 1 + (int)r.below(3);
			for (int i = 0; i < n; i++)
			{
				const In& in = ins[r.below(ins.size())];
				Src s = in.s;
				Op o = op(s, prop == "C04" || prop == "C05" ? true : !r.chance(1, 6));
				o.r = o.r == 5 ? 0 : o.r;
				o.task = t; o.buf = in.buf; o.place = in.place; o.nb = in.nb;
				if (shape == 3 && r.chance(1, 3))
				{
					// an input of its own
					Src u = source();
					if (u.doc.size() > 160) u.doc.resize(160);
					int id = o.id;
					o = op(u); o.id = id; o.task = t; o.buf = nbuf++;
				}
				if (r.chance(1, 4)) o.hold = o.parse;
				if (r.chance(prop == "C01" ? 1 : 2, 4))
				{
					int k = prop == "C04" ? FK_ALLOC : prop == "C05" ? 1 + (int)r.below(3) : (int)r.below(4);
					if (o.parse || k == FK_CMP) o.faults.push_back({ k, 1 + (int)r.below(r.chance(1, 2) ? 3 : 12), k == FK_ALLOC ? 1 : any_exc(r) });
				}
				p.ops.push_back(o);
			}
		}
		if (nbuf > 30) return true;
		schedule(p, (int)p.ops.size());
		return true;
	}

	// A parse whose user functions parse.
	bool nested(Plan& p)
	{
		if (stage == 0)
		{
			p = fresh(5);
			cal = source();
			if (r.chance(1, 4)) damage(cal, p, 1);
			Op o = op(cal);
			cal_r = o.r == 5 ? 0 : o.r;
			o.r = cal_r;
			p.ops.push_back(o);
			stage = 1;
			return true;
		}
		stage = 0;
		OpCount c = counts.empty() ? OpCount{} : counts[0];
		p = fresh(6);
		bool multi = r.chance(1, 8);
		int n = multi ? 2 : 1 + (int)r.below(4);
		if (cal.doc.size() > 200) n = 1;
		for (int i = 0; i < n; i++)
		{
			Op o = op(cal);
			o.r = cal_r;
			if (multi) { o.task = i; o.buf = i; }
			int k = c.ncb ? 1 + (int)r.below(std::min<uint64_t>(c.ncb, 5)) : 1;
			for (int j = 0; j < k; j++)
			{
				int ni = inner(p, o, 0);
				o.faults.push_back({ FK_NEST, 1 + (int)r.below(c.ncb ? c.ncb : 1), ni });
			}
			if (r.chance(1, 4)) o.hold = true;
			if (r.chance(1, 6) && c.ncb) o.faults.push_back({ FK_CB, 1 + (int)r.below(c.ncb), any_exc(r) });
			p.ops.push_back(o);
			if (!multi && r.chance(1, 3)) p.ops.push_back(op(source(r.chance(1, 2) ? cal.g : -1)));
		}
		if (multi) schedule(p, n);
		return true;
	}

	int inner(Plan& p, const Op& outer, int depth)
	{
		Op o;
		int kind = (int)r.below(4);
		const bool own = kind >= 2;
		if (!own)
		{
			Src s{ kind == 0 ? outer.g : other_same_elem(outer), outer.v, outer.in };
			if (kind == 1 && s.g != outer.g) s.v = elem_variant(s.g, outer);
			size_t off = r.chance(1, 3) ? 0 : r.below(outer.in.size() + 1), len = r.chance(1, 2) ? outer.in.size() - off : r.below(outer.in.size() - off + 1);
			s.doc.assign(outer.in.begin() + (long)off, outer.in.begin() + (long)(off + len));
			o = op(s, !r.chance(1, 4));
			if (o.r == 5) o.r = 0;
			o.in_off = (int)off; o.in_len = (int)len;
		}
		else
		{
			Src s = source(kind == 2 ? outer.g : -1);
			if (s.doc.size() > 60) s.doc.resize(60);
			if (r.chance(1, 3)) damage(s, p, 1);
			o = op(s, !r.chance(1, 4));
		}
		if (o.parse && r.chance(1, 3)) o.faults.push_back({ r.chance(1, 3) ? FK_ALLOC : FK_CB, 1 + (int)r.below(4), 1 + (int)r.below(3) });
		if (o.parse && r.chance(1, 5)) o.hold = true;
		if (depth < 3 && o.parse && p.nested.size() < 30 && r.chance(1, 3))
		{
			int q = inner(p, o, depth + 1);
			o.faults.push_back({ FK_NEST, 1 + (int)r.below(3), q });
		}
		p.nested.push_back(o);
		p.nested.back().id = 100 + (int)p.nested.size() - 1;
		if (own) p.nested.back().buf = 20 + (int)p.nested.size() - 1;   // of its own
		return (int)p.nested.size() - 1;
	}
	int elem_variant(int g, const Op& outer)
	{
		const char* e = grammars[(size_t)outer.g].def->v[outer.v].elem;
		auto* d = grammars[(size_t)g].def;
		for (int i = 0; i < d->nv; i++) if (!strcmp(d->v[i].elem, e)) return i;
		return -1;
	}
	int other_same_elem(const Op& outer)
	{
		for (int i = 0; i < 8; i++) { int g = (int)r.below(grammars.size()); if (grammars[(size_t)g].def && elem_variant(g, outer) >= 0) return g; }
		return outer.g;
	}

	// The same few calls hundreds of times, many ended by exceptions: whatever is counted along the way must be counted back.
	bool marathon(Plan& p)
	{
		p = fresh(8);
		Src s = source();
		if (s.doc.size() > 16) s.doc.resize(16);
		Src t = r.chance(1, 2) ? source(s.g) : s;
		if (t.doc.size() > 16) t.doc.resize(16);
		int n = r.range(150, 700), bad = r.range(1, 9);
		int kind = prop == "C04" ? (int)FK_ALLOC : r.chance(1, 2) ? (int)FK_CB : (int)r.below(4);
		const bool nest = prop == "C11";
		if (nest)
		{
			Op q = op(t, !r.chance(1, 4));
			if (r.chance(1, 2)) q.faults.push_back({ FK_CB, 1 + (int)r.below(2), any_exc(r) });
			q.id = 100; q.buf = 20;
			p.nested.push_back(q);
		}
		for (int i = 0; i < n; i++)
		{
			Op o = op(r.chance(1, 4) ? t : s, !r.chance(1, 12));
			if (o.parse && (int)r.below(10) < bad) o.faults.push_back({ nest ? (int)FK_NEST : kind, 1 + (int)r.below(3), nest ? 0 : kind == FK_ALLOC ? 1 : any_exc(r) });
			p.ops.push_back(o);
		}
		return true;
	}

	// A document so long that anything counted in sixteen bits wraps around.
	bool flood(Plan& p)
	{
		static const int sizes[] = { 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538 };
		Src s;
		int n = sizes[r.below(8)];
		for (int i = 0; i < 12 && s.doc.size() < 30000; i++)
		{
			s.g = pick_g();
			s.v = (int)r.below((uint64_t)grammars[(size_t)s.g].def->nv);
			s.doc = gen_sentence(grammars[(size_t)s.g], r, 280000 / (int)std::max<size_t>(1, grammars[(size_t)s.g].def->v[s.v].esz), 1, 0, n);
			clip(s.doc, s.g, s.v);
		}
		if (s.doc.size() < 30000) return stream(p);
		p = fresh(10);
		const int buf = (int)r.below(8);
		for (int i = 0; i < 3; i++)
		{
			Op o = op(s, i != 1);
			o.buf = buf;
			if (i == 2 && r.chance(1, 4)) o.hold = true;
			p.ops.push_back(o);
			if (i == 1) { s.doc.resize(s.doc.size() - std::min<size_t>(s.doc.size(), 1 + r.below(4))); p.ev[EV_CUT]++; }
		}
		return true;
	}

	// A parse within a parse within a parse, far down.
	bool tower(Plan& p)
	{
		p = fresh(9);
		Src s = source();
		if (s.doc.size() > 20) s.doc.resize(20);
		Op o = op(s);
		if (o.r == 5) o.r = 0;
		int n = r.range(8, 90);
		const bool same = r.chance(1, 2), view = r.chance(1, 3);
		o.faults.push_back({ FK_NEST, 1, 0 });
		if (r.chance(1, 4)) o.hold = true;
		p.ops.push_back(o);
		for (int i = 0; i < n; i++)
		{
			Src t = s;
			if (!same && r.chance(1, 3)) { t = source(r.chance(1, 2) ? s.g : -1); if (t.doc.size() > 20) t.doc.resize(20); }
			Op q = op(t, !r.chance(1, 20) || i + 1 < n);
			q.id = 100 + i;
			if (q.r == 5) q.r = 0;
			if (view && same) { q.v = o.v; q.in = o.in; q.in_off = 0; q.in_len = (int)o.in.size(); }
			else q.buf = 20 + i;
			if (i + 1 < n) q.faults.push_back({ FK_NEST, 1 + (int)r.below(2), i + 1 });
			if (r.chance(1, 12)) q.faults.push_back({ FK_CB, 1 + (int)r.below(3), any_exc(r) });
			p.nested.push_back(q);
		}
		p.ops.push_back(op(s));
		return true;
	}

	// A long-lived process: few buffers, rewritten and reused; results kept; faults in between.
	bool history(Plan& p)
	{
		if (r.chance(1, 250)) return marathon(p);
		p = fresh(7);
		const bool fixed = r.chance(1, 2);      // every document starts at the same address
		int ns = 1 + (int)r.below(3);
		std::vector<Src> srcs;
		int g0 = r.chance(1, 2) ? pick_g() : -1;
		for (int i = 0; i < ns; i++)
		{
			Src s = source(g0);
			if (r.chance(1, 3)) damage(s, p, 1);
			srcs.push_back(s);
			if (r.chance(1, 2)) { Src t = s; damage(t, p, 1); if (t.v == s.v) srcs.push_back(t); }
			if (fixed && !s.doc.empty())
			{
				// same length, one element differs: at the end, at the start, anywhere
				Src t = s;
				size_t at = r.chance(1, 3) ? t.doc.size() - 1 : r.chance(1, 3) ? 0 : r.below(t.doc.size());
				t.doc[at] = anysym(t.g);
				clip(t.doc, t.g, t.v);
				p.ev[EV_FLIP]++;
				srcs.push_back(t);
			}
		}
		int n = 5 + (int)r.below(10);
		for (auto& s : srcs) if (s.doc.size() > 300) n = 4;
		std::vector<int> lastsrc(64, -1);
		for (int i = 0; i < n; i++)
		{
			size_t k = r.below(srcs.size());
			bool parse = !r.chance(1, 6);
			Op o = op(srcs[k], parse);
			o.buf = (int)r.below(3);
			o.hold = parse && r.chance(1, 2);
			o.post = parse && r.chance(1, 4) ? (int)r.below(16) : 0;
			if (fixed) { o.place = 1 + (o.buf & 1); o.nb = (o.nb & ~63u) | (uint32_t)(o.buf * 7); }
			o.grp = (int)k * 2 + parse;
			if (parse && r.chance(1, 5)) { int q = (int)r.below(4); o.faults.push_back({ q, 1 + (int)r.below(6), q == FK_ALLOC ? 1 : any_exc(r) }); }
			if (lastsrc[(size_t)o.buf] >= 0) p.ev[EV_REWRITE]++;
			lastsrc[(size_t)o.buf] = (int)k;
			p.ev[EV_MOVED]++;
			p.ops.push_back(o);
		}
		return true;
	}
};

// ------------------------------------------------------------------ which finding breaks which property
static const Op* op_of(const Plan& p, const Finding& f)
{
	for (auto& o : f.nested ? p.nested : p.ops) if (o.id == f.op) return &o;
	return nullptr;
}

// 0: not this property; 1: yes; 2: yes if the same call alone in a fresh process is fine
static int owned(const std::string& prop, const Plan& p, const Finding& f)
{
	const Op* o = op_of(p, f);
	if (!o) return 0;
	const Grammar& g = grammars[(size_t)o->g];
	bool multi = false;
	for (auto& x : p.ops) if (x.task) multi = true;
	bool thrower = false, alloc = false;
	for (auto& x : o->faults) { if (x.kind == FK_ALLOC) alloc = true; else if (x.kind != FK_NEST) thrower = true; }
	const int c = f.cls;
	const bool mismatch = c == F_VERDICT || c == F_VALUE || c == F_REMAIN || c == F_FAILREM || c == F_UNEXPEXC || c == F_CRASH || c == F_TERMINATE;
	const bool outcome = mismatch || c == F_CBLOG || c == F_EXC || c == F_UAF || c == F_BADFREE || c == F_HANG || c == F_LEAK_TOK || c == F_LEAK_MEM || c == F_TOKSTATE;
	const bool mem = c == F_LEAK_TOK || c == F_LEAK_MEM || c == F_BADFREE || c == F_UAF;
	if (prop == "C01") return c == F_RACE ? 1 : multi && (outcome || c == F_HELD || c == F_IMPURE) ? 2 : 0;
	if (prop == "C02") return o->parse && mismatch && !multi ? 1 : 0;
	if (prop == "C03") return c == F_OOB || c == F_WRITE || c == F_ALIAS || c == F_DIFF ? 1 : 0;
	if (prop == "C04")
	{
		if (alloc && (c == F_EXC || c == F_TERMINATE || c == F_CRASH || mem)) return 1;
		return outcome && !alloc && !thrower ? 2 : 0;
	}
	if (prop == "C05")
	{
		if (thrower && (c == F_EXC || c == F_TERMINATE || c == F_CRASH || mem)) return 1;
		return outcome && !thrower && !alloc ? 2 : 0;
	}
	if (prop == "C06") return c == F_CBLOG ? 1 : 0;
	if (prop == "C07") return !o->parse && (mismatch || c == F_IMPURE || c == F_EXC || c == F_CBLOG) ? 1 : 0;
	if (prop == "C08") return c == F_HANG ? 1 : 0;
	if (prop == "C09")
	{
		if (c == F_TOKSTATE || c == F_LEAK_TOK || c == F_BADFREE || c == F_UAF) return 1;
		return g.has("tok") && (c == F_VALUE || c == F_CRASH || c == F_TERMINATE) ? 1 : 0;
	}
	if (prop == "C10")
	{
		if (c == F_FAILREM) return 1;
		if (f.detail.find("after the call failed") != std::string::npos && (c == F_LEAK_TOK || c == F_LEAK_MEM)) return 1;
		if (c == F_LEAK_TOK) return 1;
		return mismatch && !thrower && !alloc ? 1 : 0;
	}
	if (prop == "C11")
	{
		if (!(outcome || c == F_HELD || c == F_OOB || c == F_WRITE || c == F_ALIAS || c == F_IMPURE)) return 0;
		return g.has("rec") && mismatch ? 1 : 2;
	}
	if (prop == "C12") return c == F_HELD || c == F_DIFF ? 1 : outcome || c == F_IMPURE ? 2 : 0;
	if (prop == "C13") return mismatch ? 1 : 0;
	if (prop == "C14") return mismatch || c == F_CBLOG || c == F_EXC ? 1 : 0;
	if (prop == "C15") return mismatch ? 1 : 0;
	// every grammar of these pools is written in the way the property is about
	if (prop == "C21") return mismatch ? 1 : 0;
	if (prop == "C22" || prop == "C23") return mismatch || c == F_CBLOG || c == F_EXC ? 1 : 0;
	return 0;
}

// ------------------------------------------------------------------ running episodes in children

// returns false if the child got stuck
static bool run_child(const std::function<bool(Plan&)>& next, bool verbose, std::vector<Finding>& out, double limit)
{
	shared->nfind = 0; shared->textlen = 0; shared->ep_plans = 0; shared->planlen = 0; shared->cur_plan = 0; shared->run_hash = 0; shared->calling = 0;
	fflush(stdout);
	pid_t pid = fork();
	if (pid < 0) { perror("fork"); exit(8); }
	if (pid == 0)
	{
		run_episode_here(next, verbose);
		_exit(0);
	}
	// stuck: the same call for `limit` seconds of its own processor time, without passing an instrumented point often enough to be stopped by its budget of steps
	auto t0 = Clock::now();
	clockid_t clk;
	const bool have = clock_getcpuclockid(pid, &clk) == 0;
	auto cpu = [&] { timespec ts; return have && clock_gettime(clk, &ts) == 0 ? (double)ts.tv_sec + (double)ts.tv_nsec * 1e-9 : 0.0; };
	int st = 0;
	uint64_t beat = shared->beat;
	double at = 0;
	for (int i = 0;; i++)
	{
		pid_t q = waitpid(pid, &st, WNOHANG);
		if (q == pid) break;
		if (shared->beat != beat) { beat = shared->beat; at = cpu(); t0 = Clock::now(); }
		if (i > 1000 && (cpu() - at > limit || seconds_since(t0) > limit * 20))
		{
			kill(pid, SIGKILL); waitpid(pid, &st, 0);
			out.clear();
			if (!shared->calling) return false;   // the simulator itself is slow: not a finding
			out.push_back({ F_HANG, shared->cur_plan, shared->cur_op, shared->cur_nested != 0, "the call does not end" });
			return false;
		}
		usleep(i < 100 ? 100 : i < 1000 ? 500 : 5000);
	}
	out = read_findings();
	if (WIFSIGNALED(st))
	{
		// died without a report: attribute it to the plan it was in
		out.push_back({ F_CRASH, shared->cur_plan, shared->cur_op, shared->cur_nested != 0, "killed by signal " + std::to_string(WTERMSIG(st)) });
	}
	else if (WIFEXITED(st) && WEXITSTATUS(st) != 0 && WEXITSTATUS(st) != 9) { fprintf(stderr, "simulator child ended with %d\n", WEXITSTATUS(st)); exit(8); }
	return true;
}

static std::function<bool(Plan&)> from_list(const std::vector<Plan>& v)
{
	auto i = std::make_shared<size_t>(0);
	return [&v, i](Plan& p) { if (*i >= v.size()) return false; p = v[(*i)++]; return true; };
}

static bool is_outcome(int c) { return c == F_VERDICT || c == F_VALUE || c == F_REMAIN || c == F_FAILREM || c == F_UNEXPEXC || c == F_CRASH || c == F_TERMINATE || c == F_HANG || c == F_EXC || c == F_CBLOG; }

static bool solo_clean(const Plan& p, const Finding& f)
{
	const Op* o = op_of(p, f);
	if (!o) return false;
	Plan q;
	Op x = *o;
	x.task = 0; x.hold = false; x.in_off = -1; x.in_len = 0; x.grp = -1;
	std::vector<Fault> keep;
	for (auto& y : x.faults) if (y.kind != FK_NEST) keep.push_back(y);
	x.faults = keep;
	x.id = 0;
	q.ops.push_back(x);
	std::vector<Plan> v{ q };
	std::vector<Finding> out;
	run_child(from_list(v), false, out, 6);
	// alone it may still break something else, but not this
	for (auto& x : out) if (x.cls == f.cls || (is_outcome(x.cls) && is_outcome(f.cls))) return false;
	return true;
}

// the first finding of this episode that breaks the property
static int violation(const std::string& prop, const std::vector<Plan>& plans, const std::vector<Finding>& fs, int want_cls)
{
	for (size_t i = 0; i < fs.size(); i++)
	{
		if (fs[i].plan < 0 || fs[i].plan >= (int)plans.size()) continue;
		if (want_cls >= 0 && fs[i].cls != want_cls) continue;
		if (owned(prop, plans[(size_t)fs[i].plan], fs[i]) == 1) return (int)i;
	}
	std::set<std::pair<int, int>> tried;
	for (size_t i = 0; i < fs.size(); i++)
	{
		if (fs[i].plan < 0 || fs[i].plan >= (int)plans.size()) continue;
		if (want_cls >= 0 && fs[i].cls != want_cls) continue;
		if (owned(prop, plans[(size_t)fs[i].plan], fs[i]) != 2) continue;
		if (!tried.insert({ fs[i].plan, fs[i].op * 2 + fs[i].nested }).second || tried.size() > 12) continue;
		if (solo_clean(plans[(size_t)fs[i].plan], fs[i])) return (int)i;
	}
	return -1;
}

struct Checked { bool bad = false; Finding f; uint64_t hash = 0; };
static Checked check(const std::string& prop, const std::vector<Plan>& plans, int want_cls, double limit = 6)
{
	Checked c;
	std::vector<Finding> fs;
	run_child(from_list(plans), false, fs, limit);
	c.hash = shared->run_hash;
	int i = violation(prop, plans, fs, want_cls);
	if (i >= 0) { c.bad = true; c.f = fs[(size_t)i]; }
	return c;
}

// ------------------------------------------------------------------ minimising
static std::vector<Plan> minimise(const std::string& prop, std::vector<Plan> cur, int cls, Finding& f, double limit)
{
	auto t0 = Clock::now();
	auto ok = [&](const std::vector<Plan>& v) { if (seconds_since(t0) > limit) return false; Checked c = check(prop, v, cls, 3); if (c.bad) f = c.f; return c.bad; };
	// plans
	if ((size_t)f.plan + 1 < cur.size()) { auto v = cur; v.resize((size_t)f.plan + 1); if (ok(v)) cur = v; }
	{ std::vector<Plan> v{ cur.back() }; if (ok(v)) cur = v; }
	for (size_t step = cur.size() / 2; step >= 1; step /= 2)
		for (size_t i = 0; i + 1 < cur.size();)
		{
			auto v = cur;
			v.erase(v.begin() + (long)i, v.begin() + (long)std::min(i + step, cur.size() - 1));
			if (v.size() < cur.size() && ok(v)) cur = v; else i += step;
		}
	bool again = true;
	for (int round = 0; again && round < 6; round++)
	{
		again = false;
		for (size_t k = 0; k < cur.size(); k++)
		{
			auto attempt = [&](const std::function<bool(Plan&)>& change)
			{
				auto v = cur;
				if (!change(v[k])) return false;
				if (!ok(v)) return false;
				cur = v;
				again = true;
				return true;
			};
			for (size_t i = 0; i < cur[k].ops.size();) if (!(cur[k].ops.size() > 1 && attempt([&](Plan& p) { p.ops.erase(p.ops.begin() + (long)i); return true; }))) i++;
			if (!cur[k].sched.empty())
			{
				bool multi = false;
				for (auto& o : cur[k].ops) if (o.task) multi = true;
				if (!multi) attempt([&](Plan& p) { p.sched.clear(); return true; });
				else
				{
					attempt([&](Plan& p) { if (p.sched.size() <= 2) return false; p.sched.resize(2); return true; });
					for (size_t step = cur[k].sched.size() / 2; step >= 1; step /= 2)
						for (size_t i = 2; i + 1 < cur[k].sched.size();)
							if (!attempt([&](Plan& p) { size_t e = std::min(p.sched.size(), i + step * 2); p.sched.erase(p.sched.begin() + (long)i, p.sched.begin() + (long)e); return true; })) i += step * 2;
				}
			}
			// tasks: move everything to fewer
			for (size_t i = 0; i < cur[k].ops.size(); i++) if (cur[k].ops[i].task > 1) attempt([&](Plan& p) { p.ops[i].task = 1; return true; });
			auto each = [&](bool nested)
			{
				size_t n = nested ? cur[k].nested.size() : cur[k].ops.size();
				for (size_t i = 0; i < n; i++)
				{
					auto at = [&](Plan& p) -> Op& { return nested ? p.nested[i] : p.ops[i]; };
					for (size_t j = 0; j < at(cur[k]).faults.size();) if (!attempt([&](Plan& p) { at(p).faults.erase(at(p).faults.begin() + (long)j); return true; })) j++;
					for (size_t j = 0; j < at(cur[k]).faults.size(); j++) if (at(cur[k]).faults[j].nth > 1) attempt([&](Plan& p) { at(p).faults[j].nth = 1; return true; });
					if (at(cur[k]).hold) attempt([&](Plan& p) { at(p).hold = false; return true; });
					if (at(cur[k]).post) attempt([&](Plan& p) { at(p).post = 0; return true; });
					if (at(cur[k]).r) attempt([&](Plan& p) { at(p).r = 0; return true; });
					if (at(cur[k]).place) attempt([&](Plan& p) { at(p).place = 0; return true; });
					if (at(cur[k]).in_off >= 0) continue;
					// the input: all ops sharing a buffer in a concurrent plan must keep sharing it
					bool shares = false;
					for (auto& o : cur[k].ops) if (o.task) shares = true;
					auto same = [&](Plan& p, const Op& ref, const Syms& in)
					{
						Syms was = ref.in;
						int buf = ref.buf;
						if (!shares || nested) { at(p).in = in; return; }
						for (auto& o : p.ops) if (o.buf == buf && o.in == was) o.in = in;
					};
					bool viewed = false;
					for (auto& o : cur[k].nested) if (o.in_off >= 0) viewed = true;
					if (viewed) continue;
					for (size_t step = std::max<size_t>(1, at(cur[k]).in.size() / 2); step >= 1; step /= 2)
						for (size_t j = 0; j < at(cur[k]).in.size();)
							if (!attempt([&](Plan& p) { Syms s = at(p).in; s.erase(s.begin() + (long)j, s.begin() + (long)std::min(s.size(), j + step)); same(p, Op(at(p)), s); return true; })) j += step;
				}
			};
			each(false);
			each(true);
			// nested operations nobody runs any more stay listed only if referenced
		}
	}
	for (auto& p : cur)
	{
		p.ev.clear();
		// nested operations that nothing runs
		std::vector<int> map(p.nested.size(), -1);
		std::function<void(const Op&)> mark = [&](const Op& o) { for (auto& x : o.faults) if (x.kind == FK_NEST && x.arg >= 0 && x.arg < (int)map.size() && map[(size_t)x.arg] < 0) { map[(size_t)x.arg] = 0; mark(p.nested[(size_t)x.arg]); } };
		for (auto& o : p.ops) mark(o);
		std::vector<Op> keep;
		for (size_t i = 0; i < map.size(); i++) if (map[i] == 0) { map[i] = (int)keep.size(); keep.push_back(p.nested[i]); }
		p.nested = keep;
		for (auto* ops : { &p.ops, &p.nested }) for (auto& o : *ops) for (auto& x : o.faults) if (x.kind == FK_NEST && x.arg >= 0 && x.arg < (int)map.size()) x.arg = map[(size_t)x.arg];
	}
	Checked c = check(prop, cur, cls);
	if (c.bad) f = c.f;
	return cur;
}

// ------------------------------------------------------------------ reports
static std::string readable(const Syms& in)
{
	std::string s;
	for (uint32_t c : in) { if (c >= 32 && c < 127) s += (char)c; else s += "\\" + std::to_string(c) + ";"; if (s.size() > 200) { s += "..."; break; } }
	return s;
}

static void write_replay(const std::string& path, const std::string& prop, uint64_t seed, const std::string& tier, uint64_t episode, uint64_t hash, const Finding& f, const std::vector<Plan>& plans)
{
	FILE* o = fopen(path.c_str(), "w");
	if (!o) { perror(path.c_str()); exit(8); }
	fprintf(o, "# replay of a violation; run: python3 /verif/sim/check.py replay %s\n", path.c_str());
	fprintf(o, "property %s\nseed %llu\ntier %s\nepisode %llu\nclass %s\nhash %016llx\n", prop.c_str(), (unsigned long long)seed, tier.c_str(), (unsigned long long)episode, class_name(f.cls), (unsigned long long)hash);
	std::string d = f.detail;
	for (auto& c : d) if (c == '\n') c = ' ';
	fprintf(o, "what %s\n", d.c_str());
	if (f.plan >= 0 && f.plan < (int)plans.size()) if (const Op* x = op_of(plans[(size_t)f.plan], f))
	{
		const GrammarDef* g = grammars[(size_t)x->g].def;
		fprintf(o, "where %s of grammar %s over %s, input \"%s\"\n", x->parse ? "parse" : "lookahead", g->name, g->v[x->v].elem, readable(x->in).c_str());
		fprintf(o, "# parser: %s\n# meaning: %s\n", g->cpp, g->sexpr);
	}
	std::string s;
	for (auto& p : plans) s += to_text(p);
	fprintf(o, "plans\n%s", s.c_str());
	fclose(o);
}

// ------------------------------------------------------------------ workers
struct Global
{
	volatile int stop;
	volatile uint64_t next_episode;
	uint64_t episodes_done;
	uint64_t violations;
	uint64_t unreproduced;
	uint64_t other;              // findings that belong to other properties
	uint64_t discarded;          // by the solo gate
	uint64_t timeouts;
	char report[4096];
	char other_text[2048];
	char unrep_text[2048];
};
static Global* global;

static std::vector<Plan> shared_plans()
{
	std::vector<Plan> v;
	from_text(std::string(shared->plans, shared->planlen), v);
	return v;
}

static std::function<bool(Plan&)> generator(const std::string& prop, uint64_t seed, uint64_t ep, int nplans)
{
	auto pr = std::make_shared<Profile>(prop, mix(seed * 1000003 + ep) ^ fnv(prop.data(), prop.size()), nplans);
	return [pr](Plan& p) { return pr->next(p); };
}

static std::set<std::string> known;

static std::string signature(const std::vector<Plan>& plans, const Finding& f)
{
	const Op* o = op_of(plans[(size_t)f.plan], f);
	std::string s = class_name(f.cls);
	if (o) { const auto* d = grammars[(size_t)o->g].def; s += std::string("|") + d->sexpr + "|" + (o->parse ? "parse" : "lookahead") + "|" + readable(o->in); }
	return s;
}

int main(int argc, char** argv)
{
	std::string mode = argc > 1 ? argv[1] : "";
	std::map<std::string, std::string> a;
	for (int i = 2; i + 1 < argc; i += 2) a[argv[i]] = argv[i + 1];
	auto num = [&](const char* k, uint64_t d) { return a.count(k) ? strtoull(a[k].c_str(), nullptr, 10) : d; };
	world_init();
	if (grammars.empty()) { fprintf(stderr, "no grammars\n"); return 8; }
	if (a.count("--known"))
	{
		FILE* f = fopen(a["--known"].c_str(), "r");
		char line[4096];
		while (f && fgets(line, sizeof line, f)) { std::string s = line; while (!s.empty() && (s.back() == '\n' || s.back() == '\r')) s.pop_back(); if (!s.empty()) known.insert(s); }
		if (f) fclose(f);
	}
	const std::string prop = a["--prop"], tier = a.count("--tier") ? a["--tier"] : "quick";

	if (mode == "replay")
	{
		FILE* f = fopen(a["--file"].c_str(), "r");
		if (!f) { perror(a["--file"].c_str()); return 8; }
		std::string text; char b[4096]; size_t n;
		while ((n = fread(b, 1, sizeof b, f)) > 0) text.append(b, n);
		fclose(f);
		size_t at = text.find("\nplans\n");
		if (at == std::string::npos) return 8;
		std::vector<Plan> plans;
		if (!from_text(text.substr(at + 7), plans)) { fprintf(stderr, "bad replay file\n"); return 8; }
		for (auto& p : plans) for (auto* ops : { &p.ops, &p.nested }) for (auto& o : *ops) if (o.g < 0 || o.g >= (int)grammars.size() || !grammars[(size_t)o.g].def) { fprintf(stderr, "grammar %d is missing\n", o.g); return 8; }
		std::vector<Finding> fs;
		if (!run_child(from_list(plans), true, fs, 6)) printf("stuck\n");
		uint64_t h = shared->run_hash;
		int i = violation(prop, plans, fs, -1);
		for (auto& x : fs) printf("finding: %s: %s\n", class_name(x.cls), x.detail.c_str());
		printf("hash %016llx\n", (unsigned long long)h);
		if (i >= 0) { printf("VIOLATED %s %s: %s\n", prop.c_str(), class_name(fs[(size_t)i].cls), fs[(size_t)i].detail.c_str()); return 1; }
		printf("not violated\n");
		return 0;
	}
	if (mode == "show")
	{
		// one episode, in words
		std::vector<Finding> fs;
		run_child(generator(prop, num("--seed", 1), num("--episode", 0), (int)num("--plans", 32)), true, fs, 6);
		for (auto& x : fs) printf("finding plan %d op %d: %s: %s\n", x.plan, x.op, class_name(x.cls), x.detail.c_str());
		if (a.count("--dump")) fwrite(shared->plans, 1, shared->planlen, stdout);
		printf("hash %016llx\n", (unsigned long long)shared->run_hash);
		return 0;
	}
	if (mode != "search") { fprintf(stderr, "usage: search|replay|show\n"); return 8; }

	const uint64_t seed = num("--seed", 1), episodes = num("--episodes", 400), nplans = num("--plans", 32);
	const int workers = (int)num("--workers", 8);
	const double cap = (double)num("--cap", 120);
	const std::string out = a["--out"];
	global = (Global*)mmap(nullptr, sizeof(Global), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	auto t0 = Clock::now();
	std::vector<pid_t> pids;
	std::vector<Shared*> shareds;
	for (int k = 0; k < workers; k++)
	{
		new_shared();
		shareds.push_back(shared);
		fflush(stdout);
		pid_t pid = fork();
		if (pid < 0) { perror("fork"); return 8; }
		if (pid) { pids.push_back(pid); continue; }
		// ---- worker
		FILE* hf = fopen((out + "/w" + std::to_string(k) + ".bin").c_str(), "wb");
		for (;;)
		{
			uint64_t ep = __sync_fetch_and_add(&global->next_episode, 1);
			if (ep >= episodes || global->stop || seconds_since(t0) > cap) break;
			std::vector<Finding> fs;
			if (!run_child(generator(prop, seed, ep, (int)nplans), false, fs, 6)) __sync_fetch_and_add(&global->timeouts, 1);
			__sync_fetch_and_add(&global->episodes_done, 1);
			uint64_t rh = shared->run_hash;
			for (int i = 0; i < shared->ep_plans && i < 256; i++) { PlanStat s = shared->stat[i]; fwrite(&s, sizeof s, 1, hf); }
			{ PlanStat s{ rh, ep, 0xffffffff, 0 }; fwrite(&s, sizeof s, 1, hf); }
			if (fs.empty()) continue;
			std::vector<Plan> plans = shared_plans();
			int vi = violation(prop, plans, fs, -1);
			if (vi < 0)
			{
				__sync_fetch_and_add(&global->other, fs.size());
				if (!global->other_text[0]) snprintf(global->other_text, sizeof global->other_text, "episode %llu plan %d op %d: %s: %s", (unsigned long long)ep, fs[0].plan, fs[0].op, class_name(fs[0].cls), fs[0].detail.c_str());
				continue;
			}
			Finding f = fs[(size_t)vi];
			if (known.count(signature(plans, f))) continue;
			// the same plans in another process must end the same way, every time
			Checked c1 = check(prop, plans, f.cls), c2 = check(prop, plans, f.cls);
			if (!c1.bad || !c2.bad)
			{
				__sync_fetch_and_add(&global->unreproduced, 1);
				snprintf(global->unrep_text, sizeof global->unrep_text, "episode %llu plan %d op %d: %s: %s", (unsigned long long)ep, f.plan, f.op, class_name(f.cls), f.detail.c_str());
				continue;
			}
			if (!__sync_bool_compare_and_swap(&global->stop, 0, 1)) break;
			Finding mf = f;
			std::vector<Plan> small = minimise(prop, plans, f.cls, mf, tier == "quick" ? 25 : 60);
			Checked c = check(prop, small, f.cls), d = check(prop, small, f.cls);
			if (!c.bad || !d.bad) { small = plans; c = check(prop, small, f.cls); mf = f; }
			std::string path = a["--replay"];
			write_replay(path, prop, seed, tier, ep, c.hash, mf, small);
			const Op* o = op_of(small[(size_t)mf.plan], mf);
			snprintf(global->report, sizeof global->report, "%s%s: %s; %s of grammar %s, input \"%s\"", c.hash == d.hash ? "" : "(timing of steps varies) ", class_name(mf.cls), mf.detail.c_str(),
				o && o->parse ? "parse" : "lookahead", o ? grammars[(size_t)o->g].def->name : "?", o ? readable(o->in).c_str() : "");
			__sync_fetch_and_add(&global->violations, 1);
			break;
		}
		fclose(hf);
		_exit(0);
	}
	int bad = 0;
	for (pid_t p : pids) { int st; waitpid(p, &st, 0); if (!WIFEXITED(st) || WEXITSTATUS(st)) bad++; }
	double secs = seconds_since(t0);
	// merge
	uint64_t cnt[C_N] = {}, plans = 0, nontrivial = 0, multi = 0;
	std::unordered_set<uint64_t> hashes, nthashes, scheds;
	std::vector<uint8_t> cov(1 << 22);
	uint64_t digest = 0;
	for (int k = 0; k < workers; k++)
	{
		for (int i = 0; i < C_N; i++) cnt[i] += shareds[(size_t)k]->cnt[i];
		for (size_t i = 0; i < cov.size(); i++) cov[i] |= shareds[(size_t)k]->cov[i];
		std::string path = out + "/w" + std::to_string(k) + ".bin";
		FILE* f = fopen(path.c_str(), "rb");
		PlanStat s;
		while (f && fread(&s, sizeof s, 1, f) == 1)
		{
			if (s.nontrivial == 0xffffffff) { digest += mix(s.hash ^ mix(s.sched_hash)); continue; }
			plans++;
			hashes.insert(s.hash);
			if (s.nontrivial) { nontrivial++; nthashes.insert(s.hash); }
			if (s.multi) { multi++; scheds.insert(s.sched_hash); }
		}
		if (f) fclose(f);
		unlink(path.c_str());
	}
	uint64_t locs = 0;
	for (uint8_t c : cov) locs += c;
	auto esc = [](const char* s) { std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') { o += '\\'; o += *s; } else if ((unsigned char)*s < 32) o += ' '; else o += *s; } return o; };
	std::string j = "{";
	auto add = [&](const std::string& k, uint64_t v) { if (j.size() > 1) j += ","; j += "\"" + k + "\":" + std::to_string(v); };
	add("episodes", global->episodes_done); add("plans", plans); add("distinct_runs", hashes.size()); add("nontrivial", nontrivial); add("distinct_nontrivial", nthashes.size());
	add("multi", multi); add("distinct_interleavings", scheds.size()); add("locations", locs); add("violations", global->violations); add("unreproduced", global->unreproduced);
	add("other", global->other); add("timeouts", global->timeouts); add("digest", digest); add("grammars", grammars.size()); add("workers_failed", (uint64_t)bad); add("capped", global->episodes_done + global->timeouts < episodes && !global->stop);
	static const char* names[] = { "plans_run", "operations", "nested_operations", "simulated_ticks", "task_switches", "concurrent_plans", "allocations", "callbacks", "comparisons", "value_operations", "ended_by_exception", "succeeded", "failed", "results_held", "deliveries" };
	for (int i = 0; i <= C_HELD; i++) add(names[i], cnt[i]);
	static const char* fk[] = { "allocation failure", "callback exception", "comparison exception", "value operation exception", "nested parse" };
	for (int i = 0; i < FK_COUNT; i++) { add(std::string("configured: ") + fk[i], cnt[C_CONF0 + i]); add(std::string("fired: ") + fk[i], cnt[C_FIRED0 + i]); }
	for (int i = 0; i < EV_N; i++) add(std::string("delivery: ") + ev_name[i], cnt[C_EV0 + i]);
	static const char* pn[] = { "fault_in_vector_growth", "backtrack", "repetition over 20 items", "nesting deeper than 8", "empty input", "two calls in flight at a switch", "exception while another call is in flight", "retry succeeded", "nested call ended by exception",
		"nested call on the same input", "nested call on overlapping input", "failure after user functions ran", "input ending at unmapped memory", "input starting at unmapped memory", "input between tempting neighbours", "exception while results are held", "NUL-terminated input", "nullable repetition" };
	for (int i = 0; i < PR_COUNT; i++) if (i != PR_FAULT_IN_VECTOR_GROWTH && i != PR_BACKTRACK && i != PR_RETRY_OK) add(std::string("probe: ") + pn[i], cnt[C_PROBE0 + i]);
	char b[64]; snprintf(b, sizeof b, ",\"seconds\":%.3f", secs); j += b;
	j += ",\"report\":\"" + esc(global->report) + "\",\"other_text\":\"" + esc(global->other_text) + "\",\"unreproduced_text\":\"" + esc(global->unrep_text) + "\"}";
	FILE* f = fopen((out + "/stats.json").c_str(), "w");
	fputs(j.c_str(), f);
	fclose(f);
	return global->violations ? 1 : bad ? 8 : 0;
}
