#include "model.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>

namespace sim {

// ------------------------------------------------------------------ reading
namespace {

struct Reader
{
	const char* p;
	void ws() { while (*p == ' ' || *p == '\n') ++p; }
	std::string word() { ws(); std::string s; while (*p && *p != ' ' && *p != '(' && *p != ')') s += *p++; return s; }
	int num() { return atoi(word().c_str()); }
	std::vector<uint32_t> codes() // comma separated numbers, or -
	{
		std::string w = word();
		std::vector<uint32_t> v;
		if (w == "-") return v;
		const char* q = w.c_str();
		while (*q) { v.push_back((uint32_t)strtoul(q, (char**)&q, 10)); if (*q == ',') ++q; }
		return v;
	}
	void expect(char c) { ws(); if (*p != c) { fprintf(stderr, "bad grammar text at: %.40s\n", p); abort(); } ++p; }
	bool more() { ws(); return *p == '('; }

	std::unique_ptr<Node> node()
	{
		expect('(');
		auto n = std::make_unique<Node>();
		std::string w = word();
		static const std::pair<const char*, K> names[] = { {"any", K::any}, {"none", K::none}, {"all", K::all}, {"anyt", K::anyt}, {"eps", K::eps}, {"choice", K::choice},
			{"seq", K::seq}, {"maybe", K::maybe}, {"exactly", K::exactly}, {"plus", K::plus}, {"star", K::star}, {"delim", K::delim}, {"delimk", K::delimk}, {"ignore", K::ignore},
			{"complete", K::complete}, {"join", K::join}, {"map", K::map}, {"filter", K::filter}, {"name", K::name}, {"rec", K::rec} };
		bool found = false;
		for (auto& [s, k] : names) if (w == s) { n->k = k; found = true; }
		if (!found) { fprintf(stderr, "bad node %s\n", w.c_str()); abort(); }
		switch (n->k)
		{
		case K::any: case K::none: case K::all: n->lit = codes(); break;
		case K::exactly: n->n = num(); break;
		case K::map: n->n = num(); n->ret = num(); n->apply = num(); break;
		case K::filter: n->n = num(); n->ret = num(); n->apply = num(); break;
		case K::rec: n->n = num(); break;
		case K::choice: { n->arity = num(); std::string w2 = word(); const char* q = w2.c_str(); while (*q) { n->idx.push_back((int)strtol(q, (char**)&q, 10)); if (*q == ',') ++q; } ws(); expect('"'); while (*p != '"') n->def += *p++; ++p; break; }
		default: break;
		}
		while (more()) n->kid.push_back(node());
		expect(')');
		return n;
	}
};

void finish(Grammar& g, Node& n)
{
	for (auto& k : n.kid) { finish(g, *k); n.rec |= k->rec; }
	switch (n.k)
	{
	case K::any: case K::none: case K::all: for (auto c : n.lit) g.alphabet.push_back(c); break;
	case K::anyt: case K::join: n.isvoid = false; break;
	case K::eps: case K::ignore: n.isvoid = true; break;
	case K::choice: n.isvoid = n.arity == 0; break;
	case K::seq: n.isvoid = true; for (auto& k : n.kid) n.isvoid &= k->isvoid; break;
	case K::delim: n.isvoid = n.kid[0]->isvoid; break;
	case K::delimk: n.isvoid = n.kid[0]->isvoid && n.kid[1]->isvoid; break;
	case K::map: n.isvoid = n.ret == 10 || n.ret == 14; g.has_cb = true; break;
	case K::filter: g.has_cb = true; n.isvoid = n.kid[0]->isvoid; break;
	case K::rec: n.isvoid = false; n.rec = true; g.has_rec = true; break;
	default: n.isvoid = n.kid[0]->isvoid; break;
	}
}

} // namespace

void load_grammar(Grammar& g, const GrammarDef* def)
{
	g.def = def;
	Reader r{ def->sexpr };
	g.root = r.node();
	while (r.more()) g.recs.push_back(r.node());
	finish(g, *g.root);
	for (auto& n : g.recs) finish(g, *n);
	std::set<uint32_t> s(g.alphabet.begin(), g.alphabet.end());
	g.alphabet.assign(s.begin(), s.end());
	if (g.alphabet.empty()) g.alphabet = { 'a', 'b' };
	const char* p = def->feat;
	while (*p) { while (*p == ' ') ++p; std::string w; while (*p && *p != ' ') w += *p++; if (!w.empty()) g.feat.insert(w); }
}

// ------------------------------------------------------------------ meaning
namespace {

struct Val
{
	enum T { none, span, tup, arr, vec, optnone, optsome, var, pair, tok, i, text, str, uptr, boolean } t = none;
	const std::string* def = nullptr;
	size_t off = 0, len = 0;
	uint64_t pay = 0;             // tok, i; var: index
	std::vector<Val> kid;
};

void put(std::string& s, uint64_t x)
{
	char b[24]; int i = 24;
	do { b[--i] = (char)('0' + x % 10); x /= 10; } while (x);
	s.append(b + i, 24 - i);
}

void canon(std::string& s, const Val& v)
{
	auto list = [&](char a, char b, const std::vector<Val>& k, char sep = ',')
	{
		s += a;
		for (size_t i = 0; i < k.size(); i++) { if (i) s += sep; canon(s, k[i]); }
		s += b;
	};
	switch (v.t)
	{
	case Val::none: s += 'v'; break;
	case Val::span: s += 's'; if (v.len) { put(s, v.off); s += '+'; put(s, v.len); } else s += '_'; break;
	case Val::tup: list('(', ')', v.kid); break;
	case Val::arr: list('[', ']', v.kid); break;
	case Val::vec: list('{', '}', v.kid); break;
	case Val::optnone: s += "?-"; break;
	case Val::optsome: s += '?'; canon(s, v.kid[0]); break;
	case Val::var: s += '<'; put(s, v.pay); s += ':'; canon(s, v.kid[0]); s += '>'; break;
	case Val::pair: list('(', ')', v.kid, '&'); break;
	case Val::tok: s += 'k'; for (int i = 28; i >= 0; i -= 4) s += "0123456789abcdef"[(v.pay >> i) & 15]; break;
	case Val::i: s += 'i'; put(s, v.pay); break;
	case Val::text: s += *v.def; break;
	case Val::str: s += 'z'; s.append(1 + v.pay % 30, char('a' + v.pay % 26)); break;
	case Val::uptr: s += 'o'; put(s, v.pay); break;
	case Val::boolean: s += v.pay ? "b1" : "b0"; break;
	}
}

struct Overflow {};

struct Interp
{
	const Grammar& g;
	const std::vector<uint32_t>& in;
	ModelOut& o;
	int depth = 0;
	uint64_t limit = in.size() > 10000 ? 6000000 : 400000;

	void step() { if (++o.steps > limit) throw Overflow{}; }

	struct R { bool ok; size_t pos; Val v; };

	bool basic(const Node& n, size_t pos, size_t& len)
	{
		step();
		if (n.k == K::all)
		{
			len = n.lit.size();
			if (in.size() - pos < len) return false;
			for (size_t i = 0; i < len; i++) { step(); if (in[pos + i] != n.lit[i]) return false; }
			return true;
		}
		len = 1;
		if (pos == in.size()) return false;
		if (n.k == K::anyt) return true;
		bool c = false;
		for (auto x : n.lit) { step(); c |= x == in[pos]; }
		return n.k == K::any ? c : !c;
	}

	void pieces(const Val& v, std::vector<std::pair<size_t, size_t>>& out)
	{
		if (v.t == Val::span) { if (v.len) out.push_back({ v.off, v.len }); }
		else for (auto& k : v.kid) pieces(k, out);
	}

	std::string args(const Node& n, const Node& child, const Val& v)
	{
		std::string s;
		if (child.isvoid || n.ret == 14) return s;
		if (n.apply) { for (size_t i = 0; i < v.kid.size(); i++) { if (i) s += ','; canon(s, v.kid[i]); } }
		else canon(s, v);
		return s;
	}

	uint64_t user(int site, const std::string& a)
	{
		std::string s;
		put(s, (uint64_t)site); s += '('; s += a; s += ')';
		o.log.push_back(std::move(s));
		return payload(site, a);
	}

	R parse(const Node& n, size_t pos, bool look)
	{
		step();
		R r{ false, pos, {} };
		size_t len;
		switch (n.k)
		{
		case K::any: case K::none: case K::all: case K::anyt:
			if (basic(n, pos, len)) { r.ok = true; r.v.t = Val::span; r.v.off = pos; r.v.len = len; r.pos = pos + len; }
			return r;
		case K::eps: r.ok = true; return r;
		case K::choice:
			for (size_t i = 0; i < n.kid.size(); i++)
			{
				R a = parse(*n.kid[i], pos, look);
				if (!a.ok) continue;
				if (look) {}
				else if (n.idx[i] < 0) { if (n.arity) { r.v.t = Val::text; r.v.def = &n.def; } } // an alternative without value: a default value
				else if (n.arity == 2) { r.v.t = Val::var; r.v.pay = (uint64_t)n.idx[i]; r.v.kid.push_back(std::move(a.v)); }
				else r.v = std::move(a.v);
				r.ok = true; r.pos = a.pos;
				return r;
			}
			return r;
		case K::seq:
		{
			size_t p = pos;
			std::vector<Val> vs;
			for (auto& k : n.kid)
			{
				R a = parse(*k, p, look);
				if (!a.ok) return r;
				p = a.pos;
				if (!k->isvoid) vs.push_back(std::move(a.v));
			}
			r.ok = true; r.pos = p;
			if (vs.size() == 1) r.v = std::move(vs[0]);
			else if (!vs.empty()) { r.v.t = Val::tup; r.v.kid = std::move(vs); }
			return r;
		}
		case K::maybe:
		{
			R a = parse(*n.kid[0], pos, look);
			r.ok = true;
			if (a.ok) r.pos = a.pos;
			if (!n.isvoid)
			{
				r.v.t = a.ok ? Val::optsome : Val::optnone;
				if (a.ok) r.v.kid.push_back(std::move(a.v));
			}
			return r;
		}
		case K::exactly:
		{
			size_t p = pos;
			r.v.t = n.isvoid ? Val::none : Val::arr;
			for (int i = 0; i < n.n; i++)
			{
				R a = parse(*n.kid[0], p, look);
				if (!a.ok) { r.v = Val{}; return r; }
				p = a.pos;
				if (!n.isvoid) r.v.kid.push_back(std::move(a.v));
			}
			r.ok = true; r.pos = p;
			return r;
		}
		case K::plus: case K::star:
		{
			size_t p = pos;
			int count = 0;
			r.v.t = n.isvoid ? Val::none : Val::vec;
			for (;;)
			{
				R a = parse(*n.kid[0], p, look);
				if (!a.ok) break;
				bool consumed = a.pos != p;
				if (consumed || (n.k == K::plus && count == 0))
				{
					count++;
					p = a.pos;
					if (!n.isvoid) r.v.kid.push_back(std::move(a.v));
				}
				if (!consumed) break;
			}
			if (count > o.maxrep) o.maxrep = count;
			if (n.k == K::plus && count == 0) { r.v = Val{}; return r; }
			r.ok = true; r.pos = p;
			return r;
		}
		case K::delim: case K::delimk:
		{
			const Node& P = *n.kid[0];
			const Node& D = *n.kid[1];
			bool dlook = look || n.k == K::delim;
			bool dvoid = n.k == K::delim || D.isvoid;
			Val ps, ds; ps.t = ds.t = Val::vec;
			R a = parse(P, pos, look);
			if (!a.ok) return r;
			size_t p = a.pos;
			ps.kid.push_back(std::move(a.v));
			int count = 1;
			for (;;)
			{
				R dd = parse(D, p, dlook);
				if (!dd.ok) break;
				R b = parse(P, dd.pos, look);
				if (!b.ok || b.pos == p) break;
				p = b.pos;
				ps.kid.push_back(std::move(b.v));
				ds.kid.push_back(std::move(dd.v));
				count++;
			}
			if (count > o.maxrep) o.maxrep = count;
			r.ok = true; r.pos = p;
			if (!P.isvoid && !dvoid) { r.v.t = Val::pair; r.v.kid.push_back(std::move(ps)); r.v.kid.push_back(std::move(ds)); }
			else if (!P.isvoid) r.v = std::move(ps);
			else if (!dvoid) r.v = std::move(ds);
			return r;
		}
		case K::ignore: { R a = parse(*n.kid[0], pos, true); a.v = Val{}; return a; }
		case K::complete:
		{
			R a = parse(*n.kid[0], pos, look);
			if (!a.ok || a.pos != in.size()) return r;
			return a;
		}
		case K::join:
		{
			R a = parse(*n.kid[0], pos, look);
			if (look || !a.ok) { if (!a.ok) return r; return a; }
			std::vector<std::pair<size_t, size_t>> ps;
			pieces(a.v, ps);
			for (size_t i = 1; i < ps.size(); i++) if (ps[i - 1].first + ps[i - 1].second != ps[i].first) return r;
			r.ok = true; r.pos = a.pos; r.v.t = Val::span;
			if (!ps.empty()) { r.v.off = ps[0].first; for (auto& x : ps) r.v.len += x.second; }
			return r;
		}
		case K::map:
		{
			R a = parse(*n.kid[0], pos, look);
			if (!a.ok) return r;
			r.ok = true; r.pos = a.pos;
			if (look) return r;
			if (n.ret == 20) { r.v.t = Val::i; r.v.pay = 7; return r; }        // constant<7>
			if (n.ret == 21) { r.v.t = Val::i; r.v.pay = 0; return r; }        // defaulted<int>
			uint64_t pay = user(n.n, args(n, *n.kid[0], a.v));
			if (n.ret <= 6) { r.v.t = Val::tok; r.v.pay = pay; }
			else if (n.ret == 11) r.v = n.apply ? std::move(a.v.kid[0]) : std::move(a.v);
			else if (n.ret >= 40)
			{
				auto mk = [](Val::T t, uint64_t p) { Val v; v.t = t; v.pay = p; return v; };
				const Val a = mk(Val::i, pay & 0xff), b = mk(Val::i, pay >> 8 & 0xff);
				switch (n.ret)
				{
				case 40: r.v = mk(Val::str, pay); break;
				case 41: r.v.t = Val::vec; r.v.kid.assign(1 + pay % 3, a); break;
				case 42: r.v.t = pay & 1 ? Val::optsome : Val::optnone; if (pay & 1) r.v.kid.push_back(a); break;
				case 43: r.v.t = Val::tup; r.v.kid = { a, b }; break;
				case 44: r.v = mk(Val::uptr, pay & 0xff); break;
				case 45: r.v = mk(Val::boolean, pay & 1); break;
				case 46: r.v.t = Val::arr; r.v.kid = { a, b }; break;
				case 47: r.v.t = Val::pair; r.v.kid = { a, b }; break;
				case 48: r.v = mk(Val::var, pay & 1); r.v.kid = { pay & 1 ? mk(Val::boolean, (pay & 2) != 0) : a }; break;
				case 49: r.v.t = Val::vec; r.v.kid = { mk(Val::tok, pay) }; if (pay & 1) r.v.kid.push_back(mk(Val::tok, pay ^ 1)); break;
				case 50: r.v.t = Val::tup; r.v.kid = { mk(Val::tok, pay), a }; break;
				}
			}
			else if (n.ret == 12) { r.v.t = Val::i; r.v.pay = pay & 0xff; }
			else if (n.ret == 13) { r.v = n.apply ? std::move(a.v.kid[0]) : std::move(a.v); if (r.v.len > 1) { r.v.off++; r.v.len--; } }
			return r;
		}
		case K::filter:
		{
			R a = parse(*n.kid[0], pos, look);
			if (!a.ok) return r;
			if (look) return a;
			uint64_t pay = user(n.n, args(n, *n.kid[0], a.v));
			bool keep = n.ret == 0 ? true : n.ret == 1 ? false : n.ret == 2 ? (pay & 1) : (pay & 3);
			if (!keep) return r;
			return a;
		}
		case K::name: return parse(*n.kid[0], pos, look);
		case K::rec:
		{
			if (++depth > o.depth) o.depth = depth;
			if (depth > 600) throw Overflow{};
			R a = parse(*g.recs[(size_t)n.n], pos, look);
			--depth;
			return a;
		}
		}
		return r;
	}
};

} // namespace

ModelOut model_run(const Grammar& g, bool parse, const std::vector<uint32_t>& in)
{
	ModelOut o;
	Interp it{ g, in, o };
	try
	{
		auto r = it.parse(*g.root, 0, !parse);
		o.ok = r.ok;
		o.rem = r.ok ? in.size() - r.pos : in.size();
		if (r.ok) { if (parse) canon(o.value, r.v); else o.value = "v"; }
	}
	catch (Overflow&) { o.overflow = true; }
	return o;
}

// ------------------------------------------------------------------ sentences of a grammar
// A symbol that is easily taken for one of the grammar's: same low bits, other sign, or no symbol at all.
uint32_t odd_symbol(const Grammar& g, Rng& rng)
{
	uint32_t a = g.alphabet[rng.below(g.alphabet.size())];
	switch (rng.below(8))
	{
	case 0: return 0;
	case 1: return a ^ 0x80;
	case 2: return a ^ 0x20;
	case 3: return a + 0x100 * (1 + (uint32_t)rng.below(3));
	case 4: return (a & 0xff) + 0xff00;
	case 5: return a + 0x10000;
	case 6: return (uint32_t)rng.range(0x80, 0xff);
	default: return (uint32_t)rng.range(1, 126);
	}
}
namespace {

struct Gen
{
	const Grammar& g;
	Rng& rng;
	size_t maxlen;
	int rep;
	std::vector<uint32_t> out;
	int deep = 0;                 // levels of recursion still wanted
	int depth = 0;
	int flood = 0;                // the first repetition is to have this many items
	uint64_t steps = 0;           // repetitions of nothing multiply

	bool bounded() const { return deep ? depth > 6000 : depth > 60; }

	int count(int lo)
	{
		if (flood) { int n = flood; flood = 0; return n; }
		if (out.size() >= maxlen || bounded()) return lo;
		int n = lo;
		if (rep >= 15 && rng.chance(1, 3))
		{
			// where counters, words and buffers end
			static const int edge[] = { 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 511, 512, 513 };
			int e = edge[rng.below(sizeof edge / sizeof *edge)];
			if (e <= rep + 1) return e;
		}
		switch (rng.below(4))
		{
		case 0: break;
		case 1: n += (int)rng.below(3); break;
		default: n += (int)rng.below((uint64_t)rep + 1); break;
		}
		return n;
	}
	uint32_t outside(const std::vector<uint32_t>& lit)
	{
		for (int i = 0; i < 20; i++)
		{
			uint32_t c = rng.chance(3, 4) ? g.alphabet[rng.below(g.alphabet.size())] : rng.chance(1, 4) ? odd_symbol(g, rng) : (uint32_t)rng.range('a', 'z');
			bool in = false;
			for (auto x : lit) in |= x == c;
			if (!in) return c;
		}
		return '~';
	}
	void go(const Node& n)
	{
		if (out.size() > maxlen + 64 || ++steps > (maxlen > 10000 ? 4000000 : 300000)) return;
		++depth;
		switch (n.k)
		{
		case K::any: if (!n.lit.empty()) out.push_back(n.lit[rng.below(n.lit.size())]); break;
		case K::none: case K::anyt: out.push_back(outside(n.lit)); break;
		case K::all: out.insert(out.end(), n.lit.begin(), n.lit.end()); break;
		case K::eps: break;
		case K::choice:
			if (deep > 0 && n.rec) { std::vector<Node*> c; for (auto& k : n.kid) if (k->rec) c.push_back(k.get()); go(*c[rng.below(c.size())]); break; }
			if (bounded() || out.size() > maxlen) { go(*n.kid[0]); break; }
			go(*n.kid[rng.below(n.kid.size())]); break;
		case K::seq: for (auto& k : n.kid) go(*k); break;
		case K::maybe: if ((deep > 0 && n.rec) || (!bounded() && rng.chance(2, 3))) go(*n.kid[0]); break;
		case K::exactly: for (int i = 0; i < n.n; i++) go(*n.kid[0]); break;
		case K::plus: for (int i = deep > 0 && n.rec ? 1 : count(1); i > 0; i--) go(*n.kid[0]); break;
		case K::star: for (int i = deep > 0 && n.rec ? 1 : count(0); i > 0; i--) go(*n.kid[0]); break;
		case K::delim: case K::delimk:
		{
			int c = deep > 0 && n.rec ? 1 : count(1);
			for (int i = 0; i < c; i++) { if (i) go(*n.kid[1]); go(*n.kid[0]); }
			if (rng.chance(1, 8)) { size_t at = out.size(); go(*n.kid[1]); if (rng.chance(1, 2)) out.resize(at + rng.below(out.size() - at + 1)); }   // a delimiter that nothing follows
			break;
		}
		case K::rec: if (deep > 0) deep--; go(*g.recs[(size_t)n.n]); break;
		default: go(*n.kid[0]); break;
		}
		--depth;
	}
};

} // namespace

std::vector<uint32_t> gen_sentence(const Grammar& g, Rng& rng, int maxlen, int rep, int deep, int flood)
{
	Gen x{ g, rng, (size_t)maxlen, rep, {}, deep };
	x.flood = flood;
	x.go(*g.root);
	return std::move(x.out);
}

} // namespace sim
