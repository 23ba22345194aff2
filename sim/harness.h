// Included by the generated translation units, after <k3/tok3n.h>. Instrumented like the library.
#pragma once
#include "engine.h"
#include <array>
#include <compare>
#include <memory>
#include <optional>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

namespace h {

using namespace sim;
namespace d = k3::tok3n::detail;

// ------------------------------------------------------------------ element types
enum class En : int {};

struct Elem
{
	int c = 0;
	unsigned where = 0;            // not part of its value: equal elements may differ in it
	constexpr Elem() = default;
	constexpr Elem(int x) : c(x) {}
	friend constexpr bool operator==(const Elem& a, const Elem& b)
	{
		if (not std::is_constant_evaluated()) { eng_compare(); }
		return a.c == b.c;
	}
	friend constexpr bool operator==(char a, const Elem& b)
	{
		if (not std::is_constant_evaluated()) { eng_compare(); }
		return a == b.c;
	}
	friend constexpr std::strong_ordering operator<=>(const Elem& a, const Elem& b) { return a.c <=> b.c; }
};

// 64 bits: symbols that differ in the upper half only
constexpr long long wide(unsigned c) { return c >= 0x10000 ? (long long)(c & 0xffff) | 1LL << 40 : (long long)c; }

template <class V> void store(void* dst, size_t i, uint32_t sym) { static_cast<V*>(dst)[i] = static_cast<V>(sym); }
template <> inline void store<Elem>(void* dst, size_t i, uint32_t sym) { static_cast<Elem*>(dst)[i].c = (int)sym; static_cast<Elem*>(dst)[i].where = (unsigned)i * 2654435761u + 1; }
template <> inline void store<long long>(void* dst, size_t i, uint32_t sym) { static_cast<long long*>(dst)[i] = wide(sym); }
template <> inline void store<double>(void* dst, size_t i, uint32_t sym) { static_cast<double*>(dst)[i] = sym ? (double)sym : i % 2 ? 0.0 : -0.0; }

template <class V> constexpr V lit(unsigned c) { return static_cast<V>(c); }
template <> constexpr long long lit<long long>(unsigned c) { return wide(c); }
template <> constexpr Elem lit<Elem>(unsigned c) { return Elem((int)c); }

// ------------------------------------------------------------------ user values
struct TokBase
{
	uint32_t magic;
	uint32_t id;
	uint64_t pay;
	void* body;
	unsigned char st; // 1 value, 2 moved from, 3 default
};
enum : uint32_t { MAGIC = 0x70ca11feu, DEADMAGIC = 0xdeadf00du };

struct Raw { uint64_t pay; };

template <bool Body>
struct TokOps : TokBase
{
	void birth() { magic = MAGIC; id = eng_tok_new(this); body = nullptr; }
	void grow() { if constexpr (Body) { if (st == 1) body = eng_user_alloc(24); } }
	void drop() { if constexpr (Body) { if (body) eng_user_free(body); body = nullptr; } }
	void mk_default() { eng_val(true); pay = 0; st = 3; birth(); }
	void mk_value(uint64_t p) { pay = p; st = 1; void* b = nullptr; if constexpr (Body) b = eng_user_alloc(24); birth(); body = b; }
	void mk_copy(const TokBase& o) { eng_val(true); pay = o.pay; st = o.st; void* b = nullptr; if constexpr (Body) if (st == 1) b = eng_user_alloc(24); birth(); body = b; }
	void mk_move(TokBase& o, bool may_throw) { eng_val(may_throw); pay = o.pay; st = o.st; birth(); body = o.body; o.body = nullptr; o.st = 2; }
	void as_copy(const TokBase& o)
	{
		eng_val(true);
		if (&o == this) return;
		void* b = nullptr;
		if constexpr (Body) if (o.st == 1) b = eng_user_alloc(24);
		drop(); body = b; pay = o.pay; st = o.st;
	}
	void as_move(TokBase& o, bool may_throw)
	{
		eng_val(may_throw);
		if (&o == this) return;
		drop(); body = o.body; o.body = nullptr; pay = o.pay; st = o.st; o.st = 2;
	}
	void fini() { drop(); eng_tok_del(id, this, magic); magic = DEADMAGIC; }
};

template <int F> struct Tok;

template <> struct Tok<0> : TokOps<false> // ordinary
{
	explicit Tok(Raw r) { mk_value(r.pay); }
	Tok() { mk_default(); }
	Tok(const Tok& o) { mk_copy(o); }
	Tok(Tok&& o) noexcept { mk_move(o, false); }
	Tok& operator=(const Tok& o) { as_copy(o); return *this; }
	Tok& operator=(Tok&& o) noexcept { as_move(o, false); return *this; }
	~Tok() { fini(); }
};
template <> struct Tok<1> : TokOps<false> // move only
{
	explicit Tok(Raw r) { mk_value(r.pay); }
	Tok() { mk_default(); }
	Tok(Tok&& o) noexcept { mk_move(o, false); }
	Tok& operator=(Tok&& o) noexcept { as_move(o, false); return *this; }
	~Tok() { fini(); }
};
template <> struct Tok<2> : TokOps<false> // copy only
{
	explicit Tok(Raw r) { mk_value(r.pay); }
	Tok() { mk_default(); }
	Tok(const Tok& o) { mk_copy(o); }
	Tok& operator=(const Tok& o) { as_copy(o); return *this; }
	~Tok() { fini(); }
};
template <> struct Tok<3> : TokOps<false> // copyable, moves may throw
{
	explicit Tok(Raw r) { mk_value(r.pay); }
	Tok() { mk_default(); }
	Tok(const Tok& o) { mk_copy(o); }
	Tok(Tok&& o) noexcept(false) { mk_move(o, true); }
	Tok& operator=(const Tok& o) { as_copy(o); return *this; }
	Tok& operator=(Tok&& o) noexcept(false) { as_move(o, true); return *this; }
	~Tok() { fini(); }
};
template <> struct Tok<4> : TokOps<false> // move only, moves may throw
{
	explicit Tok(Raw r) { mk_value(r.pay); }
	Tok() { mk_default(); }
	Tok(Tok&& o) noexcept(false) { mk_move(o, true); }
	Tok& operator=(Tok&& o) noexcept(false) { as_move(o, true); return *this; }
	~Tok() { fini(); }
};
template <> struct Tok<5> : TokOps<true> // owns memory
{
	explicit Tok(Raw r) { mk_value(r.pay); }
	Tok() { mk_default(); }
	Tok(const Tok& o) { mk_copy(o); }
	Tok(Tok&& o) noexcept { mk_move(o, false); }
	Tok& operator=(const Tok& o) { as_copy(o); return *this; }
	Tok& operator=(Tok&& o) noexcept { as_move(o, false); return *this; }
	~Tok() { fini(); }
};
template <> struct Tok<6> : TokOps<false> // no default value
{
	explicit Tok(Raw r) { mk_value(r.pay); }
	Tok(const Tok& o) { mk_copy(o); }
	Tok(Tok&& o) noexcept { mk_move(o, false); }
	Tok& operator=(const Tok& o) { as_copy(o); return *this; }
	Tok& operator=(Tok&& o) noexcept { as_move(o, false); return *this; }
	~Tok() { fini(); }
};

// ------------------------------------------------------------------ canonical text of values
inline void put(std::string& s, uint64_t x)
{
	char b[24]; int i = 24;
	do { b[--i] = (char)('0' + x % 10); x /= 10; } while (x);
	s.append(b + i, 24 - i);
}
inline void puthex(std::string& s, uint64_t x)
{
	for (int i = 28; i >= 0; i -= 4) s += "0123456789abcdef"[(x >> i) & 15];
}

void canon_span(std::string& s, const void* data, size_t size, size_t esz);

template <class T> struct is_opt : std::false_type {};
template <class T> struct is_opt<std::optional<T>> : std::true_type {};
template <class T> struct is_vec : std::false_type {};
template <class T> struct is_vec<std::vector<T>> : std::true_type {};
template <class T> struct is_arr : std::false_type {};
template <class T, size_t N> struct is_arr<std::array<T, N>> : std::true_type {};
template <class T> struct is_tup : std::false_type {};
template <class... T> struct is_tup<std::tuple<T...>> : std::true_type {};
template <class T> struct is_pair : std::false_type {};
template <class A, class B> struct is_pair<std::pair<A, B>> : std::true_type {};
template <class T> struct is_var : std::false_type {};
template <class... T> struct is_var<std::variant<T...>> : std::true_type {};

void canon_tok(std::string& s, const TokBase& t);

template <class T>
void canon(std::string& s, const T& t)
{
	if constexpr (std::is_base_of_v<TokBase, T>)
		canon_tok(s, t);
	else if constexpr (std::same_as<T, bool>)
		s += t ? "b1" : "b0";
	else if constexpr (std::same_as<T, std::string>)
	{ s += 'z'; s += t; }
	else if constexpr (std::same_as<T, std::unique_ptr<int>>)
	{ s += 'o'; if (t) put(s, (uint64_t)*t); else s += '-'; }
	else if constexpr (std::is_integral_v<T>)
	{ s += 'i'; put(s, (uint64_t)t); }
	else if constexpr (is_opt<T>::value)
	{ s += '?'; if (t) { canon(s, *t); } else s += '-'; }
	else if constexpr (std::same_as<T, std::vector<bool>>)
	{ s += '{'; for (size_t i = 0; i < t.size(); i++) { if (i) s += ','; canon(s, (bool)t[i]); } s += '}'; }
	else if constexpr (is_vec<T>::value)
	{ s += '{'; for (size_t i = 0; i < t.size(); i++) { if (i) s += ','; canon(s, t.data()[i]); } s += '}'; }
	else if constexpr (is_arr<T>::value)
	{ s += '['; for (size_t i = 0; i < t.size(); i++) { if (i) s += ','; canon(s, t.data()[i]); } s += ']'; }
	else if constexpr (is_tup<T>::value)
	{
		s += '(';
		std::apply([&](const auto&... a) { bool first = true; ((first ? (void)(first = false) : (void)(s += ','), canon(s, a)), ...); }, t);
		s += ')';
	}
	else if constexpr (is_pair<T>::value)
	{ s += '('; canon(s, t.first); s += '&'; canon(s, t.second); s += ')'; }
	else if constexpr (is_var<T>::value)
	{
		s += '<';
		if (t.valueless_by_exception()) s += '!';
		else { put(s, t.index()); s += ':'; std::visit([&](const auto& a) { canon(s, a); }, t); }
		s += '>';
	}
	else
	{
		canon_span(s, t.data(), t.size(), sizeof(*t.data()));
		if ((size_t)(t.end() - t.begin()) != t.size() or t.empty() != (t.size() == 0)) s += '!';
		if (t.size() and (std::addressof(t.front()) != t.data() or std::to_address(t.begin()) != t.data())) s += '!';
		if (t.size() > 1 and (t.first(1).data() != t.data() or t.first(1).size() != 1 or t.subspan(1).data() != t.data() + 1 or t.subspan(1).size() != t.size() - 1)) s += '!';
	}
}

template <class... A>
std::string canon_args(const A&... a)
{
	std::string s;
	bool first = true;
	((first ? (void)(first = false) : (void)(s += ','), canon(s, a)), ...);
	(void)first;
	return s;
}

// ------------------------------------------------------------------ user functions
enum { R_VOID = 10, R_PASS = 11, R_INT = 12, R_TRIM = 13, R_DROP = 14 };   // R_DROP: notes that there was a match, not its value

// types of the standard library that a function may return
enum { R_STRING = 40, R_VECTOR, R_OPTIONAL, R_TUPLE, R_UNIQUE, R_BOOL, R_ARRAY, R_PAIR, R_VARIANT, R_TOKVEC, R_TOKTUP };
inline std::string string_of(uint64_t pay)
{
	std::string s(1 + pay % 30, char('a' + pay % 26));
	return s;
}

template <int Site, int R, class... A>
decltype(auto) call(A&&... a)
{
	uint64_t pay;
	{
		Guard g;
		pay = eng_callback(Site, R == R_DROP ? std::string() : canon_args(a...));
	}
	if constexpr (R <= 6)
		return Tok<R>(Raw{ pay });
	else if constexpr (R == R_VOID || R == R_DROP)
		return;
	else if constexpr (R == R_INT)
		return (int)(pay & 0xff);
	else if constexpr (R == R_STRING)
		return string_of(pay);
	else if constexpr (R == R_VECTOR)
		return std::vector<int>(1 + pay % 3, (int)(pay & 0xff));
	else if constexpr (R == R_OPTIONAL)
		return pay & 1 ? std::optional<int>((int)(pay & 0xff)) : std::optional<int>();
	else if constexpr (R == R_TUPLE)
		return std::tuple<int, int>((int)(pay & 0xff), (int)(pay >> 8 & 0xff));
	else if constexpr (R == R_UNIQUE)
		return std::make_unique<int>((int)(pay & 0xff));
	else if constexpr (R == R_BOOL)
		return (pay & 1) != 0;
	else if constexpr (R == R_ARRAY)
		return std::array<int, 2>{ (int)(pay & 0xff), (int)(pay >> 8 & 0xff) };
	else if constexpr (R == R_PAIR)
		return std::pair<int, int>((int)(pay & 0xff), (int)(pay >> 8 & 0xff));
	else if constexpr (R == R_VARIANT)
		return pay & 1 ? std::variant<int, bool>((pay & 2) != 0) : std::variant<int, bool>((int)(pay & 0xff));
	else if constexpr (R == R_TOKVEC)
	{
		std::vector<Tok<0>> v;
		v.emplace_back(Raw{ pay });
		if (pay & 1) v.emplace_back(Raw{ pay ^ 1 });
		return v;
	}
	else if constexpr (R == R_TOKTUP)
		return std::tuple<Tok<1>, int>(Tok<1>(Raw{ pay }), (int)(pay & 0xff));
	else if constexpr (R == R_PASS)
	{
		auto& first = std::get<0>(std::tie(a...));
		return std::remove_cvref_t<decltype(first)>(std::move(first));
	}
	else if constexpr (R == R_TRIM)
	{
		auto first = std::get<0>(std::tie(a...));
		using S = std::remove_cvref_t<decltype(first)>;
		if (first.size() > 1) return S{ first.data() + 1, first.size() - 1 };
		return first;
	}
}

template <int Site, int R, int Pass> struct Fn;
template <int Site, int R> struct Fn<Site, R, 0> { template <class... A> auto operator()(A&&... a) const { return call<Site, R>(a...); } };
template <int Site, int R> struct Fn<Site, R, 1> { template <class... A> auto operator()(A... a) const { return call<Site, R>(a...); } };
template <int Site, int R> struct Fn<Site, R, 2> { template <class... A> auto operator()(const A&... a) const { return call<Site, R>(a...); } };

// kind: 0 always, 1 never, 2 half, 3 mostly
template <int Site, int Kind, class... A> bool decide(const A&... a)
{
	Guard g;
	uint64_t p = eng_callback(Site, canon_args(a...));
	return Kind == 0 ? true : Kind == 1 ? false : Kind == 2 ? (p & 1) != 0 : (p & 3) != 0;
}
template <int Site, int Kind, int Pass> struct Pr { template <class... A> bool operator()(const A&... a) const { return decide<Site, Kind>(a...); } };
template <int Site, int Kind> struct Pr<Site, Kind, 1> { template <class... A> bool operator()(A... a) const { return decide<Site, Kind>(a...); } };

template <int Site, int F> struct TokC : Tok<F>
{
	TokC() = default;
	TokC(const TokC&) = default;
	TokC(TokC&&) = default;
	TokC& operator=(const TokC&) = default;
	TokC& operator=(TokC&&) = default;
	template <class A0, class... A>
	requires (not std::same_as<std::remove_cvref_t<A0>, TokC>)
	explicit TokC(A0&& a0, A&&... a) : Tok<F>(mk(a0, a...)) {}
	template <class... A> static Raw mk(const A&... a) { Guard g; return Raw{ eng_callback(Site, canon_args(a...)) }; }
};

// ------------------------------------------------------------------ running one operation
template <class V> struct View { V* b; V* e; V* begin() const { return b; } V* end() const { return e; } };

template <class Res, bool Copyable> struct HeldRes final : Held
{
	Res res; bool parse; const char* base; size_t n, esz;
	HeldRes(Res&& r, OpCtx& c) : res(std::move(r)), base(c.base), n(c.n), esz(c.esz) {}
	std::string recanon() override
	{
		Guard g;
		std::string s;
		if (res.has_value()) { if constexpr (not std::same_as<typename Res::value_type, void>) canon(s, *res); else s = "v"; }
		return s;
	}
};

template <class Res>
void observe(OpCtx& c, const Res& res)
{
	c.out.ok = res.has_value();
	if (bool(res) != c.out.ok) eng_finding(F_VERDICT, "the result converted to bool is not has_value()");
	c.out.value.clear();
	if (c.out.ok)
	{
		if constexpr (std::same_as<typename Res::value_type, void>) c.out.value = "v";
		else canon(c.out.value, *res);
	}
	auto rem = res.remaining();
	c.out.rem = rem.size();
	const char* p = (const char*)rem.data();
	if (rem.size() > c.n) { c.alias_bad = true; c.note = "remaining input is longer than the input"; }
	else if (rem.size() ? p != c.base + (c.n - rem.size()) * c.esz : (p && (p < c.base || p > c.base + c.n * c.esz)))
	{ c.alias_bad = true; c.note = "remaining input is not the tail of the input"; }
}

// every way to get at the value; the last one takes it out and puts it back
template <class Res>
void access(OpCtx& c, Res& res, const std::string& want)
{
	using T = typename Res::value_type;
	if constexpr (not std::same_as<T, void>)
	{
		const Res& cres = res;
		auto same = [&](const T& t, const char* how)
		{
			std::string s;
			canon(s, t);
			if (s != want) eng_finding(F_TOKSTATE, std::string(how) + " gives " + s.substr(0, 200) + ", and operator* gave " + want.substr(0, 200));
		};
		same(*cres, "operator* of a const result");
		same(res.value(), "value()");
		same(cres.value(), "value() of a const result");
		same(std::move(cres).value(), "value() of a const rvalue");
		same(*std::move(cres), "operator* of a const rvalue");
		if constexpr (std::is_move_constructible_v<T> and std::is_move_assignable_v<T>)
		{
			{ T t = std::move(res).value(); same(t, "value() of an rvalue"); *res = std::move(t); }
			{ T t = *std::move(res); same(t, "operator* of an rvalue"); *res = std::move(t); }
		}
		same(*res, "operator*, later,");
	}
}

template <class P, class V, int R, bool Parse, bool Copyable>
void run(OpCtx& c, void* data, size_t n)
{
	V* b = static_cast<V*>(data);
	auto body = [&](auto&& range)
	{
		auto go = [&]() -> decltype(auto)
		{
			struct In { In() { eng_enter(true); } ~In() { eng_leave(); eng_disarm(); } } in;
			if constexpr (Parse) return P::parse(std::forward<decltype(range)>(range));
			else return P::lookahead(std::forward<decltype(range)>(range));
		};
		using Res = std::remove_cvref_t<decltype(go())>;
		try
		{
			Res res = go();
			c.out.done = true;
			observe(c, res);
			if constexpr (Parse and not std::same_as<typename Res::value_type, void>) if ((c.op->post & 4) and not c.out.ok)
			{
				bool thrown = false;
				try { (void)res.value(); } catch (const std::bad_optional_access&) { thrown = true; }
				if (not thrown) eng_finding(F_VERDICT, "value() of a failed result gives a value");
			}
			if (Parse && c.op->post && c.out.ok)
			{
				std::string before = c.out.value;
				if constexpr (Copyable) if (c.op->post & 2)
				{
					Res copy = res;
					observe(c, copy);
					if (c.out.value != before) eng_finding(F_TOKSTATE, "copy of the result differs: " + c.out.value.substr(0, 300));
					observe(c, res);
					if (c.out.value != before) eng_finding(F_TOKSTATE, "result changed by copying it: " + c.out.value.substr(0, 300));
				}
				if (c.op->post & 4) access(c, res, before);
				if constexpr (std::is_default_constructible_v<Res> and std::is_move_assignable_v<Res>) if (c.op->post & 8)
				{
					Res other;
					other = std::move(res);
					observe(c, other);
					if (c.out.value != before) eng_finding(F_TOKSTATE, "result assigned elsewhere differs: " + c.out.value.substr(0, 300));
					res = std::move(other);
					observe(c, res);
					if (c.out.value != before) eng_finding(F_TOKSTATE, "result assigned back differs: " + c.out.value.substr(0, 300));
				}
				if (c.op->post & 1)
				{
					Res moved = std::move(res);
					observe(c, moved);
					if (c.out.value != before) eng_finding(F_TOKSTATE, "result moved elsewhere differs: " + c.out.value.substr(0, 300));
					if (c.op->hold) c.held = new HeldRes<Res, Copyable>(std::move(moved), c);
					return;
				}
			}
			if (c.op->hold) c.held = new HeldRes<Res, Copyable>(std::move(res), c);
		}
		catch (...)
		{
			eng_leave();
			c.out.exc = eng_classify_exception(c.out.exc_id);
		}
	};
	if constexpr (R == 0) body(std::span<const V>(b, n));
	else if constexpr (R == 1) body(d::input_span<V>(std::span<const V>(b, n)));
	else if constexpr (R == 2) { const View<V> v{ b, b + n }; body(v); }
	else if constexpr (R == 3) { View<const V> v{ b, b + n }; body(std::move(v)); }
	else if constexpr (R == 4) body(std::basic_string_view<V>(b, n));
	else if constexpr (R == 5) { const V* p = b; body(p); }
}

template <class P, class V, bool Copyable, bool Char, bool All>
constexpr Variant variant(const char* elem, int maxsym)
{
	Variant v{ elem, sizeof(V), maxsym, &store<V>, {}, {} };
	v.parse[0] = &run<P, V, 0, true, Copyable>;
	v.look[0] = &run<P, V, 0, false, Copyable>;
	if constexpr (All)
	{
		v.parse[1] = &run<P, V, 1, true, Copyable>;
		v.look[1] = &run<P, V, 1, false, Copyable>;
		v.parse[2] = &run<P, V, 2, true, Copyable>;
		v.look[2] = &run<P, V, 2, false, Copyable>;
		v.parse[3] = &run<P, V, 3, true, Copyable>;
		v.look[3] = &run<P, V, 3, false, Copyable>;
		if constexpr (Char)
		{
			v.parse[4] = &run<P, V, 4, true, Copyable>;
			v.look[4] = &run<P, V, 4, false, Copyable>;
			v.parse[5] = &run<P, V, 5, true, Copyable>;
			v.look[5] = &run<P, V, 5, false, Copyable>;
		}
	}
	return v;
}

} // namespace h
