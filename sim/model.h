// Reference interpreter: the meaning of a grammar, written down independently of the library.
#pragma once
#include "engine.h"
#include <memory>
#include <set>

namespace sim {

enum class K { any, none, all, anyt, eps, choice, seq, maybe, exactly, plus, star, delim, delimk, ignore, complete, join, map, filter, name, rec };

struct Node
{
	K k;
	std::vector<uint32_t> lit;
	int n = 0;                    // exactly: count; map/filter: site; rec: which
	int ret = 0;                  // map: kind of result; filter: kind of predicate
	bool apply = false;
	int arity = 0;                // choice: 0 no value, 1 one type, 2 variant
	std::string def;              // choice: default value
	std::vector<int> idx;         // choice: variant index per alternative, -1 without value
	std::vector<std::unique_ptr<Node>> kid;
	bool isvoid = false;
	bool rec = false;             // contains recursion
};

struct Grammar
{
	const GrammarDef* def = nullptr;
	std::unique_ptr<Node> root;
	std::vector<std::unique_ptr<Node>> recs;
	std::vector<uint32_t> alphabet;
	bool has_cb = false, has_rec = false;
	std::set<std::string> feat;
	bool has(const char* f) const { return feat.count(f) != 0; }
};

struct ModelOut
{
	bool ok = false, overflow = false;
	std::string value;
	size_t rem = 0;
	std::vector<std::string> log;
	uint64_t steps = 0;
	int maxrep = 0;               // longest repetition
	int depth = 0;
};

void load_grammar(Grammar& g, const GrammarDef* def);
ModelOut model_run(const Grammar& g, bool parse, const std::vector<uint32_t>& in);
std::vector<uint32_t> gen_sentence(const Grammar& g, Rng& rng, int maxlen, int rep, int deep = 0, int flood = 0);
uint32_t odd_symbol(const Grammar& g, Rng& rng);

} // namespace sim
