// Plans as text: the format of replay files.
#include "core.h"
#include <sstream>

namespace sim {

static void put_op(std::string& s, const char* kw, const Op& o)
{
	s += kw;
	auto num = [&](const char* k, long v) { s += ' '; s += k; s += '='; s += std::to_string(v); };
	num("id", o.id); num("task", o.task); num("g", o.g); num("v", o.v); num("r", o.r);
	num("parse", o.parse); num("hold", o.hold); num("post", o.post);
	num("buf", o.buf); num("place", o.place); num("nb", o.nb); num("off", o.in_off); num("len", o.in_len); num("grp", o.grp);
	s += " in=";
	for (size_t i = 0; i < o.in.size(); i++)
	{
		uint32_t c = o.in[i];
		if (c > 32 && c < 127 && c != '\\') s += (char)c;
		else s += '\\' + std::to_string(c) + ';';
	}
	for (auto& f : o.faults) s += " fault=" + std::to_string(f.kind) + ":" + std::to_string(f.nth) + ":" + std::to_string(f.arg);
	s += '\n';
}

std::string to_text(const Plan& p)
{
	std::string s = "plan " + std::to_string(p.kind) + "\n";
	if (!p.ev.empty()) { s += "events"; for (int e : p.ev) s += " " + std::to_string(e); s += "\n"; }
	if (!p.sched.empty()) { s += "sched"; for (int e : p.sched) s += " " + std::to_string(e); s += "\n"; }
	for (auto& o : p.ops) put_op(s, "op", o);
	for (auto& o : p.nested) put_op(s, "nested", o);
	return s + "end\n";
}

static bool get_op(std::istringstream& is, Op& o)
{
	std::string t;
	while (is >> t)
	{
		size_t e = t.find('=');
		if (e == std::string::npos) return false;
		std::string k = t.substr(0, e), v = t.substr(e + 1);
		if (k == "in")
		{
			o.in.clear();
			for (size_t i = 0; i < v.size(); i++)
			{
				if (v[i] != '\\') { o.in.push_back((unsigned char)v[i]); continue; }
				size_t j = v.find(';', i);
				if (j == std::string::npos) return false;
				o.in.push_back((uint32_t)std::stoul(v.substr(i + 1, j - i - 1)));
				i = j;
			}
			continue;
		}
		if (k == "fault")
		{
			Fault f{};
			if (sscanf(v.c_str(), "%d:%d:%d", &f.kind, &f.nth, &f.arg) != 3) return false;
			o.faults.push_back(f);
			continue;
		}
		long x = std::stol(v);
		if (k == "id") o.id = (int)x;
		else if (k == "task") o.task = (int)x;
		else if (k == "g") o.g = (int)x;
		else if (k == "v") o.v = (int)x;
		else if (k == "r") o.r = (int)x;
		else if (k == "parse") o.parse = x != 0;
		else if (k == "hold") o.hold = x != 0;
		else if (k == "post") o.post = (int)x;
		else if (k == "buf") o.buf = (int)x;
		else if (k == "place") o.place = (int)x;
		else if (k == "nb") o.nb = (uint32_t)x;
		else if (k == "off") o.in_off = (int)x;
		else if (k == "len") o.in_len = (int)x;
		else if (k == "grp") o.grp = (int)x;
		else return false;
	}
	return true;
}

bool from_text(const std::string& text, std::vector<Plan>& out)
{
	std::istringstream in(text);
	std::string line;
	Plan* p = nullptr;
	while (std::getline(in, line))
	{
		if (line.empty() || line[0] == '#') continue;
		std::istringstream is(line);
		std::string k;
		is >> k;
		if (k == "plan") { out.emplace_back(); p = &out.back(); is >> p->kind; continue; }
		if (!p) continue;
		if (k == "end") { p = nullptr; continue; }
		int x;
		if (k == "events") while (is >> x) p->ev.push_back(x);
		else if (k == "sched") while (is >> x) p->sched.push_back(x);
		else if (k == "op") { p->ops.emplace_back(); if (!get_op(is, p->ops.back())) return false; }
		else if (k == "nested") { p->nested.emplace_back(); if (!get_op(is, p->nested.back())) return false; }
		else return false;
	}
	return p == nullptr;
}

} // namespace sim
