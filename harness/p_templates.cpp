// C15 variables, C16 loops, C17 conditionals, C18 filters, C19 includes, C20 purity and size, C21 values.
#include "../engine/engine.hpp"
#include "shim.h"
#include "tmodel.hpp"
#include <cstring>
#include <cstdlib>
#include <algorithm>
#include <stdexcept>
#include <unistd.h>
#include <fcntl.h>
#include <climits>
#include <sys/stat.h>
using namespace pbt;

static const std::string LETTERS = "abcdefghijklmnopqrstuvwyzABCDEFGHIJKLMNOPQRSTUVWYZ"; // no x, X: they make up the markers
static const std::string NAMECH = LETTERS + "_";
static const std::string LIT = LETTERS + "0123456789 .,;:<>/\"'=&%\\@#-_()[]{}*+?^$|!~`\t\xc3\xa9";

// --- filters: C functions, so they record into globals ------------------------------------------------
static std::vector<FilterCall> called; static std::vector<char *> live; static unsigned long cleaned, bad_cleanups;
static char *call(int k, const char *a) {
	called.push_back({k, a != nullptr, a ? a : ""});
	std::string r = filter_result(k, a); char *p = (char *)malloc(r.size() + 1); memcpy(p, r.c_str(), r.size() + 1);
	if (k != 1 && k != 3) live.push_back(p);
	return p;
}
static std::vector<char *> statics; // results without a clean-up function are freed by the harness
static char *f0(const char *a) { return call(0, a); }
static char *f1(const char *a) { char *p = call(1, a); statics.push_back(p); return p; }
static char *f2(const char *a) { return call(2, a); }
static char *f3(const char *a) { return call(3, a); }
static char *f4(const char *a) { return call(4, a); }
static char *f5(const char *a) { return call(5, a); }
static void clean(char *p) {
	auto i = std::find(live.begin(), live.end(), p);
	if (i == live.end()) { bad_cleanups++; return; }
	live.erase(i); cleaned++; free(p);
}
static char *(*const FF[FILTERS])(const char *) = {f0, f1, f2, f3, f4, f5};
static void (*const FC[FILTERS])(char *) = {clean, nullptr, clean, sh_filter_cleanup, clean, clean};
static void filters_reset() { for (char *p : live) free(p); live.clear(); for (char *p : statics) free(p); statics.clear(); called.clear(); cleaned = bad_cleanups = 0; }
static void filters_done() { filters_reset(); live.shrink_to_fit(); statics.shrink_to_fit(); called.shrink_to_fit(); }

// --- contexts -----------------------------------------------------------------------------------------
static void *build(const MCtx &m);
static void add_item(void *arr, const MVal &v) {
	int rc = 0;
	switch (v.k) {
	case MVal::STR: rc = sh_arr_add_string(arr, Exact(v.s, true).p); break;
	case MVal::INT: rc = sh_arr_add_int(arr, v.i); break;
	case MVal::SUB: rc = sh_arr_add_sub(arr, build(*v.sub)); break;
	default: throw std::runtime_error("array in an array");
	}
	CHECK(rc == 0, "adding an array item failed");
}
static void fill(void *c, const MCtx &m) {
	std::vector<std::pair<void *, const MVal *>> arrays, subs;
	size_t nf = 0;
	for (auto &v : m.vals) {
		Exact name(v.first, true); int rc = 0;
		switch (v.second.k) {
		case MVal::STR: rc = sh_add_string(c, name.p, Exact(v.second.s, true).p); break;
		case MVal::INT: rc = sh_add_int(c, name.p, v.second.i); break;
		case MVal::ARR: { void *a = sh_add_array(c, name.p); CHECK(a, "adding an array failed"); arrays.push_back({a, &v.second}); break; }
		case MVal::SUB: { void *s = m.late ? sh_ctx_new() : build(*v.second.sub); CHECK(s, "no context"); if (m.late) subs.push_back({s, &v.second}); rc = sh_add_sub(c, name.p, s); break; }
		}
		CHECK(rc == 0, "adding %s failed", v.first.c_str());
		if (!m.late && v.second.k == MVal::ARR) for (auto &i : v.second.items) add_item(arrays.back().first, i);
		if (nf < m.filters.size() && m.late) { Exact n(m.filters[nf].first, true); sh_add_filter(c, n.p, FF[m.filters[nf].second], FC[m.filters[nf].second]); nf++; }
	}
	for (; nf < m.filters.size(); nf++) { Exact n(m.filters[nf].first, true); sh_add_filter(c, n.p, FF[m.filters[nf].second], FC[m.filters[nf].second]); }
	if (m.late) { // round robin
		for (size_t i = 0, more = 1; more; i++) { more = 0; for (auto &a : arrays) if (i < a.second->items.size()) { add_item(a.first, a.second->items[i]); more = 1; } }
		for (auto &s : subs) fill(s.first, *s.second->sub);
	}
	for (auto &a : arrays) sh_handle_free(a.first);
}
static void *build(const MCtx &m) { void *c = sh_ctx_new(); CHECK(c, "no context"); fill(c, m); return c; }

struct Rendered { std::string out; };
// Renders from a buffer of exactly the given size and checks what holds for every rendering.
static std::string render(void *c, const std::string &t) {
	Exact e(t); size_t n = 1234567;
	char *r = sh_render(c, e.p, t.size(), &n);
	CHECK(r, "rendering returned nothing");
	size_t l = strlen(r); std::string s(r, l);
	CHECK(l == n, "the reported size is %zu, the text has %zu bytes: %s", n, l, quote(s, 400).c_str());
	free(r);
	CHECK(t.empty() || memcmp(e.p, t.data(), t.size()) == 0, "rendering changed the template");
	return s;
}

// --- generation ---------------------------------------------------------------------------------------
struct Env { // what a template may refer to
	std::vector<std::string> strs;                       // "name" or "sub.member"
	struct Arr { std::string name; int kind; std::vector<std::string> members; }; // 0: strings and integers, 1: sub-contexts, 2: mixed
	std::vector<Arr> arrays;
	std::vector<std::string> conds, dotted;              // plain names, bound or not; bound members
	std::vector<std::string> filters;
	std::vector<std::string> files, loop_files;          // the latter refer to the loop variable loopvar_q
	void shadow(const std::string &n) {
		strs.erase(std::remove_if(strs.begin(), strs.end(), [&](auto &s) { return s == n || s.compare(0, n.size() + 1, n + ".") == 0; }), strs.end());
		arrays.erase(std::remove_if(arrays.begin(), arrays.end(), [&](auto &a) { return a.name == n; }), arrays.end());
		dotted.erase(std::remove_if(dotted.begin(), dotted.end(), [&](auto &s) { return s.compare(0, n.size() + 1, n + ".") == 0; }), dotted.end());
	}
};
struct Opt { bool loops = false, conds = false, filters = false, includes = false, nearmiss = false; int refs = 3; size_t max_val = 30, names = 8, items = 6; int lines = 6; bool any_value = false; };

static bool plain(const std::string &n) { return !n.empty() && std::all_of(n.begin(), n.end(), [](char c) { return isalpha((unsigned char)c) || c == '_'; }); }
static std::string name(Gen &g, const std::vector<std::string> &used, bool digits) {
	std::string al = digits ? NAMECH + "0123456789" : NAMECH;
	switch (g.weighted({5, 3, 3, 1})) {
	case 0: return g.text(1 + g.below(6), al);
	case 1: if (!used.empty()) { std::string n = g.pick(used); if (n.size() < 31 && g.flip()) return n + g.text(1, al); if (n.size() > 1) return n.substr(0, n.size() - 1); return n; } return "a";
	case 2: if (!used.empty()) { std::string n = g.pick(used); n.resize(std::min<size_t>(31, n.size() + 30), n[0]); if (n.size() > 1 && g.flip()) n.back() = al[g.below(al.size())]; return n; } return g.text(31, al);
	default: return g.pick(std::vector<std::string>{"LOOP", "UNLESS", "NOT", "BBL", "x", "X", "str", "name", "SCREAM", "i"});
	}
}
static std::string safe(std::string s) { // no template syntax, not even together with what is around it
	for (auto &c : s) if (c == 'x' || c == 'X') c = c == 'x' ? 'k' : 'K';
	return s;
}
static std::string value(Gen &g, const Opt &o) {
	switch (g.weighted({6, 2, 1, 1})) {
	case 0: { std::string s = g.text(g.size(0, o.max_val), LIT); return s; }
	case 1: return g.pick(std::vector<std::string>{"", "FALSE", "TRUE", "false", "FALSE ", "0", "FALS", "FALSEE", " ", "@a", "a b", "%s%n", "taxi", "\\1&", "@", " @a"});
	case 2: return g.text(g.below(4), " \t\n\r") + g.text(g.below(4), LETTERS) + g.text(g.below(3), "\n\r ");
	default: return safe(g.bytes(g.size(0, o.any_value ? 700 : o.max_val), 3));
	}
}
static int integer(Gen &g) {
	switch (g.weighted({3, 2, 2})) { case 0: return (int)g.below(20); case 1: return (int)(uint32_t)g.u64(); default: return g.pick(std::vector<int>{INT_MIN, INT_MAX, -1, INT_MIN + 1, INT_MAX - 1, 1000000000, -10}); }
}
static MVal scalar(Gen &g, const Opt &o) { MVal v; if (g.below(3) == 2) { v.k = MVal::INT; v.i = integer(g); } else v.s = value(g, o); return v; }
static std::shared_ptr<MCtx> sub(Gen &g, const Opt &o, const std::vector<std::string> &members, int depth) {
	auto c = std::make_shared<MCtx>(); c->late = g.flip();
	for (auto &m : members) c->vals.push_back({m, scalar(g, o)});
	size_t extra = members.empty() && g.flip() ? 0 : g.below(3);
	for (size_t i = 0; i < extra; i++) {
		MVal v; std::string n = name(g, members, g.flip());
		if (std::find(members.begin(), members.end(), n) != members.end() && g.flip()) n += "z"; // else: a second binding, never seen
		if (n.size() > 31) n.resize(31);
		switch (depth < 2 ? g.below(4) : 0) {
		case 1: { v.k = MVal::ARR; size_t k = g.below(4); for (size_t j = 0; j < k; j++) v.items.push_back(scalar(g, o)); break; }
		case 2: v.k = MVal::SUB; v.sub = sub(g, o, g.below(4) == 3 ? std::vector<std::string>{} : std::vector<std::string>{"deep"}, depth + 1); break;
		default: v = scalar(g, o);
		}
		c->vals.push_back({n, v});
	}
	return c;
}
struct Spec { MCtx ctx; Env env; std::map<std::string, std::string> files; std::string tmpl; bool deep_refs = false; };
static std::vector<std::string> members(Gen &g) {
	std::vector<std::string> m; size_t n = g.below(14) == 13 ? 0 : 1 + g.below(3);
	for (size_t i = 0; i < n; i++) { std::string s = name(g, m, true); if (std::find(m.begin(), m.end(), s) == m.end()) m.push_back(s); }
	return m;
}
static void context(Gen &g, Spec &s, const Opt &o) {
	std::vector<std::string> used; s.ctx.late = g.flip();
	size_t n = g.size(1, o.names);
	std::map<std::string, std::pair<int, std::vector<std::string>>> arrs; std::map<std::string, std::vector<std::string>> subs;
	for (size_t i = 0; i < n; i++) {
		std::string nm = !used.empty() && g.below(10) == 9 ? g.pick(used) : name(g, used, g.below(3) != 2);
		bool again = std::find(used.begin(), used.end(), nm) != used.end(); used.push_back(nm);
		MVal v; size_t kind = g.weighted({6, (unsigned)(o.loops ? 5 : 1), 2});
		if (kind == 0) v = scalar(g, o);
		else if (kind == 1) {
			v.k = MVal::ARR; int ak = g.weighted({3, 2, 1}); auto m = members(g);
			size_t k = g.below(60) == 59 ? g.size(0, o.items * 8) : g.below((uint32_t)o.items + 1);
			if (o.loops && !plain(nm)) { nm = g.text(1 + g.below(8), NAMECH); used.back() = nm; again = std::count(used.begin(), used.end(), nm) > 1; }
			for (size_t j = 0; j < k; j++) { MVal it; if (ak == 0 || (ak == 2 && g.flip())) it = scalar(g, o); else { it.k = MVal::SUB; it.sub = sub(g, o, m, 0); } v.items.push_back(it); }
			if (!again) arrs[nm] = {ak, m};
		} else { auto m = members(g); v.k = MVal::SUB; v.sub = sub(g, o, m, 0); if (!again) subs[nm] = m; }
		s.ctx.vals.push_back({nm, v});
	}
	std::sort(used.begin(), used.end()); used.erase(std::unique(used.begin(), used.end()), used.end());
	for (auto &nm : used) {
		const MVal *v = s.ctx.find(nm);
		if (v->k == MVal::STR || v->k == MVal::INT) s.env.strs.push_back(nm);
		if (v->k == MVal::ARR && plain(nm)) s.env.arrays.push_back({nm, arrs[nm].first, arrs[nm].second});
		if (v->k == MVal::SUB) {
			for (auto &m : subs[nm]) s.env.strs.push_back(nm + "." + m);
			for (auto &m : v->sub->vals) if (plain(nm) && plain(m.first) && std::count_if(v->sub->vals.begin(), v->sub->vals.end(), [&](auto &x) { return x.first == m.first; }) == 1) s.env.dotted.push_back(nm + "." + m.first);
		}
		if (plain(nm)) s.env.conds.push_back(nm);
	}
	for (auto &u : {"nope", "unbound_name", "A"}) if (!s.ctx.find(u)) s.env.conds.push_back(u);
	if (o.filters) {
		std::vector<std::string> fn; size_t k = 1 + g.below(g.below(6) == 5 ? 20 : 4);
		for (size_t i = 0; i < k; i++) { std::string f = name(g, fn, true); fn.push_back(f); s.ctx.filters.push_back({f, (int)g.below(FILTERS)}); }
		std::sort(fn.begin(), fn.end()); fn.erase(std::unique(fn.begin(), fn.end()), fn.end()); s.env.filters = fn;
	}
}
static const std::vector<std::string> NEAR{"xXx@a xXx", "xXx @a-b xXx", "xXx @ xXx", "XXX @a XXX", "xXx @a xxX", "xXx @a.b.c xXx", "xXx a xXx", "xXx", "xX", "XxX", "xXxx", "xXx BBL xXx", "xXx ENDLESS xXx", "xXx LOOP i xXx", "xXx SCREAM xXx", "xXx UNLESS a xXx", "xxx @a xxx", "xXx @a. xXx", "xXx @.a xXx", "xXx  @a xXx", "xXx @a\txXx", "xXx @a", "@a xXx", "XxX f", "XxX  f XxX", "XxX f-g XxX", "XxX @f XxX"};
static std::string literal(Gen &g, size_t max) {
	std::string s = g.below(12) == 11 ? g.pick(std::vector<std::string>{"taxi", "a xx b", "\\0", "%s", "<!-- @a -->", "a@b.c", "$&"}) : g.text(g.size(0, max), LIT);
	if (s.compare(0, 2, " @") == 0) s[0] = '_';
	return s;
}
static std::string ref(Gen &g, const Env &e) { return "xXx @" + g.pick(e.strs) + " xXx"; }
static std::string inl(Gen &g, const Env &e, const Opt &o) { // a line, without its end
	std::string s; size_t n = g.below(g.below(10) == 9 ? 14 : 4);
	for (size_t i = 0; i < n; i++) switch (g.weighted({4, (unsigned)(e.strs.empty() ? 0 : o.refs), (unsigned)(o.filters && !e.filters.empty() ? 5 : 0), (unsigned)(o.nearmiss ? 1 : 0)})) {
	case 0: s += literal(g, g.below(30) == 29 ? 900 : 20); break;
	case 1: s += ref(g, e); break;
	case 2: {
		s += "XxX " + g.pick(e.filters);
		size_t k = g.below(4);
		if (k) {
			s += g.below(4) == 3 ? "  " : " "; std::string a;
			for (size_t j = 0; j < k; j++) a += !e.strs.empty() && g.below(3) == 2 ? ref(g, e) : literal(g, g.below(20) == 19 ? 600 : 12);
			if (a.empty()) a = "arg"; s += a;
		}
		s += " XxX"; break; }
	default: s += ";" + g.pick(NEAR) + ";";
	}
	return s;
}
static std::string eol(Gen &g) { switch (g.weighted({12, 1, 1})) { case 0: return "\n"; case 1: return "\r\n"; default: return "\r"; } }
static std::string indent(Gen &g) { return g.below(3) == 2 ? g.text(g.below(5), " \t") : ""; }
// What can be known only in the body of a condition that does not hold.
static std::string unbound(Gen &g) { return g.pick(std::vector<std::string>{"xXx @nope xXx", "xXx @nope.nope xXx", "XxX nope XxX", "XxX nope a XxX"}); }
static std::string body(Gen &g, const Env &e, const Opt &o, bool &fresh);
static std::string block(Gen &g, const Env &e, const Opt &o) {
	bool loop = o.loops && !e.arrays.empty() && (!o.conds || g.flip());
	std::string s = indent(g), start = g.below(4) == 3 ? "" : eol(g), end; bool fresh = false;
	if (loop) {
		const Env::Arr &a = g.pick(e.arrays); Env in = e; Opt io = o; io.loops = false; io.lines = 3; in.arrays.clear();
		std::string v = g.below(3) ? g.text(1 + g.below(4), NAMECH) : !e.strs.empty() && plain(e.strs[0]) ? e.strs[0] : g.below(2) ? a.name : "i";
		if (!e.files.empty()) v = "loopvar_q"; // included files use the outer names
		in.shadow(v);
		if (a.kind == 0 && v == "loopvar_q") for (int i = 0; i < 2; i++) in.files.insert(in.files.end(), e.loop_files.begin(), e.loop_files.end());
		if (a.kind == 0) { in.strs.push_back(v); in.strs.push_back(v); }
		if (a.kind == 1) for (auto &m : a.members) { in.strs.push_back(v + "." + m); in.strs.push_back(v + "." + m); }
		in.conds.push_back(v);
		s += "xXx LOOP " + v + " " + a.name + " xXx" + start + body(g, in, io, fresh) + indent(g) + "xXx BBL xXx";
	} else {
		bool neg = g.flip(); Opt io = o; io.conds = false; io.lines = 3; std::string v = !e.dotted.empty() && g.below(6) == 5 ? g.pick(e.dotted) : g.pick(e.conds);
		std::string b = body(g, e, io, fresh);
		if (neg && (v == "nope" || v == "unbound_name") && std::find(e.conds.begin(), e.conds.end(), v) != e.conds.end() && g.flip()) b += unbound(g) + (g.flip() ? "\n" : "");
		auto form = [&](bool n) { return "xXx UNLESS " + std::string(n ? "NOT " : "") + "@" + v + " xXx" + start + b + indent(g) + "xXx ENDLESS xXx"; };
		s += form(neg);
		if (v.find("nope") == std::string::npos && v != "unbound_name" && g.flip()) s += (g.flip() ? "\n" : "") + indent(g) + form(!neg); // both forms
	}
	if (g.below(4)) s += eol(g); else if (g.flip()) s += ";" + inl(g, e, o) + "\n";
	return s;
}
static std::string body(Gen &g, const Env &e, const Opt &o, bool &fresh) {
	std::string s; size_t n = g.below((uint32_t)o.lines + 1); bool at_start = true;
	for (size_t i = 0; i < n; i++) {
		size_t k = g.weighted({5, (unsigned)((o.loops && !e.arrays.empty()) || o.conds ? 6 : 0), (unsigned)(o.includes && !e.files.empty() ? 4 : 0)});
		if (k == 0) { s += inl(g, e, o); std::string t = i + 1 == n && g.flip() ? "" : eol(g); s += t; at_start = !t.empty(); }
		else {
			if (!at_start) s += "\n";
			if (k == 1) { s += block(g, e, o); at_start = s.empty() || s.back() == '\n' || s.back() == '\r' || s.compare(s.size() - 3, 3, "xXx") == 0; }
			else { s += indent(g) + "xXx SCREAM " + g.pick(e.files) + " xXx"; if (g.below(4) == 3) s += ";" + literal(g, 10); s += eol(g); at_start = true; }
		}
	}
	fresh = at_start;
	return s;
}
static void make_files(Gen &g, Spec &s, const Opt &o) {
	static const std::vector<std::string> names{"a.html", "./b.txt", "d/c.html", "e", "d/../f.html", "g.h.i", "./d/./j"};
	std::vector<std::string> done; size_t n = 1 + g.below(g.below(5) == 4 ? 7 : 3); bool far = g.below(4) == 3;
	for (size_t i = 0; i < n; i++) {
		Env e = s.env; e.files = done; bool fresh; Opt io = o; io.lines = 4;
		std::string t = body(g, e, io, fresh);
		if (g.below(3) == 2) { // a size around the chunks the file is read in
			size_t want = g.pick(std::vector<size_t>{2048, 4096, 6144, 2049, 2047, 8192, 16384}) - 2 + g.below(5);
			if (g.below(300) == 299) want = g.pick(std::vector<size_t>{65536, 131072}) - 2 + g.below(5);
			if (t.size() < want) { std::string pad; if (!fresh) t += "\n"; while (t.size() + pad.size() < want) pad += g.text(std::min<size_t>(want - t.size() - pad.size(), 1 + g.below(200)), LETTERS + " .") + (t.size() + pad.size() + 1 < want + g.below(2) ? "\n" : ""); t = g.flip() ? t + pad : pad + (pad.back() == '\n' ? "" : "\n") + t; }
		}
		std::string path = names[i];
		if (far && g.below(3)) { // long paths, many directories
			path = std::string("qrstuvw").substr(i, 1); std::string dirs; size_t k = 1 + g.below(g.below(4) == 3 ? 12 : 4);
			for (size_t j = 0; j < k; j++) dirs += g.weighted({1, 2, 1}) == 1 ? std::string(1 + g.below(60), "DEF"[g.below(3)]) + "/" : g.flip() ? "./" : "d/../";
			path = dirs + path + (g.flip() ? "" : std::string(g.size(1, 100), '_')) + (g.flip() ? ".html" : "");
		}
		if (g.below(8) == 7) path = (g.below(3) ? "../" : scratch_dir() + "/w/") + "klmnopx"[i] + (g.flip() ? "" : ".html"); // outside the working directory, by its absolute path
		s.files[path] = t; done.push_back(path);
	}
	s.env.files = done;
	if (o.loops && g.below(4)) { // only for the bodies of loops over strings and integers
		Env e = s.env; e.files.clear(); e.arrays.clear(); e.shadow("loopvar_q"); for (int i = 0; i < 3; i++) e.strs.push_back("loopvar_q"); e.conds.push_back("loopvar_q");
		Opt io = o; io.lines = 3; io.loops = false; bool fresh;
		s.env.loop_files.push_back("item.html"); s.files["item.html"] = body(g, e, io, fresh) + ref(g, e);
	}
}
static void write_files(const Spec &s) {
	static pid_t owner = 0; if (owner != getpid()) { owner = getpid(); std::string w = scratch_dir() + "/w"; mkdir(w.c_str(), 0755); if (chdir(w.c_str())) throw std::runtime_error("chdir"); mkdir("d", 0755); }
	for (auto &f : s.files) {
		if (f.first[0] != '/') for (size_t p = 0; (p = f.first.find('/', p)) != std::string::npos; p++) { std::string d = f.first.substr(0, p); mkdir(d.c_str(), 0755); mkdir((d + "/d").c_str(), 0755); }
		int fd = open(f.first.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); if (fd < 0) throw std::runtime_error("open " + f.first);
		if (write(fd, f.second.data(), f.second.size()) != (ssize_t)f.second.size()) throw std::runtime_error("write"); close(fd);
	}
}
static void describe(Ctx &c, const Spec &s) {
	if (!c.want_show) return;
	c.show("template %s", quote(s.tmpl, 1200).c_str());
	for (auto &f : s.files) c.show("; file %s = %s", f.first.c_str(), quote(f.second, 500).c_str());
	std::function<void(const MCtx &, const char *)> ctx = [&](const MCtx &m, const char *what) {
		c.show("; %s {", what);
		for (auto &v : m.vals) { c.show(" %s=", v.first.c_str()); auto one = [&](const MVal &x) { if (x.k == MVal::STR) c.show("%s", quote(x.s, 80).c_str()); else if (x.k == MVal::INT) c.show("%d", x.i); else if (x.k == MVal::SUB) ctx(*x.sub, "sub"); }; if (v.second.k == MVal::ARR) { c.show("["); for (auto &i : v.second.items) { one(i); c.show(","); } c.show("]"); } else one(v.second); }
		for (auto &f : m.filters) c.show(" %s()=filter %d", f.first.c_str(), f.second);
		c.show(" }");
	};
	ctx(s.ctx, "context");
}
static void diff(const std::string &got, const std::string &want) {
	if (got == want) return;
	size_t i = 0; while (i < got.size() && i < want.size() && got[i] == want[i]) i++;
	size_t f = i > 60 ? i - 60 : 0;
	fail("rendered (%zu bytes) and expected text (%zu bytes) differ at byte %zu: ...%s, expected ...%s", got.size(), want.size(), i, quote(got.substr(f), 300).c_str(), quote(want.substr(f), 300).c_str());
}
struct Out { Model m; std::string want; };
// Renders once with the library and compares with the model.
static Out compare(const Spec &s, bool check_filters = true) {
	std::vector<Out> outs;
	std::function<void(const std::map<std::string, bool> &)> explore = [&](const std::map<std::string, bool> &assumed) {
		Model x; x.files = s.files; x.dotted = assumed; std::string w = x.render(s.ctx, s.tmpl);
		for (auto &d : x.dotted_seen) if (!assumed.count(d)) {
			if (assumed.size() > 4) throw std::length_error("too many conditions on members");
			auto t = assumed; t[d] = false; explore(t); t[d] = true; explore(t); return;
		}
		outs.push_back({x, w});
	};
	explore({});
	std::string want = outs[0].want;
	filters_reset();
	void *c = build(s.ctx); std::string got = render(c, s.tmpl); sh_ctx_free(c);
	Out *hit = nullptr; std::vector<FilterCall> calls_now = called; std::sort(calls_now.begin(), calls_now.end());
	for (auto &o : outs) { std::sort(o.m.log.begin(), o.m.log.end()); if (o.want == got && (!hit || o.m.log == calls_now)) hit = &o; }
	if (!hit && outs.size() == 1) diff(got, want);
	if (!hit) fail("no consistent reading of the conditions on members gives the rendered text %s; one gives %s", quote(got, 500).c_str(), quote(want, 500).c_str());
	if (check_filters) {
		auto show = [](const std::vector<FilterCall> &v) { std::string r; for (size_t i = 0; i < v.size() && i < 8; i++) r += std::to_string(v[i].filter) + "(" + (v[i].has_arg ? quote(v[i].arg, 60) : "") + ") "; return r; };
		CHECK(hit->m.log == calls_now, "the filters were called as %s, expected %s", show(calls_now).c_str(), show(hit->m.log).c_str());
		CHECK(live.empty() && bad_cleanups == 0, "%zu filter results were not cleaned up, %lu clean-ups of something else", live.size(), bad_cleanups);
	}
	Out r = *hit; filters_reset(); return r;
}
// A context that is rendered with while it grows: names and items become bound between two renderings.
static void grow(Gen &g, Ctx &c, const MCtx &full) {
	MCtx part; void *x = sh_ctx_new(); CHECK(x, "no context"); size_t probes = 0;
	auto probe = [&] {
		if (g.below(3) != 2) return;
		std::string t; size_t n = 1 + g.below(3);
		for (size_t i = 0; i < n; i++) {
			const std::string &nm = g.pick(full.vals).first; const MVal *v = part.find(nm);
			if (v && (v->k == MVal::STR || v->k == MVal::INT) && g.below(3)) { t += "[xXx @" + nm + " xXx]\n"; continue; }
			if (!plain(nm)) { t += "plain text\n"; continue; }
			if (v && v->k == MVal::ARR && g.flip() && std::all_of(v->items.begin(), v->items.end(), [](const MVal &m) { return m.k != MVal::SUB; })) { t += "xXx LOOP probe " + nm + " xXx<xXx @probe xXx>xXx BBL xXx\n"; continue; }
			t += std::string("xXx UNLESS ") + (g.flip() ? "NOT " : "") + "@" + nm + " xXxyesxXx ENDLESS xXx\n";
		}
		Model m; std::string want = m.render(part, t), got = render(x, t); probes++;
		c.show("; with %zu bindings %s", part.vals.size(), quote(t, 300).c_str());
		if (got != want) fail("after %zu bindings %s renders as %s, expected %s", part.vals.size(), quote(t).c_str(), quote(got).c_str(), quote(want).c_str());
	};
	if (!full.vals.empty()) for (auto &v : full.vals) {
		MCtx one; one.vals.push_back(v); one.late = full.late;
		if (v.second.k == MVal::ARR) {
			Exact nm(v.first, true); void *a = sh_add_array(x, nm.p); CHECK(a, "adding an array failed"); part.vals.push_back({v.first, MVal()}); part.vals.back().second.k = MVal::ARR; probe();
			for (auto &i : v.second.items) { add_item(a, i); part.vals.back().second.items.push_back(i); if (g.flip()) probe(); }
			sh_handle_free(a);
		} else { fill(x, one); part.vals.push_back(v); }
		probe();
	}
	sh_ctx_free(x); if (probes) c.label("rendered while the context grows");
}
static void cover(Ctx &c, const Spec &s, const Out &o) {
	auto has = [&](const char *m) { if (s.tmpl.find(m) != std::string::npos) return true; for (auto &f : s.files) if (f.second.find(m) != std::string::npos) return true; return false; };
	if (has("xXx @")) c.label("variables"); if (has("xXx LOOP")) c.label("loops"); if (has("UNLESS @")) c.label("UNLESS"); if (has("UNLESS NOT")) c.label("UNLESS NOT"); if (has("XxX ")) c.label("filters"); if (has("SCREAM")) c.label("includes");
	if (!o.m.dotted_seen.empty()) c.label("conditions on members"); if (o.want.size() > 4096) c.label("output over 4 KiB");
}

// --- C15 ----------------------------------------------------------------------------------------------
static void syntax_known() {
	void *c = sh_ctx_new(); sh_add_string(c, "a", "xXx @b xXx"); sh_add_string(c, "b", "B"); std::string r = render(c, "[xXx @a xXx]"); sh_ctx_free(c);
	CHECK(r == "[xXx @b xXx]", "the value \"xXx @b xXx\" is rendered as %s", quote(r).c_str());
}
static void variables_prop(Gen &g, Ctx &c) {
	Spec s; Opt o; o.refs = 6; o.lines = g.below(20) == 19 ? 60 : 6; o.names = g.below(15) == 14 ? (g.below(8) == 7 ? 1000 : 200) : 8; o.max_val = g.below(4) == 3 ? 600 : 30; o.nearmiss = g.below(3) == 2;
	bool nest = g.below(12) == 11; if (nest) { o.loops = o.conds = o.includes = true; o.nearmiss = false; o.lines = 4; o.max_val = 30; o.names = 8; o.items = 2; }
	if (nest) { context(g, s, o); make_files(g, s, o); write_files(s); } else if (g.below(8)) { context(g, s, o); } else o.refs = 0;
	bool fresh; if (o.refs == 0) s.env.strs.clear();
	s.tmpl = body(g, s.env, o, fresh); if (g.below(6) == 5 && !nest) s.tmpl += safe(g.bytes(g.size(0, 5000), 3)) + (g.flip() ? "\n" : "");
	if (nest && !fresh) s.tmpl += "\n";
	if (g.below(800) == 799) { // a long line, with references here and there, most of all around powers of two
		size_t want = ((size_t)1 << (9 + g.below(9))) - 40 + g.below(60); std::string l, words = g.text(200, LETTERS + "    .");
		while (l.size() < want) { if (l.size() + 500 < want && !s.env.strs.empty() && g.below(60) == 59) l += ref(g, s.env); l += words.substr(0, want - l.size()); }
		for (int i = 0; i < 4; i++) l += g.text(g.below(4), LETTERS + " ") + (s.env.strs.empty() ? "" : ref(g, s.env));
		s.tmpl += l + (g.flip() ? "\n" : ""); c.label("a long line");
	}
	std::vector<std::string> nm; for (auto &v : s.ctx.vals) nm.push_back(v.first); std::sort(nm.begin(), nm.end());
	bool shuffle = nm.size() > 1 && nm.size() < 40 && std::adjacent_find(nm.begin(), nm.end()) == nm.end() && g.below(5) == 4;
	if (shuffle && g.flip()) recycle(true);
	describe(c, s); Out r = compare(s);
	if (shuffle) { // the same bindings in another order, in a context that may be where the first one was
		for (int k = 0; k < 2; k++) {
			for (size_t i = s.ctx.vals.size(); --i > 0;) std::swap(s.ctx.vals[i], s.ctx.vals[g.below((uint32_t)i + 1)]);
			Out q = compare(s); CHECK(q.want == r.want, "model");
		}
		recycle(false); c.label("the same bindings in other orders");
	}
	if (o.refs == 0) { CHECK(r.want == s.tmpl, "model"); c.label("no references"); }
	c.nontrivial = s.tmpl.size() > 3 && (o.refs == 0 || s.tmpl.find("xXx @") != std::string::npos); cover(c, s, r);
	if (s.ctx.vals.size() > 32) c.label("over 32 bindings");
	if (g.below(10) == 9 && s.ctx.vals.size() < 40) grow(g, c, s.ctx);
}
// The body of a block, of many lines and over 64 KiB long.
static std::string long_body(Gen &g, const Env &e) {
	std::string b, w; for (int i = 0; i < 5; i++) { w += g.text(1 + g.below(300), LETTERS + "0123456789 .,<>/"); w += g.flip() ? "\n" : " "; }
	size_t want = 65536 - 100 + g.below(g.flip() ? 200 : 40000), k = 0;
	while (b.size() + w.size() + 80 < want) { b += w; if (++k % 16 == 0 && !e.strs.empty()) b += ref(g, e); }
	return b + std::string(want - b.size(), '-') + g.text(4, LETTERS) + (g.flip() ? "\n" : "");
}
// --- C16 ----------------------------------------------------------------------------------------------
// A loop over thousands of items; its text is computed here.
static void many_items(Gen &g, Ctx &c) {
	size_t n = g.flip() ? 4097 + g.below(8000) : g.pick(std::vector<size_t>{2048, 4096, 8192, 10000}) - 2 + g.below(4); bool ints = g.flip(); std::string pre = literal(g, 6), post = literal(g, 3), want = "[";
	void *x = sh_ctx_new(); CHECK(x, "no context"); void *a = sh_add_array(x, Exact("many", true).p); CHECK(a, "adding an array failed");
	std::string t = "[xXx LOOP i many xXx" + pre + "xXx @i xXx" + post + "xXx BBL xXx]"; t = t.substr(1); want.clear();
	for (size_t i = 0; i < n; i++) {
		MVal v; if (ints) { v.k = MVal::INT; v.i = (int)(i * 7919 - n); } else v.s = "v" + std::to_string(i); add_item(a, v);
		want += pre + v.text() + post;
	}
	sh_handle_free(a); want += "]"; c.label("thousands of items"); c.show("a loop over %zu items; then ", n);
	std::string got = render(x, t); sh_ctx_free(x); diff(got, want);
}
static void loops_prop(Gen &g, Ctx &c) {
	Spec s; Opt o; o.loops = true; o.lines = g.below(15) == 14 ? 25 : 5; o.items = g.below(50) == 49 ? 60 : 5; o.conds = g.below(4) == 3; o.max_val = g.below(6) == 5 ? 500 : 20;
	context(g, s, o); bool fresh;
	s.tmpl = body(g, s.env, o, fresh);
	if (s.tmpl.find("xXx LOOP") == std::string::npos && !s.env.arrays.empty()) { Opt p = o; p.conds = false; s.tmpl += (fresh ? "" : "\n") + block(g, s.env, p); }
	if (g.below(250) == 249) { // many items
		MVal v; v.k = MVal::ARR; size_t k = g.pick(std::vector<size_t>{128, 256, 512, 1024}) - 3 + g.below(8); bool subs = g.below(4) == 3; Opt q; q.max_val = 6;
		for (size_t i = 0; i < k; i++) { MVal it; if (subs) { it.k = MVal::SUB; it.sub = std::make_shared<MCtx>(); it.sub->vals.push_back({"m", scalar(g, q)}); } else it = scalar(g, q); v.items.push_back(it); }
		s.ctx.vals.insert(s.ctx.vals.begin() + g.below((uint32_t)s.ctx.vals.size() + 1), {"many_items", v});
		if (!s.tmpl.empty() && s.tmpl.back() != '\n') s.tmpl += "\n";
		s.tmpl += "xXx LOOP q many_items xXx" + literal(g, 5) + (subs ? "xXx @q.m xXx" : "xXx @q xXx") + "," + (g.flip() ? "\n" : "") + "xXx BBL xXx\n"; c.label("over 100 items");
	}
	if (g.below(4000) == 3999) { // a body over 64 KiB
		if (!s.tmpl.empty() && s.tmpl.back() != '\n') s.tmpl += "\n";
		std::string one = g.text(3, NAMECH) + "_few"; MVal v; v.k = MVal::ARR; for (size_t i = g.below(3); i < 3; i++) v.items.push_back(scalar(g, o)); s.ctx.vals.insert(s.ctx.vals.begin(), {one, v});
		s.tmpl += "xXx LOOP loopvar_w " + one + " xXx" + long_body(g, s.env) + "xXx BBL xXx" + literal(g, 10); c.label("a body over 64 KiB"); c.keep = false;
	}
	if (g.below(5000) == 4999) many_items(g, c);
	describe(c, s); Out r = compare(s);
	c.nontrivial = s.tmpl.find("xXx LOOP") != std::string::npos; cover(c, s, r);
	if (g.below(8) == 7) grow(g, c, s.ctx);
	size_t n = 0; for (size_t p = 0; (p = s.tmpl.find("xXx LOOP", p)) != std::string::npos; p++) n++; if (n > 1) c.label("several loops");
	for (auto &v : s.ctx.vals) if (v.second.k == MVal::ARR) { if (v.second.items.empty()) c.label("an empty array"); if (v.second.items.size() > 16) c.label("over 16 items"); }
}
// --- C17 ----------------------------------------------------------------------------------------------
static void conds_prop(Gen &g, Ctx &c) {
	Spec s; Opt o; o.conds = true; o.loops = g.flip(); o.includes = g.below(3) == 2; o.lines = g.below(15) == 14 ? 25 : 5; o.filters = g.below(5) == 4;
	context(g, s, o); if (o.includes) { make_files(g, s, o); write_files(s); } bool fresh;
	s.tmpl = body(g, s.env, o, fresh);
	if (s.tmpl.find("xXx UNLESS") == std::string::npos) { Opt p = o; p.loops = false; s.tmpl += (fresh ? "" : "\n") + block(g, s.env, p); }
	if (g.below(1200) == 1199) { // a body over 64 KiB
		if (!s.tmpl.empty() && s.tmpl.back() != '\n') s.tmpl += "\n";
		s.tmpl += std::string("xXx UNLESS ") + (g.flip() ? "NOT " : "") + "@" + g.pick(s.env.conds) + " xXx" + long_body(g, s.env) + "xXx ENDLESS xXx" + literal(g, 10); c.label("a body over 64 KiB"); c.keep = false;
	}
	describe(c, s); Out r = compare(s);
	c.nontrivial = s.tmpl.find("xXx UNLESS") != std::string::npos; cover(c, s, r);
	if (g.below(8) == 7) grow(g, c, s.ctx);
}
// --- C18 ----------------------------------------------------------------------------------------------
static void filters_prop(Gen &g, Ctx &c) {
	Spec s; Opt o; o.filters = true; o.loops = g.below(3) == 2; o.conds = g.below(6) == 5; o.includes = g.below(8) == 7; o.lines = g.below(15) == 14 ? 25 : 4;
	context(g, s, o); if (o.includes) { make_files(g, s, o); write_files(s); } bool fresh;
	s.tmpl = body(g, s.env, o, fresh);
	if (g.below(1500) == 1499 && !s.env.filters.empty()) { // an argument, and thus a result, over 64 KiB
		if (!fresh) s.tmpl += "\n"; std::string w = g.text(1 + g.below(300), LETTERS + " ."), a; size_t want = 65000 + g.below(30000); while (a.size() < want) a += w;
		s.tmpl += literal(g, 10) + "XxX " + g.pick(s.env.filters) + " a" + a + " XxX" + literal(g, 10) + "XxX " + g.pick(s.env.filters) + " b XxX" + (g.flip() ? "\n" : ""); c.label("an argument over 64 KiB"); c.keep = false;
	}
	describe(c, s); Out r = compare(s);
	c.nontrivial = !r.m.log.empty(); cover(c, s, r); if (r.m.log.size() > 1) c.label("several calls"); for (auto &l : r.m.log) if (!l.has_arg) { c.label("a call without an argument"); break; }
}
// --- C19 ----------------------------------------------------------------------------------------------
static void includes_prop(Gen &g, Ctx &c) {
	Spec s; Opt o; o.includes = true; o.loops = g.flip(); o.conds = g.flip(); o.filters = g.flip(); o.lines = 4; o.items = 4;
	context(g, s, o); make_files(g, s, o); write_files(s); bool fresh;
	s.tmpl = body(g, s.env, o, fresh);
	if (s.tmpl.find("SCREAM") == std::string::npos) { if (!fresh) s.tmpl += "\n"; s.tmpl += "xXx SCREAM " + g.pick(s.env.files) + " xXx" + (g.flip() ? "\n" : ""); }
	describe(c, s); Out r = compare(s);
	if (g.below(3) == 2) { // the files of the second rendering
		for (auto &f : s.files) switch (g.below(4)) {
		case 1: f.second = literal(g, 30) + "\n" + f.second; break;
		case 2: f.second = literal(g, 30) + (g.flip() ? "\n" : ""); break;
		case 3: f.second += std::string(f.second.empty() || f.second.back() == '\n' ? "" : "\n") + literal(g, 30); break;
		}
		bool by_rename = g.flip(); for (auto &f : s.files) if (by_rename) unlink(f.first.c_str());
		write_files(s); c.show("; then"); describe(c, s); compare(s); c.label("files that changed between two renderings");
	}
	size_t big = 0, nested = 0; for (auto &f : s.files) { big = std::max(big, f.second.size()); nested += f.second.find("SCREAM") != std::string::npos; if (f.second.size() && f.second.size() % 2048 == 0) c.label("a file that is a multiple of 2048 bytes long"); if (f.second.empty()) c.label("an empty file"); }
	if (s.tmpl.find("SCREAM item.html") != std::string::npos) c.label("an included file refers to the loop's item");
	c.nontrivial = !r.want.empty(); cover(c, s, r); if (nested) c.label("nested includes"); if (big > 2048) c.label("a file over 2 KiB");
}
// --- C20 ----------------------------------------------------------------------------------------------
static void purity_prop(Gen &g, Ctx &c) {
	Spec s; Opt o; o.loops = g.below(3) != 0; o.conds = g.flip(); o.filters = g.flip(); o.includes = g.below(3) == 2; o.lines = g.below(15) == 14 ? 20 : 4; o.nearmiss = !o.loops && !o.conds && g.flip(); o.max_val = g.below(5) == 4 ? 600 : 30;
	context(g, s, o); if (o.includes) { make_files(g, s, o); write_files(s); } bool fresh;
	s.tmpl = body(g, s.env, o, fresh);
	if (g.below(60) == 59) { // an array of many sub-contexts that nothing refers to
		MVal v; v.k = MVal::ARR; size_t k = g.below(3) ? 250 + g.below(20) : 300 + g.below(800); for (size_t i = 0; i < k; i++) { MVal it; it.k = MVal::SUB; it.sub = std::make_shared<MCtx>(); if (g.flip()) it.sub->vals.push_back({"m", scalar(g, o)}); v.items.push_back(it); }
		s.ctx.vals.push_back({"unused_1_array", v}); c.label("over 250 sub-contexts");
	}
	if (g.below(4) == 3 && !s.tmpl.empty()) { // the template ends anywhere: in a name, a marker, a block
		size_t k = g.below((uint32_t)s.tmpl.size() + 1); std::string cut = s.tmpl.substr(0, k); Spec t = s; t.tmpl = cut;
		try { Model m; m.files = s.files; m.render(t.ctx, cut); if (m.dotted_seen.empty()) { s.tmpl = cut; c.label("a truncated template"); } } catch (std::exception &) {} // cutting a block may leave references to what it bound
	}
	if (g.below(40) == 39) { // a condition on an unbound dotted name of any length
		auto part = [&] { return g.text(g.size(1, 1500), NAMECH); };
		if (!s.tmpl.empty() && s.tmpl.back() != '\n') s.tmpl += "\n";
		s.tmpl += std::string("xXx UNLESS ") + (g.flip() ? "NOT " : "") + "@" + part() + "." + part() + " xXx" + literal(g, 10) + "xXx ENDLESS xXx"; c.label("a condition on a long dotted name");
	}
	std::string other; int times = 2 + g.below(3); Spec s2; bool second = g.below(4) == 3;
	if (second) { Opt p; p.loops = true; context(g, s2, p); bool f2; s2.tmpl = body(g, s2.env, p, f2); }
	std::string want, want2; bool sure, sure2 = false; // what it renders to, unless there are conditions on members
	{ Model m; m.files = s.files; want = m.render(s.ctx, s.tmpl); sure = m.dotted_seen.empty(); }
	if (second) { Model m; want2 = m.render(s2.ctx, s2.tmpl); sure2 = m.dotted_seen.empty(); }
	describe(c, s); c.show("; %d times", times);
	size_t out = 0;
	auto run = [&] {
		filters_reset();
		void *x = build(s.ctx), *y = second ? build(s2.ctx) : nullptr; std::string first, o2;
		for (int i = 0; i < times; i++) {
			std::string r = render(x, s.tmpl); if (i == 0) { first = r; if (sure) diff(r, want); } else if (r != first) { fail("rendering %d gives %s, the first one gave %s", i + 1, quote(r, 400).c_str(), quote(first, 400).c_str()); }
			if (y) { std::string q = render(y, s2.tmpl); if (i == 0) { o2 = q; if (sure2) diff(q, want2); } else CHECK(q == o2, "rendering %d of another template gives %s, the first one gave %s", i + 1, quote(q, 400).c_str(), quote(o2, 400).c_str()); }
		}
		out = first.size(); sh_ctx_free(x); if (y) sh_ctx_free(y);
		filters_done();
	};
	check_no_leak("rendering and freeing the context", run);
	c.nontrivial = s.tmpl.size() > 3; Out dummy; dummy.want.resize(out); cover(c, s, dummy); if (second) c.label("another context in between");
}
// --- C21 ----------------------------------------------------------------------------------------------
static void values_prop(Gen &g, Ctx &c) {
	Spec s; Opt o; o.any_value = true; o.max_val = 700; s.ctx.late = g.flip(); bool long_ = false, neg = false;
	size_t n = g.below(12) == 11 ? g.size(20, 300) : 1 + g.below(8); std::vector<std::string> arrs, all;
	for (size_t i = 0; i < n; i++) {
		std::string nm = name(g, all, true); if (std::find(all.begin(), all.end(), nm) != all.end()) nm = (nm + "_" + std::to_string(i)).substr(0, 31); if (std::find(all.begin(), all.end(), nm) != all.end()) continue;
		all.push_back(nm); MVal v;
		switch (g.weighted({4, 2, 2, 1})) {
		case 0: v.s = safe(g.bytes(g.size(0, 1200), g.pick(std::vector<int>{3, 3, 1}))); long_ |= v.s.size() > 512; s.tmpl += "[xXx @" + nm + " xXx]\n"; break;
		case 1: v.k = MVal::INT; v.i = integer(g); neg |= v.i < 0; s.tmpl += "xXx @" + nm + " xXx,"; break;
		case 2: { v.k = MVal::ARR; nm = name(g, arrs, false); if (!plain(nm) || nm.size() > 31) nm = g.text(1 + g.below(31), NAMECH); arrs.push_back(nm); if (std::find(all.begin(), all.end(), nm) != all.end()) continue; all.back() = nm; size_t k = g.below(10) == 9 ? g.size(0, 200) : g.below(6);
			for (size_t j = 0; j < k; j++) { MVal it; if (g.flip()) { it.k = MVal::INT; it.i = integer(g); } else { it.s = safe(g.bytes(g.size(0, k > 20 ? 40 : 1200), 3)); long_ |= it.s.size() > 512; } v.items.push_back(it); }
			if (!s.tmpl.empty() && s.tmpl.back() != '\n') s.tmpl += "\n"; s.tmpl += "xXx LOOP it " + nm + " xXx<xXx @it xXx>xXx BBL xXx\n"; break; }
		default: { v.k = MVal::SUB; v.sub = std::make_shared<MCtx>(); v.sub->late = g.flip(); size_t k = 1 + g.below(4); std::vector<std::string> ms;
			for (size_t j = 0; j < k; j++) { std::string m = name(g, ms, true); if (std::find(ms.begin(), ms.end(), m) != ms.end()) continue; ms.push_back(m); MVal it; if (g.flip()) { it.k = MVal::INT; it.i = integer(g); } else { it.s = safe(g.bytes(g.size(0, 1200), 3)); long_ |= it.s.size() > 512; } v.sub->vals.push_back({m, it}); s.tmpl += "(xXx @" + nm + "." + m + " xXx)"; }
			s.tmpl += "\n"; }
		}
		s.ctx.vals.push_back({nm, v});
	}
	describe(c, s); Out r = compare(s); c.nontrivial = !s.ctx.vals.empty(); if (long_) c.label("over 512 bytes"); if (neg) c.label("negative integers"); if (n > 32) c.label("over 32 bindings"); cover(c, s, r);
	if (g.below(5) == 4) grow(g, c, s.ctx);
	for (auto &v : s.ctx.vals) if (v.second.items.size() > 16) c.label("over 16 items");
}

static int reg = [] {
	Prop p; std::vector<std::string> as{"values and literal text do not form template syntax (known finding)", "names have at most 31 characters", "templates contain no NUL bytes"};
	auto mk = [&](const char *id, const char *rule, uint64_t q, uint64_t t, void (*f)(Gen &, Ctx &)) { p = Prop(); p.id = id; p.rule = rule; p.quick = q; p.thorough = t; p.run = [f](Gen &g, Ctx &c) { try { f(g, c); } catch (std::length_error &) { c.label("discarded: too big"); filters_reset(); } }; p.assumptions = as; };
	mk("C15", "random templates of literal text, near misses of directives and references, against a text-level reference renderer; non-trivial: a reference, or at least four bytes without one", 150000, 6000000, variables_prop); p.known = {{"value-syntax", syntax_known}}; add(p);
	mk("C16", "random loops over random arrays, with shadowing and conditions in the body, against the reference renderer; non-trivial: the template has a loop", 60000, 2400000, loops_prop); p.assumptions.push_back("no loop inside a loop of the same text"); add(p);
	mk("C17", "random conditions of both forms on bound and unbound names, with loops and includes in the body, against the reference renderer; non-trivial: the template has a condition", 25000, 1000000, conds_prop); p.assumptions.push_back("conditions on members of sub-contexts: exactly one form renders"); add(p);
	mk("C18", "random filter calls; text, calls with their arguments and clean-ups against the reference renderer; non-trivial: a filter is called", 50000, 2000000, filters_prop); add(p);
	mk("C19", "random trees of included files against the reference renderer; non-trivial: the output is not empty", 25000, 1000000, includes_prop); add(p);
	mk("C20", "random templates, also cut off anywhere, rendered several times from exact-size buffers, then freed; texts and heap are compared; non-trivial: at least four bytes", 14000, 560000, purity_prop); add(p);
	mk("C21", "random values, names and integers, rendered through references, loops and members, against the reference renderer; non-trivial: at least one value", 40000, 1600000, values_prop); add(p);
	return 0;
}();
