#include "tmodel.hpp"
#include <algorithm>
#include <cstring>
#include <stdexcept>

static bool ws(char c) { return c == ' ' || (c >= '\t' && c <= '\r'); }
static bool loop_char(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_'; }
static bool name_char(char c) { return loop_char(c) || (c >= '0' && c <= '9'); }
[[noreturn]] static void bad(const std::string &s) { throw std::runtime_error("the generated template is invalid: " + s); }

std::string MVal::text() const {
	if (k == INT) return std::to_string(i);
	if (k != STR) bad("not a string");
	return s.substr(0, std::min<size_t>(512, strlen(s.c_str())));
}
const MVal *MCtx::find(const std::string &n) const {
	for (const MCtx *c = this; c; c = c->parent) for (auto &v : c->vals) if (v.first == n) return &v.second;
	return nullptr;
}
int MCtx::filter(const std::string &n) const {
	for (const MCtx *c = this; c; c = c->parent) for (auto &v : c->filters) if (v.first == n) return v.second;
	return -1;
}
std::string filter_result(int k, const char *arg) {
	std::string a = arg ? arg : "";
	switch (k) {
	case 0: return arg ? "<" + a + ">" : "<no argument>";
	case 1: return "constant";
	case 2: return "";
	case 3: return std::string(600, '-') + a + a + a;
	case 4: return "100%s %d %%";
	default: for (auto &c : a) c = (char)toupper((unsigned char)c); return arg ? a : "NONE";
	}
}

// Does t at p read lit?
static bool at(const std::string &t, size_t p, const char *lit) { return t.compare(p, strlen(lit), lit) == 0; }
static size_t word(const std::string &t, size_t p, bool (*f)(char)) { while (p < t.size() && f(t[p])) p++; return p; }
static bool cond_char(char c) { return loop_char(c) || c == '.'; }

bool Model::unless(const MCtx &c, const std::string &n) {
	size_t dot = n.find('.');
	if (dot == std::string::npos) {
		const MVal *v = c.find(n);
		if (!v) return true;
		switch (v->k) {
		case MVal::STR: return v->text().empty() || v->text() == "FALSE";
		case MVal::INT: return false;
		case MVal::ARR: return v->items.empty();
		default: return false;
		}
	}
	dotted_seen.insert(n);
	return dotted.count(n) && dotted.at(n);
}

std::string Model::render(const MCtx &c, const std::string &t) {
	std::string out; size_t p = 0;
	if (++renders > 1500) throw std::length_error("the generated template renders too many pieces");
	while (p < t.size()) {
		if (++steps > 20000 || out.size() > 500000) throw std::length_error("the generated template is too big");
		size_t q = p; while (q < t.size() && ws(t[q])) q++;
		if (at(t, q, "xXx LOOP ")) {
			size_t a = q + 9, b = word(t, a, loop_char);
			if (b > a && b < t.size() && t[b] == ' ') {
				size_t d = b + 1, e = word(t, d, loop_char), end;
				if (e > d && at(t, e, " xXx") && (end = t.find("xXx BBL xXx", e + 4)) != std::string::npos) {
					std::string name = t.substr(a, b - a), meat = t.substr(e + 4, end - e - 4);
					const MVal *arr = c.find(t.substr(d, e - d));
					if (!arr || arr->k != MVal::ARR) bad("loop over " + t.substr(d, e - d));
					if (!meat.empty() && meat.back() == '\n') meat.pop_back();
					for (auto &item : arr->items) { MCtx child; child.parent = &c; child.vals.push_back({name, item}); out += render(child, meat); }
					p = end + 11; continue;
				}
			}
		}
		bool matched = false;
		for (bool negated : {true, false}) {
			const char *head = negated ? "xXx UNLESS NOT @" : "xXx UNLESS @";
			if (!at(t, q, head)) continue;
			size_t a = q + strlen(head), b = word(t, a, cond_char), end;
			if (b == a || !at(t, b, " xXx") || (end = t.find("xXx ENDLESS xXx", b + 4)) == std::string::npos) continue;
			std::string meat = t.substr(b + 4, end - b - 4);
			if (unless(c, t.substr(a, b - a)) != negated) {
				if (negated && !meat.empty() && meat.back() == '\n') meat.pop_back();
				out += render(c, meat);
			}
			p = end + 15; matched = true; break;
		}
		if (matched) continue;
		size_t e = t.find_first_of("\n\r", p); e = e == std::string::npos ? t.size() : e + 1;
		out += line(c, t.substr(p, e - p)); p = e;
	}
	return out;
}

std::string Model::line(const MCtx &c, std::string l) {
	// Variables, members of sub-contexts first.
	for (bool dotted_name : {true, false}) {
		std::string o; size_t p = 0;
		for (;;) {
			size_t s = l.find("xXx @", p);
			if (s == std::string::npos) { o += l.substr(p); break; }
			size_t a = s + 5, b = word(l, a, name_char), e = b; std::string value; bool hit = false;
			if (b > a && dotted_name && b < l.size() && l[b] == '.') {
				size_t d = b + 1; e = word(l, d, name_char);
				if (e > d && at(l, e, " xXx")) {
					const MVal *v = c.find(l.substr(a, b - a)); if (!v || v->k != MVal::SUB) bad("no sub-context " + l.substr(a, b - a));
					const MVal *m = nullptr; for (auto &x : v->sub->vals) if (x.first == l.substr(d, e - d)) { m = &x.second; break; }
					if (!m) bad("no member " + l.substr(a, e - a));
					value = m->text(); hit = true;
				}
			} else if (b > a && !dotted_name && at(l, b, " xXx")) {
				const MVal *v = c.find(l.substr(a, b - a)); if (!v) bad("no variable " + l.substr(a, b - a));
				value = v->text(); hit = true;
			}
			if (!hit) { o += l.substr(p, s + 1 - p); p = s + 1; continue; }
			o += l.substr(p, s - p) + value; p = e + 4;
		}
		l = o;
	}
	// An include replaces its whole line.
	size_t q = 0; while (q < l.size() && ws(l[q])) q++;
	if (at(l, q, "xXx SCREAM ")) {
		size_t a = q + 11, b = a; while (b < l.size() && (loop_char(l[b]) || l[b] == '.' || l[b] == '/')) b++;
		if (b > a && at(l, b, " xXx")) {
			auto f = files.find(l.substr(a, b - a)); if (f == files.end()) bad("no file " + l.substr(a, b - a));
			std::string content = f->second; if (!content.empty() && content.back() == '\n') content.pop_back();
			l = render(c, content);
		}
	}
	// Filters, left to right.
	std::string o; size_t p = 0;
	for (;;) {
		size_t s = l.find("XxX ", p);
		if (s == std::string::npos) { o += l.substr(p); break; }
		size_t a = s + 4, b = word(l, a, name_char), e = l.find(" XxX", b);
		if (b == a || e == std::string::npos || !(e == b || ws(l[b]))) { o += l.substr(p, s + 1 - p); p = s + 1; continue; }
		int k = c.filter(l.substr(a, b - a)); if (k < 0) bad("no filter " + l.substr(a, b - a));
		std::string arg = l.substr(b, e - b); bool has = e > b; size_t z = 0; while (z < arg.size() && ws(arg[z])) z++; arg.erase(0, z);
		log.push_back({k, has, arg});
		o += l.substr(p, s - p) + filter_result(k, has ? arg.c_str() : nullptr); p = e + 4;
	}
	return o;
}
