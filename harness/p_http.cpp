// C02 routing, C03 responses, C04 ranges, C05 segmentation, C06 hostile input, C07 resources, C14 files.
#include "exchange.hpp"
#include "wraps.hpp"
#include <cstdio>
#include <ctime>
#include <cstdlib>
#include <cstring>
#include <strings.h>
#include <memory>
#include <stdexcept>
#include <algorithm>
#include <regex.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/resource.h>
using namespace pbt;

static const std::string ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static const std::string TOKEN = ALNUM + "-_.";
static std::string lower(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
struct App {
	void *a;
	App(const std::vector<sh_route> &r) : a(sh_app_new(r.data(), (int)r.size())) {}
	~App() { sh_app_free(a); }
	operator void *() { return a; }
};
// One app for all the cases of a process, so that what a request leaves behind in it can show in the next.
struct Fixed {
	std::map<std::string, void *> apps;
	void *operator()(const std::string &key, const std::vector<sh_route> &r) { void *&a = apps[key]; if (!a) a = sh_app_new(r.data(), (int)r.size()); return a; }
};
static Fixed fixed;
static char *heap_copy(const std::string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return p; }
static Plan whole(const std::string &request) { Plan p; p.segs = {request}; return p; }
static std::string url_path(Gen &g) { return "/" + g.text(g.size(0, 40), TOKEN + "/"); }
static void write_file(const std::string &path, const std::string &s) {
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) throw std::runtime_error("cannot create " + path);
	size_t at = 0; while (at < s.size()) { ssize_t n = write(fd, s.data() + at, s.size() - at); if (n <= 0) { close(fd); throw std::runtime_error("cannot write " + path); } at += n; }
	close(fd);
}
static void write_sparse(const std::string &path, const std::string &s) { // blocks of zeros become holes
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) throw std::runtime_error("cannot create " + path);
	for (size_t at = 0; at < s.size(); at += 4096) {
		size_t n = std::min<size_t>(4096, s.size() - at);
		if (s.find_first_not_of('\0', at) >= at + n) continue;
		if (pwrite(fd, s.data() + at, n, at) != (ssize_t)n) { close(fd); throw std::runtime_error("cannot write " + path); }
	}
	if (ftruncate(fd, s.size())) { close(fd); throw std::runtime_error("cannot write " + path); }
	close(fd);
}
static std::vector<unsigned> send_sizes(Gen &g) {
	std::vector<unsigned> v;
	switch (g.weighted({4, 3, 1, 1, 1})) {
	case 0: break;
	case 4: v = {0u - (1 + g.below(8)), g.flip() ? 0u : 0u - (1 + g.below(3))}; break;
	case 1: { size_t n = 1 + g.below(6); for (size_t i = 0; i < n; i++) v.push_back(g.pick(std::vector<unsigned>{0, 1, 2, 100, 1000, 4095, 4096, 17, 333})); v.push_back(0); break; }
	case 2: v = {1 + g.below(4096)}; break;
	default: v = {1 + g.below(40), 0};
	}
	if (g.below(6) == 5) { v.push_back(0); v.insert(v.begin() + g.below((uint32_t)v.size() + 1), INTR); } // never the only one
	return v;
}

// --- C02 -----------------------------------------------------------------------------------------------
// A regular expression and a string it matches.
// A repeated group contains no repetition: glibc takes exponential time to find the groups otherwise.
struct Re { std::string re, sample; bool repeats = false; };
static const std::string RE_ALPHA = "ab/0";
static Re re_atom(Gen &g, int depth, int &groups);
static Re re_seq(Gen &g, int depth, int &groups) {
	Re r; size_t n = 1 + g.below(depth ? 3 : 4);
	for (size_t i = 0; i < n; i++) { Re x = re_atom(g, depth, groups); r.re += x.re; r.sample += x.sample; r.repeats |= x.repeats; }
	return r;
}
static Re re_atom(Gen &g, int depth, int &groups) {
	Re r; size_t k = g.weighted({6, 3, 2, (unsigned)(depth < 3 ? 4 : 0)});
	bool simple = true;
	if (k == 0) { char c = RE_ALPHA[g.below(4)]; r.re = r.sample = std::string(1, c); }
	else if (k == 1) { static const std::vector<std::pair<std::string, std::string>> cls{{"[ab]", "ab"}, {"[0-9]", "0123456789"}, {"[^/]", "ab09"}, {"[a-z]", "abz"}, {"[[:digit:]]", "0123"}}; auto &c = g.pick(cls); r.re = c.first; r.sample = std::string(1, c.second[g.below(c.second.size())]); }
	else if (k == 2) { r.re = "."; r.sample = std::string(1, RE_ALPHA[g.below(4)]); }
	else {
		groups++; Re x = re_seq(g, depth + 1, groups); r.repeats = x.repeats;
		if (g.below(3) == 2) { Re y = re_seq(g, depth + 1, groups); r.re = "(" + x.re + "|" + y.re + ")"; r.sample = g.flip() ? x.sample : y.sample; r.repeats = true; }
		else { r.re = "(" + x.re + ")"; r.sample = x.sample; }
		simple = false;
	}
	std::string one = r.sample;
	size_t rep = g.weighted({6, 2, 2, 2, 1});
	if (r.repeats && (rep == 1 || rep == 2)) rep = 3;
	if (rep) r.repeats = true;
	switch (rep) {
	case 1: { r.re += "*"; r.sample = ""; size_t n = g.below(4); for (size_t i = 0; i < n; i++) r.sample += one; break; }
	case 2: { r.re += "+"; size_t n = g.below(3); for (size_t i = 0; i < n; i++) r.sample += one; break; }
	case 3: r.re += "?"; if (g.flip()) r.sample = ""; break;
	case 4: if (simple) { r.re += "{2}"; r.sample += one; } break;
	}
	return r;
}
static void route_prop(Gen &g, Ctx &c) {
	static const std::vector<std::string> verbs{"GET", "POST", "PUT", "get", "GE", "GETX", "OPTIONS", "HEAD", "ABCDEFGHIJKLMNO"};
	size_t n = g.below(8) == 7 ? 10 + g.below(60) : g.below(11);
	bool many = g.below(300) == 299; if (many) { n = g.pick(std::vector<size_t>{128, 256, 512}) - 2 + g.below(20); c.label("over 120 routes"); c.keep = false; } // the verb of the last few occurs nowhere else
	struct R { std::string verb, re, sample; int expected; bool cleanup; int behave; int code; };
	std::vector<R> rs;
	for (size_t i = 0; i < n; i++) {
		R r; r.verb = g.below(3) ? verbs[g.below(3)] : g.pick(verbs); if (many) r.verb = i + 8 > n ? "PUT" : r.verb == "PUT" ? "GETX" : r.verb;
		int groups = 0; Re e;
		if (!rs.empty() && g.below(6) == 5) { const R &o = g.pick(rs); e.re = o.re; e.sample = o.sample; } // the same again
		else { e = re_seq(g, 0, groups); bool a = g.below(3) != 2, b = g.below(3) != 2; e.re = std::string(a ? "^" : "") + (g.below(4) ? "/" : "") + e.re + (b ? "$" : ""); e.sample = "/" + e.sample;
			switch (g.below(20)) { // an optional slash, alternatives, other first characters
			case 17: { size_t at = e.re[0] == '^'; if (e.re[at] != '/') break; e.re.insert(at + 1, "?"); if (g.flip()) e.sample.erase(0, 1); break; }
			case 18: { std::string o = g.text(1 + g.below(4), "*ab0."); std::string q; for (char ch : o) { if (ch == '*' || ch == '.') q += g.flip() ? std::string("\\") + ch : std::string("[") + ch + "]"; else q += ch; } e.re += "|^" + q + (g.flip() ? "$" : ""); if (g.flip()) e.sample = o; break; }
			case 19: e.sample.erase(0, 1); break;
			} }
		if (e.re.size() > 250) { e.re = "^/a$"; e.sample = "/a"; }
		r.re = e.re; r.sample = e.sample; r.expected = g.below(4); r.cleanup = g.flip();
		r.behave = g.weighted({6, 1, 1, 1, 1}); // 200, 404 without a body (two ways), 404 with a body, 500 with a body
		rs.push_back(r);
	}
	size_t requests = g.below(3) == 2 ? 2 + g.below(3) : 1;
	int h404 = g.weighted({3, 2, 3, 2}); // none, handler, handler + clean-up, clean-up set before the handler
	int b404 = g.weighted({5, 1, 1}); // its response: 404 with a body, 200 with a body, 404 without a body
	for (auto &r : rs) c.show("%s %s (%d groups, %s) | ", r.verb.c_str(), r.re.c_str(), r.expected, r.behave == 0 ? "200" : r.behave < 3 ? "empty 404" : r.behave == 3 ? "404" : "500");
	std::vector<sh_route> table;
	for (size_t i = 0; i < rs.size(); i++) {
		// There are 15 slots: with more routes, some share one; the expectation is per slot then.
		int slot = (int)(i % 15);
		table.push_back({rs[i].verb.c_str(), rs[i].re.c_str(), rs[i].expected, slot, rs[i].cleanup});
	}
	App app(table);
	if (h404) sh_app_404(app, 1, h404 == 2 ? 1 : h404 == 3 ? 2 : 0);
	std::string verb, path;
	for (size_t request = 0; request < requests; request++) {
	// Later requests often share the path or the verb with the one before.
	bool same_path = request && g.flip(), same_verb = request && g.flip();
	if (many && !same_verb) verb = g.below(4) ? "PUT" : g.pick(rs).verb;
	else if (!same_verb) verb = rs.empty() || g.below(4) == 3 ? g.pick(verbs) : g.pick(rs).verb;
	if (!same_path) {
	path = rs.empty() || g.below(5) == 4 ? "/" + g.text(g.size(0, 200), RE_ALPHA + "19z") : many && g.below(3) ? rs[rs.size() - 1 - g.below(9)].sample : g.pick(rs).sample;
	if (g.below(25) == 24) path = g.flip() ? "*" : g.text(1 + g.below(5), RE_ALPHA + "*.");
	if (path.empty() || path.size() > 500) path = "/a";
	if (g.below(10) == 9) for (size_t k = 1 + g.below(3); k; k--) path.insert(g.below(3) ? 1 + g.below((uint32_t)path.size()) : path.size(), 1, "?#%&=.;:+@~"[g.below(11)]);
	if (path[0] != '/') c.label("paths without a leading slash");
	if (g.below(10) == 9) { size_t k = 1 + g.below(3); for (auto &ch : path) if (islower((unsigned char)ch) && k && g.flip()) { ch = toupper(ch); k--; c.label("capital letters in the path"); } }
	if (g.below(8) == 7) path += g.text(1 + g.below(3), RE_ALPHA);
	if (g.below(8) == 7) { // long paths; what comes before or after does not matter to an expression without that anchor
		std::string extra = "/" + g.text(g.size(0, 506 - path.size()), g.flip() ? "ab0" : RE_ALPHA);
		if (extra.size() + path.size() > 508 || g.below(4) == 3) extra.resize(std::min(extra.size(), 508 - path.size()), 'a');
		path = g.flip() ? extra + path : path + extra;
		c.label(path.size() > 256 ? "paths over 256 bytes" : "extended paths");
	}
	if (g.below(8) == 7) { // a lone line feed or carriage return is an ordinary character
		size_t k = 1 + g.below(2); for (size_t i = 0; i < k; i++) { size_t at = 1 + g.below((uint32_t)path.size()); if (g.flip() || at == path.size()) path.insert(at, 1, "\n\r"[g.below(2)]); else path[at] = "\n\r"[g.below(2)]; }
		for (size_t at; (at = path.find("\r\n")) != std::string::npos;) path.erase(at, 1);
	}
	}
	c.show("request %s %s, 404 handler %d ", verb.c_str(), path.c_str(), h404);

	// What should happen.
	int want = -1; std::vector<std::vector<regmatch_t>> groups; // glibc may report other (equally valid) groups when asked for fewer
	for (size_t i = 0; i < rs.size() && want < 0; i++) {
		if (rs[i].verb != verb) continue;
		regex_t re; if (regcomp(&re, rs[i].re.c_str(), REG_EXTENDED)) throw std::runtime_error("generated a bad expression: " + rs[i].re);
		if (regexec(&re, path.c_str(), 0, nullptr, 0) == 0) {
			want = (int)i;
			for (int nm = rs[i].expected + 1; nm <= 4; nm++) { std::vector<regmatch_t> m(4); regexec(&re, path.c_str(), nm, m.data(), 0); groups.push_back(m); }
		}
		regfree(&re);
	}
	bool fallback = want < 0 || rs[want].behave == 1 || rs[want].behave == 2;
	reset_slots();
	int ran = -1, times = 0; // which route's handler ran
	static const std::string own404 = "own not found", custom404 = "custom not found";
	std::vector<std::string> bodies;
	for (size_t i = 0; i < rs.size(); i++) bodies.push_back("route " + std::to_string(i));
	for (int slot = 0; slot < 15; slot++) slots[slot].handle = [&, slot](const sh_view &v, const void *, void *resp) -> int {
		times++;
		CHECK(want >= 0, "the handler of slot %d ran, but no route qualifies for %s %s", slot, verb.c_str(), path.c_str());
		CHECK(want % 15 == slot, "route %d (mod 15) handled %s %s, the first that qualifies is route %d (%s %s)", slot, verb.c_str(), path.c_str(), want, rs[want].verb.c_str(), rs[want].re.c_str());
		ran = want;
		CHECK(v.verb == verb && v.resource == path, "the handler saw %s %s, the request was %s %s", quote(v.verb).c_str(), quote(v.resource).c_str(), verb.c_str(), path.c_str());
		if (rs[want].expected > 0) {
			bool ok = false; std::string got;
			for (auto &m : groups) { bool same = true; for (int k = 0; k <= rs[want].expected && k < v.max_matches; k++) same &= v.so[k] == m[k].rm_so && v.eo[k] == m[k].rm_eo; ok |= same; }
			for (int k = 0; k <= rs[want].expected && k < v.max_matches; k++) got += " [" + std::to_string(v.so[k]) + "," + std::to_string(v.eo[k]) + ") expected [" + std::to_string(groups[0][k].rm_so) + "," + std::to_string(groups[0][k].rm_eo) + ")";
			CHECK(ok, "the matches of %s on %s are%s", rs[want].re.c_str(), path.c_str(), got.c_str());
		}
		switch (rs[want].behave) {
		case 0: return sh_resp_raw(resp, bodies[want].data(), bodies[want].size());
		case 1: case 2: // whatever else it has set
			if (path.size() % 3 == 1) sh_resp_mime(resp, "text/plain"); if (path.size() % 4 == 2) sh_resp_header(resp, "X-Own", 5, "yes", 3);
			if (rs[want].behave == 2) sh_resp_raw(resp, "", 0);
			return 404;
		case 3: sh_resp_raw(resp, own404.data(), own404.size()); return 404;
		default: sh_resp_raw(resp, bodies[want].data(), bodies[want].size()); return 500;
		}
	};
	slots[SH_SLOT_404].handle = [&](const sh_view &v, const void *, void *resp) -> int {
		CHECK(v.verb == verb && v.resource == path, "the 404 handler saw %s %s, the request was %s %s", quote(v.verb).c_str(), quote(v.resource).c_str(), verb.c_str(), path.c_str());
		if (b404 < 2) sh_resp_raw(resp, custom404.data(), custom404.size());
		return b404 == 1 ? 200 : 404;
	};
	std::string rq = verb + " " + path + " HTTP/1.1\r\nHost: x\r\n\r\n";
	Reply rep = exchange(app, whole(rq));
	CHECK(rep.generated && rep.eof && !rep.stalled, "%s %s got no complete response", verb.c_str(), path.c_str());
	Response r = parse_response(rep.bytes, "routed request");
	CHECK(times == (want >= 0 ? 1 : 0), "%s %s: route handlers ran %d times", verb.c_str(), path.c_str(), times);
	std::string body; int code;
	if (!fallback) { code = rs[want].behave == 0 ? 200 : rs[want].behave == 3 ? 404 : 500; body = rs[want].behave == 3 ? own404 : bodies[want]; }
	else if (h404) { code = b404 == 1 ? 200 : 404; body = b404 == 2 ? "" : custom404; }
	else { code = 404; body = "(built in)"; }
	CHECK(r.code == code, "%s %s got status %d, expected %d", verb.c_str(), path.c_str(), r.code, code);
	if (fallback && !h404) CHECK(!r.body.empty() && r.body != own404 && r.body != custom404 && r.body.compare(0, 6, "route ") != 0, "%s %s: the built-in 404 page is %s", verb.c_str(), path.c_str(), quote(r.body).c_str());
	else CHECK(r.body == body, "%s %s got the body %s, expected %s", verb.c_str(), path.c_str(), quote(r.body).c_str(), quote(body).c_str());
	// Exactly the clean-up of the route that produced the response.
	std::vector<Call> want_calls, got_calls = calls;
	if (want >= 0) want_calls.push_back({false, want % 15, 0});
	if (fallback && h404) want_calls.push_back({false, SH_SLOT_404, 0});
	if (!fallback) { if (rs[want].cleanup) want_calls.push_back({true, want % 15, 0}); } else if (h404 >= 2) want_calls.push_back({true, SH_SLOT_404, 0});
	std::string w, got; auto put = [](std::string &o, const Call &k) { o += (k.cleanup ? "cleanup " : "handler ") + std::to_string(k.slot) + "; "; };
	for (auto &k : want_calls) put(w, k); for (auto &k : got_calls) put(got, k);
	CHECK(w == got, "%s %s: calls were [%s], expected [%s]", verb.c_str(), path.c_str(), got.c_str(), w.c_str());
	c.nontrivial = rs.size() >= 2;
	if (want > 0) c.label("a later route handles it"); if (want >= 0 && rs[want].expected > 0) c.label("match groups"); if (want < 0) c.label("no route"); if (fallback && h404) c.label("custom 404"); if (want >= 0 && fallback) c.label("handler leaves it to the 404 handler");
	}
	if (rs.size() > 15) c.label("over 15 routes"); if (requests > 1) c.label("several requests to one table");
}

// --- C03 -----------------------------------------------------------------------------------------------
static std::string mime(Gen &g) {
	static const std::vector<std::string> common{"text/html", "text/plain", "application/json", "image/svg+xml", "application/octet-stream"};
	switch (g.weighted({4, 2, 1})) { case 0: return g.pick(common); case 1: return g.text(g.size(1, 31), ALNUM + "/+-.;=%"); default: return g.text(31, ALNUM + "/%"); }
}
static std::string body_of(Gen &g, size_t max) {
	std::string b = g.bytes(g.size(0, max), g.pick(std::vector<int>{2, 2, 1, 3}));
	if (g.below(6) == 5) b += "\r\n\r\nHTTP/1.1 200 OK\r\nX-1: fake\r\n\r\n%s%zu";
	return b;
}
static void response_prop(Gen &g, Ctx &c) {
	int code = g.pick(std::vector<int>{200, 200, 200, 301, 302, 400, 403, 404, 500});
	std::string body = body_of(g, g.below(200) == 199 ? 3000000 : g.below(20) == 19 ? 300000 : 9000);
	if (code == 404 && body.empty()) body = "x";
	bool with_mime = g.below(4) != 3; std::string m = with_mime ? mime(g) : "";
	std::vector<std::pair<std::string, std::string>> hs;
	size_t n = g.below(12) == 11 ? g.size(0, 120) : g.below(6); if (g.below(400) == 399) n = g.pick(std::vector<size_t>{128, 256, 512, 1024}) - 2 + g.below(6);
	for (size_t i = 0; i < n; i++) {
		std::string nm = !hs.empty() && g.below(6) == 5 ? g.pick(hs).first : "X-" + g.text(g.size(1, 60), TOKEN), v;
		static const std::string VAL = ALNUM + " %sdn:;=/\"'\t\xc3\xbc\x01";
		v = g.text(g.size(0, g.below(8) == 7 && n < 130 ? 5000 : 50), VAL);
		hs.push_back({nm, v});
	}
	std::vector<unsigned> ss = send_sizes(g);
	if (ss.size() == 1 && body.size() > 20000) ss[0] += 500 + (unsigned)(body.size() / 200); // keep it quick
	reset_slots(); int cleaned = 0;
	char *out = nullptr;
	// Sometimes once more, with a response of a round size.
	bool twice = body.size() < 20000 && g.below(8) == 7; size_t total = twice ? ((size_t)1 << (8 + g.below(6))) * (1 + g.below(24)) + g.below(3) - 1 : 0;
	for (int round = 0; round < (twice ? 2 : 1); round++) {
	slots[0].handle = [&](const sh_view &, const void *, void *resp) {
		out = heap_copy(body);
		sh_resp_set(resp, out, body.size());
		if (with_mime) sh_resp_mime(resp, m.c_str());
		for (auto &h : hs) {
			bool longer = h.second.size() % 3 == 1; // a longer buffer of which only a part is the value
			Exact a(longer ? h.first + "junk" : h.first), b(longer ? h.second + "junk\r\n" : h.second);
			CHECK(sh_resp_header(resp, a.p, h.first.size(), b.p, h.second.size()) == 1, "adding a custom header failed");
		}
		return code;
	};
	slots[0].cleanup = [&](int, void *resp) { cleaned++; size_t k; CHECK(sh_resp_out(resp, &k) == out && k == body.size(), "the clean-up function got another body than the handler returned"); free(out); out = nullptr; };
	void *app = fixed("get", {{"GET", "", 0, 0, 1}});
	Plan pl = whole("GET " + url_path(g) + " HTTP/1.1\r\nHost: x\r\n\r\n");
	pl.send_sizes = ss; pl.small_buffers = g.below(5) == 4; if (g.below(4) == 3) pl.end = Plan::HALF_CLOSE;
	if (g.below(5000) == 4999) { pl.small_buffers = true; pl.pause = g.pick(std::vector<double>{1.3, 1.3, 2.6}); c.label("a slow reader"); c.keep = false; }
	c.show("code %d, %zu body bytes, mimetype %s, %zu custom headers, %zu-step write script", code, body.size(), quote(m).c_str(), hs.size(), ss.size());
	Reply rep = exchange(app, pl);
	free(out);
	CHECK(rep.generated && rep.eof && !rep.stalled, "no complete response arrived (code %d, %zu body bytes)", code, body.size());
	CHECK(!rep.fd_left_open, "the connection was not closed");
	Response r = parse_response(rep.bytes, "response");
	CHECK(r.code == code, "status is %d, the handler returned %d", r.code, code);
	std::string want_type = with_mime ? m : "text/html";
	CHECK(r.one("Content-Type") == want_type, "Content-Type is %s, expected %s", quote(r.one("Content-Type")).c_str(), quote(want_type).c_str());
	CHECK(r.one("Connection") == "close", "Connection is %s", r.one("Connection").c_str());
	CHECK(r.body == body, "the body differs: %s, expected %s", quote(r.body).c_str(), quote(body).c_str());
	size_t k = 0;
	for (auto &l : r.lines) if (l.compare(0, 2, "X-") == 0) {
		CHECK(k < hs.size(), "an extra custom header: %s", quote(l).c_str());
		CHECK(l == hs[k].first + ": " + hs[k].second, "custom header %zu is %s, expected %s", k, quote(l).c_str(), quote(hs[k].first + ": " + hs[k].second).c_str());
		k++;
	}
	CHECK(k == hs.size(), "%zu of %zu custom headers arrived", k, hs.size());
	CHECK(cleaned == 1, "the clean-up function ran %d times", cleaned); cleaned = 0;
	if (round || !twice) {
	c.nontrivial = !body.empty() && (hs.size() || rep.short_sends || body.size() > 4096 || code != 200);
	if (rep.short_sends) c.label("short writes"); if (hs.size() > 4) c.label(hs.size() > 120 ? "over 120 custom headers" : "over 4 custom headers"); if (body.empty()) c.label("empty body"); if (body.size() > 4096) c.label("body over 4 KiB"); if (body.size() > 100000) c.label("body over 100 KB"); if (!with_mime) c.label("no mimetype"); c.label("status " + std::to_string(code));
	if (round) c.label("a response of about " + std::string(total % 4096 < 2 || total % 4096 > 4094 ? "a multiple of 4096" : "a round number of") + " bytes");
	break;
	}
	size_t over = rep.bytes.size() - body.size() - std::to_string(body.size()).size();
	size_t n = total > over + 1 ? total - over - 1 : 1; while (n > 1 && n + std::to_string(n).size() + over > total) n--;
	std::string unit = body.empty() ? "x" : body; while (body.size() < n) body += unit.substr(0, n - body.size()); body.resize(n);
	if (ss.size() == 1 && body.size() > 20000) ss[0] += 500 + (unsigned)(body.size() / 200);
	}
}

// --- C04 -----------------------------------------------------------------------------------------------
static void range_known() {
	reset_slots();
	slots[0].handle = [&](const sh_view &, const void *, void *resp) { return sh_resp_raw(resp, "abcdef", 6); };
	App app({{"GET", "", 0, 0, 0}});
	Reply rep = exchange(app, whole("GET / HTTP/1.1\r\nRange: bytes=0-0\r\n\r\n"));
	Response r = parse_response(rep.bytes, "range");
	CHECK(r.code == 206 && r.body == "a" && r.one("Content-Range") == "bytes 0-0/6", "bytes=0-0 of abcdef gives %s", quote(rep.bytes).c_str());
}
// A file of a few gigabytes, most of it a hole, and a range with something in it.
static uint64_t huge_size(Gen &g) { return g.pick(std::vector<uint64_t>{1ull << 31, 1ull << 32, (1ull << 32) + (1ull << 31), 1ull << 33, 10000000000ull, 1ull << 36}) + g.below(9000); }
static uint64_t huge_offset(Gen &g, uint64_t size) {
	uint64_t a;
	switch (g.below(4)) {
	case 0: a = g.pick(std::vector<uint64_t>{1ull << 31, 1ull << 32, 1ull << 33, 1000000000ull, 10000000000ull}) + g.below(4) - 2; break;
	case 1: a = g.u64() % size; break;
	case 2: a = size - 1 - g.below(5000); break;
	default: a = g.below(5000);
	}
	return a < size ? a : size - 1;
}
static void write_windows(const std::string &path, uint64_t size, const std::map<uint64_t, std::string> &windows) {
	int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (fd < 0) throw std::runtime_error("cannot create " + path);
	bool ok = ftruncate(fd, size) == 0;
	for (auto &w : windows) ok = ok && pwrite(fd, w.second.data(), w.second.size(), w.first) == (ssize_t)w.second.size();
	close(fd);
	if (!ok) { unlink(path.c_str()); throw std::runtime_error("cannot write " + path); }
}
static void huge_range(Gen &g, Ctx &c) {
	uint64_t size = huge_size(g), a = huge_offset(g, size); size_t len = 1 + (g.below(5) == 4 ? (1 << 20) - 8 + g.size(0, 3 << 20) : g.size(0, 5000)); if (len > size - a) len = size - a;
	std::string part = g.bytes(len, 2); bool open_end = a + len == size && g.flip();
	if (a == 0 && len == 1) { a = 1; }
	std::string v = "bytes=" + std::to_string(a) + "-" + (open_end ? "" : std::to_string(a + len - 1 + (a + len == size ? g.below(3) : 0)));
	std::string path = scratch_dir() + "/huge";
	c.show("%s of a file of %llu bytes", v.c_str(), (unsigned long long)size); c.keep = false;
	write_windows(path, size, {{a, part}});
	reset_slots();
	slots[0].handle = [&](const sh_view &, const void *, void *resp) { return sh_resp_mmap(resp, path.c_str()); };
	slots[0].cleanup = [&](int st, void *resp) { sh_mmap_cleanup(st, resp); };
	Reply rep = exchange(fixed("get", {{"GET", "", 0, 0, 1}}), whole("GET / HTTP/1.1\r\nRange: " + v + "\r\n\r\n"));
	unlink(path.c_str());
	CHECK(rep.generated && rep.eof && !rep.stalled, "%s of %llu bytes: no complete response", v.c_str(), (unsigned long long)size);
	Response r = parse_response(rep.bytes, v.c_str());
	std::string w = "bytes " + std::to_string(a) + "-" + std::to_string(a + len - 1) + "/" + std::to_string(size);
	CHECK(r.code == 206 && r.one("Content-Range") == w, "%s of %llu bytes: status %d, Content-Range %s", v.c_str(), (unsigned long long)size, r.code, quote(r.one("Content-Range")).c_str());
	CHECK(r.body == part, "%s of %llu bytes: the body is %s, expected %s", v.c_str(), (unsigned long long)size, quote(r.body, 200).c_str(), quote(part, 200).c_str());
	c.nontrivial = true; c.label("a file of several gigabytes");
}
static void partial_prop(Gen &g, Ctx &c) {
	if (g.below(300) == 299) return huge_range(g, c);
	std::string body = body_of(g, g.below(40) == 39 ? 300000 : 5000);
	if (g.below(400) == 399) { body += g.bytes(g.pick(std::vector<size_t>{1 << 16, 1 << 20, 1 << 21}) + g.below(5000), 2); c.label("body over 64 KiB"); c.keep = false; }
	bool file = g.below(6) == 5, with_mime = g.flip(); std::string m = with_mime ? mime(g) : "text/html";
	int code = g.below(6) == 5 ? g.pick(std::vector<int>{301, 302, 400, 403, 404, 500}) : 200;
	if (g.below(10) == 9) body.clear();
	if (code == 404 && body.empty()) body = "y";
	if (file) code = 200;
	size_t size = body.size();
	auto num = [&](size_t base) -> uint64_t {
		switch (g.weighted({3, 3, 3, 1, 1})) {
		case 0: return g.below((uint32_t)size + 1);
		case 1: { uint64_t v = base + g.below(4); return v >= 2 ? v - 2 : v; }
		case 2: { uint64_t v = size + g.below(4); return v >= 2 ? v - 2 : v; }
		case 3: return g.u64() >> (1 + g.below(63));
		default: return g.pick(std::vector<uint64_t>{9, 10, 99, 100, 999, 1000, 4095, 4096, 9999, 10000, 0x7fffffffull, 0x80000000ull, 0xffffffffull, 0x100000000ull, 9223372036854775806ull});
		}
	};
	uint64_t a = num(0), b = num(a); std::string v; bool satisfiable = false, whole_body = false; size_t s = 0, e = 0;
	int kind = g.weighted({8, 4, 2, 2, 1});
	if (kind == 0) {
		if (b < a) std::swap(a, b);
		if (b == 0) b = 1; // bytes=0-0 is a known finding
		v = "bytes=" + std::to_string(a) + "-" + std::to_string(b);
		if (a < size) { satisfiable = true; s = a; e = std::min<uint64_t>(b, size ? size - 1 : 0); } else whole_body = true;
	} else if (kind == 1) {
		v = "bytes=" + std::to_string(a) + "-";
		if (a < size) { satisfiable = true; s = a; e = size - 1; } else whole_body = true;
	} else if (kind == 2) {
		static const std::vector<std::string> bad{"bytes", "bytes=", "items=0-3", "0-3", "bytes 1-3", "bytes=5", "none", "bytes=99999999999999999999999-", "bytes=99999999999999999999999-5", "=", "byte=1-2"};
		v = g.pick(bad); whole_body = true;
	} else if (kind == 3) { if (a <= b) a = b + 1; v = "bytes=" + std::to_string(a) + "-" + std::to_string(b); } // framing only
	else { static const std::vector<std::string> odd{"bytes=-5", "bytes=-0", "bytes=abc-3", "bytes=1-x", "bytes=1-2,4-5", "bytes=-", "bytes=--", "bytes=1--1", "bytes= 1-2", "bytes=0-99999999999999999999999", "bytes=+1-2", "bytes=1-2-3"}; v = g.pick(odd); }
	std::string hdr = g.pick(std::vector<std::string>{"Range: ", "Range: ", "range: ", "RANGE:"}) + v + "\r\n", other = "X-Other: Range: bytes=1-2\r\n";
	std::string rq = "GET /" + std::string(g.flip() ? "a" : "?Range:bytes=3-4") + " HTTP/1.1\r\n" + (g.flip() ? hdr + other : other + hdr) + "\r\n";
	std::string path = scratch_dir() + "/ranged";
	if (file) write_file(path, body);
	reset_slots(); int cleaned = 0; char *out = nullptr;
	slots[0].handle = [&](const sh_view &, const void *, void *resp) {
		if (with_mime) sh_resp_mime(resp, m.c_str());
		if (file) return sh_resp_mmap(resp, path.c_str());
		out = heap_copy(body); sh_resp_set(resp, out, body.size()); return code;
	};
	slots[0].cleanup = [&](int st, void *resp) { cleaned++; if (file) sh_mmap_cleanup(st, resp); else { size_t k; CHECK(sh_resp_out(resp, &k) == out && k == body.size(), "the clean-up function got another body than the handler returned"); free(out); out = nullptr; } };
	void *app = fixed("get", {{"GET", "", 0, 0, 1}});
	Plan pl = whole(rq); pl.send_sizes = g.below(4) == 3 ? send_sizes(g) : std::vector<unsigned>{};
	c.show("%s of %zu bytes, handler code %d%s", quote(v).c_str(), size, code, file ? ", a file" : "");
	Reply rep = exchange(app, pl);
	free(out);
	std::string what = quote(v) + " of " + std::to_string(size) + " bytes (code " + std::to_string(code) + ")";
	CHECK(rep.generated && rep.eof && !rep.stalled, "%s: no complete response", what.c_str());
	Response r = parse_response(rep.bytes, what.c_str());
	CHECK(r.one("Content-Type") == m, "%s: Content-Type is %s, expected %s", what.c_str(), quote(r.one("Content-Type")).c_str(), quote(m).c_str());
	CHECK(r.one("Connection") == "close", "%s: Connection is %s", what.c_str(), r.one("Connection").c_str());
	CHECK(cleaned == 1, "%s: the clean-up function ran %d times", what.c_str(), cleaned);
	auto framed = [&](size_t from, size_t to) {
		std::string cr = r.one("Content-Range"), w = "bytes " + std::to_string(from) + "-" + std::to_string(to) + "/" + std::to_string(size);
		CHECK(cr == w, "%s: Content-Range is %s, expected %s", what.c_str(), quote(cr).c_str(), w.c_str());
		CHECK(r.body == body.substr(from, to - from + 1), "%s: the body is %s, expected %s", what.c_str(), quote(r.body).c_str(), quote(body.substr(from, to - from + 1)).c_str());
	};
	if (code != 200 || size == 0) {
		CHECK(r.code == code && r.count("Content-Range") == 0, "%s: answered with %d and %d Content-Range headers", what.c_str(), r.code, r.count("Content-Range"));
		CHECK(r.body == body, "%s: the body is %s", what.c_str(), quote(r.body).c_str());
	} else if (satisfiable) { CHECK(r.code == 206, "%s: status %d", what.c_str(), r.code); framed(s, e); }
	else {
		CHECK(r.code == 200 || r.code == 206, "%s: status %d", what.c_str(), r.code);
		if (r.code == 200) { CHECK(r.count("Content-Range") == 0, "%s: Content-Range in a 200 response", what.c_str()); CHECK(r.body == body, "%s: the body is %s", what.c_str(), quote(r.body).c_str()); }
		else if (whole_body) framed(0, size - 1);
		else {
			unsigned long long x, y, z; int end = 0; std::string cr = r.one("Content-Range");
			CHECK(sscanf(cr.c_str(), "bytes %llu-%llu/%llu%n", &x, &y, &z, &end) == 3 && (size_t)end == cr.size() && x <= y && y < size && z == size, "%s: Content-Range is %s", what.c_str(), quote(cr).c_str());
			framed(x, y);
		}
	}
	c.nontrivial = size > 1 && (satisfiable || whole_body);
	if (satisfiable && code == 200) c.label(s == 0 && e == size - 1 ? "satisfiable: everything" : "satisfiable: a part"); if (whole_body) c.label("whole body"); if (!satisfiable && !whole_body) c.label("framing only"); if (code != 200) c.label("status other than 200"); if (size == 0) c.label("empty body"); if (file) c.label("mapped file");
	if (satisfiable && s == size - 1) c.label("last byte only");
}

// --- C05 -----------------------------------------------------------------------------------------------
static void segment_prop(Gen &g, Ctx &c) {
	std::string verb = g.pick(std::vector<std::string>{"POST", "GET", "PUT"}), path = url_path(g);
	size_t maxreq = std::max<size_t>(sh_max_request_size(), 2097152), rl = sh_max_read_len();
	size_t target = 0; // total size wanted
	switch (g.weighted({6, 5, 1})) {
	case 0: break;
	case 1: { size_t k = 1 + g.below(g.below(6) == 5 ? 60 : 5); target = k * rl + g.below(7); target -= 3; break; }
	default: target = g.size(60, 70000);
	}
	if (g.below(8000) == 7999) target = maxreq - g.below(4) * g.below(700);
	bool in_header = target > 200 && target < 20000 && g.below(3) == 2; // reach the size in the header or in the body
	std::vector<std::string> lines; size_t nh = g.below(5);
	for (size_t i = 0; i < nh; i++) lines.push_back("X-" + g.text(1 + g.below(8), TOKEN) + ": " + g.text(g.size(0, g.below(4) == 3 ? 1500 : 40), ALNUM + " =;"));
	std::string body = g.flip() || (target && !in_header) ? g.bytes(g.size(0, 1400), 2) : "";
	auto build = [&](const std::string &b, const std::string &pad) {
		std::string h = verb + " " + path + " HTTP/1.1\r\n"; bool said = false; size_t at = lines.empty() ? 0 : path.size() % (lines.size() + 1);
		for (size_t i = 0; i <= lines.size(); i++) {
			if (i == at && (!b.empty() || path.size() % 2)) { h += "Content-Length: " + std::to_string(b.size()) + "\r\n"; said = true; }
			if (i < lines.size()) h += lines[i] + "\r\n";
		}
		(void)said;
		if (!pad.empty()) h += "X-Pad: " + pad + "\r\n";
		return h + "\r\n";
	};
	std::string head, pad;
	if (target && in_header) { head = build(body, "p"); while (head.size() + body.size() < target) { size_t d = target - head.size() - body.size(); pad += g.text(d, ALNUM); head = build(body, "p" + pad); if (head.size() + body.size() >= target) break; } }
	else if (target) { for (int i = 0; i < 3; i++) { head = build(body, ""); size_t now_ = head.size() + body.size(); if (now_ < target) body += g.bytes(target - now_, 2); else if (now_ - target <= body.size()) body.resize(body.size() - (now_ - target)); } head = build(body, ""); }
	else head = build(body, "");
	std::string raw = head + body; if (raw.size() > maxreq) { body.resize(body.size() - std::min(body.size(), raw.size() - maxreq + 10)); head = build(body, ""); raw = head + body; }
	std::vector<size_t> cuts; size_t nc = g.weighted({2, 3, 3}) == 0 ? 0 : g.below(40) == 39 ? g.size(0, 60) : 1 + g.below(5);
	for (size_t i = 0; i < nc; i++) switch (g.below(5)) {
		case 0: cuts.push_back(head.size() - 4 + g.below(6)); break;
		case 1: cuts.push_back(g.below((uint32_t)head.size() + 1)); break;
		case 2: cuts.push_back(rl * (1 + g.below((uint32_t)(raw.size() / rl) + 1)) - 2 + g.below(5)); break;
		default: cuts.push_back(g.below((uint32_t)raw.size() + 1));
	}
	if (g.below(60) == 59 && raw.size() < 400) { cuts.clear(); for (size_t i = 1; i < raw.size(); i++) cuts.push_back(i); } // byte by byte
	std::sort(cuts.begin(), cuts.end()); cuts.erase(std::unique(cuts.begin(), cuts.end()), cuts.end());
	Plan pl; size_t at = 0; for (size_t k : cuts) if (k > at && k < raw.size()) { pl.segs.push_back(raw.substr(at, k - at)); at = k; } pl.segs.push_back(raw.substr(at));
	pl.wait_consumed = g.below(4) != 3;
	if (g.below(5000) == 4999 && pl.segs.size() < 8 && raw.size() < 100000) { pl.pause = g.pick(std::vector<double>{2.6, 1.3, 1.3}) / pl.segs.size(); if (pl.segs.size() < 3) pl.pause = 1.3; pl.wait_consumed = true; c.label("pauses"); c.keep = false; }
	if (g.below(4) == 3) { size_t n = 1 + g.below(4); for (size_t i = 0; i < n; i++) pl.recv_sizes.push_back(g.below(4) == 3 ? INTR : raw.size() > 100000 ? 500 + g.below(600) : g.pick(std::vector<unsigned>{0, 1, 2, 3, 7, 100, 511, 1023, 1 + g.below(1024)})); pl.recv_sizes.push_back(g.flip() ? 0 : 400 + g.below(600)); c.label("short or interrupted reads"); }
	c.show("%s %s, %zu header bytes, %zu body bytes, in segments of", verb.c_str(), quote(path).c_str(), head.size(), body.size()); for (auto &s : pl.segs) c.show(" %zu", s.size());
	reset_slots(); int times = 0; std::string sent;
	slots[0].handle = [&](const sh_view &v, const void *, void *resp) {
		times++;
		CHECK(v.verb == verb && v.resource == path, "the handler saw %s %s", quote(v.verb).c_str(), quote(v.resource).c_str());
		CHECK(v.header && v.header_len == head.size() && memcmp(v.header, head.data(), head.size()) == 0, "the handler saw the header block %s (%zu bytes), sent were %s (%zu bytes)", quote(std::string(v.header, v.header_len)).c_str(), v.header_len, quote(head).c_str(), head.size());
		CHECK(v.body_len == body.size() && (body.empty() || memcmp(v.body, body.data(), body.size()) == 0), "the handler saw a body of %zu bytes, sent were %zu: %s instead of %s", v.body_len, body.size(), quote(std::string((const char *)v.body, v.body_len), 100).c_str(), quote(body, 100).c_str());
		sent = std::string("echo ") + v.resource + " " + std::string((const char *)v.body, std::min<size_t>(v.body_len, 3000)) + std::to_string(v.body_len);
		return sh_resp_raw(resp, sent.data(), sent.size());
	};
	void *app = fixed("any", {{"POST", "", 0, 0, 0}, {"GET", "", 0, 0, 0}, {"PUT", "", 0, 0, 0}});
	Reply rep = exchange(app, pl);
	std::string want = "echo " + path + " " + body.substr(0, 3000) + std::to_string(body.size());
	CHECK(!rep.stalled, "the server waits for more, although the whole request (%zu header bytes, %zu body bytes) was sent in %zu segments", head.size(), body.size(), pl.segs.size());
	CHECK(times == 1 && rep.generated && rep.eof, "a request of %zu header bytes and %zu body bytes in %zu segments: the handler ran %d times, %s", head.size(), body.size(), pl.segs.size(), times, rep.eof ? "the connection was closed" : "no end of stream");
	Response r = parse_response(rep.bytes, "segmented request");
	CHECK(r.code == 200 && r.body == want, "the response is %d %s, expected %s", r.code, quote(r.body).c_str(), quote(want).c_str());
	c.nontrivial = pl.segs.size() > 1 || raw.size() >= rl;
	if (raw.size() % rl == 0) c.label("total size is a multiple of the read buffer"); if (head.size() % rl == 0 || (head.size() > rl && head.size() % rl < 4)) c.label("the blank line ends at or straddles a read"); if (pl.segs.size() > 1) c.label("several segments");
	for (size_t k : cuts) if (k > head.size() - 4 && k < head.size()) { c.label("cut inside the blank line"); break; }
	if (raw.size() > 1000000) c.label("over 1 MB"); if (body.empty()) c.label("no body"); if (head.size() > rl) c.label("header over one read");
}

// --- C06 -----------------------------------------------------------------------------------------------
static std::string hostile(Gen &g) {
	static const std::vector<std::string> frag{"GET ", "POST ", " HTTP/1.1\r\n", "\r\n", "\r\n\r\n", "Content-Length: ", "Content-Length:", "Range: bytes=", "Cookie: ", "Content-Type: application/x-www-form-urlencoded\r\n", "X-Real-IP: ", "User-Agent: ", " ", "\n", "\r", ":", "-", "=", "&", "%", "%4", "%zz", "a", "/", "/f/x", "/f/../x.", "/s", std::string(1, '\0'), "-1", "0", "99999999999999999999", "2147483648", "4294967295", "9223372036854775807", "a=b", "a=", "=b", ";", "\xff\xfe", "%s%n", "GET / HTTP/1.1\r\n", "POST /a HTTP/1.1\r\n"};
	std::string s; size_t n;
	switch (g.weighted({1, 3, 4, 3})) {
	case 0: return g.bytes(g.size(0, 5000), g.pick(std::vector<int>{2, 3, 1}));
	case 1: n = g.size(0, 40); for (size_t i = 0; i < n; i++) s += g.below(12) == 11 ? g.text(g.size(1, 1200), ALNUM + " ") : g.pick(frag); return s;
	case 2: { // a request with parts out of range
		s = g.below(5) ? g.pick(std::vector<std::string>{"GET", "POST", "PUT"}) : g.text(g.flip() ? 13 + g.below(6) : g.size(0, 1300), ALNUM);
		s += g.below(8) ? " " : g.pick(frag);
		s += g.below(3) ? "/" + g.text(g.size(0, 40), TOKEN + "/") : "/" + g.bytes(506 + g.below(12), 1);
		s += g.below(8) ? " HTTP/1.1\r\n" : g.pick(frag);
		n = g.below(6);
		for (size_t i = 0; i < n; i++) {
			static const std::vector<std::string> names{"Content-Length", "Range", "Cookie", "Content-Type", "X-Real-IP", "User-Agent", "Host"};
			s += g.pick(names) + g.pick(std::vector<std::string>{": ", ":", "", ": : "});
			switch (g.below(6)) { case 0: s += g.pick(frag); break; case 1: s += "application/x-www-form-urlencoded"; break; case 2: s += "bytes=" + g.text(g.below(12), "0123456789-"); break; case 3: s += std::to_string((int64_t)g.u64()); break; case 4: s += std::to_string(g.below(3000)); break; default: s += g.bytes(g.size(0, 2000), g.pick(std::vector<int>{1, 3})); }
			s += g.below(10) ? "\r\n" : g.pick(frag);
		}
		if (g.below(6)) s += "\r\n";
		if (g.flip()) { n = g.below(12); for (size_t i = 0; i < n; i++) s += g.pick(frag); if (g.below(4) == 3) s += g.bytes(g.size(0, 4000), 2); }
		return s; }
	default: { // a valid request, damaged
		std::string body = "a=1&b=%20x&c=" + g.text(g.below(30), ALNUM);
		s = "POST /s/" + g.text(g.below(20), TOKEN) + " HTTP/1.1\r\nHost: h\r\nCookie: a=b; c=d\r\nRange: bytes=0-5\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body;
		n = 1 + g.below(4);
		for (size_t i = 0; i < n && !s.empty(); i++) {
			size_t at = g.below((uint32_t)s.size());
			switch (g.below(5)) { case 0: s[at] = (char)g.below(256); break; case 1: s.erase(at, 1 + g.below(8)); break; case 2: s.insert(at, g.pick(frag)); break; case 3: s.resize(at); break; default: s.insert(at, s.substr(at, 1 + g.below(60))); }
		}
		return s; }
	}
}
// A form or a header as large as a request may be, of one repeated piece: the server has to get through it in reasonable time.
static std::string large(Gen &g, int kind) {
	static const std::vector<std::string> forms{"%41", "a=b&", "#=b&", "&", "=", "+", "%zz&", "a=%00&", "#=%20&"}, heads{"A:b\r\n", "\r", "\n", "Range: x\r\n", "\r\nX", "Cookie: a=b\r\n", "a=b; ", "#: #\r\n", "bytes=1", "-", ","};
	bool head = kind < 0 ? g.flip() : kind >= (int)forms.size(); size_t k = kind < 0 ? g.below((uint32_t)(head ? heads : forms).size()) : head ? kind - forms.size() : kind;
	const std::string &piece = (head ? heads : forms)[k]; size_t target = kind < 0 ? 2000000 - g.below(1500000) : 2000000; std::string s; unsigned i = 0;
	auto put = [&] { for (char ch : piece) if (ch == '#') s += std::to_string(i); else s += ch; i++; };
	if (head) { s = "GET /s HTTP/1.1\r\n" + g.pick(std::vector<std::string>{"X: ", "Cookie: ", "Range: ", "Range: bytes="}); if (piece.find("\r\n") != std::string::npos) target = 300000; /* AddressSanitizer's memmem looks at everything that is left */ while (s.size() < target) put(); return s + "\r\n\r\n"; }
	s = k == 0 ? "a=" : ""; while (s.size() < target) put();
	return "POST /s HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\nContent-Length: " + std::to_string(s.size()) + "\r\n\r\n" + s;
}
static const int LARGE = 19;
static double thread_cpu() { struct timespec t; clock_gettime(CLOCK_THREAD_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void hostile_prop(Gen &g, Ctx &c) {
	std::string raw;
	if (g.example >= 0) {
		static const std::vector<std::string> ex{"", "\r\n\r\n", "GET", "GET \r\n\r\n", "GET  \r\n\r\n", "GET / \r\n\r\n", "POST / HTTP/1.1\r\nContent-Length: -5\r\n\r\nabc", "POST / HTTP/1.1\r\nContent-Length: 9223372036854775807\r\n\r\nabc",
			"POST / HTTP/1.1\r\nContent-Type: application/x-www-form-urlencoded\r\n\r\n", "GET / HTTP/1.1\r\nCookie:\r\nRange:\r\n\r\n", std::string("GET /\0 HTTP/1.1\r\n\r\n", 19), "GET / HTTP/1.1\r\nRange: bytes=-\r\n\r\n", "GET / HTTP/1.1\r\nHost", "GET / HTTP/1.1\r\nRange"};
		if (g.example >= 16) { raw = large(g, g.example - 16); c.label("as large as a request may be"); }
		else if (g.example >= 14) raw = (g.example == 14 ? "POST / HTTP/1.1\r\nContent-Length: 99999999\r\n\r\n" : "POST / HTTP/1.1\r\nX: ") + std::string(2097152 + g.below(5000), 'x');
		else raw = ex[g.example % ex.size()];
	} else {
		raw = g.below(20000) == 19999 ? c.label("as large as a request may be"), c.keep = false, large(g, -1) : hostile(g);
	}
	reset_slots(); bool called = false; std::string keep; std::string dir = scratch_dir();
	static bool files = false; static pid_t owner = 0; if (!files || owner != getpid()) { files = true; owner = getpid(); mkdir((dir + "/f").c_str(), 0755); write_file(dir + "/f/x", "content of x"); write_file(dir + "/f/empty", ""); }
	int behave = g.below(3);
	auto lookups = [&](const sh_view &v, const void *req) {
		called = true;
		CHECK(strnlen(v.verb, v.verb_cap) < v.verb_cap && strnlen(v.resource, v.resource_cap) < v.resource_cap, "the handler sees an unterminated verb or path");
		keep = std::string(v.verb) + v.resource + std::string(v.header, v.header_len) + std::string((const char *)v.body, v.body_len);
		for (const char *n : {"Cookie", "Host", "Range", "Content-Length", "User-Agent", "X", "a"}) {
			char *h = sh_header_req(req, n);
			if (h) { for (const char *k : {"a", "c", "", "session"}) free(sh_cookie(h, strlen(h), k)); size_t o, l; sh_range(h, &o, &l); }
			free(h);
		}
		if (v.form) for (const char *k : {"a", "b", "c", "A"}) { size_t n = 0; char *x = (char *)sh_dict_get(v.form, k, strlen(k), &n); if (x) keep += std::string(x, n); }
		// The whole verb and path are in the request.
		CHECK(raw.compare(0, strlen(v.verb), v.verb) == 0, "the handler sees the verb %s, the request starts with %s", quote(v.verb).c_str(), quote(raw, 40).c_str());
	};
	slots[0].handle = [&](const sh_view &v, const void *req, void *resp) { lookups(v, req); char *o = heap_copy(keep); sh_resp_set(resp, o, keep.size()); return behave == 1 ? 500 : 200; };
	slots[0].cleanup = [&](int code, void *resp) { sh_heap_cleanup_no_check(code, resp); };
	slots[1].handle = [&](const sh_view &v, const void *req, void *resp) {
		lookups(v, req); std::string p(v.resource); for (size_t i; (i = p.find("..")) != std::string::npos;) p.replace(i, 2, "__");
		return sh_resp_mmap(resp, (dir + p).c_str());
	};
	slots[1].cleanup = [&](int code, void *resp) { sh_mmap_cleanup(code, resp); };
	slots[2].handle = [&](const sh_view &v, const void *req, void *resp) {
		lookups(v, req);
		for (int i = 0; i < v.max_matches && i < 3; i++) if (v.so[i] >= 0) CHECK(v.so[i] <= v.eo[i] && (size_t)v.eo[i] <= strlen(v.resource), "match %d is [%ld,%ld) of a path of %zu bytes", i, v.so[i], v.eo[i], strlen(v.resource));
		return sh_resp_raw(resp, "matched", 7);
	};
	slots[3].handle = [&](const sh_view &v, const void *, void *resp) { keep = std::string("next ") + v.resource; return sh_resp_raw(resp, keep.data(), keep.size()); };
	bool h404 = g.flip();
	void *app = fixed(h404 ? "hostile, 404 handler" : "hostile", {{"GET", "^/after$", 0, 3, 0}, {"GET", "^/f/", 0, 1, 1}, {"POST", "^/s(/(.*))?$", 2, 2, 0}, {"GET", ".*", 0, 0, 1}, {"POST", ".*", 0, 0, 1}});
	static bool set404 = false; if (h404 && !set404) { set404 = true; sh_app_404(app, 1, 0); }
	slots[SH_SLOT_404].handle = [&](const sh_view &v, const void *req, void *resp) { lookups(v, req); sh_resp_raw(resp, "no such thing", 13); return 404; };
	Plan pl; size_t at = 0, nc = g.below(3); for (size_t i = 0; i < nc; i++) { size_t k = g.below((uint32_t)raw.size() + 1); if (k > at) { pl.segs.push_back(raw.substr(at, k - at)); at = k; } } pl.segs.push_back(raw.substr(at));
	pl.end = g.pick(std::vector<Plan::End>{Plan::HALF_CLOSE, Plan::HALF_CLOSE, Plan::HALF_CLOSE, Plan::CLOSE_AFTER_SEND, Plan::RESET}); pl.wait_consumed = g.flip();
	if (g.below(5) == 4) pl.small_buffers = true;
	c.show("%s, %s", quote(raw, 1500).c_str(), pl.end == Plan::HALF_CLOSE ? "then end of stream" : pl.end == Plan::RESET ? "then a reset" : "then closed");
	double t0 = thread_cpu();
	Reply rep = exchange(app, pl);
	double used = thread_cpu() - t0; if (getenv("TIMES") && used > 0.3) fprintf(stderr, "%.2f s: %s\n", used, quote(raw, 150).c_str());
	CHECK(used < 8, "processing a request of %zu bytes takes %.0f s: %s", raw.size(), used, quote(raw, 300).c_str());
	CHECK(!rep.stalled, "the server hangs on %s", quote(raw, 1500).c_str());
	CHECK(!rep.fd_left_open, "the connection is left open after %s", quote(raw, 1000).c_str());
	if (pl.end == Plan::HALF_CLOSE) {
		// A client that is still sending when the server has read all it will read gets an error instead of end of stream.
		if (rep.generated && raw.size() >= sh_max_request_size()) c.label("over the maximum request size");
		else if (rep.generated) { CHECK(rep.eof || rep.reset, "no end of stream after %s", quote(raw, 1000).c_str()); if (rep.eof) parse_response(rep.bytes, "hostile request"); else c.label("surplus bytes"); }
		else CHECK(rep.bytes.empty() && !called, "the request was rejected, but %s", called ? "a handler ran" : "bytes were sent");
	}
	bool first_called = called;
	Reply nx = exchange(app, whole("GET /after HTTP/1.1\r\nHost: x\r\n\r\n"));
	CHECK(nx.generated && nx.eof, "after %s the next request is not answered", quote(raw, 1000).c_str());
	Response r = parse_response(nx.bytes, "next request"); CHECK(r.code == 200 && r.body == "next /after", "after %s the next request gets %d %s", quote(raw, 1000).c_str(), r.code, quote(r.body).c_str());
	c.nontrivial = raw.size() > 3;
	c.label(first_called ? "a handler ran" : rep.generated ? "built-in 404" : "rejected"); if (pl.end != Plan::HALF_CLOSE) c.label(pl.end == Plan::RESET ? "connection reset" : "connection closed early"); if (raw.find('\0') != std::string::npos) c.label("NUL bytes"); if (raw.size() > 1024) c.label("over 1 KiB");
}

// --- C07 -----------------------------------------------------------------------------------------------
struct History {
	struct Step { int kind, shape; bool range, form, rejected; int code; size_t size; int headers; Plan plan; bool has_body; };
	std::vector<Step> steps; int h404; std::string dir;
};
static void resources_prop(Gen &g, Ctx &c) {
	History h; h.dir = scratch_dir(); h.h404 = g.below(4); // none, handler, handler + clean-up, clean-up first
	size_t n = 1 + g.below(g.below(8) == 7 ? 20 : 5); bool failures = false; int kinds = 0;
	static const std::vector<std::string> names{"raw", "heap", "mapped file", "rendered file", "empty 404", "missing file", "no route", "error with heap body", "missing template", "directory"};
	for (size_t i = 0; i < n; i++) {
		History::Step s; s.kind = g.below(10); s.shape = g.below(3); s.range = g.below(4) == 3; s.form = g.below(3) == 2; s.rejected = g.below(7) == 6; s.code = g.pick(std::vector<int>{200, 200, 200, 301, 302, 400, 403, 404, 500}); s.headers = g.below(4) == 3 ? g.below(12) : 0;
		s.size = g.size(0, g.below(12) == 11 ? 200000 : 9000); kinds |= 1 << s.kind;
		std::string body = s.form ? "a=1&b=%41%&c=" + g.text(g.below(40), ALNUM) + (g.flip() ? "&a=2" : "") : g.flip() ? g.bytes(g.size(0, 2000), 2) : "";
		std::string rq = std::string(s.form || !body.empty() ? "POST" : "GET") + (s.kind == 6 ? " /none" : " /k" + std::to_string(s.kind)) + " HTTP/1.1\r\n";
		if (s.range) rq += "Range: bytes=" + std::to_string(g.below(50)) + "-" + (g.flip() ? std::to_string(50 + g.below(5000)) : "") + "\r\n";
		if (s.form) rq += "Content-Type: application/x-www-form-urlencoded\r\n";
		if (!body.empty()) rq += "Content-Length: " + std::to_string(body.size()) + "\r\n";
		if (g.below(3) == 2) rq += "User-Agent: x\r\nX-Real-IP: 1.2.3.4\r\n";
		else for (const char *nm : {"User-Agent", "X-Real-IP", "Host", "Cookie"}) if (g.below(4) == 3) rq += std::string(nm) + ": " + g.text(g.size(0, 100), ALNUM) + "\r\n";
		rq += "\r\n" + body; s.has_body = !body.empty();
		if (s.rejected) {
			switch (g.below(5)) {
			case 0: rq = rq.substr(0, g.below((uint32_t)rq.size())); if (rq.find("\r\n\r\n") != std::string::npos) rq = "GET /"; break;
			case 1: rq = "GET /" + std::string(512 + g.below(3000), 'a') + " HTTP/1.1\r\n\r\n"; break;
			case 2: rq = g.flip() ? "GET" : ""; break;
			case 3: rq = "GET /k0 HTTP/1.1\r\nContent-Length: 0\r\n\r\nsurplus"; break; // may or may not be answered
			default: rq = "GET /k0\r\n\r\n";
			}
		}
		Plan &p = s.plan; p.segs = {rq}; if (g.below(4) == 3 && rq.size() > 1) { size_t k = 1 + g.below((uint32_t)rq.size() - 1); p.segs = {rq.substr(0, k), rq.substr(k)}; p.wait_consumed = true; }
		p.end = s.rejected ? g.pick(std::vector<Plan::End>{Plan::HALF_CLOSE, Plan::HALF_CLOSE, Plan::CLOSE_AFTER_SEND, Plan::RESET})
			: g.pick(std::vector<Plan::End>{Plan::READ_ALL, Plan::READ_ALL, Plan::READ_ALL, Plan::HALF_CLOSE, Plan::CLOSE_AFTER_SEND, Plan::CLOSE_AFTER_READING, Plan::RESET});
		p.read_limit = g.size(0, s.size + 300); p.small_buffers = g.below(4) == 3; if (g.below(4) == 3) p.send_sizes = send_sizes(g);
		if (p.send_sizes.size() == 1) p.send_sizes[0] += (unsigned)(s.size / 200);
		if (p.end >= Plan::CLOSE_AFTER_SEND || s.rejected) failures = true;
		c.show("%s%s%s%s%s; ", s.rejected ? "REJECTED " : "", names[s.kind].c_str(), s.range ? " +range" : "", s.form ? " +form" : "", p.end == Plan::READ_ALL ? "" : p.end == Plan::HALF_CLOSE ? " half-closed" : p.end == Plan::CLOSE_AFTER_SEND ? " closed before the response" : p.end == Plan::RESET ? " reset" : " closed during the response");
		h.steps.push_back(s);
	}
	std::string file = h.dir + "/served-file.txt", tmpl = h.dir + "/served-template.html";
	auto history = [&] {
		reset_slots(); const History::Step *cur = nullptr; std::string raw_body;
		auto headers = [&](void *resp) { for (int i = 0; i < cur->headers; i++) { std::string v = "value" + std::to_string(i); sh_resp_header(resp, "X-Custom", 8, v.data(), v.size()); } };
		slots[0].handle = [&](const sh_view &, const void *, void *resp) { headers(resp); raw_body.assign(cur->size ? cur->size : 1, 'r'); sh_resp_raw(resp, raw_body.data(), raw_body.size()); return cur->code; };
		slots[1].handle = [&](const sh_view &, const void *, void *resp) { headers(resp); char *o = (char *)malloc(cur->size + 1); memset(o, 'h', cur->size + 1); sh_resp_set(resp, o, cur->size + 1); return cur->code < 400 ? cur->code : 200; };
		slots[1].cleanup = [](int code, void *resp) { sh_heap_cleanup(code, resp); };
		slots[2].handle = [&](const sh_view &, const void *, void *resp) { headers(resp); return sh_resp_mmap(resp, file.c_str()); };
		slots[2].cleanup = [](int code, void *resp) { sh_mmap_cleanup(code, resp); };
		slots[3].handle = [&](const sh_view &, const void *, void *resp) { headers(resp); void *cx = sh_ctx_new(); sh_add_string(cx, "name", "value"); void *arr = sh_add_array(cx, "list"); sh_arr_add_int(arr, 1); sh_arr_add_string(arr, "two"); sh_handle_free(arr); return sh_resp_render(resp, cx, tmpl.c_str()); };
		slots[3].cleanup = [](int code, void *resp) { sh_heap_cleanup(code, resp); };
		slots[4].handle = [&](const sh_view &, const void *, void *resp) { headers(resp); return 404; };
		slots[4].cleanup = [](int, void *) {};
		slots[5].handle = [&](const sh_view &, const void *, void *resp) { return sh_resp_mmap(resp, (h.dir + "/no-such-file").c_str()); };
		slots[5].cleanup = [](int code, void *resp) { sh_mmap_cleanup(code, resp); };
		slots[7].handle = [&](const sh_view &, const void *, void *resp) { headers(resp); char *o = (char *)malloc(cur->size + 1); memset(o, 'e', cur->size + 1); sh_resp_set(resp, o, cur->size + 1); return cur->code; };
		slots[7].cleanup = [](int code, void *resp) { sh_heap_cleanup_no_check(code, resp); };
		slots[8].handle = [&](const sh_view &, const void *, void *resp) { void *cx = sh_ctx_new(); sh_add_string(cx, "name", "value"); return sh_resp_render(resp, cx, (h.dir + "/no-such-template").c_str()); };
		slots[8].cleanup = [](int code, void *resp) { sh_heap_cleanup(code, resp); };
		slots[9].handle = [&](const sh_view &, const void *, void *resp) { return sh_resp_mmap(resp, h.dir.c_str()); };
		slots[9].cleanup = [](int code, void *resp) { sh_mmap_cleanup(code, resp); };
		slots[SH_SLOT_404].handle = [&](const sh_view &, const void *, void *resp) { char *o = (char *)malloc(9); memcpy(o, "not found", 9); if (h.h404 < 2) { free(o); sh_resp_raw(resp, "not found", 9); } else sh_resp_set(resp, o, 9); return 404; };
		slots[SH_SLOT_404].cleanup = [](int code, void *resp) { sh_heap_cleanup_no_check(code, resp); };
		std::vector<sh_route> table; static const char *res[] = {"^/k0$", "^/k1$", "^/k2$", "^/k3$", "^/k4$", "^/k5$", "", "^/k7$", "^/k8$", "^/k9$"}; static const bool cl[] = {false, true, true, true, true, true, false, true, true, true};
		for (int k : {0, 1, 2, 3, 4, 5, 7, 8, 9}) for (const char *v : {"GET", "POST"}) table.push_back({v, res[k], 0, k, cl[k]});
		App app(table); if (h.h404) sh_app_404(app, 1, h.h404 == 2 ? 1 : h.h404 == 3 ? 2 : 0);
		for (size_t i = 0; i < h.steps.size(); i++) {
			const History::Step &s = h.steps[i]; cur = &s;
			if (!s.rejected && s.kind == 2) write_file(file, std::string(s.size, 'f'));
			if (!s.rejected && s.kind == 3) write_file(tmpl, "Hello xXx @name xXx\nxXx LOOP i list xXx\n[xXx @i xXx]\nxXx BBL xXx\n" + (s.shape == 0 ? std::string(s.size, 't') : s.shape == 1 ? "xXx UNLESS @name xXx\n" + std::string(s.size, 't') + "\nxXx ENDLESS xXx" : "xXx LOOP i list xXx\n" + std::string(s.size, 't') + "\nxXx BBL xXx") + "\n");
			calls.clear(); int fds = count_fds();
			Reply rep = exchange(app, s.plan);
			std::string what = "request " + std::to_string(i + 1) + " (" + (s.rejected ? "rejected" : names[s.kind]) + ")";
			CHECK(!rep.stalled, "%s: the server hangs", what.c_str());
			CHECK(!rep.fd_left_open, "%s: the connection is left open", what.c_str());
			CHECK(count_fds() <= fds, "%s leaks a file descriptor", what.c_str());
			int cleaned = 0, slot = -1, code = 0, cslot = -1, ccode = 0;
			for (auto &k : calls) { if (k.cleanup) { cleaned++; cslot = k.slot; ccode = k.code; } else { slot = k.slot; code = k.code; } }
			if (!rep.generated) { CHECK(cleaned == 0 && slot < 0, "%s got no response, but %s", what.c_str(), cleaned ? "a clean-up function ran" : "a handler ran"); continue; }
			bool custom = h.h404 != 0; bool built_in = !custom && (slot < 0 || slot == 4);
			bool has = slot == SH_SLOT_404 ? h.h404 >= 2 : slot >= 0 && cl[slot];
			if (built_in) has = false;
			CHECK(cleaned == (has ? 1 : 0), "%s: clean-up functions ran %d times, expected %d", what.c_str(), cleaned, has ? 1 : 0);
			if (has) {
				size_t len = slot == 2 ? s.size : slot == 3 ? 1 : 1; // whether the body is empty
				int want = s.range && code == 200 && !(slot == 2 && len == 0) ? 206 : code;
				if (s.rejected) want = ccode;
				CHECK(cslot == slot, "%s: the clean-up function of slot %d ran, the response came from slot %d", what.c_str(), cslot, slot);
				CHECK(ccode == want, "%s: the clean-up function got status %d, the response carried %d", what.c_str(), ccode, want);
				if (rep.bytes.size() > 13 && rep.bytes.compare(0, 9, "HTTP/1.1 ") == 0) CHECK(atoi(rep.bytes.c_str() + 9) == ccode, "%s: the clean-up function got status %d, the response is %s", what.c_str(), ccode, rep.bytes.substr(0, 13).c_str());
			}
		}
		int maps = count_maps("/served-"); CHECK(maps <= 0, "%d mappings of served files remain", maps);
		reset_slots(); calls.shrink_to_fit();
	};
	check_no_leak("serving these requests", history, 3);
	c.nontrivial = n >= 2 && (failures || __builtin_popcount(kinds) >= 2);
	for (auto &s : h.steps) { c.label(s.rejected ? "rejected request" : names[s.kind]); if (s.plan.end == Plan::CLOSE_AFTER_SEND) c.label("peer gone before the response"); if (s.plan.end == Plan::CLOSE_AFTER_READING) c.label("peer gone during the response"); if (s.plan.end == Plan::RESET) c.label("connection reset"); if (s.form) c.label("form"); if (s.range) c.label("range"); if (s.headers) c.label("custom headers"); }
}

// --- C14 -----------------------------------------------------------------------------------------------
// Files of several gigabytes, most of it a hole: only the size and samples are compared.
static void huge_file(Gen &g, Ctx &c) {
	uint64_t size = huge_size(g); std::map<uint64_t, std::string> windows; size_t n = 1 + g.below(4); std::string dir = scratch_dir(), path = dir + "/huge.txt";
	for (size_t i = 0; i < n; i++) { uint64_t a = huge_offset(g, size); std::string p = g.bytes(g.size(1, 300), 2); p.resize(std::min<uint64_t>(p.size(), size - a)); windows[a] = p; }
	c.show("a file of %llu bytes", (unsigned long long)size); c.keep = false;
	write_windows(path, size, windows);
	int fd = open(path.c_str(), O_RDONLY); for (auto &w : windows) { ssize_t k = pread(fd, w.second.data(), w.second.size(), w.first); if (k != (ssize_t)w.second.size()) throw std::runtime_error("cannot read " + path); } close(fd); // windows may overlap
	check_no_leak("delivering a huge file", [&] {
		void *resp = sh_resp_new(); int fds = count_fds();
		int code = sh_resp_mmap(resp, path.c_str()); size_t k = 0; const char *o = (const char *)sh_resp_out(resp, &k);
		CHECK(code == 200 && k == size, "a file of %llu bytes gives status %d and %zu bytes", (unsigned long long)size, code, k);
		CHECK(!strcmp(sh_resp_get_mime(resp), "text/plain"), "the mimetype is %s", sh_resp_get_mime(resp));
		for (auto &w : windows) CHECK(memcmp(o + w.first, w.second.data(), w.second.size()) == 0, "a file of %llu bytes differs near byte %llu", (unsigned long long)size, (unsigned long long)w.first);
		sh_mmap_cleanup(code, resp); sh_resp_free(resp);
		CHECK(count_fds() == fds, "delivering a huge file leaks a file descriptor"); CHECK(count_maps(path) <= 0, "delivering a huge file leaves it mapped");
	});
	CHECK(sh_file_size(path.c_str()) == size, "a file of %llu bytes is said to have %zu", (unsigned long long)size, sh_file_size(path.c_str()));
	unlink(path.c_str());
	c.nontrivial = true; c.label("a file of several gigabytes");
}
static void file_prop(Gen &g, Ctx &c) {
	if (g.below(200) == 199) return huge_file(g, c);
	static const std::vector<std::pair<std::string, std::string>> types{{"css", "text/css"}, {"jpg", "image/jpeg"}, {"txt", "text/plain"}, {"html", "text/html"}, {"svg", "image/svg+xml"}, {"ico", "image/x-icon"}, {"webm", "video/webm"}, {"gif", "image/gif"}, {"json", "application/json"}, {"js", "text/javascript"}};
	std::string dir = scratch_dir() + "/files", sub = g.below(4) == 3 ? g.pick(std::vector<std::string>{"/d.ir", "/a.css", "/plain", "/x.y.z", "/long-directory-name.json"}) : ""; // files start with n, so they never coincide with a directory
	mkdir(dir.c_str(), 0755); if (!sub.empty()) mkdir((dir + sub).c_str(), 0755);
	std::string base = g.text(g.size(1, 30), ALNUM + "-_"), type, name = base; bool known = false;
	switch (g.weighted({5, 3, 2, 2})) {
	case 0: { auto &t = g.pick(types); std::string e = t.first; for (auto &ch : e) if (g.below(3) == 2) ch = toupper(ch); name += (g.below(5) == 4 ? ".tar" : "") + std::string(".") + e; type = t.second; known = true; break; }
	case 1: { std::string e; do e = g.text(g.size(1, 14), ALNUM + "_"); while (std::any_of(types.begin(), types.end(), [&](auto &t) { return lower(e) == t.first; }) && (e += "0", false)); name += "." + e; type = "application/octet-stream"; break; }
	case 2: { auto &t = g.pick(types); std::string e = g.flip() ? t.first.substr(0, t.first.size() - 1) : t.first + g.text(1, ALNUM); if (std::any_of(types.begin(), types.end(), [&](auto &u) { return lower(e) == u.first; })) e = "q"; name += "." + e; type = "application/octet-stream"; break; }
	default: type = "text/html";
	}
	bool rel = g.below(3) == 2; // a short path
	if (rel) { CHECK(chdir(dir.c_str()) == 0, "chdir"); if (g.flip()) { size_t keep = g.below(3) ? 1 : 0; name = name.substr(0, keep) + name.substr(base.size()), base = base.substr(0, keep); } }
	std::string path = (rel ? (sub.empty() ? g.pick(std::vector<std::string>{"", "./"}) : sub.substr(1) + "/") : dir + sub + "/") + "n" + name;
	int mode = g.weighted({5, 3, 1, 1, 1, 1}); // file, rendered, missing, missing rendered, a directory, a file that cannot be opened
	int no_stdin = g.below(6) == 5 ? 1 + g.below(2) : 0;
	bool preset = g.below(5) == 4; std::string pm = preset ? g.flip() ? "x-test/preset" : mime(g) : "";
	size_t size = g.pick(std::vector<size_t>{0, 1, 4095, 4096, 4097, 8191, 8192, 8193, 12288, 65536}); if (g.flip()) size = g.size(0, g.below(10) == 9 ? 400000 : 20000);
	auto make = [&](size_t sz) {
		std::string t;
		if (mode == 1) {
			size_t l = g.below(8); for (size_t i = 0; i < l; i++) t += g.text(g.below(30), ALNUM + " .,<>") + g.pick(std::vector<std::string>{"", "xXx @name xXx", "xXx @num xXx!"}) + "\n";
			if (g.flip()) t += std::string(sz % 9000, 'p'); if (t.empty()) t = "\n";
			if (g.below(4) == 3) t += std::string((8192 - t.size() % 4096) % 4096, 'q'); // whole pages
		} else {
			t = g.bytes(sz, 2);
			if (g.below(6) == 5) { size_t k = 1 + g.below(3); for (size_t i = 0; i < k && t.size() < 300000; i++) t.insert(g.below(2) ? t.size() : g.below((uint32_t)t.size() + 1), 4096 * (1 + g.below(8)) + g.below(3) * g.below(4096), '\0'); }
		}
		return t;
	};
	std::vector<std::string> versions{make(size)}; if (mode < 2 && g.below(4) == 3) versions.push_back(make(g.below(3) ? g.size(0, 20000) : size));
	const std::string &content = versions[0];
	c.show("%s of %zu bytes as %s, %s", mode == 1 ? "template" : mode == 4 ? "directory" : mode >= 2 ? "missing file" : "file", content.size(), quote(rel ? path : path.substr(dir.size())).c_str(), preset ? "with a mimetype set" : "");
	auto context = [] { void *cx = sh_ctx_new(); sh_add_string(cx, "name", "the value"); sh_add_int(cx, "num", -42); return cx; };
	std::string want; bool holes = g.flip();
	bool there = mode < 2 || mode == 5;
	bool link = there && g.below(5) == 4; if (link) { std::string to = dir + "/target" + g.pick(std::vector<std::string>{"", ".js", ".txt"}); unlink(path.c_str()); unlink(to.c_str()); CHECK(symlink(to.c_str(), path.c_str()) == 0, "symlink"); c.label("symbolic link"); }
	auto put = [&](const std::string &content) { // writes the file
	want = content;
	if (mode == 1) { void *cx = context(); size_t n = 0; Exact t(content); char *r = sh_render(cx, t.p, content.size(), &n); want.assign(r, n); free(r); sh_ctx_free(cx); }
	if (there) { if (holes) write_sparse(path, content); else write_file(path, content); }
	};
	put(content);
	if (there) ; else if (mode < 4) unlink(path.c_str()); else path = rel ? "." : dir;
	std::string want_type = preset ? pm : type;
	if (g.below(4) == 3) { // what the file helpers say
		struct timespec ts[2] = {{(time_t)g.below(0x7fffffff), 0}, {g.flip() ? (time_t)g.below(0x7fffffff) : (time_t)(g.u64() % 8000000000ULL), (long)g.below(1000000000)}};
		if (there) CHECK(utimensat(AT_FDCWD, path.c_str(), ts, 0) == 0, "utimensat");
		struct stat st; bool ok = stat(path.c_str(), &st) == 0;
		CHECK(sh_file_size(path.c_str()) == (ok ? (size_t)st.st_size : 0), "%s of %llu bytes is said to have %zu", ok ? "a file" : "a missing file", ok ? (unsigned long long)st.st_size : 0ULL, sh_file_size(path.c_str()));
		CHECK(sh_file_date(path.c_str()) == (ok ? (long)st.st_mtime : 0), "%s changed at %lld is said to have changed at %ld", ok ? "a file" : "a missing file", ok ? (long long)st.st_mtime : 0LL, sh_file_date(path.c_str()));
		c.label("size and date");
	}
	auto check = [&](int code, const std::string &body, const std::string &mt, const char *how) {
		if (mode == 4) { CHECK(code >= 400 && !body.empty(), "%s: a directory gives status %d and %zu bytes", how, code, body.size()); return; }
		if (mode >= 2) { CHECK(code == 404 && !body.empty(), "%s: a missing or unreadable file gives status %d and %zu bytes", how, code, body.size()); return; }
		CHECK(code == 200, "%s: status %d for %s", how, code, path.c_str());
		CHECK(body == want, "%s: %s of %zu bytes is delivered as %s (%zu bytes), expected %s", how, name.c_str(), content.size(), quote(body).c_str(), body.size(), quote(want).c_str());
		CHECK(mt == want_type, "%s: the mimetype of %s is %s, expected %s", how, quote(rel ? path : path.substr(dir.size())).c_str(), quote(mt).c_str(), quote(want_type).c_str());
	};
	if (g.flip() || mode == 5) {
		auto direct = [&] { std::unique_ptr<NoStdin> ns(no_stdin ? new NoStdin : nullptr); for (auto &v : versions) {
			if (versions.size() > 1) put(v);
			void *resp = sh_resp_new(); int fds = count_fds(), maps = count_maps(dir);
			if (preset) sh_resp_mime(resp, pm.c_str());
			struct rlimit rl, none; getrlimit(RLIMIT_NOFILE, &rl); none = rl; none.rlim_cur = 0;
			if (mode == 5) setrlimit(RLIMIT_NOFILE, &none);
			int code = mode == 1 || mode == 3 ? sh_resp_render(resp, context(), path.c_str()) : sh_resp_mmap(resp, path.c_str());
			setrlimit(RLIMIT_NOFILE, &rl);
			size_t n = 0; char *o = (char *)sh_resp_out(resp, &n);
			CHECK(o || n == 0, "no body");
			check(code, std::string(o ? o : "", n), sh_resp_get_mime(resp), "direct call");
			if (mode == 1 || mode == 3) sh_heap_cleanup(code, resp); else sh_mmap_cleanup(code, resp);
			sh_resp_free(resp);
			CHECK(count_fds() == fds, "delivering %s leaks a file descriptor", path.c_str()); int m2 = count_maps(dir); CHECK(m2 <= maps, "delivering %s leaves it mapped", path.c_str());
		} };
		check_no_leak("delivering a file", direct);
		c.label("direct call");
	} else {
		auto served = [&] { for (auto &v : versions) {
			if (versions.size() > 1) put(v);
			reset_slots(); bool r = mode == 1 || mode == 3;
			slots[0].handle = [&](const sh_view &, const void *, void *resp) { if (preset) sh_resp_mime(resp, pm.c_str()); return r ? sh_resp_render(resp, context(), path.c_str()) : sh_resp_mmap(resp, path.c_str()); };
			slots[0].cleanup = [&](int code, void *resp) { if (r) sh_heap_cleanup(code, resp); else sh_mmap_cleanup(code, resp); };
			void *app = fixed("get", {{"GET", "", 0, 0, 1}});
			Plan pl = whole("GET /file HTTP/1.1\r\n\r\n"); pl.no_stdin = no_stdin;
			Reply rep = exchange(app, pl);
			CHECK(rep.generated && rep.eof && !rep.fd_left_open, "no complete response");
			Response p = parse_response(rep.bytes, "file");
			check(p.code, p.body, p.one("Content-Type"), "served");
			CHECK(count_maps(dir) <= 0, "serving %s leaves it mapped", path.c_str());
			reset_slots();
		} };
		check_no_leak("serving a file", served);
		c.label("served");
	}
	if (there) unlink(path.c_str());
	c.nontrivial = mode >= 2 || content.size() > 1;
	if (no_stdin) c.label("descriptor 0 is free");
	c.label(mode == 0 ? "mapped file" : mode == 5 ? "unreadable file" : mode == 1 ? "rendered file" : mode == 4 ? "directory" : "missing file"); if (mode == 0 && content.empty()) c.label("empty file"); if (mode == 0 && !content.empty() && content.size() % 4096 == 0) c.label("size is a multiple of the page size"); if (mode < 2 && known) c.label("known extension"); if (mode < 2 && type == "application/octet-stream") c.label("unknown extension"); if (mode < 2 && name == base) c.label("no extension"); if (!sub.empty() && sub.find('.') != std::string::npos) c.label("dot in a directory name"); if (rel) c.label("relative path"); if (versions.size() > 1) c.label("the file changes between two deliveries"); if (mode == 0 && holes && content.size() > 8192 && content.find(std::string(8192, '\0')) != std::string::npos) c.label("sparse file");
}

static int reg = [] {
	Prop p; auto asm_ = [](std::vector<std::string> v) { return v; };
	p = Prop(); p.id = "C02"; p.rule = "random route tables (verbs, generated extended regular expressions, 404 handlers) and a request, compared with an independent first-match search; non-trivial: at least two routes"; p.quick = 120000; p.thorough = 4000000; p.run = route_prop; p.assumptions = asm_({"glibc's regcomp/regexec define what an expression matches", "at most 3 match groups (MAX_MATCHES), expressions under 256 characters"}); add(p);
	p = Prop(); p.id = "C03"; p.rule = "a handler's random status, body, mimetype and custom headers against the parsed bytes the client got, under short writes; non-trivial: a body, and custom headers, short writes, over 4 KiB or a status other than 200"; p.quick = 60000; p.thorough = 2000000; p.run = response_prop; p.assumptions = asm_({"status codes the library supports; custom header names start with X-"}); add(p);
	p = Prop(); p.id = "C04"; p.rule = "a random Range header on a random body, compared with the slice it names; non-trivial: at least two body bytes and a satisfiable or certainly unsatisfiable range"; p.quick = 120000; p.thorough = 4000000; p.run = partial_prop; p.known = {{"range-0-0", range_known}}; p.assumptions = asm_({"inverted, suffix, multiple and non-numeric ranges: only the framing is checked", "bytes=0-0 is excluded: known finding"}); add(p);
	p = Prop(); p.id = "C05"; p.rule = "a random request cut into random segments, compared with what was sent; non-trivial: several segments, or at least one read buffer long"; p.quick = 60000; p.thorough = 2000000; p.run = segment_prop; p.case_timeout = 60; add(p);
	p = Prop(); p.id = "C06"; p.rule = "random, structured and damaged requests under AddressSanitizer, each followed by a valid request; non-trivial: more than three bytes"; p.quick = 100000; p.thorough = 5000000; p.run = hostile_prop; p.examples = 16 + LARGE; p.case_timeout = 100; add(p);
	p = Prop(); p.id = "C07"; p.rule = "a history of 1..20 requests of nine handler kinds with early disconnections and rejected requests; heap bytes, file descriptors, mappings and clean-up calls are compared with the state before; non-trivial: at least two requests, with a failure or two handler kinds"; p.quick = 11000; p.thorough = 600000; p.run = resources_prop; p.case_timeout = 60; add(p);
	p = Prop(); p.id = "C14"; p.rule = "a random file (size, name, content) delivered raw or rendered, compared with its bytes or with rendering its text; non-trivial: more than one byte, or a missing file"; p.quick = 40000; p.thorough = 1000000; p.run = file_prop; p.assumptions = asm_({"names ending in a dot or starting with one are not generated"}); add(p);
	return 0;
}();
