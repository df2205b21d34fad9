// C28 threads.
#include "../engine/engine.hpp"
#include "shim.h"
#include "wraps.hpp"
#include <algorithm>
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <thread>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/socket.h>
#include <sys/stat.h>
using namespace pbt;

// A job uses objects of its own only and returns everything the library told it.
struct Job { const char *what; std::string show; std::function<std::string()> run; };

static const std::string ALPHA = "abcdefghijklmnopqrstuvwxyz", ALNUM = ALPHA + "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static std::string take(char *p) { if (!p) return "(none)"; std::string s = p; free(p); return s; }
static void say(std::string &out, const std::string &s) { out += std::to_string(s.size()) + ":" + s + "\n"; }
static void write_file(const std::string &path, const std::string &s) { FILE *f = fopen(path.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size() || fclose(f)) throw std::runtime_error("cannot write " + path); }

static std::string name(Gen &g) { return g.pick(std::vector<std::string>{"a", "ab", "abc", "b", "name", "Name", "x", "names", "q"}) + (g.below(3) == 2 ? std::to_string(g.below(30)) : ""); }
static std::string encoded(Gen &g, size_t n) {
	std::string s; static const char *hex = "0123456789abcdefABCDEF";
	for (size_t i = 0; i < n; i++) switch (g.below(4)) { case 0: s += '%'; s += hex[2 + g.below(6)]; s += hex[g.below(22)]; break; case 1: s += '+'; break; default: s += ALNUM[g.below(62)]; }
	return s;
}
static std::string form(Gen &g) { std::string s; size_t n = 1 + g.below(12); for (size_t i = 0; i < n; i++) s += (i ? "&" : "") + name(g) + "=" + encoded(g, g.below(40)); return s; }
static std::string cookies(Gen &g) { std::string s; size_t n = 1 + g.below(8); for (size_t i = 0; i < n; i++) s += (i ? "; " : "") + name(g) + "=" + g.text(g.below(40), ALNUM); return s; }
static std::string range(Gen &g) { return "bytes=" + std::to_string(g.below(3) ? g.below(3000) : g.u64() >> g.below(60)) + "-" + (g.flip() ? std::to_string(g.below(5000)) : ""); }
struct Asked { std::string verb, path, raw; std::vector<std::string> names; };
static Asked asked(Gen &g) {
	Asked a; a.verb = g.flip() ? "GET" : "POST"; a.path = "/" + name(g) + "/" + g.text(g.size(0, 200), ALNUM);
	a.raw = a.verb + " " + a.path + " HTTP/1.1\r\n"; std::string body; size_t n = g.below(8);
	for (size_t i = 0; i < n; i++) { a.names.push_back("X-" + name(g)); a.raw += a.names.back() + ": " + g.text(g.size(1, 100), ALNUM + " ,=") + "\r\n"; }
	if (g.flip()) a.raw += "Cookie: " + cookies(g) + "\r\n"; if (g.below(4) == 3) a.raw += "Range: " + range(g) + "\r\n";
	if (g.flip()) a.raw += "User-Agent: " + g.text(g.size(1, 100), ALNUM) + "\r\n";
	if (a.verb == "POST") { body = g.flip() ? form(g) : g.bytes(g.below(3000), 2); a.raw += "Content-Type: " + std::string(g.flip() ? "application/x-www-form-urlencoded" : "text/plain") + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n"; }
	a.names.insert(a.names.end(), {"Cookie", "Range", "User-Agent", "Content-Type", "Content-Length", "X-Absent"});
	a.raw += "\r\n" + body;
	return a;
}
static const std::vector<std::string> NAMES{"a", "ab", "abc", "b", "name", "Name", "x", "names", "q", "a1", "b2", "x7"};
static void view(std::string &out, const void *req, const std::vector<std::string> &names) {
	sh_view v; sh_req_view(req, &v); say(out, v.verb); say(out, v.resource); say(out, std::string(v.header, v.header_len)); say(out, std::string((const char *)v.body, v.body_len));
	for (auto &n : names) say(out, take(sh_header_req(req, n.c_str())));
	for (int i = 0; i < v.max_matches; i++) say(out, std::to_string(v.so[i]) + "-" + std::to_string(v.eo[i]));
	char *c = sh_header_req(req, "Cookie"); if (c) { for (auto &n : NAMES) say(out, take(sh_cookie(c, strlen(c), n.c_str()))); free(c); }
	if (v.form) for (auto &n : NAMES) { size_t k = 0; const char *p = (const char *)sh_dict_get(v.form, n.c_str(), n.size(), &k); say(out, p ? std::string(p, k) : "(none)"); }
}

// Templates.
static char *f_upper(const char *a) { std::string s = a ? a : "nothing"; for (auto &c : s) c = toupper(c); return strdup(s.c_str()); }
static char *f_wrap(const char *a) { return strdup(("<" + std::string(a ? a : "") + ">").c_str()); }
struct Data { std::vector<std::pair<std::string, std::string>> strings; std::vector<std::pair<std::string, int>> ints; std::vector<std::pair<std::string, std::vector<std::string>>> arrays; std::vector<std::pair<std::string, std::string>> subs; };
static Data data(Gen &g) {
	Data d; auto text = [&] { return g.text(g.size(0, 100), ALNUM + " <>&") ; };
	for (const char *n : {"s_one", "s_two", "s"}) d.strings.push_back({n, g.below(8) == 7 ? "FALSE" : text()});
	for (char l = 'a'; l <= 'x'; l++) d.strings.push_back({std::string("v_") + l, text()});
	for (const char *n : {"i", "i_two"}) d.ints.push_back({n, (int)g.u64()});
	for (const char *n : {"arr", "arr_two"}) { std::vector<std::string> v(g.below(6)); for (auto &s : v) s = text(); d.arrays.push_back({n, v}); }
	for (const char *n : {"sub", "sub_two"}) d.subs.push_back({n, text()});
	return d;
}
static void *context(const Data &d) {
	void *c = sh_ctx_new();
	for (auto &x : d.strings) sh_add_string(c, x.first.c_str(), x.second.c_str());
	for (auto &x : d.ints) sh_add_int(c, x.first.c_str(), x.second);
	for (auto &x : d.arrays) { void *a = sh_add_array(c, x.first.c_str()); for (auto &s : x.second) sh_arr_add_string(a, s.c_str()); sh_handle_free(a); }
	for (auto &x : d.subs) { void *s = sh_ctx_new(); sh_add_string(s, "m", x.second.c_str()); sh_add_sub(c, x.first.c_str(), s); }
	sh_add_filter(c, "upper", f_upper, sh_filter_cleanup); sh_add_filter(c, "wrap", f_wrap, sh_filter_cleanup);
	return c;
}
static std::string tmpl(Gen &g, const std::string &include) {
	std::string t; size_t n = 1 + g.below(8);
	auto ref = [&] { std::vector<std::string> v{"s_one", "s_two", "s", "i", "i_two", "sub.m", "sub_two.m"}; for (int k = 0; k < 7; k++) v.push_back(std::string("v_") + char('a' + g.below(24))); return "xXx @" + g.pick(v) + " xXx"; };
	for (size_t i = 0; i < n; i++) {
		t += g.text(g.below(20), ALNUM + " ");
		switch (g.below(6)) {
		case 0: t += ref() + ref(); break;
		case 1: t += "XxX " + g.pick(std::vector<std::string>{"upper", "wrap"}) + " " + (g.flip() ? ref() : g.text(1 + g.below(20), ALNUM)) + " XxX"; break;
		case 2: t += "\nxXx LOOP item " + g.pick(std::vector<std::string>{"arr", "arr_two"}) + " xXx[xXx @item xXx " + (g.flip() ? ref() : "") + "]xXx BBL xXx"; break;
		case 3: t += "\nxXx UNLESS " + std::string(g.flip() ? "NOT " : "") + "@" + g.pick(std::vector<std::string>{"s", "s_one", "arr", "arr_two"}) + " xXxshown " + ref() + "\nxXx ENDLESS xXx"; break;
		case 4: if (!include.empty()) t += "\nxXx SCREAM " + include + " xXx"; break;
		default: break;
		}
		t += "\n";
	}
	return t;
}

// Whole requests.
struct Serve { Asked a; int status; std::string body, type, file; std::vector<std::pair<std::string, std::string>> headers; int how; Data d; std::string seen; };
static thread_local Serve *serving = nullptr;
extern "C" int cb_handler(int slot, const void *req, void *resp) {
	Serve &s = *serving; s.seen += std::to_string(slot); view(s.seen, req, s.a.names);
	for (auto &h : s.headers) sh_resp_header(resp, h.first.data(), h.first.size(), h.second.data(), h.second.size());
	if (!s.type.empty()) sh_resp_mime(resp, s.type.c_str());
	switch (s.how) {
	case 0: { char *o = (char *)malloc(s.body.size() + 1); memcpy(o, s.body.data(), s.body.size()); sh_resp_set(resp, o, s.body.size()); return s.status; }
	case 1: return sh_resp_mmap(resp, s.file.c_str());
	default: return sh_resp_render(resp, context(s.d), s.file.c_str());
	}
}
extern "C" void cb_cleanup(int slot, int code, void *resp) {
	Serve &s = *serving; s.seen += "c" + std::to_string(slot) + "," + std::to_string(code);
	if (s.how == 0) sh_heap_cleanup_no_check(code, resp); else if (s.how == 1) sh_mmap_cleanup(code, resp); else sh_heap_cleanup(code, resp);
}
static std::string serve(Serve &s) {
	int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) throw std::runtime_error("socketpair");
	sh_route rt[] = {{"GET", "^/a[a-z0-9]*/(.*)$", 1, 0, 1}, {"POST", "^/([a-z0-9]+)/(.*)$", 2, 1, 1}, {"GET", "^/(n)ame", 1, 2, 1}, {"GET", "/", 0, 3, 1}, {"POST", "", 0, 4, 1}};
	void *app = sh_app_new(rt, 5); std::string out; s.seen.clear();
	int big = 1 << 20; for (int fd : sv) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
	if (send(sv[1], s.a.raw.data(), s.a.raw.size(), MSG_NOSIGNAL) != (ssize_t)s.a.raw.size()) throw std::runtime_error("send");
	shutdown(sv[1], SHUT_WR); serving = &s;
	void *h = sh_generate(sv[0], app); if (!h) close(sv[0]); while (h) h = sh_send(h);
	serving = nullptr; char b[65536]; ssize_t n; while ((n = recv(sv[1], b, sizeof b, 0)) > 0) out.append(b, n);
	close(sv[1]); sh_app_free(app); say(out, s.seen);
	return out;
}

static const char *KINDS[] = {"parse requests", "decode", "look up cookies", "parse ranges", "search and hash", "use vectors", "use dictionaries", "use sparse arrays", "render", "render one context", "answer requests", "deliver files", "build contexts"};
static const int NKINDS = sizeof KINDS / sizeof *KINDS;
struct Shared { Data d; std::string t; std::shared_ptr<void> ctx; std::string include; };
static Job job(Gen &g, int kind, Shared &sh, int serial) {
	Job j; j.what = KINDS[kind];
	switch (kind) {
	case 0: { auto a = std::make_shared<Asked>(asked(g)); j.show = quote(a->raw, 300); j.run = [a] {
		std::string out; Exact raw(a->raw, true); void *r = sh_req_new(); int rc = sh_parse_request((const unsigned char *)raw.p, a->raw.size(), r); say(out, std::to_string(rc));
		sh_view v; sh_req_view(r, &v); size_t body = a->raw.size() - v.header_len;
		if (body) { rc = sh_parse_body(body, body, (const unsigned char *)raw.p, r); say(out, std::to_string(rc)); rc = sh_parse_form(r); say(out, std::to_string(rc)); }
		view(out, r, a->names); sh_req_free(r); return out; }; break; }
	case 1: { auto s = std::make_shared<std::string>(encoded(g, g.size(0, 300))); j.show = quote(*s); j.run = [s] { std::string o(s->size() + 1, '\1'); int n = sh_url_decode(s->c_str(), &o[0]); return std::to_string(n) + o; }; break; }
	case 2: { auto s = std::make_shared<std::string>(cookies(g)); j.show = quote(*s); j.run = [s] { std::string out; for (auto &n : NAMES) say(out, take(sh_cookie(s->data(), s->size(), n.c_str()))); return out; }; break; }
	case 3: { auto s = std::make_shared<std::string>(range(g)); j.show = *s; j.run = [s] { size_t a, b; sh_range(s->c_str(), &a, &b); return std::to_string(a) + "," + std::to_string(b); }; break; }
	case 4: { auto s = std::make_shared<std::string>(g.text(g.size(0, 500), "ab")); auto n = std::make_shared<std::string>(g.text(g.below(6), "ab")); j.show = quote(*s) + " " + quote(*n); j.run = [s, n] {
		char b[64]; sh_hash((const unsigned char *)s->data(), s->size(), b); char *p = sh_strnstr(s->c_str(), n->c_str(), s->size() - s->size() / 4); return std::string(b) + "," + std::to_string(p ? p - s->c_str() : -1) + "," + std::to_string(!!sh_endswith(s->c_str(), n->c_str())); }; break; }
	case 5: { size_t item = g.size(1, 300), n = g.below(200); uint32_t k = g.below(250); j.show = std::to_string(n) + " items of " + std::to_string(item); j.run = [item, n, k] {
		void *v = sh_vec_new(item, 1); std::string x(item, 0), out; for (size_t i = 0; i < n; i++) { for (size_t q = 0; q < item; q++) x[q] = k + i * 7 + q; sh_vec_append(v, x.data(), item); if (i % 9 == 5) sh_vec_reverse(v); }
		for (size_t i = 0; i < n; i++) out += std::string((const char *)sh_vec_get(v, i), item); sh_vec_free(v); return out; }; break; }
	case 6: { size_t n = g.below(150); uint32_t k = g.below(1000); size_t vl = g.size(1, 100); j.show = std::to_string(n) + " keys"; j.run = [n, k, vl] {
		void *d = sh_dict_new(); std::string out; auto key = [&](size_t i) { return "key" + std::to_string(k + i * 13 % 101); };
		for (size_t i = 0; i < n; i++) { std::string v(vl, char('a' + (k + i) % 26)), q = key(i); sh_dict_set(d, q.data(), q.size(), v.data(), v.size()); }
		for (size_t i = 0; i < n + 3; i++) { std::string q = key(i); size_t m = 0; const char *p = (const char *)sh_dict_get(d, q.data(), q.size(), &m); say(out, p ? std::string(p, m) : "(none)"); }
		sh_dict_free(d); return out; }; break; }
	case 7: { uint32_t max = 1 + g.below(300), n = g.below(100), k = g.below(1000); j.show = std::to_string(n) + " elements"; j.run = [max, n, k] {
		void *a = sh_arr_new(16, max); std::string out; for (uint32_t i = 0; i < n; i++) { std::string v(1 + (k + i) % 16, char('a' + (k + i) % 26)); sh_arr_set(a, (k + i * 37) % max, v.data(), v.size()); }
		for (uint32_t i = 0; i < max; i++) { size_t m = 0; const char *p = (const char *)sh_arr_get(a, i, &m); say(out, p ? std::string(p, m) : "(none)"); } sh_arr_free(a); return out; }; break; }
	case 8: { auto d = std::make_shared<Data>(data(g)); auto t = std::make_shared<std::string>(tmpl(g, sh.include)); j.show = quote(*t, 400); j.run = [d, t] { void *c = context(*d); size_t n = 0; Exact e(*t); char *r = sh_render(c, e.p, t->size(), &n); std::string out(r, n); free(r); sh_ctx_free(c); return out; }; break; }
	case 9: { auto c = sh.ctx; auto t = std::make_shared<std::string>(g.flip() ? sh.t : tmpl(g, sh.include)); j.show = quote(*t, 400); j.run = [c, t] { size_t n = 0; Exact e(*t); char *r = sh_render(c.get(), e.p, t->size(), &n); std::string out(r, n); free(r); return out; }; break; }
	case 12: { size_t n = 1 + g.below(40); uint32_t k = g.below(1000000); j.show = std::to_string(n) + " values from " + std::to_string(k); j.run = [n, k] {
		void *c = sh_ctx_new(), *s = sh_ctx_new(), *ints = sh_add_array(c, "ints"), *strs = sh_add_array(c, "strs"), *subs = sh_add_array(c, "subs"); auto str = [&](size_t i) { return "value" + std::to_string(k + i * 31); };
		for (size_t i = 0; i < n; i++) { int v = (int)(k * 2654435761u + i * 7919); std::string nm = "n" + std::to_string(i);
			sh_arr_add_int(ints, v); sh_add_int(c, ("i" + nm).c_str(), v ^ 1); sh_arr_add_string(strs, str(i).c_str()); sh_add_string(c, nm.c_str(), str(i + 1).c_str()); sh_add_int(s, nm.c_str(), ~v);
			void *m = sh_ctx_new(); sh_add_int(m, "v", v / 3); sh_add_string(m, "t", str(i + 2).c_str()); sh_arr_add_sub(subs, m); }
		sh_add_sub(c, "s", s); sh_add_filter(c, "upper", f_upper, sh_filter_cleanup); for (void *h : {ints, strs, subs}) sh_handle_free(h);
		std::string t = "xXx LOOP q ints xXxxXx @q xXx,xXx BBL xXx\nxXx LOOP q strs xXxxXx @q xXx,xXx BBL xXx\nxXx LOOP q subs xXxxXx @q.v xXx:xXx @q.t xXx,xXx BBL xXx\n"; for (size_t i = 0; i < n; i += 5) { std::string nm = "n" + std::to_string(i); t += "xXx @i" + nm + " xXx xXx @" + nm + " xXx xXx @s." + nm + " xXx\n"; }
		size_t l = 0; char *r = sh_render(c, t.data(), t.size(), &l); std::string out(r, l); free(r); sh_ctx_free(c); return out; }; break; }
	default: {
		auto s = std::make_shared<Serve>(); s->a = asked(g); s->how = g.weighted({3, 1, 1}); s->status = g.pick(std::vector<int>{200, 301, 400, 404, 500}); s->body = g.bytes(g.size(1, 20000), 2);
		if (g.flip()) s->type = "text/" + g.text(1 + g.below(20), ALPHA); size_t nh = g.below(5); for (size_t i = 0; i < nh; i++) s->headers.push_back({"Y-" + name(g), g.text(g.size(1, 300), ALNUM + " ;")});
		s->d = data(g); if (kind == 11) { s->how = 1 + g.below(2); s->type.clear(); }
		static const std::vector<std::string> ext{".txt", ".css", ".html", ".json", ".bin", "", ".jpg", ".js"};
		s->file = scratch_dir() + "/f" + std::to_string(serial) + g.pick(ext);
		if (s->how) { if (s->how == 1) write_file(s->file, g.bytes(g.size(0, 20000), 2)); else write_file(s->file, tmpl(g, sh.include)); }
		if (kind == 10) { j.show = quote(s->a.raw, 300); j.run = [s] { return serve(*s); }; break; }
		j.show = s->file; j.run = [s] {
			void *r = sh_resp_new(); int code = s->how == 1 ? sh_resp_mmap(r, s->file.c_str()) : sh_resp_render(r, context(s->d), s->file.c_str()); size_t n = 0; const char *o = (const char *)sh_resp_out(r, &n);
			std::string out = std::to_string(code) + sh_resp_get_mime(r) + ":" + std::string(o, n) + std::to_string(sh_file_size(s->file.c_str()));
			if (s->how == 1) sh_mmap_cleanup(code, r); else sh_heap_cleanup(code, r); sh_resp_free(r); return out; };
	} }
	return j;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void threads_prop(Gen &g, Ctx &c) {
	signal(SIGPIPE, SIG_IGN);
	static const std::string include = [] { std::string n = "inc.tmpl"; if (chdir(scratch_dir().c_str())) throw std::runtime_error("chdir"); write_file(n, "included xXx @s xXx XxX upper xXx @s_two xXx XxX\n"); return n; }();
	Shared sh; sh.include = include; sh.d = data(g); sh.t = tmpl(g, include); sh.ctx = std::shared_ptr<void>(context(sh.d), sh_ctx_free);
	int n = 2 + g.below(5), same = g.below(4) ? (int)g.below(NKINDS) : -1, serial = 0;
	std::vector<std::vector<Job>> jobs(n); std::vector<std::vector<std::string>> want(n); double t0 = now();
	for (int i = 0; i < n; i++) { size_t k = 1 + g.below(4); for (size_t x = 0; x < k; x++) { jobs[i].push_back(job(g, same >= 0 ? same : g.below(NKINDS), sh, serial++)); want[i].push_back(jobs[i].back().run()); } }
	t0 = now() - t0;
	int rounds = std::max(5, std::min(3000, (int)(0.08 / (t0 / serial + 1e-7) / 4)));
	c.show("%d threads, %s, %d rounds: ", n, same >= 0 ? KINDS[same] : "several things", rounds);
	for (int i = 0; i < n; i++) for (auto &j : jobs[i]) c.show("%d: %s %s; ", i, j.what, j.show.c_str());
	std::atomic<int> ready{0}; std::atomic<bool> stop{false}; std::mutex m; std::string bad; std::vector<std::thread> ts;
	for (int i = 0; i < n; i++) ts.emplace_back([&, i] {
		ready++; while (ready < n) ;
		for (int r = 0; r < rounds && !stop; r++) for (size_t x = 0; x < jobs[i].size(); x++) {
			std::string got; try { got = jobs[i][x].run(); } catch (std::exception &e) { got = e.what(); }
			if (got == want[i][x]) continue;
			std::lock_guard<std::mutex> l(m); stop = true; if (!bad.empty()) return;
			size_t d = std::mismatch(got.begin(), got.begin() + std::min(got.size(), want[i][x].size()), want[i][x].begin()).first - got.begin(); size_t from = d > 40 ? d - 40 : 0;
			bad = std::string(jobs[i][x].what) + " " + jobs[i][x].show + " gives ..." + quote(got.substr(from), 200) + " while other threads use objects of their own, and ..." + quote(want[i][x].substr(from), 200) + " on its own"; return;
		}
	});
	for (auto &t : ts) t.join();
	for (auto &v : jobs) for (auto &j : v) c.label(j.what);
	c.label(same >= 0 ? "all threads do the same kind of thing" : "threads do several kinds of things"); c.nontrivial = true;
	if (!bad.empty()) fail("%s", bad.c_str());
}

static int reg = [] {
	Prop p;
	p.id = "C28"; p.rule = "at least two threads use the library at the same time (always)"; p.quick = 900; p.thorough = 40000; p.run = threads_prop; p.guided = false; p.repeat = 0; p.workers = 3; p.confirm = 12; p.confirm_min = 1; p.case_timeout = 60; add(p);
	return 0;
}();
