// C27 the log.
#include "../engine/engine.hpp"
#include "shim.h"
#include "wraps.hpp"
#include <atomic>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <algorithm>
#include <stdexcept>
#include <thread>
#include <fcntl.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/socket.h>
using namespace pbt;

static const size_t TEXT = 799; // longest text of a message
struct Level { const char *name; char symbol; int colour; bool err; };
static const Level LEVELS[SH_LEVELS] = {{"INFO", '-', 34, false}, {"DEBUG", '^', 91, false}, {"WARN", '!', 33, false}, {"ERR", 'x', 31, true}, {"FUN", '~', 36, false}, {"DB", '~', 35, false}};
enum { FUN = 4 };
// Some local time with a summer time and an odd difference.
static void somewhere() { static bool once = false; if (!once) { once = true; setenv("TZ", "XST-5:45XDT,M3.2.0,M11.1.0", 1); tzset(); } }
static std::string symbol(int level) { char b[32]; snprintf(b, sizeof b, "[\x1b[%dm%c\x1b[0m]", LEVELS[level].colour, LEVELS[level].symbol); return b; }
static std::string stamp(time_t t) { struct tm tm; char b[64]; localtime_r(&t, &tm); strftime(b, sizeof b, "%b %d %H:%M:%S", &tm); return b; }
static std::string line(time_t t, int level, const std::string &text) { return stamp(t) + " " + symbol(level) + " " + text.substr(0, TEXT) + "\n"; }

// Standard output and standard error go to files of their own while one of these exists.
struct Capture {
	static char buffer[1 << 16]; // as when it is no terminal: nothing appears unless it is flushed
	int saved[2], fd[2]; off_t at[2] = {0, 0};
	Capture() { for (int i = 0; i < 2; i++) { fflush(i ? stderr : stdout); saved[i] = fcntl(i + 1, F_DUPFD_CLOEXEC, 100); fd[i] = memfd_create("log", MFD_CLOEXEC); if (saved[i] < 0 || fd[i] < 0 || dup2(fd[i], i + 1) < 0) throw std::runtime_error("capture"); } setvbuf(stdout, buffer, _IOFBF, sizeof buffer); }
	~Capture() { for (int i = 0; i < 2; i++) { fflush(i ? stderr : stdout); dup2(saved[i], i + 1); close(saved[i]); close(fd[i]); } setvbuf(stdout, nullptr, _IOLBF, 0); }
	Capture(const Capture &) = delete;
	std::string more(int i) { off_t end = lseek(fd[i], 0, SEEK_END); std::string s(end - at[i], '\0'); if (!s.empty() && pread(fd[i], &s[0], s.size(), at[i]) != (ssize_t)s.size()) throw std::runtime_error("capture"); at[i] = end; return s; }
};

char Capture::buffer[1 << 16];

struct Message { int level; int kind; std::string s; long n; time_t t; std::string text; };
static Message message(Gen &g, bool feeds) {
	Message m; m.level = g.below(SH_LEVELS); m.kind = g.below(SH_LOG_KINDS); m.n = g.flip() ? g.range(-1000, 1000) : (long)g.u64();
	m.t = g.flip() ? g.below(0x7fffffff) : (time_t)(g.u64() % 250000000000ULL);
	size_t n = g.below(4) == 3 ? TEXT - 20 + g.below(40) : g.size(0, 2500);
	m.s = g.below(3) == 2 ? g.text(n, "%s%n%d%x{}$\\\"' ") : g.bytes(n, 3);
	for (auto &c : m.s) if (!feeds && c == '\n') c = '?'; else if (m.kind == 1 && c == '%') c = '/';
	char b[8192];
	switch (m.kind) {
	case 0: case 1: m.text = m.s; break;
	case 2: snprintf(b, sizeof b, "%i \"%s\" %zu 100%% %c", (int)m.n, m.s.c_str(), (size_t)m.n, 'A' + (int)(m.n & 15)); m.text = b; break;
	default: snprintf(b, sizeof b, "%s|%ld|%8.3s|%x", m.s.c_str(), m.n, m.s.c_str(), (unsigned)m.n); m.text = b;
	}
	return m;
}
static void send_message(const Message &m) { fake_time = m.t; sh_log(m.level, m.kind, m.s.c_str(), m.n); fake_time = -1; }

// One request, answered in the calling thread.
struct Ask { std::string raw; int code; std::string body; std::string file; bool routed, accepted; time_t t; std::string text; bool answered; };
static thread_local Ask *asking = nullptr;
extern "C" int cb_handler(int, const void *, void *resp) {
	if (!asking->file.empty()) return sh_resp_mmap(resp, asking->file.c_str());
	sh_resp_raw(resp, asking->body.data(), asking->body.size());
	return asking->code;
}
extern "C" void cb_cleanup(int, int code, void *resp) { if (!asking->file.empty()) sh_mmap_cleanup(code, resp); }

static const std::string PLAIN = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_.;:/()%$\"'";
static Ask ask(Gen &g, Ctx &c) {
	Ask a; a.routed = g.below(6) != 5; a.accepted = g.below(10) != 9; a.answered = false; a.t = g.below(0x7fffffff);
	std::string verb = g.pick(std::vector<std::string>{"GET", "POST", "PUT", "X-VERB-OF-15-CH"});
	std::string path = "/" + g.text(g.below(6) == 5 ? 510 - g.below(3) : g.size(0, 100), PLAIN + "?&=#\xc3\xa4");
	std::vector<std::string> lines; std::string ip = "NOIP", agent = "NOUSERAGENT";
	auto value = [&](size_t hi) { std::string v = g.below(4) == 3 ? g.text(g.size(1, 60), "%snd*. 1") : g.text(g.below(5) == 4 ? 200 + g.below(900) : g.size(1, hi), PLAIN + " \xe2\x82\xac"); for (char *q : {&v.front(), &v.back()}) if (*q == ' ') *q = '_'; return v; };
	if (g.flip()) { ip = g.flip() ? "192.0.2." + std::to_string(g.below(256)) : value(40); lines.push_back("X-Real-IP: " + ip); }
	if (g.below(4)) { agent = value(120); lines.push_back("User-Agent: " + agent); }
	size_t others = g.below(4); for (size_t i = 0; i < others; i++) lines.push_back("X-" + g.text(1 + g.below(5), "abc") + ": " + value(60));
	a.code = g.below(2) ? 200 : g.pick(std::vector<int>{301, 302, 400, 403, 500, 200}); a.body = std::string(g.below(4) ? g.below(10000) : g.size(0, 60000), 'b');
	bool range = g.below(4) == 3;
	if (range) lines.push_back("Range: bytes=1-" + std::to_string(2 + g.below(100)));
	for (size_t i = lines.size(); i > 1; i--) std::swap(lines[i - 1], lines[g.below((uint32_t)i)]);
	a.raw = verb + " " + path + " HTTP/1.1\r\n"; for (auto &l : lines) a.raw += l + "\r\n"; a.raw += "\r\n";
	if (!a.accepted) a.raw.resize(g.below((uint32_t)a.raw.size() - 1));
	size_t size = a.body.size();
	if (a.accepted && a.routed && range && g.below(40) == 39) { // large, and sparse
		size = g.pick(std::vector<size_t>{0x7fffffff, 0x80000000, 0xffffffff, 0x100000000, 0x12345678a}); static int serial = 0; a.file = scratch_dir() + "/sparse" + std::to_string(++serial); a.code = 200;
		int fd = open(a.file.c_str(), O_CREAT | O_RDWR | O_TRUNC, 0644); if (fd < 0 || ftruncate(fd, size)) throw std::runtime_error("sparse file"); close(fd);
		c.label("file over 2 GB");
	}
	int code = a.code;
	if (!a.routed) { code = 404; size = strlen("<h1>\"Welcome to Die|</h1>"); }
	if (range && code == 200 && size) code = 206;
	a.text = ip + " \"" + verb + " " + path + "\" " + std::to_string(code) + " " + std::to_string(size) + " \"" + agent + "\"";
	if (a.text.size() > TEXT) c.label("line cut off");
	return a;
}
static void serve(Ask &a) {
	int sv[2]; if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) return;
	sh_route rt[] = {{"GET", "", 0, 0, 1}, {"POST", "^/", 0, 0, 1}, {"PUT", ".", 0, 0, 1}, {"X-VERB-OF-15-CH", "", 0, 0, 1}};
	void *app = sh_app_new(rt, a.routed ? 4 : 0);
	int big = 1 << 20; for (int fd : sv) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
	if (send(sv[1], a.raw.data(), a.raw.size(), MSG_NOSIGNAL) == (ssize_t)a.raw.size()) {
		shutdown(sv[1], SHUT_WR); asking = &a; fake_time = a.t;
		void *h = sh_generate(sv[0], app);
		if (!h) close(sv[0]); else { a.answered = true; while (h) h = sh_send(h); }
		fake_time = -1; asking = nullptr;
	}
	close(sv[1]); sh_app_free(app);
}

// Runs f(i) in n threads that start together.
template <class F> static void together(int n, F f) {
	std::atomic<int> ready{0}; std::vector<std::thread> t;
	for (int i = 0; i < n; i++) t.emplace_back([&, i] { ready++; while (ready < n) ; f(i); });
	for (auto &x : t) x.join();
}
static std::vector<std::string> split(const std::string &s) {
	std::vector<std::string> v; size_t at = 0;
	while (at < s.size()) { size_t e = s.find('\n', at); e = e == std::string::npos ? s.size() : e + 1; v.push_back(s.substr(at, e - at)); at = e; }
	return v;
}
static void same_lines(std::vector<std::string> got, std::vector<std::string> want, const char *what) {
	std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
	for (size_t i = 0, j = 0; i < got.size() || j < want.size();) {
		if (i < got.size() && j < want.size() && got[i] == want[j]) { i++; j++; continue; }
		bool extra = j == want.size() || (i < got.size() && got[i] < want[j]);
		fail("%s: the line %s is %s (%zu lines, expected %zu)", what, quote(extra ? got[i] : want[j], 1000).c_str(), extra ? "logged but was not expected" : "missing", got.size(), want.size());
	}
}

static void log_prop(Gen &g, Ctx &c) {
	somewhere();
	signal(SIGPIPE, SIG_IGN);
	size_t mode = g.weighted({5, 4, 5, 4});
	if (mode == 0) { // one message after the other
		size_t n = 1 + g.below(8); Capture cap; c.label("messages of one thread");
		for (size_t i = 0; i < n; i++) {
			Message m = message(g, true); c.show("%s(%d) %s at %lld; ", LEVELS[m.level].name, m.kind, quote(m.s).c_str(), (long long)m.t);
			send_message(m);
			std::string got[2] = {cap.more(0), cap.more(1)}, want = line(m.t, m.level, m.text); int err = LEVELS[m.level].err;
			CHECK(got[!err].empty(), "a message of level %s wrote %s to standard %s", LEVELS[m.level].name, quote(got[!err]).c_str(), err ? "output" : "error");
			CHECK(got[err] == want, "a message of level %s wrote %s, expected %s", LEVELS[m.level].name, quote(got[err], 1000).c_str(), quote(want, 1000).c_str());
			if (m.text.size() > TEXT) c.label("text cut off"); if (m.s.find('%') != std::string::npos) c.label("per cent signs in the text");
			c.nontrivial |= n > 1 || !m.s.empty();
		}
	} else if (mode == 1) {
		int n = 2 + g.below(7); std::vector<std::vector<Message>> ms(n); size_t total = 0;
		bool only = g.flip(); int level = g.below(SH_LEVELS); // more of a crowd if all of them go to one stream
		for (auto &v : ms) { size_t k = 1 + g.below(12); for (size_t i = 0; i < k; i++) { v.push_back(message(g, false)); if (only) v.back().level = level; total++; } }
		c.show("%d threads log %zu messages, the first %s", n, total, quote(ms[0][0].s).c_str()); c.label("messages of several threads");
		std::string got[2]; { Capture cap; together(n, [&](int i) { for (auto &m : ms[i]) send_message(m); }); for (int i = 0; i < 2; i++) got[i] = cap.more(i); }
		std::vector<std::string> want[2];
		for (auto &v : ms) for (auto &m : v) want[LEVELS[m.level].err].push_back(line(m.t, m.level, m.text));
		for (int i = 0; i < 2; i++) same_lines(split(got[i]), want[i], i ? "standard error" : "standard output");
		// Each thread's messages in order.
		for (int e = 0; e < 2; e++) for (auto &v : ms) {
			auto lines = split(got[e]); size_t at = 0;
			for (auto &m : v) if (LEVELS[m.level].err == e) { std::string w = line(m.t, m.level, m.text); while (at < lines.size() && lines[at] != w) at++; CHECK(at++ < lines.size(), "the line %s is out of order", quote(w, 500).c_str()); }
		}
		c.nontrivial = true;
	} else {
		int n = mode == 2 ? 1 : 2 + g.below(5); std::vector<std::vector<Ask>> as(n); size_t total = 0;
		for (auto &v : as) { size_t k = 1 + g.below(4); for (size_t i = 0; i < k; i++) { v.push_back(ask(g, c)); total++; } }
		c.show("%d threads answer %zu requests, the first %s, expected line %s", n, total, quote(as[0][0].raw, 500).c_str(), quote(as[0][0].text, 500).c_str());
		c.label(n == 1 ? "requests in one thread" : "requests in several threads");
		std::string got; { Capture cap; if (n == 1) for (auto &a : as[0]) serve(a); else together(n, [&](int i) { for (auto &a : as[i]) serve(a); }); got = cap.more(0); }
		std::vector<std::string> want, lines;
		for (auto &v : as) for (auto &a : v) {
			CHECK(a.answered == a.accepted, "the request %s was %s", quote(a.raw, 500).c_str(), a.answered ? "answered" : "rejected");
			if (a.accepted) want.push_back(line(a.t, FUN, a.text)); else c.label("rejected request");
			if (!a.file.empty()) unlink(a.file.c_str());
			c.nontrivial |= total > 1 || a.accepted;
		}
		for (auto &l : split(got)) if (l.find(symbol(FUN)) != std::string::npos) lines.push_back(l);
		same_lines(lines, want, "request lines on standard output");
	}
}

static int reg = [] {
	Prop p;
	p.id = "C27"; p.rule = "several messages or requests, a message with a text, or an answered request"; p.quick = 12000; p.thorough = 500000; p.run = log_prop; p.guided = false; p.confirm = 20; p.confirm_min = 1; add(p);
	return 0;
}();
