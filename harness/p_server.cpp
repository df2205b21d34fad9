// C01: a running server (m38_http_serve in a forked process, under AddressSanitizer) and many concurrent clients.
#include "../engine/engine.hpp"
#include "shim.h"
#include "wraps.hpp"
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dirent.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <pthread.h>
#include <stdexcept>
#include <strings.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/socket.h>
#include <cstddef>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace pbt;

// --- what the handlers answer: a function of the request alone ------------------------------------------
static std::string fill(uint32_t id, size_t n, const char *tag) {
	std::string s; s.reserve(n + 64);
	char b[48]; unsigned k = 0;
	while (s.size() < n) { snprintf(b, sizeof b, "%s%u.%u;", tag, id, k++); s += b; }
	s.resize(n); return s;
}
static std::string mangle(const std::string &s) { std::string o(s.rbegin(), s.rend()); for (auto &c : o) c ^= 1; return o; }
static std::string dir; // files, templates
static const int FILES = 5;
static const size_t FILE_SIZES[FILES] = {1, 100, 5000, 70000, 900000};
static std::string file_content(int k) { return fill(k, FILE_SIZES[k], "F"); }
static const char TEMPLATE[] = "Hello xXx @name xXx!\nxXx LOOP i items xXx\n<xXx @i xXx>\nxXx BBL xXx\nxXx UNLESS @no xXx\nshown xXx @id xXx\nxXx ENDLESS xXx\nXxX up xXx @name xXx XxX\n";
static char *up(const char *a) { std::string s = a ? a : ""; for (auto &c : s) c = toupper((unsigned char)c); return strdup(s.c_str()); }
static void up_free(char *p) { free(p); }

enum Kind { SIZED, RAW, ECHO, FILE_, RANGE, TPL, FORM, MISSING, HEADER, KINDS };
static const char *KIND_NAME[KINDS] = {"sized", "raw", "echo", "file", "range", "template", "form", "missing", "header"};

static unsigned num(const char *s, size_t n, size_t &at) { unsigned v = 0; while (at < n && s[at] >= '0' && s[at] <= '9') v = v * 10 + (s[at++] - '0'); return v; }
static char *heap(const std::string &s) { char *p = (char *)malloc(s.size() ? s.size() : 1); memcpy(p, s.data(), s.size()); return p; }
static void nap_ms(unsigned ms) { if (!ms) return; struct timespec t = {ms / 1000, (long)(ms % 1000) * 1000000}; nanosleep(&t, nullptr); }

// Each resource is /<kind>/<id>/<a>/<handler delay in ms>.
extern "C" int cb_handler(int slot, const void *req, void *resp) {
	sh_view v; sh_req_view(req, &v);
	std::string r(v.resource, strnlen(v.resource, v.resource_cap));
	size_t at = r.find('/', 1); unsigned id = 0, a = 0, delay = 0;
	if (at != std::string::npos) { at++; id = num(r.data(), r.size(), at); at++; a = num(r.data(), r.size(), at); at++; delay = num(r.data(), r.size(), at); }
	nap_ms(std::min(delay, 50u));
	std::string out;
	switch (slot) {
	case SIZED: out = fill(id, a, "S"); break;
	case RAW: { std::string s = fill(id, a, "R"); char *p = heap(s); return sh_resp_raw(resp, p, s.size()); }
	case ECHO: out = mangle(std::string((const char *)v.body, v.body_len)); break;
	case FILE_: return sh_resp_mmap(resp, (dir + "/file" + std::to_string(a % FILES)).c_str());
	case TPL: {
		void *c = sh_ctx_new(); std::string n = fill(id, 8 + a % 400, "T");
		sh_add_string(c, "name", n.c_str()); sh_add_int(c, "id", (int)id); sh_add_string(c, "no", "FALSE"); sh_add_filter(c, "up", up, up_free);
		void *h = sh_add_array(c, "items"); for (unsigned k = 0; k < a % 30; k++) sh_arr_add_int(h, (int)(id + k)); sh_handle_free(h);
		return sh_resp_render(resp, c, (dir + "/template").c_str());
	}
	case FORM: {
		sh_parse_form((void *)req); sh_view w; sh_req_view(req, &w);
		out = "form:";
		for (const char *k : {"a", "b", "c"}) { size_t n = 0; void *p = w.form ? sh_dict_get(w.form, k, 1, &n) : nullptr; out += std::string(k) + "=" + (p ? std::string((char *)p, strnlen((char *)p, n)) : "(none)") + ";"; }
		break;
	}
	case MISSING: case SH_SLOT_404: out = "nothing at " + r; break;
	case HEADER: { char *p = sh_header_req(req, "X-Me"); out = p ? p : "(none)"; free(p); sh_resp_header(resp, "X-Copy", 6, out.c_str(), out.size()); break; }
	default: return 500;
	}
	sh_resp_set(resp, heap(out), out.size());
	return slot == SH_SLOT_404 ? 404 : 200;
}
extern "C" void cb_cleanup(int slot, int code, void *resp) {
	if (slot == FILE_) sh_mmap_cleanup(code, resp);
	else if (slot == SH_SLOT_404) sh_heap_cleanup_no_check(code, resp);
	else sh_heap_cleanup(code, resp);
}

// --- clients ---------------------------------------------------------------------------------------------
enum Way { GOOD, GARBAGE, EMPTY, PARTIAL_HEADER, PARTIAL_BODY, VANISH, READ_SOME, OVERSIZED, WAYS };
static const char *WAY_NAME[WAYS] = {"good", "garbage", "says nothing and leaves", "partial header", "partial body", "vanishes after its request", "reads a part and leaves", "announces too much"};
struct Client {
	Way way = GOOD; int kind = 0; uint32_t id = 0; unsigned a = 0, b = 0;
	std::string request, expect; int code = 200;
	std::vector<size_t> cuts; bool half_close = false, reset = false; unsigned start_ms = 0, stay_ms = 0, read_after_ms = 0, pause_ms = 3; int rcvbuf = 0; size_t read_limit = 0; uint32_t address = INADDR_LOOPBACK;
	// running
	int fd = -1; size_t seg = 0, sent = 0; std::string got; enum { WAIT, CONNECT, SEND, READ, STAY, DONE } st = WAIT; double t = 0; bool shut = false; std::string error;
};
static std::string path(int kind, uint32_t id, unsigned a, unsigned delay) {
	static const char *P[] = {"s", "raw", "echo", "file", "file", "tpl", "form", "missing", "header"};
	return std::string("/") + P[kind] + "/" + std::to_string(id) + "/" + std::to_string(a) + "/" + std::to_string(delay);
}
static Client make_client(Gen &g, uint32_t id, bool custom_404, bool files, bool big, bool good = false, bool plain = false) {
	Client c; c.id = id; if (id % 5 == 0) c.address += id % 1777 * 257;
	c.way = good ? GOOD : (Way)g.weighted({12, 1, 1, 1, 1, 2, 2, 1});
	if (plain) c.kind = g.below(2); else c.kind = (int)g.weighted({5, 2, 4, (unsigned)(files ? 3 : 0), (unsigned)(files ? 2 : 0), (unsigned)(files ? 3 : 0), 3, 2, 2});
	unsigned delay = !plain && g.chance(1, 4) ? g.below(20) : 0;
	std::string extra, body; c.a = 0;
	switch (c.kind) {
	case SIZED: case RAW: c.a = (unsigned)(big ? g.range(100000, 900000) : g.chance(1, 3) ? g.range(0, 120000) : g.range(0, 3000)); c.expect = fill(id, c.a, c.kind == SIZED ? "S" : "R"); break;
	case ECHO: { size_t n = big ? g.range(1000, 400000) : g.chance(1, 3) ? g.range(0, 40000) : g.range(0, 2000); body = fill(id, n, "E"); c.expect = mangle(body); break; }
	case FILE_: c.a = g.below(FILES); c.expect = file_content(c.a); break;
	case RANGE: { c.a = g.below(FILES); std::string f = file_content(c.a); size_t lo = g.range(0, f.size() - 1), hi = g.range(lo, f.size() - 1);
		if (hi == 0) { c.expect = f; } else { extra = "Range: bytes=" + std::to_string(lo) + "-" + std::to_string(hi) + "\r\n"; c.expect = f.substr(lo, hi - lo + 1); c.code = 206; } break; }
	case TPL: { c.a = g.below(500); std::string n = fill(id, 8 + c.a % 400, "T"), u = n; for (auto &x : u) x = toupper((unsigned char)x);
		// as the reference renderer of C15..C21 has it for TEMPLATE
		c.expect = "Hello " + n + "!\n"; for (unsigned k = 0; k < c.a % 30; k++) c.expect += "\n<" + std::to_string((int)(id + k)) + ">";
		c.expect += "\nshown " + std::to_string(id) + "\n\n" + u + "\n"; break; }
	case FORM: { std::string x = fill(id, g.range(1, 60), "X"), y = std::to_string(g.below(100000)); body = "a=" + x + "&b=%41" + y + "+z"; c.expect = "form:a=" + x + ";b=A" + y + " z;c=(none);"; break; }
	case MISSING: c.code = 404; c.a = g.below(1000); break;
	case HEADER: { std::string x = fill(id, g.range(1, 200), "H"); extra = "X-Me: " + x + "\r\n"; c.expect = x; break; }
	}
	bool post = c.kind == ECHO || c.kind == FORM;
	std::string p = path(c.kind, id, c.a, delay);
	if (c.kind == MISSING) c.expect = custom_404 ? "nothing at " + p : "<h1>\"Welcome to Die|</h1>";
	if (c.kind == FORM) extra += "Content-Type: application/x-www-form-urlencoded\r\n";
	for (size_t k = g.below(4); k; k--) extra += "X-Pad-" + std::to_string(k) + ": " + std::string(g.below(300), 'p') + "\r\n";
	c.request = (post ? "POST " : "GET ") + p + " HTTP/1.1\r\nHost: localhost\r\n" + extra;
	if (post) c.request += "Content-Length: " + std::to_string(body.size()) + "\r\n";
	c.request += "\r\n" + body;
	c.start_ms = g.chance(1, 2) ? g.below(40) : 0;
	c.half_close = g.chance(1, 5);
	if (g.chance(plain ? 3 : 1, 8)) { c.read_after_ms = g.below(60); if (g.flip()) c.rcvbuf = 8192; }
	size_t head = c.request.size() - body.size();
	switch (c.way) {
	case GOOD: break;
	case GARBAGE: c.request = g.bytes(1 + g.below(400), 2); break;
	case EMPTY: c.request.clear(); break;
	case PARTIAL_HEADER: c.request.resize(g.below((uint32_t)head)); break;
	case PARTIAL_BODY: if (!post) { c.request.resize(head - 2); c.request += "Content-Length: 50000\r\n\r\nxyz"; } else if (!body.empty()) c.request.resize(head + g.below((uint32_t)body.size())); else c.request.resize(head - 2); break;
	case VANISH: break;
	case READ_SOME: c.read_limit = g.below(20000); break;
	case OVERSIZED: c.request = "POST " + p + " HTTP/1.1\r\nContent-Length: " + std::string(1 + g.below(24), '9') + "\r\n\r\nabc"; break;
	default: break;
	}
	if (c.way != GOOD) { c.reset = g.chance(1, 3); c.half_close = false; c.stay_ms = g.chance(1, 2) ? g.below(30) : 0; }
	for (size_t k = g.weighted({3, 1, 1}); k && c.request.size() > 1; k--) c.cuts.push_back(1 + g.below((uint32_t)c.request.size() - 1));
	c.cuts.push_back(c.request.size()); std::sort(c.cuts.begin(), c.cuts.end());
	return c;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void drop(Client &c, bool reset) {
	if (c.fd < 0) return;
	if (reset) { struct linger l = {1, 0}; setsockopt(c.fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
	close(c.fd); c.fd = -1;
}
static bool well_formed(const Client &c, std::string &why) {
	const std::string &b = c.got;
	size_t e = b.find("\r\n\r\n");
	if (b.empty()) { why = "no response"; return false; }
	if (e == std::string::npos) { why = "a response without the end of its headers: " + quote(b, 100); return false; }
	if (b.compare(0, 7, "HTTP/1.") || b.size() < 12 || atoi(b.c_str() + 9) != c.code) { why = "the status line is " + quote(b.substr(0, b.find("\r\n"))) + " instead of code " + std::to_string(c.code) + ", body " + quote(b.substr(e + 4, 200)); return false; }
	long len = -1; int n = 0; std::string copy;
	for (size_t p = b.find("\r\n") + 2; p < e + 2;) { size_t q = b.find("\r\n", p); std::string l = b.substr(p, q - p); p = q + 2;
		if (!strncasecmp(l.c_str(), "Content-Length:", 15)) { n++; len = strtol(l.c_str() + 15, nullptr, 10); }
		if (!strncasecmp(l.c_str(), "X-Copy: ", 8)) copy = l.substr(8); }
	std::string body = b.substr(e + 4);
	if (n != 1 || (size_t)len != body.size()) { why = std::to_string(n) + " Content-Length headers, the last of " + std::to_string(len) + ", with a body of " + std::to_string(body.size()) + " bytes"; return false; }
	if (body != c.expect) { size_t d = 0; while (d < body.size() && d < c.expect.size() && body[d] == c.expect[d]) d++;
		why = "a body of " + std::to_string(body.size()) + " bytes instead of " + std::to_string(c.expect.size()) + ", different from byte " + std::to_string(d) + ": " + quote(body.substr(d, 60)) + " instead of " + quote(c.expect.substr(d, 60)); return false; }
	if (c.kind == HEADER && copy != c.expect) { why = "custom header " + quote(copy) + " instead of " + quote(c.expect); return false; }
	return true;
}
static std::string name_of(const Client &c) { return "client " + std::to_string(c.id) + " (" + KIND_NAME[c.kind] + ", " + quote(c.request.substr(0, c.request.find("\r\n")), 80) + ")"; }

// --- the server process ------------------------------------------------------------------------------------
struct Shm { volatile int fd; volatile int port; volatile int returned; volatile int ready; volatile int close_stdin; };
struct Server {
	pid_t pid = 0; Shm *s; std::string log;
	~Server() { stop(); }
	void stop() { if (pid > 0) { kill(pid, SIGKILL); waitpid(pid, nullptr, 0); pid = 0; } }
	void check_alive(const char *when) {
		int st; if (waitpid(pid, &st, WNOHANG) != pid) return;
		pid = 0; std::string t; FILE *f = fopen(log.c_str(), "r"); char l[400];
		if (f) { while (fgets(l, sizeof l, f)) if (strstr(l, "ERROR: ") || strstr(l, "SUMMARY") || strstr(l, "Assertion") || strstr(l, "runtime error")) { t += l; } fclose(f); }
		fail("the server died %s: %s %d %s", when, WIFSIGNALED(st) ? "signal" : "exit status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st), t.substr(0, 900).c_str());
	}
	// Sockets besides the listening one, and files in the scratch directory.
	int left_open() {
		int n = -1; char p[64]; snprintf(p, sizeof p, "/proc/%d/fd", (int)pid); DIR *d = opendir(p); if (!d) return 0;
		while (struct dirent *e = readdir(d)) { char t[300]; ssize_t k = readlinkat(dirfd(d), e->d_name, t, sizeof t - 1); if (k <= 0) continue; t[k] = 0;
			if (!strncmp(t, "socket:", 7)) n++; else if (!strncmp(t, dir.c_str(), dir.size()) && !strstr(t, "srv.log")) n++; }
		closedir(d); return n;
	}
};
static Shm *shm; // two of them
static void *find_port(void *a_) {
	Shm *shm = (Shm *)a_;
	for (;;) {
		int fd = shm->fd, on = 0; socklen_t l = sizeof on; struct sockaddr_in a; socklen_t al = sizeof a;
		if (fd >= 0 && getsockopt(fd, SOL_SOCKET, SO_ACCEPTCONN, &on, &l) == 0 && on && getsockname(fd, (struct sockaddr *)&a, &al) == 0) { if (shm->close_stdin) close(0); shm->port = ntohs(a.sin_port); return nullptr; }
		nap_ms(1);
	}
}
static const sh_route ROUTES[] = {
	{"GET", "^/s/([0-9]+)/([0-9]+)/[0-9]+$", 2, SIZED, 1}, {"GET", "^/raw/[0-9]+/([0-9]+)/[0-9]+$", 1, RAW, 1}, {"POST", "^/echo/([0-9]+)/[0-9]+/[0-9]+$", 1, ECHO, 1},
	{"GET", "^/file/[0-9]+/([0-9]+)/[0-9]+$", 1, FILE_, 1}, {"GET", "^/tpl/[0-9]+/([0-9]+)/[0-9]+$", 1, TPL, 1}, {"POST", "^/form/[0-9]+/[0-9]+/[0-9]+$", 0, FORM, 1}, {"GET", "^/header/([0-9]+)/[0-9]+/[0-9]+$", 1, HEADER, 1}};
// Interrupts the threads of this process, one after another.
static void *interrupt(void *p) {
	unsigned ms = *(unsigned *)p; pid_t pid = getpid(), me = (pid_t)syscall(SYS_gettid);
	for (;;) {
		nap_ms(ms); DIR *d = opendir("/proc/self/task"); if (!d) continue;
		std::vector<pid_t> ts; while (struct dirent *e = readdir(d)) if (atoi(e->d_name) > 0 && atoi(e->d_name) != me) ts.push_back(atoi(e->d_name));
		closedir(d); for (pid_t t : ts) syscall(SYS_tgkill, pid, t, SIGUSR1);
	}
}
static void nothing(int) {}
struct Setup { int threads; bool custom_404, no_stdin, stdin_later = false; int backlog, sndbuf; int every, err; std::vector<unsigned> sends; unsigned signal_ms = 0; unsigned spin = 0; bool pair = false; int held = 0, port = 0; };
static void launch(Server &s, const Setup &u, int which = 0) {
	Shm *shm = ::shm + which;
	s.s = shm; s.log = dir + "/srv.log" + (which ? "2" : ""); shm->fd = -1; shm->port = 0; shm->returned = 0;
	fflush(nullptr);
	pid_t me = getpid();
	s.pid = fork();
	if (s.pid < 0) throw std::runtime_error("fork");
	if (s.pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL); if (getppid() != me) _exit(0);
		signal(SIGPIPE, SIG_DFL);
		int fd = open(s.log.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); dup2(fd, 1); dup2(fd, 2);
		for (int i = 3; i < 256; i++) close(i);
		if (u.held) { // the program holds other files open
			struct rlimit r; getrlimit(RLIMIT_NOFILE, &r); if (r.rlim_cur < 4096) { r.rlim_cur = std::min<rlim_t>(4096, r.rlim_max); setrlimit(RLIMIT_NOFILE, &r); }
			for (int i = 0; i < u.held && dup(1) >= 0; i++) ;
		}
		accept_fault_every = u.every; accept_fault_errno = u.err; backlog = u.backlog; accept_sndbuf = u.sndbuf;
		if (!u.sends.empty()) send_script = new std::vector<unsigned>(u.sends);
		void *app = sh_app_new(ROUTES, sizeof ROUTES / sizeof *ROUTES);
		if (u.custom_404) sh_app_404(app, 1, 1);
		shm->close_stdin = u.stdin_later;
		pthread_t t; pthread_create(&t, nullptr, find_port, shm);
		static Setup mine = u;
		if (u.signal_ms) { struct sigaction sa = {}; sa.sa_handler = nothing; sigaction(SIGUSR1, &sa, nullptr); pthread_create(&t, nullptr, interrupt, &mine.signal_ms); }
		if (u.no_stdin) { nap_ms(3); close(0); } // once the thread has started
		if (u.pair) { shm->ready = 1; while (!::shm[!which].ready) ; for (volatile unsigned k = 0; k < u.spin; k++) ; } // start together
		sh_serve(app, (int *)&shm->fd, u.port, u.threads);
		shm->returned = 1; _exit(97);
	}
}
static void await(Server &s) {
	double t0 = now(); Shm *shm = s.s;
	while (!shm->port) { s.check_alive("while starting"); if (now() - t0 > 30) fail("the server does not listen"); nap_ms(1); }
}

static void start(Server &s, const Setup &u) { launch(s, u); await(s); if (u.port && s.s->port != u.port) fail("the server listens on port %d instead of %d", (int)s.s->port, u.port); }

static const double PATIENCE = 20; // seconds (of this process's running time) without any progress
// Runs the clients to their end; while_running is called in between.
static void run_clients(Server &s, std::vector<Client> &cs, double stop_at = 1e9) {
	double t0 = now(), idle = 0, last = t0; size_t open = cs.size();
	struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons(s.s->port); a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
	std::vector<struct pollfd> ps; std::vector<size_t> who; static char buf[1 << 16];
	while (open) {
		double t = now(); if (t - t0 > stop_at) break; ps.clear(); who.clear(); bool progress = false;
		for (size_t i = 0; i < cs.size(); i++) {
			Client &c = cs[i];
			if (c.st == Client::WAIT && t - t0 >= c.start_ms / 1000.0) {
				c.fd = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0); if (c.fd < 0) throw std::runtime_error("socket");
				int one = 1; setsockopt(c.fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
				if (c.rcvbuf) setsockopt(c.fd, SOL_SOCKET, SO_RCVBUF, &c.rcvbuf, sizeof c.rcvbuf);
				a.sin_addr.s_addr = htonl(c.address); // (any of the machine's)
				if (connect(c.fd, (struct sockaddr *)&a, sizeof a) != 0 && errno != EINPROGRESS) c.error = std::string("cannot connect: ") + strerror(errno), c.st = Client::DONE;
				else c.st = Client::CONNECT;
			}
			if (c.st == Client::STAY && t >= c.t) { drop(c, c.reset); c.st = Client::DONE; }
			if (c.st == Client::DONE) { if (c.seg != SIZE_MAX) { c.seg = SIZE_MAX; drop(c, false); open--; progress = true; } continue; }
			if (c.st == Client::WAIT || c.st == Client::STAY) { progress = true; continue; }
			if ((c.st == Client::SEND || c.st == Client::READ) && t < c.t) { progress = true; continue; } // pausing between segments
			short ev = c.st == Client::READ ? POLLIN : c.way == GOOD && !c.read_after_ms ? POLLOUT | POLLIN : POLLOUT;
			ps.push_back({c.fd, ev, 0}); who.push_back(i);
		}
		if (!open) break;
		poll(ps.data(), ps.size(), progress ? 1 : 50);
		for (size_t k = 0; k < ps.size(); k++) if (ps[k].revents) {
			Client &c = cs[who[k]];
			if (c.st == Client::CONNECT) {
				int e = 0; socklen_t l = sizeof e; getsockopt(c.fd, SOL_SOCKET, SO_ERROR, &e, &l);
				if (e) { c.error = std::string("cannot connect: ") + strerror(e); c.st = Client::DONE; progress = true; continue; }
				if (ps[k].revents & POLLOUT) { c.st = Client::SEND; progress = true; }
			}
			if (c.st == Client::SEND) {
				size_t stop = c.cuts[c.seg]; ssize_t n = stop > c.sent ? send(c.fd, c.request.data() + c.sent, stop - c.sent, MSG_NOSIGNAL) : 0;
				if (n < 0 && errno != EAGAIN && errno != EINTR) { if (c.way == GOOD && c.got.empty()) { c.error = std::string("sending its request failed: ") + strerror(errno); } c.st = Client::DONE; progress = true; continue; }
				if (n > 0) { c.sent += n; progress = true; }
				if (c.sent >= stop) {
					if (c.seg + 1 < c.cuts.size()) { c.seg++; c.t = now() + c.pause_ms / 1000.0; }
					else if (c.way == GOOD || c.way == READ_SOME) { c.st = Client::READ; c.t = now() + c.read_after_ms / 1000.0; if (c.half_close) shutdown(c.fd, SHUT_WR); progress = true; }
					else { c.st = Client::STAY; c.t = now() + c.stay_ms / 1000.0; progress = true; }
				}
			}
			if (c.fd >= 0 && !(c.st == Client::READ && now() < c.t) && (ps[k].revents & (POLLIN | POLLHUP | POLLERR)) && (c.st == Client::READ || (c.way == GOOD && !c.read_after_ms && c.st == Client::SEND))) {
				size_t want = sizeof buf; if (c.way == READ_SOME) want = std::min(want, c.read_limit - c.got.size() + 1);
				ssize_t n = recv(c.fd, buf, want, 0);
				if (n > 0) { c.got.append(buf, n); progress = true; if (c.way == READ_SOME && c.got.size() > c.read_limit) { c.st = Client::STAY; c.t = now() + c.stay_ms / 1000.0; } }
				else if (n == 0) { c.st = Client::DONE; if (c.sent < c.request.size() && c.way == GOOD) c.error = "the connection ended before the request was read"; progress = true; }
				else if (errno != EAGAIN && errno != EINTR) { if (c.way == GOOD) c.error = std::string("the connection failed: ") + strerror(errno) + " after " + std::to_string(c.got.size()) + " bytes of response"; c.st = Client::DONE; progress = true; }
			}
		}
		s.check_alive("while serving");
		double u = now(); idle = progress ? 0 : idle + std::min(u - last, 0.2); last = u; // being stopped does not count
		if (idle > PATIENCE) { std::string l; int n = 0; for (auto &c : cs) if (c.st != Client::DONE && n++ < 6) l += (n > 1 ? "; " : "") + name_of(c) + (c.st == Client::CONNECT ? " not connected" : c.st == Client::SEND ? " sending" : " waiting, " + std::to_string(c.got.size()) + " bytes received");
			fail("%d clients make no progress any more for %.0f s: %s", n, PATIENCE, l.c_str()); }
	}
}
static void judge(std::vector<Client> &cs) {
	for (auto &c : cs) if (c.way == GOOD) {
		if (!c.error.empty()) fail("%s: %s", name_of(c).c_str(), c.error.c_str());
		std::string why; if (!well_formed(c, why)) fail("%s got %s", name_of(c).c_str(), why.c_str());
	}
}
static void init() {
	dir = scratch_dir();
	auto put = [](const std::string &p, const std::string &s) { FILE *f = fopen(p.c_str(), "w"); if (!f || fwrite(s.data(), 1, s.size(), f) != s.size()) throw std::runtime_error("cannot write " + p); fclose(f); };
	for (int k = 0; k < FILES; k++) put(dir + "/file" + std::to_string(k), file_content(k));
	put(dir + "/template", TEMPLATE);
	shm = (Shm *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	mq_names = (char(*)[64])mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
}
static void check_usable_queues() {
	struct mq_attr at = {}; at.mq_maxmsg = 10; at.mq_msgsize = 8;
	mqd_t q = mq_open("/pbtprobe", O_RDWR | O_CREAT, 0644, &at);
	if (q == (mqd_t)-1) throw std::runtime_error(std::string("no message queues here: ") + strerror(errno));
	mq_close(q);
}
static pid_t suffix_owner; static int own_port;
// (22000 to 28000 is below the ports the system gives to clients.)
static bool can_bind(int port) {
	int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0), one = 1; struct sockaddr_in a = {}; a.sin_family = AF_INET; a.sin_port = htons(port);
	setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one); bool ok = bind(fd, (struct sockaddr *)&a, sizeof a) == 0; close(fd); return ok;
}
// One of a fixed set of queue names that no other process uses: a process that is killed leaves its queues
// behind, and the system has room for few.
static std::string queue_slot() {
	static int lock = -1; if (lock >= 0) { close(lock); lock = -1; }
	for (int k = 0; k < 100; k++) {
		lock = socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); if (lock < 0) throw std::runtime_error("socket");
		struct sockaddr_un a = {}; a.sun_family = AF_UNIX; int n = snprintf(a.sun_path + 1, sizeof a.sun_path - 1, "pbt-38moths-queues-%d", k);
		if (bind(lock, (struct sockaddr *)&a, offsetof(struct sockaddr_un, sun_path) + 1 + n) == 0) { own_port = 22000 + k; return ".pbt" + std::to_string(k); }
		close(lock); lock = -1;
	}
	throw std::runtime_error("no free message queue names");
}
static void mq_unlink_all() { for (const char *q : {"/mothsaqueue", "/mothshqueue"}) mq_unlink(q); }
static void c01(Gen &g, Ctx &ctx) {
	if (!shm) init();
	struct Unlink { ~Unlink() { mq_unlink_names(); } } unlink_queues;
	if (mq_suffix.empty() || suffix_owner != getpid()) { mq_suffix = queue_slot(); suffix_owner = getpid(); }
	mq_unlink_all();
	check_usable_queues();
	// Draw everything first: the run itself makes no choices.
	Setup u; u.threads = (int)g.range(1, 8); u.custom_404 = g.flip(); u.no_stdin = g.chance(1, 6); u.stdin_later = !u.no_stdin && g.chance(1, 6);
	u.backlog = 0;
	u.sndbuf = g.chance(1, 3) ? g.pick(std::vector<int>{2048, 8192, 65536}) : 0;
	u.every = 0; u.err = 0;
	static const std::vector<int> ERR{ECONNABORTED, EMFILE, EINTR, ENFILE, ENOBUFS, ENOMEM, EPROTO, EPERM, ENETDOWN};
	if (g.chance(1, 4)) { u.every = 2 + g.below(4); u.err = g.pick(ERR); }
	if (g.chance(1, 4)) { size_t n = 1 + g.below(4); for (size_t i = 0; i < n; i++) u.sends.push_back(g.pick(std::vector<unsigned>{0, 1, 100, 1000, 4095, 333})); u.sends.push_back(0); }
	bool low_fds = g.chance(1, 5); unsigned spare = 1 + g.below(12);
	bool crash = g.chance(1, 5); unsigned crash_ms = g.below(30);
	if (g.chance(1, 4)) u.signal_ms = 1 + g.below(4);
	bool neighbour = g.chance(1, 5); Setup nu = u; nu.no_stdin = nu.stdin_later = false; nu.threads = (int)g.range(1, 4); nu.signal_ms = 0; u.pair = nu.pair = neighbour; (g.flip() ? u : nu).spin = g.flip() ? g.below(100000) : 0;
	bool fixed = g.chance(1, 3); if (fixed && g.flip()) crash = true;
	if (g.chance(1, 12)) u.held = g.pick(std::vector<int>{60, 250, 1015, 1030, 2060});
	uint32_t id = 1000 * (1 + g.below(1000));
	auto wave = [&](size_t n, bool big) { std::vector<Client> v; for (size_t i = 0; i < n; i++) v.push_back(make_client(g, id++, u.custom_404, !low_fds, big && g.flip())); return v; };
	// Many large responses at once: more than any queue in the server holds.
	auto storm = [&](size_t n) { std::vector<Client> v; for (size_t i = 0; i < n; i++) { v.push_back(make_client(g, id++, u.custom_404, false, true, true, true)); v.back().start_ms = g.below(3); } return v; };
	std::vector<Client> before; if (crash) before = wave(1 + g.below(20), g.flip());
	std::vector<std::vector<Client>> waves; size_t nw = 1 + g.below(3);
	for (size_t i = 0; i < nw; i++) {
		if (g.chance(1, 8)) { waves.push_back(storm((size_t)g.range(12, 40))); ctx.label("storm of large responses"); }
		else waves.push_back(wave((size_t)g.range(1, g.chance(1, 3) ? 40 : 14), g.chance(1, 3)));
	}
	// A crowd: many clients at once, or many more one after another.
	if (!low_fds && g.chance(1, 40)) {
		bool at_once = g.flip(); size_t parts = at_once ? 1 : 12; ctx.label("a crowd of 250 to 2200 clients"); if (!at_once && g.flip()) { parts = 22; u.threads = 1 + u.threads % 2; }
		for (size_t i = 0; i < parts; i++) { std::vector<Client> v; size_t n = at_once ? (size_t)g.range(250, 400) : 100; for (size_t k = 0; k < n; k++) { Client x = make_client(g, id++, u.custom_404, false, false, g.below(4) != 3, true); if (x.kind <= RAW && x.a > 3000) { x.a %= 3000; x.kind = SIZED; x.expect = fill(x.id, x.a, "S"); x.way = GOOD; x.request = "GET " + path(SIZED, x.id, x.a, 0) + " HTTP/1.1\r\n\r\n"; x.cuts = {x.request.size()}; x.reset = false; x.stay_ms = 0; } x.start_ms %= 10; x.read_after_ms %= 5; v.push_back(x); } waves.push_back(v); nw++; }
	}
	// At the end the server still has to serve everyone.
	std::vector<Client> last; for (int i = 0; i < 3; i++) last.push_back(make_client(g, id++, u.custom_404, !low_fds, false, true));
	if (g.chance(1, 25)) { // one client takes its time
		auto &w = waves[g.below((uint32_t)nw)]; Client &c = w[g.below((uint32_t)w.size())]; unsigned ms = g.pick(std::vector<unsigned>{1300, 1300, 1300, 2600, 2600, 5500});
		if (c.way == GOOD && g.flip()) { c.cuts.insert(c.cuts.begin(), g.below((uint32_t)c.request.size())); std::sort(c.cuts.begin(), c.cuts.end()); c.pause_ms = ms / (unsigned)(c.cuts.size() - 1); ctx.label("a slow sender"); }
		else if (c.way == GOOD) { c.read_after_ms = ms; c.rcvbuf = 8192; if (c.kind != SIZED) { c.kind = SIZED; c.code = 200; c.a = 3000000; c.expect = fill(c.id, c.a, "S"); c.request = "GET " + path(SIZED, c.id, c.a, 0) + " HTTP/1.1\r\n\r\n"; c.cuts = {c.request.size()}; } ctx.label("a slow reader"); }
	}
	std::vector<Client> there[2]; if (neighbour) for (auto &v : there) for (size_t k = 1 + g.below(6); k; k--) v.push_back(make_client(g, id++, u.custom_404, true, false, true));
	size_t good = 0, bad = 0, bytes = 0;
	for (auto &w : waves) for (auto &c : w) { ctx.label(c.way == GOOD ? std::string("good: ") + KIND_NAME[c.kind] : std::string("bad: ") + WAY_NAME[c.way]); (c.way == GOOD ? good : bad)++; bytes += c.expect.size(); }
	ctx.label("threads: " + std::to_string(u.threads)); if (low_fds) ctx.label("few descriptors"); if (u.no_stdin || u.stdin_later) ctx.label("descriptor 0 is free"); if (crash) ctx.label("after a killed server"); if (u.held) ctx.label("high descriptor numbers"); if (u.signal_ms) ctx.label("interrupted by signals"); if (neighbour) ctx.label("another server starts at the same time"); if (u.every) ctx.label("accept() fails"); if (!u.sends.empty()) ctx.label("short sends");
	if (bytes > 2000000) ctx.label("over 2 MB in flight");
	ctx.nontrivial = good >= 2 && (good + bad) > (size_t)u.threads;
	if (u.held) ctx.show("%d other descriptors, ", u.held); ctx.show("%d workers, %zu waves, %zu well-formed and %zu misbehaving clients, %zu response bytes%s%s%s%s%s%s\n", u.threads, nw, good, bad, bytes, low_fds ? ", few descriptors" : u.no_stdin ? ", without descriptor 0" : u.stdin_later ? ", descriptor 0 closed when it listens" : "", crash ? ", after a killed server" : "", u.every ? ", accept() fails now and then" : "", u.sends.empty() ? "" : ", short sends", u.signal_ms ? ", signals" : "", neighbour ? ", another server starts" : "");
	for (size_t i = 0; i < nw; i++) for (size_t k = 0; k < waves[i].size() && k < 12; k++) { Client &c = waves[i][k]; ctx.show("wave %zu +%u ms: %s: %s\n", i, c.start_ms, WAY_NAME[c.way], name_of(c).c_str()); }

	struct Drop { std::vector<Client> &v; ~Drop() { for (auto &c : v) drop(c, true); } };
	// A port that no other process uses, and that no earlier server has left in a state that forbids its use.
	for (int k = 0; fixed && !u.port && k < 60; k++) if (can_bind(own_port + 100 * k)) u.port = own_port + 100 * k;
	if (u.port) { ctx.label(crash ? "a port of its own, used before" : "a port of its own"); }
	auto simple = [&](Server &s) {
		Client c; c.id = id++; c.a = 10; c.request = "GET " + path(SIZED, c.id, 10, 0) + " HTTP/1.1\r\n\r\n"; c.expect = fill(c.id, 10, "S"); c.cuts = {c.request.size()};
		std::vector<Client> one{c}; Drop d{one}; run_clients(s, one); judge(one);
	};
	if (crash) { Setup alone = u; alone.pair = false; Server s; start(s, alone); if (u.port) simple(s); Drop d{before}; run_clients(s, before, crash_ms / 1000.0); s.stop(); }
	shm[0].ready = shm[1].ready = 0;
	Server s, beside; if (neighbour) launch(beside, nu, 1);
	launch(s, u); await(s); if (u.port && s.s->port != u.port) fail("the server listens on port %d instead of %d", (int)s.s->port, u.port);
	if (neighbour) { await(beside); Drop d{there[0]}; run_clients(beside, there[0]); judge(there[0]); }
	if (low_fds) {
		// Once everything is set up: one client has been served by then.
		simple(s);
		nap_ms(20); int n = 0; char p[64]; snprintf(p, sizeof p, "/proc/%d/fd", (int)s.pid); DIR *dd = opendir(p); while (dd && readdir(dd)) n++; if (dd) closedir(dd);
		struct rlimit r = {(rlim_t)(n + spare), (rlim_t)(n + spare)}; prlimit(s.pid, RLIMIT_NOFILE, &r, nullptr);
	}
	waves.push_back(last);
	for (auto &w : waves) {
		Drop d{w};
		run_clients(s, w); judge(w);
	}
	if (neighbour) { Drop d{there[1]}; run_clients(beside, there[1]); judge(there[1]); beside.check_alive("after serving"); if (beside.s->returned) fail("m38_http_serve of the other server returned"); }
	double idle = 0; int n;
	while ((n = s.left_open()) > 0 && idle < 10) { nap_ms(2); idle += 0.002; }
	s.check_alive("after serving");
	if (n > 0) fail("%d connections or files are still open in the server after all clients have left", n);
	if (shm->returned) fail("m38_http_serve returned");
}

static int reg = [] {
	Prop p; p.id = "C01"; p.rule = "at least two well-formed clients, and more clients than worker threads";
	p.quick = 400; p.thorough = 12000; p.run = c01; p.guided = false; p.case_timeout = 150; p.confirm = 6; p.confirm_min = 1; p.shrink_s = 60;
	p.assumptions = {"interleavings are those that arise on this machine from random arrival times, segmentations, handler delays, response sizes and thread counts",
		"no client stays connected without sending a complete request or without reading (documented: a worker or the responder waits for it)"};
	add(p); return 0;
}();
