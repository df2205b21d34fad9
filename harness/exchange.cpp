#include "exchange.hpp"
#include "wraps.hpp"
#include <cstring>
#include <cstdlib>
#include <cerrno>
#include <cstdio>
#include <memory>
#include <thread>
#include <mutex>
#include <condition_variable>
#include <atomic>
#include <ctime>
#include <stdexcept>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <unistd.h>
#include <sys/ioctl.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <linux/sockios.h>
using namespace pbt;

SlotHandler slots[SH_SLOTS];
std::vector<Call> calls;
static std::exception_ptr pending;
void reset_slots() { for (auto &s : slots) s = SlotHandler(); calls.clear(); }
extern "C" int cb_handler(int slot, const void *req, void *resp) {
	sh_view v; sh_req_view(req, &v);
	int code = 404;
	// A failed check inside a handler is reported once the exchange is over.
	try { if (slots[slot].handle) code = slots[slot].handle(v, req, resp); }
	catch (...) { if (!pending) pending = std::current_exception(); code = 500; }
	calls.push_back({false, slot, code});
	return code;
}
extern "C" void cb_cleanup(int slot, int code, void *resp) {
	calls.push_back({true, slot, code});
	try { if (slots[slot].cleanup) slots[slot].cleanup(code, resp); }
	catch (...) { if (!pending) pending = std::current_exception(); }
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static void nap(double s) { struct timespec t = {(time_t)s, (long)((s - (time_t)s) * 1e9)}; nanosleep(&t, nullptr); }

// --- the client thread -------------------------------------------------------------------------------
struct Job { const Plan *plan; int fd; int server_fd; Reply *reply; std::atomic<bool> server_done{false}; bool early = false; pid_t server_tid; };
static std::mutex mu; static std::condition_variable cv_job, cv_fin;
static Job *job = nullptr; static bool finished = true; static pid_t owner = 0;

static char thread_state(pid_t tid) {
	char path[64], buf[512]; snprintf(path, sizeof path, "/proc/self/task/%d/stat", tid);
	int fd = open(path, O_RDONLY); if (fd < 0) return '?';
	ssize_t n = read(fd, buf, sizeof buf - 1); close(fd); if (n <= 0) return '?';
	buf[n] = 0; char *p = strrchr(buf, ')'); return p && p[1] ? p[2] : '?';
}
static int unread(int fd) { int n = 0; if (ioctl(fd, SIOCOUTQ, &n) != 0) return -1; return n; }
static bool write_all(Job &j, const std::string &s) {
	size_t at = 0;
	while (at < s.size()) {
		ssize_t n = send(j.fd, s.data() + at, s.size() - at, MSG_NOSIGNAL | MSG_DONTWAIT);
		if (n > 0) { at += n; continue; }
		if (n < 0 && (errno == EAGAIN || errno == EINTR)) {
			if (j.server_done) return false;
			struct pollfd p = {j.fd, POLLOUT, 0}; poll(&p, 1, 20); continue;
		}
		return false; // the server is gone
	}
	return true;
}
static void client(Job &j) {
	const Plan &pl = *j.plan; Reply &r = *j.reply; bool ok = true;
	for (size_t i = 0; i < pl.segs.size() && ok; i++) {
		if (pl.segs[i].empty()) continue;
		if (i && pl.pause > 0) nap(pl.pause);
		ok = write_all(j, pl.segs[i]);
		if (ok && pl.wait_consumed && !j.early && i + 1 < pl.segs.size()) {
			double t0 = now();
			while (unread(j.fd) > 0 && !j.server_done && now() - t0 < 5) sched_yield();
		}
	}
	if (pl.end == Plan::CLOSE_AFTER_SEND || pl.end == Plan::RESET) { close(j.fd); return; }
	if (pl.end == Plan::HALF_CLOSE) shutdown(j.fd, SHUT_WR);
	if (pl.pause > 0) nap(pl.pause);
	static char buf[65536];
	double quiet = now(), settled = 0; int strikes = 0;
	for (;;) {
		if (pl.end == Plan::CLOSE_AFTER_READING && r.bytes.size() >= pl.read_limit) break;
		size_t want = sizeof buf;
		if (pl.end == Plan::CLOSE_AFTER_READING) want = std::min(want, pl.read_limit - r.bytes.size());
		ssize_t n = recv(j.fd, buf, want, MSG_DONTWAIT);
		if (n > 0) { r.bytes.append(buf, n); quiet = now(); strikes = 0; continue; }
		if (n == 0) { r.eof = true; break; }
		if (errno == ECONNRESET || errno == EPIPE) { r.reset = true; break; }
		if (errno != EAGAIN && errno != EINTR) break;
		if (j.server_done) { // everything the server wanted to send has been sent
			if (settled == 0) settled = 1; else break;
			continue;
		}
		struct pollfd p = {j.fd, POLLIN, 0}; poll(&p, 1, 5);
		// Nothing happens: is the server waiting for more, although it has been given everything?
		if (now() - quiet > 4 && unread(j.fd) <= 0 && thread_state(j.server_tid) == 'S') {
			if (++strikes < 20) { nap(0.02); continue; }
			if (pl.end != Plan::HALF_CLOSE && !r.stalled) { r.stalled = true; shutdown(j.fd, SHUT_WR); quiet = now(); strikes = 0; continue; }
			r.stalled = true;
			break; // close: an error for whatever the server is doing
		}
	}
	close(j.fd);
}
static void client_main() {
	unscripted = true;
	for (;;) {
		Job *j;
		{ std::unique_lock<std::mutex> l(mu); cv_job.wait(l, [] { return job != nullptr; }); j = job; job = nullptr; }
		client(*j);
		{ std::lock_guard<std::mutex> l(mu); finished = true; }
		cv_fin.notify_one();
	}
}

NoStdin::NoStdin() { saved = fcntl(0, F_DUPFD_CLOEXEC, 200); if (saved < 0) throw std::runtime_error("dup"); close(0); }
NoStdin::~NoStdin() { dup2(saved, 0); close(saved); }

Reply exchange(void *app, const Plan &pl) {
	Reply r; int sv[2]; std::unique_ptr<NoStdin> no_stdin;
	if (pl.no_stdin == 1) no_stdin.reset(new NoStdin);
	if (owner != getpid()) { owner = getpid(); std::thread(client_main).detach(); signal(SIGPIPE, SIG_DFL); }
	if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0, sv)) throw std::runtime_error("socketpair");
	if (pl.no_stdin == 2) no_stdin.reset(new NoStdin);
	if (pl.small_buffers) { int n = 4608; for (int i = 0; i < 2; i++) setsockopt(sv[i], SOL_SOCKET, SO_SNDBUF, &n, sizeof n); }
	if (pl.end == Plan::RESET && send(sv[0], "?", 1, MSG_NOSIGNAL) != 1) throw std::runtime_error("send");
	std::vector<unsigned> script = pl.send_sizes, rscript = pl.recv_sizes;
	sends = short_sends = interrupted = 0; send_pos = recv_pos = 0;
	Job j; j.plan = &pl; j.fd = sv[1]; j.server_fd = sv[0]; j.reply = &r; j.server_tid = (pid_t)syscall(SYS_gettid);
	// RESET: let the client be gone first, so that the outcome does not depend on timing.
	if (pl.end == Plan::RESET || pl.end == Plan::CLOSE_AFTER_SEND) {
		size_t total = 0; for (auto &s : pl.segs) total += s.size();
		j.early = total < 30000 && !pl.small_buffers;
	}
	{ std::lock_guard<std::mutex> l(mu); job = &j; finished = false; }
	cv_job.notify_one();
	if (j.early) { std::unique_lock<std::mutex> l(mu); cv_fin.wait(l, [] { return finished; }); }
	send_script = script.empty() ? nullptr : &script; recv_script = rscript.empty() ? nullptr : &rscript;
	void *h = sh_generate(sv[0], app);
	r.generated = h != nullptr;
	if (!h) close(sv[0]); // what the server does with rejected requests
	else while (h) h = sh_send(h);
	send_script = recv_script = nullptr;
	r.send_calls = sends; r.interrupted = interrupted; r.short_sends = short_sends;
	if (r.generated && fcntl(sv[0], F_GETFD) != -1) r.fd_left_open = true;
	j.server_done = true;
	{ std::unique_lock<std::mutex> l(mu); cv_fin.wait(l, [] { return finished; }); }
	if (r.fd_left_open) close(sv[0]);
	if (pending) { std::exception_ptr e = pending; pending = nullptr; std::rethrow_exception(e); }
	return r;
}

// --- responses -----------------------------------------------------------------------------------------
static std::string lower(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
int Response::count(const std::string &name) const {
	int n = 0; for (auto &l : lines) { size_t c = l.find(':'); if (c != std::string::npos && lower(l.substr(0, c)) == lower(name)) n++; } return n;
}
std::string Response::one(const std::string &name) const {
	std::string v; int n = 0;
	for (auto &l : lines) { size_t c = l.find(':'); if (c != std::string::npos && lower(l.substr(0, c)) == lower(name)) { n++; size_t b = l.find_first_not_of(" \t", c + 1); v = b == std::string::npos ? "" : l.substr(b); } }
	CHECK(n == 1, "the response has %d %s headers: %s", n, name.c_str(), quote(status_line, 100).c_str());
	return v;
}
Response parse_response(const std::string &b, const char *what) {
	Response r;
	size_t end = b.find("\r\n\r\n");
	CHECK(end != std::string::npos, "%s: the response has no complete header: %s", what, quote(b, 300).c_str());
	std::string head = b.substr(0, end + 2); r.body = b.substr(end + 4);
	size_t at = 0; bool first = true;
	while (at < head.size()) {
		size_t e = head.find("\r\n", at); std::string l = head.substr(at, e - at); at = e + 2;
		if (first) { r.status_line = l; first = false; } else { CHECK(l.find(':') != std::string::npos && l.find(':') > 0, "%s: malformed header line %s", what, quote(l).c_str()); r.lines.push_back(l); }
	}
	int n = 0, code = 0;
	CHECK(sscanf(r.status_line.c_str(), "HTTP/1.1 %3d %n", &code, &n) == 1 && n >= 13 && code >= 100, "%s: malformed status line %s", what, quote(r.status_line).c_str());
	r.code = code;
	std::string cl = r.one("Content-Length");
	CHECK(!cl.empty() && cl.find_first_not_of("0123456789") == std::string::npos && strtoull(cl.c_str(), nullptr, 10) == r.body.size(), "%s: Content-Length is %s but %zu body bytes arrived", what, quote(cl).c_str(), r.body.size());
	return r;
}

int count_fds() {
	int n = 0; DIR *d = opendir("/proc/self/fd"); if (!d) return -1;
	while (readdir(d)) n++;
	closedir(d); return n;
}
int count_maps(const std::string &part) {
	int n = 0; FILE *f = fopen("/proc/self/maps", "r"); if (!f) return -1;
	char *line = nullptr; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) if (strstr(line, part.c_str())) n++;
	free(line); fclose(f); return n;
}
