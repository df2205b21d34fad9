#include "engine.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <ctime>
#include <algorithm>
#include <unordered_set>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <dirent.h>
#include <sched.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes(void);

// --- coverage counters of the library (it is built with inline 8-bit counters) ---------------------
static uint8_t *cov_start[64], *cov_stop[64];
static int n_cov = 0;
extern "C" void __sanitizer_cov_8bit_counters_init(uint8_t *a, uint8_t *b) {
	if (a == b) return;
	for (int i = 0; i < n_cov; i++) if (cov_start[i] == a) return;
	if (n_cov < 64) { cov_start[n_cov] = a; cov_stop[n_cov] = b; n_cov++; }
}

namespace pbt {
extern "C" { long fail_alloc_in = 0; long alloc_failures = 0; }

static std::vector<Prop> &props() { static std::vector<Prop> p; return p; }
void add(const Prop &p) { props().push_back(p); }

void fail(const char *fmt, ...) {
	char buf[6000];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	throw Fail{buf};
}
void Ctx::show(const char *fmt, ...) {
	if (!want_show || shown.size() > 6000) return;
	char buf[6000];
	va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
	shown += buf;
}

static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint64_t mix(uint64_t a, uint64_t b) { Rng r(a * 0x9E3779B97F4A7C15ULL + b); r.next(); return r.next() ^ (b << 1); }
static uint64_t hash_str(const char *s) { uint64_t h = 1469598103934665603ULL; for (; *s; s++) h = (h ^ (unsigned char)*s) * 1099511628211ULL; return h; }

// --- Gen ------------------------------------------------------------------------------------------
uint32_t Gen::below(uint32_t n) {
	if (n == 0) n = 1;
	uint32_t v;
	if (pos < in_n) v = in[pos] % n;
	else if (zero_after) v = 0;
	else if (hint_pos < hint.size() && !(vary && rng.next() % vary == 0)) v = hint[hint_pos] % n;
	else v = n == 0xffffffffu ? (uint32_t)rng.next() : (uint32_t)((rng.next() >> 11) % n);
	pos++; hint_pos++;
	if (*nrec < MAX_CHOICES) rec[(*nrec)++] = v;
	return v;
}
uint64_t Gen::u64() {
	uint64_t hi = below(1u << 16), a = below(1u << 16), b = below(1u << 16), c = below(1u << 16);
	return hi << 48 | a << 32 | b << 16 | c;
}
int64_t Gen::range(int64_t lo, int64_t hi) {
	uint64_t span = (uint64_t)hi - (uint64_t)lo;
	if (span < 0xfffffff0u) return lo + below((uint32_t)span + 1);
	uint64_t v = u64();
	if (span != UINT64_MAX) v %= span + 1;
	return (int64_t)((uint64_t)lo + v);
}
size_t Gen::weighted(std::initializer_list<unsigned> w) {
	unsigned t = 0; for (auto x : w) t += x;
	unsigned v = below(t); size_t i = 0;
	for (auto x : w) { if (v < x) return i; v -= x; i++; }
	return 0;
}
size_t Gen::size(size_t lo, size_t hi) {
	if (hi <= lo) { below(1); return lo; }
	switch (weighted({4, 3, 2, 1})) {
	case 0: return lo + below((uint32_t)std::min<size_t>(hi - lo, 12) + 1);
	case 1: { // around interesting sizes
		static const size_t sp[] = {8, 10, 15, 16, 31, 32, 48, 64, 96, 100, 127, 128, 255, 256, 511, 512, 513, 999, 1000, 1023, 1024,
			2047, 2048, 3072, 4095, 4096, 8192, 9999, 10000, 16384, 32768, 65535, 65536, 99999, 100000, 131072, 262144, 1000000, 1048576, 2097152};
		size_t n = 0; while (n < sizeof sp / sizeof *sp && sp[n] <= hi + 1) n++;
		if (n == 0) return lo + below((uint32_t)(hi - lo) + 1);
		long v = (long)sp[below((uint32_t)n)] + (long)below(5) - 2;
		if (v < (long)lo) v = lo;
		if (v > (long)hi) v = hi;
		return v;
	}
	case 2: { // log-uniform
		double l = std::log((double)(hi - lo) + 1) * (below(1000) / 999.0);
		size_t v = lo + (size_t)(std::exp(l) - 1 + 0.5);
		return std::min(v, hi);
	}
	default: return hi - below((uint32_t)std::min<size_t>(hi - lo, 3) + 1);
	}
}
std::string Gen::bytes(size_t n, int style) {
	std::string s(n, 'a');
	if (style == 0 || n == 0) { return s; }
	if (n <= 12) {
		for (auto &c : s) switch (style) {
			case 1: c = 'a' + below(26); break;
			case 2: c = (char)below(256); break;
			case 3: c = (char)(1 + below(255)); break;
			default: c = 'a' + below(3);
		}
		return s;
	}
	Rng r(below(1u << 31));
	for (auto &c : s) { uint64_t v = r.next() >> 16; switch (style) {
		case 1: c = 'a' + v % 26; break;
		case 2: c = (char)v; break;
		case 3: c = (char)(1 + v % 255); break;
		default: c = 'a' + v % 3;
	} }
	return s;
}
std::string Gen::text(size_t n, const std::string &al) {
	std::string s(n, al[0]);
	if (n <= 24) { for (auto &c : s) c = al[below((uint32_t)al.size())]; return s; }
	Rng r(below(1u << 31));
	for (auto &c : s) c = al[(r.next() >> 16) % al.size()];
	return s;
}

// --- helpers ----------------------------------------------------------------------------------------
extern "C" long live_regexes;
static size_t parked_bytes = 0;
size_t heap_bytes() { return __sanitizer_get_current_allocated_bytes() - parked_bytes + 1000 * live_regexes; }
void check_no_leak(const char *what, const std::function<void()> &f, int times) {
	size_t grown = 0;
	for (int i = 0; i < times; i++) {
		size_t before = heap_bytes();
		f();
		size_t after = heap_bytes();
		if (after <= before) return;
		grown = after - before;
	}
	fail("%s leaks: %zu bytes still allocated afterwards, every time", what, grown);
}
std::string quote(const std::string &s, size_t max) {
	std::string o = "\"";
	for (size_t i = 0; i < s.size() && i < max; i++) {
		unsigned char c = s[i]; char b[8];
		if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t";
		else if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\x%02x", c); o += b; }
		else o += c;
	}
	o += '"';
	if (s.size() > max) { char b[40]; snprintf(b, sizeof b, "...(%zu bytes)", s.size()); o += b; }
	return o;
}
int cpu_count() { cpu_set_t s; if (sched_getaffinity(0, sizeof s, &s) == 0) return CPU_COUNT(&s); return 4; }

static std::string g_scratch; // of the whole run
std::string scratch_dir() {
	static std::string d; static pid_t owner = 0;
	if (owner != getpid()) {
		owner = getpid();
		d = g_scratch + "/p"; for (pid_t n = owner; n; n /= 10) d += (char)('a' + n % 10); // a name of letters
		mkdir(d.c_str(), 0777);
	}
	return d;
}
static void rm_tree(const std::string &d) {
	if (d.size() < 8) return;
	DIR *dir = opendir(d.c_str());
	if (!dir) return;
	while (struct dirent *e = readdir(dir)) {
		if (!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue;
		std::string p = d + "/" + e->d_name;
		struct stat st;
		if (lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) rm_tree(p); else unlink(p.c_str());
	}
	closedir(dir);
	rmdir(d.c_str());
}

extern "C" void *__real_malloc(size_t);
Exact::Exact(const std::string &s, bool terminated) : n(s.size()) {
	p = (char *)__real_malloc(n + (terminated ? 1 : 0) + (n || terminated ? 0 : 1));
	memcpy(p, s.data(), n);
	if (terminated) p[n] = 0;
}
extern "C" void __real_free(void *);
Exact::~Exact() { __real_free(p); }

// allocation faults
extern "C" {
void *__real_realloc(void *, size_t);
void *__real_calloc(size_t, size_t);
static bool fault() {
	if (fail_alloc_in > 0 && --fail_alloc_in == 0) { alloc_failures++; return true; }
	return false;
}
void __real_free(void *);
void __asan_poison_memory_region(void const volatile *, size_t);
void __asan_unpoison_memory_region(void const volatile *, size_t);
size_t __sanitizer_get_allocated_size(const volatile void *);
// ASan hands freed addresses out again only much later. With recycle_on, the block freed last is the next
// one of its size, as ordinary allocators do it: what is remembered by address alone shows.
bool recycle_on = false;
struct Parked { void *p; size_t n; };
static Parked parked[512]; static int n_parked = 0;
static void unpark(int i) { parked_bytes -= parked[i].n; __asan_unpoison_memory_region(parked[i].p, parked[i].n); }
static void *reuse(size_t n, int fill) {
	if (recycle_on && n) for (int i = n_parked; i-- > 0;) if (parked[i].n == n) {
		void *p = parked[i].p; unpark(i); memmove(parked + i, parked + i + 1, (n_parked - i - 1) * sizeof *parked); n_parked--;
		memset(p, fill, n); return p;
	}
	return nullptr;
}
void *__wrap_malloc(size_t n) { if (fault()) return nullptr; void *p = reuse(n, 0xbe); return p ? p : __real_malloc(n); }
void *__wrap_realloc(void *p, size_t n) { return fault() ? nullptr : __real_realloc(p, n); }
void *__wrap_calloc(size_t a, size_t b) { if (fault()) return nullptr; void *p = a && b < (1u << 20) && a < (1u << 20) ? reuse(a * b, 0) : nullptr; return p ? p : __real_calloc(a, b); }
void __wrap_free(void *p) {
	size_t n = recycle_on && p && n_parked < 512 ? __sanitizer_get_allocated_size(p) : 0;
	bool twice = false; for (int i = 0; n && i < n_parked; i++) twice |= parked[i].p == p;
	if (!n || n > (1u << 16)) { __real_free(p); return; }
	if (twice) { fprintf(stderr, "ERROR: AddressSanitizer: attempting double-free (recycled block)\n"); abort(); }
	parked[n_parked++] = {p, n}; parked_bytes += n; __asan_poison_memory_region(p, n);
}
void recycle(bool on) {
	recycle_on = on;
	if (!on) while (n_parked) { n_parked--; unpark(n_parked); __real_free(parked[n_parked].p); }
}
}

// --- running ----------------------------------------------------------------------------------------
struct Shared {
	volatile int state;          // 0 running, 1 done, 2 assertion failed, 3 harness error
	volatile uint64_t idx;       // case being run
	volatile uint64_t beats;
	uint32_t n;
	char msg[6000];
	char shown[7000];
	uint32_t choices[MAX_CHOICES];
};
static Shared *new_shared() {
	void *p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (p == MAP_FAILED) { perror("mmap"); exit(2); }
	return (Shared *)p;
}

struct Options {
	std::string id, evidence, replay_dir, replay, known_file, tier = "quick";
	uint64_t seed = 1;
	double scale = 1;
	uint64_t cases = 0;
	double time_cap = 0;
	bool noshrink = false;
} opt;

static void silence(const std::string &errfile) {
	int fd = open("/dev/null", O_RDWR);
	dup2(fd, 0); dup2(fd, 1); close(fd);
	fd = open(errfile.c_str(), O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644);
	dup2(fd, 2); close(fd);
}

static bool run_one(const Prop &p, Gen &g, Ctx &c, Shared *sh) {
	try {
		if (!p.repeat || g.example >= 0) { p.run(g, c); return true; }
		// What one case leaves behind in the library must not show in the next.
		unsigned more = g.below(p.repeat) == p.repeat - 1 ? 1 + g.below(3) : 0;
		bool reuse = more && p.guided && g.flip(); recycle(reuse); size_t at = sh->n;
		p.run(g, c); bool nontrivial = c.nontrivial, keep = c.keep;
		std::vector<uint32_t> first(sh->choices + at, sh->choices + sh->n);
		for (unsigned i = 0; i < more; i++) {
			uint32_t n = (uint32_t)first.size();
			static const unsigned rates[] = {0, 1, 1, 2, 4, 16};
			unsigned r = rates[g.rng.next() % 6];
			g.hint = first; g.hint_pos = 0; g.vary = r ? std::max(2u, n / r) : 0;
			c.show(" THEN: "); p.run(g, c); nontrivial |= c.nontrivial; keep &= c.keep;
		}
		recycle(false);
		if (more) c.label(reuse ? "repeated with variations in one process, freed memory used again at once" : "repeated with variations in one process");
		c.nontrivial = nontrivial; c.keep = keep;
		return true;
	}
	catch (Fail &f) { fail_alloc_in = 0; recycle_on = false; snprintf(sh->msg, sizeof sh->msg, "%s", f.msg.c_str()); sh->state = 2; return false; }
	catch (std::exception &e) { snprintf(sh->msg, sizeof sh->msg, "harness exception: %s", e.what()); sh->state = 3; return false; }
}

struct Corpus {
	std::vector<std::vector<uint32_t>> items;
	std::vector<uint8_t> seen;
	bool feedback() { // new (edge, count bucket) reached since the counters were cleared?
		bool fresh = false; size_t off = 0;
		for (int i = 0; i < n_cov; i++) {
			size_t n = cov_stop[i] - cov_start[i];
			if (seen.size() < off + n) seen.resize(off + n);
			uint8_t *q = cov_start[i];
			for (size_t j = 0; j < n; j++) if (q[j]) {
				uint8_t v = q[j], b = v == 1 ? 1 : v == 2 ? 2 : v == 3 ? 4 : v < 8 ? 8 : v < 16 ? 16 : v < 32 ? 32 : v < 128 ? 64 : 128;
				if (!(seen[off + j] & b)) { seen[off + j] |= b; fresh = true; }
				q[j] = 0;
			}
			off += n;
		}
		return fresh;
	}
	void clear() { for (int i = 0; i < n_cov; i++) memset(cov_start[i], 0, cov_stop[i] - cov_start[i]); }
	size_t reached() const { size_t n = 0; for (auto b : seen) n += b != 0; return n; }
	size_t total() const { size_t n = 0; for (int i = 0; i < n_cov; i++) n += cov_stop[i] - cov_start[i]; return n; }
};

static std::vector<uint32_t> mutate(Rng &r, const Corpus &c) {
	std::vector<uint32_t> v = c.items[r.next() % c.items.size()];
	int k = 1 + r.next() % 4;
	while (k--) {
		if (v.empty()) break;
		size_t p = r.next() % v.size();
		switch (r.next() % 7) {
		case 0: v[p] = (uint32_t)r.next(); break;
		case 1: v[p] += 1; break;
		case 2: if (v[p]) v[p] -= 1; break;
		case 3: v.resize(p); break; // the rest is drawn afresh
		case 4: { size_t n = std::min<size_t>(1 + r.next() % 8, v.size() - p); v.erase(v.begin() + p, v.begin() + p + n); break; }
		case 5: { size_t n = std::min<size_t>(1 + r.next() % 16, v.size() - p); std::vector<uint32_t> t(v.begin() + p, v.begin() + p + n);
			if (v.size() < 3000) v.insert(v.begin() + p, t.begin(), t.end()); break; }
		default: { const auto &o = c.items[r.next() % c.items.size()]; if (o.empty()) break; size_t q = r.next() % o.size();
			v.resize(p); v.insert(v.end(), o.begin() + q, o.end()); if (v.size() > 3000) v.resize(3000); }
		}
	}
	return v;
}

// Worker w of W runs cases w, w+W, ...; a pure function of (code, seed, w, W).
// stop_after: only for history replays, the last case to run.
static void worker(const Prop &p, int w, int W, uint64_t first, uint64_t total, Shared *sh, const std::string &out, double deadline, uint64_t stop_after) {
	std::unordered_set<uint64_t> hashes;
	std::map<std::string, uint64_t> labels;
	std::vector<std::string> samples;
	uint64_t evals = 0, nontriv = 0, guided = 0;
	Corpus corpus;
	bool truncated = false;
	if (p.worker_init) p.worker_init();
	corpus.clear();
	Rng mr(mix(opt.seed ^ hash_str(p.id), 0x777 + w));
	for (uint64_t i = w; i < total && i <= stop_after; i += W) {
		if (i < first) continue;
		if (deadline > 0 && now() > deadline) { truncated = true; break; }
		Gen g; Ctx c;
		sh->n = 0; sh->idx = i; sh->beats++;
		g.rec = sh->choices; g.nrec = &sh->n;
		g.rng = Rng(mix(opt.seed * 1000003 + hash_str(p.id), i));
		std::vector<uint32_t> in;
		if (i < (uint64_t)p.examples) g.example = (int)i;
		else if (p.guided && !corpus.items.empty() && mr.next() % 2) {
			in = mutate(mr, corpus); g.in = in.data(); g.in_n = in.size(); guided++;
		}
		c.want_show = samples.size() < 2 && i >= (uint64_t)p.examples;
		if (!run_one(p, g, c, sh)) { fflush(nullptr); _exit(sh->state == 2 ? 3 : 4); }
		evals++;
		if (p.guided && corpus.feedback() && c.keep && sh->n && sh->n < 1500 && g.example < 0) {
			corpus.items.emplace_back(sh->choices, sh->choices + sh->n);
			if (corpus.items.size() > 2000) corpus.items.erase(corpus.items.begin() + mr.next() % 1000);
		}
		for (auto &l : c.labels) labels[l.first]++;
		if (c.nontrivial) {
			nontriv++;
			uint64_t h = 1469598103934665603ULL ^ (uint64_t)(g.example + 1);
			for (uint32_t k = 0; k < sh->n; k++) h = (h ^ sh->choices[k]) * 1099511628211ULL;
			if (hashes.insert(h).second && c.want_show && c.shown.size()) samples.push_back(c.shown);
		}
	}
	FILE *f = fopen(out.c_str(), "w");
	if (!f) _exit(4);
	fprintf(f, "E %llu %llu %llu %d %zu %zu %zu\n", (unsigned long long)evals, (unsigned long long)nontriv, (unsigned long long)guided, truncated,
		corpus.items.size(), corpus.reached(), corpus.total());
	for (auto &l : labels) fprintf(f, "L %llu %s\n", (unsigned long long)l.second, l.first.c_str());
	for (auto h : hashes) fprintf(f, "H %llx\n", (unsigned long long)h);
	for (auto &s : samples) fprintf(f, "S %s\n", quote(s, 3000).c_str());
	fclose(f);
	sh->state = 1;
	fflush(nullptr);
	_exit(0);
}

struct Outcome { enum K { Pass, Failed, Crash, Hang, Error } k = Pass; std::string msg, shown; };
static const char *kname(Outcome::K k) { static const char *n[] = {"pass", "violation", "crash", "hang", "harness error"}; return n[k]; }

static std::string tail_of(const std::string &file) {
	FILE *f = fopen(file.c_str(), "r"); if (!f) return "";
	std::string all; char b[4096]; size_t n;
	while ((n = fread(b, 1, sizeof b, f)) > 0) { all.append(b, n); if (all.size() > 4000000) all.erase(0, 2000000); }
	fclose(f);
	size_t q = all.find("ERROR: AddressSanitizer");
	if (q == std::string::npos) q = all.find("runtime error:");
	if (q != std::string::npos) { size_t s = all.rfind('\n', q); s = s == std::string::npos ? 0 : s + 1; return all.substr(s, 2500); }
	return all.size() > 1500 ? all.substr(all.size() - 1500) : all;
}
static std::string status_text(int st) {
	char b[80];
	if (WIFSIGNALED(st)) snprintf(b, sizeof b, "killed by signal %d (%s)", WTERMSIG(st), strsignal(WTERMSIG(st)));
	else snprintf(b, sizeof b, "exit status %d", WEXITSTATUS(st));
	return b;
}

// Memory a process uses; a case that needs more than RSS_LIMIT is a failure, not a reason to run out of memory.
static const size_t RSS_LIMIT = 2500ull << 20;
static size_t rss_of(pid_t pid) {
	char path[64]; snprintf(path, sizeof path, "/proc/%d/statm", (int)pid);
	FILE *f = fopen(path, "r"); if (!f) return 0;
	unsigned long a = 0, b = 0, shared = 0; int n = fscanf(f, "%lu %lu %lu", &a, &b, &shared); fclose(f);
	return n == 3 && b > shared ? (b - shared) * 4096ull : 0;
}

static Outcome wait_child(pid_t pid, Shared *sh, double timeout, const std::string &err) {
	double t0 = now(); uint64_t beat = sh->beats; int st;
	for (;;) {
		pid_t r = waitpid(pid, &st, WNOHANG);
		if (r == pid) break;
		if (sh->beats != beat) { beat = sh->beats; t0 = now(); }
		if (now() - t0 > 0.2 && rss_of(pid) > RSS_LIMIT) {
			kill(pid, SIGKILL); waitpid(pid, &st, 0);
			Outcome o; o.k = Outcome::Crash; o.msg = "memory use grows beyond 2.5 GB"; return o;
		}
		if (now() - t0 > timeout) {
			kill(pid, SIGKILL); waitpid(pid, &st, 0);
			Outcome o; o.k = Outcome::Hang; char b[120]; snprintf(b, sizeof b, "no progress for %.0f s: the code under test hangs", timeout); o.msg = b;
			return o;
		}
		struct timespec ts = {0, now() - t0 < 0.05 ? 300000 : 3000000}; nanosleep(&ts, nullptr);
	}
	Outcome o; o.shown = sh->shown;
	if (WIFEXITED(st) && WEXITSTATUS(st) == 0) o.k = Outcome::Pass;
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 3 && sh->state == 2) { o.k = Outcome::Failed; o.msg = sh->msg; }
	else if (WIFEXITED(st) && WEXITSTATUS(st) == 4) { o.k = Outcome::Error; o.msg = sh->msg; }
	else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) { o.k = Outcome::Error; o.msg = "worker killed (out of memory?)"; }
	else { o.k = Outcome::Crash; o.msg = status_text(st) + ": " + tail_of(err); }
	return o;
}

// One case, in a fresh process.
static Outcome replay(const Prop &p, const std::vector<uint32_t> &ch, int example, bool show, Shared *sh) {
	std::string err = g_scratch + "/replay.err";
	sh->state = 0; sh->n = 0; sh->beats = 0; sh->msg[0] = sh->shown[0] = 0;
	pid_t pid = fork();
	if (pid == 0) {
		prctl(PR_SET_PDEATHSIG, SIGKILL);
		setpgid(0, 0);
		silence(err);
		if (p.worker_init) p.worker_init();
		Gen g; Ctx c;
		g.rec = sh->choices; g.nrec = &sh->n; g.in = ch.data(); g.in_n = ch.size(); g.zero_after = true; g.example = example;
		c.want_show = show;
		bool ok = run_one(p, g, c, sh);
		snprintf(sh->shown, sizeof sh->shown, "%s", c.shown.c_str());
		fflush(nullptr);
		_exit(ok ? 0 : sh->state == 2 ? 3 : 4);
	}
	Outcome o = wait_child(pid, sh, p.case_timeout, err);
	kill(-pid, SIGKILL);
	return o;
}

static std::vector<uint32_t> shrink(const Prop &p, std::vector<uint32_t> cur, Outcome::K kind, Shared *sh, uint64_t *attempts) {
	double end = now() + p.shrink_s;
	auto still = [&](const std::vector<uint32_t> &v) {
		if (now() > end) return false;
		(*attempts)++;
		Outcome o = replay(p, v, -1, false, sh);
		if (o.k != kind) return false;
		return true;
	};
	bool improved = true;
	while (improved && now() < end) {
		improved = false;
		for (size_t len = std::max<size_t>(1, cur.size() / 2); len >= 1 && now() < end; len = len / 2) {
			for (size_t at = cur.size() >= len ? cur.size() - len : 0; now() < end; ) {
				if (at + len <= cur.size()) {
					std::vector<uint32_t> t(cur); t.erase(t.begin() + at, t.begin() + at + len);
					if (still(t)) { cur = t; improved = true; }
					else {
						bool nz = false; for (size_t k = at; k < at + len; k++) nz |= cur[k] != 0;
						if (nz) { t = cur; std::fill(t.begin() + at, t.begin() + at + len, 0); if (still(t)) { cur = t; improved = true; } }
					}
				}
				if (at < len) { if (at == 0) break; at = 0; } else at -= len;
			}
			if (len == 1) break;
		}
		for (size_t k = 0; k < cur.size() && now() < end; k++) {
			uint32_t lo = 0, hi = cur[k];
			while (lo < hi && now() < end) {
				uint32_t mid = lo + (hi - lo) / 2; std::vector<uint32_t> t(cur); t[k] = mid;
				if (still(t)) { cur = t; hi = mid; improved = true; } else lo = mid + 1;
			}
		}
	}
	while (!cur.empty() && cur.back() == 0) cur.pop_back();
	return cur;
}

static std::string json(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) { char b[8];
		if (c == '"' || c == '\\') { o += '\\'; o += c; }
		else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
		else o += c; }
	return o + "\"";
}

struct Totals { uint64_t evals = 0, nontriv = 0, guided = 0, edges = 0, edges_total = 0, corpus = 0; std::unordered_set<uint64_t> hashes; std::map<std::string, uint64_t> labels; std::vector<std::string> samples; bool truncated = false; std::vector<std::string> unconfirmed; };

static void read_out(const std::string &file, Totals &t) {
	FILE *f = fopen(file.c_str(), "r"); if (!f) return;
	char *line = nullptr; size_t cap = 0; ssize_t n;
	while ((n = getline(&line, &cap, f)) > 0) {
		if (line[n - 1] == '\n') line[--n] = 0;
		unsigned long long a, b, c; int tr; size_t co, re, to;
		if (line[0] == 'E' && sscanf(line, "E %llu %llu %llu %d %zu %zu %zu", &a, &b, &c, &tr, &co, &re, &to) == 7) {
			t.evals += a; t.nontriv += b; t.guided += c; t.truncated |= tr; t.corpus += co; t.edges = std::max<uint64_t>(t.edges, re); t.edges_total = to;
		} else if (line[0] == 'L' && sscanf(line, "L %llu", &a) == 1) { t.labels[strchr(line + 2, ' ') + 1] += a; }
		else if (line[0] == 'H' && sscanf(line, "H %llx", &a) == 1) t.hashes.insert(a);
		else if (line[0] == 'S') { if (t.samples.size() < 6) t.samples.push_back(line + 2); }
	}
	free(line); fclose(f);
}

static std::vector<std::pair<std::string, std::string>> known_listed(const std::string &id) {
	std::vector<std::pair<std::string, std::string>> v;
	FILE *f = fopen(opt.known_file.c_str(), "r"); if (!f) return v;
	char line[4000], pid[64], sc[128]; int off;
	while (fgets(line, sizeof line, f)) {
		line[strcspn(line, "\n")] = 0; off = 0;
		if (sscanf(line, "known: property=%63s scenario=%127s %n", pid, sc, &off) == 2 && id == pid) v.push_back({sc, line + off});
	}
	fclose(f);
	return v;
}

static void write_evidence(const Prop &p, const Totals &t, int violations, double wall) {
	if (opt.evidence.empty()) return;
	FILE *f = fopen(opt.evidence.c_str(), "w"); if (!f) { perror(opt.evidence.c_str()); return; }
	fprintf(f, "{\n \"property\": \"%s\",\n \"tier\": \"%s\",\n \"seed\": %llu,\n \"level\": \"exploration\",\n \"coverage\": {\n", p.id, opt.tier.c_str(), (unsigned long long)opt.seed);
	fprintf(f, "  \"evaluations\": %llu,\n  \"distinct_nontrivial\": %zu,\n  \"rule\": %s,\n", (unsigned long long)t.evals, t.hashes.size(), json(p.rule).c_str());
	fprintf(f, "  \"coverage_guided_cases\": %llu,\n  \"library_edges_reached_by_one_worker\": %llu,\n  \"library_edges_total\": %llu,\n  \"cut_short_by_time_cap\": %s,\n",
		(unsigned long long)t.guided, (unsigned long long)t.edges, (unsigned long long)t.edges_total, t.truncated ? "true" : "false");
	fprintf(f, "  \"cases_with_label\": {");
	bool first = true; for (auto &l : t.labels) { fprintf(f, "%s\n   %s: %llu", first ? "" : ",", json(l.first).c_str(), (unsigned long long)l.second); first = false; }
	fprintf(f, "\n  },\n  \"unconfirmed_failures\": [");
	first = true; for (auto &s : t.unconfirmed) { fprintf(f, "%s\n   %s", first ? "" : ",", json(s).c_str()); first = false; }
	fprintf(f, "],\n  \"samples\": [");
	first = true; for (auto &s : t.samples) { fprintf(f, "%s\n   %s", first ? "" : ",", json(s).c_str()); first = false; }
	fprintf(f, "\n  ]\n },\n \"assumptions\": [");
	first = true; for (auto &s : p.assumptions) { fprintf(f, "%s\n  %s", first ? "" : ",", json(s).c_str()); first = false; }
	fprintf(f, "],\n \"wall_s\": %.2f,\n \"violations\": %d\n}\n", wall, violations);
	fclose(f);
}

static std::string write_replay(const Prop &p, const std::vector<uint32_t> &ch, int example, uint64_t idx, const Outcome &o, const std::string &how) {
	mkdir(opt.replay_dir.c_str(), 0777);
	char name[128];
	snprintf(name, sizeof name, "%s/%s-seed%llu-%s.replay", opt.replay_dir.c_str(), p.id, (unsigned long long)opt.seed, opt.tier.c_str());
	FILE *f = fopen(name, "w");
	if (!f) { perror(name); return name; }
	fprintf(f, "property %s\ntier %s\nseed %llu\ncase %llu\nexample %d\n", p.id, opt.tier.c_str(), (unsigned long long)opt.seed, (unsigned long long)idx, example);
	fprintf(f, "choices %zu", ch.size());
	for (auto c : ch) fprintf(f, " %u", c);
	fprintf(f, "\n# replay with: python3 /verif/check.py %s --replay %s\n# found by: %s\n# outcome: %s\n", p.id, name, how.c_str(), kname(o.k));
	auto dump = [&](const char *h, const std::string &s) { fprintf(f, "# %s:\n", h); size_t a = 0; while (a < s.size()) { size_t e = s.find('\n', a); if (e == std::string::npos) e = s.size(); fprintf(f, "#   %s\n", s.substr(a, e - a).c_str()); a = e + 1; } };
	dump("what failed", o.msg);
	dump("case", o.shown);
	fclose(f);
	return name;
}

static std::string one_line(std::string s) { s = s.substr(0, 400); for (auto &c : s) if (c == '\n' || c == '\r') c = ' '; return s; }

static int do_replay(const Prop &p) {
	FILE *f = fopen(opt.replay.c_str(), "r"); if (!f) { perror(opt.replay.c_str()); return 2; }
	int example = -1; std::vector<uint32_t> ch; char *line = nullptr; size_t cap = 0;
	while (getline(&line, &cap, f) > 0) {
		if (sscanf(line, "example %d", &example) == 1) continue;
		if (!strncmp(line, "choices ", 8)) { char *q = line + 8; strtoul(q, &q, 10); char *e; for (;;) { unsigned long v = strtoul(q, &e, 10); if (e == q) break; ch.push_back((uint32_t)v); q = e; } }
	}
	free(line); fclose(f);
	Shared *sh = new_shared();
	Outcome o = replay(p, ch, example, true, sh);
	printf("case:\n%s\noutcome: %s\n%s\n", o.shown.c_str(), kname(o.k), o.msg.c_str());
	if (o.k == Outcome::Pass) return 0;
	if (o.k == Outcome::Error) return 2;
	printf("VIOLATION property=%s replay=%s\n", p.id, opt.replay.c_str());
	return 1;
}

static int check(const Prop &p) {
	double t0 = now();
	Totals tot;
	int W = p.workers ? p.workers : std::max(2, std::min(cpu_count(), 16));
	uint64_t total = (uint64_t)((opt.tier == "thorough" ? p.thorough : p.quick) * opt.scale);
	if (opt.cases) total = opt.cases;
	total += p.examples;
	double deadline = t0 + (opt.time_cap > 0 ? opt.time_cap : opt.tier == "thorough" ? 7200 : 300);
	Shared *rs = new_shared();

	// Known findings: reported while the recorded scenario still fails.
	auto listed = known_listed(p.id);
	for (auto &k : p.known) {
		bool is_listed = false; std::string text;
		for (auto &l : listed) if (l.first == k.first) { is_listed = true; text = l.second; }
		Prop q = p; auto fn = k.second; q.run = [fn](Gen &, Ctx &) { fn(); }; q.case_timeout = 20;
		Outcome o = replay(q, {}, 0, false, rs);
		if (o.k == Outcome::Pass || o.k == Outcome::Error) continue;
		if (is_listed) printf("KNOWN-FINDING: property=%s %s: %s\n", p.id, k.first.c_str(), text.c_str());
		else {
			std::string path = write_replay(p, {}, -1, 0, o, "recorded scenario " + k.first);
			printf("%s: scenario %s: %s\nVIOLATION property=%s replay=%s\n", p.id, k.first.c_str(), one_line(o.msg).c_str(), p.id, path.c_str());
			write_evidence(p, tot, 1, now() - t0);
			return 1;
		}
	}

	struct W_ { pid_t pid = 0; Shared *sh; std::string out, err; uint64_t first = 0; double beat_t; uint64_t beat; bool done = false; };
	std::vector<W_> ws(W);
	auto start = [&](int w, uint64_t first) {
		W_ &x = ws[w];
		x.sh->state = 0; x.sh->n = 0; x.sh->beats = 0; x.first = first; x.beat = 0; x.beat_t = now(); x.done = false;
		fflush(nullptr);
		pid_t pid = fork();
		if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); silence(x.err); worker(p, w, W, first, total, x.sh, x.out + "." + std::to_string(first), deadline, UINT64_MAX); }
		if (pid < 0) { perror("fork"); exit(2); }
		x.pid = pid;
	};
	for (int w = 0; w < W; w++) { ws[w].sh = new_shared(); ws[w].out = g_scratch + "/w" + std::to_string(w); ws[w].err = ws[w].out + ".err"; start(w, 0); }
	auto kill_all = [&] { for (auto &x : ws) if (!x.done) { kill(-x.pid, SIGKILL); kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); x.done = true; } };

	int rc = 0; int errors = 0;
	for (;;) {
		bool any = false; int bad = -1; Outcome o;
		for (int w = 0; w < W && bad < 0; w++) {
			W_ &x = ws[w]; if (x.done) continue;
			any = true; int st;
			pid_t r = waitpid(x.pid, &st, WNOHANG);
			if (r == x.pid) {
				kill(-x.pid, SIGKILL);
				x.done = true;
				if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && x.sh->state == 1) { read_out(x.out + "." + std::to_string(x.first), tot); continue; }
				bad = w; o.k = WIFEXITED(st) && WEXITSTATUS(st) == 3 ? Outcome::Failed : WIFEXITED(st) && WEXITSTATUS(st) == 4 ? Outcome::Error
					: WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL ? Outcome::Error : Outcome::Crash;
				o.msg = o.k == Outcome::Crash ? status_text(st) + ": " + tail_of(x.err) : o.k == Outcome::Error && WIFSIGNALED(st) ? "worker killed" : std::string(x.sh->msg);
			} else {
				if (x.sh->beats != x.beat) { x.beat = x.sh->beats; x.beat_t = now(); }
				else if (now() - x.beat_t > 0.2 && rss_of(x.pid) > RSS_LIMIT) {
					kill(-x.pid, SIGKILL); kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); x.done = true; bad = w; o.k = Outcome::Crash; o.msg = "memory use grows beyond 2.5 GB";
				}
				else if (now() - x.beat_t > p.case_timeout) {
					kill(-x.pid, SIGKILL); kill(x.pid, SIGKILL); waitpid(x.pid, nullptr, 0); x.done = true; bad = w; o.k = Outcome::Hang; o.msg = "no progress";
				}
			}
		}
		if (bad >= 0) {
			W_ &x = ws[bad];
			uint64_t idx = x.sh->idx;
			int example = idx < (uint64_t)p.examples ? (int)idx : -1;
			std::vector<uint32_t> ch(x.sh->choices, x.sh->choices + x.sh->n);
			fprintf(stderr, "%s: case %llu: %s: %s\n", p.id, (unsigned long long)idx, kname(o.k), one_line(o.msg).c_str());
			if (o.k == Outcome::Error) {
				// A harness error is not a verdict about the code: retry once, then give up with status 2.
				if (++errors > 3) { kill_all(); fprintf(stderr, "harness error: %s\n", o.msg.c_str()); return 2; }
				start(bad, idx + 1); continue;
			}
			// Others wait while the failure is confirmed.
			for (auto &y : ws) if (!y.done) kill(-y.pid, SIGSTOP);
			int failed = 0; Outcome last;
			for (int k = 0; k < p.confirm; k++) {
				Outcome q = replay(p, ch, example, true, rs);
				if (q.k == Outcome::Failed || q.k == Outcome::Crash || q.k == Outcome::Hang) { failed++; last = q; if (p.confirm_min < p.confirm && failed >= p.confirm_min) break; }
			}
			if (failed >= p.confirm_min) {
				kill_all();
				uint64_t attempts = 0;
				Outcome best = last; std::vector<uint32_t> small = ch;
				if (example < 0 && !opt.noshrink && p.shrink_s > 0) {
					small = shrink(p, ch, last.k, rs, &attempts);
					int again = 0; Outcome q2;
					for (int k = 0; k < p.confirm; k++) { Outcome q = replay(p, small, example, true, rs); if (q.k == last.k) { again++; q2 = q; } }
					if (again >= p.confirm_min) best = q2; else small = ch;
				}
				std::string path = write_replay(p, small, example, idx, best, "generated case");
				printf("%s: %s: %s\ncase: %s\nfailed in %d of %d replays; shrunk from %zu to %zu choices in %llu attempts\n", p.id, kname(best.k), one_line(best.msg).c_str(), one_line(best.shown).c_str(),
					failed, p.confirm, ch.size(), small.size(), (unsigned long long)attempts);
				printf("VIOLATION property=%s replay=%s\n", p.id, path.c_str());
				rc = 1; break;
			}
			// It may need what earlier cases in the same process left behind: replay the worker's history.
			int hist = 0; Outcome h;
			if (x.first == 0 && p.guided) for (int k = 0; k < 2; k++) {
				rs->state = 0; rs->n = 0; rs->beats = 0; rs->msg[0] = rs->shown[0] = 0;
				pid_t pid = fork();
				if (pid == 0) { prctl(PR_SET_PDEATHSIG, SIGKILL); setpgid(0, 0); silence(g_scratch + "/hist.err"); worker(p, bad, W, 0, total, rs, g_scratch + "/hist.out", 0, idx); }
				h = wait_child(pid, rs, p.case_timeout, g_scratch + "/hist.err");
				kill(-pid, SIGKILL);
				if ((h.k == Outcome::Failed || h.k == Outcome::Crash || h.k == Outcome::Hang) && rs->idx == idx) hist++;
			}
			if (hist == 2) {
				kill_all();
				std::string path = write_replay(p, ch, example, idx, h, "history: cases w, w+" + std::to_string(W) + ", ... of worker " + std::to_string(bad) + " in one process, up to this case");
				printf("%s: %s: %s (needs the worker's earlier cases; history replayed twice)\nVIOLATION property=%s replay=%s\n", p.id, kname(h.k), one_line(h.msg).c_str(), p.id, path.c_str());
				rc = 1; break;
			}
			tot.unconfirmed.push_back("case " + std::to_string(idx) + " " + kname(o.k) + " once, " + std::to_string(failed) + " of " + std::to_string(p.confirm) + " replays: " + one_line(o.msg));
			fprintf(stderr, "%s: not confirmed (%d of %d replays), going on\n", p.id, failed, p.confirm);
			for (auto &y : ws) { y.beat_t = now(); if (!y.done) kill(-y.pid, SIGCONT); }
			if (tot.unconfirmed.size() > 20) { kill_all(); break; }
			start(bad, idx + 1);
			continue;
		}
		if (!any) break;
		struct timespec ts = {0, 5000000}; nanosleep(&ts, nullptr);
	}
	if (rc == 1) for (int w = 0; w < W; w++) { tot.evals += ws[w].sh->beats; }
	double wall = now() - t0;
	write_evidence(p, tot, rc, wall);
	if (rc == 0) {
		printf("%s: held on %llu cases (%zu distinct non-trivial), seed %llu, %s tier, %.1f s\n", p.id, (unsigned long long)tot.evals, tot.hashes.size(), (unsigned long long)opt.seed, opt.tier.c_str(), wall);
		if (tot.evals == 0) { fprintf(stderr, "no case was run\n"); return 2; }
	}
	return rc;
}

int engine_main(int argc, char **argv) {
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i]; auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--id") opt.id = val(); else if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
		else if (a == "--tier") opt.tier = val(); else if (a == "--evidence") opt.evidence = val(); else if (a == "--replays") opt.replay_dir = val();
		else if (a == "--replay") opt.replay = val(); else if (a == "--known") opt.known_file = val(); else if (a == "--scale") opt.scale = atof(val().c_str());
		else if (a == "--cases") opt.cases = strtoull(val().c_str(), nullptr, 10); else if (a == "--noshrink") opt.noshrink = true;
		else if (a == "--time-cap") opt.time_cap = atof(val().c_str());
	}
	setvbuf(stdout, nullptr, _IOLBF, 0);
	for (uint64_t n = (uint64_t)getpid() << 32 | (uint32_t)time(nullptr);; n++) { // letters and underscores only: templates can refer to it
		g_scratch = "/tmp/verif_pbt_"; for (uint64_t m = n; m; m /= 26) g_scratch += (char)('a' + m % 26);
		if (mkdir(g_scratch.c_str(), 0700) == 0) break;
		if (errno != EEXIST) { perror("mkdir"); return 2; }
	}
	int rc = 2; bool found = false;
	for (auto &p : props()) if (opt.id == p.id) { found = true; rc = opt.replay.empty() ? check(p) : do_replay(p); }
	if (!found) fprintf(stderr, "unknown property %s\n", opt.id.c_str());
	rm_tree(g_scratch);
	return rc;
}
}
int main(int argc, char **argv) { return pbt::engine_main(argc, argv); }
