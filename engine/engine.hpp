// A small property-based testing engine.
//
// A case is a sequence of bounded integer choices. Gen draws each choice from a PRNG (fresh case),
// from a mutated earlier case (coverage-guided case) or from a recorded list (replay, shrinking),
// and records what it used, so the recorded list alone reproduces the case. Cases run in forked
// worker processes; the choices live in shared memory, so a crash or a hang of the code under test is
// attributed to the case that caused it.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdarg>
#include <string>
#include <vector>
#include <map>
#include <functional>
#include <exception>

namespace pbt {

struct Fail { std::string msg; };
[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
#define CHECK(cond, ...) do { if (!(cond)) ::pbt::fail(__VA_ARGS__); } while (0)

struct Rng {
	uint64_t s;
	explicit Rng(uint64_t seed = 1) : s(seed) {}
	uint64_t next() {
		uint64_t z = (s += 0x9E3779B97F4A7C15ULL);
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ULL;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBULL;
		return z ^ (z >> 31);
	}
};

constexpr size_t MAX_CHOICES = 1u << 17;

struct Gen {
	// recording target (shared memory)
	uint32_t *rec = nullptr;
	uint32_t *nrec = nullptr;
	// source
	Rng rng{1};
	const uint32_t *in = nullptr;
	size_t in_n = 0, pos = 0;
	bool zero_after = false; // replaying: draws past the recorded list are 0; otherwise random
	int example = -1;        // >= 0: a coded example, generators are bypassed
	// Fresh draws follow these earlier draws, except that one in `vary` (0: none) is drawn anew.
	std::vector<uint32_t> hint; size_t hint_pos = 0; uint32_t vary = 0;

	uint32_t below(uint32_t n); // [0, n)
	uint64_t u64();
	int64_t range(int64_t lo, int64_t hi); // inclusive; lo is the simplest
	bool chance(unsigned num, unsigned den) { return below(den) >= den - num; } // 0 -> false
	bool flip() { return below(2) == 1; }
	template <class T> const T &pick(const std::vector<T> &v) { return v[below((uint32_t)v.size())]; }
	// Index by weight.
	size_t weighted(std::initializer_list<unsigned> w);
	// A size in [lo, hi], biased to small values, to hi, and to values around powers of two, powers of
	// ten and the sizes that occur in the code (16, 31, 32, 48, 128, 256, 512, 1024, 2048, 4096).
	size_t size(size_t lo, size_t hi);
	// n bytes; style: 0 'a' only, 1 lower-case letters, 2 all bytes, 3 all bytes but NUL, 4 few letters
	std::string bytes(size_t n, int style);
	// n characters, drawn from an alphabet; short strings draw one choice per character.
	std::string text(size_t n, const std::string &alphabet);
};

struct Ctx {
	std::map<std::string, uint64_t> labels;
	bool nontrivial = false;
	bool keep = true; // false: too slow to be worth mutating
	bool want_show = false;
	std::string shown;
	void label(const std::string &l, int = 0) { labels[l]++; }
	void show(const char *fmt, ...) __attribute__((format(printf, 2, 3)));
};

struct Prop {
	const char *id;
	const char *rule;
	uint64_t quick, thorough;
	std::function<void(Gen &, Ctx &)> run;
	int examples = 0;                 // coded examples, run first; run() sees g.example
	bool guided = true;               // keep cases that reach new code and mutate them
	int workers = 0;                  // 0: one per core
	double case_timeout = 25;         // wall seconds without progress: the case hangs
	int confirm = 3, confirm_min = 3; // replays of a failure, and how many of them must fail
	double shrink_s = 60;
	unsigned repeat = 6;              // one in `repeat` cases goes on in the same process with up to three variations of itself (0: never)
	std::vector<std::pair<std::string, std::function<void()>>> known; // scenario -> throws Fail while it is broken
	std::vector<std::string> assumptions;
	std::function<void()> worker_init = nullptr;
};

void add(const Prop &p);
int engine_main(int argc, char **argv);

// Allocated heap bytes right now.
size_t heap_bytes();
// Runs f up to `times` times and fails if the heap grew every single time.
void check_no_leak(const char *what, const std::function<void()> &f, int times = 3);
std::string quote(const std::string &s, size_t max = 200);
std::string scratch_dir();   // private to this process, removed by the parent
int cpu_count();

// A heap copy of exactly the given size: reading one byte past it is an error.
struct Exact {
	char *p; size_t n;
	explicit Exact(const std::string &s, bool terminated = false);
	~Exact();
	Exact(const Exact &) = delete;
};

// Allocation faults: the n-th allocation made by library or harness C code fails (0: none).
extern "C" long fail_alloc_in;
extern "C" long alloc_failures;
// While on, freed blocks are handed out again at once; off releases them.
extern "C" void recycle(bool on);
extern "C" bool recycle_on;
}
