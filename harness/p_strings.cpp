// C08 request parsing, C09 header lookup, C10 forms, C11 URL decoding, C12 cookies, C13 ranges, C25 string helpers.
#include "exchange.hpp"
#include <cerrno>
#include <climits>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <strings.h>
#include <sys/mman.h>
#include <unistd.h>
#include <stdexcept>
#include <memory>
#include <algorithm>
using namespace pbt;

static const std::string ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789";
static const std::string TOKEN = ALNUM + "-_.";
static std::string lower(std::string s) { for (auto &c : s) c = tolower((unsigned char)c); return s; }
static std::string take(char *p) { std::string s = p ? p : ""; free(p); return s; }
// Values handed out earlier stay what they were, whatever is looked up later.
struct Kept {
	std::vector<std::pair<char *, std::string>> v;
	std::string keep(char *p) { std::string s = p ? p : ""; if (p) v.push_back({p, s}); return s; }
	void verify(const char *what) { for (auto &e : v) CHECK(e.second == e.first, "%s returned earlier turned from %s into %s", what, quote(e.second).c_str(), quote(e.first).c_str()); }
	~Kept() { for (auto &e : v) free(e.first); }
};
struct Req { void *r = sh_req_new(); ~Req() { sh_req_free(r); } };

static std::string percent(Gen &g, unsigned char c) {
	static const char up[] = "0123456789ABCDEF", lo[] = "0123456789abcdef";
	unsigned k = g.below(4);
	return std::string("%") + (k & 1 ? lo : up)[c >> 4] + (k & 2 ? lo : up)[c & 15];
}
// Percent-encodes; `literal` are the bytes that may be written as themselves.
static std::string encode(Gen &g, const std::string &s, const std::string &literal, bool plus = true) {
	std::string o;
	int density = g.below(4); // how much is encoded without need
	for (unsigned char c : s) {
		if (c == ' ' && plus && g.below(3)) o += '+';
		else if (c && literal.find(c) != std::string::npos && (density == 0 || g.below(4) >= (unsigned)density)) o += c;
		else o += percent(g, c);
	}
	return o;
}
static std::string all_literals(const std::string &except) {
	std::string o;
	for (int c = 1; c < 256; c++) if (except.find((char)c) == std::string::npos) o += (char)c;
	return o;
}
static const std::string BAD_ESCAPES[] = {"%", "%4", "%zz", "%4g", "%g4", "%%41", "% 1", "%-1", "%+1", "%0x", "%\xff\xff", "%a%", "%1%31"};

// Once in a while a length that does not fit into 16 bits.
static bool far(Gen &g, Ctx &c, unsigned one_in) { if (g.below(one_in) != one_in - 1) return false; c.label("over 64 KiB"); c.keep = false; return true; }
static size_t far_size(Gen &g) { return g.flip() ? 65536 - 20 + g.below(40) : (size_t)g.range(65500, 200000); }

// --- C11 -----------------------------------------------------------------------------------------------
static void url_prop(Gen &g, Ctx &c) {
	static const std::string lit = all_literals("%+");
	if (g.example >= 0) {
		struct { const char *in, *out; int n; } ex[] = {{"", "", 1}, {"%00", "\0", 2}, {"a%00b%0", nullptr, -1}, {"%", nullptr, -1}, {"+%2B%2b", " ++", 4}};
		auto &e = ex[g.example];
		Exact in(e.in, true); char *out = (char *)malloc(strlen(e.in) + 1);
		int n = sh_url_decode(in.p, out);
		CHECK(n == e.n, "decoding %s returned %d, expected %d", e.in, n, e.n);
		if (n > 0) CHECK(memcmp(out, e.out, n) == 0, "decoding %s gave %s", e.in, quote(std::string(out, n)).c_str());
		free(out); return;
	}
	size_t n = far(g, c, 4000) ? far_size(g) : g.size(0, g.below(30) == 29 ? 5000 : 120);
	std::string plain = g.bytes(n, g.pick(std::vector<int>{2, 2, 3, 1}));
	std::string text = encode(g, plain, g.flip() ? lit : ALNUM);
	bool bad = g.below(4) == 3;
	if (bad) {
		std::string b = BAD_ESCAPES[g.below(sizeof BAD_ESCAPES / sizeof *BAD_ESCAPES)];
		bool at_end = g.flip();
		if (at_end) text += b;
		else { // between two encoded characters
			size_t cut = plain.empty() ? 0 : g.below(plain.size() + 1);
			text = encode(g, plain.substr(0, cut), lit) + b + "." + encode(g, plain.substr(cut), lit);
		}
		// What follows a cut-off escape must not complete it: all insertions above stay malformed.
	}
	Exact in(text, true);
	if (g.below(4) == 3) { int n = sh_url_decode(in.p, nullptr); CHECK(n == (bad ? -1 : (int)plain.size() + 1), "the length of the decoded %s is given as %d, expected %d", quote(text).c_str(), n, bad ? -1 : (int)plain.size() + 1); c.label("length only"); }
	char *out = (char *)malloc(text.size() + 1);
	memset(out, 0x7e, text.size() + 1);
	c.show("m38_url_decode(%s)", quote(text, 400).c_str());
	int rc = sh_url_decode(in.p, out);
	if (bad) CHECK(rc == -1, "the malformed text %s decodes with result %d", quote(text).c_str(), rc);
	else {
		CHECK(rc == (int)plain.size() + 1, "decoding %s returned %d, expected %zu", quote(text).c_str(), rc, plain.size() + 1);
		CHECK(memcmp(out, plain.data(), plain.size()) == 0 && out[plain.size()] == 0, "%s decodes to %s, expected %s", quote(text).c_str(), quote(std::string(out, rc)).c_str(), quote(plain).c_str());
		for (size_t i = plain.size() + 1; i < text.size() + 1; i++) CHECK(out[i] == 0x7e, "decoding %s wrote beyond the decoded text", quote(text).c_str());
	}
	CHECK(memcmp(in.p, text.c_str(), text.size() + 1) == 0, "decoding changed its input");
	free(out);
	bool esc = text.find('%') != std::string::npos, plus = text.find('+') != std::string::npos;
	c.nontrivial = bad || esc || plus;
	if (bad) c.label("malformed escape"); if (esc) c.label("escapes"); if (plus) c.label("plus signs"); if (plain.find('\0') != std::string::npos) c.label("NUL bytes");
}

// --- C12 -----------------------------------------------------------------------------------------------
static std::string related_name(Gen &g, const std::string &name) {
	switch (g.below(6)) {
	case 0: return name + g.text(1 + g.below(3), TOKEN);
	case 1: return g.text(1 + g.below(3), TOKEN) + name;
	case 2: if (name.size() > 1) return name.substr(0, 1 + g.below(name.size() - 1)); return name + "x";
	case 3: if (name.size() > 1) return name.substr(1 + g.below(name.size() - 1)); return "x" + name;
	case 4: { std::string s = name; for (auto &ch : s) ch = isupper((unsigned char)ch) ? tolower(ch) : toupper(ch); return s; }
	default: return g.text(1 + g.below(8), TOKEN);
	}
}
static void cookie_prop(Gen &g, Ctx &c) {
	if (g.example == 0) {
		CHECK(!sh_cookie(nullptr, 0, "a") && !sh_cookie(nullptr, 10, "a"), "cookie in no string");
		Exact e(""); CHECK(!sh_cookie(e.p, 0, "a"), "cookie in an empty string"); return;
	}
	std::string name, value, text;
	static const std::string PUNCT = "\\\"'()[]{}<>@:,/?&%+*|!#$^~.-_aB0\x80\xff\xc3";
	if (g.below(5) == 4) name = g.text(1 + g.below(8), PUNCT); else name = g.text(1 + g.below(g.below(100) == 99 ? 700 : 10), TOKEN);
	std::vector<std::string> names{name};
	for (int i = 0; i < 4; i++) { std::string r = related_name(g, name); names.push_back(r); }
	size_t n = g.below(12) == 11 ? g.size(0, g.below(20) == 19 ? 700 : 150) : g.below(8); size_t big = n && far(g, c, 3000) ? g.below((uint32_t)n) : SIZE_MAX;
	struct Ck { std::string name, value; bool bare; };
	std::vector<Ck> cks;
	static const std::string VAL = ALNUM + "=&%-_.+/:, \"'";
	bool confusing = false;
	for (size_t i = 0; i < n; i++) {
		Ck k; k.name = g.below(5) ? g.pick(names) : g.text(1 + g.below(8), TOKEN); k.bare = false;
		switch (i == big ? 3 : g.weighted({4, 2, 2, 1, 1})) {
		case 0: k.value = g.text(g.below(16), g.below(4) == 3 ? PUNCT + "= " : VAL); break;
		case 1: k.value = g.pick(names) + "=" + g.text(g.below(6), ALNUM); confusing = true; break;
		case 2: k.value = "x" + g.pick(names); break;
		case 3: k.value = g.text(i == big ? far_size(g) : g.size(0, 3000), VAL); break;
		case 4: k.bare = true; k.name = g.flip() ? "bare" + g.text(g.below(4), ALNUM) : g.text(1 + g.below(6), ALNUM) + g.pick(names) + "_"; break;
		}
		while (!k.value.empty() && (k.value.back() == ' ')) k.value.pop_back();
		while (!k.value.empty() && (k.value[0] == ' ')) k.value.erase(0, 1);
		if (i) text += g.pick(std::vector<std::string>{"; ", "; ", ";", ";  ", ";\t"});
		text += k.name; if (!k.bare) text += "=" + k.value;
		cks.push_back(k);
	}
	if (n && g.below(8) == 7) text += ";";
	bool terminated = g.below(4) != 3; size_t pass = text.size();
	Exact in(text, terminated);
	if (terminated && g.below(4) == 3) pass += 1 + g.below(100000);
	c.show("cookies %s%s", quote(text, 600).c_str(), terminated ? "" : " (unterminated)");
	unsigned hits = 0, misses = 0; Kept kept;
	for (auto &want : names) {
		bool bare = false; const Ck *first = nullptr;
		for (auto &k : cks) if (k.name == want) { if (k.bare) bare = true; else if (!first) first = &k; }
		if (bare) continue;
		Exact nm(want, true);
		char *got = sh_cookie(in.p, pass, nm.p);
		c.show(", %s?", want.c_str());
		if (!first) { misses++; bool none = !got; std::string s = kept.keep(got); CHECK(none, "cookie %s is not in %s, but has the value %s", want.c_str(), quote(text, 600).c_str(), quote(s).c_str()); }
		else { hits++; CHECK(got, "cookie %s is not found in %s", want.c_str(), quote(text, 600).c_str()); std::string s = kept.keep(got); CHECK(s == first->value, "cookie %s of %s is %s, expected %s", want.c_str(), quote(text, 600).c_str(), quote(s).c_str(), quote(first->value).c_str()); }
	}
	kept.verify("a cookie's value");
	CHECK(memcmp(in.p, text.data(), text.size()) == 0, "the lookup changed its input");
	c.nontrivial = n >= 2 && hits && misses;
	if (hits) c.label("present cookies", 1); if (misses) c.label("absent cookies"); if (confusing) c.label("value looks like another cookie"); if (!terminated) c.label("unterminated buffer"); if (n > 20) c.label("over 20 cookies");
}

// --- C13 -----------------------------------------------------------------------------------------------
static void range_prop(Gen &g, Ctx &c) {
	unsigned n = 1 + g.below(6); bool limits = false, huge = false, bad = false;
	for (unsigned i = 0; i < n; i++) {
		static const unsigned __int128 T63 = (unsigned __int128)1 << 63, T64 = (unsigned __int128)1 << 64;
		auto number = [&](unsigned __int128 base) -> unsigned __int128 {
			switch (g.weighted({4, 3, 2, 2, 1, 1})) {
			case 0: return g.below(100);
			case 1: return base + g.below(3);
			case 2: return base > 0 ? base - 1 : 0;
			case 3: return g.u64() >> (1 + g.below(63));
			case 4: return T63 - 1 - g.below(3);
			default: return T64 + g.u64() * (unsigned __int128)(1 + g.below(1000000));
			}
		};
		auto str = [](unsigned __int128 v) { std::string s; do { s.insert(s.begin(), '0' + (int)(v % 10)); v /= 10; } while (v); return s; };
		unsigned __int128 a = number(0), b = number(a);
		if (a >= T63 && a <= T64) a = T63 - 1;
		if (b >= T63 && b <= T64) b = T63 - 1;
		auto strz = [&](unsigned __int128 v) { return (g.below(6) == 5 ? std::string(1 + g.below(g.below(4) == 3 ? 300 : 4), '0') : std::string()) + str(v); };
		size_t want_o = 0, want_l = 0; std::string v;
		switch (g.weighted({6, 3, 1, 1, 1})) {
		case 0: v = "bytes=" + strz(a) + "-" + strz(b); if (a < T63) { want_o = (size_t)a; if (b >= a && b < T63) { want_l = (size_t)b; limits = true; } } if (a >= T63 || b >= T63) huge = true; break;
		case 1: v = "bytes=" + strz(a) + "-"; if (a < T63) want_o = (size_t)a; else huge = true; break;
		case 2: v = "bytes=" + str(a); bad = true; break; // no dash
		case 3: { static const std::vector<std::string> p{"", "bytes", "byte=", "bytes =", "byte-", "items=", "xbytes=", " bytes=", "bytes:", "=", "Bytes=", "BYTES=", "bYtes="}; v = g.pick(p) + str(a) + "-" + str(b); bad = true; break; }
		default: { static const std::vector<std::string> p{"", "bytes=", "-", "b", "bytes", "byte", "none"}; v = g.pick(p); bad = true; break; }
		}
		Exact in(v, true);
		int e = g.pick(std::vector<int>{0, ERANGE, ERANGE, EINVAL}); errno = e;
		size_t o = 77, l = 77;
		sh_range(in.p, &o, &l);
		c.show("%s errno %d %s -> %zu,%zu ", i ? "," : "", e, quote(v).c_str(), o, l);
		CHECK(o == want_o && l == want_l, "%s parses to offset %zu, limit %zu; expected %zu, %zu (value %u of the sequence, errno was %d)", quote(v).c_str(), o, l, want_o, want_l, i, e);
	}
	c.nontrivial = limits || huge;
	if (limits) c.label("both numbers"); if (huge) c.label("unrepresentable numbers"); if (bad) c.label("not a range");
}

// --- C25 -----------------------------------------------------------------------------------------------
// Texts of several gigabytes, of which only one piece is in memory.
struct Huge {
	static constexpr size_t PIECE = 32u << 20; char *p; size_t n;
	Huge(size_t pieces, const std::string &end) : n(pieces * PIECE + end.size()) { // "ab" and many 'c', over and over, then the end
		int fd = memfd_create("huge", 0), fe = memfd_create("end", 0); if (fd < 0 || fe < 0 || ftruncate(fd, PIECE) || ftruncate(fe, 4096)) throw std::runtime_error("memfd");
		char *w = (char *)mmap(nullptr, PIECE, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); memset(w, 'c', PIECE); w[0] = 'a'; w[1] = 'b'; munmap(w, PIECE);
		if (pwrite(fe, end.data(), end.size(), 0) != (ssize_t)end.size()) throw std::runtime_error("pwrite");
		p = (char *)mmap(nullptr, pieces * PIECE + 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (p == MAP_FAILED) throw std::runtime_error("mmap");
		for (size_t i = 0; i < pieces; i++) if (mmap(p + i * PIECE, PIECE, PROT_READ, MAP_SHARED | MAP_FIXED, fd, 0) == MAP_FAILED) throw std::runtime_error("mmap");
		if (mmap(p + pieces * PIECE, 4096, PROT_READ, MAP_SHARED | MAP_FIXED, fe, 0) == MAP_FAILED) throw std::runtime_error("mmap");
		close(fd); close(fe);
	}
	~Huge() { munmap(p, (n / PIECE) * PIECE + 4096); }
};
static void huge_helpers(Gen &g, Ctx &c) {
	size_t gib = 1024 / 32; c.label("over 2 GiB"); c.keep = false; c.nontrivial = true;
	auto at = [](const char *got, const char *p) { return got ? std::to_string(got - p) : std::string("nothing"); };
	switch (g.example) {
	case 0: { Huge h(2 * gib + 1, "abd"); c.show("strnstr at %zu", h.n - 3); char *r = sh_strnstr(h.p, "abd", h.n); CHECK(r == h.p + h.n - 3, "strnstr in %zu bytes finds %s, expected the last 3 bytes", h.n, at(r, h.p).c_str()); r = sh_strnstr(h.p, "ab", (size_t)-1); CHECK(r == h.p, "strnstr in %zu bytes finds %s, expected 0", h.n, at(r, h.p).c_str()); break; }
	case 1: { Huge h(4 * gib, "abd"); c.show("endswith, %zu bytes", h.n); CHECK(sh_endswith(h.p, "cccabd") && !sh_endswith(h.p, "cabbd") && !sh_endswith("cabd", h.p), "suffix tests of a text of %zu bytes", h.n); CHECK(!sh_strnstr("abc", h.p, 3), "strnstr finds a needle of %zu bytes in \"abc\"", h.n); break; }
	case 2: { Huge h(4 * gib, "abd"); c.show("endswith, a suffix of %zu bytes", h.n); CHECK(sh_endswith(h.p, h.p), "a text of %zu bytes is not its own suffix", h.n); break; }
	default: { Huge h(4 * gib, "abd"); c.show("hash of %zu bytes", h.n); uint64_t x = 0xcbf29ce484222325ULL; const unsigned char *q = (unsigned char *)h.p; for (size_t i = 0; i < h.n; i++) x = (x ^ q[i]) * 0x100000001b3ULL;
		char want[32], out[64]; snprintf(want, sizeof want, "%lX", (unsigned long)x); sh_hash(q, h.n, out); CHECK(!strcmp(out, want), "the hash of %zu bytes is %s, expected %s", h.n, out, want); }
	}
}
static void helpers_prop(Gen &g, Ctx &c) {
	if (g.example >= 0) return huge_helpers(g, c);
	int kind = g.below(3); bool big = far(g, c, 4000);
	if (kind == 0) {
		int style = g.pick(std::vector<int>{4, 4, 3, 1});
		std::string nd = g.bytes(g.below(20) == 19 ? g.size(0, 600) : g.below(8), style), h;
		size_t pieces = g.below(8);
		for (size_t i = 0; i < pieces; i++) switch (g.below(4)) {
			case 0: h += nd; break;
			case 1: h += nd.substr(0, g.below(nd.size() + 1)); break;
			case 2: h += nd.empty() ? "" : nd.substr(g.below(nd.size())); break;
			default: h += g.bytes(g.size(0, g.below(10) == 9 ? 5000 : 20), style);
		}
		if (big) { h = g.bytes(far_size(g), style) + h; if (g.flip() && !nd.empty()) { nd = g.bytes(g.size(1, 70000), style); h += nd; } }
		bool terminated = g.below(3) != 0;
		size_t len;
		size_t full = h.find(nd);
		switch (g.below(4)) {
		case 0: len = h.size(); break;
		case 1: len = full != std::string::npos ? full + nd.size() : h.size() / 2; break;
		case 2: len = full != std::string::npos && full + nd.size() > 0 ? full + nd.size() - 1 : 0; break;
		default: len = g.size(0, h.size());
		}
		if (terminated && g.below(6) == 5) len = h.size() + 1 + g.size(0, 100000);
		bool exact = !terminated;
		std::string within = h.substr(0, std::min(len, h.size()));
		Exact hay(exact ? within : h, terminated), ndl(nd, true);
		c.show("strnstr(%s, %s, %zu)", quote(h).c_str(), quote(nd).c_str(), len);
		char *got = sh_strnstr(hay.p, ndl.p, len);
		size_t want = within.find(nd);
		if (want == std::string::npos) CHECK(!got, "strnstr(%s, %s, %zu) finds position %zd, but there is no occurrence within the bound", quote(h).c_str(), quote(nd).c_str(), len, (ssize_t)(got - hay.p));
		else CHECK(got == hay.p + want, "strnstr(%s, %s, %zu) %s, expected position %zu", quote(h).c_str(), quote(nd).c_str(), len, got ? ("finds position " + std::to_string(got - hay.p)).c_str() : "finds nothing", want);
		c.nontrivial = !nd.empty() && !h.empty();
		if (want != std::string::npos && want + nd.size() == within.size()) c.label("match ends at the bound");
		c.label(want == std::string::npos ? "strnstr: absent" : "strnstr: found");
	} else if (kind == 1) {
		std::string s = g.bytes(big ? far_size(g) : g.size(0, g.below(10) == 9 ? 5000 : 24), g.pick(std::vector<int>{3, 4})), x;
		switch (g.below(4)) {
		case 0: x = s.substr(g.below(s.size() + 1)); break;
		case 1: { x = s.substr(g.below(s.size() + 1)); if (!x.empty()) x[g.below(x.size())] ^= 1; for (auto &ch : x) if (!ch) ch = 'q'; break; }
		case 2: x = g.bytes(1 + g.below(4), 3) + s; break;
		default: x = g.bytes(g.below(5), 4);
		}
		Exact es(s, true), ex(x, true);
		bool want = s.size() >= x.size() && s.compare(s.size() - x.size(), x.size(), x) == 0;
		c.show("endswith(%s, %s)", quote(s).c_str(), quote(x).c_str());
		bool got = sh_endswith(es.p, ex.p) != 0;
		CHECK(got == want, "endswith(%s, %s) is %s", quote(s).c_str(), quote(x).c_str(), got ? "true" : "false");
		c.nontrivial = !x.empty(); c.label(want ? "suffix" : "no suffix");
	} else {
		std::string s = g.bytes(big ? far_size(g) : g.size(0, 5000), 2);
		Exact e(s); char *out = (char *)malloc(sh_hash_str_size()); char want[32];
		uint64_t h = 0xcbf29ce484222325ULL; for (unsigned char ch : s) { h ^= ch; h *= 0x100000001b3ULL; }
		snprintf(want, sizeof want, "%lX", (unsigned long)h);
		c.show("hash of %s", quote(s).c_str());
		sh_hash((unsigned char *)e.p, s.size(), out);
		CHECK(strcmp(out, want) == 0, "the hash of %s is %s, expected %s", quote(s).c_str(), quote(out).c_str(), want);
		free(out);
		c.nontrivial = !s.empty(); c.label("hash"); if (h >> 60 == 0) c.label("hash with a leading zero digit");
	}
}

// --- C09 -----------------------------------------------------------------------------------------------
static std::string recase(Gen &g, const std::string &s) {
	std::string o = s; unsigned how = g.below(4);
	for (auto &ch : o) if (how == 1) ch = toupper(ch); else if (how == 2) ch = tolower(ch); else if (how == 3 && g.flip()) ch = isupper((unsigned char)ch) ? tolower(ch) : toupper(ch);
	return o;
}
static std::string header_value(Gen &g, size_t max) {
	static const std::string VAL = ALNUM + "=&%-_.+/:;, \"'()*\t\xc3\xa4\xff";
	std::string v = g.text(g.size(0, max), VAL);
	while (!v.empty() && strchr(" \t", v.back())) v.pop_back();
	while (!v.empty() && strchr(" \t", v[0])) v.erase(0, 1);
	return v;
}
static void header_prop(Gen &g, Ctx &c) {
	static const std::vector<std::string> common{"Host", "Cookie", "Content-Type", "Content-Length", "Range", "User-Agent", "X-Real-IP", "If", "Accept"};
	std::string name = g.flip() ? g.pick(common) : g.text(1 + g.below(g.below(60) == 59 ? 700 : 12), TOKEN);
	std::vector<std::string> names{name}; for (int i = 0; i < 3; i++) names.push_back(related_name(g, name));
	std::vector<std::pair<std::string, std::string>> fields;
	std::string path = "/" + g.text(g.below(8), TOKEN);
	if (g.below(3) == 2 && name.size() < 480) path += name + ":" + g.text(g.below(5), ALNUM);
	std::string text = "GET " + path + " HTTP/1.1\r\n";
	size_t n = g.below(10) == 9 ? g.size(0, g.below(20) == 19 ? 600 : 80) : g.below(8); size_t big = n && far(g, c, 3000) ? g.below((uint32_t)n) : SIZE_MAX;
	bool traps = path.find(name) != std::string::npos;
	for (size_t i = 0; i < n; i++) {
		std::string nm = recase(g, g.pick(names)), v;
		if (i == big) v = "w" + g.text(far_size(g), TOKEN + " :"), v += "w";
		else switch (g.weighted({4, 3, 2, 1})) {
		case 0: v = header_value(g, 30); break;
		case 1: v = g.pick(names) + ": " + header_value(g, 10) + "z"; traps = true; break;
		case 2: v = "a" + g.pick(names) + ":b"; traps = true; break;
		default: v = header_value(g, 3000);
		}
		text += nm + g.pick(std::vector<std::string>{": ", ": ", ": ", ":", ":  "}) + v + "\r\n";
		fields.push_back({lower(nm), v});
	}
	size_t header_end;
	text += "\r\n"; header_end = text.size();
	if (g.below(4) == 3) { text += g.pick(names) + ": body\r\n" + g.pick(names) + ": body\r\n\r\n"; traps = true; }
	Exact in(text, g.flip());
	c.show("request %s", quote(text, 800).c_str());
	unsigned hits = 0, misses = 0;
	std::unique_ptr<Req> rq; Kept kept;
	if (g.flip()) { rq.reset(new Req); Exact whole(text, true); CHECK(sh_parse_request((unsigned char *)whole.p, text.size(), rq->r) == 0, "the request %s is rejected", quote(text, 500).c_str()); }
	for (auto &nm : names) {
		std::string ask = recase(g, nm);
		const std::string *want = nullptr; for (auto &f : fields) if (f.first == lower(ask)) { want = &f.second; break; }
		Exact ea(ask, true);
		char *got = rq && g.flip() ? sh_header_req(rq->r, ea.p) : sh_header_raw(in.p, text.size(), ea.p);
		bool none = !got; std::string s = kept.keep(got);
		if (!want) { misses++; CHECK(none, "there is no field %s in %s, but the lookup gives %s", quote(ask).c_str(), quote(text, 800).c_str(), quote(s).c_str()); }
		else { hits++; CHECK(!none, "field %s of %s is not found", quote(ask).c_str(), quote(text, 800).c_str()); CHECK(s == *want, "field %s of %s is %s, expected %s", quote(ask).c_str(), quote(text, 800).c_str(), quote(s).c_str(), quote(*want).c_str()); }
	}
	kept.verify("a field's value");
	c.nontrivial = n >= 1 && (hits || traps) && misses;
	if (hits) c.label("present fields"); if (misses) c.label("absent fields"); if (traps) c.label("name occurs elsewhere"); if (header_end > 1024) c.label("header over 1 KiB");
}

// --- C10 -----------------------------------------------------------------------------------------------
static void form_prop(Gen &g, Ctx &c) {
	std::map<std::string, std::string> want; std::string body; std::vector<std::string> pool;
	bool dup = false, malformed = false, longkey = false, eq = false, nul = false;
	static const std::string lit = all_literals("%+&"), lit_noeq = all_literals("%+&="), keych = all_literals("%+&=");
	size_t n = g.below(25) == 24 ? g.size(0, g.below(10) == 9 ? 1500 : 400) : g.below(10); size_t big = n && g.example < 0 && far(g, c, 1500) ? g.below((uint32_t)n) : SIZE_MAX;
	bool examples = g.example >= 0;
	if (examples) { body = g.example == 0 ? "a=b=c&d==&e=" : g.example == 1 ? "k=%00x&l=%" : "&&&"; n = 0;
		if (g.example == 0) want = {{"a", "b=c"}, {"d", "="}, {"e", ""}}; if (g.example == 1) want["k"] = std::string("\0x", 2); }
	for (size_t i = 0; i < n; i++) {
		if (i) body += g.below(12) == 11 ? "&&" : "&";
		std::string key;
		if (!pool.empty() && g.below(5) == 4) key = g.flip() ? g.pick(pool) : related_name(g, g.pick(pool));
		else if (g.below(20) == 19) key = g.pick(std::vector<std::string>{"8yn0iYCKYHlIj4-BwPqk", "GReLUrM4wMqfg9yzV3KQ", "77kepQFQ8Kl"}) + (g.flip() ? "" : "t"); // equal hashes
		else if (g.below(12) == 11) key = "";
		else key = g.text(i == big && g.flip() ? far_size(g) : g.size(1, g.below(10) == 9 ? 700 : 12), g.below(3) == 2 ? keych : TOKEN);
		pool.push_back(key);
		switch (i == big ? 0 : g.weighted({8, 1, 1, 1})) {
		case 0: {
			std::string v = g.bytes(i == big ? far_size(g) : g.size(0, g.below(8) == 7 ? 3000 : 30), g.pick(std::vector<int>{2, 1, 3}));
			body += key + "=" + encode(g, v, g.flip() ? lit : lit_noeq);
			if (want.count(key)) dup = true;
			if (v.find('=') != std::string::npos) eq = true; if (v.find('\0') != std::string::npos) nul = true;
			if (key.size() > 255) longkey = true;
			want[key] = v; break;
		}
		case 1: body += key; malformed = true; break;
		case 2: body += key + "=" + g.text(g.below(3), ALNUM) + BAD_ESCAPES[g.below(sizeof BAD_ESCAPES / sizeof *BAD_ESCAPES)]; malformed = true; break;
		default: { std::string v = "=" + g.text(g.below(5), ALNUM + "="); body += key + "=" + v; if (want.count(key)) dup = true; want[key] = v; eq = true; }
		}
	}
	c.show("form %s", quote(body, 900).c_str());
	std::vector<std::string> asked;
	for (auto &p : pool) asked.push_back(related_name(g, p));
	asked.push_back("never");
	auto check = [&](const sh_view &v, const char *how) {
		CHECK(v.form, "%s: no form was parsed for %s", how, quote(body, 500).c_str());
		auto look = [&](const std::string &k) {
			Exact ek(k); size_t sz = 99999; void *got = sh_dict_get(v.form, ek.p, k.size(), &sz); auto it = want.find(k);
			if (it == want.end()) CHECK(!got, "%s: key %s was not submitted in %s but has a value", how, quote(k, 80).c_str(), quote(body, 900).c_str());
			else CHECK(got && sz == it->second.size() && memcmp(got, it->second.data(), sz) == 0, "%s: key %s of %s is %s, expected %s", how, quote(k, 80).c_str(), quote(body, 900).c_str(), got ? quote(std::string((char *)got, sz)).c_str() : "absent", quote(it->second).c_str());
		};
		for (auto &e : want) look(e.first);
		for (auto &k : asked) look(k);
		for (auto &k : pool) look(k);
		CHECK(v.body_len == body.size() && memcmp(v.body, body.data(), body.size()) == 0, "%s: after parsing the form the raw body is %s, expected %s", how, quote(std::string((const char *)v.body, v.body_len), 400).c_str(), quote(body, 400).c_str());
	};
	std::string second; // a form with the same keys and other values
	if (!examples && g.below(3) == 2) { second = "other=value"; for (auto &k : pool) if (second.size() < 3000) second += "&" + k + "=second"; if (std::find(pool.begin(), pool.end(), "other") != pool.end()) second.clear(); }
	auto direct = [&] {
		Req rq; sh_req_set_body(rq.r, body.data(), body.size());
		int rc = sh_parse_form(rq.r);
		CHECK(rc == 0, "parsing the form %s returned %d", quote(body, 500).c_str(), rc);
		sh_view v; sh_req_view(rq.r, &v); check(v, "parsed directly");
		if (second.empty()) return;
		// Another request's form at the same time.
		Req other; sh_req_set_body(other.r, second.data(), second.size());
		rc = sh_parse_form(other.r); CHECK(rc == 0, "parsing the form %s returned %d", quote(second, 500).c_str(), rc);
		sh_view w; sh_req_view(other.r, &w); size_t n = 0; void *got = sh_dict_get(w.form, "other", 5, &n);
		CHECK(got && n == 5 && memcmp(got, "value", 5) == 0, "key other of the second form %s is %s", quote(second, 300).c_str(), got ? quote(std::string((char *)got, n)).c_str() : "absent");
		sh_req_view(rq.r, &v); check(v, "with a second form parsed");
	};
	if (examples || g.below(3) == 2) {
		c.label("through a handler");
		reset_slots(); bool called = false;
		slots[0].handle = [&](const sh_view &v, const void *, void *resp) { called = true; check(v, "in the handler"); return sh_resp_raw(resp, "ok", 2); };
		sh_route rt = {"POST", "^/form$", 0, 0, 0}; void *app = sh_app_new(&rt, 1);
		std::string type = std::string("application/x-www-form-urlencoded") + g.pick(std::vector<std::string>{"", "", "; charset=utf-8", ";charset=\"utf-8\"", " ", ";", "; " + g.text(g.size(1, 400), "abcdefghij0123456789=;/ \"-") + "x"});
		Plan pl; pl.segs = {"POST /form HTTP/1.1\r\nContent-Type: " + type + "\r\nContent-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body};
		Reply r; std::string err;
		try { r = exchange(app, pl); } catch (...) { sh_app_free(app); throw; }
		sh_app_free(app);
		CHECK(called, "the handler was not called for the form %s", quote(body, 500).c_str());
	} else check_no_leak("parsing a form", direct);
	c.nontrivial = want.size() >= 2 || (want.size() == 1 && (dup || malformed || eq));
	if (dup) c.label("repeated key"); if (malformed) c.label("malformed fields"); if (longkey) c.label("key over 255 bytes"); if (eq) c.label("'=' in a value"); if (nul) c.label("NUL in a value"); if (want.size() > 25) c.label("over 25 fields"); 
}

// --- C08 -----------------------------------------------------------------------------------------------
static void request_prop(Gen &g, Ctx &c) {
	std::string verb = g.below(3) ? g.pick(std::vector<std::string>{"GET", "POST", "PUT", "DELETE", "OPTIONS", "HEAD"}) : g.text(g.size(1, 15), ALNUM + "-");
	static const std::string PATH = ALNUM + "/-_.~!$&'()*+,;=:@%?#[]\xc3\xa4";
	std::string path = "/" + g.text(g.below(5) == 4 ? 510 - g.below(4) : g.size(0, 510), PATH);
	std::string version = g.pick(std::vector<std::string>{"HTTP/1.1", "HTTP/1.0", "HTTP/1.1"});
	std::string body; size_t clen = 0; int how = g.weighted({3, 4, 2, 2}); // no body, exact, short, surplus
	bool big = far(g, c, 2000), big_body = big && how && g.flip();
	if (how) body = g.bytes(big_body ? far_size(g) : g.size(how == 3 ? 2 : 1, g.below(8) == 7 ? 20000 : 1500), 2);
	if (g.below(6) == 5 && how) body += "\r\n\r\nGET / HTTP/1.1\r\n\r\n";
	clen = how == 0 ? 0 : how == 1 ? body.size() : how == 2 ? body.size() + 1 + g.below(1000) : 1 + g.below(body.size() - 1);
	bool say = how != 0 || g.flip();
	std::vector<std::string> lines; size_t nh = g.below(10) == 9 ? g.size(0, 60) : g.below(7); bool nul = false;
	for (size_t i = 0; i < nh; i++) {
		std::string v;
		if (big && !big_body && i == 0) { lines.push_back("X-Big: " + g.text(far_size(g), TOKEN)); continue; }
		bool lone = g.below(5) == 4; // line feeds and carriage returns that do not form a line end
		for (char ch : g.bytes(g.size(0, g.below(6) == 5 ? 2000 : 40), 3)) if (lone ? ch != '\n' || v.empty() || v.back() != '\r' : ch != '\r' && ch != '\n') v += ch;
		if (lone && g.flip()) { v += g.pick(std::vector<std::string>{"\n", "\r", "\n\r", "\n\n", "\r\r", "x\n\rx"}); for (size_t k; (k = v.find("\r\n")) != std::string::npos;) v.erase(k, 1); }
		if (i && !v.empty() && v[0] != '\n' && g.below(8) == 7) lines.push_back(std::string(1, " \t"[g.below(2)]) + v); // a line that goes on
		else lines.push_back("X-" + g.text(1 + g.below(8), TOKEN) + ": " + v);
	}
	if (say) lines.insert(lines.begin() + (lines.empty() ? 0 : g.below(lines.size() + 1)), recase(g, "Content-Length") + ": " + std::to_string(clen));
	if (g.below(6) == 5) { nul = true; lines.push_back(std::string("X-Nul: a\0b", 10) + std::string(1 + g.below(3), '\0')); }
	std::string head = verb + " " + path + " " + version + "\r\n"; for (auto &l : lines) head += l + "\r\n"; head += "\r\n";
	if (g.below(15) == 14) { // a header block of (nearly) so many whole blocks
		static const std::vector<size_t> units{256, 512, 1024, 2048, 4096, 4096, 8192, 65536}; size_t u = g.pick(units); if (u == 65536 && g.below(8) != 7) u = 1024;
		size_t want = (head.size() + 30 + u - 1) / u * u + g.below(3) - 1, more = want - head.size(); c.label("a header block of whole blocks"); if (want > 60000) c.keep = false;
		lines.push_back("X-Pad: " + std::string(more - 9, 'p')); head.insert(head.size() - 2, lines.back() + "\r\n");
	}
	std::string want_body = body.substr(0, std::min(clen, body.size())), raw = head + body;
	c.show("request %s, Content-Length %zu", quote(raw, 700).c_str(), clen);
	auto same = [&](const sh_view &v, const char *w) {
		CHECK(v.verb == verb && strnlen(v.verb, v.verb_cap) < v.verb_cap, "%s: verb is %s, expected %s", w, quote(std::string(v.verb, strnlen(v.verb, v.verb_cap))).c_str(), verb.c_str());
		std::string p(v.resource, strnlen(v.resource, v.resource_cap));
		CHECK(p == path && p.size() < v.resource_cap, "%s: path is %s, expected %s", w, quote(p, 600).c_str(), quote(path, 600).c_str());
		CHECK(v.header && v.header_len == head.size() && memcmp(v.header, head.data(), head.size()) == 0, "%s: the header block is %s, expected %s", w, v.header ? quote(std::string(v.header, v.header_len), 500).c_str() : "missing", quote(head, 500).c_str());
		CHECK(v.header[v.header_len] == 0, "%s: the header block is not terminated", w);
	};
	auto same_body = [&](const sh_view &v, const char *w) {
		CHECK(v.body && v.body_len == want_body.size() && memcmp(v.body, want_body.data(), want_body.size()) == 0, "%s: the body is %s (%zu bytes), expected %s (%zu bytes); Content-Length %zu, %zu bytes sent", w, v.body ? quote(std::string((const char *)v.body, v.body_len)).c_str() : "missing", v.body_len, quote(want_body).c_str(), want_body.size(), clen, body.size());
		CHECK(v.body[v.body_len] == 0, "%s: the body is not terminated", w);
	};
	if (g.below(4) == 3) { // rejected input
		std::string bad; std::string why;
		switch (g.below(3)) {
		case 0: bad = head.substr(0, g.flip() ? head.size() - 1 - g.below(std::min<size_t>(head.size(), 4)) : g.below(head.size())); why = "without a terminated header block"; break;
		case 1: { bad = g.flip() ? verb : verb + (g.flip() ? " " : "") + path; for (size_t i = bad.find(' ', verb.size() + 1); i != std::string::npos; i = bad.find(' ')) bad.erase(i, 1); bad += "\r\n"; for (auto &l : lines) { for (char ch : l) if (ch != ' ') bad += ch; bad += "\r\n"; } bad += "\r\n"; why = "without the two spaces"; break; }
		default: path = "/" + g.text(511 + g.size(0, 3000), PATH); bad = verb + " " + path + " " + version + "\r\n\r\n"; why = "with an oversized path"; 
		}
		c.show(" -> %s: %s", why.c_str(), quote(bad, 700).c_str());
		if (g.below(3) != 2) {
			Exact in(bad, true); Req rq;
			CHECK(sh_parse_request((unsigned char *)in.p, bad.size(), rq.r) != 0, "input %s is accepted: %s", why.c_str(), quote(bad, 700).c_str());
		} else {
			reset_slots(); bool called = false;
			slots[0].handle = [&](const sh_view &, const void *, void *resp) { called = true; return sh_resp_raw(resp, "ok", 2); };
			sh_route rt = {verb.c_str(), "", 0, 0, 0}; void *app = sh_app_new(&rt, 1);
			Plan pl; pl.segs = {bad}; pl.end = Plan::HALF_CLOSE; Reply r = exchange(app, pl); sh_app_free(app);
			CHECK(!called && !r.generated, "input %s is answered: %s", why.c_str(), quote(bad, 700).c_str());
		}
		c.label("rejected: " + why); c.nontrivial = true; return;
	}
	{
		Exact in(raw, true); Req rq; sh_view v;
		int rc = sh_parse_request((unsigned char *)in.p, raw.size(), rq.r);
		CHECK(rc == 0, "the request %s is rejected", quote(raw, 700).c_str());
		sh_req_view(rq.r, &v); same(v, "parsed directly");
		rc = sh_parse_body(raw.size() - v.header_len, clen, (unsigned char *)in.p, rq.r);
		CHECK(rc == 0, "the body of %s is rejected", quote(raw, 700).c_str());
		sh_req_view(rq.r, &v); same_body(v, "parsed directly");
		CHECK(memcmp(in.p, raw.data(), raw.size()) == 0, "parsing changed its input");
		if (g.below(5) == 4) { // another request at the same time
			std::string o = "PATCH /other HTTP/1.1\r\nX-Other: 1\r\nContent-Length: 5\r\n\r\nother"; Exact io(o, true); Req ro; sh_view w;
			CHECK(sh_parse_request((unsigned char *)io.p, o.size(), ro.r) == 0, "a second request is rejected"); sh_req_view(ro.r, &w);
			CHECK(sh_parse_body(o.size() - w.header_len, 5, (unsigned char *)io.p, ro.r) == 0, "the second request's body is rejected"); sh_req_view(ro.r, &w);
			CHECK(!strcmp(w.verb, "PATCH") && !strcmp(w.resource, "/other") && w.body_len == 5 && !memcmp(w.body, "other", 5), "the second request is %s %s", w.verb, w.resource);
			sh_req_view(rq.r, &v); same(v, "with a second request parsed"); same_body(v, "with a second request parsed");
		}
	}
	if (g.below(3) == 2) {
		reset_slots(); bool called = false;
		slots[0].handle = [&](const sh_view &v, const void *, void *resp) { called = true; same(v, "in the handler"); same_body(v, "in the handler"); return sh_resp_raw(resp, "ok", 2); };
		sh_route rt = {verb.c_str(), "", 0, 0, 0}; void *app = sh_app_new(&rt, 1);
		Plan pl; pl.segs = {raw}; if (body.size() < clen) pl.end = Plan::HALF_CLOSE;
		try { exchange(app, pl); } catch (...) { sh_app_free(app); throw; }
		sh_app_free(app);
		CHECK(called, "no handler was called for %s", quote(raw, 700).c_str());
		c.label("through a handler");
	}
	c.nontrivial = !body.empty() || nh > 1 || path.size() > 100;
	if (how == 2) c.label("fewer bytes than Content-Length"); if (how == 3) c.label("more bytes than Content-Length"); if (want_body.find('\0') != std::string::npos) c.label("NUL in the body"); if (nul) c.label("NUL in the header");
	if (path.size() >= 508) c.label("path of 508 to 511 bytes"); if (head.size() > 1024) c.label("header over 1 KiB");
}

static int reg = [] {
	Prop p;
	p = Prop(); p.id = "C08"; p.rule = "the request has a body, several headers or a path over 100 bytes, or is an input that must be rejected"; p.quick = 450000; p.thorough = 15000000; p.run = request_prop; add(p);
	p = Prop(); p.id = "C09"; p.rule = "some looked-up name is absent, and another is present or occurs outside field names"; p.quick = 1000000; p.thorough = 40000000; p.run = header_prop; add(p);
	p = Prop(); p.id = "C10"; p.rule = "at least two fields, or one field that is repeated, contains '=' or accompanies a malformed field"; p.quick = 260000; p.thorough = 8000000; p.run = form_prop; p.examples = 3; add(p);
	p = Prop(); p.id = "C11"; p.rule = "the text has an escape, a plus sign or a malformed escape"; p.quick = 1400000; p.thorough = 40000000; p.run = url_prop; p.examples = 5; add(p);
	p = Prop(); p.id = "C12"; p.rule = "at least two cookies, with both a present and an absent name looked up"; p.quick = 1300000; p.thorough = 50000000; p.run = cookie_prop; p.examples = 1; add(p);
	p = Prop(); p.id = "C13"; p.rule = "a value with two numbers in order, or with an unrepresentable number, occurs in the sequence"; p.quick = 2500000; p.thorough = 90000000; p.run = range_prop; add(p);
	p = Prop(); p.id = "C25"; p.rule = "non-empty needle and haystack, non-empty suffix, or non-empty hashed text"; p.quick = 2500000; p.thorough = 90000000; p.run = helpers_prop; p.examples = 4; p.case_timeout = 100; add(p);
	return 0;
}();
