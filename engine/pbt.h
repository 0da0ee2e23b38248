// pbt.h - small property-based testing engine (choice-sequence based, integrated shrinking).
//
// A "law" is a function of a choice source (Src) and a case record (Case). All randomness of a case
// comes from the source, so a case is exactly its choice sequence: it can be replayed, shrunk
// (deleting / lowering choices) and driven by a coverage-guided fuzzer (bytes -> choices).
#pragma once
#include <cstdint>
#include <algorithm>
#include <cmath>
#include <functional>
#include <limits>
#include <sstream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

struct Fail { std::string msg; std::string key; };   // a law is broken (key: site, for known findings)
struct Mirror { uint64_t* v; size_t* n; size_t cap; };
extern Mirror g_mirror; extern char* g_mirrorText; extern size_t g_mirrorTextCap;                             // choices of the running trial, visible to the parent even after a crash
struct Discard {};                                   // generated case is outside the domain

class Src {
public:
	enum Mode { Random, Replay };
	Src(uint64_t seed) : mode_(Random) { s_[0] = seed ^ 0x9E3779B97F4A7C15ull; s_[1] = seed * 0xD1342543DE82EF95ull + 1; for (int i = 0; i < 4; i++) next(); }
	Src(const std::vector<uint64_t>& c) : mode_(Replay), in_(&c) { s_[0] = s_[1] = 1; }

	// uniform choice in [0, max]; 0 is the simplest value
	uint64_t choice(uint64_t max) {
		uint64_t v;
		if (mode_ == Random) v = max == UINT64_MAX ? next() : next() % (max + 1);
		else { v = pos_ < in_->size() ? (*in_)[pos_] : 0; if (v > max) v = max == UINT64_MAX ? v : v % (max + 1); }
		pos_++;
		rec_.push_back(v);
		if (g_mirror.v && *g_mirror.n < g_mirror.cap) g_mirror.v[(*g_mirror.n)++] = v;
		return v;
	}
	const std::vector<uint64_t>& record() const { return rec_; }

	// integers; shrink towards lo (or towards 0 when 0 lies inside)
	long long i(long long lo, long long hi) {
		if (lo > hi) std::swap(lo, hi);
		if (lo <= 0 && hi >= 0) {
			uint64_t c = choice((uint64_t)(hi - lo));
			// zig-zag around 0
			long long p = hi, n = -lo, m = std::min(p, n);
			if ((long long)c <= 2 * m) return (c & 1) ? (long long)(c + 1) / 2 : -(long long)(c / 2);
			return p > n ? (long long)c - n : -((long long)c - p);
		}
		if (hi < 0) return hi - (long long)choice((uint64_t)(hi - lo));
		return lo + (long long)choice((uint64_t)(hi - lo));
	}
	// size-like integer: mostly small, sometimes up to hi
	int size(int lo, int hi) {
		if (hi <= lo) return lo;
		int span = hi - lo;
		switch (choice(3)) {
		case 0: return lo + (int)choice((uint64_t)std::min(span, 3));
		case 1: return lo + (int)choice((uint64_t)std::min(span, std::max(3, span / 3)));
		default: return lo + (int)choice((uint64_t)span);
		}
	}
	bool b() { return choice(1) != 0; }
	bool chance(int num, int den) { return (int)choice((uint64_t)den - 1) >= den - num; }   // shrinks to false
	template<class T> const T& pick(const std::vector<T>& v) { return v[(size_t)choice(v.size() - 1)]; }
	template<class T> T pick(std::initializer_list<T> v) { return *(v.begin() + (size_t)choice(v.size() - 1)); }

	double unit() { return (double)choice((1ull << 53) - 1) * (1.0 / 9007199254740992.0); }   // [0,1)
	double uni(double lo, double hi) { return lo + (hi - lo) * unit(); }
	// "friendly" real in [lo,hi]: integers, dyadics and uniform
	double real(double lo, double hi) {
		switch (choice(3)) {
		case 0: { double l = std::ceil(lo), h = std::floor(hi); if (l <= h && h - l < 1e15) return (double)i((long long)l, (long long)h); return uni(lo, hi); }
		case 1: { double l = std::ceil(lo * 8), h = std::floor(hi * 8); if (l <= h && h - l < 1e15) return (double)i((long long)l, (long long)h) / 8.0; return uni(lo, hi); }
		default: return uni(lo, hi);
		}
	}
	// magnitude log-uniform in [10^e0, 10^e1] with random sign
	double wide(double e0, double e1) { double m = std::pow(10.0, uni(e0, e1)); return b() ? -m : m; }
	double pwide(double e0, double e1) { return std::pow(10.0, uni(e0, e1)); }
	// nonzero friendly real with |x| in [mn, mx]
	double nz(double mn, double mx) { double m = real(mn, mx); if (m < mn) m = mn; return b() ? -m : m; }

private:
	uint64_t next() { // xoroshiro128+
		uint64_t a = s_[0], c = s_[1], r = a + c;
		c ^= a;
		s_[0] = ((a << 24) | (a >> 40)) ^ c ^ (c << 16);
		s_[1] = (c << 37) | (c >> 27);
		uint64_t z = r; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31);
	}
	Mode mode_;
	const std::vector<uint64_t>* in_ = nullptr;
	size_t pos_ = 0;
	uint64_t s_[2];
	std::vector<uint64_t> rec_;
};

class Case {
public:
	bool verbose = false;
	bool nontriv = false;
	std::string text;                                  // description, filled when verbose
	std::vector<std::string> labels;
	void nontrivial(bool b = true) { if (b) nontriv = true; }
	void label(const std::string& l) { labels.push_back(l); }
	template<class F> void say(F f) { if (verbose) { std::ostringstream o; o.precision(17); f(o); if (!text.empty()) text += "; "; text += o.str(); if (g_mirrorText) { size_t n = std::min(text.size(), g_mirrorTextCap - 1); text.copy(g_mirrorText, n); g_mirrorText[n] = 0; } } }
};

[[noreturn]] inline void fail(const std::string& m, const std::string& key = "") { throw Fail{m, key}; }

typedef void (*LawFn)(Src&, Case&);
struct Law { const char* name; int quick, thorough; LawFn fn; bool finding; };
std::vector<Law>& laws();
struct Reg { Reg(const char* n, int q, int t, LawFn f, bool finding = false) { laws().push_back({n, q, t, f, finding}); } };

std::string scratchDir();           // private scratch directory of this process (created on demand)
std::string fmt(double v);
template<class V> std::string fmtv(const V& v, int n) { std::string s = "["; for (int k = 0; k < n; k++) { if (k) s += ", "; s += fmt((double)v[k]); } return s + "]"; }
template<class V> std::string fmtv(const V& v) { return fmtv(v, (int)v.size()); }
template<class M> std::string fmtm(const M& m, int r, int c) { std::string s = "["; for (int a = 0; a < r; a++) { if (a) s += "; "; for (int b = 0; b < c; b++) { if (b) s += " "; s += fmt((double)m(a, b)); } } return s + "]"; }

inline bool near(double a, double b, double tol) { if (a == b) return true; double d = std::fabs(a - b); return d <= tol; }   // false on NaN

} // namespace pbt

#define LAW(name, q, t) \
	static void law_##name(pbt::Src& s, pbt::Case& c); \
	static pbt::Reg reg_##name(#name, q, t, law_##name); \
	static void law_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Case& c)

// A fixed input that showed a defect (known finding): run once per run.
#define FINDING(name) \
	static void law_##name(pbt::Src& s, pbt::Case& c); \
	static pbt::Reg reg_##name(#name, 1, 1, law_##name, true); \
	static void law_##name([[maybe_unused]] pbt::Src& s, [[maybe_unused]] pbt::Case& c)

namespace pbt {
struct Msg { void (*call)(const void*, std::ostream&); const void* obj; };
[[noreturn]] void failMsg(const char* cond, Msg m);                       // builds the message and throws Fail
[[noreturn]] void failNear(const char* a, const char* b, double av, double bv, double tol, Msg m);
template<class F> inline Msg msgOf(const F& f) { return Msg{[](const void* p, std::ostream& o) { (*(const F*)p)(o); }, &f}; }
}
#define PBT_COLD __attribute__((cold, noinline, no_sanitize("address", "undefined")))
#define CHECK(cond, ...) do { if (!(cond)) { auto f_ = [&](std::ostream& o_) PBT_COLD { o_ << __VA_ARGS__; }; pbt::failMsg(#cond, pbt::msgOf(f_)); } } while (0)
#define CHECK_NEAR(a, b, tol, ...) do { double a_ = (double)(a), b_ = (double)(b), t_ = (double)(tol); if (!pbt::near(a_, b_, t_)) { auto f_ = [&](std::ostream& o_) PBT_COLD { o_ << __VA_ARGS__; }; pbt::failNear(#a, #b, a_, b_, t_, pbt::msgOf(f_)); } } while (0)
#define CHECK_THROWS(expr, ExT, ...) do { bool t_ = false; try { (void)(expr); } catch (const ExT&) { t_ = true; } if (!t_) { auto f_ = [&](std::ostream& o_) PBT_COLD { o_ << __VA_ARGS__; }; pbt::failMsg(#expr " did not throw " #ExT, pbt::msgOf(f_)); } } while (0)
#define DISCARD_IF(cond) do { if (cond) throw pbt::Discard{}; } while (0)
