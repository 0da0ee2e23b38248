// pbt_main.cpp - runner: parallel case execution in forked workers, crash/hang capture, shrinking,
// replay, evidence. A run is a pure function of (harness + /repo code, seed, tier).
#include "pbt.h"
#include <algorithm>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <csignal>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;
extern "C" const char* __asan_default_options() { return "detect_leaks=0:allocator_may_return_null=0:max_allocation_size_mb=3000:detect_stack_use_after_return=0"; }
extern "C" const char* __ubsan_default_options() { return "print_stacktrace=1"; }
namespace pbt {
[[noreturn]] void failMsg(const char* cond, Msg m) { std::ostringstream o; o.precision(17); o << cond << " -- "; m.call(m.obj, o); fail(o.str()); }
[[noreturn]] void failNear(const char* a, const char* b, double av, double bv, double tol, Msg m) { std::ostringstream o; o.precision(17); o << a << " = " << av << " vs " << b << " = " << bv << " (tol " << tol << ") -- "; m.call(m.obj, o); fail(o.str()); }

Mirror g_mirror{nullptr, nullptr, 0}; char* g_mirrorText = nullptr; size_t g_mirrorTextCap = 0;
std::vector<Law>& laws() { static std::vector<Law> v; return v; }
std::string fmt(double v) { char b[40]; snprintf(b, sizeof b, "%.17g", v); return b; }
}
static std::string g_scratchBase, g_scratch; static pid_t g_scratchPid = 0;
std::string pbt::scratchDir() {
	if (g_scratchPid != getpid()) { g_scratch = g_scratchBase + "/p" + std::to_string((long)getpid()); mkdir(g_scratch.c_str(), 0700); g_scratchPid = getpid(); }
	return g_scratch;
}

static double now() { using namespace std::chrono; return duration<double>(steady_clock::now().time_since_epoch()).count(); }
static uint64_t mix(uint64_t z) { z += 0x9E3779B97F4A7C15ull; z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull; z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
static uint64_t hstr(const char* s) { uint64_t h = 1469598103934665603ull; while (*s) { h ^= (unsigned char)*s++; h *= 1099511628211ull; } return h; }
static uint64_t caseSeed(uint64_t seed, const Law& l, long idx) { return mix(mix(seed * 1000003ull + hstr(l.name)) + (uint64_t)idx * 0x2545F4914F6CDD1Dull); }
static std::string esc(const std::string& s) {
	std::string o;
	for (unsigned char ch : s) {
		if (ch == '"' || ch == '\\') { o += '\\'; o += (char)ch; }
		else if (ch == '\n') o += "\\n";
		else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", ch); o += b; }
		else o += (char)ch;
	}
	return o;
}
static std::string oneline(std::string s, size_t cap) { for (char& ch : s) if (ch == '\n' || ch == '\r') ch = ' '; if (s.size() > cap) s = s.substr(0, cap) + "..."; return s; }

enum Out { PASS = 0, FAIL = 1, DISCARD = 2, CRASH = 3, HANG = 4 };
struct Outcome { int out = PASS; std::string msg, key; };

static Outcome runCase(const Law& l, Src& s, Case& c) {
	Outcome o;
	try { l.fn(s, c); }
	catch (const Fail& f) { o.out = FAIL; o.msg = f.msg; o.key = f.key; }
	catch (const Discard&) { o.out = DISCARD; }
	catch (const std::exception& e) { o.out = FAIL; o.msg = std::string("unexpected exception: ") + e.what(); o.key = "exception"; }
	catch (...) { o.out = FAIL; o.msg = "unexpected exception of unknown type"; o.key = "exception"; }
	return o;
}

// ---- shared memory -------------------------------------------------------------------------
static const int MAXW = 16, MAXL = 128, MAXLAB = 24;
struct LabCnt { char name[32]; long n; };
struct LawStat { long evals, nontriv, discards, known; long failIdx; int failKind; double worstCpu; long worstIdx; LabCnt lab[MAXLAB]; };
struct WorkerSlot { volatile int law; volatile long idx; volatile int hang; volatile int done; LawStat st[MAXL]; };
struct Shared { WorkerSlot w[MAXW]; };
static Shared* g_sh;
struct Trial { int out; char msg[4096]; char key[128]; char text[1 << 16]; size_t n; uint64_t v[1 << 21]; };
static Trial* g_tr;

static volatile int* g_hangFlag = nullptr;
static void onAlarm(int) { if (g_hangFlag) *g_hangFlag = 1; _exit(99); }
static double g_cpuLimit = 10, g_wallLimit = 45;
static void armTimers(bool on) {
	itimerval t{}; if (on) { t.it_value.tv_sec = (long)g_cpuLimit; }
	setitimer(ITIMER_PROF, &t, nullptr);
	itimerval r{}; if (on) { r.it_value.tv_sec = (long)g_wallLimit; }
	setitimer(ITIMER_REAL, &r, nullptr);
}
static double cpuNow() { timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }

static std::vector<std::pair<std::string, std::string>> g_known;   // key, what
static const std::string* knownKey(const std::string& key) { if (key.empty() || key == "exception") return nullptr; for (auto& k : g_known) if (k.first == key) return &k.second; return nullptr; }

static long nCases(const Law& l, bool thorough) { return thorough ? l.thorough : l.quick; }
static double g_scale = 1;

static void silence() { // the library prints diagnostics to stdout/stderr
	int d = open("/dev/null", O_WRONLY); if (d >= 0) { dup2(d, 1); dup2(d, 2); close(d); }
}
static int g_errFd = -1;

static void worker(int w, int W, int startLaw, uint64_t seed, bool thorough, const std::string& hashFile) {
	silence();
	signal(SIGPROF, onAlarm); signal(SIGALRM, onAlarm);
	WorkerSlot& ws = g_sh->w[w]; g_hangFlag = &ws.hang;
	FILE* hf = fopen(hashFile.c_str(), "ab");
	auto& L = laws();
	for (int li = startLaw; li < (int)L.size(); li++) {
		const Law& l = L[li];
		LawStat& st = ws.st[li];
		long n = l.finding ? 1 : (long)std::max(1.0, nCases(l, thorough) * g_scale);
		for (long i = w; i < n; i += W) {
			ws.idx = i; ws.law = li;
			armTimers(true);
			double c0 = cpuNow();
			Src s(caseSeed(seed, l, i)); Case c;
			Outcome o = runCase(l, s, c);
			armTimers(false);
			double dc = cpuNow() - c0; if (dc > st.worstCpu) { st.worstCpu = dc; st.worstIdx = i; }
			st.evals++;
			for (auto& lb : c.labels) {
				for (int k = 0; k < MAXLAB; k++) {
					if (st.lab[k].n && !strncmp(st.lab[k].name, lb.c_str(), 31)) { st.lab[k].n++; break; }
					if (!st.lab[k].n) { strncpy(st.lab[k].name, lb.c_str(), 31); st.lab[k].n = 1; break; }
				}
			}
			if (o.out == DISCARD) { st.discards++; continue; }
			if (c.nontriv || l.finding) {
				st.nontriv++;
				uint64_t h = hstr(l.name); for (uint64_t x : s.record()) h = mix(h ^ x);
				if (hf) fwrite(&h, 8, 1, hf);
			}
			if (o.out == FAIL) {
				if (knownKey(o.key)) { st.known++; continue; }
				st.failIdx = i; st.failKind = FAIL; break;
			}
		}
		if (hf) fflush(hf);
	}
	if (hf) fclose(hf);
	ws.done = 1;
	_exit(0);
}

// one trial in a forked child; choices given, or generated from a seed
static Outcome trial(const Law& l, const std::vector<uint64_t>* ch, uint64_t seed, bool verbose, std::vector<uint64_t>* recOut, std::string* textOut, std::string* errOut = nullptr) {
	g_tr->out = -1; g_tr->n = 0; g_tr->msg[0] = g_tr->key[0] = g_tr->text[0] = 0;
	char errName[64] = ""; int efd = -1;
	if (errOut) { strcpy(errName, "/tmp/pbt_errXXXXXX"); efd = mkstemp(errName); }
	fflush(stdout); fflush(stderr);
	pid_t p = fork();
	if (p == 0) {
		silence(); if (efd >= 0) dup2(efd, 2);
		static volatile int hang = 0; g_hangFlag = &hang;
		signal(SIGPROF, onAlarm); signal(SIGALRM, onAlarm);
		armTimers(true);
		g_mirror = {g_tr->v, &g_tr->n, sizeof(g_tr->v) / 8}; g_mirrorText = g_tr->text; g_mirrorTextCap = sizeof g_tr->text;
		Case c; c.verbose = verbose;
		auto body = [&](Src& s) {
			Outcome o = runCase(l, s, c);
						snprintf(g_tr->msg, sizeof g_tr->msg, "%s", o.msg.c_str());
			snprintf(g_tr->key, sizeof g_tr->key, "%s", o.key.c_str());
			snprintf(g_tr->text, sizeof g_tr->text, "%s%s", c.nontriv ? "" : "", c.text.c_str());
			if (!c.nontriv && !l.finding) { /* mark trivial */ g_tr->key[127] = 1; } else g_tr->key[127] = 0;
			g_tr->out = o.out;
		};
		if (ch) { Src s(*ch); body(s); } else { Src s(seed); body(s); }
		_exit(0);
	}
	int stt = 0; waitpid(p, &stt, 0);
	Outcome o;
	if (textOut) *textOut = g_tr->text;
	if (recOut) recOut->assign(g_tr->v, g_tr->v + g_tr->n);
	if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && g_tr->out >= 0) {
		o.out = g_tr->out; o.msg = g_tr->msg; o.key = g_tr->key;
	} else if (WIFEXITED(stt) && WEXITSTATUS(stt) == 99) { o.out = HANG; o.msg = "case did not terminate within its limit (" + std::to_string((int)g_cpuLimit) + " s CPU / " + std::to_string((int)g_wallLimit) + " s wall)"; }
	else { o.out = CRASH; o.msg = WIFSIGNALED(stt) ? std::string("crashed: signal ") + strsignal(WTERMSIG(stt)) : "aborted: exit code " + std::to_string(WEXITSTATUS(stt)) + " (sanitizer report or exit)"; }
	if (efd >= 0) { close(efd); if (o.out == CRASH) { std::ifstream f(errName); std::string ln, all; int k = 0; while (std::getline(f, ln) && k < 14) { if (ln.find("ERROR") != std::string::npos || ln.find("runtime error") != std::string::npos || ln.find("Assertion") != std::string::npos || ln.find("    #") != std::string::npos || ln.find("terminate") != std::string::npos || ln.find("what()") != std::string::npos || ln.find("ThreadSanitizer") != std::string::npos) { all += ln + " | "; k++; } } *errOut = all; } unlink(errName); }
	return o;
}
static bool bad(const Outcome& o) { if (o.out == FAIL) return !knownKey(o.key); return o.out == CRASH || o.out == HANG; }

static std::vector<uint64_t> shrink(const Law& l, std::vector<uint64_t> cur, int kind, double budget, int maxTrials, int& used) {
	double t0 = now(); used = 0;
	auto ok = [&](std::vector<uint64_t> cand) -> bool {
		if (used >= maxTrials || now() - t0 > budget) return false;
		used++;
		std::vector<uint64_t> rec;
		Outcome o = trial(l, &cand, 0, false, &rec, nullptr);
		if (!bad(o) || kind != o.out) return false;
		if (rec.size() <= cand.size()) cand = rec;
		cur = cand; return true;
	};
	bool progress = true;
	while (progress && used < maxTrials && now() - t0 < budget) {
		progress = false;
		// truncate
		for (size_t k = 8; k >= 1; k /= 2) while (cur.size() > 1) { auto c2 = cur; c2.resize(c2.size() - c2.size() * k / 16 - (c2.size() * k / 16 == 0 ? 1 : 0)); if (!ok(c2)) break; progress = true; if (used >= maxTrials) break; }
		// delete spans
		for (size_t len : {16, 8, 4, 2, 1}) for (size_t p = 0; p + len <= cur.size();) { auto c2 = cur; c2.erase(c2.begin() + p, c2.begin() + p + len); if (ok(c2)) progress = true; else p++; if (used >= maxTrials || now() - t0 > budget) break; }
		// zero spans
		for (size_t len : {8, 2, 1}) for (size_t p = 0; p + len <= cur.size(); p++) { bool z = true; for (size_t k = 0; k < len; k++) z &= cur[p + k] == 0; if (z) continue; auto c2 = cur; for (size_t k = 0; k < len; k++) c2[p + k] = 0; if (ok(c2)) progress = true; if (used >= maxTrials || now() - t0 > budget) break; }
		// lower single values
		for (size_t p = 0; p < cur.size(); p++) {
			if (cur[p] == 0) continue;
			uint64_t lo = 0, hi = cur[p];
			while (hi - lo > 1 && p < cur.size()) { uint64_t mid = lo + (hi - lo) / 2; auto c2 = cur; c2[p] = mid; size_t before = cur.size(); if (ok(c2)) { progress = true; hi = mid; if (cur.size() != before) break; } else lo = mid; if (used >= maxTrials || now() - t0 > budget) break; }
			if (used >= maxTrials || now() - t0 > budget) break;
		}
	}
	return cur;
}

#ifdef PBT_LIBFUZZER
// Coverage-guided driver: first byte(s) pick the law, the rest are the choices.
static std::string g_fzProp, g_fzReplay;
extern "C" int LLVMFuzzerInitialize(int*, char***) {
	const char* sc = getenv("PBT_SCRATCH"); g_scratchBase = sc ? sc : "/tmp";
	const char* p = getenv("PBT_PROPERTY"); g_fzProp = p ? p : "C00"; const char* r = getenv("PBT_REPLAYDIR"); g_fzReplay = r ? r : "/tmp";
	const char* kf = getenv("PBT_KNOWN"); if (kf) { std::ifstream f(kf); std::string ln; while (std::getline(f, ln)) { if (ln.rfind("finding: property=" + g_fzProp + " key=", 0) == 0) { std::string r2 = ln.substr(std::string("finding: property=" + g_fzProp + " key=").size()); size_t sp = r2.find(' '); g_known.push_back({r2.substr(0, sp), sp == std::string::npos ? "" : r2.substr(sp + 1)}); } } }
	return 0;
}
extern "C" int LLVMFuzzerTestOneInput(const uint8_t* data, size_t size) {
	if (size < 2) return 0;
	std::vector<int> idx; for (int k = 0; k < (int)laws().size(); k++) if (!laws()[k].finding) idx.push_back(k);
	const Law& l = laws()[idx[data[0] % idx.size()]];
	std::vector<uint64_t> ch; size_t p = 1;
	while (p < size) { // variable-length: tag byte gives width
		int wd = data[p] & 3; int nb = wd == 0 ? 1 : wd == 1 ? 2 : wd == 2 ? 4 : 8; p++;
		uint64_t v = 0; for (int k = 0; k < nb && p < size; k++) v |= (uint64_t)data[p++] << (8 * k);
		ch.push_back(v);
	}
	Src s(ch); Case c; Outcome o = runCase(l, s, c);
	if (o.out == FAIL && !knownKey(o.key)) {
		std::string path = g_fzReplay + "/" + g_fzProp + "-fuzz-" + l.name + ".replay";
		std::ofstream f(path); f << "property=" << g_fzProp << "\nlaw=" << l.name << "\nmessage=" << oneline(o.msg, 2000) << "\nchoices="; for (uint64_t x : s.record()) f << x << ","; f << "\n"; f.close();
		fprintf(stderr, "PBT-FUZZ-FAIL law=%s replay=%s msg=%s\n", l.name, path.c_str(), o.msg.c_str());
		__builtin_trap();
	}
	return 0;
}
#else

int main(int argc, char** argv) {
	std::string prop = "C00", tier = "quick", evid, replayDir = ".", knownFile, replayFile, filter, rule, assumptions; uint64_t seed = 1; int W = 8; double deadline = 720; bool list = false;
	for (int k = 1; k < argc; k++) {
		std::string a = argv[k]; auto val = [&]() { return std::string(k + 1 < argc ? argv[++k] : ""); };
		if (a == "--property") prop = val(); else if (a == "--tier") tier = val(); else if (a == "--seed") seed = strtoull(val().c_str(), 0, 10);
		else if (a == "--evidence") evid = val(); else if (a == "--replaydir") replayDir = val(); else if (a == "--known") knownFile = val();
		else if (a == "--replay") replayFile = val(); else if (a == "--laws") filter = val(); else if (a == "--workers") W = atoi(val().c_str());
		else if (a == "--deadline") deadline = atof(val().c_str()); else if (a == "--list") list = true; else if (a == "--scale") g_scale = atof(val().c_str());
		else if (a == "--rule") rule = val(); else if (a == "--assume") assumptions = val(); else if (a == "--cpu") g_cpuLimit = atof(val().c_str());
	}
	W = std::max(1, std::min(W, MAXW));
	bool thorough = tier == "thorough";
	if (thorough) { g_cpuLimit = std::max(g_cpuLimit, 30.0); g_wallLimit = 120; }
	double t0 = now();
	auto& L = laws();
	if (!filter.empty()) { std::vector<Law> f; for (auto& l : L) if (("," + filter + ",").find(std::string(",") + l.name + ",") != std::string::npos) f.push_back(l); L = f; }
	if (L.size() > (size_t)MAXL) { fprintf(stderr, "too many laws\n"); return 3; }
	if (list) { for (auto& l : L) printf("%s %d %d\n", l.name, l.quick, l.thorough); return 0; }
	const char* sb = getenv("PBT_SCRATCH"); char tmpl[] = "/tmp/pbt_scratchXXXXXX"; g_scratchBase = sb ? sb : mkdtemp(tmpl);
	g_sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	g_tr = (Trial*)mmap(nullptr, sizeof(Trial), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
	if (!knownFile.empty()) { std::ifstream f(knownFile); std::string ln, pre = "finding: property=" + prop + " key="; while (std::getline(f, ln)) if (ln.rfind(pre, 0) == 0) { std::string r = ln.substr(pre.size()); size_t sp = r.find(' '); g_known.push_back({r.substr(0, sp), sp == std::string::npos ? "" : r.substr(sp + 1)}); } }

	if (!replayFile.empty()) {
		std::ifstream f(replayFile); std::string ln, lawn, chs; while (std::getline(f, ln)) { if (ln.rfind("law=", 0) == 0) lawn = ln.substr(4); if (ln.rfind("choices=", 0) == 0) chs = ln.substr(8); }
		const Law* l = nullptr; for (auto& x : L) if (lawn == x.name) l = &x;
		if (!l) { fprintf(stderr, "no law %s\n", lawn.c_str()); return 3; }
		std::vector<uint64_t> ch; std::stringstream ss(chs); std::string t; while (std::getline(ss, t, ',')) if (!t.empty()) ch.push_back(strtoull(t.c_str(), 0, 10));
		std::string text, err; Outcome o = trial(*l, &ch, 0, true, nullptr, &text, &err);
		printf("law=%s\ncase=%s\noutcome=%s %s %s\n", lawn.c_str(), text.c_str(), o.out == PASS ? "PASS" : o.out == DISCARD ? "DISCARD" : "FAIL", o.msg.c_str(), err.c_str());
		if (bad(o)) { printf("VIOLATION property=%s replay=%s\n", prop.c_str(), replayFile.c_str()); return 1; }
		return 0;
	}

	// ---- exploration
	std::vector<pid_t> pid(W, 0); std::vector<std::string> hf(W);
	for (int w = 0; w < W; w++) { for (int li = 0; li < (int)L.size(); li++) g_sh->w[w].st[li].failIdx = -1; hf[w] = g_scratchBase + "/h" + std::to_string(w); }
	auto spawn = [&](int w, int from) { fflush(stdout); g_sh->w[w].law = from; g_sh->w[w].idx = -1; g_sh->w[w].hang = 0; pid_t p = fork(); if (p == 0) worker(w, W, from, seed, thorough, hf[w]); pid[w] = p; };
	for (int w = 0; w < W; w++) spawn(w, 0);
	int alive = W; bool truncated = false; int errorsWorker = 0;
	while (alive > 0) {
		int stt; pid_t p = waitpid(-1, &stt, WNOHANG);
		if (p == 0) { if (now() - t0 > deadline) { truncated = true; for (int w = 0; w < W; w++) if (pid[w]) { kill(pid[w], SIGKILL); waitpid(pid[w], &stt, 0); pid[w] = 0; } break; } usleep(20000); continue; }
		if (p < 0) break;
		for (int w = 0; w < W; w++) if (pid[w] == p) {
			pid[w] = 0;
			WorkerSlot& ws = g_sh->w[w];
			if (WIFEXITED(stt) && WEXITSTATUS(stt) == 0 && ws.done) { alive--; break; }
			int li = ws.law; if (ws.idx >= 0 && li < (int)L.size()) { ws.st[li].failIdx = ws.idx; ws.st[li].failKind = ws.hang ? HANG : CRASH; }
			else errorsWorker++;
			if (errorsWorker > 50) { alive--; break; }
			if (li + 1 < (int)L.size()) spawn(w, li + 1); else alive--;
			break;
		}
	}
	double tExplore = now() - t0;

	// ---- failures
	int violations = 0; std::set<std::string> knownHit; std::string vlines;
	long total = 0, totNt = 0, totDisc = 0, totKnown = 0; std::string lawJson;
	int reported = 0; std::vector<std::string> notes;
	for (int li = 0; li < (int)L.size(); li++) {
		const Law& l = L[li]; long ev = 0, nt = 0, di = 0, kn = 0, fi = -1; int fk = 0; double wc = 0; std::map<std::string, long> lab;
		for (int w = 0; w < W; w++) { LawStat& st = g_sh->w[w].st[li]; ev += st.evals; nt += st.nontriv; di += st.discards; kn += st.known; wc = std::max(wc, st.worstCpu); if (st.failIdx >= 0 && (fi < 0 || st.failIdx < fi)) { fi = st.failIdx; fk = st.failKind; } for (int k = 0; k < MAXLAB; k++) if (st.lab[k].n) lab[st.lab[k].name] += st.lab[k].n; }
		total += ev; totNt += nt; totDisc += di; totKnown += kn;
		if (!lawJson.empty()) lawJson += ",\n   ";
		char b[160]; snprintf(b, sizeof b, "{\"law\": \"%s\", \"cases\": %ld, \"nontrivial\": %ld, \"discarded\": %ld, \"worst_case_cpu_s\": %.3f", l.name, ev, nt, di, wc); lawJson += b;
		if (!lab.empty()) { lawJson += ", \"classes\": {"; bool f = true; for (auto& x : lab) { if (!f) lawJson += ", "; f = false; lawJson += "\"" + esc(x.first) + "\": " + std::to_string(x.second); } lawJson += "}"; }
		lawJson += "}";
		if (kn) { // find which key(s): re-run findings laws; plain laws re-run first known
			for (long i = 0; i < (l.finding ? 1 : std::min<long>(2000, ev)); i++) { Outcome o; { std::string tx; o = trial(l, nullptr, caseSeed(seed, l, i), false, nullptr, nullptr); } if (o.out == FAIL && knownKey(o.key)) { knownHit.insert(o.key); if (l.finding || (long)knownHit.size() >= kn) break; break; } }
		}
		if (fi >= 0) {
			if (reported >= 3) { violations++; notes.push_back(std::string("law ") + l.name + " also failed (case " + std::to_string(fi) + ")"); printf("  also failing: law=%s case=%ld\n", l.name, fi); continue; }
			std::vector<uint64_t> ch; std::string text, err;
			uint64_t cs = caseSeed(seed, l, fi);
			Outcome o = trial(l, nullptr, cs, true, &ch, &text, &err);
			int used = 0; 
			std::vector<uint64_t> best = ch; Outcome bo = o; std::string btext = text;
			if (bad(o) && o.out != HANG) {
				best = shrink(l, ch, o.out, 20, o.out == FAIL ? 2500 : 600, used);
				bo = trial(l, &best, 0, true, nullptr, &btext, &err);
				if (!bad(bo)) { best = ch; bo = o; btext = text; }
			}
			// confirm by replay
			int rep = 0, tries = 0; int need = (o.out == HANG || fk == HANG) ? 1 : 3;
			for (; tries < need; tries++) { Outcome r = trial(l, &best, 0, false, nullptr, nullptr); if (bad(r)) { rep++; if (!bad(bo)) bo = r; } }
			if (rep < need) for (static const int maxTries = getenv("PBT_RETRIES") ? atoi(getenv("PBT_RETRIES")) : 30; tries < maxTries && rep < 2 && need > 1; tries++) { Outcome r = trial(l, &best, 0, false, nullptr, nullptr); if (bad(r)) { rep++; bo = r; } }
			if (rep < (need == 1 ? 1 : 2)) { notes.push_back(std::string("law ") + l.name + " case " + std::to_string(fi) + " failed once and did not reproduce (" + std::to_string(rep) + "/" + std::to_string(tries) + "): inconclusive"); printf("  inconclusive: law=%s case=%ld kind=%d not reproduced\n", l.name, fi, fk); continue; }
			violations++; reported++;
			std::string path = replayDir + "/" + prop + "-" + l.name + "-" + std::to_string(seed) + "-" + std::to_string(fi) + ".replay";
			{ std::ofstream f(path); f << "property=" << prop << "\nlaw=" << l.name << "\nseed=" << seed << "\nindex=" << fi << "\nmessage=" << oneline(bo.msg, 3000) << "\nsanitizer=" << oneline(err, 3000) << "\ncase=" << oneline(btext, 20000) << "\nreproduced=" << rep << "/" << tries << "\nshrink_trials=" << used << "\n";
			  f << "choices="; for (uint64_t x : best) f << x << ","; f << "\n"; }
			printf("law=%s case=%ld: %s\n   input: %s\n   %s\n", l.name, fi, oneline(bo.msg, 1500).c_str(), oneline(btext, 1500).c_str(), oneline(err, 1200).c_str());
			vlines += "VIOLATION property=" + prop + " replay=" + path + "\n";
		}
	}
	std::vector<uint64_t> hs; for (int w = 0; w < W; w++) { std::ifstream f(hf[w], std::ios::binary); uint64_t h; while (f.read((char*)&h, 8)) hs.push_back(h); unlink(hf[w].c_str()); }
	std::sort(hs.begin(), hs.end()); hs.erase(std::unique(hs.begin(), hs.end()), hs.end());

	// ---- samples (rerun verbosely)
	std::string samples; int ns = 0;
	for (auto& l : L) {
		if (ns >= 24) break;
		for (long i = 0; i < 6; i++) { std::string tx; Outcome o = trial(l, nullptr, caseSeed(seed, l, i), true, nullptr, &tx); if (o.out != PASS || tx.empty() || (g_tr->key[127] == 1)) continue; if (!samples.empty()) samples += ",\n   "; samples += "\"" + esc(std::string(l.name) + ": " + oneline(tx, 500)) + "\""; ns++; break; }
	}
	for (auto& k : g_known) if (knownHit.count(k.first)) printf("KNOWN-FINDING: property=%s %s: %s\n", prop.c_str(), k.first.c_str(), k.second.c_str());
	double wall = now() - t0;
	if (!evid.empty()) {
		std::ofstream f(evid); f.precision(6);
		f << "{\n \"property\": \"" << prop << "\", \"tier\": \"" << (thorough ? "thorough" : "quick") << "\", \"seed\": " << seed << ", \"level\": \"exploration\",\n \"coverage\": {\n  \"evaluations\": " << total << ", \"distinct_nontrivial\": " << hs.size() << ", \"discarded\": " << totDisc << ", \"known_finding_cases\": " << totKnown << ", \"truncated_by_deadline\": " << (truncated ? "true" : "false") << ",\n  \"rule\": \"" << esc(rule) << "\",\n  \"laws\": [\n   " << lawJson << "],\n  \"samples\": [\n   " << samples << "]";
		if (!notes.empty()) { f << ",\n  \"notes\": ["; for (size_t k = 0; k < notes.size(); k++) f << (k ? ", " : "") << "\"" << esc(notes[k]) << "\""; f << "]"; }
		f << "\n },\n \"assumptions\": [\"" << esc(assumptions) << "\"],\n \"wall_s\": " << wall << ", \"violations\": " << violations << "\n}\n";
	}
	printf("%s tier=%s seed=%llu laws=%zu cases=%ld nontrivial=%ld distinct=%zu discarded=%ld known=%ld violations=%d explore=%.1fs wall=%.1fs%s\n", prop.c_str(), tier.c_str(), (unsigned long long)seed, L.size(), total, totNt, hs.size(), totDisc, totKnown, violations, tExplore, wall, truncated ? " TRUNCATED" : "");
	fputs(vlines.c_str(), stdout);
	fflush(stdout);
	return violations ? 1 : 0;
}
#endif
