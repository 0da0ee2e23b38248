// C55: saved vectors, matrices and visualisation files: round trips, corrupted files against a model of the format, write faults
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "base/Matrix/Matrix.h"
#include "interfaces/IFunction.h"
#include "base/Function.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry2D.h"
#include "base/Geometry/Geometry3D.h"
#include <complex>
#include <cstring>
#include <algorithm>
#include <set>
#include <unistd.h>
#include "tools/Serializer.h"
#include "tools/serializer/MatrixIO.h"
#include "tools/serializer/VectorIO.h"
using namespace MML::Serializer; typedef std::complex<double> CD; typedef std::string Str; typedef std::vector<double> V;
static Str path(const char* n) { return pbt::scratchDir() + "/" + n + std::to_string((long)getpid()); }
struct Tmp { Str p; Tmp(const char* n) : p(path(n)) { unlink(p.c_str()); } ~Tmp() { unlink(p.c_str()); } };
static Str slurp(const Str& p) { std::ifstream f(p, std::ios::binary); std::ostringstream o; o << f.rdbuf(); return o.str(); }
static void spit(const Str& p, const Str& b) { std::ofstream f(p, std::ios::binary); f.write(b.data(), (long)b.size()); }
static double val(Src& s, bool fin) { if (s.chance(1, 10)) return fin ? s.pick({0.0, -0.0, 1e-300, -1e300, 5e-324, 1.0 / 3, 1e15, 123456.5, 999999.5, 0.000099999951}) : s.pick({0.0, -0.0, (double)NAN, (double)INFINITY, -(double)INFINITY, 5e-324, -1.7976931348623157e308}); if (s.chance(1, 4)) return (double)s.i(-1000, 1000); return s.wide(-250, 250); }
template <class T> static T val_(Src& s, bool fin) { if constexpr (std::is_integral_v<T>) return (T)s.i(-100000, 100000); else if constexpr (std::is_same_v<T, CD>) { double a = val(s, fin), b = val(s, fin); return CD(a, b); } else if constexpr (std::is_same_v<T, float>) return fin ? (float)s.wide(-30, 30) : (float)val(s, fin); else return val(s, fin); }
template <class T> static bool same(const T& a, const T& b) { return std::memcmp(&a, &b, sizeof(T)) == 0; }
static bool near6(double a, double b) { return std::fabs(a - b) <= 5.01e-6 * std::fabs(a) || a == b; }
template <class T> static bool nearT(const T& a, const T& b) { if constexpr (std::is_integral_v<T>) return a == b; else if constexpr (std::is_same_v<T, CD>) return near6(a.real(), b.real()) && near6(a.imag(), b.imag()); else return near6(a, b); }
template <class T> static Str tok(const T& x) { std::ostringstream o; o.precision(17); o << x; return o.str(); }
template <class T> static void vecTrip(Src& s, pbt::Case& c) { int n = (int)s.size(0, 30); bool bin = s.b(); Vector<T> v(n), w((int)s.i(0, 3), T(7)); for (int i = 0; i < n; i++) v[i] = val_<T>(s, !bin); c.nontrivial(n > 0); c.label(bin ? "binary" : "text"); c.say([&](auto& o) { o << (bin ? "binary" : "text") << " vector of " << sizeof(T) << "-byte elements:"; for (int i = 0; i < n; i++) o << " " << tok(v[i]); }); Tmp f("v");
  bool a = bin ? Vector<T>::SaveToBinary(v, f.p) : Vector<T>::SaveToFile(v, f.p); CHECK(a, "saving failed"); bool b = bin ? Vector<T>::LoadFromBinary(f.p, w) : Vector<T>::LoadFromFile(f.p, w); CHECK(b, "loading what was saved failed"); CHECK(w.size() == n, w.size() << " elements for " << n); for (int i = 0; i < n; i++) { bool ok = bin ? same(v[i], w[i]) : nearT(v[i], w[i]); CHECK(ok, "element " << i << ": " << tok(v[i]) << " came back as " << tok(w[i])); } }
LAW(vectors, 3000, 60000) { switch ((int)s.i(0, 4)) { case 0: case 1: vecTrip<double>(s, c); break; case 2: vecTrip<float>(s, c); break; case 3: vecTrip<int>(s, c); break; default: vecTrip<CD>(s, c); } }
template <class T> static void matTrip(Src& s, pbt::Case& c) { int r = (int)s.i(1, 8), q = (int)s.i(1, 8), k = (int)s.i(0, 2); Matrix<T> A(r, q), B((int)s.i(1, 3), (int)s.i(1, 3)); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) A(i, j) = val_<T>(s, k != 2); c.nontrivial(r * q > 1); c.label(k == 0 ? "text" : k == 1 ? "csv" : "binary"); c.say([&](auto& o) { o << (k == 0 ? "text" : k == 1 ? "csv" : "binary") << " matrix " << r << "x" << q << ":"; for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) o << " " << tok(A(i, j)); }); Tmp f("m");
  bool a = k == 0 ? SaveMatrixToFile(A, f.p) : k == 1 ? SaveMatrixToCSV(A, f.p) : SaveMatrixToBinary(A, f.p); CHECK(a, "saving failed"); if (k == 2) { size_t sz = EstimateMatrixBinaryFileSize<T>(r, q); CHECK(slurp(f.p).size() == sz, "estimated size " << sz << ", file has " << slurp(f.p).size()); } bool b = k == 0 ? LoadMatrixFromFile(f.p, B) : k == 1 ? LoadMatrixFromCSV(f.p, B) : LoadMatrixFromBinary(f.p, B); CHECK(b, "loading what was saved failed"); CHECK(B.rows() == r && B.cols() == q, "shape " << B.rows() << "x" << B.cols()); for (int i = 0; i < r; i++) for (int j = 0; j < q; j++) { bool ok = k == 2 ? same(A(i, j), B(i, j)) : nearT(A(i, j), B(i, j)); CHECK(ok, "element " << i << "," << j << ": " << tok(A(i, j)) << " came back as " << tok(B(i, j))); } }
LAW(matrices, 3000, 60000) { switch ((int)s.i(0, 3)) { case 0: case 1: matTrip<double>(s, c); break; case 2: matTrip<float>(s, c); break; default: matTrip<int>(s, c); } }
LAW(complex_vectors, 1500, 30000) { int n = (int)s.size(0, 25); std::vector<CD> v(n), w((size_t)s.i(0, 3), CD(9, 9)); for (auto& x : v) x = val_<CD>(s, false); c.nontrivial(n > 0); c.say([&](auto& o) { o << n << " complex values"; for (auto& x : v) o << " " << tok(x); }); Tmp f("c"); int k = (int)s.i(0, 2);
  if (k == 0) { CHECK(SaveComplexVector(v, f.p), "saving failed"); CHECK(LoadComplexVector(f.p, w), "loading failed"); CHECK(w.size() == v.size(), "size"); for (int i = 0; i < n; i++) CHECK(same(v[i], w[i]), "element " << i); std::vector<double> re; CHECK(LoadComplexAsReal(f.p, re) && re.size() == v.size(), "as real"); for (int i = 0; i < n; i++) { double x = v[i].real(); CHECK(same(re[i], x), "real part " << i); } Vector<double> rv(2); CHECK(LoadComplexAsVector(f.p, rv) && rv.size() == n, "as vector"); for (int i = 0; i < n; i++) { double x = v[i].real(), y = rv[i]; CHECK(same(x, y), "real part " << i << " in a vector"); } }
  else { std::vector<double> r(n); Vector<double> rv(n); for (int i = 0; i < n; i++) rv[i] = r[i] = v[i].real(); bool ok = k == 1 ? SaveRealAsComplex(r, f.p) : SaveVectorAsComplex(rv, f.p); CHECK(ok && LoadComplexVector(f.p, w) && (int)w.size() == n, "real values through the complex format"); for (int i = 0; i < n; i++) { double a = w[i].real(), b = w[i].imag(); CHECK(same(a, r[i]) && b == 0, "element " << i); } }
  std::vector<std::complex<float>> wf(1); bool cross = LoadComplexVector(f.p, wf); CHECK(!cross && wf.size() == 1, "double data loaded as float"); }
// --- corrupted binary files: the header is decoded independently and decides what must happen
static uint32_t u32(const Str& b, size_t k) { uint32_t x; std::memcpy(&x, b.data() + 4 * k, 4); return x; }
static void damage(Src& s, Str& b, size_t head) { int n = (int)s.i(0, 2); for (int t = 0; t <= n; t++) switch ((int)s.i(0, 5)) { case 0: b.resize((size_t)s.i(0, (long)b.size())); break; case 1: b.resize((size_t)s.i(0, (long)std::min(head, b.size()))); break; case 2: if (!b.empty()) b[(size_t)s.i(0, (long)std::min(head, b.size()) - 1)] = (char)s.i(0, 255); break; case 3: if (b.size() >= head) { uint32_t x = s.pick<uint32_t>({0u, 1u, 2u, 3u, 5u, 8u, 100u, 100001u, 65536u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x20000000u, 0x20000001u}); std::memcpy(&b[4 * (size_t)s.i(2, (long)head / 4 - 1)], &x, 4); } break; case 4: b += Str((size_t)s.i(1, 20), (char)s.i(0, 255)); break; default: if (!b.empty()) b[(size_t)s.i(0, (long)b.size() - 1)] ^= (char)(1 << s.i(0, 7)); } }
LAW(corrupt_binary, 5000, 100000) { int kind = (int)s.i(0, 2), n = (int)s.i(kind == 1 ? 1 : 0, 6), m = (int)s.i(1, 5); Tmp f("b"); size_t head = kind == 1 ? 24 : 16; if (kind == 0) { Vector<double> v(n); for (int i = 0; i < n; i++) v[i] = s.uni(-9, 9); CHECK(Vector<double>::SaveToBinary(v, f.p), "save"); } else if (kind == 1) { Matrix<double> A(n, m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) A(i, j) = s.uni(-9, 9); CHECK(SaveMatrixToBinary(A, f.p), "save"); } else { std::vector<CD> v(n); for (auto& x : v) x = CD(s.uni(-9, 9), s.uni(-9, 9)); CHECK(SaveComplexVector(v, f.p), "save"); }
  Str b = slurp(f.p), b0 = b; CHECK(b.size() == head + 8 * (size_t)(kind == 0 ? n : kind == 1 ? n * m : 2 * n), "file size " << b.size()); damage(s, b, head); spit(f.p, b); bool whole = b.size() >= head; size_t avail = whole ? b.size() - head : 0; bool ok = false; size_t R = 0, C = 0; if (whole && u32(b, 0) == u32(b0, 0) && u32(b, 1) == u32(b0, 1)) { if (kind == 1) { R = u32(b, 2); C = u32(b, 3); ok = u32(b, 4) == 8 && R > 0 && C > 0 && R <= 100000 && C <= 100000 && avail / 8 / R >= C; } else { R = u32(b, 2); ok = u32(b, 3) == 8 && avail / 8 / (kind == 2 ? 2 : 1) >= R; } } c.nontrivial(b != b0); c.label(ok ? "still valid" : "invalid");
  c.say([&](auto& o) { o << (kind == 0 ? "vector" : kind == 1 ? "matrix" : "complex") << " file, " << b.size() << " bytes:"; for (size_t i = 0; i < std::min<size_t>(b.size(), 48); i++) o << " " << (int)(unsigned char)b[i]; }); auto D = [&](size_t i) { double x; std::memcpy(&x, b.data() + head + 8 * i, 8); return x; }; 
  if (kind == 0) { Vector<double> w{1.5, 2.5}; bool g = Vector<double>::LoadFromBinary(f.p, w); CHECK(g == ok, "load returned " << g << " for a file that is " << (ok ? "valid" : "invalid")); if (ok) { CHECK(w.size() == (int)R, "size"); for (size_t i = 0; i < R; i++) { double x = D(i), y = w[(int)i]; CHECK(same(x, y), "element " << i); } } else CHECK(w.size() == 2 && w[0] == 1.5 && w[1] == 2.5, "a rejected file changed the target"); Vector<float> wf(1); bool gf = Vector<float>::LoadFromBinary(f.p, wf); CHECK(!gf || u32(b, 3) == 4, "double data loaded as float"); }
  else if (kind == 1) { Matrix<double> w(1, 2); w(0, 0) = 1.5; w(0, 1) = 2.5; bool g = LoadMatrixFromBinary(f.p, w); CHECK(g == ok, "load returned " << g << " for a file that is " << (ok ? "valid" : "invalid")); if (ok) { CHECK(w.rows() == (int)R && w.cols() == (int)C, "shape"); for (size_t i = 0; i < R * C; i++) { double x = D(i), y = w((int)(i / C), (int)(i % C)); CHECK(same(x, y), "element " << i); } } else CHECK(w.rows() == 1 && w.cols() == 2 && w(0, 0) == 1.5 && w(0, 1) == 2.5, "a rejected file changed the target"); }
  else { std::vector<CD> w{CD(1, 2)}; bool g = LoadComplexVector(f.p, w); CHECK(g == ok, "load returned " << g << " for a file that is " << (ok ? "valid" : "invalid")); if (ok) { CHECK(w.size() == R, "size"); for (size_t i = 0; i < R; i++) { CD x(D(i), D(R + i)); CHECK(same(x, w[i]), "element " << i); } } else CHECK(w.size() == 1 && w[0] == CD(1, 2), "a rejected file changed the target"); } }
LAW(corrupt_text, 4000, 80000) { int kind = (int)s.i(0, 2), r = (int)s.i(1, 5), q = kind == 0 ? 1 : (int)s.i(1, 4); std::vector<Str> t; std::vector<double> want; int head = kind == 0 ? 1 : kind == 1 ? 2 : 0; if (head) t.push_back(std::to_string(r)); if (head == 2) t.push_back(std::to_string(q)); for (int i = 0; i < r * q; i++) { double x = s.chance(1, 3) ? (double)s.i(-99, 99) : s.uni(-100, 100); std::ostringstream o; o << x; t.push_back(o.str()); want.push_back(std::strtod(o.str().c_str(), nullptr)); }
  int how = (int)s.i(0, 3); bool ok = true; if (how == 1) { size_t k = (size_t)s.i(0, (long)t.size() - 1); t[k] = (int)k < head ? s.pick<Str>({"x", "-1", "", "99999999999999999999", "-3"}) : s.pick<Str>({"abc", "-", "e5", ".", "#", "nil"}); if ((int)k < head && t[k].empty()) { t.resize(k); } ok = false; } else if (how == 2 && kind != 2) { t.resize((size_t)s.i(0, (long)t.size() - 1)); ok = false; } else if (how == 3 && kind == 1 && s.b()) { t[(size_t)s.i(0, 1)] = s.pick<Str>({"0", "100001", "2000000000"}); ok = false; } else if (how == 3 && kind == 0) { t[0] = s.pick<Str>({"1000000", "999999999999", "9000000000000000000"}); ok = false; }
  Str txt; if (kind != 2) { for (size_t i = 0; i < t.size(); i++) txt += t[i] + ((int)i >= head && kind == 0 ? "\n" : s.chance(1, 4) ? "\n" : s.chance(1, 4) ? "  \t" : " "); }
  else { bool crlf = s.b(), lastnl = s.b(), blank = s.chance(1, 4), trail = s.chance(1, 5); int bad = how == 3 ? (int)s.i(0, r - 1) : -1; if (how == 2) { size_t k = (size_t)s.i(0, (long)t.size() - 1); t[k] = s.pick<Str>({"", " ", "1x", "2 3"}); if (q == 1 && (t[k].empty())) { t[k] = "z"; } if ((int)k % q == q - 1 && t[k].empty()) t[k] = " "; ok = false; } for (int i = 0; i < r; i++) { for (int j = 0; j < q; j++) { if (j) txt += ","; if (s.chance(1, 5)) txt += " "; txt += t[i * q + j]; if (s.chance(1, 6)) txt += " "; if (i == bad && j == q - 1 && r > 1) { txt += ",5"; ok = false; } } if (trail && bad < 0) txt += ","; if (i + 1 < r || lastnl) txt += crlf ? "\r\n" : "\n"; if (blank && !crlf && i + 1 < r) txt += "\n"; } if (trail && how == 2) ok = false; }
  c.nontrivial(true); c.label(ok ? "well formed" : "malformed"); c.say([&](auto& o) { o << (kind == 0 ? "vector" : kind == 1 ? "matrix" : "csv") << " text: "; for (char ch : txt) if (ch == '\n') o << "\\n"; else if (ch == '\r') o << "\\r"; else o << ch; }); Tmp f("t"); spit(f.p, txt);
  if (kind == 0) { Vector<double> w{1.5, 2.5}; bool g = Vector<double>::LoadFromFile(f.p, w); CHECK(g == ok, "load returned " << g << " for a " << (ok ? "well-formed" : "malformed") << " file"); if (ok) { CHECK(w.size() == r, "size"); for (int i = 0; i < r; i++) CHECK(w[i] == want[i], "element " << i); } else CHECK(w.size() == 2 && w[0] == 1.5 && w[1] == 2.5, "a rejected file changed the target"); }
  else { Matrix<double> w(1, 2); w(0, 0) = 1.5; w(0, 1) = 2.5; bool g = kind == 1 ? LoadMatrixFromFile(f.p, w) : LoadMatrixFromCSV(f.p, w); CHECK(g == ok, "load returned " << g << " for a " << (ok ? "well-formed" : "malformed") << " file"); if (ok) { CHECK(w.rows() == r && w.cols() == q, "shape " << w.rows() << "x" << w.cols()); for (int i = 0; i < r * q; i++) CHECK(w(i / q, i % q) == want[i], "element " << i); } else CHECK(w.rows() == 1 && w.cols() == 2 && w(0, 0) == 1.5 && w(0, 1) == 2.5, "a rejected file changed the target"); } }
// --- visualisation files
struct Poly : IRealFunction { double a, b, k; Poly(double a_, double b_, double k_) : a(a_), b(b_), k(k_) {} Real operator()(Real x) const override { return a + b * x + k * x * x; } };
template <int N> struct Curve : IRealToVectorFunction<N> { V a, b; VectorN<Real, N> operator()(Real t) const override { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = a[i] + b[i] * t * t; return r; } };
template <int N> struct Scal : IScalarFunction<N> { V a; Real operator()(const VectorN<Real, N>& x) const override { Real r = a[N]; for (int i = 0; i < N; i++) r += a[i] * x[i]; return r; } };
template <int N> struct VecFld : IVectorFunction<N> { V a; VectorN<Real, N> operator()(const VectorN<Real, N>& x) const override { VectorN<Real, N> r; for (int i = 0; i < N; i++) r[i] = a[i] * x[(i + 1) % N] + a[(i + 1) % N]; return r; } };
struct SurfF : IVectorFunctionNM<2, 3> { V a; VectorN<Real, 3> operator()(const VectorN<Real, 2>& x) const override { return VectorN<Real, 3>{a[0] + x[0], a[1] * x[1], x[0] * x[1] + a[2]}; } };
struct SurfP : IParametricSurface<3> { V a; VectorN<Real, 3> operator()(Real u, Real w) const override { return VectorN<Real, 3>{a[0] + u, a[1] * w, u * w + a[2]}; } VectorN<Real, 3> operator()(const VectorN<Real, 2>& x) const override { return (*this)(x[0], x[1]); } Real getMinU() const override { return -100; } Real getMaxU() const override { return 100; } Real getMinW(Real) const override { return -100; } Real getMaxW(Real) const override { return 100; } };
struct Lines { std::vector<Str> L; size_t k = 0; explicit Lines(const Str& t) { std::istringstream i(t); Str l; while (std::getline(i, l)) L.push_back(l); } Str next() { CHECK(k < L.size(), "the file ends early, after " << k << " lines"); return L[k++]; } void is(const Str& w) { Str g = next(); CHECK(g == w, "line " << k << " is \"" << g << "\", expected \"" << w << "\""); }
  void nums(const Str& pre, const V& w, int prec) { Str g = next(); CHECK(g.compare(0, pre.size(), pre) == 0, "line " << k << " is \"" << g << "\", expected it to start with \"" << pre << "\""); std::istringstream i(g.substr(pre.size())); Str t; V got; while (i >> t) got.push_back(std::strtod(t.c_str(), nullptr)); CHECK(got.size() == w.size(), "line " << k << " \"" << g << "\" has " << got.size() << " numbers, expected " << w.size()); for (size_t j = 0; j < w.size(); j++) { double tol = 5.01 * std::pow(10.0, -prec) * std::fabs(w[j]) + 1e-13 * std::max(1.0, std::fabs(w[j])); CHECK(std::fabs(got[j] - w[j]) <= tol, "line " << k << " \"" << g << "\": number " << j << " is " << got[j] << ", expected " << fmt(w[j])); } }
  void end() { CHECK(k == L.size(), L.size() - k << " unexpected lines at the end, first \"" << L[k] << "\""); } };
static const int NK = 21;
struct Ctx { int kind, n, m, l, prec, dim; double a1, a2, b1, b2, c1, c2, thr; V p, pts; std::vector<V> data; Str title; std::vector<Str> legend; bool stream; int every; };
static Ctx gen(Src& s) { Ctx x; x.kind = (int)s.i(0, NK - 1); x.n = (int)s.i(2, 7); x.m = (int)s.i(2, 5); x.l = (int)s.i(2, 4); x.prec = (int)s.i(3, 17); x.dim = (int)s.i(1, 3); auto iv = [&](double& a, double& b) { a = s.uni(-5, 5); b = a + s.uni(0.1, 6); }; iv(x.a1, x.a2); iv(x.b1, x.b2); iv(x.c1, x.c2); x.thr = s.uni(0.5, 12); for (int i = 0; i < 5; i++) x.p.push_back(s.uni(-4, 4)); double t = x.a1; for (int i = 0; i < x.n; i++) { x.pts.push_back(t); t += s.uni(0.01, 2); } for (int i = 0; i < 4; i++) { V r; for (int j = 0; j < x.n; j++) r.push_back(s.uni(-9, 9)); x.data.push_back(r); } x.title = s.pick<Str>({"title", "a b c", "x=1; y", "T"}); for (int i = 0; i < 3; i++) x.legend.push_back(s.pick<Str>({"f", "second one", "g(x)"})); x.stream = s.b(); x.every = (int)s.i(1, 4); return x; }
struct GridM { struct Dm { double a, b, c, d; Real xMin() const { return a; } Real xMax() const { return b; } Real yMin() const { return c; } Real yMax() const { return d; } } D; int n, m; const V* z; const GridM& grid() const { return *this; } const Dm& domain() const { return D; } int numNodesX() const { return n; } int numNodesY() const { return m; } Real x(int i) const { return D.a + i * (D.b - D.a) / (n - 1); } Real y(int j) const { return D.c + j * (D.d - D.c) / (m - 1); } Real operator()(int i, int j) const { return (*z)[i] + j; } };
// run one Save function to 'file'; when L is given, check the file it wrote
static SerializeResult save(const Ctx& x, const Str& file, Lines* L) { const int n = x.n, m = x.m, l = x.l; Poly f(x.p[0], x.p[1], x.p[2]), g(x.p[3], x.p[4], x.p[0]); const Str& T = x.title; SerializeResult r{false, SerializeError::OK, ""}; auto at = [](double a, double b, int i, int n) { return a + (b - a) * i / (n - 1); }; Vector<Real> P(n); for (int i = 0; i < n; i++) P[i] = x.pts[i]; auto hdr = [&](const char* ty, double a, double b, int k, int prec, const char* v = "x") { L->is(ty); L->is(T); L->nums(Str(v) + "1:", {a}, prec); L->nums(Str(v) + "2:", {b}, prec); L->nums("NumPoints:", {(double)k}, 17); }; auto ax = [&](const char* nm, double a, double b, const char* NN, int k) { L->nums(Str(nm) + "1:", {a}, 6); L->nums(Str(nm) + "2:", {b}, 6); L->nums(NN, {(double)k}, 17); };
  switch (x.kind) {
  case 0: r = SaveRealFunc(f, T, x.a1, x.a2, n, file, x.prec); if (L) { hdr("REAL_FUNCTION", x.a1, x.a2, n, x.prec); for (int i = 0; i < n; i++) { double t = at(x.a1, x.a2, i, n); L->nums("", {t, f(t)}, x.prec); } } break;
  case 1: r = SaveRealFunc(f, T, P, file, x.prec); if (L) { hdr("REAL_FUNCTION", P[0], P[n - 1], n, x.prec); for (int i = 0; i < n; i++) L->nums("", {P[i], f(P[i])}, x.prec); } break;
  case 2: r = SaveRealFuncEquallySpaced(f, T, x.a1, x.a2, n, file, x.prec); if (L) { hdr("REAL_FUNCTION_EQUALLY_SPACED", x.a1, x.a2, n, x.prec); for (int i = 0; i < n; i++) L->nums("", {f(at(x.a1, x.a2, i, n))}, x.prec); } break;
  case 3: { std::vector<IRealFunction*> F{&f, &g}; std::vector<Str> lg(x.legend.begin(), x.legend.begin() + 2); r = SaveRealMultiFunc(F, T, lg, x.a1, x.a2, n, file, x.prec); if (L) { L->is("MULTI_REAL_FUNCTION"); L->is(T); L->is("2"); L->is(lg[0]); L->is(lg[1]); L->nums("x1:", {x.a1}, x.prec); L->nums("x2:", {x.a2}, x.prec); L->nums("NumPoints:", {(double)n}, 17); for (int i = 0; i < n; i++) { double t = at(x.a1, x.a2, i, n); L->nums("", {t, f(t), g(t)}, x.prec); } } break; }
  case 4: case 5: { Vector<Real> y1(n), y2(n); for (int i = 0; i < n; i++) { y1[i] = x.data[0][i]; y2[i] = x.data[1][i]; } std::vector<Str> lg(x.legend.begin(), x.legend.begin() + 2); double a = P[0], b = P[n - 1]; std::vector<std::function<double(double)>> ev; if (x.kind == 4) { std::vector<LinearInterpRealFunc> F{LinearInterpRealFunc(P, y1), LinearInterpRealFunc(P, y2)}; r = SaveRealMultiFunc(F, T, lg, a, b, m, file); for (auto& q : F) ev.push_back([q](double t) { return q(t); }); } else { std::vector<SplineInterpRealFunc> F{SplineInterpRealFunc(P, y1), SplineInterpRealFunc(P, y2)}; r = SaveRealMultiFunc(F, T, lg, a, b, m, file); for (auto& q : F) ev.push_back([q](double t) { return q(t); }); } if (L) { L->is("MULTI_REAL_FUNCTION"); L->is(T); L->is("2"); L->is(lg[0]); L->is(lg[1]); L->nums("x1:", {a}, 6); L->nums("x2:", {b}, 6); L->nums("NumPoints:", {(double)m}, 17); for (int i = 0; i < m; i++) { double t = std::min(b, a + (b - a) * i / (m - 1)); L->nums("", {t, ev[0](t), ev[1](t)}, 6); } } break; }
  case 6: { Curve<2> C; C.a = x.p; C.b = {x.p[2], x.p[3]}; r = SaveParamCurve<2>(C, "PARAMETRIC_CURVE_CARTESIAN_2D", T, x.a1, x.a2, n, file); if (L) { hdr("PARAMETRIC_CURVE_CARTESIAN_2D", x.a1, x.a2, n, 6, "t"); for (int i = 0; i < n; i++) { double t = at(x.a1, x.a2, i, n); auto q = C(t); L->nums("", {t, q[0], q[1]}, 6); } } break; }
  case 7: { Curve<3> C; C.a = x.p; C.b = {x.p[2], x.p[3], x.p[4]}; if (x.stream) { r = SaveParamCurve<3>(C, "PARAMETRIC_CURVE_CARTESIAN_3D", T, P, file); if (L) { hdr("PARAMETRIC_CURVE_CARTESIAN_3D", P[0], P[n - 1], n, 6, "t"); for (int i = 0; i < n; i++) { auto q = C(P[i]); L->nums("", {P[i], q[0], q[1], q[2]}, 6); } } } else { r = SaveParamCurveCartesian3DResult(C, T, x.a1, x.a2, n, file); if (L) { hdr("PARAMETRIC_CURVE_CARTESIAN_3D", x.a1, x.a2, n, 6, "t"); for (int i = 0; i < n; i++) { double t = at(x.a1, x.a2, i, n); auto q = C(t); L->nums("", {t, q[0], q[1], q[2]}, 6); } } } break; }
  case 8: { std::vector<VectorN<Real, 2>> v; for (int i = 0; i < n; i++) v.push_back(VectorN<Real, 2>{x.data[0][i], x.data[1][i]}); if (x.stream) r = SaveAsParamCurve<2>(v, "TYPE", T, x.a1, x.a2, n, file); else r = SaveAsParamCurve<2>(v, "TYPE", T, P, file); if (L) { hdr("TYPE", x.stream ? x.a1 : P[0], x.stream ? x.a2 : P[n - 1], n, 6, "t"); for (int i = 0; i < n; i++) L->nums("", {x.stream ? at(x.a1, x.a2, i, n) : P[i], v[i][0], v[i][1]}, 6); } break; }
  case 9: { Vector<Real> a(n), b(n); for (int i = 0; i < n; i++) { a[i] = x.data[0][i]; b[i] = x.data[1][i]; } r = SaveAsParamCurve2D(a, b, T, file, x.a1, x.a2); if (L) { hdr("PARAMETRIC_CURVE_CARTESIAN_2D", x.a1, x.a2, n, 6, "t"); for (int i = 0; i < n; i++) L->nums("", {at(x.a1, x.a2, i, n), a[i], b[i]}, 6); } break; }
  case 10: case 11: { SurfF A; A.a = x.p; SurfP B; B.a = x.p; r = x.kind == 10 ? SaveParametricSurface(A, T, x.a1, x.a2, n, x.b1, x.b2, m, file) : SaveParametricSurface(B, T, x.a1, x.a2, n, x.b1, x.b2, m, file); if (L) { L->is("PARAMETRIC_SURFACE_CARTESIAN"); L->is(T); ax("u", x.a1, x.a2, "NumPointsU:", n); ax("w", x.b1, x.b2, "NumPointsW:", m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double u = at(x.a1, x.a2, i, n), w = at(x.b1, x.b2, j, m); auto q = B(u, w); L->nums("", {u, w, q[0], q[1], q[2]}, 6); } } break; }
  case 12: { Scal<2> F; F.a = x.p; r = SaveScalarFunc2DCartesian(F, T, x.a1, x.a2, n, x.b1, x.b2, m, file); if (L) { L->is("SCALAR_FUNCTION_CARTESIAN_2D"); L->is(T); ax("x", x.a1, x.a2, "NumPointsX:", n); ax("y", x.b1, x.b2, "NumPointsY:", m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { double u = at(x.a1, x.a2, i, n), w = at(x.b1, x.b2, j, m); L->nums("", {u, w, F(VectorN<Real, 2>{u, w})}, 6); } } break; }
  case 13: { Scal<3> F; F.a = x.p; r = SaveScalarFunc3DCartesian(F, T, x.a1, x.a2, n, x.b1, x.b2, m, x.c1, x.c2, l, file); if (L) { L->is("SCALAR_FUNCTION_CARTESIAN_3D"); L->is(T); ax("x", x.a1, x.a2, "NumPointsX:", n); ax("y", x.b1, x.b2, "NumPointsY:", m); ax("z", x.c1, x.c2, "NumPointsZ:", l); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < l; k++) { double u = at(x.a1, x.a2, i, n), w = at(x.b1, x.b2, j, m), z = at(x.c1, x.c2, k, l); L->nums("", {u, w, z, F(VectorN<Real, 3>{u, w, z})}, 6); } } break; }
  case 14: { GridM G{{x.a1, x.a2, x.b1, x.b2}, n, m, &x.data[0]}; double q = x.p[0], z = x.p[1]; r = SaveGridFunction2D(G, T, file, q, z); if (L) { L->is("SCALAR_FUNCTION_CARTESIAN_2D"); L->is(T); ax("x", x.a1 * q, x.a2 * q, "NumPointsX:", n); ax("y", x.b1 * q, x.b2 * q, "NumPointsY:", m); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) L->nums("", {G.x(i) * q, G.y(j) * q, G(i, j) * z}, 6); } break; }
  case 15: { VecFld<2> F; F.a = x.p; r = x.stream ? SaveVectorFunc2DCartesian(F, T, x.a1, x.a2, n, x.b1, x.b2, m, file) : SaveVectorFunc2DCartesian(F, T, x.a1, x.a2, n, x.b1, x.b2, m, file, x.thr); if (L) { L->is("VECTOR_FIELD_2D_CARTESIAN"); L->is(T); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { VectorN<Real, 2> q{at(x.a1, x.a2, i, n), at(x.b1, x.b2, j, m)}; auto v = F(q); double nn = std::hypot(v[0], v[1]); if (!x.stream && std::fabs(nn - x.thr) < 1e-12) { continue; } if (x.stream || nn < x.thr) L->nums("", {q[0], q[1], v[0], v[1]}, 6); } } break; }
  case 16: { VecFld<3> F; F.a = x.p; bool sph = x.every > 2; r = sph ? (x.stream ? SaveVectorFuncSpherical(F, T, x.a1, x.a2, n, x.b1, x.b2, m, x.c1, x.c2, l, file) : SaveVectorFuncSpherical(F, T, x.a1, x.a2, n, x.b1, x.b2, m, x.c1, x.c2, l, file, x.thr)) : (x.stream ? SaveVectorFunc3DCartesian(F, T, x.a1, x.a2, n, x.b1, x.b2, m, x.c1, x.c2, l, file) : SaveVectorFunc3DCartesian(F, T, x.a1, x.a2, n, x.b1, x.b2, m, x.c1, x.c2, l, file, x.thr)); if (L) { L->is(sph ? "VECTOR_FIELD_SPHERICAL" : "VECTOR_FIELD_3D_CARTESIAN"); L->is(T); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) for (int k = 0; k < l; k++) { VectorN<Real, 3> q{at(x.a1, x.a2, i, n), at(x.b1, x.b2, j, m), at(x.c1, x.c2, k, l)}; auto v = F(q); double nn = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (x.stream || nn < x.thr) L->nums("", {q[0], q[1], q[2], v[0], v[1], v[2]}, 6); } } break; }
  case 17: { int d = x.dim; ODESystemSolution S(x.pts[0], x.pts[n - 1], d, n - 1 + (x.stream ? 0 : x.every)); for (int i = 0; i < n; i++) { Vector<Real> y(d); for (int k = 0; k < d; k++) y[k] = x.data[k][i]; S.fillValues(i, x.pts[i], y); } if (x.every == 4) S.setFinalSize(n - 1); int how = x.m % 4; double a = x.pts[0], b = x.pts[n - 1]; std::vector<Str> lg(x.legend.begin(), x.legend.begin() + d); int i1 = x.m % d, i2 = (x.m + x.l) % d, i3 = x.l % d; if (how == 0) r = SaveODESolutionComponentAsFunc(S, i1, T, file); else if (how == 1) r = SaveODESolutionAsMultiFunc(S, T, lg, file); else if (how == 2) r = SaveODESolAsParametricCurve2D(S, file, i1, i2, T); else r = SaveODESolAsParametricCurve3D(S, file, i1, i2, i3, T);
    if (L) { if (how == 0) hdr("REAL_FUNCTION", a, b, n, 6); else if (how == 1) { L->is("MULTI_REAL_FUNCTION"); L->is(T); L->is(std::to_string(d)); for (auto& q : lg) L->is(q); L->nums("x1:", {a}, 6); L->nums("x2:", {b}, 6); L->nums("NumPoints:", {(double)n}, 17); } else hdr(how == 2 ? "PARAMETRIC_CURVE_CARTESIAN_2D" : "PARAMETRIC_CURVE_CARTESIAN_3D", a, b, n, 6, "t"); for (int i = 0; i < n; i++) { V w{x.pts[i]}; if (how == 1) for (int k = 0; k < d; k++) w.push_back(x.data[k][i]); else { w.push_back(x.data[i1][i]); if (how >= 2) w.push_back(x.data[i2][i]); if (how == 3) w.push_back(x.data[i3][i]); } L->nums("", w, 6); } } break; }
  case 18: case 19: { int nb = x.dim; std::vector<std::vector<Pnt2Cart>> p2(nb); std::vector<std::vector<Pnt3Cart>> p3(nb); std::vector<Str> col; std::vector<Real> rad; for (int b = 0; b < nb; b++) { for (int i = 0; i < n; i++) { p2[b].push_back(Pnt2Cart(x.data[b][i], x.data[b + 1][i])); p3[b].push_back(Pnt3Cart(x.data[b][i], x.data[b + 1][i], x.data[0][i])); } col.push_back(b ? "Red" : "Blue"); rad.push_back(0.5 + b); } double W = x.a2 - x.a1, H = x.b2 - x.b1, Dp = x.c2 - x.c1, dT = x.thr; r = x.kind == 18 ? SaveParticleSimulation2D(file, nb, W, H, p2, col, rad, dT, x.every) : SaveParticleSimulation3D(file, nb, W, H, Dp, p3, col, rad, dT, x.every);
    if (L) { L->is(x.kind == 18 ? "PARTICLE_SIMULATION_DATA_2D" : "PARTICLE_SIMULATION_DATA_3D"); L->nums("Width:", {W}, 6); L->nums("Height:", {H}, 6); if (x.kind == 19) L->nums("Depth:", {Dp}, 6); L->nums("NumBalls:", {(double)nb}, 17); for (int b = 0; b < nb; b++) L->nums("Ball_" + std::to_string(b + 1) + " " + col[b] + " ", {rad[b]}, 6); int fr = 0; for (int i = 0; i < n; i += x.every) fr++; L->nums("NumSteps:", {(double)fr}, 17); for (int k = 0; k < fr; k++) { L->nums("Step " + std::to_string(k) + " ", {k * x.every * dT}, 6); for (int b = 0; b < nb; b++) { V w{(double)b, x.data[b][k * x.every], x.data[b + 1][k * x.every]}; if (x.kind == 19) w.push_back(x.data[0][k * x.every]); L->nums("", w, 6); } } } break; }
  default: { bool d3 = x.stream; std::vector<std::vector<VectorN<Real, 2>>> a; std::vector<std::vector<VectorN<Real, 3>>> b; int nl = x.dim; for (int q = 0; q < nl; q++) { a.push_back({}); b.push_back({}); for (int i = 0; i < (q ? x.l : n); i++) { a[q].push_back(VectorN<Real, 2>{x.data[q][i % n], x.data[q + 1][i % n]}); b[q].push_back(VectorN<Real, 3>{x.data[q][i % n], x.data[q + 1][i % n], x.data[0][i % n]}); } } if (x.every > 2) { std::vector<FieldLine2D> A(nl); std::vector<FieldLine3D> B(nl); for (int q = 0; q < nl; q++) { A[q].points = a[q]; B[q].points = b[q]; } r = d3 ? SaveFieldLines3D(B, T, file) : SaveFieldLines2D(A, T, file); } else r = d3 ? SaveFieldLines3D(b, T, file) : SaveFieldLines2D(a, T, file);
    if (L) { Str h = L->next(); CHECK(h.find(d3 ? "3D" : "2D") != Str::npos && h.find("FIELD_LINES") != Str::npos, "header \"" << h << "\""); L->is("Title: " + T); L->nums("NUM_LINES:", {(double)nl}, 17); for (int q = 0; q < nl; q++) { L->is("LINE " + std::to_string(q)); L->is(std::to_string(a[q].size())); for (size_t i = 0; i < a[q].size(); i++) { if (d3) L->nums("", {b[q][i][0], b[q][i][1], b[q][i][2]}, 17); else L->nums("", {a[q][i][0], a[q][i][1]}, 17); } } } break; }
  } if (L) L->end(); return r; }
LAW(documents, 3000, 60000) { Ctx x = gen(s); c.nontrivial(true); c.label("kind" + std::to_string(x.kind)); c.say([&](auto& o) { o << "kind " << x.kind << " n=" << x.n << " m=" << x.m << " l=" << x.l << " precision " << x.prec << " dim " << x.dim << " every " << x.every << " stream " << x.stream << " range " << x.a1 << ".." << x.a2; }); Tmp f("d"); auto r = save(x, f.p, nullptr); CHECK(r.success && r.error == SerializeError::OK, "saving failed: " << r.message); Lines L(slurp(f.p)); save(x, f.p, &L);
  if (x.kind <= 3) { std::ostringstream o; Poly F(x.p[0], x.p[1], x.p[2]), G(x.p[3], x.p[4], x.p[0]); Vector<Real> P(x.n); for (int i = 0; i < x.n; i++) P[i] = x.pts[i]; std::vector<IRealFunction*> FF{&F, &G}; std::vector<Str> lg(x.legend.begin(), x.legend.begin() + 2); auto q = x.kind == 0 ? SaveRealFunc(o, F, x.title, x.a1, x.a2, x.n, x.prec) : x.kind == 1 ? SaveRealFunc(o, F, x.title, P, x.prec) : x.kind == 2 ? SaveRealFuncEquallySpaced(o, F, x.title, x.a1, x.a2, x.n, x.prec) : SaveRealMultiFunc(o, FF, x.title, lg, x.a1, x.a2, x.n, x.prec); CHECK(q.success && o.str() == slurp(f.p), "stream and file output differ"); } }
LAW(write_faults, 1200, 20000) { Ctx x = gen(s); int how = (int)s.i(0, 2); c.nontrivial(true); c.label(how == 0 ? "full" : how == 1 ? "no directory" : "no name"); Str p = how == 0 ? "/dev/full" : how == 1 ? pbt::scratchDir() + "/none/x" : ""; c.say([&](auto& o) { o << "kind " << x.kind << " to " << p; }); auto r = save(x, p, nullptr); SerializeError want = how == 0 ? SerializeError::WRITE_FAILED : how == 1 ? SerializeError::FILE_NOT_OPENED : SerializeError::INVALID_PARAMETERS; CHECK(!r.success, "writing to \"" << p << "\" reported success"); CHECK(r.error == want && !r.message.empty(), "error code " << (int)r.error << " (" << r.message << ")");
  if (how < 2) { int n = (int)s.i(0, 2000); Vector<double> v(n, 1.25); Matrix<double> A(1 + n % 30, 1 + n / 30); std::vector<CD> z(n); bool any = Vector<double>::SaveToFile(v, p) || Vector<double>::SaveToBinary(v, p) || SaveMatrixToFile(A, p) || SaveMatrixToCSV(A, p) || SaveMatrixToBinary(A, p) || SaveComplexVector(z, p); CHECK(!any, "saving " << n << " values to " << p << " reported success"); } if (how == 1) { Vector<double> v{4.0}; Matrix<double> A(1, 1); A(0, 0) = 4; std::vector<CD> z{CD(4, 0)}; bool any = Vector<double>::LoadFromFile(p, v) || Vector<double>::LoadFromBinary(p, v) || LoadMatrixFromFile(p, A) || LoadMatrixFromCSV(p, A) || LoadMatrixFromBinary(p, A) || LoadComplexVector(p, z); CHECK(!any && v.size() == 1 && v[0] == 4 && A.rows() == 1 && A(0, 0) == 4 && z.size() == 1, "loading a missing file"); } }
LAW(bad_parameters, 1500, 20000) { Ctx x = gen(s); c.nontrivial(true); int how = (int)s.i(0, 2); bool expect = true; std::set<int> one{9, 17, 18, 19, 20, 14}; if (how == 0) { if (one.count(x.kind) || x.kind == 1 || x.kind == 4 || x.kind == 5 || (x.kind == 7 && x.stream) || (x.kind == 8 && !x.stream)) expect = false; else x.n = (int)s.i(-1, 1); if (expect) { while (x.pts.size() < 2) x.pts.push_back(9); } } else if (how == 1) { if (x.kind == 1 || x.kind == 4 || x.kind == 5 || x.kind == 14 || x.kind >= 17 || (x.kind == 7 && x.stream) || (x.kind == 8 && !x.stream)) expect = false; else x.a2 = x.a1 - (s.b() ? 0 : 1); } else { if (x.kind == 18 || x.kind == 19) { if (s.b()) x.every = (int)s.i(-2, 0); else x.thr = -s.uni(0, 1); } else if (x.kind == 15 || x.kind == 16) { x.stream = false; x.thr = -s.uni(0, 1); } else expect = false; } DISCARD_IF(!expect); c.say([&](auto& o) { o << "kind " << x.kind << " how " << how << " n=" << x.n << " range " << x.a1 << ".." << x.a2 << " threshold " << x.thr << " every " << x.every; }); Tmp f("p"); if (x.n < 2) { x.data.assign(4, V(8, 1.0)); }
  Ctx y = x; if (how == 0) { /* vectors built from n must not see a negative size */ struct Guard {}; } SerializeResult r{true, SerializeError::OK, ""}; if (how == 0 && x.n < 0) x.n = 0; r = save(x, f.p, nullptr); CHECK(!r.success && r.error == SerializeError::INVALID_PARAMETERS && !r.message.empty(), "bad parameters gave code " << (int)r.error << " success " << r.success);
  int nb = (int)s.i(2, 3), nn = (int)s.i(1, 4); std::vector<std::vector<Pnt2Cart>> p2(nb, std::vector<Pnt2Cart>(nn)); p2[(size_t)s.i(1, nb - 1)].resize((size_t)s.i(0, nn - 1)); std::vector<std::vector<Pnt3Cart>> p3(nb, std::vector<Pnt3Cart>(nn)); p3[(size_t)s.i(1, nb - 1)].resize((size_t)s.i(0, nn - 1)); std::vector<Str> col(nb, "Red"); std::vector<Real> rad(nb, 1.0); auto r2 = SaveParticleSimulation2D(f.p, nb, 1, 1, p2, col, rad, 0.1); auto r3 = SaveParticleSimulation3D(f.p, nb, 1, 1, 1, p3, col, rad, 0.1); CHECK(!r2.success && !r3.success, "position lists of unequal length accepted"); col.pop_back(); auto r4 = SaveParticleSimulation2D(f.p, nb, 1, 1, std::vector<std::vector<Pnt2Cart>>(nb), col, rad, 0.1); CHECK(!r4.success, "missing colour accepted"); }
