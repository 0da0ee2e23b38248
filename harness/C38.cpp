// C38: DFT / FFT / real FFT / DCT / DST against long-double direct sums, and windows against their formulas
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "algorithms/Fourier.h"
#include "algorithms/FourierRealFFT.h"
#include "algorithms/FourierWindowing.h"
using namespace MML::Fourier;
typedef std::complex<LD> CL;
static const LD PIL = acosl(-1.0L);
static CL tw(long long k, long long n, int N, int sg) { LD a = 2 * PIL * (LD)((k * n) % N) / N; return CL(cosl(a), sg * sinl(a)); }
static std::vector<CL> direct(const Vector<Complex>& x, int sg) { int N = x.size(); std::vector<CL> t(N), r(N); for (int i = 0; i < N; i++) t[i] = tw(1, i, N, sg); for (long long k = 0; k < N; k++) { CL s = 0; for (long long n = 0; n < N; n++) s += CL(x[n].real(), x[n].imag()) * t[(k * n) % N]; r[k] = s; } return r; }
static Vector<Complex> csig(Src& s, int N, int form) { Vector<Complex> x(N); double sc = s.pwide(-3, 3); for (int i = 0; i < N; i++) x[i] = form == 0 ? Complex(s.uni(-1, 1), s.uni(-1, 1)) * sc : form == 1 ? Complex(s.uni(-1, 1), 0) * sc : Complex(0, 0); if (form >= 2) { int k = (int)s.i(0, N - 1), q = (int)s.i(0, N - 1); if (form == 2) x[k] = sc; else for (int i = 0; i < N; i++) { CL w = tw(q, i, N, 1); x[i] = Complex((double)w.real() * sc, (double)w.imag() * sc); } } return x; }
static double nrm(const Vector<Complex>& x) { double q = 0; for (int i = 0; i < x.size(); i++) q += std::norm(x[i]); return std::sqrt(q); }
static double n1(const Vector<Complex>& x) { double q = 0; for (int i = 0; i < x.size(); i++) q += std::abs(x[i]); return q; }
#define SAME(a, b, tol, what) do { CHECK((int)(a).size() == (int)(b).size(), what << " size"); for (int _k = 0; _k < (int)(b).size(); _k++) { CL _d = CL((a)[_k].real(), (a)[_k].imag()) - CL((b)[_k].real(), (b)[_k].imag()); CHECK((double)std::abs(_d) <= (tol), what << " at " << _k << " of " << (b).size() << " off by " << (double)std::abs(_d) << " tol " << (tol)); } } while (0)

LAW(fft, 800, 8000) { int L = (int)s.i(0, s.chance(1, 20) ? 11 : 8), N = 1 << L, form = (int)s.i(0, 3); auto x = csig(s, N, form); c.say([&](auto& o) { o << "FFT N=" << N << " form " << form << " x="; for (int i = 0; i < std::min(N, 8); i++) o << fmt(x[i].real()) << "+" << fmt(x[i].imag()) << "i "; }); c.nontrivial(N > 2); double tol = 1e-15 * (16 + N) * nrm(x); auto F = direct(x, -1), B = direct(x, 1); auto f = FFT::Forward(x); SAME(f, F, tol, "FFT::Forward"); auto g = FFT::Inverse(f); SAME(g, x, tol, "FFT::Inverse(FFT::Forward)"); auto t = x; FFT::Transform(t, -1); SAME(t, B, tol, "FFT::Transform(-1)"); t = x; FFT::Transform(t); SAME(t, F, tol, "FFT::Transform"); double e = nrm(f) / std::sqrt((double)N); CHECK_NEAR(e, nrm(x), 1e-14 * (16 + N) * nrm(x), "energy not preserved");
	// shift theorem and convolution theorem
	int k = (int)s.i(0, N - 1); Vector<Complex> sh(N); for (int i = 0; i < N; i++) sh[i] = x[(i + k) % N]; auto fs = FFT::Forward(sh); Vector<Complex> ex(N); for (int i = 0; i < N; i++) { CL w = tw(k, i, N, 1); ex[i] = f[i] * Complex((double)w.real(), (double)w.imag()); } SAME(fs, ex, 3 * tol, "shift theorem");
	auto y = csig(s, N, (int)s.i(0, 3)); if (N <= 128) { auto fy = FFT::Forward(y); for (int i = 0; i < N; i++) ex[i] = f[i] * fy[i]; auto cv = FFT::Inverse(ex); std::vector<CL> d(N); for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) d[(i + j) % N] += CL(x[i].real(), x[i].imag()) * CL(y[j].real(), y[j].imag()); SAME(cv, d, 4e-15 * (16 + N) * nrm(x) * nrm(y), "convolution theorem"); }
	FourierConfig C; C.exception_policy = s.b() ? EvaluationExceptionPolicy::Propagate : (EvaluationExceptionPolicy)1; auto D = FFT::ForwardDetailed(x, C); CHECK(D.status == AlgorithmStatus::Success && D.input_size == N, "detailed"); SAME(D.value, f, 0.0, "ForwardDetailed"); auto E = FFT::InverseDetailed(f, C); SAME(E.value, g, 0.0, "InverseDetailed"); CHECK(FFT::Log2(N) == L && FFT::IsPowerOfTwo(N), "Log2"); }

LAW(dft, 600, 5000) { int N = (int)s.size(1, 96), form = (int)s.i(0, 3); auto x = csig(s, N, form); c.say([&](auto& o) { o << "DFT N=" << N << " form " << form; }); c.nontrivial(!FFT::IsPowerOfTwo(N)); double tol = 2e-15 * (8 + N) * n1(x); auto F = direct(x, -1), B = direct(x, 1); auto f = DFT::Forward(x); SAME(f, F, tol, "DFT::Forward"); auto g = DFT::Inverse(x); for (auto& b : B) b /= (LD)N; SAME(g, B, tol, "DFT::Inverse"); auto r = DFT::Inverse(f); SAME(r, x, tol, "round trip"); int k = (int)s.i(0, N - 1); Complex bin = DFT::ComputeBin(x, k); CHECK(std::abs(bin - f[k]) <= tol, "ComputeBin " << k); CHECK_THROWS(DFT::ComputeBin(x, s.b() ? N : -1), std::invalid_argument, "bin out of range"); Vector<Real> re(N); Vector<Complex> rc(N); for (int i = 0; i < N; i++) { re[i] = x[i].real(); rc[i] = re[i]; } auto fr = DFT::Forward(re); auto R = direct(rc, -1); SAME(fr, R, tol, "DFT::Forward(real)"); auto ir = DFT::InverseReal(fr); CHECK(ir.size() == N, "size"); for (int i = 0; i < N; i++) CHECK_NEAR(ir[i], re[i], tol, "InverseReal"); auto d1 = DFT::ForwardDetailed(x), d2 = DFT::ForwardDetailed(re), d3 = DFT::InverseDetailed(x); SAME(d1.value, f, 0.0, "ForwardDetailed"); SAME(d2.value, fr, 0.0, "ForwardDetailed(real)"); SAME(d3.value, g, 0.0, "InverseDetailed"); auto d4 = DFT::InverseRealDetailed(fr); for (int i = 0; i < N; i++) CHECK(d4.value[i] == ir[i], "InverseRealDetailed");
	// padding
	auto p = FFT::ZeroPad(x); int P = FFT::NextPowerOfTwo(N); CHECK(p.size() == P && P >= N && P < 2 * N && FFT::IsPowerOfTwo(P), "padded size " << p.size()); for (int i = 0; i < P; i++) CHECK(p[i] == (i < N ? x[i] : Complex(0, 0)), "padded value"); if (!FFT::IsPowerOfTwo(N)) { CHECK_THROWS(FFT::Forward(x), std::invalid_argument, "length " << N); CHECK_THROWS(FFT::Inverse(x), std::invalid_argument, "length " << N); CHECK_THROWS(RealFFT::Forward(re), std::invalid_argument, "length " << N); FourierConfig C; C.exception_policy = (EvaluationExceptionPolicy)1; bool prop = C.exception_policy == EvaluationExceptionPolicy::Propagate; C.exception_policy = prop ? (EvaluationExceptionPolicy)0 : C.exception_policy; auto D = FFT::ForwardDetailed(x, C); CHECK(D.status == AlgorithmStatus::InvalidInput && !D.error_message.empty(), "invalid length not reported"); } Vector<Complex> none; CHECK_THROWS(DFT::Forward(none), std::invalid_argument, "empty"); CHECK_THROWS(DFT::Inverse(none), std::invalid_argument, "empty"); CHECK_THROWS(FFT::Forward(none), std::invalid_argument, "empty"); }

LAW(real_fft, 800, 8000) { int L = (int)s.i(1, 9), N = 1 << L; auto x = csig(s, N, s.b() ? 1 : 2); Vector<Real> re(N); for (int i = 0; i < N; i++) re[i] = x[i].real(); c.say([&](auto& o) { o << "RealFFT N=" << N << " x="; for (int i = 0; i < std::min(N, 8); i++) o << fmt(re[i]) << " "; }); c.nontrivial(N > 4); double tol = 1e-15 * (16 + N) * nrm(x); auto F = direct(x, -1); F.resize(N / 2 + 1); auto f = RealFFT::Forward(re); SAME(f, F, tol, "RealFFT::Forward"); auto b = RealFFT::Inverse(f); CHECK(b.size() == N, "size"); for (int i = 0; i < N; i++) CHECK_NEAR(b[i], re[i], tol, "RealFFT::Inverse at " << i); auto t = re; RealFFT::Transform(t, 1); CHECK_NEAR(t[0], (double)F[0].real(), tol, "packed DC"); CHECK_NEAR(t[1], (double)F[N / 2].real(), tol, "packed Nyquist"); for (int k = 1; k < N / 2; k++) { CHECK_NEAR(t[2 * k], (double)F[k].real(), tol, "packed real " << k); CHECK_NEAR(t[2 * k + 1], (double)F[k].imag(), tol, "packed imaginary " << k); } RealFFT::Transform(t, -1); for (int i = 0; i < N; i++) CHECK_NEAR(t[i], re[i], tol, "packed inverse at " << i); Vector<Real> one(1, 1.0), none; CHECK_THROWS(RealFFT::Forward(one), std::invalid_argument, "length 1"); CHECK_THROWS(RealFFT::Forward(none), std::invalid_argument, "length 0"); Vector<Complex> e1(1); CHECK_THROWS(RealFFT::Inverse(e1), std::invalid_argument, "length 1"); }

LAW(dct, 800, 6000) { int N = s.b() ? 1 << (int)s.i(0, 7) : (int)s.size(1, 80); Vector<Real> x(N); double sc = s.pwide(-3, 3), a1 = 0; for (int i = 0; i < N; i++) { x[i] = s.uni(-1, 1) * sc; a1 += std::fabs(x[i]); } bool p2 = FFT::IsPowerOfTwo(N); c.say([&](auto& o) { o << "DCT N=" << N; for (int i = 0; i < std::min(N, 8); i++) o << " " << fmt(x[i]); }); c.nontrivial(N >= 32 && p2); double tol = 2e-15 * (8 + N) * a1; std::vector<LD> ct(4 * N), st(2 * (N + 1)); for (int i = 0; i < 4 * N; i++) ct[i] = cosl(PIL * i / (2 * N)); for (int i = 0; i < 2 * (N + 1); i++) st[i] = sinl(PIL * i / (N + 1)); Vector<Real> D(N), I(N), S(N); for (int k = 0; k < N; k++) { LD d = 0, in = x[0] / 2.0L, q = 0; for (int n = 0; n < N; n++) { d += x[n] * ct[(long long)k * (2 * n + 1) % (4 * N)]; if (n) in += x[n] * ct[(long long)n * (2 * k + 1) % (4 * N)]; q += x[n] * st[(long long)(k + 1) * (n + 1) % (2 * (N + 1))]; } D[k] = (double)(2 * d / N); I[k] = (double)in; S[k] = (double)(sqrtl(2.0L / (N + 1)) * q); }
	auto chk = [&](const Vector<Real>& g, const Vector<Real>& w, const char* n) { CHECK(g.size() == N, n << " size"); for (int i = 0; i < N; i++) CHECK_NEAR(g[i], w[i], tol, n << " at " << i << " of " << N); }; auto f = DCT::ForwardII(x); chk(f, D, "ForwardII"); chk(DCT::InverseII(x), I, "InverseII"); chk(DCT::InverseII(f), x, "InverseII(ForwardII)"); chk(DCT::ForwardII_Reference(x), D, "ForwardII_Reference"); chk(DCT::InverseII_Reference(x), I, "InverseII_Reference"); if (p2) { chk(DCT::ForwardII_Fast(x), D, "ForwardII_Fast"); chk(DCT::InverseII_Fast(x), I, "InverseII_Fast"); } else { CHECK_THROWS(DCT::ForwardII_Fast(x), std::invalid_argument, "length"); CHECK_THROWS(DCT::InverseII_Fast(x), std::invalid_argument, "length"); } auto ds = DCT::ForwardDST(x); chk(ds, S, "ForwardDST"); chk(DCT::InverseDST(ds), x, "InverseDST"); chk(DCT::ForwardIIDetailed(x).value, D, "ForwardIIDetailed"); chk(DCT::InverseIIDetailed(x).value, I, "InverseIIDetailed"); Vector<Real> none; CHECK_THROWS(DCT::ForwardII(none), std::invalid_argument, "empty"); CHECK_THROWS(DCT::InverseII(none), std::invalid_argument, "empty"); CHECK_THROWS(DCT::ForwardDST(none), std::invalid_argument, "empty"); }

static LD i0(LD x) { LD t = 1, q = 1; for (int k = 1; k < 2000; k++) { t *= (x / 2 / k) * (x / 2 / k); q += t; if (t < 1e-22L * q) break; } return q; }
LAW(windows, 1200, 12000) { int n = (int)s.size(1, 200), W = (int)s.i(0, 7); double beta = s.b() ? s.uni(0, 20) : s.uni(0, 100), sigma = s.uni(0.05, 3); c.say([&](auto& o) { o << "window " << W << " n=" << n << " beta=" << fmt(beta) << " sigma=" << fmt(sigma); }); c.nontrivial(n > 1); Vector<Real> w; switch (W) { case 0: w = Windows::Rectangular(n); break; case 1: w = Windows::Hann(n); break; case 2: w = Windows::Hamming(n); break; case 3: w = Windows::Blackman(n); break; case 4: w = Windows::Bartlett(n); break; case 5: w = Windows::Welch(n); break; case 6: w = Windows::Kaiser(n, beta); break; default: w = Windows::Gaussian(n, sigma); } CHECK(w.size() == n, "size"); for (int i = 0; i < n; i++) { LD t = n > 1 ? 2 * PIL * i / (n - 1) : PIL, x = n > 1 ? (LD)(2 * i - (n - 1)) / (n - 1) : 0, e; switch (W) { case 0: e = 1; break; case 1: e = 0.5L * (1 - cosl(t)); break; case 2: e = 0.54L - 0.46L * cosl(t); break; case 3: e = 0.42L - 0.5L * cosl(t) + 0.08L * cosl(2 * t); break; case 4: e = 1 - fabsl(x); break; case 5: e = 1 - x * x; break; case 6: e = i0(beta * sqrtl(std::max(0.0L, 1 - x * x))) / i0(beta); break; default: e = expl(-0.5L * x * x / ((LD)sigma * sigma)); } double v = w[i]; CHECK_NEAR(v, (double)e, (W == 6 ? 1e-10 : 1e-13), "window " << W << " at " << i << " of " << n); CHECK_NEAR(v, (double)w[n - 1 - i], 1e-12, "asymmetric at " << i); } CHECK_THROWS(Windows::Hann((int)s.i(-3, 0)), std::invalid_argument, "size"); CHECK_THROWS(Windows::Kaiser((int)s.i(-3, 0), 1.0), std::invalid_argument, "size"); CHECK_THROWS(Windows::Kaiser(n, -1e-3), std::invalid_argument, "beta"); CHECK_THROWS(Windows::Gaussian(n, 0.0), std::invalid_argument, "sigma"); }
