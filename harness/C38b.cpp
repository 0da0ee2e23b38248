// C38 (second part): detailed DST/DCT/DFT entry points, empty inputs, self-check helpers
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "algorithms/Fourier.h"
using namespace MML::Fourier;
template<class F, class G> static void both(Case& c, const char* n, F plain, G det, int N) { // plain call against the instrumented one
	for (int pol = 0; pol < 2; pol++) {
		FourierConfig C; C.exception_policy = pol ? EvaluationExceptionPolicy::ConvertToStatus : EvaluationExceptionPolicy::Propagate; bool t1 = false, t2 = false; decltype(plain()) p; decltype(det(C)) d;
		try { p = plain(); } catch (const std::exception&) { t1 = true; } try { d = det(C); } catch (const std::exception&) { t2 = true; }
		if (pol == 0) CHECK(t1 == t2, n << ": plain " << (t1 ? "throws" : "returns") << ", instrumented the other, size " << N);
		else { CHECK(!t2, n << ": exception despite the status policy"); CHECK(t1 == (d.status != AlgorithmStatus::Success), n << ": status " << (int)d.status << " but plain " << (t1 ? "throws" : "returns")); if (t1) CHECK(!d.error_message.empty() && d.status == AlgorithmStatus::InvalidInput, n << ": failure kind"); }
		if (!t1 && !t2) { CHECK(d.status == AlgorithmStatus::Success && d.input_size == N, n << ": input size " << d.input_size << " for " << N); CHECK(d.value.size() == p.size(), n << ": sizes"); for (int i = 0; i < (int)p.size(); i++) CHECK(d.value[i] == p[i], n << ": value " << i); CHECK(!d.algorithm_name.empty(), n << ": no name"); }
	}
}
LAW(detailed_all, 400, 4000) { // every instrumented transform equals the plain one, also for empty input
	int N = s.chance(1, 6) ? 0 : (int)s.i(1, 40); Vector<Real> x(N); Vector<Complex> z(N); for (int i = 0; i < N; i++) { x[i] = s.uni(-5, 5); z[i] = Complex(s.uni(-5, 5), s.uni(-5, 5)); }
	c.say([&](auto& o) { o << "size " << N; }); c.nontrivial(N > 2); c.label(N == 0 ? "empty" : "data");
	both(c, "DCT forward", [&] { return DCT::ForwardII(x); }, [&](FourierConfig C) { return DCT::ForwardIIDetailed(x, C); }, N);
	both(c, "DCT inverse", [&] { return DCT::InverseII(x); }, [&](FourierConfig C) { return DCT::InverseIIDetailed(x, C); }, N);
	both(c, "DST forward", [&] { return DCT::ForwardDST(x); }, [&](FourierConfig C) { return DCT::ForwardDSTDetailed(x, C); }, N);
	both(c, "DST inverse", [&] { return DCT::InverseDST(x); }, [&](FourierConfig C) { return DCT::InverseDSTDetailed(x, C); }, N);
	both(c, "DFT forward", [&] { return DFT::Forward(z); }, [&](FourierConfig C) { return DFT::ForwardDetailed(z, C); }, N);
	both(c, "DFT real", [&] { return DFT::Forward(x); }, [&](FourierConfig C) { return DFT::ForwardDetailed(x, C); }, N);
	both(c, "DFT inverse", [&] { return DFT::Inverse(z); }, [&](FourierConfig C) { return DFT::InverseDetailed(z, C); }, N);
	both(c, "FFT forward", [&] { return FFT::Forward(z); }, [&](FourierConfig C) { return FFT::ForwardDetailed(z, C); }, N);
	both(c, "FFT inverse", [&] { return FFT::Inverse(z); }, [&](FourierConfig C) { return FFT::InverseDetailed(z, C); }, N);
	if (N == 0) { CHECK_THROWS(DCT::ForwardII_Reference(x), std::exception, "empty reference"); CHECK_THROWS(DCT::InverseII_Reference(x), std::exception, "empty inverse reference"); CHECK_THROWS(DCT::ForwardII_Fast(x), std::exception, "empty fast"); CHECK_THROWS(DCT::InverseII_Fast(x), std::exception, "empty fast inverse"); }
}
LAW(self_checks, 300, 3000) { // fast, reference and default cosine transforms agree; the helpers say so
	int N = s.b() ? 1 << (int)s.i(0, 8) : (int)s.i(1, 100); double A = s.pwide(-3, 3); Vector<Real> x(N); for (auto& v : x) v = A * s.uni(-1, 1); double tol = 1e-12 * A * N; c.say([&](auto& o) { o << "size " << N << " amplitude " << A; }); c.nontrivial(N > 4);
	auto F = DCT::ForwardII(x), R = DCT::ForwardII_Reference(x); for (int i = 0; i < N; i++) CHECK_NEAR(F[i], R[i], tol, "default against reference " << i);
	auto G = DCT::InverseII(x), H = DCT::InverseII_Reference(x); for (int i = 0; i < N; i++) CHECK_NEAR(G[i], H[i], tol, "inverse default against reference " << i);
	if ((N & (N - 1)) == 0) { auto Q = DCT::ForwardII_Fast(x), P = DCT::InverseII_Fast(x); for (int i = 0; i < N; i++) { CHECK_NEAR(Q[i], R[i], tol, "fast against reference " << i); CHECK_NEAR(P[i], H[i], tol, "fast inverse against reference " << i); } }
	CHECK(DCT::VerifyRoundTrip(x, 1e-11 * A * N), "round trip rejected"); CHECK(DCT::VerifyFastMatchesReference(x, 1e-11 * A * N), "fast rejected"); CHECK(!DCT::VerifyRoundTrip(x, -1.0), "round trip accepted with a negative tolerance");
}
