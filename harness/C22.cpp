// C22 quaternions
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "base/Matrix/MatrixNM.h"
#include "base/Quaternions.h"
#include <array>
typedef Quaternion Qn; typedef std::array<LD, 4> Q4; typedef std::array<std::array<LD, 3>, 3> R3;
static Q4 q4(const Qn& q) { return {q.w(), q.x(), q.y(), q.z()}; }
static Q4 mul(const Q4& a, const Q4& b) { // from the multiplication table of 1, i, j, k
	static const int idx[4][4] = {{0, 1, 2, 3}, {1, 0, 3, 2}, {2, 3, 0, 1}, {3, 2, 1, 0}}, sg[4][4] = {{1, 1, 1, 1}, {1, -1, 1, -1}, {1, -1, -1, 1}, {1, 1, -1, -1}}; Q4 r{}; for (int i = 0; i < 4; i++) for (int j = 0; j < 4; j++) r[idx[i][j]] += sg[i][j] * a[i] * b[j]; return r; }
static R3 rod(const std::array<LD, 3>& u, LD th) { LD c = cosl(th), s = sinl(th); R3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = (i == j ? c : 0) + (1 - c) * u[i] * u[j]; r[0][1] -= s * u[2]; r[0][2] += s * u[1]; r[1][0] += s * u[2]; r[1][2] -= s * u[0]; r[2][0] -= s * u[1]; r[2][1] += s * u[0]; return r; }
static R3 mm(const R3& a, const R3& b) { R3 r{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) r[i][j] += a[i][k] * b[k][j]; return r; }
static R3 rq(const Qn& q) { LD n = q.w() * (LD)q.w() + q.x() * (LD)q.x() + q.y() * (LD)q.y() + q.z() * (LD)q.z(); Q4 a = q4(q), b = {a[0], -a[1], -a[2], -a[3]}; R3 r; for (int j = 0; j < 3; j++) { Q4 e{}; e[j + 1] = 1; Q4 v = mul(mul(a, e), b); for (int i = 0; i < 3; i++) r[i][j] = v[i + 1] / n; } return r; }
static R3 rm(const MatrixNM<Real, 3, 3>& m) { R3 r; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) r[i][j] = m(i, j); return r; }
static LD dist(const R3& a, const R3& b) { LD t = 0; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { LD d = fabsl(a[i][j] - b[i][j]); if (!(d <= t)) t = d; } return t; }
static std::string qs(const Qn& q) { return fmt(q.w()) + " " + fmt(q.x()) + " " + fmt(q.y()) + " " + fmt(q.z()); }
static Qn any(Src& s) { bool in = s.chance(1, 4); auto g = [&] { return in ? (double)s.i(-3, 3) : s.pick({s.uni(-2, 2), s.uni(-1e3, 1e3), 0.0, s.uni(-1e-2, 1e-2)}); }; double a = g(), b = g(), c = g(), d = g(); return Qn(a, b, c, d); }
static std::array<LD, 3> axis(Src& s) { LD a, b, c, n; do { a = s.pick({s.uni(-1, 1), 0.0, 1.0}); b = s.pick({s.uni(-1, 1), 0.0}); c = s.pick({s.uni(-1, 1), 0.0, -1.0}); n = sqrtl(a * a + b * b + c * c); if (n < 0.1) a = 1, n = sqrtl(1 + b * b + c * c); } while (0); return {a / n, b / n, c / n}; }
static double ang(Src& s) { double p = Constants::PI; return s.pick({s.uni(-p, p), 0.0, p, -p, p / 2, -p / 2, p - std::pow(10.0, -s.uni(2, 12)), std::pow(10.0, -s.uni(2, 9)), s.uni(-2 * p, 2 * p), p / 3}); }
static Qn unit(Src& s) { auto u = axis(s); double a = ang(s); return s.chance(1, 5) ? Qn::FromAxisAngle(Vec3Cart((double)u[0], (double)u[1], (double)u[2]), a) : Qn(std::cos(a / 2), (double)(sinl(a / 2) * u[0]), (double)(sinl(a / 2) * u[1]), (double)(sinl(a / 2) * u[2])); }
static LD n2(const Qn& q) { LD t = 0; for (int i = 0; i < 4; i++) t += (LD)q[i] * q[i]; return t; }
LAW(algebra, 3000, 30000) {
	Qn a = any(s), b = any(s), d = any(s); double k = s.pick({s.uni(-3, 3), 2.0, -1.0}); c.say([&](auto& o) { o << qs(a) << " | " << qs(b) << " | " << qs(d); }); LD na = sqrtl(n2(a)), nb = sqrtl(n2(b)), nd = sqrtl(n2(d)), E = 8 * EPS; auto eq = [&](const Qn& x, const Q4& y, LD tol, const char* w) { for (int i = 0; i < 4; i++) CHECK(fabsl(x[i] - y[i]) <= tol, w << " component " << i << ": " << fmt(x[i]) << " exact " << (double)y[i]); };
	Qn p = a * b; eq(p, mul(q4(a), q4(b)), E * na * nb, "Hamilton product"); Qn pe = a; pe *= b; CHECK(pe == p, "*= differs from *"); eq(p * d, q4(a * (b * d)), 4 * E * na * nb * nd, "associativity"); eq(a * (b + d), q4(a * b + a * d), 4 * E * na * (nb + nd), "distributivity"); eq((b + d) * a, q4(b * a + d * a), 4 * E * na * (nb + nd), "right distributivity"); Qn one = Qn::Identity(); CHECK(a * one == a && one * a == a && Qn() == one, "identity"); eq(p.Conjugate(), mul(q4(b.Conjugate()), q4(a.Conjugate())), E * na * nb, "conjugate of a product"); CHECK(a.Conjugate().Conjugate() == a, "double conjugate");
	CHECK(fabsl(p.Norm() - na * nb) <= 4 * E * na * nb, "norm is not multiplicative"); CHECK(fabsl(a.NormSquared() - n2(a)) <= E * n2(a) && fabsl(a.Norm() - na) <= E * na, "norm"); LD dt = 0; for (int i = 0; i < 4; i++) dt += (LD)a[i] * b[i]; CHECK(fabsl(a.Dot(b) - dt) <= E * na * nb, "dot product");
	for (int i = 0; i < 4; i++) { CHECK((a + b)[i] == a[i] + b[i] && (a - b)[i] == a[i] - b[i] && (-a)[i] == -a[i] && (a * k)[i] == a[i] * k && (k * a)[i] == a[i] * k, "component-wise operations"); CHECK(std::fabs((a / k)[i] - a[i] / k) <= 4 * (double)EPS * std::fabs(a[i] / k) || k == 0, "division by a scalar"); Qn t = a; t += b; Qn u = a; u -= b; Qn v = a; v *= k; CHECK(t[i] == a[i] + b[i] && u[i] == a[i] - b[i] && v[i] == a[i] * k, "compound operators"); }
	CHECK(a.Scalar() == a.w() && a.Vector()[0] == a.x() && a.Vector()[1] == a.y() && a.Vector()[2] == a.z() && a[0] == a.w() && a[3] == a.z(), "accessors"); CHECK(Qn(a.w(), a.Vector()) == a && Qn(a.Vector()) == Qn(0, a.x(), a.y(), a.z()), "constructors"); CHECK((a == b) == (a.w() == b.w() && a.x() == b.x() && a.y() == b.y() && a.z() == b.z()) && (a != b) == !(a == b), "equality");
	if (na > 1e-5) { Qn i = a.Inverse(); Qn l = i * a, r = a * i; eq(l, {1, 0, 0, 0}, 4 * E, "inverse * q"); eq(r, {1, 0, 0, 0}, 4 * E, "q * inverse"); Qn u = a.Normalized(); CHECK(fabsl(n2(u) - 1) <= 4 * E && u.isUnit(), "normalised quaternion is not unit"); eq(u * (double)na, q4(a), 4 * E * na, "normalisation direction"); Qn w = a; w.Normalize(); CHECK(w == u, "Normalize"); }
	CHECK_THROWS(Qn(0, 0, 0, 0).Inverse(), QuaternionError, "zero inverted"); CHECK_THROWS(Qn(0, 0, 0, 0).Normalized(), QuaternionError, "zero normalised"); c.nontrivial(na > 0 && nb > 0 && !(a == b)); }
LAW(rotation, 3000, 30000) {
	auto u = axis(s); double th = ang(s); Vec3Cart ax((double)u[0], (double)u[1], (double)u[2]); Qn q = Qn::FromAxisAngle(ax, th), r = unit(s); double v[3] = {s.uni(-3, 3), s.uni(-3, 3), s.pick({s.uni(-3, 3), 0.0})}; c.say([&](auto& o) { o << "axis " << (double)u[0] << " " << (double)u[1] << " " << (double)u[2] << " angle " << fmt(th) << " second " << qs(r); }); R3 R = rod(u, th), S = rq(r); LD E = 40 * EPS; CHECK(fabsl(n2(q) - 1) <= E, "not a unit quaternion"); CHECK(dist(rq(q), R) <= E, "axis-angle rotation differs from Rodrigues' formula");
	CHECK(dist(rm(q.ToRotationMatrix()), R) <= E, "rotation matrix of the quaternion"); Vec3Cart V(v[0], v[1], v[2]), w = q.Rotate(V), rr = r.Rotate(V); R3 C = mm(R, S); Vec3Cart comp = (q * r).Rotate(V), seq = q.Rotate(r.Rotate(V)); for (int i = 0; i < 3; i++) { LD a = 0, b = 0, d = 0; for (int j = 0; j < 3; j++) a += R[i][j] * v[j], b += C[i][j] * v[j], d += S[i][j] * v[j]; CHECK(fabsl(w[i] - a) <= 8 * E && fabsl(rr[i] - d) <= 8 * E, "rotated vector component " << i << " " << fmt(w[i]) << " exact " << (double)a); CHECK(fabsl(comp[i] - b) <= 16 * E && fabsl(seq[i] - b) <= 16 * E, "composition order, component " << i << ": (q*r) " << fmt(comp[i]) << " q after r " << fmt(seq[i]) << " exact " << (double)b); }
	CHECK(dist(rm((q * r).ToRotationMatrix()), C) <= 4 * E, "matrix of a product"); CHECK(dist(rm(q.Conjugate().ToRotationMatrix()), rod(u, -th)) <= E, "conjugate is the inverse rotation"); CHECK(dist(rm((-q).ToRotationMatrix()), R) <= E, "q and -q differ");
	// conversions back
	for (const Qn& z : {q, r, Qn(-q.w(), -q.x(), -q.y(), -q.z())}) { R3 Z = rq(z); Qn f = Qn::FromRotationMatrix(z.ToRotationMatrix()); CHECK(fabsl(n2(f) - 1) <= 1e-14L, "quaternion of a matrix is not unit: " << qs(f)); CHECK(dist(rq(f), Z) <= 1e-13L, "matrix -> quaternion changes the rotation: " << qs(z) << " became " << qs(f)); Vec3Cart a; Real t; z.ToAxisAngle(a, t); CHECK(fabsl(a[0] * (LD)a[0] + a[1] * (LD)a[1] + a[2] * (LD)a[2] - 1) < 1e-14L && t == z.GetRotationAngle() && t >= 0 && t <= 2 * Constants::PI, "axis not unit or angle out of range"); CHECK(dist(rod({a[0], a[1], a[2]}, t), Z) <= 1e-7L, "axis-angle of " << qs(z) << " is a different rotation (angle " << fmt(t) << ")"); }
	c.nontrivial(std::fabs(std::sin(th / 2)) > 1e-10); }
LAW(matrix_branches, 1500, 15000) { // signed permutations, half turns and small perturbations: every branch of the matrix conversion
	Qn z; int k = s.i(0, 3); double e = s.pick({0.0, std::pow(10.0, -s.uni(1, 17))}), h = std::sqrt(0.5); if (k == 0) { double d[4] = {e * s.uni(-1, 1), e * s.uni(-1, 1), e * s.uni(-1, 1), e * s.uni(-1, 1)}; d[s.i(0, 3)] += 1; z = Qn(d[0], d[1], d[2], d[3]); } else if (k == 1) { double d[4] = {e, 0, 0, 0}; int i = s.i(0, 3), j = (i + s.i(1, 3)) % 4; d[i] += h; d[j] += s.b() ? h : -h; z = Qn(d[0], d[1], d[2], d[3]); } else if (k == 2) z = Qn(0.5, s.b() ? .5 : -.5, s.b() ? .5 : -.5, s.b() ? .5 + e : -.5); else z = Qn(e * s.uni(-1, 1), s.uni(-1, 1), s.uni(-1, 1), s.uni(-1, 1)); DISCARD_IF(n2(z) < 1e-4); z.Normalize(); c.say([&](auto& o) { o << qs(z); }); MatrixNM<Real, 3, 3> M; R3 Z = rq(z); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = (double)Z[i][j]; Qn f = Qn::FromRotationMatrix(M); CHECK(dist(rq(f), Z) <= 1e-13L && fabsl(n2(f) - 1) < 1e-14L, "matrix of " << qs(z) << " converts to " << qs(f)); LD dt = 0; for (int i = 0; i < 4; i++) dt += (LD)f[i] * z[i]; CHECK(fabsl(fabsl(dt) - 1) < 1e-14L, "not the same quaternion up to sign"); c.nontrivial(std::fabs(z.w()) < 0.9); }
LAW(euler_angles, 3000, 30000) {
	double p2 = Constants::PI / 2; double y = ang(s), r = ang(s), p = s.pick({s.uni(-p2, p2), p2, -p2, (s.b() ? 1 : -1) * (p2 - std::pow(10.0, -s.uni(1, 16))), 0.0, s.uni(-3, 3)}); c.say([&](auto& o) { o << "yaw " << fmt(y) << " pitch " << fmt(p) << " roll " << fmt(r); }); R3 Z = rod({0, 0, 1}, y), Y = rod({0, 1, 0}, p), X = rod({1, 0, 0}, r), zyx = mm(Z, mm(Y, X)), xyz = mm(X, mm(Y, Z)); Qn q = Qn::FromEulerZYX(y, p, r), w = Qn::FromEulerXYZ(r, p, y); CHECK(dist(rq(q), zyx) <= 1e-14L, "FromEulerZYX"); CHECK(dist(rq(w), xyz) <= 1e-14L, "FromEulerXYZ"); CHECK(fabsl(n2(q) - 1) < 1e-14L && fabsl(n2(w) - 1) < 1e-14L, "not unit");
	for (const Qn& z : {q, w}) { Vec3Cart e = z.ToEulerZYX(); for (int i = 0; i < 3; i++) CHECK(std::isfinite(e[i]) && std::fabs(e[i]) <= Constants::PI + 1e-15, "Euler angle " << i << " is " << e[i]); CHECK(std::fabs(e[1]) <= p2, "pitch out of range"); Qn b = Qn::FromEulerZYX(e[0], e[1], e[2]); LD cp = sqrtl(std::max<LD>(0, 1 - sinl(e[1]) * sinl(e[1]))), tol = std::min<LD>(3e-7L, 1e-14L + 4e-15L / std::max<LD>(cp * cp, 1e-30L)); CHECK(dist(rq(b), rq(z)) <= tol, "Euler angles (" << fmt(e[0]) << ", " << fmt(e[1]) << ", " << fmt(e[2]) << ") describe a different rotation, off by " << (double)dist(rq(b), rq(z))); } c.nontrivial(y != 0 && p != 0 && r != 0); }
LAW(interpolation, 2000, 20000) {
	Qn a = unit(s), b = s.pick({unit(s), a, -a}); if (s.chance(1, 4)) { b = a + Qn(1e-3 * s.uni(-1, 1), 1e-3 * s.uni(-1, 1), 1e-3 * s.uni(-40, 40), 1e-3 * s.uni(-1, 1)); b.Normalize(); if (s.b()) b = -b; } double t = s.pick({s.unit(), 0.0, 1.0, 0.5}); c.say([&](auto& o) { o << qs(a) << " | " << qs(b) << " t " << fmt(t); }); LD d = 0; for (int i = 0; i < 4; i++) d += (LD)a[i] * b[i]; LD sg = d < 0 ? -1 : 1; LD dif = 0; for (int i = 0; i < 4; i++) dif += ((LD)a[i] - sg * b[i]) * ((LD)a[i] - sg * b[i]); LD om = 2 * asinl(std::min<LD>(1, sqrtl(dif) / 2)); // angle along the shorter arc
	Qn q = Qn::Slerp(a, b, t); CHECK(fabsl(n2(q) - 1) < 1e-12L, "Slerp leaves the unit sphere: norm^2 " << (double)n2(q)); Q4 ex; LD so = sinl(om); for (int i = 0; i < 4; i++) ex[i] = om < 1e-9L ? (LD)a[i] : (sinl((1 - t) * om) * a[i] + sinl(t * om) * sg * b[i]) / so; if (fabsl(d) > 1e-12L) for (int i = 0; i < 4; i++) CHECK(fabsl(q[i] - ex[i]) <= 3e-6L, "Slerp component " << i << " " << fmt(q[i]) << " exact " << (double)ex[i]);
	R3 A = rq(a), B = rq(b); R3 Rt = rq(q); if (t == 0) CHECK(dist(Rt, A) < 1e-12L, "Slerp(0) is not the start"); if (t == 1) CHECK(dist(Rt, B) < 1e-12L, "Slerp(1) is not the end"); LD qa = 0; for (int i = 0; i < 4; i++) qa += ((LD)q[i] - a[i]) * ((LD)q[i] - a[i]); LD got = 2 * asinl(std::min<LD>(1, sqrtl(qa) / 2)); CHECK(fabsl(got - t * om) < 1e-5L, "angle travelled " << (double)got << " of " << (double)om << " at t=" << t); CHECK(om <= Constants::PI / 2 + 1e-9, "longer arc");
	Qn l = Qn::Lerp(a, b, t); for (int i = 0; i < 4; i++) CHECK(fabsl(l[i] - ((1 - (LD)t) * a[i] + (LD)t * b[i])) < 1e-15L * 4, "Lerp"); CHECK(a.isApprox(a) && (a.isApprox(b) == (std::fabs(a.w() - b.w()) < 1e-10 && std::fabs(a.x() - b.x()) < 1e-10 && std::fabs(a.y() - b.y()) < 1e-10 && std::fabs(a.z() - b.z()) < 1e-10) || PrecisionValues<Real>::DefaultTolerance != 1e-10), "isApprox"); c.nontrivial(om > 1e-3 && t > 0 && t < 1); }
