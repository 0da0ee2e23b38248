// C18 coordinate transformations
#include "coord.h"
static P<3> pt3(Src& s) { return {s.uni(-4, 4), s.uni(-4, 4), s.uni(-4, 4)}; }
LAW(spherical, 500, 4000) {
	double r = s.uni(0.5, 5), th = s.uni(0.35, M_PI - 0.35), ph = s.uni(-3.1, 3.1); P<3> q{r, th, ph}; LD st = sinl(th), ct = cosl(th), sp = sinl(ph), cp = cosl(ph); P<3> x{(double)(r * st * cp), (double)(r * st * sp), (double)(r * ct)}; J<3> A{{{st * cp, r * ct * cp, -r * st * sp}, {st * sp, r * ct * sp, r * st * cp}, {ct, -r * st, 0}}}; J<3> B = inv<3>(A); bool fwd = s.b(); c.say([&](auto& o) { o << "spherical " << ps<3>(q) << " forward " << fwd; }); c.nontrivial(true);
	if (M_PI - std::fabs(ph) < 0.05) { c.label("near the branch cut"); return; }
	if (fwd) { check<Vector3Spherical, Vector3Cartesian, 3>(s, CoordTransfSpherToCart, q, x, A, B, 2e-7); for (int k = 0; k < 3; k++) { auto u = CoordTransfSpherToCart.getUnitBasisVec(k, mk<Vector3Spherical, 3>(q)); auto w = CoordTransfSpherToCart.getInverseUnitBasisVec(k, mk<Vector3Spherical, 3>(q)); LD h[3] = {1, r, r * st}; for (int i = 0; i < 3; i++) { NR(u[i], A[i][k] / h[k], 1e-14, "unit basis vector " << k); NR(w[i], A[k][i] / h[i], 1e-14, "inverse unit basis vector " << k); } } } else check<Vector3Cartesian, Vector3Spherical, 3>(s, CoordTransfCartToSpher, x, q, B, A, 2e-7);
	// generic class methods against the analytic overrides
}
LAW(cylindrical_polar, 500, 4000) {
	double r = s.uni(0.5, 5), ph = s.uni(-3.1, 3.1), z = s.uni(-4, 4); LD sp = sinl(ph), cp = cosl(ph); P<3> q{r, ph, z}, x{(double)(r * cp), (double)(r * sp), z}; J<3> A{{{cp, -r * sp, 0}, {sp, r * cp, 0}, {0, 0, 1}}}; J<3> B = inv<3>(A); int w = (int)s.choice(2); c.say([&](auto& o) { o << "cylindrical " << ps<3>(q) << " variant " << w; }); c.nontrivial(true); if (M_PI - std::fabs(ph) < 0.05) return;
	if (w == 0) check<Vector3Cylindrical, Vector3Cartesian, 3>(s, CoordTransfCylToCart, q, x, A, B, 2e-7); else if (w == 1) check<Vector3Cartesian, Vector3Cylindrical, 3>(s, CoordTransfCartToCyl, x, q, B, A, 2e-7); else { CoordTransfPolarToCartesian2D t; J<2> A2{{{cp, -r * sp}, {sp, r * cp}}}; check<Vector2Polar, Vector2Cartesian, 2>(s, t, {r, ph}, {x[0], x[1]}, A2, inv<2>(A2), 2e-7); } }
LAW(quadrants, 500, 4000) {   // points on axes and in every octant, and points anywhere (only the maps)
	P<3> x{(double)s.i(-2, 2), (double)s.i(-2, 2), (double)s.i(-2, 2)}; if (s.b()) for (auto& v : x) v *= std::pow(10.0, s.uni(-6, 6)); Vector3Cartesian X = mk<Vector3Cartesian, 3>(x); c.say([&](auto& o) { o << ps<3>(x); }); double R = std::sqrt(x[0] * x[0] + x[1] * x[1] + x[2] * x[2]); c.nontrivial(R > 0); DISCARD_IF(R > 0 && R < 1e-12);
	auto sp = CoordTransfCartToSpher.transf(X), sp2 = CoordTransfSpherToCart.transfInverse(X); auto cy = CoordTransfCartToCyl.transf(X); CHECK(sp[0] >= 0 && sp[1] >= 0 && sp[1] <= M_PI && sp[2] >= -M_PI && sp[2] <= M_PI, "spherical ranges " << sp); CHECK(cy[0] >= 0 && cy[1] >= -M_PI && cy[1] <= M_PI && cy[2] == x[2], "cylindrical ranges"); auto b = CoordTransfCartToSpher.transfInverse(sp); auto b2 = CoordTransfSpherToCart.transf(sp2); auto d = CoordTransfCartToCyl.transfInverse(cy); auto d2 = CoordTransfCylToCart.transf(CoordTransfCylToCart.transfInverse(X)); for (int i = 0; i < 3; i++) { NR(b[i], x[i], 1e-7 * 0 + 2e-8 * R * (std::fabs(x[0]) + std::fabs(x[1]) < 1e-4 * std::fabs(x[2])) + 1e-11 * R, "spherical round trip " << i); NR(b2[i], b[i], 1e-14 * R, "two spherical transforms disagree"); NR(d[i], x[i], 1e-14 * R, "cylindrical round trip " << i); NR(d2[i], x[i], 1e-14 * R, "cylindrical round trip " << i); } }
static J<3> rot(int ax, LD a) { J<3> m{}; int i = (ax + 1) % 3, j = (ax + 2) % 3; m[ax][ax] = 1; m[i][i] = m[j][j] = cosl(a); m[i][j] = -sinl(a); m[j][i] = sinl(a); return m; }
static J<3> mul(const J<3>& a, const J<3>& b) { J<3> m{}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) for (int k = 0; k < 3; k++) m[i][j] += a[i][k] * b[k][j]; return m; }
static J<3> tr(const J<3>& a) { J<3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = a[j][i]; return m; }
static J<3> rodr(const P<3>& ax, LD a) { LD n = sqrtl((LD)ax[0] * ax[0] + (LD)ax[1] * ax[1] + (LD)ax[2] * ax[2]); LD k[3] = {ax[0] / n, ax[1] / n, ax[2] / n}; J<3> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) m[i][j] = k[i] * k[j] * (1 - cosl(a)) + (i == j ? cosl(a) : 0); m[0][1] -= k[2] * sinl(a); m[1][0] += k[2] * sinl(a); m[0][2] += k[1] * sinl(a); m[2][0] -= k[1] * sinl(a); m[1][2] -= k[0] * sinl(a); m[2][1] += k[0] * sinl(a); return m; }
typedef Vec3Cart V3;
LAW(rotations, 700, 5000) {
	int w = (int)s.choice(8); double a = s.uni(-7, 7), b = s.uni(-7, 7), g = s.uni(-7, 7); P<3> x = pt3(s); c.say([&](auto& o) { o << "kind " << w << " angles " << fmt(a) << " " << fmt(b) << " " << fmt(g) << " point " << ps<3>(x); }); c.nontrivial(true); const double D = 1e-9;
	auto go = [&](auto& t, const J<3>& A) { check<V3, V3, 3>(s, t, x, app<3>(A, x), A, tr(A), D); };
	if (w == 0) { CoordTransfCart3DRotationXAxis t(a); go(t, rot(0, a)); } else if (w == 1) { CoordTransfCart3DRotationYAxis t(a); go(t, rot(1, a)); } else if (w == 2) { CoordTransfCart3DRotationZAxis t(a); go(t, rot(2, a)); } else if (w == 3) { CoordTransfCart3DRotationEuler t(a, b, g); go(t, mul(mul(rot(2, a), rot(1, b)), rot(2, g))); }
	else if (w == 4) { P<3> ax = pt3(s); DISCARD_IF(std::fabs(ax[0]) + std::fabs(ax[1]) + std::fabs(ax[2]) < 0.1); auto un = [](P<3> v) { double n = std::sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); for (auto& e : v) e /= n; return v; }; CoordTransfCart3DRotationQuaternion t(mk<V3, 3>(un(ax)), a); J<3> A = rodr(ax, a); go(t, A); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) { NR(t.GetTransformationMatrix()(i, j), A[i][j], 1e-14, "matrix"); NR(t.GetInverseMatrix()(i, j), A[j][i], 1e-14, "inverse matrix"); }
		P<3> bx = pt3(s); if (std::fabs(bx[0]) + std::fabs(bx[1]) + std::fabs(bx[2]) > 0.1) { CoordTransfCart3DRotationQuaternion u(mk<V3, 3>(un(bx)), b); J<3> B = rodr(bx, b); auto cm = t.Compose(u); J<3> C = mul(B, A); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NR(cm.GetTransformationMatrix()(i, j), C[i][j], 1e-13, "composition"); V3 p0 = t.Interpolate(u, 0).transf(mk<V3, 3>(x)), p1 = t.Interpolate(u, 1).transf(mk<V3, 3>(x)), pa = t.transf(mk<V3, 3>(x)), pb = u.transf(mk<V3, 3>(x)); for (int i = 0; i < 3; i++) { NR(p0[i], pa[i], 1e-12 * 8, "interpolation start"); NR(p1[i], pb[i], 1e-12 * 8, "interpolation end"); } }
		MatrixNM<Real, 3, 3> M; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = (double)A[i][j]; CoordTransfCart3DRotationQuaternion f(M); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NR(f.GetTransformationMatrix()(i, j), A[i][j], 1e-13, "from a rotation matrix"); }
	else if (w == 5) { auto t = CoordTransfCart3DRotationQuaternion::FromEulerZYX(a, b, g); go(t, mul(mul(rot(2, a), rot(1, b)), rot(0, g))); } else if (w == 6) { auto t = CoordTransfCart3DRotationQuaternion::FromEulerXYZ(a, b, g); go(t, mul(mul(rot(0, a), rot(1, b)), rot(2, g))); }
	else if (w == 7) { CoordTransfCart2DRotation t(a); J<2> A{{{cosl(a), -sinl(a)}, {sinl(a), cosl(a)}}}; check<Vector2Cartesian, Vector2Cartesian, 2>(s, t, {x[0], x[1]}, app<2>(A, {x[0], x[1]}), A, inv<2>(A), D); }
	else { double q = s.nz(0.1, 3); Quaternion Q(s.nz(0.1, 2), s.uni(-2, 2), s.uni(-2, 2), s.uni(-2, 2)); (void)q; CoordTransfCart3DRotationQuaternion t(Q); LD n = std::sqrt((LD)Q.w() * Q.w() + (LD)Q.x() * Q.x() + (LD)Q.y() * Q.y() + (LD)Q.z() * Q.z()); LD vn = std::sqrt((LD)Q.x() * Q.x() + (LD)Q.y() * Q.y() + (LD)Q.z() * Q.z()); DISCARD_IF(vn < 1e-3); (void)n; go(t, rodr({Q.x(), Q.y(), Q.z()}, 2 * std::atan2(vn, (LD)Q.w()))); } }
LAW(linear_bases, 700, 5000) {
	int w = (int)s.choice(3); P<3> x = pt3(s); J<3> A; for (auto& r : A) for (auto& v : r) v = s.b() ? (double)s.i(-3, 3) : s.uni(-2, 2); auto det = [](const J<3>& m) { return m[0][0] * (m[1][1] * m[2][2] - m[1][2] * m[2][1]) - m[0][1] * (m[1][0] * m[2][2] - m[1][2] * m[2][0]) + m[0][2] * (m[1][0] * m[2][1] - m[1][1] * m[2][0]); }; const double D = 1e-9; auto row = [](const J<3>& m, int i) { return VectorN<Real, 3>{(double)m[i][0], (double)m[i][1], (double)m[i][2]}; };
	if (w <= 1) { DISCARD_IF(fabsl(det(A)) < 0.3); } J<3> I = inv<3>(A); LD dt = det(A); c.say([&](auto& o) { o << "kind " << w << " rows"; for (auto& r : A) for (LD v : r) o << " " << fmt((double)v); o << " point " << ps<3>(x); }); c.nontrivial(true);
	if (w == 0) { MatrixNM<Real, 3, 3> M; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) M(i, j) = (double)A[i][j]; CoordTransf3DCartGeneral t(M); check<V3, V3, 3>(s, t, x, app<3>(A, x), A, I, D); CHECK(t.IsRightHanded() == (dt > 0), "handedness"); }
	else if (w == 1) { CoordTransfCartesianToOblique3D t(row(A, 0), row(A, 1), row(A, 2)); J<3> B = tr(A), Bi = inv<3>(B); check<V3, V3, 3>(s, t, x, app<3>(Bi, x), Bi, B, D); CHECK(t.IsRightHanded() == (dt > 0), "handedness"); for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) NR(ScalarProduct(t.Base(i), t.Dual(j)), i == j, 1e-12 * (1 + (double)fabsl(1 / dt)), "dual basis"); // dependent vectors are refused
		CHECK_THROWS(CoordTransfCartesianToOblique3D(row(A, 0), row(A, 1), row(A, 0)), std::exception, "dependent base accepted"); }
	else if (w == 2) { P<3> ax = {s.nz(0.2, 2), s.uni(-2, 2), s.uni(-2, 2)}; J<3> R = rodr(ax, s.uni(-3, 3)); bool unit = s.b(); LD sc[3] = {unit ? 1 : (LD)s.nz(0.3, 3), unit ? (s.b() ? 1.0L : -1.0L) : (LD)s.nz(0.3, 3), unit ? 1 : (LD)s.nz(0.3, 3)}; for (int i = 0; i < 3; i++) for (int j = 0; j < 3; j++) R[i][j] = (double)(R[i][j] * sc[i]); c.label(unit ? "orthonormal base" : "orthogonal base"); CoordTransf3DCartOrthogonal t(row(R, 0), row(R, 1), row(R, 2)); check<V3, V3, 3>(s, t, x, app<3>(R, x), R, inv<3>(R), D); CHECK(t.IsRightHanded() == (sc[0] * sc[1] * sc[2] > 0), "handedness"); CHECK_THROWS(CoordTransf3DCartOrthogonal(row(R, 0), row(R, 1), row(R, 1)), std::exception, "non-orthogonal base accepted"); }
	else { double a = s.uni(0.2, 2.9); if (s.b()) a = -a; J<2> O{{{1, cosl(a)}, {0, sinl(a)}}}, Oi = inv<2>(O); c.say([&](auto& o) { o << " oblique angle " << fmt(a); }); P<2> p{x[0], x[1]}; if (s.b()) { CoordTransfObliqueToCartesian2D t(a); check<Vector2Cartesian, Vector2Cartesian, 2>(s, t, p, app<2>(O, p), O, Oi, D); } else { CoordTransfCartesianToOblique2D t(a); check<Vector2Cartesian, Vector2Cartesian, 2>(s, t, p, app<2>(Oi, p), Oi, O, D); } CHECK_THROWS(CoordTransfObliqueToCartesian2D(M_PI * 0), std::exception, "degenerate angle accepted"); CHECK_THROWS(CoordTransfCartesianToOblique2D(0.0), std::exception, "degenerate angle accepted"); } }
// frames of reference: a forest with consistent links after any history, and exact kinematics
LAW(frame_tree, 500, 5000) {
	const int N = 6; std::vector<ReferenceFrame3D*> f(N); for (auto& p : f) p = new ReferenceFrame3D(); std::vector<int> par(N, -1); std::string hist; int n = s.size(1, 25); auto anc = [&](int a, int b) { for (int k = b; k >= 0; k = par[k]) if (k == a) return true; return false; }; struct Del { std::vector<ReferenceFrame3D*>& f; ~Del() { for (auto* p : f) delete p; } } del{f}; bool cyc = false; c.say([&](auto& o) { o << hist; });
	for (int step = 0; step < n; step++) { int op = (int)s.choice(4), a = s.i(0, N - 1), b = s.i(0, N - 1); hist += " " + std::to_string(op) + ":" + std::to_string(a) + "," + std::to_string(b);
		if (op == 0 || op == 1) { bool ok = op == 0 ? f[a]->SetParentFrame(f[b]) : f[b]->AddChildFrame(f[a]); bool exp = !anc(a, b); cyc |= !exp; CHECK(ok == exp, "making " << b << " the parent of " << a << " returned " << ok << " after" << hist); if (exp) par[a] = b; }
		else if (op == 2) { CHECK(f[a]->SetParentFrame(nullptr), "detaching fails"); par[a] = -1; }
		else if (op == 3) { bool ok = f[b]->RemoveChildFrame(f[a]); CHECK(ok == (par[a] == b), "RemoveChildFrame returned " << ok); if (ok) par[a] = -1; }
		else { delete f[a]; f[a] = new ReferenceFrame3D(); par[a] = -1; for (auto& p : par) if (p == a) p = -1; }
		for (int i = 0; i < N; i++) { CHECK(f[i]->GetParentFrame() == (par[i] < 0 ? nullptr : f[par[i]]), "parent of " << i << " wrong after" << hist); auto& ch = f[i]->GetChildFrames(); std::set<ReferenceFrame3D*> S(ch.begin(), ch.end()), E; CHECK(S.size() == ch.size(), "duplicate children after" << hist); for (int j = 0; j < N; j++) if (par[j] == i) E.insert(f[j]); CHECK(S == E, "children of " << i << " wrong after" << hist); } }
	CHECK(!f[0]->AddChildFrame(nullptr), "null child"); c.nontrivial(n > 4 && cyc); }
LAW(frames, 500, 4000) {
	P<3> p = pt3(s), v = pt3(s), o = pt3(s), ax = pt3(s); double t = s.uni(-20, 20), T = s.nz(0.3, 30), R = s.uni(0.1, 10), ph = s.uni(-4, 4); DISCARD_IF(std::fabs(ax[0]) + std::fabs(ax[1]) + std::fabs(ax[2]) < 0.05); c.say([&](auto& q) { q << "pos " << ps<3>(p) << " t " << fmt(t) << " period " << fmt(T) << " axis " << ps<3>(ax) << " R " << R; }); c.nontrivial(true); ReferenceFrame3D root; VectorN<Real, 3> P3 = mk<VectorN<Real, 3>, 3>(p);
	InertialFrame3D in(&root, mk<V3, 3>(v), mk<V3, 3>(o)); auto q = in.GetLocalPosInParentFrameAtTime(P3, t); for (int i = 0; i < 3; i++) NR(q[i], (LD)o[i] + (LD)t * v[i] + p[i], 1e-13 * 100, "inertial frame");
	CircleOrbitingFrame3DCartesian ci(&root, R, T, ph); q = ci.GetLocalPosInParentFrameAtTime(P3, t); LD an = ph + 2 * acosl(-1) * t / T; LD e[3] = {R * cosl(an) + p[0], R * sinl(an) + p[1], p[2]}; for (int i = 0; i < 3; i++) NR(q[i], e[i], 1e-12 * R * (1 + fabsl(an)) * 0.01L + 1e-14, "orbiting frame " << i); auto org = ci.GetOriginPositionAtTime(t + T); auto or0 = ci.GetOriginPositionAtTime(t); for (int i = 0; i < 3; i++) NR(org[i], or0[i], 1e-13 * R * (1 + std::fabs((double)an)), "orbit period");
	RotatingFrame3D ro(&root, T, mk<VectorN<Real, 3>, 3>(ax)); q = ro.GetLocalPosInParentFrameAtTime(P3, t); auto E = app<3>(rodr(ax, 2 * acosl(-1) * t / T), p); for (int i = 0; i < 3; i++) NR(q[i], E[i], 1e-14 * 10 * (1 + std::fabs(t / T) * 6), "rotating frame " << i);
	double lat = s.uni(-89, 89), lon = s.uni(-180, 180), h = s.uni(0, 100), rad = s.uni(10, 7000); HardSphereRotatingFrame hs(&root, rad, T, mk<VectorN<Real, 3>, 3>(ax)); q = hs.GetLocalPosInParentFrameAtTime(VectorN<Real, 3>{lat, lon, h}, t); LD la = lat * acosl(-1) / 180, lo = lon * acosl(-1) / 180; E = app<3>(rodr(ax, 2 * acosl(-1) * t / T), {(double)((rad + h) * cosl(la) * cosl(lo)), (double)((rad + h) * cosl(la) * sinl(lo)), (double)((rad + h) * sinl(la))}); for (int i = 0; i < 3; i++) NR(q[i], E[i], 1e-13 * rad * 3 * (1 + std::fabs(t / T) * 6), "latitude/longitude on the rotating sphere " << i); CHECK(root.GetChildFrames().size() == 4, "children registered"); }
