// C26 (second part): every measure, constructor and accessor of the plane shapes, against coordinates in long double
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "interfaces/IFunction.h"
#include "base/Geometry/Geometry.h"
#include "base/Geometry/Geometry2D.h"
static LD PI_ = 3.14159265358979323846264338327950288L;
#define EQ(got, want, what) do { LD w_ = (want); CHECK_NEAR(got, (double)w_, 1e-13 * std::fabs((double)w_) + 1e-300, what << " is " << fmt(got) << " instead of " << fmt((double)w_)); } while (0)
#define EQT(got, want, tol, what) do { LD w_ = (want); CHECK_NEAR(got, (double)w_, (tol), what << " is " << fmt(got) << " instead of " << fmt((double)w_)); } while (0)
LAW(circle_measures, 3000, 40000) {
	double r = s.pwide(-6, 6), an = s.uni(0.01, 6.28); LD R = r, A = an; c.say([&](auto& o) { o << "radius " << fmt(r) << " angle " << fmt(an); });
	Circle k(r); EQ(k.Radius(), R, "radius"); EQ(k.Diameter(), 2 * R, "diameter"); EQ(k.Area(), PI_ * R * R, "area"); EQ(k.Circumference(), 2 * PI_ * R, "circumference"); EQ(k.Perimeter(), 2 * PI_ * R, "perimeter");
	EQ(k.ArcLength(an), R * A, "arc length"); EQ(k.SectorArea(an), R * R * A / 2, "sector area"); EQT(k.ChordLength(an), hypotl(R * (1 - cosl(A)), R * sinl(A)), 1e-13 * r, "chord"); EQT(k.SegmentArea(an), R * R * (A - sinl(A)) / 2, 1e-14 * r * r, "segment area");
	EQ(Circle::FromArea(k.Area()).Radius(), R, "radius from area"); EQ(Circle::FromCircumference(k.Circumference()).Radius(), R, "radius from circumference"); CHECK(k.IsValid() && !Circle().IsValid() && !Circle(-r).IsValid(), "validity");
	CircularSector q(r, an); EQ(q.Radius(), R, "radius"); EQ(q.Angle(), A, "angle"); EQ(q.AngleDegrees(), A * 180 / PI_, "degrees"); EQ(q.Area(), R * R * A / 2, "sector area"); EQ(q.ArcLength(), R * A, "arc"); EQ(q.Perimeter(), 2 * R + R * A, "perimeter"); EQT(q.ChordLength(), 2 * R * sinl(A / 2), 1e-13 * r, "chord"); CHECK(q.IsValid() && !CircularSector(r, an + 6.3).IsValid() && !CircularSector(r, -an).IsValid() && !CircularSector().IsValid(), "validity");
	CircularSegment g(r, an); EQ(g.Radius(), R, "radius"); EQ(g.Angle(), A, "angle"); EQ(g.ArcLength(), R * A, "arc"); EQT(g.ChordLength(), 2 * R * sinl(A / 2), 1e-13 * r, "chord"); EQT(g.Sagitta(), R * (1 - cosl(A / 2)), 1e-14 * r, "sagitta"); EQT(g.Perimeter(), R * A + 2 * R * sinl(A / 2), 1e-13 * r, "perimeter"); EQT(g.Area(), R * R * (A - sinl(A)) / 2, 1e-14 * r * r, "area"); CHECK(g.IsValid() && !CircularSegment(r, an + 6.3).IsValid(), "validity");
	if (an > 0.2) EQT(CircularSegment::FromSagitta(r, g.Sagitta()).Angle(), A, an > 6 ? 1e-6 : 1e-12, "angle from sagitta");
	double r2 = r * s.uni(1.01, 4); LD R2 = r2; Annulus n(r, r2); EQ(n.InnerRadius(), R, "inner"); EQ(n.OuterRadius(), R2, "outer"); EQT(n.Width(), R2 - R, 1e-14 * r2, "width"); EQT(n.Area(), PI_ * (R2 - R) * (R2 + R), 1e-14 * 4 * r2 * r2, "area"); EQ(n.InnerCircumference(), 2 * PI_ * R, "inner circumference"); EQ(n.OuterCircumference(), 2 * PI_ * R2, "outer circumference"); EQ(n.MeanCircumference(), PI_ * (R + R2), "mean circumference"); EQ(n.InnerCircle().Radius(), R, "inner circle"); EQ(n.OuterCircle().Radius(), R2, "outer circle"); CHECK(n.IsValid() && !Annulus(r2, r).IsValid() && !Annulus().IsValid(), "validity");
	c.nontrivial();
}
LAW(polygon_measures, 3000, 40000) {
	int n = (int)s.i(3, 40); double a = s.pwide(-6, 6); LD S = a, R = S / (2 * sinl(PI_ / n)), r = S / (2 * tanl(PI_ / n)), area = n * S * r / 2; c.say([&](auto& o) { o << n << " sides of " << fmt(a); });
	RegularPolygon p(n, a); CHECK(p.NumSides() == n && p.IsValid() && !RegularPolygon(2, a).IsValid() && !RegularPolygon().IsValid(), "sides"); EQ(p.SideLength(), S, "side"); EQ(p.Perimeter(), n * S, "perimeter"); EQ(p.Area(), area, "area"); EQ(p.Apothem(), r, "apothem"); EQ(p.Inradius(), r, "inradius"); EQ(p.Circumradius(), R, "circumradius"); EQ(p.InscribedCircle().Radius(), r, "inscribed"); EQ(p.CircumscribedCircle().Radius(), R, "circumscribed"); EQ(p.InteriorAngle(), PI_ - 2 * PI_ / n, "interior angle"); EQ(p.ExteriorAngle(), 2 * PI_ / n, "exterior angle"); EQ(p.CentralAngle(), 2 * PI_ / n, "central angle");
	EQ(RegularPolygon::FromCircumradius(n, (double)R).SideLength(), S, "side from circumradius"); EQ(RegularPolygon::FromInradius(n, (double)r).SideLength(), S, "side from inradius"); EQ(RegularPolygon::FromArea(n, (double)area).SideLength(), S, "side from area");
	RegularPolygon nm[] = {RegularPolygon::EquilateralTriangle(a), RegularPolygon::Square(a), RegularPolygon::Pentagon(a), RegularPolygon::Hexagon(a), RegularPolygon::Heptagon(a), RegularPolygon::Octagon(a), RegularPolygon::Nonagon(a), RegularPolygon::Decagon(a), RegularPolygon::Dodecagon(a)}; int want[] = {3, 4, 5, 6, 7, 8, 9, 10, 12};
	for (int i = 0; i < 9; i++) { CHECK(nm[i].NumSides() == want[i], "named polygon with " << want[i] << " sides"); EQ(nm[i].SideLength(), S, "side"); }
	int m = (int)s.i(3, 40); p.NumSides() = m; p.SideLength() = 2 * a; EQ(p.Perimeter(), 2 * m * S, "perimeter after assignment"); EQ(p.Area(), m * 4 * S * S / (4 * tanl(PI_ / m)), "area after assignment");
	c.nontrivial();
}
LAW(quad_measures, 3000, 40000) {
	double a = s.pwide(-6, 6), b = a * s.uni(0.1, 10), an = s.uni(0.02, 3.12); LD A = a, B = b, T = an; c.say([&](auto& o) { o << fmt(a) << " " << fmt(b) << " angle " << fmt(an); });
	Rectangle r(a, b); EQ(r.Width(), A, "width"); EQ(r.Height(), B, "height"); EQ(r.Area(), A * B, "area"); EQ(r.Perimeter(), 2 * (A + B), "perimeter"); EQ(r.Diagonal(), hypotl(A, B), "diagonal"); EQ(r.AspectRatio(), A / B, "aspect"); EQ(r.InscribedCircleRadius(), std::min(A, B) / 2, "inscribed circle"); EQ(r.CircumscribedCircleRadius(), hypotl(A, B) / 2, "circumscribed circle"); CHECK(r.IsValid() && !Rectangle().IsValid() && !Rectangle(a, -b).IsValid(), "validity");
	EQ(Rectangle::Square(a).Area(), A * A, "square"); CHECK(Rectangle::Square(a).IsSquare(), "square"); if (std::fabs(a - b) > 1e-9) CHECK(!r.IsSquare(), "not square"); { Rectangle g = Rectangle::GoldenRectangle(a); EQ(g.Width() / g.Height(), (1 + sqrtl(5)) / 2, "golden ratio"); EQ(g.Width(), A, "width"); Rectangle d = Rectangle::FromDiagonalAndRatio((double)hypotl(A, B), a / b); EQ(d.Width(), A, "width from diagonal"); EQ(d.Height(), B, "height from diagonal"); }
	r.Width() = 3 * b; r.Height() = 2 * a; EQ(r.Area(), 6 * A * B, "area after assignment");
	Rhombus h(a, b); LD sd = hypotl(A, B) / 2; EQ(h.Diagonal1(), A, "diagonal"); EQ(h.Diagonal2(), B, "diagonal"); EQ(h.Side(), sd, "side"); EQ(h.Area(), A * B / 2, "area"); EQ(h.Perimeter(), 4 * sd, "perimeter"); EQ(h.Height(), A * B / 2 / sd, "height"); EQ(h.Inradius(), A * B / (4 * sd), "inradius"); EQ(h.InscribedCircle().Radius(), A * B / (4 * sd), "inscribed circle"); EQ(h.AcuteAngle(), 2 * atanl(std::min(A, B) / std::max(A, B)), "acute angle"); EQ(h.ObtuseAngle(), 2 * atanl(std::max(A, B) / std::min(A, B)), "obtuse angle"); CHECK(h.IsValid() && Rhombus(a, a).IsSquare() && !Rhombus().IsValid(), "validity");
	{ Rhombus f = Rhombus::FromSideAndDiagonal((double)sd, a); EQT(f.Diagonal2(), B, 1e-12 * (a + b) * (1 + a / b), "diagonal from side and diagonal"); EQ(f.Diagonal1(), A, "diagonal"); Rhombus g = Rhombus::FromSideAndAngle(a, an); EQ(g.Side(), A, "side from angle"); EQT(g.Area(), A * A * sinl(T), 1e-14 * a * a, "area from angle"); }
	Parallelogram p(a, b, an); EQ(p.SideA(), A, "side"); EQ(p.SideB(), B, "side"); EQ(p.Angle(), T, "angle"); EQ(p.AngleDegrees(), T * 180 / PI_, "degrees"); CHECK(Parallelogram(a, a, an).IsRhombus() && Parallelogram(a, b, Constants::PI / 2).IsRectangle() && Parallelogram(a, a, Constants::PI / 2).IsSquare(), "kinds"); if (std::fabs(an - 1.5707963) > 1e-6) CHECK(!p.IsRectangle() && !p.IsSquare(), "not a rectangle"); CHECK(p.IsValid() && !Parallelogram(a, b, 3.2).IsValid() && !Parallelogram().IsValid(), "validity");
	double hh = s.pwide(-3, 3); Trapezoid t(a, b, hh); EQ(t.ParallelSideA(), A, "side"); EQ(t.ParallelSideB(), B, "side"); EQ(t.Height(), (LD)hh, "height"); EQ(t.Area(), (A + B) / 2 * hh, "area"); EQ(t.Median(), (A + B) / 2, "median"); CHECK(t.IsValid() && Trapezoid(a, a, hh).IsParallelogram() && !Trapezoid().IsValid() && !Trapezoid(a, b, -hh).IsValid(), "validity");
	double leg = std::fabs(a - b) / 2 * s.uni(1.2, 4) + a * 0.1; EQT(Trapezoid::Isosceles(a, b, leg).Height(), sqrtl((LD)leg * leg - (A - B) * (A - B) / 4), 1e-13 * (a + b + leg), "height of the isosceles trapezoid");
	c.nontrivial();
}
LAW(ellipse_measures, 3000, 40000) {
	double a = s.pwide(-6, 6), q = s.uni(0.02, 1), b = a * q; LD A = a, B = b, C = sqrtl((A - B) * (A + B)); c.say([&](auto& o) { o << "semi-axes " << fmt(a) << " " << fmt(b); });
	Ellipse e(a, b); EQ(e.SemiMajor(), A, "semi-major"); EQ(e.SemiMinor(), B, "semi-minor"); EQ(e.MajorAxis(), 2 * A, "major axis"); EQ(e.MinorAxis(), 2 * B, "minor axis"); EQ(e.Area(), PI_ * A * B, "area"); CHECK(e.IsValid() && !Ellipse().IsValid() && Ellipse(a, a).IsCircle(), "validity"); if (q < 0.99) { if (a > 1e-6) CHECK(!e.IsCircle(), "circle"); EQT(e.Eccentricity(), C / A, 1e-12, "eccentricity"); EQT(e.LinearEccentricity(), C, 1e-12 * a, "linear eccentricity"); EQT(e.FocalDistance(), 2 * C, 1e-12 * a, "focal distance"); EQT(e.DirectrixDistance(), A * A / C, 1e-10 * (double)(A * A / C), "directrix"); Ellipse f = Ellipse::FromFoci((double)(2 * C), (double)(2 * A)); EQ(f.SemiMajor(), A, "semi-major from foci"); EQT(f.SemiMinor(), B, 1e-13 * (double)(A * A / B), "semi-minor from foci"); }
	EQ(e.SemiLatusRectum(), B * B / A, "semi-latus rectum");
	LD L = 0; int N = 400; for (int i = 0; i < N; i++) { LD t = (i + 0.5L) * PI_ / 2 / N; L += sqrtl(A * A * sinl(t) * sinl(t) + B * B * cosl(t) * cosl(t)); } L *= 2 * PI_ / N; // periodic midpoint rule: spectrally accurate
	EQT(e.Circumference(), L, (q > 0.3 ? 1e-4 : 5e-3) * a, "circumference (approximate formula)"); EQ(e.Perimeter(), (LD)e.Circumference(), "perimeter");
	e.SemiMajor() = 2 * a; e.SemiMinor() = a; EQ(e.Area(), 2 * PI_ * A * A, "area after assignment"); c.nontrivial();
}
LAW(triangle_measures, 3000, 40000) {
	double x = s.uni(-3, 3), y = s.uni(0.3, 3), w = s.uni(0.3, 3), k = s.pwide(-5, 5); LD A = hypotl((LD)x - w, y) * k, B = hypotl((LD)x, y) * k, C = (LD)w * k, area = (LD)w * y / 2 * k * k; int iso = (int)s.i(0, 3); if (iso == 0) { x = w / 2; A = B = hypotl((LD)x, y) * k; } double a = (double)A, b = (double)B, cc = (double)C; double d = 1e-11;
	c.say([&](auto& o) { o << "sides " << fmt(a) << " " << fmt(b) << " " << fmt(cc); }); Triangle t(a, b, cc); EQ(t.A(), A, "a"); EQ(t.B(), B, "b"); EQ(t.C(), C, "c"); EQ(t.Perimeter(), A + B + C, "perimeter"); EQ(t.Semiperimeter(), (A + B + C) / 2, "semiperimeter"); EQT(t.Area(), area, d * (double)(area), "area"); EQT(t.AltitudeToA(), 2 * area / A, d * (double)(2 * area / A), "altitude"); EQT(t.AltitudeToB(), 2 * area / B, d * (double)(2 * area / B), "altitude"); EQT(t.AltitudeToC(), 2 * area / C, d * (double)(2 * area / C), "altitude");
	EQT(t.MedianToC(), hypotl((LD)x - w / 2.0L, y) * k, d * a + d * b, "median"); EQT(t.MedianToA(), hypotl(((LD)x + w) / 2, y / 2.0L) * k, d * (a + b + cc), "median"); EQT(t.MedianToB(), hypotl(w - x / 2.0L, y / 2.0L) * k, d * (a + b + cc), "median"); EQT(t.Inradius(), 2 * area / (A + B + C), d * a + d * b, "inradius"); EQT(t.Circumradius(), A * B * C / (4 * area), d * (double)(A * B * C / (4 * area)), "circumradius"); EQT(Circle::Inscribed(t).Radius(), 2 * area / (A + B + C), d * (a + b), "inscribed circle"); EQT(Circle::Circumscribed(t).Radius(), A * B * C / (4 * area), d * (double)(A * B * C / (4 * area)), "circumscribed circle");
	EQT(t.AngleA(), atan2l(y, x), 1e-9, "angle A"); EQT(t.AngleB(), atan2l(y, (LD)w - x), 1e-9, "angle B"); EQT(t.AngleC(), PI_ - atan2l(y, x) - atan2l(y, (LD)w - x), 1e-9, "angle C"); LD mx = std::max({t.AngleA(), t.AngleB(), t.AngleC()}); if (fabsl(mx - PI_ / 2) > 1e-6) CHECK(t.IsAcute() == (mx < PI_ / 2) && t.IsObtuse() == (mx > PI_ / 2), "acute or obtuse with largest angle " << fmt((double)mx)); CHECK(t.IsValid() && !Triangle().IsValid() && !Triangle(a, b, (a + b) * 1.01).IsValid() && !Triangle((b + cc) * 1.01, b, cc).IsValid() && !Triangle(a, (a + cc) * 1.01, cc).IsValid(), "validity");
	if (iso == 0) CHECK(t.IsIsosceles() && !t.IsScalene(), "isosceles"); c.nontrivial();
}
