// C57: console tables, their exports, and printed vectors, matrices and polynomials.  Oracle: an independent renderer / parser per format.
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "base/Vector/VectorN.h"
#include "base/Matrix/Matrix.h"
#include "base/Matrix/MatrixNM.h"
#include "base/Matrix/MatrixSym.h"
#include "base/Matrix/MatrixTriDiag.h"
#include "base/Matrix/MatrixBandDiag.h"
#include "base/Matrix/Matrix3D.h"
#include "base/Polynom.h"
#include "tools/ConsolePrinter.h"
#include <unistd.h>
#include <fstream>
#include <regex>
using namespace MML;
using std::string; using std::vector;

namespace {
size_t dlen(const string& t) { size_t n = 0; for (unsigned char ch : t) if ((ch & 0xC0) != 0x80) n++; return n; }
string show(const string& t) { string o; for (char ch : t) { if (ch == '\n') o += "\\n"; else if (ch == '\t') o += "\\t"; else o += ch; } return o.size() > 1500 ? o.substr(0, 1500) + "..." : o; }
string rep(const string& a, size_t n) { string o; while (n--) o += a; return o; }
string text(pbt::Src& s, int lo, int hi, bool special) {
  int n = (int)s.i(lo, hi); string o;
  for (int k = 0; k < n; k++) o += special ? s.pick({string("a"), string("Z"), string("7"), string(","), string("\""), string("|"), string("&"), string("<"), string(">"), string("%"), string("$"), string("#"), string("_"), string("{"), string("}"), string("~"), string("^"), string("\t"), string("\n"), string(";"), string("\xCF\x80"), string("\xE2\x82\xAC"), string("\\"), string("\r\n"), string("'")}) : s.pick({string("a"), string("b"), string("X"), string("0"), string("_"), string("-"), string("\xC3\xA9"), string("\xCE\xB1")});
  return o;
}
struct F { string name; int width; int prec; FormatType ft; Alignment al; };  // width -1: automatic
F genF(pbt::Src& s, bool ints) { F f; f.name = text(s, 0, 8, false); f.width = (int)s.pick({-1, -1, 0, 3, 8, 12, 25}); f.prec = (int)s.i(0, 12); f.ft = s.pick<FormatType>({FormatType::General, FormatType::Fixed, FormatType::Scientific, FormatType::Integer, ints ? FormatType::Hexadecimal : FormatType::General}); f.al = s.pick<Alignment>({Alignment::Left, Alignment::Right, Alignment::Center}); return f; }
ColumnFormat cf(const F& f) { ColumnFormat c(f.name); if (f.width < 0) c.autoWidth(); else c.width(f.width); c.precision(f.prec).format(f.ft).align(f.al); return c; }
string val(const F& f, double v) { char b[400]; const char* k = f.ft == FormatType::Fixed ? "%.*f" : f.ft == FormatType::Scientific ? "%.*e" : "%.*g"; if (f.ft == FormatType::Integer) snprintf(b, sizeof b, "%.0f", v); else snprintf(b, sizeof b, k, f.prec == 0 && f.ft == FormatType::General ? 0 : f.prec, v); return b; }
string val(const F& f, int v) { char b[40]; snprintf(b, sizeof b, f.ft == FormatType::Hexadecimal ? "%x" : "%d", v); return b; }
string val(const F&, const string& v) { return v; }
string pad(const string& t, int w, Alignment a) { int p = w - (int)dlen(t); if (p <= 0) return t; if (a == Alignment::Left) return t + string(p, ' '); if (a == Alignment::Right) return string(p, ' ') + t; return string(p / 2, ' ') + t + string(p - p / 2, ' '); }
struct Bc { string tl, tr, bl, br, h, v, lt, rt, tt, bt, x; };
Bc chars(BorderStyle b) { switch (b) { case BorderStyle::Markdown: return {"|","|","|","|","-","|","|","|","|","|","|"}; case BorderStyle::Rounded: return {"╭","╮","╰","╯","─","│","├","┤","┬","┴","┼"}; case BorderStyle::Double: return {"╔","╗","╚","╝","═","║","╠","╣","╦","╩","╬"}; case BorderStyle::Bold: return {"┏","┓","┗","┛","━","┃","┣","┫","┳","┻","╋"}; default: return {"+","+","+","+","-","|","+","+","+","+","+"}; } }
// rows[0] = header; returns the expected rendering
string render(const vector<F>& fs, const vector<vector<string>>& rows, BorderStyle bs, bool header, bool seps) {
  vector<int> w; for (size_t k = 0; k < fs.size(); k++) { int m = fs[k].width; if (m < 0) { m = (int)dlen(fs[k].name); for (size_t r = 1; r < rows.size(); r++) m = std::max(m, (int)dlen(rows[r][k])); } w.push_back(m); }
  bool B = bs != BorderStyle::None; Bc c = chars(bs); string o;
  auto hl = [&](const string& l, const string& m, const string& r) { if (!B) return; o += l; for (size_t k = 0; k < w.size(); k++) { if (k) o += m; o += rep(c.h, (size_t)w[k] + 2); } o += r + "\n"; };
  auto line = [&](const vector<string>& cells) { if (B) o += c.v + " "; for (size_t k = 0; k < cells.size(); k++) { if (k) o += B ? " " + c.v + " " : "  "; o += pad(cells[k], w[k], fs[k].al); } if (B) o += " " + c.v; o += "\n"; };
  hl(c.tl, c.tt, c.tr); if (header) { line(rows[0]); hl(c.lt, c.x, c.rt); }
  for (size_t r = 1; r < rows.size(); r++) { line(rows[r]); if (seps && r + 1 < rows.size()) hl(c.lt, c.x, c.rt); }
  hl(c.bl, c.bt, c.br);
  return o;
}
template<class V> V genV(pbt::Src& s);
template<> double genV<double>(pbt::Src& s) { int k = (int)s.choice(9); if (k == 0) return 0; if (k == 1) return s.pick<double>({std::nan(""), INFINITY, -INFINITY}); if (k < 5) return s.wide(-20, 20); return s.real(-1000, 1000); }
template<> int genV<int>(pbt::Src& s) { return (int)s.i(-100000, 100000); }
template<> string genV<string>(pbt::Src& s) { return text(s, 0, 10, false); }
template<class V> bool isInt() { return std::is_same<V, int>::value; }

template<class V> void tableLaw(pbt::Src& s, pbt::Case& c) {
  int nc = (int)s.i(0, 5), nr = (int)s.size(0, 8); vector<F> fs; for (int k = 0; k <= nc; k++) fs.push_back(genF(s, isInt<V>()));
  fs[0].ft = FormatType::General; vector<ColumnFormat> cols; for (int k = 1; k <= nc; k++) cols.push_back(cf(fs[k]));
  TablePrinter<string, V> T(cf(fs[0]), cols); vector<vector<string>> rows(1); for (auto& f : fs) rows[0].push_back(f.name);
  for (int r = 0; r < nr; r++) { string tag = text(s, 0, 6, false); vector<V> v; vector<string> cells{tag}; for (int k = 0; k < nc; k++) { v.push_back(genV<V>(s)); cells.push_back(val(fs[k + 1], v.back())); } T.addRow(tag, v); rows.push_back(cells); }
  BorderStyle bs = s.pick<BorderStyle>({BorderStyle::None, BorderStyle::Simple, BorderStyle::Markdown, BorderStyle::Rounded, BorderStyle::Double, BorderStyle::Bold}); bool hd = !s.chance(1, 4), sep = s.b();
  T.style(TableStyle().border(bs).header(hd).rowSeparators(sep)); string got = T.toString(), exp = render(fs, rows, bs, hd, sep);
  c.say([&](auto& o) { o << got; }); c.nontrivial(nc > 0 && nr > 0);
  CHECK(T.rowCount() == (size_t)nr && T.columnCount() == (size_t)nc, "rowCount/columnCount");
  CHECK(got == exp, "table rendered as\n" << got << "expected\n" << exp);
  CHECK(T.toString() == got, "printing twice differs");
  std::ostringstream os; os << std::hex << std::showbase << std::scientific; os.precision(3); os.fill('*'); os.width(0); auto fl = os.flags(); T.print(os); CHECK(os.str() == got, "print to a stream with other flags differs"); CHECK(os.flags() == fl && os.precision() == 3, "print changed the stream state");
  vector<V> wrong((size_t)nc + 1 + s.choice(2)); CHECK_THROWS((T.addRow("x", wrong)), VectorDimensionError, "addRow accepted a row of the wrong size"); CHECK(T.toString() == got, "a rejected row changed the table");
  if (s.chance(1, 10)) { string f = pbt::scratchDir() + "/t.txt"; T.printToFile(f); std::ifstream in(f); std::stringstream b; b << in.rdbuf(); CHECK(b.str() == got, "printToFile differs from toString"); ::unlink(f.c_str());
    CHECK_THROWS((T.printToFile(pbt::scratchDir() + "/no/such/dir.txt")), FileIOError, "unwritable path"); if (nr > 0 && ::access("/dev/full", W_OK) == 0) CHECK_THROWS((T.printToFile("/dev/full")), FileIOError, "full device not reported"); }
  T.clear(); CHECK(T.rowCount() == 0, "clear");
}
// ---- parsers
vector<vector<string>> parseSv(const string& t, char d) { vector<vector<string>> R; vector<string> row; string f; bool q = false; size_t i = 0; while (i < t.size()) { char ch = t[i]; if (q) { if (ch == '"') { if (i + 1 < t.size() && t[i + 1] == '"') { f += '"'; i++; } else q = false; } else f += ch; } else if (ch == '"' && f.empty()) q = true; else if (ch == d) { row.push_back(f); f.clear(); } else if (ch == '\n') { row.push_back(f); f.clear(); R.push_back(row); row.clear(); } else f += ch; i++; } CHECK(!q && f.empty() && row.empty(), "separated text ends inside a record"); return R; }
string trim(const string& t) { size_t a = t.find_first_not_of(' '); if (a == string::npos) return ""; return t.substr(a, t.find_last_not_of(' ') - a + 1); }
void replaceAll(string& t, const string& a, const string& b) { size_t p = 0; while ((p = t.find(a, p)) != string::npos) { t.replace(p, a.size(), b); p += b.size(); } }
}

LAW(console_tables, 1500, 40000) { int k = (int)s.choice(2); if (k == 0) tableLaw<double>(s, c); else if (k == 1) tableLaw<int>(s, c); else tableLaw<string>(s, c); }

LAW(table_exports, 1500, 40000) {
  int nc = (int)s.i(1, 4), nr = (int)s.size(0, 6); int fmtk = (int)s.choice(4); bool sp = !s.chance(1, 4);
  auto txt = [&](int lo) { string t = text(s, lo, 6, sp); if (fmtk == 2 || fmtk == 3) replaceAll(t, "\\", fmtk == 2 ? "" : "\\"); if (fmtk == 2) replaceAll(t, "\t", ""); if (fmtk == 3) { replaceAll(t, "\r\n", ""); replaceAll(t, "\n", ""); replaceAll(t, "\t", ""); } return t; };
  vector<string> names; for (int k = 0; k <= nc; k++) names.push_back(txt(1)); vector<vector<string>> rows{names};
  TablePrinter<string, string> T(names[0], vector<string>(names.begin() + 1, names.end())); if (s.b()) for (int k = 0; k < nc; k++) T.columnFormat(k, ColumnFormat(names[k + 1]).width((int)s.i(0, 9)));
  for (int r = 0; r < nr; r++) { vector<string> v{txt(0)}; for (int k = 0; k < nc; k++) v.push_back(txt(0)); T.addRow(v[0], vector<string>(v.begin() + 1, v.end())); rows.push_back(v); }
  ExportFormat ef = fmtk == 0 ? ExportFormat::CSV : fmtk == 1 ? ExportFormat::TSV : fmtk == 2 ? ExportFormat::Markdown : fmtk == 3 ? ExportFormat::LaTeX : ExportFormat::HTML;
  std::ostringstream os; T.exportTo(os, ef); string g = os.str(); vector<vector<string>> got; c.say([&](auto& o) { o << show(g); }); c.nontrivial(sp && nr > 0);
  if (fmtk <= 1) { got = parseSv(g, fmtk ? '\t' : ','); }
  else if (fmtk == 2) { std::istringstream is(g); string l; int ln = 0; while (std::getline(is, l)) { CHECK(l.size() >= 2 && l[0] == '|' && l.back() == '|', "markdown line without borders: " << l); vector<string> cells; string f; for (size_t i = 1; i < l.size(); i++) { if (l[i] == '\\' && i + 1 < l.size() && l[i + 1] == '|') { f += '|'; i++; } else if (l[i] == '|') { cells.push_back(trim(f)); f.clear(); } else f += l[i]; }
      CHECK((int)cells.size() == nc + 1, "markdown line has " << cells.size() << " cells: " << l); if (ln++ == 1) { for (auto& x : cells) CHECK(!x.empty() && x.find_first_not_of('-') == string::npos, "markdown rule line: " << l); continue; }
      for (auto& x : cells) replaceAll(x, "<br>", "\n"); got.push_back(cells); }
    for (auto& r : rows) for (auto& x : r) { replaceAll(x, "\r\n", "\n"); x = trim(x); } }
  else if (fmtk == 3) { CHECK(g.rfind("\\begin{tabular}{|" + rep("c|", nc + 1) + "}\n\\hline\n", 0) == 0, "LaTeX preamble"); size_t e = g.find("\\hline\n\\end{tabular}\n"); CHECK(e != string::npos, "LaTeX end"); string body = g.substr(g.find("\\hline\n") + 7); body = body.substr(0, body.rfind("\\hline\n\\end{tabular}\n")); std::istringstream is(body); string l; int hl = 0;
    while (std::getline(is, l)) { if (l == "\\hline") { hl++; CHECK(got.size() == 1, "rule not after the header"); continue; } CHECK(l.size() >= 3 && l.compare(l.size() - 3, 3, " \\\\") == 0, "LaTeX row end: " << l); l.resize(l.size() - 3); vector<string> cells; string f; for (size_t i = 0; i < l.size(); i++) { if (l[i] == '\\') { bool done = false; for (auto& [m, v] : {std::pair<string, string>{"\\textasciitilde{}", "~"}, {"\\textasciicircum{}", "^"}, {"\\textbackslash{}", "\\"}}) if (l.compare(i, m.size(), m) == 0) { f += v; i += m.size() - 1; done = true; break; } if (!done) { CHECK(i + 1 < l.size() && strchr("&%$#_{}", l[i + 1]), "unknown LaTeX escape in: " << l); f += l[++i]; } } else if (l[i] == '&') { cells.push_back(f); f.clear(); } else { CHECK(!strchr("%$#_{}~^", l[i]), "unescaped LaTeX special '" << l[i] << "' in: " << l); f += l[i]; } } cells.push_back(f);
      for (size_t k = 0; k < cells.size(); k++) { if (k) { CHECK(!cells[k].empty() && cells[k][0] == ' ', "LaTeX separator: " << l); cells[k].erase(0, 1); } if (k + 1 < cells.size()) { CHECK(!cells[k].empty() && cells[k].back() == ' ', "LaTeX separator: " << l); cells[k].pop_back(); } } got.push_back(cells); } }
  else { size_t p = 0; vector<string> row; while (true) { size_t tr = g.find("<tr>", p), td = g.find("<t", p); (void)tr; size_t a = std::min(g.find("<td>", p), g.find("<th>", p)), e = g.find("</tr>", p); (void)td; if (e == string::npos) break; if (a < e) { bool h = g[a + 2] == 'h'; CHECK(h == got.empty(), "header cell outside the header"); size_t z = g.find(h ? "</th>" : "</td>", a); CHECK(z != string::npos, "unclosed cell"); string x = g.substr(a + 4, z - a - 4); CHECK(x.find_first_of("<>\"") == string::npos, "unescaped HTML in cell " << x); replaceAll(x, "&lt;", "<"); replaceAll(x, "&gt;", ">"); replaceAll(x, "&quot;", "\""); replaceAll(x, "&#39;", "'"); replaceAll(x, "&amp;", "&"); row.push_back(x); p = z; } else { got.push_back(row); row.clear(); p = e + 5; } }
    CHECK(g.rfind("<table", 0) == 0 && g.find("</table>") != string::npos, "HTML table tags"); }
  CHECK(got.size() == rows.size(), "export has " << got.size() << " rows, expected " << rows.size() << ": " << show(g));
  for (size_t r = 0; r < rows.size(); r++) { CHECK(got[r].size() == rows[r].size(), "row " << r << " has " << got[r].size() << " cells"); for (size_t k = 0; k < rows[r].size(); k++) CHECK(got[r][k] == rows[r][k], "cell " << r << "," << k << " reads back as '" << show(got[r][k]) << "' expected '" << show(rows[r][k]) << "'"); }
  CHECK(Csv::unescape(Csv::escape(names[0])) == names[0] , "Csv::unescape(escape) of '" << show(names[0]) << "'");
  // the same text in any stream state, and in a file
  std::ostringstream o2; o2 << std::hex << std::uppercase; auto fl = o2.flags(); T.exportTo(o2, ef); CHECK(o2.str() == g && o2.flags() == fl, "export depends on the stream flags");
  if (s.chance(1, 10)) { string f = pbt::scratchDir() + "/e.txt"; T.exportToFile(f, ef); std::ifstream in(f, std::ios::binary); std::stringstream b; b << in.rdbuf(); CHECK(b.str() == g, "exportToFile differs"); ::unlink(f.c_str()); if (::access("/dev/full", W_OK) == 0) CHECK_THROWS((T.exportToFile("/dev/full", ef)), FileIOError, "full device not reported"); }
}

LAW(numeric_exports, 400, 10000) {
  // exported numbers: every format shows the same default text whatever the stream was set to
  int nc = (int)s.i(1, 3), nr = (int)s.i(1, 4); vector<string> names; for (int k = 0; k < nc; k++) names.push_back("c" + std::to_string(k)); TablePrinter<int, double> T("id", names); vector<vector<string>> rows;
  for (int r = 0; r < nr; r++) { vector<double> v; vector<string> t; int tag = (int)s.i(-99, 99); t.push_back(std::to_string(tag)); for (int k = 0; k < nc; k++) { v.push_back(genV<double>(s)); char b[40]; snprintf(b, sizeof b, "%.6g", v.back()); t.push_back(b); } T.addRow(tag, v); rows.push_back(t); }
  for (auto ef : {ExportFormat::CSV, ExportFormat::TSV}) { std::ostringstream os; os << std::hex << std::fixed; os.precision((int)s.i(0, 12)); T.exportTo(os, ef); auto got = parseSv(os.str(), ef == ExportFormat::CSV ? ',' : '\t'); c.say([&](auto& o) { o << show(os.str()); }); c.nontrivial(true);
    CHECK(got.size() == rows.size() + 1, "rows"); for (int r = 0; r < nr; r++) CHECK(got[r + 1] == rows[r], "row " << r << " exported as " << show(os.str())); }
}

LAW(vector_tables, 800, 20000) {
  int nc = (int)s.i(1, 5); vector<F> fs; vector<MML::Vector<Real>> vs; size_t L = 0; for (int k = 0; k < nc; k++) { fs.push_back(genF(s, false)); MML::Vector<Real> v((int)s.size(0, 7)); for (int i = 0; i < v.size(); i++) v[i] = genV<double>(s); vs.push_back(v); L = std::max<size_t>(L, v.size()); }
  VectorTablePrinter P; for (int k = 0; k < nc; k++) P.addVector(cf(fs[k]), vs[k]); BorderStyle bs = s.pick<BorderStyle>({BorderStyle::None, BorderStyle::Simple, BorderStyle::Rounded, BorderStyle::Double, BorderStyle::Bold}); P.style(TableStyle().border(bs));
  vector<vector<string>> rows(1); for (auto& f : fs) rows[0].push_back(f.name); for (size_t r = 0; r < L; r++) { vector<string> t; for (int k = 0; k < nc; k++) t.push_back(r < (size_t)vs[k].size() ? val(fs[k], vs[k][(int)r]) : ""); rows.push_back(t); }
  string got = P.toString(), exp = render(fs, rows, bs, true, false); c.say([&](auto& o) { o << got; }); c.nontrivial(L > 0);
  CHECK(got == exp, "vector table rendered as\n" << got << "expected\n" << exp);
}

namespace {
vector<double> numbers(const string& t) { vector<double> r; const char* p = t.c_str(); while (*p) { char* e; if (strchr("[];|, \n\t", *p)) { p++; continue; } double v = strtod(p, &e); if (e == p) { p++; continue; } r.push_back(v); p = e; } return r; }
bool shown(double v, double g, int prec, int mode) {  // mode 0 general, 1 fixed, 2 scientific
  if (std::isnan(v)) return std::isnan(g); if (std::isinf(v)) return g == v; double tol = mode == 1 ? 0.5000001 * pow(10, -prec) + 1e-15 * fabs(v) : fabs(v) * 0.5000001 * pow(10, mode == 2 ? -prec : 1 - std::max(prec, 1)) + 1e-15 * fabs(v); return fabs(v - g) <= tol; }
double pv(pbt::Src& s) { int k = (int)s.choice(9); if (k == 0) return 0; if (k == 1) return s.pick<double>({std::nan(""), INFINITY, -INFINITY}); if (k == 2) return s.wide(-12, 12); return s.real(-100, 100); }
template<class M> void matLaw(pbt::Src& s, pbt::Case& c, const M& m, const char* nm, bool fixedDefault) {
  int R = m.rows(), C = m.cols(); MatrixPrintFormat f; f.width = (int)s.i(0, 16); f.precision = (int)s.i(1, 12); f.scientific = s.chance(1, 3); f.fixed = s.b(); f.showHeader = s.b(); f.showBrackets = s.b(); f.compactMode = false; f.delimiter = s.pick({string(", "), string(" "), string("; ")}); f.zeroThreshold = s.pick({0.0, 0.0, 1e-3, 5.0});
  std::ostringstream os; auto fl = os.flags(); m.Print(os, f); string t = os.str(); c.say([&](auto& o) { o << nm << "\n" << t; }); CHECK(os.flags() == fl, nm << ": Print changed the stream flags");
  std::istringstream is(t); string l; if (f.showHeader) { std::getline(is, l); CHECK(l.find("Rows: " + std::to_string(R) + " Cols: " + std::to_string(C)) == 0, nm << ": header '" << l << "'"); }
  int mode = f.scientific ? 2 : f.fixed ? 1 : 0;
  for (int i = 0; i < R; i++) { CHECK((bool)std::getline(is, l), nm << ": only " << i << " lines"); auto v = numbers(l); CHECK((int)v.size() == C, nm << ": line " << i << " has " << v.size() << " values: " << l); for (int j = 0; j < C; j++) { double x = m(i, j); if (f.zeroThreshold > 0 && fabs(x) <= f.zeroThreshold) x = 0; CHECK(shown(x, v[j], f.precision, mode), nm << ": element " << i << "," << j << " = " << fmt(x) << " shown as " << fmt(v[j]) << " at precision " << f.precision << " mode " << mode << " threshold " << f.zeroThreshold); } if (f.showBrackets) CHECK(l[0] == '[' && l.back() == ']', nm << ": brackets: " << l); }
  CHECK(!std::getline(is, l), nm << ": extra line " << l);
  std::ostringstream o2; int p = (int)s.i(3, 12); m.Print(o2, 20, p); auto v = numbers(o2.str().substr(o2.str().find('\n'))); CHECK((int)v.size() == R * C, nm << ": Print(width, precision) shows " << v.size() << " values"); for (int i = 0; i < R; i++) for (int j = 0; j < C; j++) CHECK(shown(m(i, j), v[i * C + j], p, fixedDefault ? 1 : 0), nm << ": Print(20," << p << ") element " << i << "," << j << " = " << fmt(m(i, j)) << " shown as " << fmt(v[i * C + j]));
}
}
LAW(printed_matrices, 1000, 30000) {
  int n = (int)s.i(1, 6), k = (int)s.choice(3); c.nontrivial(n > 1);
  if (k == 0) { Matrix<Real> m((int)s.i(1, 6), (int)s.i(1, 6)); for (int i = 0; i < m.rows(); i++) for (int j = 0; j < m.cols(); j++) m(i, j) = pv(s); matLaw(s, c, m, "Matrix", false); }
  else if (k == 1) { MatrixNM<Real, 3, 4> m; for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m(i, j) = pv(s); matLaw(s, c, m, "MatrixNM", true); }
  else if (k == 2) { MatrixSym<Real> m(n); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) m(i, j) = pv(s); matLaw(s, c, m, "MatrixSym", true); }
  else { int d = (int)s.i(3, 7); MML::Vector<Real> a(d), b(d), e(d); for (int i = 0; i < d; i++) { a[i] = i ? s.real(-100, 100) : 0; b[i] = s.real(-100, 100); e[i] = i < d - 1 ? s.real(-100, 100) : 0; } const TridiagonalMatrix<Real> m(d, a, b, e); matLaw(s, c, m, "Tridiagonal", true); }
}
LAW(printed_vectors, 800, 20000) {
  int n = (int)s.size(0, 8), w = (int)s.i(0, 15), p = (int)s.i(1, 14); double th = s.pick({0.0, 0.0, 1e-3, 10.0}); MML::Vector<Real> v(n); VectorN<Real, 4> u; for (int i = 0; i < n; i++) v[i] = pv(s); for (int i = 0; i < 4; i++) u[i] = pv(s); c.nontrivial(n > 1);
  auto cmp = [&](const string& t, auto& x, int m, double thr, const char* nm) { auto g = numbers(t); CHECK((int)g.size() == m, nm << " shows " << g.size() << " of " << m << " values: " << t); for (int i = 0; i < m; i++) { double e = fabs(x[i]) <= thr ? 0 : x[i]; CHECK(shown(e, g[i], p, 0), nm << " element " << i << " = " << fmt(x[i]) << " shown as " << fmt(g[i]) << ": " << t); } };
  std::ostringstream a, b, d, e, f; v.Print(a, w, p, th); v.Print(b, w, p); u.Print(d, w, p, th); u.Print(e, w, p); v.PrintCol(f, w, p); c.say([&](auto& o) { o << a.str(); });
  cmp(a.str(), v, n, th, "Vector::Print with threshold"); cmp(b.str(), v, n, 0, "Vector::Print"); cmp(v.to_string(w, p), v, n, 0, "Vector::to_string"); cmp(d.str(), u, 4, th, "VectorN::Print with threshold"); cmp(e.str(), u, 4, 0, "VectorN::Print"); cmp(f.str(), v, n, 0, "PrintCol");
  CHECK(a.str().front() == '[' && a.str().back() == ']', "brackets"); string ft = f.str(); CHECK(std::count(ft.begin(), ft.end(), '\n') == n, "PrintCol lines");
}
LAW(printed_polynomials, 800, 20000) {
  int deg = (int)s.i(0, 7), p = (int)s.i(0, 10); vector<Real> co; for (int i = 0; i <= deg; i++) co.push_back(s.chance(1, 4) ? 0.0 : s.chance(1, 4) ? s.pick({1.0, -1.0}) : s.chance(1, 2) ? s.real(-100, 100) : s.wide(-3, 6)); PolynomReal P(co); std::ostringstream os; auto fl = os.flags(); P.Print(os, 10, p); string t = os.str(); CHECK(os.flags() == fl, "flags changed"); c.say([&](auto& o) { o << t; }); c.nontrivial(deg > 0);
  string u; for (char ch : t) if (ch != ' ') u += ch; vector<double> g(deg + 1, 0.0); int last = deg + 1; size_t i = 0; if (u == "0" || (u.find_first_not_of("0.") == string::npos)) i = u.size();
  while (i < u.size()) { int sg = 1; if (u[i] == '+') i++; else if (u[i] == '-') { sg = -1; i++; } size_t j = i; while (j < u.size() && (isdigit(u[j]) || u[j] == '.')) j++; double v = j > i ? strtod(u.substr(i, j - i).c_str(), nullptr) : 1.0; bool coef = j > i; i = j; int e = 0; if (i < u.size() && u[i] == 'x') { i++; e = 1; if (i < u.size() && u[i] == '^') { i++; size_t k = i; while (k < u.size() && isdigit(u[k])) k++; e = atoi(u.substr(i, k - i).c_str()); i = k; } } else CHECK(coef, "cannot read '" << t << "'"); CHECK(e >= 0 && e < last, "powers not descending in '" << t << "'"); last = e; g[e] = sg * v; CHECK(i == u.size() || u[i] == '+' || u[i] == '-', "cannot read '" << t << "' at " << i); }
  for (int k = 0; k <= deg; k++) CHECK(shown(fabs(co[k]) < 1e-12 ? 0 : co[k], g[k], p, 1), "coefficient of x^" << k << " = " << fmt(co[k]) << " shown as " << fmt(g[k]) << " in '" << t << "'");
  // a printed polynomial of exactly representable decimals evaluates the same
  CHECK(numbers("[" + P.to_string(10, p) + "]").size() >= (co == vector<Real>(co.size(), 0.0) ? 0u : 0u), "to_string");
}
LAW(printed_matrix3d, 200, 4000) {
  int a = (int)s.i(1, 3), b = (int)s.i(1, 3), d = (int)s.i(1, 3), p = (int)s.i(1, 8); Matrix3D<Real> m(a, b, d); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < d; k++) m(i, j, k) = s.real(-100, 100); string t = m.ToStringFull(p); c.say([&](auto& o) { o << t; }); c.nontrivial(a * b * d > 1);
  std::istringstream is(t); string l; vector<double> g; int sl = 0; while (std::getline(is, l)) { if (l.rfind("Slice", 0) == 0) { CHECK(l == "Slice " + std::to_string(sl) + ":", "slice header " << l); sl++; } else if (l.find("Matrix3D") == string::npos) { auto v = numbers(l); CHECK((int)v.size() == d, "row " << l); g.insert(g.end(), v.begin(), v.end()); } }
  CHECK(sl == a && (int)g.size() == a * b * d, "shape"); for (int i = 0; i < a; i++) for (int j = 0; j < b; j++) for (int k = 0; k < d; k++) CHECK(shown(m(i, j, k), g[(i * b + j) * d + k], p, 1), "element " << i << j << k);
}
