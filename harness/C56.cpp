// C56: loading CSV / TSV / JSON tables.  Oracle: the generator's own table model, written out by an independent writer.
#include "common.h"
#include "base/Vector/VectorTypes.h"
#include "tools/DataLoader.h"
#include <unistd.h>
#include <set>
#include <map>
#include <fstream>
#include <charconv>
#include <cstring>
using namespace MML;
using namespace MML::Data;
using std::string; using std::vector;

namespace {
enum Kind { KReal, KInt, KBool, KStr, KDate, KTime, KDT };
struct Cell { bool missing = true; string text; double r = 0; int i = 0; bool b = false; string s, d, t; bool quoteNeeded = false; };
struct Col { string name; Kind kind; ColumnType type; vector<Cell> cells; };
struct Table { vector<Col> cols; size_t rows = 0; };

ColumnType typeOf(Kind k) {
  switch (k) { case KReal: return ColumnType::REAL; case KInt: return ColumnType::INT; case KBool: return ColumnType::BOOL;
    case KDate: return ColumnType::DATE; case KTime: return ColumnType::TIME; case KDT: return ColumnType::DATETIME; default: return ColumnType::STRING; }
}
string word(pbt::Src& s, const char* alpha, int lo, int hi) {
  int n = (int)s.i(lo, hi); string r; size_t L = strlen(alpha);
  for (int k = 0; k < n; k++) r += alpha[s.choice(L - 1)];
  return r;
}
string mixCase(pbt::Src& s, string w) { for (auto& ch : w) if (s.b()) ch = (char)toupper(ch); return w; }
string d2(int v, bool pad) { char b[16]; snprintf(b, sizeof b, pad ? "%02d" : "%d", v); return b; }
string dateText(pbt::Src& s) { char sep = s.b() ? '-' : '/'; bool pad = !s.chance(1, 4); char y[8]; snprintf(y, sizeof y, "%04d", (int)s.i(0, 9999));
  return string(y) + sep + d2((int)s.i(1, 12), pad) + sep + d2((int)s.i(1, 31), pad); }
string timeText(pbt::Src& s, bool frac) { string t = d2((int)s.i(0, 23), s.b()) + ":" + d2((int)s.i(0, 59), true); bool sec = s.b(); if (sec) t += ":" + d2((int)s.i(0, 59), true);
  if (frac && sec && s.chance(1, 3)) t += "." + word(s, "0123456789", 1, 6); return t; }
// text that no other type can claim and that is not a missing marker
string strText(pbt::Src& s, bool rich) {
  string base = "w" + word(s, "abcdeXYZ0189_", 1, 8);
  if (!rich) return base;
  int n = (int)s.i(0, 4);
  for (int k = 0; k < n; k++) base += s.pick({string(","), string("\""), string("\t"), string(" "), string("\n"), string("; "), string("'"), string("\xC3\xA9"), string("\"\""), string("{}[]:"), string("\\")}) + word(s, "abc019", 0, 3);
  while (!base.empty() && strchr(" \t\n", base.back())) base += "z";  // surrounding white space is trimmed by the loader
  return base;
}
string intText(pbt::Src& s, int& v) {
  int k = (int)s.choice(5);
  if (k == 0) v = (int)s.pick({0, 1, -1, 2147483647, -2147483647 - 1, 1000000});
  else if (k == 1) v = (int)s.i(-2147483647LL - 1, 2147483647LL);
  else v = (int)s.i(-200, 200);
  string t = std::to_string(v);
  if (v >= 0 && s.chance(1, 6)) t = "+" + t;
  if (s.chance(1, 8)) { size_t p = (t[0] == '-' || t[0] == '+') ? 1 : 0; t.insert(p, (size_t)s.i(1, 12), '0'); }
  return t;
}
double fromText(const string& t) {
  const char* b = t.c_str(); bool neg = false; if (*b == '+') b++; else if (*b == '-') { neg = true; b++; }
  string u(b); if (u[0] == '.') u = "0" + u; double v = 0; auto r = std::from_chars(u.data(), u.data() + u.size(), v);
  if (r.ec == std::errc::result_out_of_range) v = strtod(u.c_str(), nullptr);  // underflow only (overflow is never generated)
  return neg ? -v : v;
}
string realText(pbt::Src& s, double& v, bool json) {
  int k = (int)s.choice(6); char b[64]; string t;
  if (k == 0) { snprintf(b, sizeof b, "%.17g", s.wide(-300, 300)); t = b; }
  else if (k == 1) { snprintf(b, sizeof b, "%.17g", s.real(-1000, 1000)); t = b; }
  else if (k == 2) { snprintf(b, sizeof b, "%.*f", (int)s.i(1, 8), s.real(-100, 100)); t = b; }
  else if (k == 3) { snprintf(b, sizeof b, "%.*e", (int)s.i(0, 16), s.wide(-320, 300)); t = b; if (s.b()) for (auto& ch : t) if (ch == 'e') ch = 'E'; }
  else if (k == 4) { t = std::to_string((long long)s.i(2147483648LL, 9007199254740993LL)); if (s.b()) t = "-" + t; }
  else t = json ? "0.5" : s.pick({string(".5"), string("-.25"), string("3."), string("+1.5"), string("+0.0"), string("-7.e2"), string(".5E-3"), string("00.50")});
  if (t.find_first_of(".eE") == string::npos && k != 4) t += ".0";
  v = fromText(t);
  return t;
}
string missText(pbt::Src& s) { return mixCase(s, s.pick({string(""), string("na"), string("n/a"), string("nan"), string("null"), string("none"), string("."), string("?"), string("-"), string("")})); }

Cell genCell(pbt::Src& s, Kind k, bool rich, bool json) {
  Cell c; c.missing = false;
  switch (k) {
  case KReal: c.text = realText(s, c.r, json); break;
  case KInt: { int v; c.text = intText(s, v); if (json) c.text = std::to_string(v); c.i = v; c.r = v; break; }
  case KBool: { c.b = s.b(); c.text = c.b ? s.pick({string("true"), string("yes"), string("t"), string("y")}) : s.pick({string("false"), string("no"), string("f"), string("n")}); if (json) c.text = c.b ? "true" : "false"; else c.text = mixCase(s, c.text); break; }
  case KStr: c.text = c.s = strText(s, rich); break;
  case KDate: c.text = c.d = dateText(s); break;
  case KTime: c.text = c.t = timeText(s, true); break;
  case KDT: c.d = dateText(s); c.t = timeText(s, false); c.text = c.d + (s.b() ? "T" : " ") + c.t; break;
  }
  return c;
}
Cell missCell(const string& text) { Cell c; c.text = text; return c; }

// a table with known column types: junk (<=10 % of the present values) makes cells unreadable but not the column
Table genTable(pbt::Src& s, pbt::Case& c, bool json, int maxRows) {
  Table T; T.rows = (size_t)s.size(json ? 1 : 0, maxRows); int nc = (int)s.i(1, 5); std::set<string> used;
  for (int k = 0; k < nc; k++) {
    Col col; do { col.name = "c" + word(s, "abcXY_0 ", 0, 4) + std::to_string(k); } while (!used.insert(col.name).second);
    col.kind = (Kind)s.choice(6); bool rich = s.b(); int missPct = (int)s.pick({0, 0, 20, 60, 100});
    int present = 0; bool anyReal = false;
    for (size_t r = 0; r < T.rows; r++) {
      if (s.chance(missPct, 100)) { col.cells.push_back(missCell(json ? "" : missText(s))); continue; }
      // a real column may hold plain integers as long as at least one value is not an int
      bool asInt = col.kind == KReal && present > 0 && s.chance(2, 3);
      Cell x = genCell(s, asInt ? KInt : col.kind, rich, json); if (!asInt && col.kind == KReal) anyReal = true;
      col.cells.push_back(x); present++;
    }
    (void)anyReal;
    col.type = present ? typeOf(col.kind) : ColumnType::STRING;
    if (col.kind != KStr && present >= 10 && s.chance(1, 2)) {
      // replace up to 10 % of the present values by unreadable text; keep the first present one (it fixes the type of a real column)
      int allowed = present / 10, done = 0; bool first = true;
      for (size_t r = 0; r < T.rows && done < allowed; r++) { if (col.cells[r].missing) continue; if (first) { first = false; continue; }
        if (s.chance(1, 4)) { bool txt = col.kind != KReal && col.kind != KInt; Cell j = missCell(txt ? "w" + word(s, "abz", 1, 4) : s.pick({string("12abc"), string("1.5.2"), string("x7"), string("1e"), string("3 4"), string("--1"), string("wabc")}));
          if (col.kind == KDate || col.kind == KTime || col.kind == KDT) { j.missing = false; j.d = j.t = j.s = ""; j.d = j.text; if (col.kind == KTime) j.t = j.text; }
          col.cells[r] = j; done++; } }
      if (done) c.label("unreadable minority");
    }
    T.cols.push_back(col);
  }
  return T;
}
void checkCell(const DataColumn& d, const Col& m, size_t r, const string& where) {
  const Cell& x = m.cells[r];
  CHECK(d.IsMissing(r) == x.missing, where << ": missing=" << d.IsMissing(r) << " expected " << x.missing << " (col " << m.name << " row " << r << " text '" << x.text << "' as " << ColumnTypeToString(d.type) << ")");
  string at = where + ": col " + m.name + " row " + std::to_string(r) + " text '" + x.text + "'";
  if (x.missing) {
    CHECK(d.GetAsString(r) == "NA", at << " missing value prints '" << d.GetAsString(r) << "'");
    CHECK(std::isnan(d.GetReal(r)), at << " GetReal of a missing value is " << d.GetReal(r));
    if (d.type == ColumnType::REAL) CHECK(std::isnan(d.realData[r]), at << " missing real is not NaN");
    return;
  }
  switch (d.type) {
  case ColumnType::REAL: CHECK(memcmp(&d.realData[r], &x.r, 8) == 0 || d.realData[r] == x.r, at << " read as " << fmt(d.realData[r]) << " expected " << fmt(x.r));
    CHECK(d.GetReal(r) == d.realData[r], at << " GetReal"); break;
  case ColumnType::INT: CHECK(d.intData[r] == x.i, at << " read as " << d.intData[r]); CHECK(d.GetReal(r) == (double)x.i, at << " GetReal"); CHECK(d.GetAsString(r) == std::to_string(x.i), at << " text"); break;
  case ColumnType::BOOL: CHECK(d.boolData[r] == x.b, at << " read as " << d.boolData[r]); CHECK(d.GetReal(r) == (x.b ? 1.0 : 0.0), at << " GetReal"); CHECK(d.GetAsString(r) == (x.b ? "true" : "false"), at << " text"); break;
  case ColumnType::STRING: CHECK(d.stringData[r] == x.s, at << " read as '" << d.stringData[r] << "'"); CHECK(d.GetAsString(r) == x.s, at << " text"); break;
  case ColumnType::DATE: CHECK(d.dateData[r] == x.d, at << " read as '" << d.dateData[r] << "'"); CHECK(d.GetAsString(r) == x.d, at << " text"); break;
  case ColumnType::TIME: CHECK(d.timeData[r] == x.t, at << " read as '" << d.timeData[r] << "'"); CHECK(d.GetAsString(r) == x.t, at << " text"); break;
  case ColumnType::DATETIME: CHECK(d.dateData[r] == x.d && d.timeData[r] == x.t, at << " read as '" << d.dateData[r] << "' '" << d.timeData[r] << "'"); break;
  default: pbt::fail(at + " has type Missing", "");
  }
}
void checkTable(const Dataset& D, const Table& T, const vector<string>& names, const string& where) {
  CHECK(D.NumColumns() == T.cols.size(), where << ": " << D.NumColumns() << " columns, expected " << T.cols.size());
  CHECK(D.NumRows() == T.rows, where << ": " << D.NumRows() << " rows, expected " << T.rows);
  CHECK(D.GetColumnNames() == names, where << ": column names differ");
  for (size_t k = 0; k < T.cols.size(); k++) {
    const DataColumn& d = D.columns[k]; const Col& m = T.cols[k];
    CHECK(d.type == m.type, where << ": column " << m.name << " has type " << ColumnTypeToString(d.type) << " expected " << ColumnTypeToString(m.type));
    CHECK(d.missingMask.size() == T.rows && d.Size() == T.rows, where << ": column " << m.name << " has " << d.Size() << " values");
    size_t miss = 0; for (size_t r = 0; r < T.rows; r++) { checkCell(d, m, r, where); miss += m.cells[r].missing; }
    CHECK(d.CountMissing() == miss, where << ": CountMissing " << d.CountMissing() << " expected " << miss);
  }
}
string quote(const string& t) { string q = "\""; for (char ch : t) { if (ch == '"') q += '"'; q += ch; } return q + "\""; }
// minority-text cells in DATETIME columns have no separator: model = (text, "")
struct CsvStyle { char delim; bool header, bom, crlf; int quotePct, spacePct; bool finalNl; };
CsvStyle genStyle(pbt::Src& s) { CsvStyle st; st.delim = (char)s.pick({(int)',', (int)',', (int)'\t', (int)';', (int)'|'}); st.header = !s.chance(1, 4); st.bom = s.chance(1, 4); st.crlf = s.chance(1, 3);
  st.quotePct = (int)s.pick({0, 20, 100}); st.spacePct = (int)s.pick({0, 0, 30}); st.finalNl = s.b(); return st; }
string field(pbt::Src& s, const CsvStyle& st, const string& t) {
  bool need = t.find(st.delim) != string::npos || t.find_first_of("\"\n\r") != string::npos;
  string f = need || s.chance(st.quotePct, 100) ? quote(t) : t;
  if (st.spacePct && s.chance(st.spacePct, 100)) f = string((size_t)s.i(0, 2), ' ') + f + string((size_t)s.i(0, 2), ' ');
  return f;
}
string writeCsv(pbt::Src& s, const CsvStyle& st, const Table& T) {
  string out; if (st.bom) out += "\xEF\xBB\xBF"; string nl = st.crlf ? "\r\n" : "\n"; bool first = true;
  auto line = [&](const string& l) { if (!first) out += nl; first = false; out += l; };
  if (st.header) { string l; for (size_t k = 0; k < T.cols.size(); k++) { if (k) l += st.delim; l += field(s, st, T.cols[k].name); } line(l); }
  for (size_t r = 0; r < T.rows; r++) {
    string l; for (size_t k = 0; k < T.cols.size(); k++) { if (k) l += st.delim; l += field(s, st, T.cols[k].cells[r].text); }
    if (T.cols.size() == 1 && l.find_first_not_of(" \t") == string::npos) l = "NA";   // a lone empty field is a blank line
    line(l);
    if (s.chance(1, 12)) line(st.delim == '\t' ? "" : s.pick({string(""), string("  ")}));  // blank lines carry no record
  }
  if (st.finalNl) out += nl;
  return out;
}
string tmpFile(const string& ext) { return pbt::scratchDir() + "/t." + ext; }
void spit(const string& f, const string& txt) { std::ofstream o(f, std::ios::binary); o << txt; }
string trimmed(const string& t) { size_t a = t.find_first_not_of(" \t\r\n"); if (a == string::npos) return ""; return t.substr(a, t.find_last_not_of(" \t\r\n") - a + 1); }
string show(const string& t) { string o; for (unsigned char ch : t) { if (ch == '\n') o += "\\n"; else if (ch == '\r') o += "\\r"; else if (ch == '\t') o += "\\t"; else if (ch < 32 || ch > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", ch); o += b; } else o += (char)ch; } return o.size() > 1500 ? o.substr(0, 1500) + "..." : o; }
}

LAW(csv_tables, 700, 20000) {
  Table T = genTable(s, c, false, (int)s.pick({3, 12, 40})); CsvStyle st = genStyle(s);
  if (!st.header && T.rows == 0) st.header = true;
  string txt = writeCsv(s, st, T);
  c.say([&](auto& o) { o << "delim '" << (st.delim == '\t' ? string("\\t") : string(1, st.delim)) << "' header " << st.header << " text: " << show(txt); });
  bool q = txt.find('"') != string::npos; c.nontrivial(T.rows >= 2 && T.cols.size() >= 2); if (q) c.label("quoted");
  vector<string> names; for (size_t k = 0; k < T.cols.size(); k++) names.push_back(st.header ? T.cols[k].name : "Column" + std::to_string(k));
  if (st.header) for (auto& n : names) n = trimmed(n);
  Dataset A = LoadFromCSVString(txt, st.delim, st.header); checkTable(A, T, names, "LoadFromCSVString");
  string f = tmpFile("csv"); spit(f, txt);
  Dataset B = LoadCSV(f, st.header, st.delim); checkTable(B, T, names, "LoadCSV"); CHECK(B.name == f, "dataset name " << B.name);
  auto R = LoadCSVSafe(f, st.header, st.delim); CHECK(R.success, "LoadCSVSafe failed: " << R.errorMessage); checkTable(R.data, T, names, "LoadCSVSafe");
  if (st.delim == ',') { checkTable(LoadFromString(txt, DataFormat::CSV, st.header), T, names, "LoadFromString"); checkTable(LoadData(f, st.header), T, names, "LoadData"); if (st.header) { checkTable(LoadFromString(txt, DataFormat::CSV), T, names, "LoadFromString with defaults"); checkTable(LoadData(f), T, names, "LoadData with defaults"); checkTable(LoadCSV(f), T, names, "LoadCSV with defaults"); } }
  if (st.delim == '\t') { checkTable(LoadFromString(txt, DataFormat::TSV, st.header), T, names, "LoadFromString TSV"); checkTable(LoadTSV(f, st.header), T, names, "LoadTSV"); if (st.header) { checkTable(LoadFromString(txt, DataFormat::TSV), T, names, "LoadFromString TSV with defaults"); checkTable(LoadTSV(f), T, names, "LoadTSV with defaults"); }
    string g = tmpFile(s.pick({string("tsv"), string("TAB"), string("Tsv")})); spit(g, txt); checkTable(LoadData(g, st.header), T, names, "LoadData .tsv"); ::unlink(g.c_str()); }
  // without inference everything is text
  Table U = T; for (auto& col : U.cols) { col.type = ColumnType::STRING; for (auto& x : col.cells) { x.s = trimmed(x.text); x.missing = IsMissingValue(x.s); } }
  checkTable(LoadCSV(f, st.header, st.delim, false), U, names, "LoadCSV without inference");
  ::unlink(f.c_str());
}

LAW(csv_ragged_rows, 300, 8000) {
  // rows with too few / too many fields
  int nc = (int)s.i(1, 5), nr = (int)s.i(1, 10); string txt; vector<vector<int>> v(nr); vector<int> bad; bool hdr = s.b();
  for (int k = 0; k < nc; k++) txt += (k ? ",h" : "h") + std::to_string(k);
  if (!hdr) { txt = ""; }
  for (int r = 0; r < nr; r++) { int w = s.chance(1, 3) ? (int)s.i(1, 7) : nc; if (!hdr && r == 0) w = nc; if (w != nc) bad.push_back(r + 1 + hdr);
    if (hdr || r) txt += "\n"; for (int k = 0; k < w; k++) { v[r].push_back((int)s.i(-999, 999)); txt += (k ? "," : "") + std::to_string(v[r][k]); } }
  c.say([&](auto& o) { o << show(txt); }); c.nontrivial(!bad.empty());
  string f = tmpFile("csv"); spit(f, txt); vector<string> warn; CSVLoadOptions o; o.hasHeader = hdr; o.warnings = &warn;
  Dataset D = LoadCSV(f, o); Dataset E = LoadFromCSVString(txt, ',', hdr);
  CHECK(D.NumRows() == (size_t)nr && E.NumRows() == (size_t)nr, "rows " << D.NumRows() << " " << E.NumRows());
  CHECK(D.NumColumns() == (size_t)nc && E.NumColumns() == (size_t)nc, "columns " << D.NumColumns());
  for (int k = 0; k < nc; k++) { bool any = false; for (auto& r : v) any = any || (int)r.size() > k;
    for (auto* P : {&D, &E}) { CHECK((*P)[k].type == (any ? ColumnType::INT : ColumnType::STRING), "type of column " << k);
      for (int r = 0; r < nr; r++) { bool miss = (int)v[r].size() <= k; CHECK((*P)[k].IsMissing(r) == miss, "mask " << r << "," << k); if (!miss) CHECK((*P)[k].intData[r] == v[r][k], "value " << r << "," << k); } } }
  CHECK(warn.size() == bad.size(), warn.size() << " warnings for " << bad.size() << " ragged rows");
  for (size_t i = 0; i < bad.size(); i++) CHECK(warn[i].find("Row " + std::to_string(bad[i]) + " ") != string::npos, "warning '" << warn[i] << "' should name row " << bad[i]);
  o.warnings = nullptr; o.strictSchema = true;
  if (bad.empty()) CHECK(LoadCSV(f, o).NumRows() == (size_t)nr, "strict load"); else CHECK_THROWS((LoadCSV(f, o)), DataError, "strict schema accepted a ragged row");
  ::unlink(f.c_str());
}

LAW(csv_unterminated_quote, 150, 3000) {
  string txt = "a,b\n"; int n = (int)s.i(0, 4); for (int r = 0; r < n; r++) txt += std::to_string(r) + ",w" + std::to_string(r) + "\n";
  txt += "7,\"open " + strText(s, false); int m = (int)s.i(0, 3); for (int r = 0; r < m; r++) txt += "\nx,y"; if (s.b()) txt += "\n";
  c.say([&](auto& o) { o << show(txt); }); c.nontrivial(true);
  CHECK_THROWS((LoadFromCSVString(txt)), DataError, "unterminated quoted field accepted");
  string f = tmpFile("csv"); spit(f, txt); CHECK_THROWS((LoadCSV(f)), DataError, "unterminated quoted field accepted (file)");
  auto R = LoadCSVSafe(f); CHECK(!R.success && !R.errorMessage.empty(), "LoadCSVSafe reported success"); ::unlink(f.c_str());
}

LAW(number_texts, 500, 20000) {
  // any decimal literal is read to the nearest double; ints exactly; anything else is not a number
  double v; string t; Real ro = 7; int io = 7; bool bo = false; string so; c.nontrivial(true); int k = (int)s.choice(3);
  if (k == 0) { t = realText(s, v, false); c.say([&](auto& o) { o << t; });
    CHECK(ParseValue(t, ColumnType::REAL, ro, io, bo, so) == ParseResult::Parsed && ro == v, t << " read as " << fmt(ro) << " expected " << fmt(v));
    CHECK(InferColumnType({t}) == ColumnType::REAL, t << " inferred " << ColumnTypeToString(InferColumnType({t})));
    CHECK(ParseValue(t, ColumnType::INT, ro, io, bo, so) == ParseResult::Invalid, t << " accepted as Int"); }
  else if (k == 1) { int w; t = intText(s, w); c.say([&](auto& o) { o << t; }); CHECK(ParseValue(t, ColumnType::INT, ro, io, bo, so) == ParseResult::Parsed && io == w, t << " read as " << io);
    CHECK(ParseValue(t, ColumnType::REAL, ro, io, bo, so) == ParseResult::Parsed && ro == (double)w, t << " as real " << ro); CHECK(InferColumnType({t}) == ColumnType::INT, t << " inferred wrongly"); }
  else if (k == 2) { int w; t = s.b() ? realText(s, v, false) : intText(s, w); t += s.pick({string("x"), string(" 1"), string("e"), string("-"), string("e+"), string(".."), string("f"), string(",5"), string("_"), string("%")}); c.say([&](auto& o) { o << t; });
    for (auto ty : {ColumnType::REAL, ColumnType::INT}) CHECK(ParseValue(t, ty, ro, io, bo, so) == ParseResult::Invalid, t << " accepted as a number");
    CHECK(InferColumnType({t}) == ColumnType::STRING, t << " inferred " << ColumnTypeToString(InferColumnType({t}))); }
  else { t = word(s, "0123456789+-.eE", 1, 10);  c.say([&](auto& o) { o << t; });   // random soup: own grammar
    auto gram = [&](bool real) { size_t i = 0, n = t.size(), dg = 0; if (t[0] == '+' || t[0] == '-') i++; while (i < n && isdigit(t[i])) { i++; dg++; } if (!real) return dg > 0 && i == n;
      if (i < n && t[i] == '.') { i++; while (i < n && isdigit(t[i])) { i++; dg++; } } if (!dg) return false; if (i < n && (t[i] | 32) == 'e') { i++; if (i < n && (t[i] == '+' || t[i] == '-')) i++; size_t e = 0; while (i < n && isdigit(t[i])) { i++; e++; } if (!e) return false; } return i == n; };
    if (IsMissingValue(t)) { CHECK(ParseValue(t, ColumnType::REAL, ro, io, bo, so) == ParseResult::Missing, t << " not missing"); return; }
    bool isR = gram(true), isI = gram(false); double val = isR ? strtod(t.c_str(), nullptr) : 0; bool over = isR && std::isinf(val); long double lv = isI ? strtold(t.c_str(), nullptr) : 0; bool fits = isI && lv >= -2147483648.0L && lv <= 2147483647.0L;
    auto a = ParseValue(t, ColumnType::REAL, ro, io, bo, so); CHECK((a == ParseResult::Parsed) == (isR && !over), t << " as Real: " << (int)a); if (a == ParseResult::Parsed) CHECK(ro == val, t << " read as " << fmt(ro));
    auto b = ParseValue(t, ColumnType::INT, ro, io, bo, so); CHECK((b == ParseResult::Parsed) == fits, t << " as Int: " << (int)b); if (fits) CHECK((long double)io == lv, t << " read as " << io);
    auto ty = InferColumnType({t}); CHECK(ty == (fits ? ColumnType::INT : isR ? ColumnType::REAL : ColumnType::STRING), t << " inferred " << ColumnTypeToString(ty)); }
}

// ---------------------------------------------------------------------------------------------- JSON
namespace {
void utf8(string& o, unsigned cp) { if (cp < 0x80) o += (char)cp; else if (cp < 0x800) { o += (char)(0xC0 | cp >> 6); o += (char)(0x80 | (cp & 63)); } else if (cp < 0x10000) { o += (char)(0xE0 | cp >> 12); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); } else { o += (char)(0xF0 | cp >> 18); o += (char)(0x80 | (cp >> 12 & 63)); o += (char)(0x80 | (cp >> 6 & 63)); o += (char)(0x80 | (cp & 63)); } }
string jstr(pbt::Src& s, const string& plain) {
  string o = "\""; char b[16];
  for (unsigned char ch : plain) {
    if (ch == '"') o += s.b() ? "\\\"" : "\\u0022"; else if (ch == '\\') o += "\\\\"; else if (ch == '\n') o += s.b() ? "\\n" : "\\u000A"; else if (ch == '\t') o += s.b() ? "\\t" : "\\u0009"; else if (ch == '\r') o += "\\r"; else if (ch == '\b') o += "\\b"; else if (ch == '\f') o += "\\f"; else if (ch == '/') o += s.b() ? "/" : "\\/";
    else if (ch < 128 && s.chance(1, 20)) { snprintf(b, sizeof b, s.b() ? "\\u%04x" : "\\u%04X", ch); o += b; } else o += (char)ch;
  }
  return o + "\"";
}
string ws(pbt::Src& s, int pct) { return s.chance(pct, 100) ? s.pick({string(" "), string("\n"), string("\t"), string("\r\n  ")}) : string(); }
struct JCell { int mode; };  // 0 absent, 1 null, 2 value
string jsonText(pbt::Src& s, const Table& T, vector<string>& order, vector<size_t>* cuts = nullptr) {
  int W = (int)s.pick({0, 20, 80}); string o = ws(s, W) + "["; std::set<string> seen;
  for (size_t r = 0; r < T.rows; r++) {
    if (r) o += ws(s, W) + ","; o += ws(s, W) + "{"; bool first = true;
    vector<size_t> perm(T.cols.size()); for (size_t k = 0; k < perm.size(); k++) perm[k] = k; if (s.chance(1, 3)) for (size_t k = perm.size(); k > 1; k--) std::swap(perm[k - 1], perm[s.choice(k - 1)]);
    for (size_t k : perm) { const Col& col = T.cols[k]; const Cell& x = col.cells[r]; string v;
      if (x.missing && x.text.empty()) { if (s.b()) continue; v = s.b() ? "null" : "\"\""; }
      else if (!x.missing && (col.kind == KReal || col.kind == KInt || col.kind == KBool)) v = x.text; else v = jstr(s, x.text);
      if (!first) o += ws(s, W) + ","; first = false; o += ws(s, W) + jstr(s, col.name) + ws(s, W) + ":" + ws(s, W) + v;
      if (seen.insert(col.name).second) order.push_back(col.name); }
    o += ws(s, W) + "}"; if (cuts) cuts->push_back(o.size());
  }
  return o + ws(s, W) + "]" + ws(s, W);
}
}
LAW(json_tables, 700, 20000) {
  Table T = genTable(s, c, true, (int)s.pick({3, 12, 40}));
  vector<string> order; string txt = jsonText(s, T, order); if (s.chance(1, 5)) txt = "\xEF\xBB\xBF" + txt;
  c.say([&](auto& o) { o << show(txt); }); c.nontrivial(T.rows >= 2 && order.size() >= 2);
  // columns appear in order of first occurrence; never-mentioned columns do not exist
  Table U; U.rows = T.rows; for (auto& n : order) for (auto& col : T.cols) if (col.name == n) U.cols.push_back(col);
  auto cmp = [&](const Dataset& D, const string& w) { checkTable(D, U, order, w); };
  cmp(LoadFromJSONString(txt), "LoadFromJSONString"); cmp(LoadFromString(txt, DataFormat::JSON), "LoadFromString");
  string f = tmpFile(s.pick({string("json"), string("JSON")})); spit(f, txt); cmp(LoadJSON(f), "LoadJSON"); cmp(LoadData(f), "LoadData"); auto R = LoadJSONSafe(f); CHECK(R.success, "LoadJSONSafe: " << R.errorMessage); cmp(R.data, "LoadJSONSafe"); ::unlink(f.c_str());
}

LAW(json_unicode, 300, 8000) {
  string plain, esc; int n = (int)s.i(1, 8); char b[32];
  for (int k = 0; k < n; k++) { unsigned cp; do { int m = (int)s.choice(3); cp = m == 0 ? (unsigned)s.i(0x21, 0x7e) : m == 1 ? (unsigned)s.i(0x80, 0x7ff) : m == 2 ? (unsigned)s.i(0x800, 0xffff) : (unsigned)s.i(0x10000, 0x10ffff); } while (cp >= 0xd800 && cp <= 0xdfff);
    utf8(plain, cp); if (cp < 0x10000) snprintf(b, sizeof b, s.b() ? "\\u%04x" : "\\u%04X", cp); else snprintf(b, sizeof b, "\\u%04x\\u%04X", 0xd800 + ((cp - 0x10000) >> 10), 0xdc00 + ((cp - 0x10000) & 0x3ff));
    esc += b; }
  plain = "w" + plain + "!"; string txt = "[{\"k\":\"w" + esc + "!\"}]"; c.say([&](auto& o) { o << txt; }); c.nontrivial(true);
  Dataset D = LoadFromJSONString(txt); CHECK(D[0].type == ColumnType::STRING && D[0].stringData[0] == plain, "decoded '" << show(D[0].GetAsString(0)) << "' expected '" << show(plain) << "'");
  string bad = s.pick({string("\\u12"), string("\\uZZZZ"), string("\\ud800x"), string("\\udc00"), string("\\ud800\\u0041"), string("\\u00g0")});
  CHECK_THROWS((LoadFromJSONString("[{\"k\":\"a" + bad + "\"}]")), DataError, "malformed escape " << bad << " accepted");
}

LAW(json_malformed, 500, 12000) {
  // structural damage to a well-formed document must be reported
  Table T; T.rows = (size_t)s.i(1, 4); int nc = (int)s.i(1, 3);
  for (int k = 0; k < nc; k++) { Col col; col.name = "k" + std::to_string(k); col.kind = (Kind)s.pick({(int)KReal, (int)KInt, (int)KStr, (int)KBool}); for (size_t r = 0; r < T.rows; r++) col.cells.push_back(genCell(s, col.kind, false, true)); T.cols.push_back(col); }
  vector<string> order; string txt = jsonText(s, T, order); string bad;
  // positions of structural characters (outside strings)
  vector<size_t> st; bool in = false; for (size_t i = 0; i < txt.size(); i++) { if (in) { if (txt[i] == '\\') i++; else if (txt[i] == '"') in = false; } else if (txt[i] == '"') in = true; else if (strchr("[]{},:", txt[i])) st.push_back(i); }
  int m = (int)s.choice(5); size_t p = st[s.choice(st.size() - 1)];
  if (m == 0) { bad = txt; bad.erase(p, 1); }
  else if (m == 1) { bad = txt; bad.insert(p, 1, txt[p]); }
  else if (m == 2) { bad = txt; char o; do { o = "[]{},:"[s.choice(5)]; } while (o == txt[p]); bad[p] = o; }
  else if (m == 3) { size_t end = txt.find_last_of(']'); bad = txt.substr(0, (size_t)s.choice(end)); }
  else if (m == 4) bad = txt + s.pick({string("x"), string("]"), string("{}"), string(","), string("1"), string("[]"), string("\"")});
  else { bad = txt; bad.insert(p, s.pick({string("@"), string("tru"), string("nul"), string("'"), string("-"), string("."), string("1-2"), string("}{")})); }
  c.say([&](auto& o) { o << show(bad); }); c.nontrivial(true);
  bool ok = true; try { LoadFromJSONString(bad); } catch (const DataError&) { ok = false; }
  CHECK(!ok, "malformed JSON accepted: " << show(bad));
  string f = tmpFile("json"); spit(f, bad); auto R = LoadJSONSafe(f); CHECK(!R.success && !R.errorMessage.empty(), "LoadJSONSafe reported success"); CHECK_THROWS((LoadData(f)), DataError, "LoadData accepted malformed JSON"); ::unlink(f.c_str());
}

LAW(json_odd_values, 200, 4000) {
  string v = s.pick({string("01"), string("+1"), string(".5"), string("1."), string("1e"), string("1e+"), string("--1"), string("-"), string("1-2"), string("1.2.3"), string("0x10"), string("NaN"), string("Infinity"), string("truee"), string("True"), string("nulll"), string("[1]"), string("{}"), string("'a'"), string("abc"), string(""), string("1 2"), string("\"a\" \"b\""), string("tru"), string("\"abc")});
  string txt = s.b() ? "[{\"a\":" + v + "}]" : "[{\"b\":1,\"a\":" + v + ",\"c\":true}]"; c.say([&](auto& o) { o << txt; }); c.nontrivial(true);
  bool ok = true; try { LoadFromJSONString(txt); } catch (const DataError&) { ok = false; } CHECK(!ok, "malformed value accepted: " << txt);
}

// ---------------------------------------------------------------------------------------------- Dataset
LAW(dataset_views, 400, 12000) {
  Table T = genTable(s, c, false, 25); CsvStyle st{',', true, false, false, 50, 0, true}; Dataset D = LoadFromCSVString(writeCsv(s, st, T));
  DISCARD_IF(D.NumRows() != T.rows || T.rows == 0);
  vector<string> names; for (auto& col : T.cols) names.push_back(trimmed(col.name)); c.nontrivial(T.rows >= 3);
  auto render = [&](const vector<size_t>& rows) { string o; for (size_t k = 0; k < names.size(); k++) o += (k ? "\t" : "") + names[k]; o += "\n"; for (size_t r : rows) { for (size_t k = 0; k < names.size(); k++) o += (k ? "\t" : "") + D[k].GetAsString(r); o += "\n"; } return o; };
  size_t n = (size_t)s.i(0, 30); vector<size_t> h, t; for (size_t r = 0; r < std::min(n, T.rows); r++) h.push_back(r); for (size_t r = T.rows > n ? T.rows - n : 0; r < T.rows; r++) t.push_back(r);
  c.say([&](auto& o) { o << T.rows << " rows, n=" << n; });
  CHECK(D.Head(n) == render(h), "Head(" << n << ") wrong"); CHECK(D.Tail(n) == render(t), "Tail(" << n << ") wrong");
  unsigned seed = (unsigned)s.i(0, 4294967295LL); string sm = D.Sample(n, seed); CHECK(sm == D.Sample(n, seed), "Sample is not reproducible for a fixed seed");
  // the sample is the header and min(n, rows) lines, each a distinct row
  if (std::none_of(T.cols.begin(), T.cols.end(), [](const Col& k) { return k.kind == KStr; })) {
    std::multiset<string> avail; for (size_t r = 0; r < T.rows; r++) { string l; for (size_t k = 0; k < names.size(); k++) l += (k ? "\t" : "") + D[k].GetAsString(r); avail.insert(l); }
    std::istringstream is(sm); string l; std::getline(is, l); size_t cnt = 0; while (std::getline(is, l)) { auto it = avail.find(l); CHECK(it != avail.end(), "Sample returned a row twice or one that does not exist: " << l); avail.erase(it); cnt++; }
    CHECK(cnt == std::min(n, T.rows), "Sample returned " << cnt << " rows"); }
  // filter on one column
  size_t fc = s.choice(T.cols.size() - 1); int mod = (int)s.i(1, 4); auto pred = [&](const string& x) { size_t hsh = 7; for (unsigned char ch : x) hsh = hsh * 31 + ch; return hsh % mod == 0; };
  Table F; F.cols = T.cols; for (auto& col : F.cols) col.cells.clear();
  vector<size_t> seen; for (size_t r = 0; r < T.rows; r++) if (pred(D[fc].GetAsString(r))) { F.rows++; for (size_t k = 0; k < T.cols.size(); k++) F.cols[k].cells.push_back(T.cols[k].cells[r]); }
  Dataset G = D.FilterRows(names[fc], pred); checkTable(G, F, names, "FilterRows"); checkTable(D, T, names, "source after FilterRows");
  // select columns in any order
  vector<string> pick; Table S; S.rows = T.rows; for (size_t k = 0; k < T.cols.size(); k++) if (s.b()) pick.push_back(names[k]); for (size_t k = pick.size(); k > 1; k--) std::swap(pick[k - 1], pick[s.choice(k - 1)]);
  for (auto& nm : pick) for (size_t k = 0; k < names.size(); k++) if (names[k] == nm) S.cols.push_back(T.cols[k]);
  checkTable(D.SelectColumns(pick), S, pick, "SelectColumns"); CHECK_THROWS((D.SelectColumns({"no such column"})), DataError, "SelectColumns of an unknown column");
  CHECK_THROWS((D.FilterRows("no such column", pred)), DataError, "FilterRows of an unknown column");
  // typed access
  for (size_t k = 0; k < names.size(); k++) { const Col& m = T.cols[k]; const string& nm = names[k]; CHECK(D.HasColumn(nm), "HasColumn"); CHECK(&D[nm] == &D.columns[k], "column by name");
    auto str = D.GetStringColumn(nm); CHECK(str.size() == T.rows, "GetStringColumn size"); for (size_t r = 0; r < T.rows; r++) CHECK(str[r] == D[k].GetAsString(r), "GetStringColumn row " << r);
    if (m.type == ColumnType::REAL || m.type == ColumnType::INT) { auto v = D.GetRealColumn(nm); CHECK((size_t)v.size() == T.rows, "GetRealColumn size"); for (size_t r = 0; r < T.rows; r++) { if (m.cells[r].missing) CHECK(std::isnan(v[r]), "GetRealColumn row " << r << ": missing value became " << v[r]); else CHECK(v[r] == m.cells[r].r, "GetRealColumn row " << r); } } else CHECK_THROWS((D.GetRealColumn(nm)), DataError, "GetRealColumn of a non-numeric column");
    if (m.type == ColumnType::INT) { auto v = D.GetIntColumn(nm); for (size_t r = 0; r < T.rows; r++) if (!m.cells[r].missing) CHECK(v[r] == m.cells[r].i, "GetIntColumn"); } else CHECK_THROWS((D.GetIntColumn(nm)), DataError, "GetIntColumn of another type");
    if (m.type == ColumnType::BOOL) { auto v = D.GetBoolColumn(nm); for (size_t r = 0; r < T.rows; r++) if (!m.cells[r].missing) CHECK(v[r] == m.cells[r].b, "GetBoolColumn"); } else CHECK_THROWS((D.GetBoolColumn(nm)), DataError, "GetBoolColumn of another type");
    CHECK(D[k].GetAsString(T.rows) == "" && std::isnan(D[k].GetReal(T.rows)), "access past the end"); }
  CHECK_THROWS((D[names.size()]), DataError, "column index out of range"); CHECK_THROWS((D["no such column"]), DataError, "unknown column"); CHECK(!D.HasColumn("no such column"), "HasColumn");
  // the summary reports the shape, the missing counts and the extreme values
  string sum = D.PrintSummary(); CHECK(sum.find("Shape: " + std::to_string(T.rows) + " rows x " + std::to_string(names.size()) + " columns") != string::npos, "summary shape");
  std::istringstream is(sum); string l; size_t k = 0; bool table = false; while (std::getline(is, l)) { if (l.rfind("----", 0) == 0 && !table) { table = true; continue; } if (table && k < names.size()) { size_t miss = D[k].CountMissing(); std::istringstream ls(l.substr(std::max<size_t>(20, names[k].size()))); string ty; size_t nn, mm; ls >> ty >> nn >> mm;
      CHECK(ty == ColumnTypeToString(D[k].type) && nn == T.rows - miss && mm == miss, "summary line '" << l << "' for " << miss << " missing"); k++; } }
}

LAW(files_that_do_not_exist, 20, 200) {
  string f = pbt::scratchDir() + "/none" + std::to_string(s.i(0, 999)) + s.pick({string(".csv"), string(".json"), string(".tsv"), string("")}); c.nontrivial(true); c.say([&](auto& o) { o << f; });
  CHECK_THROWS((LoadData(f)), DataError, "missing file"); CHECK_THROWS((LoadCSV(f)), DataError, "missing file"); CHECK_THROWS((LoadJSON(f)), DataError, "missing file");
  CHECK(!LoadCSVSafe(f).success && !LoadTSVSafe(f).success && !LoadJSONSafe(f).success, "Safe loader reported success"); CHECK(!LoadCSVSafe(f).errorMessage.empty(), "no message");
  string g = tmpFile("csv"); spit(g, s.pick({string(""), string("\n\n"), string("  \r\n"), string("\xEF\xBB\xBF")})); CHECK_THROWS((LoadCSV(g)), DataError, "empty file accepted"); ::unlink(g.c_str());
}

// arbitrary bytes: DataError or a consistent table; nothing else
LAW(arbitrary_bytes, 800, 30000) {
  string t; int mode = (int)s.choice(3); int n = (int)s.size(0, 200);
  if (mode == 0) for (int k = 0; k < n; k++) t += (char)s.choice(255);
  else if (mode == 1) t = word(s, "ab1,.\"\n\t;:- 0eE", 0, n);
  else if (mode == 2) { for (int k = 0; k < n / 3; k++) t += s.pick({string("["), string("]"), string("{"), string("}"), string(","), string(":"), string("\"a\""), string("\"b\\n\""), string("1"), string("-2.5e3"), string("true"), string("null"), string(" "), string("\"\\u00e9"), string("{\"a\":1}"), string("[{\"a\":1,\"b\":\"x\"}")}); }
  else { t = string((size_t)s.pick({1000, 20000, 200000}), s.b() ? '7' : 'w'); if (s.b()) t = "h\n" + t + "\n1"; if (s.b()) t = "[{\"a\":\"" + t + "\"}]"; c.label("very long field"); }
  c.say([&](auto& o) { o << show(t); }); c.nontrivial(t.size() > 3);
  auto consistent = [&](const Dataset& D, const string& w) { for (size_t k = 0; k < D.NumColumns(); k++) { CHECK(D[k].missingMask.size() == D.NumRows() && D[k].Size() == D.NumRows(), w << ": column " << k << " has " << D[k].Size() << " values for " << D.NumRows() << " rows"); for (size_t r = 0; r < D.NumRows(); r++) (void)D[k].GetAsString(r); } (void)D.Head(3); (void)D.PrintSummary(); };
  char delim = (char)s.pick({(int)',', (int)'\t', (int)';', (int)'"', (int)' '}); bool hdr = s.b();
  try { consistent(LoadFromCSVString(t, delim, hdr), "CSV"); c.label("csv accepted"); } catch (const DataError&) { c.label("csv rejected"); }
  try { consistent(LoadFromJSONString(t), "JSON"); c.label("json accepted"); } catch (const DataError&) { c.label("json rejected"); }
}
