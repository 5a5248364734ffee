#include "formats.h"
#include <array>
#include <cctype>
#include <set>
namespace sim {
namespace {
std::string Fmt(const char *f, double v) {
  char b[512];
  snprintf(b, sizeof b, f, v);
  return b;
}
// number rendering styles understood by every reader of the library
std::string Num(double v, int style, char e = 'E') {
  int form = (style & kPlainLayout) % 3;
  std::string t = Fmt(form == 0 ? "%.17g" : form == 1 ? "%.12f" : "%.16e", v);
  if (style & 128) for (char &c : t) if (c == 'e') c = e;  // IGES: double precision exponent
  if ((style & 256) && t.find_first_of("eED") == std::string::npos) {  // no needless zeros: .5 and 1.
    size_t p = t.find('.');
    if (p != std::string::npos) {
      while (t.back() == '0') t.pop_back();
      size_t a = t[0] == '-' ? 1 : 0;
      if (p == a + 1 && t[a] == '0' && p + 1 < t.size()) t.erase(a, 1);
    }
  }
  if ((style & 64) && t[0] != '-') t = "+" + t;
  return t;
}
std::string RPad(const std::string &s, size_t w) { return s.size() >= w ? s : s + std::string(w - s.size(), ' '); }
std::string LPad(const std::string &s, size_t w) { return s.size() >= w ? s : std::string(w - s.size(), ' ') + s; }

std::string EmitIges(const std::vector<MSpline> &splines, int style) {
  std::string S, G, D, P;
  int ns = 0, ng = 0, nd = 0, np = 0;
  S = RPad("written by the simulator", 72) + "S" + LPad(std::to_string(++ns), 7) + "\n";
  if (style & 4096) {  // more lines to start with
    S += RPad("", 72) + "S" + LPad(std::to_string(++ns), 7) + "\n";
    S += RPad("     126       1D P T 128,1,2;", 72) + "S" + LPad(std::to_string(++ns), 7) + "\n";
  }
  std::string g = "1H,,1H;,4Htest,8Htest.igs,3Hsim,3H1.0,32,38,6,308,15,4Htest,1.0,2,2HMM,1,0.01,15H20200101.000000,1E-06,10.0,3Hsim,3Hsim,11,0,15H20200101.000000;";
  for (size_t i = 0; i < g.size(); i += 72) G += RPad(g.substr(i, 72), 72) + "G" + LPad(std::to_string(++ng), 7) + "\n";
  auto entity = [&](int type, const std::string &data, int dnum) {
    int first = np + 1;
    std::string D;
    nd = dnum - 1;
    size_t pos = 0;
    while (pos < data.size()) {
      size_t len = std::min<size_t>(64, data.size() - pos);
      if ((style & 8) && pos + len < data.size()) {  // break lines after a delimiter
        size_t c = data.rfind(',', pos + len - 1);
        if (c != std::string::npos && c >= pos) len = c - pos + 1;
      }
      P += RPad(data.substr(pos, len), 64) + " " + LPad(std::to_string(dnum), 7) + "P" + LPad(std::to_string(++np), 7) + "\n";
      pos += len;
    }
    std::string l1 = LPad(std::to_string(type), 8) + LPad(std::to_string(first), 8);
    for (int i = 0; i < 6; ++i) l1 += LPad("0", 8);
    l1 += " 0 0 0 1";
    std::string l2 = LPad(std::to_string(type), 8) + LPad("0", 8) + LPad("0", 8) + LPad(std::to_string(np - first + 1), 8) + LPad("0", 8) +
                     std::string(16, ' ') + LPad("SPLINE", 8) + LPad("0", 8);
    D += RPad(l1, 72) + "D" + LPad(std::to_string(++nd), 7) + "\n";
    D += RPad(l2, 72) + "D" + LPad(std::to_string(++nd), 7) + "\n";
    return D;
  };
  std::vector<std::pair<int, std::string>> all;
  for (auto &s0 : splines) {
    MSpline s = To3D(s0);
    if (style & 16) all.emplace_back(110, "110,0.0,0.0,0.0,1.0,2.0,3.0;");  // an entity that is no spline
    std::string d = s.dim == 1 ? "126," : "128,";
    for (int i = 0; i < s.dim; ++i) d += std::to_string(s.N(i) - 1) + ",";
    for (int i = 0; i < s.dim; ++i) d += std::to_string(s.deg[i]) + ",";
    d += "0,0,";
    d += s.rat ? "0," : "1,";
    d += "0,";
    if (s.dim == 2) d += "0,";
    for (auto &k : s.knots) for (double v : k) d += Num(v, style, 'D') + ",";
    for (int i = 0; i < s.Total(); ++i) d += Num(s.rat ? s.w[i] : 1.0, style, 'D') + ",";
    for (size_t i = 0; i < s.cp.size(); ++i) d += Num(s.cp[i], style, 'D') + ",";
    if (style & 32) {  // parameter range as the standard asks for
      for (int i = 0; i < s.dim; ++i) d += Num(s.Lo(i), style, 'D') + "," + Num(s.Hi(i), style, 'D') + ",";
    }
    d[d.size() - 1] = ';';
    if (style & 1024) {  // blanks in front of the numbers
      std::string t;
      for (size_t i = 0; i < d.size(); ++i) { t += d[i]; if (d[i] == ',' && i % 3) t += i % 2 ? " " : "  "; }
      d = t;
    }
    all.emplace_back(s.dim == 1 ? 126 : 128, d);
  }
  // the directory is in order, the parameter data of the entities may come in another one
  std::vector<std::string> dir(all.size());
  for (size_t i = 0; i < all.size(); ++i) {
    size_t k = (style & 2048) ? all.size() - 1 - i : i;
    dir[k] = entity(all[k].first, all[k].second, static_cast<int>(2 * k + 1));
  }
  nd = static_cast<int>(2 * all.size());
  for (auto &d : dir) D += d;
  std::string T = "S" + LPad(std::to_string(ns), 7) + "G" + LPad(std::to_string(ng), 7) + "D" + LPad(std::to_string(nd), 7) + "P" + LPad(std::to_string(np), 7);
  return S + G + D + P + RPad(T, 72) + "T" + LPad("1", 7) + "\n";
}

std::string EmitIrit(const std::vector<MSpline> &splines, int style) {
  std::string o = "[OBJECT SPLINES\n";
  int n = 0;
  for (auto &s : splines) {
    if (style & 2048) o += "  [OBJECT POINT" + std::to_string(n + 1) + "\n    [POINT 1.5 2.5 3.5]\n  ]\n";  // no spline
    o += std::string("  [OBJECT ") + ((style & 1024) ? "[COLOR 4] [WIDTH 0.02] " : "") + "SPLINE" + std::to_string(++n) + "\n    ";
    o += s.dim == 1 ? "[CURVE BSPLINE " : s.dim == 2 ? "[SURFACE BSPLINE " : "[TRIVAR BSPLINE ";
    for (int d = 0; d < s.dim; ++d) o += std::to_string(s.N(d)) + " ";
    for (int d = 0; d < s.dim; ++d) o += std::to_string(s.deg[d] + 1) + " ";
    o += (s.rat ? "P" : "E") + std::to_string(s.pd) + "\n";
    for (auto &k : s.knots) {
      o += "      [KV ";
      for (size_t i = 0; i < k.size(); ++i) o += Num(k[i], style) + (i + 1 < k.size() ? ((style & 8) && i % 5 == 4 ? " \n        " : " ") : "]\n");
    }
    for (int i = 0; i < s.Total(); ++i) {
      o += "      [";
      if (s.rat) o += Num(s.w[i], style) + " ";
      for (int c = 0; c < s.pd; ++c) o += Num(s.cp[i * s.pd + c] * (s.rat ? s.w[i] : 1.0), style) + (c + 1 < s.pd ? " " : "]\n");
    }
    o += "    ]\n  ]\n";
  }
  return o + "]" + ((style & 16) ? "\n" : "");
}

std::string EmitXml(const std::vector<MSpline> &splines, int style) {
  std::string o = (style & 4096) ? "" : "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"no\" ?>\n";
  if (style & 1024) o += "<!-- splines: <SplineEntry> [CURVE BSPLINE -->\n";
  o += "<SplineList NumberOfSplines=\"" + std::to_string(splines.size()) + "\">\n";
  const char *sep = (style & 2048) ? " " : "\n        ";
  static const char *extra_names[] = {"rho", "flux", "dx", "xi", "y0", "X", "z", "max"};
  static const char *names[] = {"x", "y", "z", "t", "a", "b"};
  for (auto &s : splines) {
    // further control point variables in front of and behind the coordinates
    int extra = (style & 8) ? 1 + ((style >> 13) & 1) : 0;
    int behind = (style & 8) && (style & 32768) ? 1 : 0;
    std::vector<std::string> attr = {"splDim=\"" + std::to_string(s.dim) + "\"", "spaceDim=\"" + std::to_string(s.pd) + "\"",
                                     "numOfCntrlPntVars=\"" + std::to_string(s.pd + extra + behind) + "\"", "numCntrlPnts=\"" + std::to_string(s.Total()) + "\""};
    if (style & 512) { std::swap(attr[0], attr[3]); attr.insert(attr.begin() + 1, "numOfEleVars=\"0\""); attr.push_back("closed=\"1\""); }
    o += "  <SplineEntry";
    for (auto &a : attr) o += " " + a;
    o += ">\n";
    std::vector<std::string> part;
    std::string t = "    <cntrlPntVarNames>\n      ";
    for (int c = 0; c < extra; ++c) t += std::string(extra_names[((style >> 13) + c) & 7]) + " ";
    for (int c = 0; c < s.pd; ++c) t += std::string(names[c]) + (c + 1 < s.pd ? " " : "");
    if (behind) t += " p";
    part.push_back(t + "\n    </cntrlPntVarNames>\n");
    t = "    <cntrlPntVars>\n";
    for (int i = 0; i < s.Total(); ++i) {
      t += "      ";
      for (int c = 0; c < extra; ++c) t += Num(7.5 + i + 100 * c, style) + " ";
      for (int c = 0; c < s.pd; ++c) t += Num(s.cp[i * s.pd + c], style) + ((style & 16) ? " " : "  ");
      if (behind) t += Num(-3.25 - i, style);
      t += "\n";
    }
    part.push_back(t + "    </cntrlPntVars>\n");
    if (s.rat) {
      t = "    <wght>\n";
      for (int i = 0; i < s.Total(); ++i) t += "      " + Num(s.w[i], style) + ((style & 16) && i % 3 != 2 && i + 1 < s.Total() ? " " : "\n");
      part.push_back(t + "    </wght>\n");
    }
    t = "    <deg>";
    for (int d = 0; d < s.dim; ++d) t += (d || !(style & 2048) ? sep : "") + std::to_string(s.deg[d]);
    part.push_back(t + ((style & 2048) ? "" : "\n    ") + "</deg>\n");
    t = "    <kntVecs>\n";
    for (auto &k : s.knots) {
      t += "      <kntVec>";
      for (size_t i = 0; i < k.size(); ++i) t += (i || !(style & 2048) ? sep : "") + Num(k[i], style);
      t += ((style & 2048) ? "" : "\n      ") + std::string("</kntVec>\n");
    }
    part.push_back(t + "    </kntVecs>\n");
    if (style & 512) std::reverse(part.begin(), part.end());
    if (style & 1024) part.insert(part.begin() + 2, "    <!-- <deg> 7 </deg> -->\n");
    for (auto &x : part) o += x;
    o += "  </SplineEntry>\n";
  }
  return o + "</SplineList>\n";
}

bool ToNum(std::string t, double *v) {
  if (t.empty()) return false;
  for (char &c : t) if (c == 'D' || c == 'd') c = 'e';
  char *e;
  *v = strtod(t.c_str(), &e);
  return *e == 0;
}
bool ToInt(const std::string &t0, long *v) {
  size_t a = t0.find_first_not_of(' ');
  if (a == std::string::npos) return false;
  std::string t = t0.substr(a);
  while (!t.empty() && t.back() == ' ') t.pop_back();
  char *e;
  *v = strtol(t.c_str(), &e, 10);
  return *e == 0;
}
std::vector<std::string> Words(const std::string &s) {
  std::vector<std::string> r;
  std::stringstream ss(s);
  std::string w;
  while (ss >> w) r.push_back(w);
  return r;
}
}  // namespace

std::string Emit(const std::string &fmt, const std::vector<MSpline> &s, int style) {
  std::string t = fmt == "iges" ? EmitIges(s, style) : fmt == "itd" ? EmitIrit(s, style) : EmitXml(s, style);
  if ((style & 65536) && fmt != "itd") {  // lines that end in carriage return and line feed
    std::string u;
    for (char c : t) { if (c == '\n') u += '\r'; u += c; }
    t = u;
  }
  return t;
}

// The parameters of a global section
std::string IgesGlobal(const std::string &g, std::vector<std::string> *out) {
  static const std::set<size_t> text = {0, 1, 2, 3, 4, 5, 11, 14, 17, 20, 21, 24, 25};
  size_t p = 0;
  bool end = false;
  while (!end) {
    while (p < g.size() && g[p] == ' ') ++p;
    size_t n = 0, q = p;
    while (q < g.size() && isdigit(static_cast<unsigned char>(g[q]))) n = n * 10 + static_cast<size_t>(g[q++] - '0');
    std::string f;
    bool string = q > p && q < g.size() && g[q] == 'H' && n <= g.size();
    if (string) {
      if (q + 1 + n > g.size()) return "text in the global section is cut";
      f = g.substr(p, q + 1 + n - p);
      p = q + 1 + n;
      while (p < g.size() && g[p] == ' ') ++p;
      if (p >= g.size() || (g[p] != ',' && g[p] != ';')) return "text in the global section is not delimited";
    } else {
      q = g.find_first_of(",;", p);
      if (q == std::string::npos) return "global section is not terminated";
      f = g.substr(p, q - p);
      p = q;
      while (!f.empty() && f.back() == ' ') f.pop_back();
    }
    size_t i = out->size();
    double x;
    if (!f.empty() && string != (text.count(i) > 0)) return "parameter " + std::to_string(i + 1) + " of the global section is " + f;
    if (!string && !f.empty() && !ToNum(f, &x)) return "bad number " + f + " in the global section";
    out->push_back(f);
    end = g[p++] == ';';
  }
  if (g.find_first_not_of(' ', p) != std::string::npos) return "data behind the end of the global section";
  if (out->size() < 18 || out->size() > 26) return "global section has " + std::to_string(out->size()) + " parameters";
  return "";
}

std::string ParseIges(const std::string &b, std::vector<MSpline> *out, std::string *global) {
  std::map<char, std::vector<std::string>> sec;
  std::string order = "SGDPT";
  size_t at = 0, pos = 0;
  int lineno = 0;
  while (pos < b.size()) {
    size_t e = b.find('\n', pos);
    if (e == std::string::npos) return "last line is not terminated";
    std::string l = b.substr(pos, e - pos);
    pos = e + 1;
    ++lineno;
    if (l.size() != 80) return "line " + std::to_string(lineno) + " has " + std::to_string(l.size()) + " columns";
    char c = l[72];
    size_t o = order.find(c);
    if (o == std::string::npos) return std::string("unknown section ") + c;
    if (o < at) return "sections out of order";
    at = o;
    long seq;
    if (!ToInt(l.substr(73), &seq) || seq != static_cast<long>(sec[c].size()) + 1) return std::string("bad sequence number in section ") + c;
    sec[c].push_back(l.substr(0, 72));
  }
  if (sec['T'].size() != 1) return "no terminate section";
  for (int i = 0; i < 4; ++i) {
    long n;
    std::string t = sec['T'][0].substr(static_cast<size_t>(i) * 8, 8);
    if (t[0] != order[i] || !ToInt(t.substr(1), &n) || n != static_cast<long>(sec[order[i]].size())) return "terminate section does not match the sections";
  }
  if (sec['S'].empty() || sec['G'].empty()) return "no start or global section";
  std::string all;
  for (auto &g : sec['G']) all += g;
  if (global) *global += all;
  std::vector<std::string> field;
  std::string ge = IgesGlobal(all, &field);
  if (!ge.empty()) return ge;
  auto &D = sec['D'];
  auto &P = sec['P'];
  if (D.size() % 2) return "odd number of directory lines";
  long nextp = 1;
  for (size_t i = 0; i + 1 < D.size(); i += 2) {
    long type, first, count, type2;
    if (!ToInt(D[i].substr(0, 8), &type) || !ToInt(D[i].substr(8, 8), &first) || !ToInt(D[i + 1].substr(24, 8), &count) || !ToInt(D[i + 1].substr(0, 8), &type2))
      return "bad directory entry";
    if (type != type2) return "entity types differ in a directory entry";
    if (first != nextp || count < 1 || first + count - 1 > static_cast<long>(P.size())) return "bad parameter pointer";
    nextp += count;
    std::string data;
    for (long k = first - 1; k < first - 1 + count; ++k) {
      long back;
      if (!ToInt(P[k].substr(65, 7), &back) || back != static_cast<long>(i) + 1) return "bad back pointer in parameter section";
      data += P[k].substr(0, 64);
    }
    if (type != 126 && type != 128) continue;
    size_t end = data.find(';');
    if (end == std::string::npos) return "parameter data is not terminated";
    if (data.find_first_not_of(' ', end + 1) != std::string::npos) return "data behind the end of an entity";
    data = data.substr(0, end);
    std::vector<double> v;
    std::stringstream ss(data);
    std::string tok;
    while (std::getline(ss, tok, ',')) {
      size_t a = tok.find_first_not_of(' ');
      if (a == std::string::npos) return "empty parameter";
      tok = tok.substr(a);
      while (!tok.empty() && tok.back() == ' ') tok.pop_back();
      double x;
      if (!ToNum(tok, &x)) return "bad number " + tok;
      v.push_back(x);
    }
    MSpline s;
    s.dim = type == 126 ? 1 : 2;
    s.pd = 3;
    size_t q = 0;
    auto get = [&](double *x) { if (q >= v.size()) return false; *x = v[q++]; return true; };
    double x;
    if (!get(&x) || x != type) return "entity type missing in parameter data";
    std::vector<int> n(s.dim);
    for (auto &m : n) { if (!get(&x) || x < 0 || x > 1e6) return "bad count"; m = static_cast<int>(x) + 1; }
    for (int d = 0; d < s.dim; ++d) { if (!get(&x) || x < 0 || x > 100) return "bad degree"; s.deg.push_back(static_cast<int>(x)); }
    double prop[5] = {0, 0, 0, 0, 0};
    for (int k = 0; k < (s.dim == 1 ? 4 : 5); ++k) if (!get(&prop[k])) return "missing property";
    s.rat = prop[2] == 0;
    for (int d = 0; d < s.dim; ++d) {
      s.knots.emplace_back();
      for (int k = 0; k < n[d] + s.deg[d] + 1; ++k) { if (!get(&x)) return "missing knots"; s.knots[d].push_back(x); }
    }
    int tot = s.Total();
    for (int k = 0; k < tot; ++k) {
      if (!get(&x)) return "missing weights";
      if (s.rat) s.w.push_back(x);
      else if (x != 1) return "polynomial spline with weight " + Fmt("%g", x);
    }
    for (int k = 0; k < 3 * tot; ++k) { if (!get(&x)) return "missing control points"; s.cp.push_back(x); }
    size_t rest = v.size() - q;
    if (rest != 0 && rest != static_cast<size_t>(2 * s.dim) && rest != static_cast<size_t>(2 * s.dim) + 3) return "surplus parameters";
    out->push_back(s);
  }
  if (nextp != static_cast<long>(P.size()) + 1) return "parameter lines without an entity";
  return "";
}

namespace {
struct Obj {  // IRIT: nested brackets
  std::vector<std::string> words;
  std::vector<Obj> sub;
};
bool ParseObj(const std::string &b, size_t *p, Obj *o, int depth) {
  if (depth > 50) return false;
  std::string w;
  auto flush = [&]() { if (!w.empty()) { o->words.push_back(w); w.clear(); } };
  while (*p < b.size()) {
    char c = b[(*p)++];
    if (c == '[') {
      flush();
      o->sub.emplace_back();
      if (!ParseObj(b, p, &o->sub.back(), depth + 1)) return false;
    } else if (c == ']') {
      flush();
      return true;
    } else if (isspace(static_cast<unsigned char>(c))) {
      flush();
    } else {
      w += c;
    }
  }
  return false;
}
}  // namespace

std::string ParseIrit(const std::string &b, std::vector<MSpline> *out) {
  size_t p = b.find_first_not_of(" \n\t");
  if (p == std::string::npos || b[p] != '[') return "no object";
  ++p;
  Obj top;
  if (!ParseObj(b, &p, &top, 0)) return "brackets do not match";
  if (b.find_first_not_of(" \n\t", p) != std::string::npos) return "text behind the last object";
  if (top.words.size() != 2 || top.words[0] != "OBJECT") return "bad outer object";
  int index = 0;
  for (auto &o : top.sub) {
    ++index;
    if (o.words.size() != 2 || o.words[0] != "OBJECT" || o.sub.size() != 1) return "bad spline object";
    if (o.words[1] != "SPLINE" + std::to_string(index)) return "bad name of spline object " + o.words[1];
    Obj &c = o.sub[0];
    MSpline s;
    if (c.words.size() < 2 || c.words[1] != "BSPLINE") return "no BSPLINE";
    s.dim = c.words[0] == "CURVE" ? 1 : c.words[0] == "SURFACE" ? 2 : c.words[0] == "TRIVAR" ? 3 : 0;
    if (!s.dim) return "unknown kind " + c.words[0];
    if (static_cast<int>(c.words.size()) != 3 + 2 * s.dim) return "bad header";
    std::vector<long> n(s.dim);
    long total = 1;
    for (int d = 0; d < s.dim; ++d) {
      if (!ToInt(c.words[2 + d], &n[d]) || n[d] < 1 || n[d] > 1000000) return "bad number of points";
      total *= n[d];
    }
    for (int d = 0; d < s.dim; ++d) {
      long ord;
      if (!ToInt(c.words[2 + s.dim + d], &ord) || ord < 1) return "bad order";
      s.deg.push_back(static_cast<int>(ord) - 1);
    }
    std::string pt = c.words[2 + 2 * s.dim];
    s.rat = pt[0] == 'P';
    if (pt[0] != 'P' && pt[0] != 'E') return "bad point type";
    s.pd = atoi(pt.c_str() + 1);
    if (s.pd < 1 || s.pd > 100) return "bad point type";
    if (static_cast<long>(c.sub.size()) != s.dim + total) return "number of knot vectors and points does not match";
    for (int d = 0; d < s.dim; ++d) {
      if (c.sub[d].words.empty() || c.sub[d].words[0] != "KV") return "no knot vector";
      s.knots.emplace_back();
      for (size_t i = 1; i < c.sub[d].words.size(); ++i) {
        double v;
        if (!ToNum(c.sub[d].words[i], &v)) return "bad knot";
        s.knots[d].push_back(v);
      }
      if (static_cast<long>(s.knots[d].size()) != n[d] + s.deg[d] + 1) return "number of knots does not match";
    }
    for (long i = 0; i < total; ++i) {
      auto &w = c.sub[s.dim + i].words;
      if (static_cast<int>(w.size()) != s.pd + (s.rat ? 1 : 0)) return "bad point";
      double wt = 1;
      size_t k = 0;
      if (s.rat) {
        if (!ToNum(w[k++], &wt)) return "bad weight";
        s.w.push_back(wt);
      }
      for (; k < w.size(); ++k) {
        double v;
        if (!ToNum(w[k], &v)) return "bad coordinate";
        s.cp.push_back(v / wt);
      }
    }
    out->push_back(s);
  }
  return "";
}

namespace {
struct XNode {
  std::string name, text;
  std::map<std::string, std::string> attr;
  std::vector<XNode> sub;
};
bool ParseX(const std::string &b, size_t *p, XNode *n, int depth) {  // *p stands behind '<'
  if (depth > 30) return false;
  auto ws = [&]() { while (*p < b.size() && isspace(static_cast<unsigned char>(b[*p]))) ++*p; };
  while (*p < b.size() && (isalnum(static_cast<unsigned char>(b[*p])) || b[*p] == '_')) n->name += b[(*p)++];
  if (n->name.empty()) return false;
  while (true) {
    ws();
    if (*p >= b.size()) return false;
    if (b[*p] == '/') { if (*p + 1 < b.size() && b[*p + 1] == '>') { *p += 2; return true; } return false; }
    if (b[*p] == '>') { ++*p; break; }
    std::string k, v;
    while (*p < b.size() && (isalnum(static_cast<unsigned char>(b[*p])) || b[*p] == '_')) k += b[(*p)++];
    if (k.empty() || *p + 1 >= b.size() || b[*p] != '=' || b[*p + 1] != '"') return false;
    *p += 2;
    while (*p < b.size() && b[*p] != '"') v += b[(*p)++];
    if (*p >= b.size()) return false;
    ++*p;
    if (n->attr.count(k)) return false;
    n->attr[k] = v;
  }
  while (*p < b.size()) {
    if (b[*p] != '<') { n->text += b[(*p)++]; continue; }
    ++*p;
    if (*p < b.size() && b[*p] == '/') {
      ++*p;
      if (b.compare(*p, n->name.size(), n->name) != 0) return false;
      *p += n->name.size();
      ws();
      if (*p >= b.size() || b[*p] != '>') return false;
      ++*p;
      return true;
    }
    n->sub.emplace_back();
    if (!ParseX(b, p, &n->sub.back(), depth + 1)) return false;
  }
  return false;
}
const XNode *Only(const XNode &n, const std::string &name) {
  const XNode *r = nullptr;
  for (auto &s : n.sub) if (s.name == name) { if (r) return nullptr; r = &s; }
  return r;
}
bool Nums(const std::string &t, std::vector<double> *v) {
  for (auto &w : Words(t)) {
    double x;
    if (!ToNum(w, &x)) return false;
    v->push_back(x);
  }
  return true;
}
}  // namespace

std::string ParseXml(const std::string &b, std::vector<MSpline> *out) {
  size_t p = 0;
  auto ws = [&]() { while (p < b.size() && isspace(static_cast<unsigned char>(b[p]))) ++p; };
  ws();
  if (b.compare(p, 5, "<?xml") == 0) {
    size_t e = b.find("?>", p);
    if (e == std::string::npos) return "bad declaration";
    p = e + 2;
  }
  ws();
  if (p >= b.size() || b[p] != '<') return "no element";
  ++p;
  XNode top;
  if (!ParseX(b, &p, &top, 0)) return "not well-formed XML";
  ws();
  if (p != b.size()) return "text behind the document element";
  if (top.name != "SplineList") return "document element is " + top.name;
  long count;
  if (!top.attr.count("NumberOfSplines") || !ToInt(top.attr["NumberOfSplines"], &count) || count != static_cast<long>(top.sub.size())) return "NumberOfSplines does not match the entries";
  for (auto &e : top.sub) {
    if (e.name != "SplineEntry") return "unexpected element " + e.name;
    MSpline s;
    long dim, pd, nv, np;
    auto attr = [&](const char *k, long *v) { auto it = e.attr.find(k); return it != e.attr.end() && ToInt(it->second, v); };
    if (!attr("splDim", &dim) || !attr("spaceDim", &pd) || !attr("numOfCntrlPntVars", &nv) || !attr("numCntrlPnts", &np)) return "missing attribute";
    if (dim < 1 || dim > 4 || pd < 1 || nv < pd) return "bad attribute";
    s.dim = static_cast<int>(dim);
    s.pd = static_cast<int>(pd);
    const XNode *vars = Only(e, "cntrlPntVars"), *deg = Only(e, "deg"), *kv = Only(e, "kntVecs"), *w = Only(e, "wght"), *names = Only(e, "cntrlPntVarNames");
    if (!vars || !deg || !kv || !names) return "missing element";
    int start = 0;
    auto nm = Words(names->text);
    if (pd <= 4 && static_cast<long>(nm.size()) != nv) return "number of variable names does not match";
    for (size_t i = 0; i < nm.size(); ++i) if (nm[i] == "x") { start = static_cast<int>(i); break; }
    std::vector<double> v, dg;
    if (!Nums(vars->text, &v) || static_cast<long>(v.size()) != np * nv) return "number of control point variables does not match";
    for (long i = 0; i < np; ++i) for (long c = 0; c < pd; ++c) s.cp.push_back(v[i * nv + start + c]);
    if (!Nums(deg->text, &dg) || static_cast<long>(dg.size()) != dim) return "number of degrees does not match";
    for (double x : dg) s.deg.push_back(static_cast<int>(x));
    if (static_cast<long>(kv->sub.size()) != dim) return "number of knot vectors does not match";
    for (auto &k : kv->sub) {
      s.knots.emplace_back();
      if (k.name != "kntVec" || !Nums(k.text, &s.knots.back())) return "bad knot vector";
    }
    if (w) {
      s.rat = true;
      if (!Nums(w->text, &s.w)) return "bad weights";
    } else {
      for (auto &x : e.sub) if (x.name == "wght") return "several weights";
    }
    std::string wf = CheckWellFormed(s);
    if (!wf.empty()) return wf;
    out->push_back(s);
  }
  return "";
}

std::string ParseFile(const std::string &fmt, const std::string &bytes, std::vector<MSpline> *out) {
  return fmt == "iges" ? ParseIges(bytes, out, nullptr) : fmt == "itd" ? ParseIrit(bytes, out) : ParseXml(bytes, out);
}

std::string ParseVtk(const std::string &b, VtkFile *out) {
  std::stringstream ss(b);
  std::string l;
  std::getline(ss, l);
  if (l.compare(0, 14, "# vtk DataFile") != 0) return "no VTK header";
  std::getline(ss, l);
  std::getline(ss, l);
  if (l != "ASCII") return "not ASCII";
  std::string w1, w2;
  if (!(ss >> w1 >> w2) || w1 != "DATASET" || w2 != "UNSTRUCTURED_GRID") return "no unstructured grid";
  long n, m, k;
  std::string t;
  if (!(ss >> w1 >> n >> t) || w1 != "POINTS" || n < 0 || n > 10000000) return "no points";
  for (long i = 0; i < n; ++i) {
    std::array<double, 3> a;
    for (auto &v : a) {
      std::string w;
      if (!(ss >> w) || !ToNum(w, &v)) return "bad point " + std::to_string(i);
    }
    out->points.push_back(a);
  }
  if (!(ss >> w1 >> m >> k) || w1 != "CELLS" || m < 0 || m > 10000000) return "no cells";
  long used = 0;
  for (long i = 0; i < m; ++i) {
    long c;
    if (!(ss >> c) || c < 1 || c > 8) return "bad cell " + std::to_string(i);
    std::vector<long> cell(c);
    for (auto &v : cell) if (!(ss >> v)) return "bad cell " + std::to_string(i);
    used += c + 1;
    out->cells.push_back(cell);
  }
  if (used != k) return "size of the cell list does not match";
  if (!(ss >> w1 >> m) || w1 != "CELL_TYPES" || m != static_cast<long>(out->cells.size())) return "no cell types";
  for (long i = 0; i < m; ++i) {
    int c;
    if (!(ss >> c)) return "bad cell type";
    out->types.push_back(c);
  }
  if (ss >> w1) return "text behind the cell types";
  if (!b.empty() && b.back() != '\n') return "last line is not terminated";
  return "";
}

std::string CompareVtk(const std::vector<MSpline> &splines, const std::vector<std::vector<int>> &scat, const VtkFile &v) {
  size_t pt = 0;
  std::map<std::vector<long>, int> want;
  for (size_t q = 0; q < splines.size(); ++q) {
    const MSpline &s = splines[q];
    std::vector<int> idx(s.dim, 0);
    double big = 0;
    for (double c : s.cp) big = std::max(big, std::fabs(c));
    size_t first = pt;
    while (true) {
      std::vector<double> u(s.dim);
      for (int d = 0; d < s.dim; ++d) u[d] = std::min(s.Lo(d) + idx[d] * (s.Hi(d) - s.Lo(d)) / scat[q][d], s.Hi(d));
      auto e = EvalModel(s, u);
      if (pt >= v.points.size()) return "only " + std::to_string(pt) + " points";
      for (int c = 0; c < 3; ++c) {
        double w = c < s.pd ? static_cast<double>(e[c]) : 0.0, g = v.points[pt][c];
        if (!(std::fabs(w - g) <= 6e-6 * std::fabs(w) + 1e-9 * big + 1e-12))
          return "point " + std::to_string(pt) + " coordinate " + std::to_string(c) + " is " + Fmt("%.9g", g) + " instead of " + Fmt("%.9g", w);
      }
      ++pt;
      int d = 0;
      for (; d < s.dim; ++d) { if (++idx[d] <= scat[q][d]) break; idx[d] = 0; }
      if (d == s.dim) break;
    }
    std::vector<int> c(s.dim, 0);
    auto node = [&](std::vector<int> o) {
      long r = 0, stride = 1;
      for (int d = 0; d < s.dim; ++d) { r += (c[d] + o[d]) * stride; stride *= scat[q][d] + 1; }
      return r + static_cast<long>(first);
    };
    while (true) {
      std::vector<long> cell;
      int type;
      if (s.dim == 1) {
        cell = {node({0}), node({1})};
        type = 3;
      } else if (s.dim == 2) {
        cell = {node({0, 0}), node({1, 0}), node({1, 1}), node({0, 1})};
        type = 9;
      } else {
        cell = {node({0, 0, 0}), node({1, 0, 0}), node({1, 1, 0}), node({0, 1, 0}), node({0, 0, 1}), node({1, 0, 1}), node({1, 1, 1}), node({0, 1, 1})};
        type = 12;
      }
      cell.push_back(type);
      ++want[cell];
      int d = 0;
      for (; d < s.dim; ++d) { if (++c[d] < scat[q][d]) break; c[d] = 0; }
      if (d == s.dim) break;
    }
  }
  if (pt != v.points.size()) return std::to_string(v.points.size()) + " points instead of " + std::to_string(pt);
  std::map<std::vector<long>, int> got;
  for (size_t i = 0; i < v.cells.size(); ++i) {
    auto c = v.cells[i];
    c.push_back(v.types[i]);
    ++got[c];
  }
  if (got != want) {
    for (auto &g : got) if (!want.count(g.first)) {
      std::string t;
      for (long x : g.first) t += std::to_string(x) + " ";
      return "unexpected cell (nodes, type) " + t;
    }
    return "cells are missing";
  }
  return "";
}

Tol FileTol(const std::string &fmt) {
  if (fmt == "iges") return Tol{1e-300, 1e-300, 1e-300, 1e-12, false};
  if (fmt == "itd") return Tol{6e-7, 6e-7, 6e-7, 1e-12, true};
  return Tol{6e-7, 6e-7, 6e-7, 1e-12, false};
}
MSpline Representable(const std::string &fmt, const MSpline &s) { return fmt == "iges" ? To3D(s) : s; }
bool Supported(const std::string &fmt, const MSpline &s) {
  if (fmt == "iges") return s.dim <= 2 && s.pd <= 3;
  if (fmt == "xml") return s.dim <= 4;
  return s.dim <= 3;
}
}  // namespace sim
