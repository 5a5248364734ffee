// World 1: clients, programs and a simulated disk, clock and memory.
#include <any>
#include <functional>
#include "env.h"
#include "formats.h"
#include "glue.h"
#include "model.h"
#include "worlds.h"
namespace sim {
namespace {
using env::Fault;

std::string Ext(const std::string &f) {
  size_t p = f.rfind('.');
  return p == std::string::npos ? "" : f.substr(p + 1);
}
std::vector<std::vector<int>> ParseScat(const std::string &s) {
  std::vector<std::vector<int>> r;
  if (s.empty() || s == "-") return r;
  std::stringstream ss(s);
  std::string e;
  while (std::getline(ss, e, ';')) {
    std::vector<int> v;
    std::stringstream es(e);
    std::string n;
    while (std::getline(es, n, 'x')) if (!n.empty()) v.push_back(atoi(n.c_str()));
    r.push_back(v);
  }
  return r;
}
std::string ScatText(const std::vector<std::vector<int>> &s) {
  if (s.empty()) return "-";
  std::string r;
  for (size_t i = 0; i < s.size(); ++i) {
    if (i) r += ";";
    for (size_t j = 0; j < s[i].size(); ++j) r += (j ? "x" : "") + std::to_string(s[i][j]);
  }
  return r;
}
int MaxDim(const std::string &fmt) { return fmt == "iges" ? 2 : fmt == "xml" ? 4 : 3; }
std::string FmtOfProg(const std::string &n) { return n == "iges" ? "iges" : n == "irit" ? "itd" : n == "xml" ? "xml" : n == "vtk" ? "vtk" : ""; }

enum Status { kAbsent, kKnown, kMaybe, kCorrupt };
struct FileState {
  Status st = kAbsent;
  std::vector<std::vector<MSpline>> candidates;  // kKnown: exactly one; kMaybe: any of them (or rejection)
};
struct LogInfo {
  std::string in, out;
  bool all = false;
  std::vector<int> pos;
  std::vector<std::vector<int>> scat;
  bool valid = true;
};
struct OpCount { size_t line; env::Counts c; };

const Tol kReadTol{2e-12, 2e-12, 2e-12, 1e-12, true};

struct Runner {
  const Plan &plan;
  Result *res;
  std::string prop;
  std::vector<OpCount> *counts;
  std::map<int, MSpline> models;
  std::map<int, std::any> objs;
  std::map<std::string, FileState> files;
  std::map<std::string, LogInfo> logs;
  std::vector<Fault> pending;
  long pending_cap = -1;
  std::unique_ptr<Converter> conv;
  size_t line_no = 0;

  Runner(const Plan &p, Result *r, const std::string &pr, std::vector<OpCount> *c) : plan(p), res(r), prop(pr), counts(c) {}

  std::string Where() { return "line " + std::to_string(line_no + 1) + " (" + plan.lines[line_no].kind + "): "; }
  void Bad(const std::string &cls, const std::string &d) {
    // P09 and P10 are about time stamps and leaks only; the contents are the business of the other properties
    if (prop == "P09" && cls != "iges-time" && cls != "log-time" && cls != "log-format") return;
    if (prop == "P10" && cls != "handle-leak" && cls != "memory-leak") return;
    res->Violate(cls, Where() + d);
  }

  std::vector<int> Ids(const Line &l) {
    std::vector<int> r;
    for (int i : l.Ints("splines")) if (models.count(i)) r.push_back(i);
    return r;
  }
  std::vector<MSpline> Models(const std::vector<int> &ids) {
    std::vector<MSpline> r;
    for (int i : ids) r.push_back(models[i]);
    return r;
  }

  void ArmPending() {
    long cap = -1;
    if (pending_cap >= 0) {
      cap = pending_cap;
      for (auto &f : env::Disk()) cap += static_cast<long>(f.second->data.size());
    }
    env::Arm(pending, cap);
  }
  void Finish(const std::string &what, const Outcome &o) {  // bookkeeping after a library call
    for (auto &f : env::Armed()) if (f.fired) res->Count("fault:" + f.op + "." + f.kind, 1);
    if (env::CapacityHit()) res->Count("fault:write.diskfull");
    if (env::MemCapHit()) res->Count("fault:alloc.memcap");
    if (env::Crashed()) res->Count("crashes");
    res->Count("ops");
    res->Count("ioevents", env::LastCounts().total);
    res->Count("allocs", env::LastCounts().allocs);
    res->Count(o.ok ? "op_ok" : "op_exception");
    if (counts) counts->push_back({line_no, env::LastCounts()});
    res->Log(what + " -> " + (o.ok ? "ok" : "exception: " + o.what));
    uint64_t h = HashStr(what + (o.ok ? "ok" : o.what));
    for (auto &f : env::Disk()) h = Mix(h, HashStr(f.first, HashStr(f.second->data)));
    res->states.insert(h);
    res->hash = Mix(res->hash, h);
  }
  void CheckOthers(const std::map<std::string, std::string> &before, const std::set<std::string> &may) {
    auto after = env::Snapshot();
    for (auto &f : before) {
      if (may.count(f.first)) continue;
      auto it = after.find(f.first);
      if (it == after.end()) Bad("other-file-removed", "file " + f.first + " disappeared");
      else if (it->second != f.second) Bad("other-file-changed", "file " + f.first + " was changed");
    }
    for (auto &f : after) if (!before.count(f.first) && !may.count(f.first)) Bad("stray-file", "file " + f.first + " was created");
  }
  void CheckHandles() {
    if (env::Crashed()) { env::DropHandles(); return; }
    if (env::OpenHandles() != 0) {
      Bad("handle-leak", std::to_string(env::OpenHandles()) + " file handle(s) left open");
      env::DropHandles();
    }
  }
  void CheckObjects(const std::vector<int> &ids) {
    for (int i : ids) {
      MSpline m;
      std::string e = ExtractAny(objs[i], &m);
      if (e.empty()) e = SameExactly(models[i], m);
      if (!e.empty()) Bad("input-changed", "spline " + std::to_string(i) + " was changed by a writer: " + e);
    }
  }

  // Does the file hold exactly these splines?  "" if so.
  std::string FileHolds(const std::string &file, const std::string &fmt, const std::vector<MSpline> &want,
                        const std::vector<std::vector<int>> &scat, const Tol &extra) {
    std::string bytes;
    if (!env::GetFile(file, &bytes)) return "the file does not exist";
    if (fmt == "vtk") {
      VtkFile v;
      std::string e = ParseVtk(bytes, &v);
      if (!e.empty()) return e;
      return CompareVtk(want, scat, v);
    }
    std::vector<MSpline> got;
    std::string e = ParseFile(fmt, bytes, &got);
    if (!e.empty()) return e;
    if (got.size() != want.size()) return std::to_string(got.size()) + " splines instead of " + std::to_string(want.size());
    Tol t = FileTol(fmt);
    t.knot_abs += extra.knot_abs; t.cp_abs += extra.cp_abs; t.w_abs += extra.w_abs; t.rel += extra.rel;
    for (size_t i = 0; i < got.size(); ++i) {
      e = CompareSplines(Representable(fmt, want[i]), got[i], t);
      if (!e.empty()) return "spline " + std::to_string(i) + " (" + Describe(want[i]) + "): " + e;
    }
    return "";
  }
  void Learn(const std::string &file, const std::string &fmt) {  // content of a complete file, as an independent parser sees it
    std::string bytes;
    FileState fs;
    fs.st = kKnown;
    fs.candidates.resize(1);
    if (fmt == "vtk") { fs.st = kCorrupt; }
    else if (!env::GetFile(file, &bytes) || !ParseFile(fmt, bytes, &fs.candidates[0]).empty()) fs.st = kCorrupt;
    files[file] = fs;
  }
  std::vector<MSpline> AsWritten(const std::string &fmt, const std::vector<MSpline> &m) {
    std::vector<MSpline> r;
    for (auto &s : m) r.push_back(Representable(fmt, s));
    return r;
  }

  bool ScatOk(const std::vector<MSpline> &m, const std::vector<std::vector<int>> &scat) {
    if (m.size() != scat.size()) return false;
    for (size_t i = 0; i < m.size(); ++i) if (static_cast<int>(scat[i].size()) != m[i].dim) return false;
    return true;
  }
  bool Writable(const std::string &fmt, const std::vector<MSpline> &m, const std::vector<std::vector<int>> &scat) {
    for (auto &s : m) if (!Supported(fmt, s)) return false;
    if (fmt == "vtk" && !ScatOk(m, scat)) return false;
    return true;
  }
  bool BadPath(const std::string &file) { return file.compare(0, 4, "/no/") == 0 || file == "/d" || file.compare(0, 4, "/ro/") == 0; }

  void TimeStamps(const std::string &file, bool log, const std::string &text) {
    if (prop != "P09") return;
    // every time stamp written is a value the clock had during the call, in local time
    std::set<std::string> valid;
    for (long long t : env::ClockReadings()) {
      time_t tt = t;
      struct tm tm;
      localtime_r(&tt, &tm);
      char b[128];
      static const char *wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"};
      static const char *mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
      if (log) snprintf(b, sizeof b, "%s %s %2d %02d:%02d:%02d %04d", wd[tm.tm_wday], mo[tm.tm_mon], tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec, tm.tm_year + 1900);
      else snprintf(b, sizeof b, "%04d%02d%02d.%02d%02d%02d", tm.tm_year + 1900, tm.tm_mon + 1, tm.tm_mday, tm.tm_hour, tm.tm_min, tm.tm_sec);
      valid.insert(b);
    }
    std::string list;
    for (auto &v : valid) list += (list.empty() ? "" : " or ") + v;
    if (log) {
      if (!valid.count(text)) Bad("log-time", "time of the log entry is '" + text + "' but the clock showed " + list);
      return;
    }
    int found = 0;
    std::vector<std::string> field;
    std::string e = IgesGlobal(text, &field);
    if (!e.empty()) { Bad("iges-time", "time stamps of " + file + " cannot be found: " + e); return; }
    for (size_t i : {17, 24}) {
      if (i >= field.size() || field[i].compare(0, 3, "15H") != 0) continue;
      ++found;
      std::string stamp = field[i].substr(3);
      if (!valid.count(stamp)) Bad("iges-time", "time stamp of " + file + " is '" + stamp + "' but the clock showed " + list);
    }
    if (found != 2) Bad("iges-time", "global section of " + file + " has " + std::to_string(found) + " time stamps instead of 2");
  }
  void CheckIgesHeader(const std::string &file) {
    std::string bytes, global;
    std::vector<MSpline> tmp;
    if (!env::GetFile(file, &bytes)) return;
    ParseIges(bytes, &tmp, &global);
    TimeStamps(file, false, global);
  }

  void LeakCheck(const Line &l, const std::function<void()> &call) {
    // The same call with the same faults again and again on the same disk: memory must not grow every time.
    int reps = static_cast<int>(l.Int("rep", 0));
    if (reps <= 0 || res->violated) return;
    auto snap = env::Snapshot();
    long first = 0;
    bool grows = true;
    std::string trace;
    for (int i = 0; i < reps; ++i) {
      long before = env::LiveObjects();
      call();
      CheckHandles();
      long after = env::LiveObjects();
      if (after <= before) grows = false;
      trace += " " + std::to_string(after - before);
      (void)first;
      env::DropHandles();
      env::Disk().clear();
      for (auto &f : snap) env::PutFile(f.first, f.second);
    }
    res->Count("leak_checks");
    if (grows) Bad("memory-leak", "every repetition of the call leaves objects behind:" + trace);
  }

  void Write(const Line &l) {
    std::string fmt = l.Str("fmt"), file = l.Str("file");
    auto ids = Ids(l);
    auto m = Models(ids);
    auto scat = ParseScat(l.Str("scat"));
    std::vector<std::any> in;
    for (int i : ids) in.push_back(objs[i]);
    auto before = env::Snapshot();
    FileState old = files[file];
    if (l.Int("rep")) {
      LeakCheck(l, [&]() { ArmPending(); Outcome o = LibWrite(fmt, in, file, scat); });
    }
    ArmPending();
    Outcome o = LibWrite(fmt, in, file, scat);
    bool fired = env::AnyFired();
    Finish("write " + fmt + " " + file, o);
    CheckHandles();
    CheckOthers(before, {file});
    CheckObjects(ids);
    bool legal = Writable(fmt, m, scat) && !BadPath(file);
    if (env::Crashed()) {
      FileState fs;
      fs.st = kMaybe;
      if (legal) fs.candidates.push_back(AsWritten(fmt, m));
      for (auto &c : old.candidates) fs.candidates.push_back(c);
      if (!env::Disk().count(file)) fs = FileState();
      maybe_tol[file] = FileTol(fmt);
      files[file] = fs;
      return;
    }
    if (o.ok) {
      if (!legal) {
        Bad("unsupported-accepted", "a file that cannot hold the given splines was reported as written: " + fmt + " " + file);
        return;
      }
      if (fmt == "iges") CheckIgesHeader(file);
      std::string e = FileHolds(file, fmt, m, scat, Tol{0, 0, 0, 0});
      if (!e.empty()) {
        Bad("incomplete-write", "reported success, but " + fmt + " file " + file + " is wrong: " + e + (fired ? " (after a fault)" : ""));
        return;
      }
      Learn(file, fmt);
    } else {
      if (legal && !fired) Bad("spurious-failure", "writing " + fmt + " file " + file + " failed without a fault: " + o.what);
      FileState fs;
      fs.st = env::Disk().count(file) ? kCorrupt : kAbsent;
      files[file] = fs;
    }
  }
  std::map<std::string, Tol> maybe_tol;

  std::string Equal(const std::vector<MSpline> &want, const std::vector<MSpline> &got, const Tol &t) {
    if (got.size() != want.size()) return std::to_string(got.size()) + " splines instead of " + std::to_string(want.size());
    for (size_t i = 0; i < got.size(); ++i) {
      std::string e = CompareSplines(want[i], got[i], t);
      if (!e.empty()) return "spline " + std::to_string(i) + " (" + Describe(want[i]) + "): " + e;
    }
    return "";
  }

  void Read(const Line &l) {
    std::string fmt = l.Str("fmt"), file = l.Str("file");
    auto before = env::Snapshot();
    FileState fs = files[file];
    if (l.Int("rep")) {
      LeakCheck(l, [&]() { ArmPending(); std::vector<std::any> tmp; Outcome o = LibRead(fmt, file, &tmp); });
    }
    ArmPending();
    std::vector<std::any> out;
    Outcome o = LibRead(fmt, file, &out);
    bool fired = env::AnyFired();
    Finish("read " + fmt + " " + file, o);
    CheckHandles();
    CheckOthers(before, {});
    if (!o.ok && fs.st == kCorrupt) res->Count("corrupt_rejected");
    if (!o.ok && fs.st == kMaybe) res->Count("cut_rejected");
    if (!o.ok) {
      if (fs.st == kKnown && !fired && Ext(file) == fmt) Bad("spurious-failure", "reading complete " + fmt + " file " + file + " failed without a fault: " + o.what);
      return;
    }
    std::vector<MSpline> got;
    for (auto &a : out) {
      MSpline m;
      std::string e = ExtractAny(a, &m);
      if (e.empty()) e = CheckWellFormed(m);
      if (!e.empty()) { Bad("malformed-spline", "reading " + fmt + " file " + file + " returned a malformed spline: " + e); return; }
      got.push_back(m);
      res->hash = Mix(res->hash, HashSpline(m));
    }
    if (fs.st == kCorrupt) res->Count("corrupt_accepted");
    if (fs.st == kAbsent) { Bad("phantom-file", "reading a missing file returned " + std::to_string(got.size()) + " splines"); return; }
    if (Ext(file) == fmt && (fs.st == kKnown || fs.st == kMaybe)) {
      std::string e = "nothing was written completely";
      for (auto &c : fs.candidates) {
        Tol t = kReadTol;
        if (fs.st == kMaybe && maybe_tol.count(file)) { t = maybe_tol[file]; t.rel += 1e-12; t.knot_abs += 2e-12; t.cp_abs += 2e-12; t.w_abs += 2e-12; }
        e = Equal(c, got, t);
        if (e.empty()) break;
      }
      if (!e.empty()) Bad(fs.st == kKnown ? "wrong-read" : "partial-read", "reading " + fmt + " file " + file + " succeeded but returned something else than the file holds: " + e + (fired ? " (after a fault)" : ""));
    }
    // whatever was returned is usable
    env::Arm({}, -1);
    for (auto &a : out) {
      std::vector<double> v;
      Outcome p = Guarded([&]() { ProbeAny(a, &v); });
      for (double x : v) res->hash = Mix(res->hash, HashDouble(x));
      res->Count("probes");
      if (!p.ok && fs.st == kKnown) Bad("unusable-spline", "a spline read from " + file + " cannot be evaluated: " + p.what);
    }
  }

  // What a conversion of `content` has to write.
  struct ConvModel { bool throws = false; std::vector<int> written; std::vector<MSpline> out; std::vector<std::vector<int>> scat; };
  ConvModel ModelConversion(const std::vector<MSpline> &content, const std::string &outfmt, bool all, const std::vector<int> &pos,
                            const std::vector<std::vector<int>> &scat) {
    ConvModel r;
    std::vector<size_t> scat_index;
    auto possible = [&](int p) { return p >= 0 && p < static_cast<int>(content.size()) && content[p].dim <= MaxDim(outfmt); };
    if (all) {
      for (int i = 0; i < static_cast<int>(content.size()); ++i) if (possible(i)) { r.written.push_back(i); scat_index.push_back(i); }
    } else {
      for (size_t i = 0; i < pos.size(); ++i) if (possible(pos[i])) { r.written.push_back(pos[i]); scat_index.push_back(i); }
    }
    for (int p : r.written) r.out.push_back(content[p]);
    if (outfmt == "vtk") {
      for (size_t i : scat_index) {
        if (i >= scat.size()) { r.throws = true; return r; }
        r.scat.push_back(scat[i]);
      }
    }
    if (!Writable(outfmt, r.out, r.scat)) r.throws = true;
    return r;
  }

  void Convert(const Line &l) {
    std::string in = l.Str("in"), out = l.Str("out");
    auto pos = l.Ints("pos");
    auto scat = ParseScat(l.Str("scat"));
    auto before = env::Snapshot();
    FileState fs = files[in];
    std::string infmt = Ext(in), outfmt = Ext(out);
    bool fmt_ok = (infmt == "iges" || infmt == "itd" || infmt == "xml") && (outfmt == "iges" || outfmt == "itd" || outfmt == "xml" || outfmt == "vtk");
    if (l.Int("rep")) {
      LeakCheck(l, [&]() { ArmPending(); Converter c(in, out); std::vector<int> w; Outcome o = c.Convert(pos, scat, &w); });
    }
    if (!conv || conv->in != in || conv->out != out || !l.Int("again")) conv.reset(new Converter(in, out));
    ArmPending();
    std::vector<int> written;
    Outcome o = conv->Convert(pos, scat, &written);
    bool fired = env::AnyFired();
    Finish("convert " + in + " " + out + " [" + JoinInts(pos) + "] wrote [" + JoinInts(written) + "]", o);
    CheckHandles();
    CheckOthers(before, {out});
    FileState nfs;
    nfs.st = env::Disk().count(out) ? kCorrupt : kAbsent;
    FileState oldout = files[out];
    bool changed = true;
    { std::string now; auto it = before.find(out); if (it != before.end() && env::GetFile(out, &now) && now == it->second) changed = false; }
    if (changed) files[out] = nfs;
    if (env::Crashed()) { if (changed) files[out] = nfs; return; }
    if (fs.st == kAbsent || BadPath(out) || !fmt_ok) {
      if (o.ok) Bad("bogus-success", "conversion " + in + " -> " + out + " reported success although it is impossible");
      return;
    }
    if (fs.st != kKnown) return;
    auto cm = ModelConversion(fs.candidates[0], outfmt, pos.empty(), pos, scat);
    if (o.ok) {
      if (cm.throws) { Bad("unsupported-accepted", "conversion " + in + " -> " + out + " succeeded although the selected splines cannot be written"); return; }
      if (written != cm.written) { Bad("wrong-positions", "conversion reports positions [" + JoinInts(written) + "] instead of [" + JoinInts(cm.written) + "]"); return; }
      std::string e = FileHolds(out, outfmt, cm.out, cm.scat, Tol{2e-12, 2e-12, 2e-12, 2e-12});
      if (!e.empty()) { Bad("wrong-conversion", "conversion " + in + " -> " + out + " of positions [" + JoinInts(pos) + "]: output is wrong: " + e + (fired ? " (after a fault)" : "")); return; }
      if (outfmt == "iges") CheckIgesHeader(out);
      Learn(out, outfmt);
    } else if (!cm.throws && !fired) {
      Bad("spurious-failure", "conversion " + in + " -> " + out + " failed without a fault: " + o.what);
    }
  }

  static std::string Sentence(const LogInfo &li, const std::vector<int> &w) {
    std::string s;
    if (w.empty()) s = "No splines";
    else {
      s = w.size() == 1 ? "The spline at position " : "The splines at positions ";
      for (size_t i = 0; i < w.size(); ++i) s += (i ? ", " : "") + std::to_string(w[i]);
    }
    return s + " in file " + li.in + (w.size() == 1 ? " has" : " have") + " been written to " + li.out;
  }

  void Prog(const Line &l) {
    std::string name = l.Str("name"), logf = l.Str("log");
    size_t t = name.find("_to_");
    std::string infmt = t == std::string::npos ? "" : FmtOfProg(name.substr(0, t)), outfmt = t == std::string::npos ? "" : FmtOfProg(name.substr(t + 4));
    bool exists = false;
    for (auto &n : ProgramNames()) exists |= n == name;
    if (!exists || infmt.empty() || outfmt.empty()) { res->Log("no program " + name); return; }
    auto before = env::Snapshot();
    LogInfo li;
    bool have = logs.count(logf) > 0;
    if (have) li = logs[logf];
    std::string logbefore;
    env::GetFile(logf, &logbefore);
    if (l.Int("rep")) {
      LeakCheck(l, [&]() { ArmPending(); int rc; Outcome o = RunProgram(name, {logf}, &rc); });
    }
    ArmPending();
    int rc = -1;
    Outcome o = RunProgram(name, {logf}, &rc);
    bool fired = env::AnyFired();
    Finish("program " + name + " " + logf + " rc=" + std::to_string(rc), o);
    CheckHandles();
    std::set<std::string> may = {logf};
    if (have) may.insert(li.out);
    if (have && !li.valid) {  // a damaged log file may name any file
      auto after = env::Snapshot();
      for (auto &f : after) if (!before.count(f.first) || before[f.first] != f.second) files[f.first].st = kCorrupt;
      if (o.ok) res->Count("damaged_log_accepted");
      return;
    }
    CheckOthers(before, may);
    if (!have) {
      if (o.ok && !have) Bad("bogus-success", "program succeeded without a log file");
      std::string now;
      env::GetFile(logf, &now);
      if (!o.ok && now.compare(0, logbefore.size(), logbefore) != 0) Bad("log-damaged", "earlier content of the log was changed");
      if (have && env::Disk().count(li.out) && files[li.out].st != kKnown) files[li.out].st = kCorrupt;
      return;
    }
    std::string logafter;
    bool logthere = env::GetFile(logf, &logafter);
    FileState fs = files[li.in];
    std::string inbytes;
    // the program reads its input with its own reader, whatever the name is
    bool input_known = fs.st == kKnown && Ext(li.in) == infmt;
    bool possible = input_known && !BadPath(li.out);
    ConvModel cm;
    if (possible) cm = ModelConversion(fs.candidates[0], outfmt, li.all, li.pos, li.scat);
    std::string outcheck = "not expected";
    if (possible && !cm.throws) outcheck = FileHolds(li.out, outfmt, cm.out, cm.scat, Tol{2e-12, 2e-12, 2e-12, 2e-12});
    {
      FileState nfs;
      nfs.st = env::Disk().count(li.out) ? kCorrupt : kAbsent;
      auto it = before.find(li.out);
      std::string now;
      bool same = it != before.end() && env::GetFile(li.out, &now) && now == it->second;
      if (outcheck.empty() && Ext(li.out) == outfmt) Learn(li.out, outfmt);
      else if (!same) files[li.out] = nfs;
    }
    if (!logthere || logafter.compare(0, logbefore.size(), logbefore) != 0) {
      Bad("log-damaged", "earlier content of the log was changed");
      return;
    }
    std::string entry = logafter.substr(logbefore.size());
    bool ok = o.ok && rc == 0;
    bool crashed = env::Crashed();
    // What the log says has to be true, whatever happened.
    if (!entry.empty() && (input_known || fs.st == kAbsent)) {
      if (!outcheck.empty()) {
        Bad("untruthful-log", "the log got an entry although the output is not complete: " + outcheck + (fired ? " (after a fault)" : ""));
        return;
      }
      const std::string head = "\n\nlog:\n";
      std::string want = Sentence(li, cm.written);
      size_t n = std::min(entry.size(), head.size());
      if (entry.compare(0, n, head, 0, n) != 0) { Bad("log-format", "log entry starts with '" + entry.substr(0, 20) + "'"); return; }
      if (entry.size() > head.size()) {
        size_t nl = entry.find('\n', head.size());
        if (nl != std::string::npos) {
          TimeStamps(logf, true, entry.substr(head.size(), nl - head.size()));
          std::string s = entry.substr(nl + 1);
          while (!s.empty() && s.back() == '\n') s.pop_back();
          bool complete = s == want, prefix = want.compare(0, s.size(), s) == 0;
          if (!(complete || ((!ok || crashed) && prefix))) Bad("untruthful-log", "log says '" + s + "' instead of '" + want + "'");
        } else if (ok && !crashed) {
          Bad("log-format", "log entry is not complete: '" + entry + "'");
        }
      } else if (ok && !crashed) {
        Bad("log-format", "log entry is not complete");
      }
    }
    if (crashed || res->violated) return;
    if (ok) {
      if (!possible) { if (input_known || fs.st == kAbsent) Bad("bogus-success", "program reported success although the conversion is impossible"); return; }
      if (cm.throws) { Bad("unsupported-accepted", "program succeeded although the selected splines cannot be written"); return; }
      if (!outcheck.empty()) { Bad("wrong-conversion", "program succeeded but the output is wrong: " + outcheck + (fired ? " (after a fault)" : "")); return; }
      if (entry.empty()) { Bad("log-missing", "program succeeded but the log has no new entry"); return; }
      if (outfmt == "iges") CheckIgesHeader(li.out);
    } else if (possible && !cm.throws && !fired) {
      Bad("spurious-failure", "program " + name + " failed without a fault: " + o.what);
    }
  }

  void MakeLog(const Line &l) {
    LogInfo li;
    li.in = l.Str("in");
    li.out = l.Str("out");
    std::string o = l.Str("opts", "all");
    li.all = o == "all";
    if (!li.all) li.pos = l.Ints("opts");
    li.scat = ParseScat(l.Str("scat"));
    if (!li.all && li.pos.empty()) li.valid = false;
    if (!li.all && !li.pos.empty() && li.pos[0] == -1) li.valid = false;
    std::vector<std::string> sec;
    sec.push_back("input:\n" + li.in + "\n");
    sec.push_back("output:\n" + li.out + "\n");
    std::string s = "options:\n";
    if (li.all) s += "all\n";
    for (int p : li.pos) s += std::to_string(p) + "\n";
    sec.push_back(s);
    if (!li.scat.empty()) {
      s = "scattering:\n";
      for (auto &e : li.scat) {
        for (size_t i = 0; i < e.size(); ++i) s += (i ? " " : "") + std::to_string(e[i]);
        s += "\n";
      }
      sec.push_back(s);
    }
    std::string text;
    for (size_t i = 0; i < sec.size(); ++i) text += std::string(i ? static_cast<size_t>(l.Int("gap", 1)) : 0, '\n') + sec[i];
    if (l.Int("chop") && !text.empty()) text.pop_back();  // no newline at the end of the file
    env::PutFile(l.Str("file"), text);
    logs[l.Str("file")] = li;
  }

  static std::string MutateBytes(std::string b, uint64_t seed, int n) {
    Rng r(seed);
    for (int k = 0; k < n; ++k) {
      static const std::vector<std::string> special = {"-1", "0", "1", "2", "3", "7", "999999999", "2147483647", "2147483648", "-2147483649", "1e309", "1e-400", "nan", "inf", "", ".", "-", "1e", "e5", "99999999999999999999999", "0.5", "-0.0", "]", "[", ",", ";", "<", ">", "\"", "P3", "E0", "BSPLINE", "126", "128", "100", "4"};
      switch (r.Below(12)) {
        case 0: if (!b.empty()) b[r.Below(b.size())] = static_cast<char>(r.Below(256)); break;
        case 1: if (!b.empty()) b[r.Below(b.size())] = static_cast<char>('0' + r.Below(10)); break;
        case 2: if (!b.empty()) b.erase(r.Below(b.size()), 1 + r.Below(12)); break;
        case 3: b.insert(r.Below(b.size() + 1), std::string(1 + r.Below(6), static_cast<char>(32 + r.Below(95)))); break;
        case 4: case 5: case 6: {  // replace a number
          if (b.empty()) break;
          size_t p = r.Below(b.size());
          while (p < b.size() && !isdigit(static_cast<unsigned char>(b[p]))) ++p;
          size_t e = p;
          while (p > 0 && (isdigit(static_cast<unsigned char>(b[p - 1])) || strchr("+-.eE", b[p - 1]))) --p;
          while (e < b.size() && (isdigit(static_cast<unsigned char>(b[e])) || strchr("+-.eE", b[e]))) ++e;
          std::string s = r.Pick(special);
          if (r.Chance(0.5) && e - p >= s.size()) s = std::string(e - p - s.size(), ' ') + s;  // keep the columns
          b.replace(p, e - p, s);
          break;
        }
        case 7: {  // delete a line
          size_t p = b.empty() ? 0 : r.Below(b.size());
          size_t s = b.rfind('\n', p), e = b.find('\n', p);
          s = s == std::string::npos ? 0 : s + 1;
          if (s <= b.size()) b.erase(s, e == std::string::npos ? std::string::npos : e - s + 1);
          break;
        }
        case 8: {  // repeat a line
          size_t p = b.empty() ? 0 : r.Below(b.size());
          size_t s = b.rfind('\n', p), e = b.find('\n', p);
          s = s == std::string::npos ? 0 : s + 1;
          if (e == std::string::npos) e = b.size();
          if (s < e) b.insert(s, b.substr(s, e - s) + "\n");
          break;
        }
        case 9: {  // exchange two parts
          if (b.size() < 4) break;
          size_t p = r.Below(b.size() / 2), q = b.size() / 2 + r.Below(b.size() / 2);
          size_t n2 = std::min<size_t>(1 + r.Below(80), std::min(q - p, b.size() - q));
          for (size_t i = 0; i < n2; ++i) std::swap(b[p + i], b[q + i]);
          break;
        }
        case 10: b.resize(r.Below(b.size() + 1)); break;
        default: {  // a token
          static const std::vector<std::string> tok = {"[KV", "BSPLINE", "[CURVE", "[SURFACE", "[TRIVAR", "P3", "E3", "126", "128", "splDim", "spaceDim", "numCntrlPnts", "numOfCntrlPntVars", "kntVec", "wght", "deg", "cntrlPntVars", "]", "[", ",", ";"};
          std::string from = r.Pick(tok), to = r.Pick(tok);
          size_t p = b.find(from, b.empty() ? 0 : r.Below(b.size()));
          if (p == std::string::npos) p = b.find(from);
          if (p != std::string::npos) b.replace(p, from.size(), r.Chance(0.3) ? "" : to);
        }
      }
    }
    return b;
  }

  void Run() {
    env::ResetWorld();
    env::SetDirs({"/d", "/d/sub", "/ro"});
    env::SetClock(1600000000, 0, "UTC0");
    for (line_no = 0; line_no < plan.lines.size() && !res->violated; ++line_no) {
      const Line &l = plan.lines[line_no];
      if (l.kind == "spline") {
        int id = static_cast<int>(l.Int("id"));
        models[id] = MakeSpline(l);
        objs[id] = BuildAny(models[id]);
      } else if (l.kind == "put") {
        auto m = Models(Ids(l));
        std::string fmt = l.Str("fmt"), file = l.Str("file");
        std::vector<MSpline> keep;
        for (auto &s : m) if (Supported(fmt, s)) keep.push_back(s);
        // the independent parser knows the plain layout only
        env::PutFile(file, Emit(fmt, keep, static_cast<int>(l.Int("style")) & kPlainLayout));
        Learn(file, fmt);
        env::PutFile(file, Emit(fmt, keep, static_cast<int>(l.Int("style"))));
        if (files[file].st != kKnown) { fprintf(stderr, "harness: emitted file cannot be parsed\n"); abort(); }
      } else if (l.kind == "junk") {
        Rng r(static_cast<uint64_t>(l.Int("seed")));
        std::string b;
        for (long i = 0; i < l.Int("len"); ++i) b += static_cast<char>(l.Int("ascii") ? (r.Below(8) ? 32 + r.Below(95) : '\n') : r.Below(256));
        env::PutFile(l.Str("file"), b);
        files[l.Str("file")].st = kCorrupt;
        res->Count("disk.junk");
      } else if (l.kind == "cut") {
        std::string b, f = l.Str("file");
        if (env::GetFile(f, &b)) {
          size_t at = static_cast<size_t>(l.Int("at")) % (b.size() + 1);
          env::PutFile(f, b.substr(0, at));
          if (files[f].st == kKnown) files[f].st = kMaybe;
          maybe_tol.erase(f);
          res->Count("fault:disk.cut");
        }
      } else if (l.kind == "mutate") {
        std::string b, f = l.Str("file");
        if (env::GetFile(f, &b)) {
          env::PutFile(f, MutateBytes(b, static_cast<uint64_t>(l.Int("seed")), static_cast<int>(l.Int("n", 1))));
          files[f].st = kCorrupt;
          res->Count("fault:disk.corrupt");
          if (logs.count(f)) logs[f].valid = false;
        }
      } else if (l.kind == "ro") {
        env::SetReadOnly(l.Str("file"), l.Int("on", 1) != 0);
        ro[l.Str("file")] = l.Int("on", 1) != 0;
      } else if (l.kind == "rm") {
        env::Disk().erase(l.Str("file"));
        files[l.Str("file")] = FileState();
      } else if (l.kind == "clock") {
        env::SetClock(l.Int("t"), l.Int("tick"), l.Str("tz", "UTC0"));
      } else if (l.kind == "fault") {
        Fault f;
        f.op = l.Str("op");
        f.n = l.Int("n");
        f.kind = l.Str("kind");
        f.arg = l.Int("arg");
        f.sticky = l.Int("sticky") != 0;
        pending.push_back(f);
        continue;
      } else if (l.kind == "cap") {
        pending_cap = l.Int("n");
        continue;
      } else if (l.kind == "log") {
        MakeLog(l);
      } else if (l.kind == "write") {
        Write(l);
      } else if (l.kind == "read") {
        Read(l);
      } else if (l.kind == "conv") {
        Convert(l);
      } else if (l.kind == "prog") {
        Prog(l);
      }
      bool op = l.kind == "write" || l.kind == "read" || l.kind == "conv" || l.kind == "prog";
      if (op) { pending.clear(); pending_cap = -1; env::Arm({}, -1); }
    }
    conv.reset();
  }
  std::map<std::string, bool> ro;
};

// ------------------------------------------------------------------ plans
struct Gen {
  Rng r;
  std::string prop;
  Plan plan;
  int nsplines = 0;
  std::vector<int> dims;
  explicit Gen(uint64_t seed, const std::string &p) : r(Mix(HashStr(p), seed)), prop(p) {}

  void Splines(int n, int maxdim, int pdmax = 3) {
    for (int i = 0; i < n; ++i) {
      int d = r.Chance(0.5) ? 1 : r.Chance(0.6) ? 2 : r.Range(1, maxdim);
      d = std::min(d, maxdim);
      Line l = RandomSplineLine(&r, nsplines, d, "io");
      if (pdmax > 0 && l.Int("pd") > pdmax) l.Set("pd", pdmax);
      if (d <= 2 && r.Chance(0.012)) {  // a big one
        auto nk = l.Ints("nk");
        for (auto &x : nk) x = d == 1 ? r.Range(20, r.Chance(0.3) ? 1500 : 200) : r.Range(5, 18);
        l.Set("nk", JoinInts(nk));
        if (l.Int("mm") == 2) l.Set("mm", 1);
      }
      plan.lines.push_back(l);
      dims.push_back(d);
      ++nsplines;
    }
  }
  std::string Some(int maxdim, int most) {
    std::vector<int> ok, pick;
    for (int i = 0; i < nsplines; ++i) if (dims[i] <= maxdim) ok.push_back(i);
    int n = r.Range(ok.empty() ? 0 : 1, std::min<int>(most, static_cast<int>(ok.size()) + 1));
    if (r.Chance(0.015)) n = r.Range(6, 45);  // a big file
    for (int i = 0; i < n && !ok.empty(); ++i) pick.push_back(r.Pick(ok));
    return JoinInts(pick);
  }
  std::string Scat(const std::vector<int> &ids) {
    std::vector<std::vector<int>> s;
    bool fine = r.Chance(0.04);
    for (int i : ids) {
      std::vector<int> e;
      for (int d = 0; d < dims[i]; ++d) e.push_back(fine ? r.Range(1, dims[i] == 1 ? 150 : dims[i] == 2 ? 16 : 6) : r.Range(1, dims[i] == 1 ? 9 : dims[i] == 2 ? 5 : 3));
      s.push_back(e);
    }
    return ScatText(s);
  }
  static std::vector<int> ToInts(const std::string &s) { Line l; l.Set("x", s); return l.Ints("x"); }
  void Clock() {
    static const std::vector<std::string> tz = {"UTC0", "SIM5:30", "SIM-9", "SIM12", "SIM-13:45", "CET-1CEST,M3.5.0,M10.5.0/3", "EST5EDT,M3.2.0,M11.1.0"};
    long long t = r.Chance(0.3) ? static_cast<long long>(r.Below(4102444800ull)) : 946684800ll + static_cast<long long>(r.Below(1200000000ull));
    if (r.Chance(0.3)) {  // around the turn of a year, month or minute, and single digit fields
      static const std::vector<long long> edge = {946684799, 978307199, 1072915199, 1577836799, 1583020799, 1609459199, 1136073600, 1167609600 + 3661, 951782399, 4102444799ll, 86399, 0, 1583632800 + 18000, 1604210400};
      t = r.Pick(edge) + r.Range(-2, 2);
      if (t < 0) t = 0;
    }
    plan.Add("clock").Set("t", t).Set("tick", r.Chance(0.4) ? 0 : r.Range(1, 70)).Set("tz", r.Pick(tz));
  }
  Line Write(const std::string &fmt, const std::string &file, bool allow_bad) {
    Line l("write");
    std::string ids = Some(allow_bad && r.Chance(0.12) ? 4 : MaxDim(fmt), 4);
    l.Set("fmt", fmt).Set("file", file).Set("splines", ids);
    if (fmt == "vtk") {
      std::string sc = Scat(ToInts(ids));
      if (allow_bad && r.Chance(0.1)) sc = r.Chance(0.5) ? Scat(ToInts(Some(3, 3))) : "2x2";
      l.Set("scat", sc);
    }
    return l;
  }

  // faults for one operation, at positions taken from the fault free run of the same operation
  void Faults(const env::Counts &c, const std::string &mode, std::vector<Line> *out) {
    auto place = [&](long n) -> long {
      if (n <= 1) return 0;
      double u = r.Unit();
      if (u < 0.2) return 0;
      if (u < 0.4) return n - 1;
      return static_cast<long>(r.Below(static_cast<uint64_t>(n)));
    };
    auto num = [&](const std::string &op) { auto it = c.ev.find(op); return it == c.ev.end() ? 0l : it->second; };
    auto add = [&](const std::string &op, const std::string &kind, long arg, bool sticky) {
      long n = op == "alloc" ? c.allocs : num(op);
      if (n == 0) return;
      Line l("fault");
      l.Set("op", op).Set("n", place(n)).Set("kind", kind);
      if (arg) l.Set("arg", arg);
      if (sticky) l.Set("sticky", 1);
      out->push_back(l);
    };
    int k = r.Chance(0.7) ? 1 : r.Range(2, 3);
    for (int i = 0; i < k; ++i) {
      if (mode == "crash") {
        double u = r.Unit();
        if (u < 0.1) add("open", r.Chance(0.5) ? "crash" : "crash_after", 0, false);
        else if (u < 0.2) add("close", "crash", 0, false);
        else add("write", "crash", static_cast<long>(r.Below(20000)), false);
        return;
      }
      double u = r.Unit();
      if (mode == "alloc") { add("alloc", "fail", r.Chance(0.8) ? 1 : r.Range(2, 50), r.Chance(0.15)); continue; }
      bool rd = num("read") > 0, wr = num("write") > 0;
      if (mode == "read" || (rd && (!wr || r.Chance(0.5)))) {
        static const std::vector<std::string> rk = {"short", "short", "eintr", "eio", "eio", "eof"};
        if (u < 0.12) add("open", r.Chance(0.5) ? "emfile" : "eacces", 0, false);
        else if (u < 0.20) add("close", "eio", 0, false);
        else if (u < 0.28) add("alloc", "fail", 1, r.Chance(0.2));
        else if (u < 0.33) add("seek", "eio", 0, false);
        else { std::string kd = r.Pick(rk); add("read", kd, static_cast<long>(r.Below(10000)), kd == "eintr" ? false : r.Chance(0.3)); }
      } else {
        static const std::vector<std::string> wk = {"short", "short", "eintr", "eio", "enospc", "torn", "edquot"};
        if (u < 0.10) { static const std::vector<std::string> ok = {"eacces", "enospc", "emfile", "eintr"}; add("open", r.Pick(ok), 0, false); }
        else if (u < 0.25) add("close", r.Chance(0.5) ? "eio" : "enospc", static_cast<long>(r.Below(5000)), false);
        else if (u < 0.35) add("alloc", "fail", 1, r.Chance(0.2));
        else if (u < 0.50) out->push_back(Line("cap").Set("n", static_cast<long long>(r.Below(r.Chance(0.5) ? 400 : 12000))));
        else { std::string kd = r.Pick(wk); add("write", kd, static_cast<long>(r.Below(10000)), kd == "eintr" || kd == "short" ? r.Chance(0.2) && kd == "short" : r.Chance(0.4)); }
      }
    }
  }

  // Inserts faults before some of the operations (after a fault free run), and retries of them behind.
  void Inject(const std::vector<std::string> &modes, double p_op, bool retry) {
    Result dry;
    std::vector<OpCount> counts;
    PublishPlan(plan);
    Runner(plan, &dry, prop, &counts).Run();
    if (dry.violated) return;  // the fault free plan fails already
    Plan out;
    size_t ci = 0;
    bool any = false;
    for (size_t i = 0; i < plan.lines.size(); ++i) {
      const Line &l = plan.lines[i];
      bool op = l.kind == "write" || l.kind == "read" || l.kind == "conv" || l.kind == "prog";
      if (op) {
        while (ci < counts.size() && counts[ci].line < i) ++ci;
        if (ci < counts.size() && counts[ci].line == i && (r.Chance(p_op) || !any)) {
          std::vector<Line> f;
          Faults(counts[ci].c, r.Pick(modes), &f);
          any |= !f.empty();
          for (auto &x : f) out.lines.push_back(x);
          out.lines.push_back(l);
          if (retry && !f.empty()) {
            Line again = l;
            if (l.kind == "conv") again.Set("again", 1);
            out.lines.push_back(again);
          }
          continue;
        }
      }
      out.lines.push_back(l);
    }
    plan = out;
  }

  std::string Fmt3() { static const std::vector<std::string> f = {"iges", "itd", "xml"}; return r.Pick(f); }
  std::string Fmt4() { static const std::vector<std::string> f = {"iges", "itd", "xml", "vtk"}; return r.Pick(f); }

  // Names of files: also long ones and ones with characters that mean something inside a file
  std::string Name(const std::string &stem) {
    if (r.Chance(0.8)) return stem;
    static const std::vector<std::string> odd = {",", ";", "a,b;c", "12H", "1.5", "<&>", "#", "'", "[x]", ":"};
    if (r.Chance(0.3)) return stem + std::string(static_cast<size_t>(r.Range(1, 140)), 'n');
    return stem + r.Pick(odd) + (r.Chance(0.5) ? r.Pick(odd) : "");
  }

  void GenWrite(bool vtk) {
    Splines(r.Range(1, 4), vtk ? 3 : 4, r.Chance(0.9) ? (vtk ? 3 : 4) : 6);
    if (vtk) for (auto &l : plan.lines) if (l.kind == "spline") { auto d = l.Ints("deg"); for (auto &x : d) x = std::max(1, x); l.Set("deg", JoinInts(d)); }
    if (r.Chance(0.5)) Clock();
    int n = r.Range(1, 3);
    std::string stem = Name("/d/f");
    plan.Add("junk").Set("file", "/d/other.txt").Set("seed", r.Below(1000)).Set("len", r.Range(1, 200)).Set("ascii", 1);
    for (int i = 0; i < n; ++i) {
      std::string fmt = vtk ? "vtk" : Fmt3();
      std::string file = stem + std::to_string(r.Below(2)) + "." + fmt;
      if (r.Chance(0.2)) plan.Add("junk").Set("file", file).Set("seed", r.Below(1000)).Set("len", r.Range(1, 30000)).Set("ascii", 1);
      if (r.Chance(0.04)) file = "/no/such." + fmt;
      plan.lines.push_back(Write(fmt, file, true));
      if (!vtk && r.Chance(0.7)) plan.Add("read").Set("fmt", fmt).Set("file", file);
    }
    if (r.Chance(0.8)) Inject({"write"}, 0.6, true);
  }
  // Places complete files on the disk: some by the harness, some by the library
  std::vector<std::string> Sources(int n, int pdmax) {
    std::vector<std::string> fs;
    Splines(r.Range(1, 4), 4, pdmax);
    for (int i = 0; i < n; ++i) {
      std::string fmt = Fmt3(), file = Name("/d/in" + std::to_string(i)) + "." + fmt;
      if (r.Chance(0.7)) plan.Add("put").Set("fmt", fmt).Set("file", file).Set("splines", Some(MaxDim(fmt), 5)).Set("style", static_cast<long long>(r.Below(kLayouts)));
      else plan.lines.push_back(Write(fmt, file, false));
      fs.push_back(file);
    }
    return fs;
  }
  void GenRead() {
    auto fs = Sources(r.Range(1, 3), 3);
    for (auto &f : fs) {
      plan.Add("read").Set("fmt", Ext(f)).Set("file", f);
      if (r.Chance(0.3)) plan.Add("read").Set("fmt", Ext(f)).Set("file", f);
    }
    if (r.Chance(0.05)) plan.Add("read").Set("fmt", "xml").Set("file", "/d/missing.xml");
    if (r.Chance(0.85)) {
      Inject({"read"}, 0.7, true);
    }
  }
  void GenCut() {
    if (r.Chance(0.55)) {  // a writer is killed
      Splines(r.Range(1, 3), 3, 3);
      std::string fmt = Fmt3(), file = "/d/f." + fmt;
      if (r.Chance(0.3)) plan.lines.push_back(Write(fmt, file, false));  // an older version
      Line w = Write(fmt, file, false);
      Plan keep = plan;
      plan.lines.push_back(w);
      Result dry;
      std::vector<OpCount> counts;
      PublishPlan(plan);
    Runner(plan, &dry, prop, &counts).Run();
      if (dry.violated || counts.empty()) return;
      plan = keep;
      std::vector<Line> f;
      Faults(counts.back().c, "crash", &f);
      for (auto &x : f) plan.lines.push_back(x);
      plan.lines.push_back(w);
      plan.Add("read").Set("fmt", fmt).Set("file", file);
      plan.lines.push_back(w);
      plan.Add("read").Set("fmt", fmt).Set("file", file);
    } else {  // a file is cut
      auto fs = Sources(1, 3);
      std::string f = fs[0];
      Result dry;
      PublishPlan(plan);
    Runner(plan, &dry, prop, nullptr).Run();
      std::string b;
      env::GetFile(f, &b);
      long size = static_cast<long>(b.size());
      long at = r.Chance(0.25) ? std::max(0l, size - static_cast<long>(r.Below(200))) : static_cast<long>(r.Below(static_cast<uint64_t>(size) + 1));
      if (r.Chance(0.35)) {  // at the end of a line
        size_t p = b.find('\n', static_cast<size_t>(at));
        if (p != std::string::npos) at = static_cast<long>(p) + static_cast<long>(r.Below(2));
      }
      plan.Add("cut").Set("file", f).Set("at", at);
      plan.Add("read").Set("fmt", Ext(f)).Set("file", f);
    }
  }
  void GenHostile() {
    int kind = static_cast<int>(r.Below(10));
    std::string fmt = Fmt3();
    std::string f = "/d/h." + fmt;
    if (kind == 0) {
      plan.Add("junk").Set("file", f).Set("seed", r.Below(1000000)).Set("len", r.Range(0, 2000)).Set("ascii", r.Below(2));
    } else {
      Splines(r.Range(1, 2), 3, 3);
      if (r.Chance(0.5)) plan.Add("put").Set("fmt", fmt).Set("file", f).Set("splines", Some(MaxDim(fmt), 2)).Set("style", static_cast<long long>(r.Below(kLayouts)));
      else plan.lines.push_back(Write(fmt, f, false));
      plan.Add("mutate").Set("file", f).Set("seed", r.Below(1000000)).Set("n", r.Chance(0.6) ? 1 : r.Range(2, 6));
    }
    plan.Add("read").Set("fmt", r.Chance(0.95) ? fmt : Fmt3()).Set("file", f);
    if (r.Chance(0.4)) {
      std::string of = Fmt3(), o = "/d/out." + of;
      plan.Add("conv").Set("in", f).Set("out", o).Set("pos", r.Chance(0.5) ? "" : "0");
      if (r.Chance(0.5)) plan.Add("read").Set("fmt", of).Set("file", o);
    }
    if (r.Chance(0.25)) {
      static const std::map<std::string, std::string> nm = {{"iges", "iges"}, {"itd", "irit"}, {"xml", "xml"}};
      std::string of = Fmt3();
      if (of != fmt) {
        plan.Add("log").Set("file", "/d/log.txt").Set("in", f).Set("out", "/d/po." + of).Set("opts", r.Chance(0.5) ? "all" : "0,1");
        if (r.Chance(0.5)) plan.Add("mutate").Set("file", "/d/log.txt").Set("seed", r.Below(1000000)).Set("n", r.Range(1, 3));
        plan.Add("prog").Set("name", nm.at(fmt) + "_to_" + nm.at(of)).Set("log", "/d/log.txt");
      }
    }
  }
  std::string Positions(int n) {
    std::vector<int> p;
    int k = r.Range(1, 5);
    for (int i = 0; i < k; ++i) p.push_back(r.Chance(0.9) ? static_cast<int>(r.Below(static_cast<uint64_t>(std::max(1, n)))) : r.Range(0, 9));
    return JoinInts(p);
  }
  // scattering entries by position list ("" = all)
  std::string ConvScat(const std::vector<int> &content, const std::string &pos) {
    std::vector<std::vector<int>> s;
    auto entry = [&](int d) {
      std::vector<int> e;
      for (int k = 0; k < d; ++k) e.push_back(r.Range(1, d == 1 ? 7 : d == 2 ? 4 : 2));
      return e;
    };
    if (pos.empty()) {
      for (int c : content) s.push_back(entry(dims[c]));
    } else {
      for (int p : ToInts(pos)) s.push_back(entry(p >= 0 && p < static_cast<int>(content.size()) ? dims[content[p]] : r.Range(1, 2)));
    }
    if (r.Chance(0.06) && !s.empty()) s.pop_back();
    return ScatText(s);
  }
  struct Src { std::string file, fmt; std::vector<int> content; };
  Src Source() {
    Splines(r.Range(1, 5), 4, r.Chance(0.93) ? 3 : 4);
    for (auto &l : plan.lines) if (l.kind == "spline") { auto d = l.Ints("deg"); for (auto &x : d) x = std::max(1, x); l.Set("deg", JoinInts(d)); }
    Src s;
    s.fmt = Fmt3();
    if (r.Chance(0.4)) s.fmt = "xml";
    s.file = (r.Chance(0.9) ? Name("/d/in") + "." : "/d/sub/a.b.") + s.fmt;
    std::string ids = Some(MaxDim(s.fmt), 5);
    s.content = ToInts(ids);
    if (r.Chance(0.8)) {
      // the emitter leaves out what the format cannot hold
      std::vector<int> keep;
      for (int c : s.content) {
        bool pd_ok = true;
        for (auto &l : plan.lines) if (l.kind == "spline" && l.Int("id") == c && s.fmt == "iges" && l.Int("pd") > 3) pd_ok = false;
        if (pd_ok) keep.push_back(c);
      }
      s.content = keep;
      plan.Add("put").Set("fmt", s.fmt).Set("file", s.file).Set("splines", JoinInts(keep)).Set("style", static_cast<long long>(r.Below(kLayouts)));
    } else {
      Line w("write");
      w.Set("fmt", s.fmt).Set("file", s.file).Set("splines", ids);
      plan.lines.push_back(w);
    }
    return s;
  }
  void GenConvert() {
    Src s = Source();
    int n = r.Range(1, 4);
    std::string of = Fmt4();
    if (r.Chance(0.5)) Clock();
    std::string stem = Name("/d/out");
    for (int i = 0; i < n; ++i) {
      if (i && r.Chance(0.4)) of = Fmt4();
      std::string out = stem + "." + of;
      if (r.Chance(0.03)) out = r.Chance(0.5) ? "/d/out.obj" : "/no/out." + of;
      std::string pos = r.Chance(0.35) ? "" : Positions(static_cast<int>(s.content.size()));
      Line &l = plan.Add("conv");
      l.Set("in", s.file).Set("out", out).Set("pos", pos);
      if (of == "vtk") l.Set("scat", ConvScat(s.content, pos));
      if (r.Chance(0.7)) l.Set("again", 1);
    }
    if (r.Chance(0.7)) Inject({"any", "any", "alloc"}, 0.5, true);
  }
  static std::string PN(const std::string &fmt) { return fmt == "itd" ? "irit" : fmt; }
  void GenProg(bool crash) {
    Src s = Source();
    if (r.Chance(0.7)) Clock();
    std::string of;
    do { of = Fmt4(); } while (of == s.fmt);
    std::string opts = r.Chance(0.4) ? "all" : Positions(static_cast<int>(s.content.size()));
    std::string result = Name("/d/result") + "." + of;
    Line &l = plan.Add("log");
    l.Set("file", "/d/log.txt").Set("in", s.file).Set("out", result).Set("opts", opts);
    if (of == "vtk") l.Set("scat", ConvScat(s.content, opts == "all" ? "" : opts));
    if (r.Chance(0.3)) l.Set("chop", 1);
    if (r.Chance(0.3)) l.Set("gap", r.Chance(0.6) ? 0 : 2);
    if (r.Chance(0.3)) plan.Add("junk").Set("file", result).Set("seed", r.Below(1000)).Set("len", r.Range(1, 9000)).Set("ascii", 1);
    int n = crash ? r.Range(1, 4) : r.Range(1, 3);
    Line p("prog");
    p.Set("name", PN(s.fmt) + "_to_" + PN(of)).Set("log", "/d/log.txt");
    for (int i = 0; i < n; ++i) {
      plan.lines.push_back(p);
      if (r.Chance(0.3)) Clock();
    }
    if (r.Chance(crash ? 1.0 : 0.85)) {
      if (crash) Inject({"crash", "crash", "any", "alloc"}, 0.6, false);
      else Inject({"any", "any", "any", "alloc"}, 0.6, true);
    }
    if (crash) plan.lines.push_back(p);
  }
  void GenClock() {
    Splines(r.Range(1, 2), 2, 3);
    Clock();
    int n = r.Range(1, 3);
    for (int i = 0; i < n; ++i) {
      std::string file = Name("/d/f" + std::to_string(i)) + ".iges";
      if (r.Chance(0.6)) {
        if (r.Chance(0.5)) plan.Add("fault").Set("op", "clock").Set("n", r.Below(2)).Set("kind", "jump").Set("arg", static_cast<long long>(r.Range(-400000000, 400000000)));
        plan.lines.push_back(Write("iges", file, false));
        plan.Add("read").Set("fmt", "iges").Set("file", file);
      } else {
        std::string of = r.Chance(0.6) ? "iges" : "itd";
        std::string in = "/d/src." + std::string(of == "iges" ? "itd" : "xml");
        plan.Add("put").Set("fmt", Ext(in)).Set("file", in).Set("splines", Some(2, 3)).Set("style", static_cast<long long>(r.Below(kLayouts)));
        plan.Add("log").Set("file", "/d/log.txt").Set("in", in).Set("out", "/d/o." + of).Set("opts", "all");
        if (r.Chance(0.5)) plan.Add("fault").Set("op", "clock").Set("n", r.Below(3)).Set("kind", "jump").Set("arg", static_cast<long long>(r.Range(-400000000, 400000000)));
        plan.Add("prog").Set("name", PN(Ext(in)) + "_to_" + PN(of)).Set("log", "/d/log.txt");
      }
      if (r.Chance(0.6)) Clock();
    }
  }
  void GenLeak() {
    int k = static_cast<int>(r.Below(4));
    if (k == 0) {
      Splines(r.Range(1, 2), 3, 3);
      std::string fmt = Fmt4();
      plan.lines.push_back(Write(fmt, "/d/f." + fmt, true));
    } else if (k == 1) {
      auto fs = Sources(1, 3);
      if (r.Chance(0.3)) plan.Add("mutate").Set("file", fs[0]).Set("seed", r.Below(1000000)).Set("n", 1);
      plan.Add("read").Set("fmt", Ext(fs[0])).Set("file", fs[0]);
    } else if (k == 2) {
      Src s = Source();
      std::string of = Fmt4();
      std::string pos = r.Chance(0.35) ? "" : Positions(static_cast<int>(s.content.size()));
      Line &l = plan.Add("conv");
      l.Set("in", s.file).Set("out", "/d/out." + of).Set("pos", pos);
      if (of == "vtk") l.Set("scat", ConvScat(s.content, pos));
    } else {
      Src s = Source();
      std::string of;
      do { of = Fmt4(); } while (of == s.fmt);
      Line &l = plan.Add("log");
      l.Set("file", "/d/log.txt").Set("in", s.file).Set("out", "/d/result." + of).Set("opts", "all");
      if (of == "vtk") l.Set("scat", ConvScat(s.content, ""));
      plan.Add("prog").Set("name", PN(s.fmt) + "_to_" + PN(of)).Set("log", "/d/log.txt");
    }
    plan.lines.back().Set("rep", 3);
    // the last operation is the one under test
    Line last = plan.lines.back();
    Result dry;
    std::vector<OpCount> counts;
    PublishPlan(plan);
    Runner(plan, &dry, prop, &counts).Run();
    if (dry.violated || counts.empty() || r.Chance(0.15)) return;
    plan.lines.pop_back();
    std::vector<Line> f;
    Faults(counts.back().c, r.Chance(0.65) ? "alloc" : "any", &f);
    for (auto &x : f) plan.lines.push_back(x);
    plan.lines.push_back(last);
    last.Set("rep", 0);
    plan.lines.push_back(last);
  }
};
}  // namespace

Plan GenerateDisk(const std::string &prop, uint64_t seed, const std::string &) {
  Gen g(seed, prop);
  if (prop == "P01") g.GenWrite(false);
  else if (prop == "P02") g.GenWrite(true);
  else if (prop == "P03") g.GenRead();
  else if (prop == "P04") g.GenCut();
  else if (prop == "P05") g.GenHostile();
  else if (prop == "P06") g.GenConvert();
  else if (prop == "P07") g.GenProg(false);
  else if (prop == "P08") g.GenProg(true);
  else if (prop == "P09") g.GenClock();
  else g.GenLeak();
  return g.plan;
}
void ExecuteDisk(const std::string &prop, const Plan &plan, Result *result) {
  Runner(plan, result, prop, nullptr).Run();
}
}  // namespace sim
