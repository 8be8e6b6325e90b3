// BUILD: seq lib=profiler.cpp,HighPrecisionTimer.cpp,bss_util_c.c,bss_util.cpp,ConvertUTF.c
// Profiler under a virtual clock: every small program of nested zones; the tree, flat and heat reports against a list of all calls.
#include "mc.h"
#include <cmath>
#include <map>
#include <sstream>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#define BSS_ENABLE_PROFILER
#include "bss-util/Profiler.h"
using namespace bss;
typedef std::string S; typedef std::vector<int> Path;
static bool VIRTUAL = false; static uint64_t NOW = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept { if(!VIRTUAL) return (int)syscall(SYS_clock_gettime, id, ts); ts->tv_sec = (time_t)(NOW / 1000000000); ts->tv_nsec = (long)(NOW % 1000000000); return 0; }
// the profiling points of the program: ids are handed out in order of registration
static const int POINTS = 40;
static Profiler::ProfilerData* point[POINTS + 1]; static S pname[POINTS + 1], pfile[POINTS + 1], plabel[POINTS + 1];
static void reg() {
  if(point[1]) return;
  for(int i = 1; i <= POINTS; ++i) {
    pname[i] = mc::fmt("p%d", i); pfile[i] = mc::fmt(i % 3 == 0 ? "f%d.cpp" : i % 3 == 1 ? "dir/sub/f%d.cpp" : "dir\\f%d.cpp", i); plabel[i] = mc::fmt("[f%d.cpp:%d] p%d", i, 100 + i, i);
    point[i] = new Profiler::ProfilerData(pname[i].c_str(), pfile[i].c_str(), 100 + i);
    MC_CHECK(point[i]->id == i, "point %d got id %d", i, (int)point[i]->id);
  }
}
struct Stat { uint64_t n = 0; long double sum = 0, code = 0; double avg() const { return n ? (double)(sum / n) : 0; } double codeavg() const { return n ? (double)(code / n) : 0; } };
typedef std::map<Path, Stat> Ref;
struct Line { size_t level; S label; double value; };
static double timeValue(const S& s, const S& line) { char* e; double v = strtod(s.c_str(), &e); S u = e; if(u == " s") v *= 1e9; else if(u == " ms") v *= 1e6; else if(u == " \xCE\x9Cs" || u == " \xCE\xBCs" || u == " \xC2\xB5s" || u == " us") v *= 1e3; else if(u != " ns") mc::fail("no time in the line \"%s\"", line.c_str()); return v; }
static std::vector<Line> parse(std::istream& in, const char* title, bool heat) {
  S l; std::vector<Line> r; if(!std::getline(in, l)) mc::fail("the report ends early"); MC_CHECK(l == title, "report starts with \"%s\", expected \"%s\"", l.c_str(), title);
  while(std::getline(in, l) && !l.empty()) {
    size_t sp = 0; while(sp < l.size() && l[sp] == ' ') ++sp; MC_CHECK(sp % 2 == 0, "odd indentation in \"%s\"", l.c_str());
    S b = l.substr(sp); if(heat) { size_t k = b.rfind("   ["); MC_CHECK(k != S::npos, "no bar in \"%s\"", l.c_str()); b = b.substr(0, k); }
    size_t k = b.rfind(": "); MC_CHECK(k != S::npos, "no time in \"%s\"", l.c_str()); r.push_back({ sp / 2, b.substr(0, k), timeValue(b.substr(k + 2), l) });
  }
  return r;
}
static bool near(double a, double b) { return std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-9; }
static S show(const Path& p) { S s; for(int i : p) s += mc::fmt("/p%d", i); return s; }
static void check(const Ref& ref, const S& log) {
  std::stringstream out; LIB((Profiler::profiler.WriteToStream(out, Profiler::OUTPUT_ALL), 0)); S text = out.str(), skip;
  auto tree = parse(out, "BSS Profiler Tree Output: ", false); std::getline(out, skip);
  auto flat = parse(out, "BSS Profiler Flat Output: ", false); std::getline(out, skip);
  auto heat = parse(out, "BSS Profiler Heat Output: ", true);
  std::map<S, int> byname; for(int i = 1; i <= POINTS; ++i) byname[plabel[i]] = i;
  { Path p; size_t seen = 0; for(auto& l : tree) { MC_CHECK(l.level <= p.size(), "tree: %s is indented too far, after %s\n%s", l.label.c_str(), log.c_str(), text.c_str()); p.resize(l.level); MC_CHECK(byname.count(l.label), "tree: unknown point %s", l.label.c_str()); p.push_back(byname[l.label]);
      auto it = ref.find(p); MC_CHECK(it != ref.end(), "tree: %s was never run, after %s\n%s", show(p).c_str(), log.c_str(), text.c_str()); MC_CHECK(near(l.value, it->second.avg()), "tree: %s took %g ns, expected %g, after %s", show(p).c_str(), l.value, it->second.avg(), log.c_str()); ++seen; }
    MC_CHECK(seen == ref.size(), "tree: %zu zones are listed, expected %zu, after %s\n%s", seen, ref.size(), log.c_str(), text.c_str()); }
  { std::map<int, Stat> f; for(auto& r : ref) { Stat& s = f[r.first.back()]; s.n += r.second.n; s.sum += r.second.sum; } std::map<int, int> seen; double last = 1e300;
    for(auto& l : flat) { MC_CHECK(byname.count(l.label), "flat: unknown point %s", l.label.c_str()); int i = byname[l.label]; MC_CHECK(!seen[i]++, "flat: %s is listed twice", l.label.c_str()); MC_CHECK(near(l.value, f[i].avg()), "flat: %s took %g ns, expected %g, after %s", l.label.c_str(), l.value, f[i].avg(), log.c_str()); MC_CHECK(l.value <= last * (1 + 2e-5), "flat: %s is out of order, after %s", l.label.c_str(), log.c_str()); last = l.value; }
    MC_CHECK((int)flat.size() == POINTS, "flat: %zu points are listed, expected %d", flat.size(), POINTS); }
  { Path p; size_t seen = 0, codes = 0; std::vector<double> last; std::map<Path, int> kids; for(auto& r : ref) { Path q = r.first; q.pop_back(); ++kids[q]; }
    for(auto& l : heat) { MC_CHECK(l.level <= p.size(), "heat: %s is indented too far, after %s\n%s", l.label.c_str(), log.c_str(), text.c_str()); p.resize(l.level); last.resize(std::max(last.size(), l.level + 1), 1e300); last.resize(l.level + 1);
      MC_CHECK(l.value <= last[l.level] * (1 + 2e-5), "heat: %s under %s is out of order, after %s\n%s", l.label.c_str(), show(p).c_str(), log.c_str(), text.c_str()); last[l.level] = l.value;
      if(l.label == "[code]") { ++codes; auto it = ref.find(p); MC_CHECK(it != ref.end() && kids[p], "heat: own time of %s is listed, which has no inner zones", show(p).c_str()); MC_CHECK(near(l.value, it->second.codeavg()), "heat: own time of %s is %g ns, expected %g, after %s", show(p).c_str(), l.value, it->second.codeavg(), log.c_str()); continue; }
      MC_CHECK(byname.count(l.label), "heat: unknown point %s", l.label.c_str()); p.push_back(byname[l.label]); auto it = ref.find(p); MC_CHECK(it != ref.end(), "heat: %s was never run, after %s\n%s", show(p).c_str(), log.c_str(), text.c_str()); MC_CHECK(near(l.value, it->second.avg()), "heat: %s took %g ns, expected %g, after %s", show(p).c_str(), l.value, it->second.avg(), log.c_str()); ++seen; }
    size_t inner = 0; for(auto& k : kids) inner += !k.first.empty(); MC_CHECK(seen == ref.size() && codes == inner, "heat: %zu zones and %zu own times are listed, expected %zu and %zu, after %s\n%s", seen, codes, ref.size(), inner, log.c_str(), text.c_str()); }
}
static void reset() { Profiler::PROF_TRIENODE* r = Profiler::profiler.GetRoot(); MC_CHECK(Profiler::profiler.GetCur() == r, "a zone is still open"); for(auto& k : r->_children) k = 0; r->inner = 0; r->avg = r->codeavg = 0; }
static void run(mc::Ctx& c, int len, size_t maxdepth, const std::vector<int>& ids, const std::vector<uint64_t>& steps) {
  mc::EnumOpt o; o.leakcheck = false; // the profiler keeps its nodes
  mc::enumerate(c, o, [&](mc::Choose& ch) {
    struct Clock { Clock() { NOW = 5000000007ull; VIRTUAL = true; } ~Clock() { VIRTUAL = false; } } clock;
    reg(); reset(); Ref ref; S log; struct Open { uint64_t t0, inner, start; Profiler::PROF_TRIENODE* cache; ProfilerBlock* block; }; std::vector<Open> st; Path path;
    auto close = [&]() { Open z = st.back(); st.pop_back(); if(z.block) delete z.block; else Profiler::profiler.EndProfile(z.start, z.cache); uint64_t d = NOW - z.t0; Stat& s = ref[path]; ++s.n; s.sum += d; s.code += d - z.inner; path.pop_back(); if(!st.empty()) st.back().inner += d; log += ")"; };
    for(int i = 0; i < len; ++i) {
      uint64_t d = ch.of(steps); NOW += d; log += mc::fmt("+%llu", (unsigned long long)d);
      int k = ch(path.size() < maxdepth ? (int)ids.size() + 1 : 1);
      if(!k) { if(st.empty()) break; close(); continue; } // an end without a zone ends the program
      int id = ids[k - 1]; log += mc::fmt(" p%d(", id); path.push_back(id); Open z; z.t0 = NOW; z.inner = 0; z.block = 0; z.cache = Profiler::profiler.GetCur();
      if((path.size() + i) & 1) z.block = new ProfilerBlock(point[id]->id, Profiler::profiler.GetCur()); else z.start = Profiler::profiler.StartProfile(point[id]->id);
      st.push_back(z);
    }
    while(!st.empty()) { NOW += steps.back(); close(); }
    c.outcome(log); check(ref, log);
  });
}
MC_CONFIG("nested zones, two points") { run(c, c.pick(6, 8), 4, { 1, 2 }, { 0, 3 }); }
MC_CONFIG("points beyond 15") { run(c, c.pick(5, 6), 3, { 1, 2, 17, 18, 33 }, { 2 }); }
MC_CONFIG("points that are multiples of 16") { run(c, c.pick(5, 6), 3, { 1, 16, 32, 15 }, { 5 }); }
MC_CONFIG("units") { run(c, c.pick(3, 4), 2, { 3, 5 }, { 1, 999, 1000001, 70000000, 1500000000ull, 3000000000000ull }); }
MC_CONFIG("many repeats") { run(c, c.pick(9, 11), 2, { 7 }, { 1, 10 }); }
// the macros: a static point per place, zones that end with their scope
MC_CONFIG("macros") {
  mc::EnumOpt o; o.leakcheck = false;
  mc::enumerate(c, o, [&](mc::Choose& ch) {
    VIRTUAL = true; NOW = 1000; reg(); reset(); int n = ch(4), inner = ch(3); long double fo = 0, fi = 0;
    for(int i = 0; i < n; ++i) { PROFILE_BLOCK(outer); NOW += 10; uint64_t t = NOW; for(int j = 0; j < inner; ++j) { PROFILE_BEGIN(inner); NOW += 4 + j; PROFILE_END(inner); } fi += NOW - t; NOW += i; fo += 10 + i + (NOW - i - t); }
    std::stringstream out; Profiler::profiler.WriteToStream(out, Profiler::OUTPUT_TREE); VIRTUAL = false; auto l = parse(out, "BSS Profiler Tree Output: ", false);
    MC_CHECK(l.size() == (size_t)(n ? inner ? 2 : 1 : 0), "%zu zones are listed", l.size());
    if(n) { MC_CHECK(l[0].level == 0 && l[0].label.find("] outer") != S::npos && near(l[0].value, (double)(fo / n)), "outer: %s %g", l[0].label.c_str(), l[0].value); if(inner) MC_CHECK(l[1].level == 1 && l[1].label.find("] inner") != S::npos && near(l[1].value, (double)(fi / (n * inner))), "inner: %s %g, expected %g", l[1].label.c_str(), l[1].value, (double)(fi / (n * inner))); }
  });
}
