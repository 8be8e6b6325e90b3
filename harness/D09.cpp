// BUILD: seq lib=HighPrecisionTimer.cpp,bss_util_c.c,bss_util.cpp,ConvertUTF.c
// Timer, Scheduler and Animation under a virtual clock: every history of steps against a reference.
#include "mc.h"
#include <functional>
#include <memory>
#include <sstream>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include "bss-util/JSON.h"
#include "bss-util/HighPrecisionTimer.h"
#include "bss-util/Scheduler.h"
#include "bss-util/Animation.h"

using namespace bss;
typedef std::string S;
static bool VIRTUAL = false; static uint64_t NOW = 0;
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) noexcept { if(!VIRTUAL) return (int)syscall(SYS_clock_gettime, id, ts); ts->tv_sec = (time_t)(NOW / 1000000000); ts->tv_nsec = (long)(NOW % 1000000000); return 0; }
struct Clock { Clock() { NOW = 5000000007ull; VIRTUAL = true; } ~Clock() { VIRTUAL = false; } };
// timer
MC_CONFIG("timer: all histories") { int len = c.pick(4, 5); mc::enumerate(c, [&](mc::Choose& ch) { Clock k; HighPrecisionTimer t; uint64_t cur = NOW, ns = 0, nd = 0; double d = 0; S log; static const uint64_t ST[] = { 0, 1, 1500000, 3999999999ull };
    auto check = [&](const char* what) { log += what; log += ","; MC_CHECK(t.GetTimeNS() == ns && t.GetDeltaNS() == nd, "after %s the timer is at %llu ns with a step of %llu, expected %llu and %llu", log.c_str(), (unsigned long long)t.GetTimeNS(), (unsigned long long)t.GetDeltaNS(), (unsigned long long)ns, (unsigned long long)nd); MC_CHECK(t.GetDelta() == d && t.GetTime() == ns / 1000000.0, "after %s the timer is at %.9g ms with a step of %.9g ms, expected %.9g and %.9g", log.c_str(), t.GetTime(), t.GetDelta(), ns / 1000000.0, d); };
    check("start"); for(int i = 0; i < len; ++i) { NOW += ch.of(ST);
      switch(ch(9)) { case 8: { static const double W[] = { 1.0, 1.5, 1.0009765625 }; double w = ch.of(W); t.Update(w); nd = (uint64_t)((NOW - cur) / w); d = (NOW - cur) / (1000000 * w); cur = NOW; ns += nd; check("Update(1.x)"); } break; case 0: { double r = t.Update(); nd = NOW - cur; cur = NOW; ns += nd; d = nd / 1000000.0; MC_CHECK(r == d, "Update returns %g", r); check("Update"); } break;
      case 1: { double r = t.Update(2.0); nd = (NOW - cur) / 2; d = (NOW - cur) / 2000000.0; cur = NOW; ns += nd; MC_CHECK(r == d, "Update(2) returns %g", r); check("Update(2)"); } break;
      case 2: { t.Update(0.5); nd = (NOW - cur) * 2; d = (NOW - cur) / 500000.0; cur = NOW; ns += nd; check("Update(0.5)"); } break;
      case 3: t.Override((uint64_t)2500000); cur = NOW; nd = 2500000; ns += nd; d = 2.5; check("Override(ns)"); break;
      case 4: t.Override(1.5); cur = NOW; nd = 1500000; ns += nd; d = 1.5; check("Override(ms)"); break;
      case 5: t.ResetTime(); ns = 0; check("ResetTime"); break; case 6: t.ResetDelta(); cur = NOW; nd = 0; d = 0; check("ResetDelta"); break;
      case 7: { uint64_t back = NOW; NOW = cur > 1000 ? cur - 1000 : 0; t.Update(); nd = 0; d = 0; check("Update, clock running backwards"); NOW = back; } break; } }
    uint64_t p = HighPrecisionTimer::OpenProfiler(); NOW += 77; MC_CHECK(HighPrecisionTimer::CloseProfiler(p) == 77, "profiler"); MC_CHECK(HighPrecisionTimer::NanosecondDiff(3500000000ull, 1000000000ull) == 2.5, "NanosecondDiff"); c.outcome(log); }); }
// scheduler
typedef Scheduler<std::function<double()>> Sch;
MC_CONFIG("scheduler: all histories") { int len = c.pick(4, 5); mc::enumerate(c, [&](mc::Choose& ch) { Clock k; std::unique_ptr<Sch> s(new Sch()); struct Ev { double due; int id; }; std::vector<Ev> m; double now = 0; int next = 0; S log; size_t fires = 0; bool updating = false;
    std::function<std::function<double()>(int, int)> mk = [&](int id, int kind) -> std::function<double()> { auto n = std::make_shared<int>(0); return [&, id, kind, n]() -> double {
        MC_CHECK(updating, "an event fires outside of Update"); if(++fires > 60) mc::fail("events fire endlessly after %s", log.c_str());
        size_t at = m.size(); double first = 1e300; for(size_t i = 0; i < m.size(); ++i) { if(m[i].due < first) first = m[i].due; if(m[i].id == id) at = i; } MC_CHECK(at < m.size(), "event %d fires though it is not scheduled, after %s", id, log.c_str()); MC_CHECK(m[at].due <= now, "event %d fires at %g ms, it is due at %g, after %s", id, now, m[at].due, log.c_str()); MC_CHECK(m[at].due == first, "event %d due at %g ms fires before one due at %g, after %s", id, m[at].due, first, log.c_str());
        m.erase(m.begin() + at); double r = 0; ++*n;
        switch(kind) { case 0: break; case 1: r = *n == 1 ? 2.0 : 0.0; break; case 2: r = 1.0; break; case 3: r = -1.0; break; case 4: if(*n == 1) { int j = next++; m.push_back({ now, j }); s->Add(0.0, mk(j, 0)); j = next++; m.push_back({ now + 1, j }); s->Add(1.0, mk(j, 0)); j = next++; m.push_back({ now - 1, j }); s->Add(-1.0, mk(j, 1)); r = 2.0; } break; }
        if(r > 0) m.push_back({ now + r, id }); return r; }; };
    for(int i = 0; i < len; ++i) { int o = ch(9);
      if(o < 5) { double t = ch(3); int id = next++; m.push_back({ now + t, id }); log += mc::fmt("Add(%g,kind %d),", t, o); auto f = mk(id, o); if(id & 1) LIB(s->Add(t, f)); else LIB(s->Add(t, std::move(f))); }
      else if(o < 7) { NOW += (o - 5) * 1000000ull + (o == 6 && ch(2) ? 1000000ull : 0); now = (NOW - 5000000007ull) / 1000000.0; log += mc::fmt("Update at %g,", now); updating = true; LIB(s->Update()); updating = false; for(auto& e : m) MC_CHECK(e.due > now, "event %d is due at %g ms and did not fire at %g, after %s", e.id, e.due, now, log.c_str()); }
      else if(o == 7) { log += "move,"; Sch* n = LIB(new Sch(std::move(*s))); s.reset(n); } else { log += "copy,"; Sch* n = LIB(new Sch(*s)); s.reset(n); }
      MC_CHECK(s->Length() == m.size(), "%zu events are scheduled, expected %zu, after %s", (size_t)s->Length(), m.size(), log.c_str()); }
    NOW += 10000000; now = (NOW - 5000000007ull) / 1000000.0; updating = true; log += "Update late"; s->Update(); for(auto& e : m) MC_CHECK(e.due > now, "event %d did not fire, after %s", e.id, log.c_str()); MC_CHECK(s->Length() == m.size(), "length at the end of %s", log.c_str()); updating = false; c.outcome(log); }); }
// animations
struct Obj { S log; int live = 0; double val = -99; int sets = 0; std::vector<int> act; void fire(int v) { log += mc::fmt("!%d", v); } int begin(int v) { log += mc::fmt("+%d", v); act.push_back(v); return v * 10; } void end(int a) { log += mc::fmt("-%d", a / 10); size_t i = 0; while(i < act.size() && act[i] * 10 != a) ++i; MC_CHECK(i < act.size(), "the end of interval %d is signalled twice", a / 10); act.erase(act.begin() + i); } void set(double v) { val = v; ++sets; } };
typedef AniData<int> DAni; typedef AniDataInterval<int> IAni; typedef AniDataSmooth<double> SAni; typedef Animation<DAni, IAni, SAni> Ani;
typedef AniState<Obj, Ani, AniStateDiscrete<Obj, DAni, int, &Obj::fire>, AniStateInterval<Obj, IAni, int, int, &Obj::begin, &Obj::end>, AniStateSmooth<Obj, SAni, double, &Obj::set>> St;
struct Fr { double t; int v; double d; };
struct Ref { std::vector<Fr> df, iv, sm; double len, loop, t = 0, init = 0; size_t dc = 0, ic = 0; std::vector<Fr> act; S log; double val = -99; int interp = 0; bool dup = false;
  void reset() { std::stable_sort(act.begin(), act.end(), [](const Fr& a, const Fr& b) { return a.t + a.d < b.t + b.d; }); for(auto& a : act) log += mc::fmt("-%d", a.v); act.clear(); dc = ic = 0; }
  void step() { while(dc < df.size() && df[dc].t <= t) log += mc::fmt("!%d", df[dc++].v); while(ic < iv.size() && iv[ic].t <= t) { log += mc::fmt("+%d", iv[ic].v); act.push_back(iv[ic++]); } for(;;) { int b = -1; for(size_t i = 0; i < act.size(); ++i) if(act[i].t + act[i].d <= t && (b < 0 || act[i].t + act[i].d < act[b].t + act[b].d)) b = (int)i; if(b < 0) break; log += mc::fmt("-%d", act[b].v); act.erase(act.begin() + b); }
    size_t cur = 0; while(cur < sm.size() && sm[cur].t <= t) ++cur; if(sm.empty() || (cur == sm.size() && sm.size() < 2)) return; double a, b, f; if(cur == sm.size()) { a = b = sm[cur - 1].v; f = 1; } else { a = cur ? sm[cur - 1].v : init; b = sm[cur].v; double t0 = cur ? sm[cur - 1].t : 0; f = (t - t0) / (sm[cur].t - t0); } double base = interp == 2 || interp == 3 ? init : 0; val = interp == 1 || interp == 3 ? base + (f == 1 ? b : a) : base + a + (b - a) * f; }
  bool go(double d) { if(t >= len && loop < 0) return false; t += d; step(); if(t >= len && loop >= 0) { reset(); t = fmod(t - len, len - loop) + loop; step(); } return t < len; } };
static void build(mc::Choose& ch, Ani& a, Ref& r, int which) {
  static const double TT[] = { 0, 0.5, 1, 2 };
  if(which == 0 || which == 3) { int n = ch(4), id = 0; for(int i = 0; i < n; ++i) { double t = TT[ch(4)]; bool dup = false; for(auto& f : r.df) dup |= f.t == t; if(dup) { r.dup = true; return; } Fr f{ t, ++id, 0 }; size_t p = 0; while(p < r.df.size() && r.df[p].t < t) ++p; r.df.insert(r.df.begin() + p, f); if(ch(2)) { size_t q = a.Add<DAni>(t, f.v); MC_CHECK(q == p, "Add gives index %zu, expected %zu", q, p); } else { DAni::FRAME fr{ t, f.v }; a.Add<DAni>(fr); } } }
  if(which == 1 || which == 3) { int n = ch(which == 3 ? 2 : 4), id = 10; static const double LEN[] = { 0, 0.5, 1.5 }; for(int i = 0; i < n; ++i) { double t = TT[ch(4)], d = LEN[ch(3)]; bool dup = false; for(auto& f : r.iv) dup |= f.t == t || f.t + f.d == t + d; if(dup) { r.dup = true; return; } Fr f{ t, ++id, d }; size_t p = 0; while(p < r.iv.size() && r.iv[p].t < t) ++p; r.iv.insert(r.iv.begin() + p, f); IAni::FRAME fr{ t, f.v, d }; a.Add<IAni>(fr); } }
  if(which == 2) { r.interp = ch(4); static SAni::INTERPOLATE F[] = { &SAni::LerpInterpolate, &SAni::NoInterpolate, &SAni::LerpInterpolateRel, &SAni::NoInterpolateRel }; a.Get<SAni>().SetInterpolation(F[r.interp]); MC_CHECK(a.Get<SAni>().GetInterpolation() == F[r.interp], "GetInterpolation"); int n = ch(4); for(int i = 0; i < n; ++i) { double t = TT[i ? ch(4) : (r.interp > 1 ? 0 : ch(4))]; bool dup = false; for(auto& f : r.sm) dup |= f.t == t; if(dup) { r.dup = true; return; } Fr f{ t, (i + 1) * (i & 1 ? -16 : 32), 0 }; size_t p = 0; while(p < r.sm.size() && r.sm[p].t < t) ++p; r.sm.insert(r.sm.begin() + p, f); a.Add<SAni>(t, (double)f.v); } }
}
static double endof(const Ref& r) { double e = 0; for(auto& f : r.df) e = std::max(e, f.t); for(auto& f : r.iv) e = std::max(e, f.t + f.d); for(auto& f : r.sm) e = std::max(e, f.t); return e; }
static void animations(mc::Ctx& c, int which, int len) { mc::enumerate(c, [&](mc::Choose& ch) { auto a = std::make_unique<Ani>(); Ref r; build(ch, *a, r, which); if(r.dup) return; if(which != 2) { a->Get<SAni>().SetInterpolation(&SAni::LerpInterpolate); }
    double e = endof(r); MC_CHECK(a->GetLength() == e && a->GetLoop() < 0, "the length is %g, expected %g", a->GetLength(), e); r.len = e; r.loop = -1; int cfg = ch(4); if(cfg == 1) { r.len = 3; a->SetLength(3); } else if(cfg == 2) { r.len = 1; a->SetLength(1); } MC_CHECK(a->GetLength() == r.len, "SetLength"); int lp = ch(3); if(lp && r.len > 0.5) { r.loop = lp == 1 ? 0 : 0.5; a->SetLoop(r.loop); }
    if(cfg == 3) { Ani b(*a); auto n = std::make_unique<Ani>(std::move(*a)); *n = b; Ani x; x = std::move(b); *n = std::move(x); a = std::move(n); }
    Obj o; { St s(&o, a.get()); r.init = which == 2 && ch(2) ? 8 : 0; s.SetValues(std::tuple<double>(r.init)); MC_CHECK(std::get<0>(s.GetValues()) == r.init, "GetValues"); S hist;
      for(int i = r.iv.size() > 2; i < len; ++i) { int op = ch(6); static const double D[] = { 0, 0.5, 1, 2.5 }; if(op < 4) { bool want = r.go(D[op]), got = LIB(s.Interpolate(D[op])); hist += mc::fmt("Interpolate(%g),", D[op]); MC_CHECK(got == want, "Interpolate returns %d, expected %d, after %s", got, want, hist.c_str()); } else if(op == 4) { hist += "Reset,"; LIB(s.Reset()); r.reset(); r.t = 0; } else { double t = ch(2) ? 0.25 : 1.5; hist += mc::fmt("SetTime(%g),", t); LIB(s.SetTime(t)); if(t < r.t) r.reset(); r.t = t; }
        MC_CHECK(s.GetTime() == r.t, "the time is %g, expected %g, after %s", s.GetTime(), r.t, hist.c_str()); MC_CHECK(o.log == r.log, "the frames are %s, expected %s, after %s (length %g, loop %g)", o.log.c_str(), r.log.c_str(), hist.c_str(), r.len, r.loop); MC_CHECK(std::fabs(o.val - r.val) < 1e-4, "the value is %g, expected %g, after %s", o.val, r.val, hist.c_str()); } }
    r.reset(); MC_CHECK(o.log == r.log && o.act.empty(), "when the state is destroyed the frames are %s, expected %s", o.log.c_str(), r.log.c_str()); c.outcome(o.log + mc::fmt(" %g", o.val)); }); }
MC_CONFIG("animation: discrete frames") { animations(c, 0, c.pick(3, 4)); }
MC_CONFIG("animation: intervals") { animations(c, 1, c.pick(3, 4)); }
MC_CONFIG("animation: smooth values") { animations(c, 2, c.pick(3, 4)); }
MC_CONFIG("animation: several kinds of frames") { animations(c, 3, c.pick(2, 3)); }
MC_CONFIG("animation: edits of frames") { mc::enumerate(c, [&](mc::Choose& ch) { Ani a; std::vector<Fr> df, iv; static const double TT[] = { 0, 0.5, 1, 2 }; int id = 0; S log; for(int i = 0; i < c.pick(5, 6); ++i) { switch(ch(i == 3 ? 8 : 6)) {
      case 6: { double t = TT[ch(4)]; Fr f{ t, ++id, 0 }; bool dup = false; for(auto& x : df) dup |= x.t == t; if(dup) return; a.Get<DAni>().Add(t, f.v); a.SetLength(); size_t p = 0; while(p < df.size() && df[p].t < t) ++p; df.insert(df.begin() + p, f); log += "g"; } break; // frames added directly are seen by SetLength
      case 7: { a.SetLength(1.25); MC_CHECK(a.GetLength() == 1.25, "SetLength gives %g", a.GetLength()); a.SetLength(-1); log += "l"; } break;
      case 0: { double t = TT[ch(4)]; Fr f{ t, ++id, 0 }; bool dup = false; for(auto& x : df) dup |= x.t == t; if(dup) return; a.Add<DAni>(t, f.v); size_t p = 0; while(p < df.size() && df[p].t < t) ++p; df.insert(df.begin() + p, f); log += "a"; } break;
      case 1: { double t = TT[ch(4)], d = ch(2); Fr f{ t, ++id, d }; bool dup = false; for(auto& x : iv) dup |= x.t == t; if(dup) return; a.Add<IAni>(IAni::FRAME{ t, f.v, d }); size_t p = 0; while(p < iv.size() && iv[p].t < t) ++p; iv.insert(iv.begin() + p, f); log += "i"; } break;
      case 2: { size_t k = (size_t)ch(2); bool r = a.Remove<DAni>(k); MC_CHECK(r == (k < df.size()), "Remove returns %d", r); if(r) df.erase(df.begin() + k); log += "r"; } break;
      case 3: { size_t k = (size_t)ch(2); bool r = a.Remove<IAni>(k); MC_CHECK(r == (k < iv.size()), "Remove returns %d", r); if(r) iv.erase(iv.begin() + k); log += "R"; } break;
      case 4: { DAni::FRAME f[2] = { { 0.25, ++id }, { 3, ++id } }; int n = ch(3); a.Set<DAni>(f, (size_t)n); df.clear(); for(int j = 0; j < n; ++j) df.push_back({ f[j].time, f[j].value, 0 }); log += "s"; } break;
      case 5: { IAni::FRAME f[2] = { { 0, ++id, 2.5 }, { 1, ++id, 0.5 } }; int n = ch(3); a.Set<IAni>(f, (size_t)n); iv.clear(); for(int j = 0; j < n; ++j) iv.push_back({ f[j].time, f[j].value, f[j].data }); if(n) { IAni x(f, (size_t)n); MC_CHECK(x.End() == 2.5 && x.Begin() == 0, "an interval track built from frames ends at %g", x.End()); } log += "S"; } break; }
      Ref r; r.df = df; r.iv = iv; MC_CHECK(a.GetLength() == endof(r), "the length is %g, expected %g after %s", a.GetLength(), endof(r), log.c_str()); auto f = a.Get<DAni>().Frames(); MC_CHECK(f.length == df.size(), "number of frames"); for(size_t j = 0; j < df.size(); ++j) MC_CHECK(f[j].time == df[j].t && f[j].value == df[j].v, "frame %zu is (%g, %d)", j, f[j].time, f[j].value); auto g = a.Get<IAni>().Frames(); MC_CHECK(g.length == iv.size(), "number of intervals"); for(size_t j = 0; j < iv.size(); ++j) MC_CHECK(g[j].time == iv[j].t && g[j].value == iv[j].v && g[j].data == iv[j].d, "interval %zu", j); MC_CHECK(a.Get<DAni>().Begin() == (df.empty() ? 0 : df[0].t) && a.Get<DAni>().End() == (df.empty() ? 0 : df.back().t), "Begin and End"); } c.outcome(log + mc::fmt("%g", a.GetLength())); }); }
// easing
MC_CONFIG("animation: easing") { typedef AniLinearData<double> L; typedef AniFrame<double, L> F; mc::enumerate(c, [&](mc::Choose& ch) { static const double Q[] = { 0, 0.25, 0.5, 1 }; double t1 = Q[ch(4)], t2 = Q[ch(4)], s1 = Q[ch(4)], s2 = Q[ch(4)]; int st = c.pick(16, 64); double t = ch(st + 1) / (double)st; F v[2] = { { 0, 3, L() }, { 1, 11, L(t1, s1, t2, s2) } }; auto bz = [](double s, double p, double q) { double i = 1 - s; return 3 * i * i * s * p + 3 * i * s * s * q + s * s * s; }; double lo = 0, hi = 1; for(int i = 0; i < 100; ++i) { double m = (lo + hi) / 2; if(bz(m, t1, t2) < t) lo = m; else hi = m; }
    double slope = std::fabs(bz(lo + 1e-4, t1, t2) - bz(lo - 1e-4, t1, t2)) / 2e-4; if(slope < 0.05) return; double want = bz(lo, s1, s2); double got = AniCubicEasing::GetProgress<double, L>(v, 2, 1, t); MC_CHECK(std::fabs(got - want) < 1e-3, "the progress at %g with easing %g %g %g %g is %.9g, expected %.9g", t, t1, s1, t2, s2, got, want); MC_CHECK(std::fabs(L::LinearInterpolate(v, 2, 1, t, 0.0) - (3 + 8 * got)) < 1e-4 && std::fabs(L::LinearInterpolateRel(v, 2, 1, t, 5.0) - (8 + 8 * got)) < 1e-4 && std::fabs(L::LinearInterpolate(v + 1, 1, 0, t, 7.0) - (7 + 4 * got)) < 1e-4, "interpolation"); c.outcome(mc::fmt("%.4f", want)); }); }
