// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c,INIParser.c,INIentry.cpp,INIsection.cpp,INIstorage.cpp
// INI files: every short text against a reference reader, the section/entry finder, and all edit histories with the file read back.
#include "mc.h"
#include <strings.h>
#include <unistd.h>
#include "bss-util/INIstorage.h"
#include "bss-util/INIparse.h"
using namespace bss;
typedef std::string S;
static bool ieq(const S& a, const S& b) { return !strcasecmp(a.c_str(), b.c_str()); }
static S esc(const S& s) { S r; char b[8]; for(char c : s) { if((unsigned char)c >= 32 && (unsigned char)c < 127) r += c; else { snprintf(b, 8, "<%02x>", (unsigned char)c); r += b; } } return r; }
struct Sec { S name; std::vector<std::vector<std::pair<S, S>>> keys; // groups of one key
  void add(const S& k, const S& v) { for(auto& g : keys) if(ieq(g[0].first, k)) { g.push_back({ k, v }); return; } keys.push_back({ { k, v } }); }
  int find(const S& k) const { for(size_t i = 0; i < keys.size(); ++i) if(ieq(keys[i][0].first, k)) return (int)i; return -1; }
};
struct Ini { std::vector<std::vector<Sec>> secs; // groups of one name
  int find(const S& n) const { for(size_t i = 0; i < secs.size(); ++i) if(ieq(secs[i][0].name, n)) return (int)i; return -1; }
  size_t add(const S& n) { Sec s; s.name = n; int i = find(n); if(i < 0) { secs.push_back({ s }); return 0; } secs[i].push_back(s); return secs[i].size() - 1; }
  const Sec* get(const S& n, size_t inst) const { int i = find(n); return i < 0 || inst >= secs[i].size() ? 0 : &secs[i][inst]; }
  Sec* get(const S& n, size_t inst) { int i = find(n); return i < 0 || inst >= secs[i].size() ? 0 : &secs[i][inst]; }
  size_t size() const { size_t n = 0; for(auto& g : secs) for(auto& s : g) { ++n; for(auto& k : s.keys) n += k.size(); } return n; }
};
static S show(const Ini& m, bool canon) { std::vector<S> gs; for(auto& g : m.secs) { S r; for(auto& s : g) { r += "[" + s.name + "]"; std::vector<S> ks; for(auto& k : s.keys) { S q; for(auto& e : k) q += e.first + "=" + e.second + "|"; ks.push_back(q); } if(canon) std::sort(ks.begin(), ks.end()); for(auto& q : ks) r += q; } gs.push_back(r); } if(canon) std::sort(gs.begin(), gs.end()); S r; for(auto& g : gs) r += g + " "; return esc(r); }
static Ini from(INIstorage& st) { Ini m; for(auto& s : st) { size_t i = m.add(s.GetName()); Sec* t = m.get(s.GetName(), i); for(auto& e : s) t->add(e.GetKey(), e.GetString()); } return m; }
static INIstorage* load(const S& t) { FILE* f = t.empty() ? fopen("/dev/null", "rb") : fmemopen((void*)t.data(), t.size(), "rb"); INIstorage* r = LIB(new INIstorage(f)); fclose(f); return r; }
static std::vector<S> PROBE;
// everything the storage offers against the model
static void view(INIstorage& st, const Ini& m, const char* what) {
  Ini got = from(st); MC_CHECK(show(got, false) == show(m, false), "%s: holds %s, expected %s", what, show(got, false).c_str(), show(m, false).c_str());
  size_t n = 0; const INIstorage::_NODE* last = 0; for(const INIstorage::_NODE* p = st.Front(); p; p = p->next) { MC_CHECK(p->prev == last, "%s: section list broken", what); last = p; ++n; } MC_CHECK(st.Back() == last, "%s: last section", what);
  std::vector<S> names = PROBE; for(auto& g : m.secs) for(auto& s : g) names.push_back(s.name);
  for(auto& nm : names) { int gi = m.find(nm); size_t cnt = gi < 0 ? 0 : m.secs[gi].size(); MC_CHECK(st.GetNumSections(nm.c_str()) == cnt, "%s: GetNumSections(%s) = %zu, expected %zu", what, nm.c_str(), st.GetNumSections(nm.c_str()), cnt);
    for(size_t i = 0; i < cnt + 2; ++i) { INIsection* s = st.GetSection(nm.c_str(), i); MC_CHECK((s != 0) == (i < cnt), "%s: section %s %zu is%s there", what, nm.c_str(), i, s ? "" : " not"); if(!s) continue; const Sec& ms = m.secs[gi][i];
      MC_CHECK(ms.name == s->GetName() && s->GetIndex() == i && s->GetParent() == &st, "%s: section %s %zu has name %s, index %zu and parent %s", what, nm.c_str(), i, s->GetName(), s->GetIndex(), s->GetParent() == &st ? "ok" : "wrong");
      const INIsection::_NODE* el = 0; for(const INIsection::_NODE* p = s->Front(); p; p = p->next) { MC_CHECK(p->prev == el, "%s: entry list broken", what); el = p; } MC_CHECK(s->Back() == el, "%s: last entry", what);
      std::vector<S> keys = PROBE; for(auto& g : ms.keys) keys.push_back(g[0].first);
      for(auto& k : keys) { int ki = ms.find(k); size_t kc = ki < 0 ? 0 : ms.keys[ki].size(); MC_CHECK(s->GetNumEntries(k.c_str()) == kc, "%s: GetNumEntries(%s) = %zu, expected %zu", what, k.c_str(), s->GetNumEntries(k.c_str()), kc);
        for(size_t j = 0; j < kc + 2; ++j) { INIentry* e = st.GetEntryPtr(nm.c_str(), k.c_str(), j, i); MC_CHECK((e != 0) == (j < kc), "%s: entry %s %zu is%s there", what, k.c_str(), j, e ? "" : " not"); MC_CHECK(st.GetEntry(nm.c_str(), k.c_str(), j, i).IsValid() == (e != 0), "%s: GetEntry", what); if(e) MC_CHECK(ms.keys[ki][j].first == e->GetKey() && ms.keys[ki][j].second == e->GetString() && &s->GetEntry(k.c_str(), j) == e, "%s: entry %s %zu is %s=%s", what, k.c_str(), j, e->GetKey(), e->GetString()); } } } }
}
// reference reader; false: the text contains a line whose meaning is not specified
static S trim(const S& s) { size_t a = 0, b = s.size(); while(a < b && (unsigned char)s[a] < 33) ++a; while(b > a && (unsigned char)s[b - 1] < 33) --b; return s.substr(a, b - a); }
static bool ref(const S& t, Ini& m) { Sec* cur = 0; size_t p = 0; while(p < t.size()) { size_t e = t.find('\n', p); S l = t.substr(p, e == S::npos ? e : e - p); p = e == S::npos ? t.size() : e + 1; size_t d = l.find_first_of(";=["); if(d == S::npos || l[d] == ';') continue;
    if(l[d] == '=') { S k = trim(l.substr(0, d)); if(k.empty()) continue; S v = l.substr(d + 1); size_t sc = v.find(';'); if(sc != S::npos) v.resize(sc); if(!cur) { m.add(""); cur = m.get("", 0); } cur->add(k, trim(v)); }
    else { if(!trim(l.substr(0, d)).empty()) return false; size_t en = l.find_first_of("];", d); if(en == S::npos) return false; if(l[en] == ';') continue; S n = trim(l.substr(d + 1, en - d - 1)); if(n.empty()) { if(en == d + 1) continue; return false; } size_t i = m.add(n); cur = m.get(n, i); } }
  return true; }
// the section and entry finders agree with the reader
static void finder(const S& t, const Ini& m) { std::vector<S> names = PROBE; for(auto& g : m.secs) names.push_back(g[0].name);
  for(auto& nm : names) { if(nm.empty()) continue; int gi = m.find(nm); size_t cnt = gi < 0 ? 0 : m.secs[gi].size(); for(size_t i = 0; i <= cnt; ++i) { INICHUNK ch = bssFindINISection(t.c_str(), t.size(), nm.c_str(), i); MC_CHECK((ch.start != 0) == (i < cnt), "section %s %zu of %s is%s found", nm.c_str(), i, esc(t).c_str(), ch.start ? "" : " not"); if(!ch.start) continue;
      MC_CHECK(ch.start >= t.c_str() && ch.end <= t.c_str() + t.size() && ch.start <= ch.end, "chunk outside of the text"); Ini one; ref(S((const char*)ch.start, (const char*)ch.end), one); Ini w; w.secs = { { m.secs[gi][i] } }; MC_CHECK(show(one, false) == show(w, false), "section %s %zu of %s is found as %s", nm.c_str(), i, esc(t).c_str(), esc(S((const char*)ch.start, (const char*)ch.end)).c_str());
      const Sec& ms = m.secs[gi][i]; std::vector<S> keys = PROBE; for(auto& g : ms.keys) keys.push_back(g[0].first); for(auto& k : keys) { int ki = ms.find(k); size_t kc = ki < 0 ? 0 : ms.keys[ki].size(); for(size_t j = 0; j <= kc; ++j) { INICHUNK e = bssFindINIEntry(ch, k.c_str(), j); MC_CHECK((e.start != 0) == (j < kc), "entry %s %zu of %s is%s found", k.c_str(), j, esc(t).c_str(), e.start ? "" : " not"); if(!e.start) continue; S l((const char*)e.start, (const char*)e.end); size_t q = l.find('='); MC_CHECK(e.start >= ch.start && e.end <= ch.end && q != S::npos && ieq(trim(l.substr(0, q)), k) && trim(l.substr(q + 1)) == ms.keys[ki][j].second, "entry %s %zu of %s is found as %s", k.c_str(), j, esc(t).c_str(), esc(l).c_str()); } } } } }
// the nodes come from pools that grow once
static void warm() { S t; for(int i = 0; i < 200; ++i) t += "[s" + std::to_string(i) + "]\nk=1\n"; delete load(t); }
template<class T, size_t N> static void texts(mc::Ctx& c, const T (&tk)[N], int len) { warm(); PROBE = { "a", "ab", "k", "A" }; mc::enumerate(c, [&](mc::Choose& ch) { int n = ch(len + 1); S t; for(int i = 0; i < n; ++i) t += ch.of(tk); Ini m; INIstorage* st = load(t); if(ref(t, m)) { view(*st, m, esc(t).c_str()); finder(t, m); c.outcome(show(m, false)); } delete st; }); }
MC_CONFIG("texts: line tokens") { static const char* const tk[] = { "[a]\n", "[ab]", "\n", "k=1", "=2;x", "K = v w \r\n", "ab=", ";c\n", " " }; texts(c, tk, c.pick(6, 7)); }
MC_CONFIG("texts: bytes") { static const char tk[] = { '[', ']', '=', ';', '\n', 'a', ' ', '\xC3' }; texts(c, tk, c.pick(6, 8)); }
MC_CONFIG("texts: whole files") { static const char* const tk[] = { "[a]\n", "[A] ;c\n", "[ab]\r\n", "k=1\n", "kk=2\n", "k=3;c\n", "\n", "[]\n" }; texts(c, tk, c.pick(6, 7)); }
MC_CONFIG("texts: long lines") { warm(); mc::enumerate(c, [&](mc::Choose& ch) { S v((size_t)(ch(40) * 20 + 200), 'v'); int w = ch(3); S t = w == 0 ? "[a]\nk=" + v + "\nl=1\n" : w == 1 ? "[" + v + "]\nk=1" : "[a]\n" + v + "=1\n"; Ini m; ref(t, m); INIstorage* st = load(t); view(*st, m, "long"); finder(t, m); delete st; c.outcome(t.size()); }); }
MC_CONFIG("entries: conversions") { struct N { const char* s; int64_t i; double f; }; static const N ns[] = { { "", 0, 0 }, { "0", 0, 0 }, { "12", 12, 12 }, { "-7", -7, -7 }, { "0x1F", 31, 31 }, { "0XfF", 255, 255 }, { "0xFFFFFFFFFFFFFFFF", -1, 18446744073709551615.0 }, { "1.5", 1, 1.5 }, { "-2.75", -2, -2.75 }, { "9223372036854775807", INT64_MAX, 9223372036854775807.0 }, { "x", 0, 0 }, { "1.25e3", 1250, 1250 } };
  warm(); mc::enumerate(c, [&](mc::Choose& ch) { const N& n = ch.of(ns); INIentry e("k", n.s); if(ch(2)) e = INIentry("k", "77"), e.Set(n.s); INIentry d(e); if(ch(2)) d = std::move(e); MC_CHECK(d.GetInt() == n.i && d.GetDouble() == n.f && S(d.GetString()) == n.s && S(d.GetKey()) == "k", "%s gives %lld and %g", n.s, (long long)d.GetInt(), d.GetDouble()); MC_CHECK((int64_t)d == n.i && (double)d == n.f && (bool)d == (n.i != 0) && S((const char*)d) == n.s, "conversions"); d.SetInt(n.i); MC_CHECK(d.GetInt() == n.i && S(d.GetString()) == std::to_string(n.i), "SetInt"); d.SetFloat(n.f); MC_CHECK(d.GetDouble() == n.f, "SetFloat"); c.outcome(n.i); }); }
// edit histories
struct ESys : mc::SysBase<ESys> {
  static std::vector<S> SN, KN; static S INIT, VAL; static int MX, MI; static bool SECAPI;
  INIstorage* st; Ini m, saved; S path, path2; bool dirty = false;
  static void put(const S& p, const S& t) { FILE* f = fopen(p.c_str(), "wb"); fwrite(t.data(), 1, t.size(), f); fclose(f); }
  static S slurp(const S& p) { S r; FILE* f = fopen(p.c_str(), "rb"); if(!f) return r; char b[4096]; size_t n; while((n = fread(b, 1, sizeof(b), f)) > 0) r.append(b, n); fclose(f); return r; }
  ESys() { path = S(mc::scratch()) + "/t.ini"; path2 = S(mc::scratch()) + "/u.ini"; if(INIT.empty()) unlink(path.c_str()); else put(path, INIT); ref(INIT, m); saved = m; st = LIB(new INIstorage(path.c_str())); }
  ~ESys() { delete st; }
  void rc(int r, bool ok) { MC_CHECK((r == 0) == ok, "EditEntry returns %d, expected %s", r, ok ? "success" : "failure"); }
  char edit(const S& n, const S& k, const char* v, size_t ki, size_t si) { dirty = true; if(SECAPI && si != (size_t)~0) if(INIsection* s = st->GetSection(n.c_str(), si)) return LIB(s->EditEntry(k.c_str(), v, ki)); return LIB(st->EditEntry(n.c_str(), k.c_str(), v, ki, si)); }
  void erase(const S& n, size_t si, const S& k, size_t ki) { Sec* s = m.get(n, si); int g = s->find(k); s->keys[g].erase(s->keys[g].begin() + ki); if(s->keys[g].empty()) s->keys.erase(s->keys.begin() + g); }
  static void build() { auto small = [](const ESys& s) { return (int)s.m.size() < MX; };
    for(auto& n : SN) { op("AddSection " + n, [n](ESys& s) { s.dirty = true; INIsection& r = LIB(s.st->AddSection(n.c_str())); size_t i = s.m.add(n); MC_CHECK(&r == s.st->GetSection(n.c_str(), i), "AddSection returns another section"); }, small);
      for(size_t i = 0; i < (size_t)MI; ++i) op(mc::fmt("RemoveSection %s %zu", n.c_str(), i), [n, i](ESys& s) { s.dirty = true; bool r = LIB(s.st->RemoveSection(n.c_str(), i)); bool w = s.m.get(n, i) != 0; MC_CHECK(r == w, "RemoveSection returns %d", r); if(w) { int g = s.m.find(n); s.m.secs[g].erase(s.m.secs[g].begin() + i); if(s.m.secs[g].empty()) s.m.secs.erase(s.m.secs.begin() + g); } });
      for(auto& k : KN) {
        op("new section " + n + " with " + k, [n, k](ESys& s) { s.rc(s.edit(n, k, "9", (size_t)~0, (size_t)~0), true); s.m.get(n, s.m.add(n))->add(k, "9"); }, small);
        op("EditAddEntry " + n + " " + k, [n, k](ESys& s) { s.dirty = true; s.rc(LIB(s.st->EditAddEntry(n.c_str(), k.c_str(), "5")), true); if(!s.m.get(n, 0)) s.m.add(n); Sec* t = s.m.get(n, 0); int g = t->find(k); if(g < 0) t->add(k, "5"); else t->keys[g][0].second = "5"; }, small);
        for(size_t si = 0; si < (size_t)MI; ++si) {
          op(mc::fmt("insert %s %zu %s", n.c_str(), si, k.c_str()), [n, k, si](ESys& s) { Sec* t = s.m.get(n, si); s.rc(s.edit(n, k, VAL.c_str(), (size_t)~0, si), t != 0); if(t) t->add(k, VAL); }, small);
          for(size_t ki = 0; ki < (size_t)MI; ++ki) {
            op(mc::fmt("set %s %zu %s %zu", n.c_str(), si, k.c_str(), ki), [n, k, si, ki](ESys& s) { Sec* t = s.m.get(n, si); int g = t ? t->find(k) : -1; bool w = g >= 0 && ki < t->keys[g].size(); const char* v = w && t->keys[g][ki].second.empty() ? "" : "77"; if(w && t->keys[g][ki].second == "77") v = ""; s.rc(s.edit(n, k, v, ki, si), w); if(w) t->keys[g][ki].second = v; });
            op(mc::fmt("delete %s %zu %s %zu", n.c_str(), si, k.c_str(), ki), [n, k, si, ki](ESys& s) { Sec* t = s.m.get(n, si); int g = t ? t->find(k) : -1; bool w = g >= 0 && ki < t->keys[g].size(); s.rc(s.edit(n, k, 0, ki, si), w); if(w) s.erase(n, si, k, ki); });
          } } } }
    op("save", [](ESys& s) { LIB(s.st->EndINIEdit()); if(s.dirty) s.saved = s.m; s.dirty = false; });
    op("save and reload", [](ESys& s) { LIB(s.st->EndINIEdit()); delete s.st; s.st = LIB(new INIstorage(s.path.c_str())); S t = slurp(s.path); Ini r; ref(t, r); MC_CHECK(show(r, true) == show(s.m, true), "the file holds %s, expected %s", esc(t).c_str(), show(s.m, true).c_str()); s.m = r; s.saved = r; s.dirty = false; });
    op("discard and reload", [](ESys& s) { LIB(s.st->DiscardINIEdit()); delete s.st; s.st = LIB(new INIstorage(s.path.c_str())); Ini r; ref(slurp(s.path), r); MC_CHECK(show(r, true) == show(s.saved, true), "a discarded edit reached the file"); s.m = s.saved = r; s.dirty = false; });
    op("copy", [](ESys& s) { INIstorage* n = LIB(new INIstorage(*s.st)); view(*s.st, s.m, "copied from"); delete s.st; s.st = n; });
    op("move", [](ESys& s) { INIstorage* n = LIB(new INIstorage(std::move(*s.st))); view(*s.st, Ini(), "moved from"); delete s.st; s.st = n; });
    op("copy assign", [](ESys& s) { INIstorage* n = load("[z]\nlong-key-of-old-content=1\nlong-key-of-old-content=2\n[k]\n[z]\nk=2\n"); LIB(*n = *s.st); view(*s.st, s.m, "copied from"); delete s.st; s.st = n; });
    op("move assign", [](ESys& s) { INIstorage* n = load("[z]\nlong-key-of-old-content=1\nlong-key-of-old-content=2\n[k]\n[z]\nk=2\n"); LIB(*n = std::move(*s.st)); delete s.st; s.st = n; });
    op("self assign", [](ESys& s) { INIstorage& r = *s.st; LIB(*s.st = r); });
  }
  S text; void check() { view(*st, m, "after the history"); INIstorage* n = LIB(new INIstorage(*st)); view(*n, m, "copy"); if(dirty) { LIB(n->EndINIEdit(path2.c_str())); MC_CHECK(path2 == S(n->GetPath()) + "u.ini", "path"); text = slurp(path2); } else text = slurp(path); delete n; Ini r; MC_CHECK(ref(text, r) && show(r, true) == show(m, true), "the file would be %s, expected %s", esc(text).c_str(), show(m, true).c_str()); finder(text, r); }
  void key(mc::Key& k) { k.str(show(m, false)); k.str(show(saved, true)); k.str(text); k.word(dirty); }
};
std::vector<S> ESys::SN, ESys::KN; S ESys::INIT, ESys::VAL = "1"; int ESys::MX = 6, ESys::MI = 2; bool ESys::SECAPI = false;
static void edits(mc::Ctx& c, const S& init, std::vector<S> sn, std::vector<S> kn, int depth, int mx) { warm(); PROBE = sn; PROBE.insert(PROBE.end(), kn.begin(), kn.end()); ESys::SN = sn; ESys::KN = kn; ESys::INIT = init; ESys::MX = mx; ESys::build(); mc::BfsOpt o; o.depth = depth; mc::bfs<ESys>(c, o); }
MC_CONFIG("edits: from nothing") { edits(c, "", { "a", "ab" }, { "k" }, c.pick(4, 5), 7); }
MC_CONFIG("edits: prefixes of keys") { ESys::SECAPI = true; edits(c, "[a]\nkk=1\n", { "a" }, { "k", "kk" }, c.pick(4, 5), 7); }
MC_CONFIG("edits: long names") { ESys::VAL = "a value that is not short"; edits(c, "", { "A section with a long name" }, { "a key with a long name" }, c.pick(5, 6), 7); }
MC_CONFIG("edits: several instances") { edits(c, "[a]\nk=1\nk=2\n[b]\nK=3\n[A]\nk=4\n\n[a]\n", { "a", "b" }, { "k" }, c.pick(3, 4), 12); }
MC_CONFIG("edits: comments and spacing") { edits(c, "; head\n\n  [a] ; c\n k = 1 ; one\n;k=0\nk=;\nk= \n\n\n[b];\n", { "a", "b" }, { "k" }, c.pick(3, 4), 12); }
MC_CONFIG("edits: CRLF, no final newline") { edits(c, "[a]\r\nk=1\r\nl=2\r\n\r\n[b]\r\nk=3", { "a", "b" }, { "k" }, c.pick(3, 4), 12); }
MC_CONFIG("edits: garbage lines") { edits(c, "[a]\n[]\nk=1\n=\n[b]\nx\n[;]\nk=2\n", { "a", "b" }, { "k" }, c.pick(3, 4), 12); }
MC_CONFIG("edits: non-ASCII") { edits(c, "[\xC3\xA9]\n\xC3\xA9=\xC3\xA9\n", { "\xC3\xA9" }, { "\xC3\xA9", "\xC3" }, c.pick(3, 4), 12); }
MC_CONFIG("default constructed") { warm(); mc::enumerate(c, [&](mc::Choose& ch) { S p = S(mc::scratch()) + "/d.ini"; unlink(p.c_str()); { INIstorage st; Ini m; view(st, m, "default"); if(ch(2)) { LIB(st.AddSection("a")); m.add("a"); } if(ch(2)) { LIB(st.EditAddEntry("b", "k", "1")); m.get("b", m.add("b"))->add("k", "1"); } view(st, m, "default"); LIB(st.EndINIEdit(p.c_str())); Ini r; ref(ESys::slurp(p), r); MC_CHECK(show(r, true) == show(m, true), "saved as %s", show(r, true).c_str()); c.outcome(show(m, true)); } }); }
MC_CONFIG("edits: third instances") { ESys::MI = 4; edits(c, "[a]\nk=1\nk=2\nl=0\nk=3\n[b]\n[A]\nk=4\nK=5\n\n[a]\nk=6\nk=7\nK=8\nk=9\n[a]\nk=10\n", { "a" }, { "k" }, c.pick(2, 3), 30); }
// big files: n sections of m entries, one edit anywhere in it
MC_CONFIG("edits: big files") { warm(); PROBE = { "s0", "k0", "k1" }; mc::enumerate(c, mc::EnumOpt{ false }, [&](mc::Choose& ch) {
    static const int NS[] = { 1, 2, 7, 9, 17, 33, 65, 130 }, KS[] = { 0, 1, 3, 9, 17, 40 }; int n = ch.of(NS), m = ch.of(KS), per = ch(3), ed = ch(6), wh = ch(3); if(n * m > (c.thorough ? 1200 : 500)) return; S t; for(int i = 0; i < n; ++i) { t += mc::fmt("[s%d]\n", per == 2 ? i % 3 : i); for(int k = 0; k < m; ++k) t += mc::fmt("k%d=%d_%d\n", per == 1 ? k % 4 : k, i, k); if(i % 5 == 0) t += "; note\n\n"; }
    ESys::INIT = t; ESys::MX = 100000; ESys s; int i = wh == 0 ? 0 : wh == 1 ? n - 1 : n / 2, k = wh == 0 ? 0 : wh == 1 ? m - 1 : m / 2; S sn = mc::fmt("s%d", per == 2 ? i % 3 : i), kn = mc::fmt("k%d", per == 1 ? k % 4 : k); size_t si = per == 2 ? i / 3 : 0, ki = per == 1 ? k / 4 : 0;
    Sec* x = s.m.get(sn, si); MC_CHECK(x, "harness"); int g = x->find(kn); if(ed >= 1 && ed <= 2 && m == 0) return;
    if(ed == 0) { s.rc(s.edit(sn, "knew", "fresh", (size_t)~0, si), true); x->add("knew", "fresh"); }
    if(ed == 1) { s.rc(s.edit(sn, kn, "another value", ki, si), true); x->keys[g][ki].second = "another value"; }
    if(ed == 2) { s.rc(s.edit(sn, kn, 0, ki, si), true); s.erase(sn, si, kn, ki); }
    if(ed == 3) { s.dirty = true; MC_CHECK(LIB(s.st->RemoveSection(sn.c_str(), si)), "RemoveSection fails"); int q = s.m.find(sn); s.m.secs[q].erase(s.m.secs[q].begin() + si); if(s.m.secs[q].empty()) s.m.secs.erase(s.m.secs.begin() + q); }
    if(ed == 4) { s.dirty = true; LIB(s.st->AddSection("snew")); s.m.add("snew"); s.rc(s.edit("snew", "k", "v", (size_t)~0, 0), true); s.m.get("snew", 0)->add("k", "v"); }
    if(ed == 5) { for(int q = 0; q < 10; ++q) { S v(q * 9, 'v'); s.rc(s.edit(sn, "many", v.c_str(), (size_t)~0, si), true); x->add("many", v); } }
    s.check(); c.outcome(s.m.size()); }); }
