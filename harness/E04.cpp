// BUILD: seq lib=Logger.cpp,bss_util_c.c,bss_util.cpp,ConvertUTF.c
// Stream buffers and the log: every history of reads, writes and seeks against std::stringstream or a list of bytes.
#include "mc.h"
#include "bss-util/stream.h"
#include "bss-util/Logger.h"
#include <fstream>
#include <unistd.h>
using namespace bss;
static uint64_t fnv(const std::string& s) { uint64_t h = 1469598103934665603ull; for(unsigned char c : s) h = (h ^ c) * 1099511628211ull; return h; }
static std::string vis(const std::string& s) { std::string r; for(unsigned char c : s) if(c < 32 || c > 126) r += mc::fmt("\\x%02x", c); else r += (char)c; return r; }
static std::string trace; static void note(const std::string& s) { trace += s + " "; }
// one read operation on a stream; the result as text
static int readops() { return 17; }
static std::string readop(std::istream& in, int op, int size) {
  char b[64]; memset(b, 'z', sizeof(b)); std::string r;
  auto rd = [&](int n) { in.read(b, n); r = mc::fmt("read %d:", (int)in.gcount()) + std::string(b, in.gcount()); if(b[n] != 'z' || b[in.gcount()] != 'z') mc::fail("read writes more than it reports"); };
  switch(op) {
  case 0: { int c = in.get(); r = mc::fmt("get %d", c); break; } case 1: r = mc::fmt("peek %d", in.peek()); break; case 2: rd(2); break; case 3: rd(size + 3); break; case 4: in.unget(); r = "unget"; break; case 5: in.putback((char)0xe9); r = "putback"; break; case 6: in.putback('b'); r = "putback b"; break;
  case 7: in.seekg(1); r = "seekg 1"; break; case 8: in.seekg(size); r = "seekg size"; break; case 9: in.seekg(size + 1); r = "seekg size+1"; break; case 10: in.seekg(-1, std::ios::end); r = "seekg -1 end"; break; case 11: in.seekg(-1, std::ios::cur); r = "seekg -1 cur"; break; case 12: in.seekg(2, std::ios::cur); r = "seekg 2 cur"; break; case 13: in.clear(); in.seekg(0, std::ios::beg); r = "rewind"; break;
  case 14: { auto n = in.readsome(b, 3); r = mc::fmt("readsome %d:", (int)n) + std::string(b, n); break; } case 15: in.clear(); r = "clear"; break; default: in.ignore(2); r = mc::fmt("ignore %d", (int)in.gcount());
  }
  int st = in.rdstate(); in.clear(); long p = (long)in.tellg(); in.clear((std::ios::iostate)st); return r + mc::fmt(" state %d at %ld", st, p);
}
template<class T> static void readers(mc::Ctx& c, int depth) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    static const char* src[] = { "", "ab\xe9" "a", "\xe9\xff\xe9" "bcd\0g" }; int k = ch(3); int len = k == 2 ? 8 : k == 1 ? 4 : 0; std::string s(src[k], len); std::unique_ptr<T[]> a(new T[len / sizeof(T)]); if(len) memcpy(a.get(), s.data(), len);
    StreamBufArray<T> buf(a.get(), len / sizeof(T)); std::unique_ptr<StreamBufArray<T>> mv; std::istream in(&buf); std::istringstream ref(s); std::string log; uint64_t h = k;
    for(int i = 0; i < depth; ++i) { int op = ch(readops() + 2); if(op >= readops()) { if(mv && op == readops()) return; StreamBufArray<T>* n = op == readops() ? new StreamBufArray<T>(std::move(buf)) : new StreamBufArray<T>(a.get(), 0); if(op > readops()) { if(mv) *n = std::move(*mv); else *n = std::move(buf); } auto st = in.rdstate(); in.rdbuf(n); in.clear(st); mv.reset(n); log += "move, "; continue; }
      std::string x = readop(in, op, len), y = readop(ref, op, len); log += x + ", "; MC_CHECK(x == y, "reading \"%s\" after %s: got \"%s\", a string stream gives \"%s\"", vis(s).c_str(), vis(log).c_str(), vis(x).c_str(), vis(y).c_str()); h = h * 31 + fnv(x); }
    in.rdbuf(nullptr); c.outcome(h);
  });
}
MC_CONFIG("reading an array of bytes") { readers<char>(c, c.pick(4, 5)); }
MC_CONFIG("reading an array of wide elements") { readers<uint32_t>(c, c.pick(3, 4)); }

// DynArray stream: bytes written go to the end, whole elements become elements; reading starts at element `begin`
template<class T> static void arrays(mc::Ctx& c, int depth) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    const size_t W = sizeof(T); DynArray<T> a; int n0 = ch(3), cap = ch(2), begin = n0 ? ch(2) : 0; if(cap) a.SetCapacity(n0 + 2); std::string all; for(int i = 0; i < n0; ++i) { T v = (T)(0x81827384 + i * 0x01010101); a.Add(v); all.append((const char*)&v, W); }
    StreamBufDynArray<T> buf(a, (size_t)begin); std::iostream io(&buf); size_t at = begin * W; char next = 'a'; std::string log;
    for(int i = 0; i < depth; ++i) {
      int op = ch(12); size_t end = all.size() / W * W; io.clear();
      if(op < 5) { std::string w; size_t n = op == 0 ? 1 : op == 1 ? 1 : op == 2 ? 2 : op == 3 ? 4 : 11; for(size_t k = 0; k < n; ++k) { w += (char)(next | (next & 1 ? 0x80 : 0)); ++next; } all += w; log += mc::fmt("write %zu, ", n); if(op == 0) io.put(w[0]); else { io.write(w.data(), w.size()); MC_CHECK(io.good(), "after %s: the stream has failed", log.c_str()); } MC_CHECK(io.good(), "after %s: the stream has failed", log.c_str()); if(op != 0) io.flush(); }
      else if(op == 5) { int x = io.get(); log += "get, "; int e = at < end ? (unsigned char)all[at] : -1; if(at < end) ++at; MC_CHECK(x == e, "after %s: get gives %d, expected %d", log.c_str(), x, e); }
      else if(op == 6) { int x = io.peek(); log += "peek, "; int e = at < end ? (unsigned char)all[at] : -1; MC_CHECK(x == e, "after %s: peek gives %d, expected %d", log.c_str(), x, e); }
      else if(op == 7 || op == 8) { char b[32]; int n = op == 7 ? 2 : 9; io.read(b, n); log += mc::fmt("read %d, ", n); size_t e = std::min<size_t>(n, end - at); MC_CHECK((size_t)io.gcount() == e && !memcmp(b, all.data() + at, e) && io.good() == (e == (size_t)n), "after %s: read gives %d bytes, expected %zu, or other bytes", log.c_str(), (int)io.gcount(), e); at += e; }
      else if(op == 9) { io.seekg(1); log += "seekg 1, "; if((size_t)begin * W + 1 <= end) { at = begin * W + 1; MC_CHECK(io.good(), "after %s: failed", log.c_str()); } else { MC_CHECK(io.fail(), "after %s: seeking past the end succeeded", log.c_str()); io.clear(); } }
      else if(op == 10) { io.seekg(-1, std::ios::end); log += "seekg -1 end, "; if(end > begin * W) { at = end - 1; MC_CHECK(io.good(), "after %s: failed", log.c_str()); } else { MC_CHECK(io.fail(), "after %s: seeking before the start succeeded", log.c_str()); io.clear(); } }
      else { if(at > begin * W) { io.unget(); log += "unget, "; --at; MC_CHECK(io.good(), "after %s: failed", log.c_str()); } }
      if(op == 0 && ch(2)) { io.flush(); log += "flush, "; }
      if(op != 0 || i + 1 == depth) { io.clear(); io.flush(); MC_CHECK(a.Length() == all.size() / W && !memcmp(a.begin(), all.data(), all.size() / W * W), "after %s: the array has %zu elements, expected %zu, or other elements (%zu initially, reading from %d, %zu bytes each)", log.c_str(), (size_t)a.Length(), all.size() / W, (size_t)n0, begin, W); }
    }
    io.clear(); MC_CHECK((long)io.tellg() == (long)(at - begin * W), "after %s: tellg is %ld, expected %ld", log.c_str(), (long)io.tellg(), (long)(at - begin * W)); c.outcome(fnv(all) * 31 + at + n0 * 5 + begin);
  });
}
MC_CONFIG("a growing array of bytes") { arrays<char>(c, c.pick(4, 5)); }
MC_CONFIG("a growing array of two byte elements") { arrays<short>(c, c.pick(4, 5)); }
MC_CONFIG("a growing array of four byte elements") { arrays<int>(c, c.pick(4, 5)); }

struct Flip : StreamBufFunction { // a transforming stream as a user writes one
  Flip(std::istream& in, size_t n) : StreamBufFunction(in, n) {} Flip(std::ostream& out, size_t n) : StreamBufFunction(out, n) {} ~Flip() { if(_out) _onwrite(); }
  void _onwrite() override { size_t n = pptr() - pbase(); for(size_t i = 0; i < n; ++i) _ibuf[i] = pbase()[i] ^ 0x20; _out->write(_ibuf.get(), n); setp(_obuf.get(), _obuf.get() + _sz); }
  void _onread() override { _in->read(_ibuf.get(), _sz); size_t n = _in->gcount(); for(size_t i = 0; i < n; ++i) _obuf[i] = _ibuf[i] ^ 0x20; setg(_obuf.get(), _obuf.get(), _obuf.get() + n); }
};
MC_CONFIG("transforming streams") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int bs = ch(4) + 1, depth = c.pick(5, 6); bool reading = ch(2); std::string log; uint64_t h = bs;
    if(reading) { int len = ch(8); std::string s = std::string("aB\xe9" "dEfgH").substr(0, len), t = s; for(char& x : t) x ^= 0x20; std::istringstream src(s); Flip f(src, bs); std::istream in(&f); size_t at = 0; for(int i = 0; i < depth; ++i) { in.clear(); int op = ch(5); if(op == 0) { int x = in.get(), e = at < t.size() ? (unsigned char)t[at] : -1; if(e >= 0) ++at; log += "get, "; MC_CHECK(x == e, "buffer %d, after %s: got %d, expected %d", bs, log.c_str(), x, e); } else if(op == 1) { int x = in.peek(), e = at < t.size() ? (unsigned char)t[at] : -1; log += "peek, "; MC_CHECK(x == e, "buffer %d, after %s: got %d, expected %d", bs, log.c_str(), x, e); } else { char b[16]; int n = op == 2 ? 1 : op == 3 ? 3 : 6; in.read(b, n); log += mc::fmt("read %d, ", n); size_t e = std::min<size_t>(n, t.size() - at); MC_CHECK((size_t)in.gcount() == e && !memcmp(b, t.data() + at, e) && in.good() == (e == (size_t)n), "buffer %d, %d bytes, after %s: read %d bytes, expected %zu", bs, len, log.c_str(), (int)in.gcount(), e); at += e; } } h = h * 131 + at; }
    else { std::ostringstream dst; std::string want; { Flip f(dst, bs); std::ostream out(&f); char next = 'a'; for(int i = 0; i < depth; ++i) { int n = ch(6); std::string w; for(int k = 0; k < std::max(n, 1); ++k) w += next++; if(n == 0) out.put(w[0]); else out.write(w.data(), n); for(char x : w) want += (char)(x ^ 0x20); log += mc::fmt("%d, ", n); MC_CHECK(out.good(), "buffer %d, after writing %s the stream has failed", bs, log.c_str()); std::string so = dst.str(); MC_CHECK(so == want.substr(0, so.size()), "buffer %d, after writing %s: %s arrived", bs, log.c_str(), vis(so).c_str()); } } MC_CHECK(dst.str() == want, "buffer %d, after writing %s and closing: \"%s\" arrived, expected \"%s\"", bs, log.c_str(), vis(dst.str()).c_str(), vis(want).c_str()); h = h * 131 + fnv(want); }
    c.outcome(h);
  });
}
MC_CONFIG("splitters") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::ostringstream t[2]; std::string want[2], pending, log; std::vector<int> on; StreamSplitter sp; std::ostream o(&sp); int depth = c.pick(6, 7); char next = 'a'; auto flush = [&] { for(int i : on) want[i] += pending; pending.clear(); };
    for(int i = 0; i < depth; ++i) { int op = ch(7); if(op < 2) { flush(); sp.AddTarget(&t[op]); on.push_back(op); log += mc::fmt("add %d, ", op); } else if(op == 2) { flush(); on.clear(); sp.ClearTargets(); log += "clear, "; } else if(op == 3) { o.flush(); flush(); log += "flush, "; } else if(op == 4) { o << next; pending += next++; log += "char, "; } else if(op == 5) { std::string s(40, next++); o << s; pending += s; log += "long, "; } else { o << 12 << std::endl; pending += "12\n"; flush(); log += "line, "; }
      for(int k = 0; k < 2; ++k) MC_CHECK(t[k].str() == want[k], "after %s: target %d got \"%s\", expected \"%s\"", log.c_str(), k, vis(t[k].str()).c_str(), vis(want[k]).c_str()); }
    c.outcome(fnv(want[0]) * 31 + fnv(want[1]));
  });
}
MC_CONFIG("logs") {
  { std::ostringstream w; Logger l(&w); l.Log("s", "f", 1, 1, 5, 2.5); std::string q = std::string(mc::scratch()) + "/w.log"; Logger l2(q.c_str()); l2.Log("s", "f", 1, 1, 5); unlink(q.c_str()); } // the standard library keeps what it allocates at first use
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::ostringstream t[2]; std::string want[2], pending, log, filewant; std::vector<int> on; std::stringbuf own; std::ostream ext(&own); std::string ownwant; bool assimilated = false, file = false; int depth = c.pick(4, 5); std::string path = std::string(mc::scratch()) + "/E04.log";
    std::map<int, std::string> lv{ { 0, "FATAL: " }, { 1, "ERROR: " }, { 2, "WARNING: " }, { 3, "NOTICE: " }, { 4, "INFO: " }, { 5, "DEBUG: " } }; int maxl = 127; std::string fm = "{0}|{1}|{2}|{3}", nf = "{1}!{3}"; bool nullnf = false;
    auto flush = [&] { for(int i : on) want[i] += pending; if(file) filewant += pending; pending.clear(); }; unlink(path.c_str());
    auto lg = LIB(std::make_unique<Logger>()); lg->SetFormat("{0}|{1}|{2}|{3}"); lg->SetNullFormat("{1}!{3}");
    auto header = [&](const char* src, int level) { std::string l = level < 0 ? "" : lv[level]; return !src && !nullnf ? "f.c!" + l : std::string(src ? src : "") + "|f.c|12|" + l; };
    for(int i = 0; i < depth; ++i) {
      int op = ch(16); log += mc::fmt("%d, ", op);
      switch(op) {
      case 0: case 1: flush(); lg->AddTarget(t[op]); on.push_back(op); break;
      case 2: flush(); on.clear(); file = false; lg->ClearTargets(); break;
      case 3: { const char* src = ch(2) ? "S" : 0; int l = std::vector<int>{ -1, 1, 4, 5 }[ch(4)]; if(l < maxl) { pending += header(src, l) + "n=7\n"; flush(); } if(l == maxl) return; lg->Log(src, "a/b\\f.c", 12, (int8_t)l, "n=", 7); break; }
      case 4: { if(2 == maxl) return; pending += header("x", 2) + "7 {9}{INVALID PARAMETER 3}\n"; flush(); lg->LogFormat("x", "f.c", 12, 2, "{1} {0}{3}", "{9}", 7); break; }
      case 5: { if(3 == maxl) return; if(3 < maxl) { pending += header("P", 3) + "042 str\n"; flush(); } int r = lg->PrintLog("P", "/f.c", 12, 3, "%03d %s", 42, "str"); MC_CHECK(r == (3 < maxl ? 7 : 0), "PrintLog returns %d", r); break; }
      case 6: lg->GetStream() << "raw"; pending += "raw"; break;
      case 7: lg->Assimilate(ext); assimilated = true; break;
      case 8: ext << "e" << std::flush; if(assimilated) { pending += "e"; flush(); } else ownwant += "e"; break;
      case 9: lg->SetLevel(1, "one "); lv[1] = "one "; break;
      case 10: lg->SetLevel(9, "nine "); lv[9] = "nine "; break;
      case 11: if(!lv.count(9) || 9 >= maxl) break; pending += header("N", 9) + "m\n"; flush(); lg->Log("N", "f.c", 12, 9, "m"); break;
      case 12: lg->SetMaxLevel(4); maxl = 4; break;
      case 13: { auto n = LIB(std::make_unique<Logger>(std::move(*lg))); lg = std::move(n); break; }
      case 14: { std::ostringstream other; auto n = LIB(std::make_unique<Logger>(&other)); n->GetStream() << "mine"; std::stringbuf sb; std::ostream taken(&sb); n->Assimilate(taken); *n = std::move(*lg); MC_CHECK(taken.rdbuf() == &sb, "a stream assimilated by a logger that is assigned does not have its own buffer back"); MC_CHECK(other.str() == "mine", "the target replaced by a move lost its log"); lg = std::move(n); break; }
      case 15: if(ch(2)) { lg->SetNullFormat(0); nullnf = true; } else if(!file && access(path.c_str(), F_OK)) { flush(); lg->AddTarget(path.c_str()); file = true; } break;
      }
      for(int k = 0; k < 2; ++k) MC_CHECK(t[k].str() == want[k], "after %s: target %d got \"%s\", expected \"%s\"", log.c_str(), k, vis(t[k].str()).c_str(), vis(want[k]).c_str()); MC_CHECK(own.str() == ownwant, "after %s: the assimilated stream's own buffer has \"%s\", expected \"%s\"", log.c_str(), own.str().c_str(), ownwant.c_str());
    }
    flush(); lg.reset(); for(int k = 0; k < 2; ++k) MC_CHECK(t[k].str() == want[k], "after %s and destruction: target %d got \"%s\", expected \"%s\"", log.c_str(), k, vis(t[k].str()).c_str(), vis(want[k]).c_str()); MC_CHECK(ext.rdbuf() == &own, "after %s and destruction: the assimilated stream does not have its own buffer back", log.c_str()); ext << "back"; MC_CHECK(own.str() == ownwant + "back", "after %s: the assimilated stream", log.c_str());
    if(!access(path.c_str(), F_OK)) { std::ifstream f(path); std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); MC_CHECK(s == filewant, "after %s: the log file has \"%s\", expected \"%s\"", log.c_str(), vis(s).c_str(), vis(filewant).c_str()); unlink(path.c_str()); } c.outcome(fnv(want[0]) * 31 + fnv(want[1]) + fnv(filewant));
  });
}
MC_CONFIG("logs: every maximum level") { mc::enumerate(c, [&](mc::Choose& ch) { int mx = ch(256); std::ostringstream o; { Logger lg(&o); lg.SetFormat("{3}"); lg.SetNullFormat("{3}"); for(int i = 6; i < 127; ++i) lg.SetLevel(i, ""); LIB(lg.SetMaxLevel(mx)); std::string want; int k = 0; for(int l : { -1, 0, 1, 5, 6, 63, 64, 126 }) if(l != mx) { for(int w = 0; w < 3; ++w) { static const char* const NM[] = { "FATAL: ", "ERROR: ", "", "", "", "DEBUG: " }; std::string h = l >= 0 && l < 6 ? NM[l] : ""; if(l < mx) want += h + std::to_string(++k) + "\n"; else ++k; std::string t = std::to_string(k); if(w == 0) lg.Log(0, "f", 1, (int8_t)l, k); else if(w == 1) lg.LogFormat(0, "f", 1, (int8_t)l, "{0}", k); else lg.PrintLog(0, "f", 1, (int8_t)l, "%d", k); } MC_CHECK(o.str() == want, "with a maximum of %d, after logging at %d the target has \"%s\", expected \"%s\"", mx, l, vis(o.str()).c_str(), vis(want).c_str()); } } c.outcome(mx); }); }
MC_CONFIG("logs: construction") {
  { std::ostringstream w; Logger l(&w); l.Log("s", "f", 1, 1, 5, 2.5); std::string q = std::string(mc::scratch()) + "/w.log"; Logger l2(q.c_str()); l2.Log("s", "f", 1, 1, 5); unlink(q.c_str()); } // the standard library keeps what it allocates at first use
  mc::enumerate(c, [&](mc::Choose& ch) {
    std::ostringstream a, b; std::string path = std::string(mc::scratch()) + "/E04c.log"; unlink(path.c_str()); int how = ch(7); std::unique_ptr<Logger> l;
    switch(how) { case 0: l = LIB(std::make_unique<Logger>()); break; case 1: l = LIB(std::make_unique<Logger>(&a)); break; case 2: l = LIB(std::make_unique<Logger>((std::ostream*)0)); break; case 3: l = LIB(std::make_unique<Logger>(path.c_str())); break; case 4: l = LIB(std::make_unique<Logger>(path.c_str(), &a)); break; case 5: l = LIB(std::make_unique<Logger>((const char*)0, &a)); break; case 6: l = LIB(std::make_unique<Logger>(path.c_str(), (std::ostream*)0)); break; }
    bool toA = how == 1 || how == 4 || how == 5, toF = how == 3 || how == 4 || how == 6; if(ch(2)) l->AddTarget((const char*)0); l->SetFormat("{3}<{0}>"); int n = ch(3); std::string want; for(int i = 0; i < n; ++i) { int lv = ch(6); static const char* NAME[] = { "FATAL: ", "ERROR: ", "WARNING: ", "NOTICE: ", "INFO: ", "DEBUG: " }; l->Log("s", "f", 1, (int8_t)lv, i); want += std::string(NAME[lv]) + "<s>" + mc::fmt("%d", i) + "\n"; }
    if(ch(2)) { auto m = LIB(std::make_unique<Logger>(&b)); *m = std::move(*l); l = std::move(m); l->Log("s", "f", 1, 0, "z"); want += "FATAL: <s>z\n"; }
    l.reset(); MC_CHECK(a.str() == (toA ? want : ""), "the stream got \"%s\", expected \"%s\"", vis(a.str()).c_str(), vis(want).c_str()); MC_CHECK(b.str().empty(), "a replaced target got \"%s\"", vis(b.str()).c_str());
    bool have = !access(path.c_str(), F_OK); std::string s; if(have) { std::ifstream f(path); s.assign((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); unlink(path.c_str()); } MC_CHECK(have == toF && s == (toF ? want : ""), "the file got \"%s\", expected \"%s\"", vis(s).c_str(), vis(want).c_str());
  });
}
// time stamps: the local date and time of the entry, for every zone and the ends of days, months and years
static bool FAKE = false; static time_t FAKENOW = 0;
extern "C" time_t time(time_t* p) noexcept { time_t t = FAKENOW; if(!FAKE) { struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts); t = ts.tv_sec; } if(p) *p = t; return t; }
static void civil(long long z, int& y, int& m, int& d) { y = 1970; for(;; ++y) { int n = (y % 4 == 0 && y % 100) || y % 400 == 0 ? 366 : 365; if(z < n) break; z -= n; } static const int ML[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 }; for(m = 0;; ++m) { int n = ML[m] + (m == 1 && ((y % 4 == 0 && y % 100) || y % 400 == 0)); if(z < n) break; z -= n; } ++m; d = (int)z + 1; }
MC_CONFIG("log: time stamps") {
  mc::EnumOpt o; o.leakcheck = false;
  static const long long DAYS[] = { 1, 58, 59, 364, 365, 11015, 11016, 16800, 19722, 19781, 19782, 20000 }; // around new year, the end of February (leap and not), ordinary
  mc::enumerate(c, o, [&](mc::Choose& ch) {
    int off = 30 * (ch(49) - 24); bool dst = ch(2) == 1; int fmt = ch(2); long long day = ch.of(DAYS); static const int SEC[] = { 0, 59, 3599, 3600, 35999, 43200, 82799, 84600, 86399 }; long long now = day * 86400 + ch.of(SEC);
    int real = off + (dst ? 60 : 0); if(real < -720 || real > 780) return;
    std::string tz = mc::fmt("XXX%s%d:%02d", off > 0 ? "-" : "", std::abs(off) / 60, std::abs(off) % 60); if(dst) tz += "YYY,J1/0,J365/23:59:59"; // summer time all year round
    setenv("TZ", tz.c_str(), 1); tzset(); FAKENOW = now; FAKE = true;
    if(dst) { struct tm l; localtime_r(&FAKENOW, &l); if(!l.tm_isdst) { FAKE = false; return; } } // the hours of the change itself
    long got = GetTimeZoneMinutes(); std::stringstream s; { Logger l(&s); l.SetFormat(fmt ? "{5}|" : "{4}|"); l.PrintLog("src", "file", 1, 1, "x"); }
    FAKE = false; unsetenv("TZ"); tzset();
    MC_CHECK(got == real, "the zone is %ld minutes from UTC, expected %d (%s)", got, real, tz.c_str());
    long long loc = now + real * 60; int y, m, d; civil(loc / 86400, y, m, d); long long t = loc % 86400; std::string want = mc::fmt("%lld:%02lld:%02lld|", t / 3600, t / 60 % 60, t % 60); if(fmt) want = mc::fmt("%04d-%02d-%02d ", y, m, d) + want;
    MC_CHECK(s.str().compare(0, want.size(), want) == 0, "an entry at %lld in zone %s is stamped \"%s\", expected \"%s\"", now, tz.c_str(), s.str().c_str(), want.c_str());
  });
}
// long transfers: every length on a lattice
static const int LENS[] = { 1, 7, 15, 16, 17, 31, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 513, 1023, 1024, 1025, 4095, 4096, 4097, 10000 };
static std::string stuff(int n) { std::string s; for(int i = 0; i < n; ++i) s += (char)(i * 7 + i / 256); return s; }
template<class T> static void longarrays(mc::Ctx& c) {
  mc::enumerate(c, [&](mc::Choose& ch) {
    const size_t W = sizeof(T); int n = ch.of(LENS), piece = ch(4), cap = ch(3), rd = ch(3); DynArray<T> a; if(cap) a.SetCapacity(cap == 1 ? 3 : 300); std::string all = stuff(n), got; StreamBufDynArray<T> buf(a); std::iostream io(&buf); size_t step = piece == 0 ? 1 : piece == 1 ? 7 : piece == 2 ? 64 : n;
    size_t back = 0; for(size_t i = 0; i < all.size(); i += step) { size_t k = std::min(step, all.size() - i); if(piece == 0) io.put(all[i]); else io.write(all.data() + i, k); MC_CHECK(io.good(), "writing %d bytes fails at %zu", n, i); if(rd == 1) { io.flush(); size_t whole = (i + k) / W * W; while(back < whole) { int x = io.get(); MC_CHECK(x == (unsigned char)all[back], "byte %zu of %d reads as %d", back, n, x); ++back; } } }
    io.flush(); MC_CHECK(a.Length() == all.size() / W && !memcmp(a.begin(), all.data(), all.size() / W * W), "%d bytes in pieces of %zu: the array has %zu elements, or other ones", n, step, (size_t)a.Length());
    if(rd == 2) { size_t whole = all.size() / W * W; got.resize(whole + 9); io.read(&got[0], whole + 9); MC_CHECK((size_t)io.gcount() == whole && !memcmp(got.data(), all.data(), whole), "reading %zu bytes back gives %d", whole, (int)io.gcount()); } c.outcome(n * 100 + piece * 9 + cap * 3 + rd);
  });
}
MC_CONFIG("long transfers: growing arrays of bytes") { longarrays<char>(c); }
MC_CONFIG("long transfers: growing arrays of four byte elements") { longarrays<int>(c); }
MC_CONFIG("long transfers: arrays, transforming streams, splitters") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int n = ch.of(LENS), bs = ch.of(LENS), way = ch(4); std::string s = stuff(n), t = s; for(char& x : t) x ^= 0x20; size_t step = bs; if(bs > 5000) return;
    if(way == 0) { StreamBufArray<char> b(s.data(), s.size()); std::istream in(&b); std::string g; while(g.size() < s.size()) { std::string k(step, 0); in.read(&k[0], step); if(!in.gcount()) break; g.append(k.data(), in.gcount()); } MC_CHECK(g == s, "reading %d bytes in pieces of %zu", n, step); in.clear(); in.seekg(n / 2); MC_CHECK(in.get() == (n / 2 < n ? (unsigned char)s[n / 2] : -1), "seeking to the middle of %d bytes", n); }
    if(way == 1) { std::istringstream src(s); Flip f(src, bs); std::istream in(&f); std::string g(n + 5, 0); in.read(&g[0], n + 5); MC_CHECK(in.gcount() == n && g.substr(0, n) == t, "reading %d bytes through a buffer of %d gives %d, or other bytes", n, bs, (int)in.gcount()); }
    if(way == 2) { std::ostringstream dst; { Flip f(dst, bs); std::ostream o(&f); o.write(s.data(), n); MC_CHECK(o.good(), "the stream has failed"); } MC_CHECK(dst.str() == t, "writing %d bytes through a buffer of %d: %zu arrive, or other bytes", n, bs, dst.str().size()); }
    if(way == 3) { std::ostringstream a, b; StreamSplitter sp; std::ostream o(&sp); sp.AddTarget(&a); sp.AddTarget(&b); for(size_t i = 0; i < s.size(); i += step) { o.write(s.data() + i, std::min(step, s.size() - i)); if(i % 3 == 0) o.flush(); } o.flush(); MC_CHECK(a.str() == s && b.str() == s, "%d bytes in pieces of %zu: %zu and %zu arrive, or other bytes", n, step, a.str().size(), b.str().size()); }
    c.outcome(n * 4 + way);
  });
}
