// BUILD: seq lib=bss_util.cpp,bss_util_c.c,ConvertUTF.c
// Questions to the system and Singleton: file sizes of every kind of path, font lookups against a stand-in font library, and who the one instance is after every history.
#include "mc.h"
#include <fcntl.h>
#include <memory>
#include <sys/stat.h>
#include <unistd.h>
#include "bss-util/bss_util.h"
#include "bss-util/bss_util_c.h"
#include "bss-util/os.h"
#include "bss-util/Singleton.h"
using namespace bss;
typedef std::string S;
// font library stand-in: counts what is open and answers what the enumeration chose
static int fcPatterns = 0, fcFonts = 0; static bool fcFont, fcFile; static char* fcPath; static S fcAsked;
extern "C" {
  void* FcInitLoadConfigAndFonts() { static char c; return &c; }
  void FcConfigDestroy(void*) {}
  void* FcNameParse(const unsigned char* n) { fcAsked = (const char*)n; ++fcPatterns; return &fcPatterns; }
  int FcConfigSubstitute(void*, void*, int) { return 1; }
  void FcDefaultSubstitute(void*) {}
  void* FcFontMatch(void*, void*, int* r) { *r = fcFont ? 0 : 1; if(fcFont) ++fcFonts; return fcFont ? &fcFonts : nullptr; }
  int FcPatternGetString(void* p, const char* what, int, unsigned char** s) { if(p != &fcFonts || strcmp(what, "file") || !fcFile) return 1; *s = (unsigned char*)fcPath; return 0; }
  void FcPatternDestroy(void* p) { if(p == &fcFonts) { --fcFonts; if(fcPath) memset(fcPath, '!', strlen(fcPath)); } else if(p == &fcPatterns) --fcPatterns; else mc::fail("a pattern that does not exist is destroyed"); } // the path belongs to the pattern
  int FcPatternAddInteger(void*, const char*, int) { return 1; }
}
MC_CONFIG("font paths") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    int len = ch(c.pick(70, 300)); S path = S("/") + S(len, 'f'); for(int i = 0; i < len; i += 7) path[i] = '/'; fcPath = strdup(path.c_str()); fcFont = ch(3) != 0; fcFile = ch(3) != 0; static const char* FAM[] = { "Arial", "", "Noto Sans:bold" }; const char* fam = ch.of(FAM);
    { auto r = LIB(GetFontPath(fam, 100 * (1 + len % 9), len & 1)); MC_CHECK(fcAsked == fam, "asked for \"%s\"", fcAsked.c_str()); if(!fcFont || !fcFile) MC_CHECK(!r, "a path although there is no font"); else { MC_CHECK(r && S(r.get()) == path, "the path is \"%s\", expected \"%s\"", r ? r.get() : "", path.c_str()); }
      char* raw = r.release(); delete[] raw; }
    MC_CHECK(!fcPatterns && !fcFonts, "%d patterns and %d fonts are left over", fcPatterns, fcFonts); free(fcPath); fcPath = 0;
  });
}
MC_CONFIG("file sizes") {
  static const unsigned long long NO = (unsigned long long)-1; static const long long SZ[] = { 0, 1, 2, 511, 512, 4095, 4096, 65536, 2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 5000000001LL };
  mc::enumerate(c, [&](mc::Choose& ch) {
    S d = mc::scratch() + mc::fmt("/fs%d", (int)getpid()); mkdir(d.c_str(), 0700); static const char* NAMES[] = { "a", "a b", "\xC3\xBC", ".x", "n.txt" }; S p = d + "/" + ch.of(NAMES); unsigned long long want = NO; int kind = ch(6); long long sz = ch.of(SZ);
    auto mk = [&](const S& f) { int fd = open(f.c_str(), O_CREAT | O_WRONLY | O_TRUNC, 0600); if(fd < 0) mc::fail("cannot make a file"); if(ftruncate(fd, sz)) { struct stat st; fstat(fd, &st); sz = st.st_size; } close(fd); }; // (a file system that has no room for it leaves the file as it was)
    switch(kind) { case 0: break; case 1: mk(p); want = sz; break; case 2: mkdir(p.c_str(), 0700); break; case 3: mk(d + "/t"); want = symlink("t", p.c_str()) ? NO : sz; break; case 4: if(symlink("nowhere", p.c_str())) {} break; case 5: mkfifo(p.c_str(), 0600); break; }
    unsigned long long got = LIB(bssFileSize(p.c_str())), miss = LIB(bssFileSize((p + "/x").c_str())), none = LIB(bssFileSize(""));
    unlink(p.c_str()); rmdir(p.c_str()); unlink((d + "/t").c_str()); rmdir(d.c_str());
    MC_CHECK(got == want, "the size of kind %d, %lld bytes is %llu, expected %llu", kind, sz, got, want); MC_CHECK(miss == NO && none == NO, "a path that does not exist has the size %llu / %llu", miss, none);
  });
}
struct One : Singleton<One> { int id; One(int i) : id(i) {} One(One&& m) : Singleton<One>(std::move(m)), id(m.id) {} One& operator=(One&& m) { Singleton<One>::operator=(std::move(m)); return *this; } static One* Instance() { return _instance; } };
template<> One* Singleton<One>::_instance = 0;
MC_CONFIG("Singleton: all histories") {
  mc::enumerate(c, [&](mc::Choose& ch) {
    const int N = 3; std::unique_ptr<One> o[N]; int inst = -1, len = c.pick(6, 7); S log;
    for(int i = 0; i < len; ++i) { int a = ch(N), b;
      switch(ch(4)) {
      case 0: if(o[a]) return; o[a].reset(LIB(new One(a))); inst = a; log += mc::fmt("new %d,", a); break;
      case 1: if(!o[a]) return; LIB((o[a].reset(), 0)); if(inst == a) inst = -1; log += mc::fmt("delete %d,", a); break;
      case 2: b = ch(N); if(!o[a] || o[b]) return; o[b].reset(LIB(new One(std::move(*o[a])))); if(inst == a) inst = b; log += mc::fmt("%d = One(move %d),", b, a); break;
      case 3: b = ch(N); if(!o[a] || !o[b]) return; LIB((*o[b] = std::move(*o[a]), 0)); if(inst == a) inst = b; log += mc::fmt("%d = move %d,", b, a); break;
      }
      MC_CHECK(One::Instance() == (inst < 0 ? nullptr : o[inst].get()), "the instance is wrong after %s", log.c_str());
    }
    for(int i = 0; i < N; ++i) { o[i].reset(); } MC_CHECK(!One::Instance(), "an instance is left over after %s", log.c_str());
  });
}
MC_CONFIG("time zones") {
  mc::EnumOpt o; o.leakcheck = false;
  mc::enumerate(c, o, [&](mc::Choose& ch) {
    int off = 15 * (ch(105) - 48); S tz = mc::fmt("XXX%s%d:%02d", off > 0 ? "-" : "", std::abs(off) / 60, std::abs(off) % 60);
    setenv("TZ", tz.c_str(), 1); tzset(); long got = LIB(GetTimeZoneMinutes()); unsetenv("TZ"); tzset(); MC_CHECK(got == off, "zone %s is %ld minutes from UTC, expected %d", tz.c_str(), got, off);
  });
}
