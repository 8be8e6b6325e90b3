#include "mc.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <dirent.h>
#include <unistd.h>
#include <signal.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
extern "C" const char* __asan_default_options() {
  return "detect_leaks=0:exitcode=99:quarantine_size_mb=4:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=190:"
    "hard_rss_limit_mb=6000:allow_user_segv_handler=1:detect_stack_use_after_return=0:detect_odr_violation=0:symbolize=0:max_redzone=64:"
    "replace_str=1:strict_string_checks=0:alloc_dealloc_mismatch=0:malloc_context_size=1";
}
#endif
namespace mc {
  struct Shm { volatile uint64_t progress; volatile uint32_t n; volatile uint32_t intcount; int32_t hist[4096]; char msg[8192]; };
  static Shm* shm = nullptr;
  static bool g_track = false;
  static char g_scratch[256];
  const char* scratch() { return g_scratch; }
  void tick() { if(shm) shm->progress = shm->progress + 1; }

  std::string fmt(const char* f, ...) { char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
  void fail(const char* f, ...) { g_track = false; char b[8192]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); throw Violation{ b }; }
  void Ctx::log(const char* f, ...) { if(!replaying) return; NoTrack nt; va_list a; va_start(a, f); vprintf(f, a); va_end(a); printf("\n"); fflush(stdout); }

  // ---- heap tracking ----
  struct Blk { uintptr_t p; size_t n; };
  static const size_t MAXB = 1 << 16;
  static Blk blks[MAXB]; static size_t nblk = 0;
  static void on_malloc(const volatile void* p, size_t n) { if(!g_track || !p) return; if(nblk < MAXB) { blks[nblk].p = (uintptr_t)p; blks[nblk].n = n; ++nblk; } }
  static void on_free(const volatile void* p) { if(!p) return; for(size_t i = nblk; i-- > 0;) if(blks[i].p == (uintptr_t)p) { blks[i] = blks[--nblk]; return; } }
  Track::Track() : old(g_track) { g_track = true; }
  Track::~Track() { g_track = old; }
  NoTrack::NoTrack() : old(g_track) { g_track = false; }
  NoTrack::~NoTrack() { g_track = old; }
  size_t live_blocks() { return nblk; }
  void reset_blocks() { nblk = 0; g_track = false; }
  std::string describe_blocks() { NoTrack nt; std::string s; for(size_t i = 0; i < nblk && i < 8; ++i) s += fmt("%zu bytes; ", blks[i].n); return s; }

  void Key::bytes(const void* p, size_t n) { const uint8_t* q = (const uint8_t*)p; while(n >= 8) { uint64_t w; memcpy(&w, q, 8); word(w); q += 8; n -= 8; } uint64_t w = 0; memcpy(&w, q, n); word(w ^ (uint64_t)n << 56); }
  __attribute__((no_sanitize_address)) static uint64_t rawword(uintptr_t p) { return *(const volatile uint64_t*)p; }
  void Key::object(const void* root, size_t n)
  {
    NoTrack nt;
    static std::vector<Blk> s; static std::vector<int> id; static std::vector<Blk> order; static std::vector<uint32_t> oid;
    s.assign(blks, blks + nblk);
    std::sort(s.begin(), s.end(), [](const Blk& x, const Blk& y) { return x.p < y.p; });
    id.assign(s.size(), -1); order.clear();
    order.push_back({ (uintptr_t)root, n });
    int next = 1;
    for(size_t i = 0; i < order.size(); ++i) {
      Blk b = order[i];
      word(0xB10Cull << 32 | b.n);
      for(size_t o = 0; o + 8 <= b.n; o += 8) {
        uint64_t w = rawword(b.p + o);
        if(w >= (uintptr_t)root && w <= (uintptr_t)root + n) { word(0x700700ull << 32 | (w - (uintptr_t)root)); continue; }
        auto it = std::upper_bound(s.begin(), s.end(), w, [](uint64_t v, const Blk& x) { return v < x.p; });
        if(it != s.begin()) {
          --it; size_t k = it - s.begin();
          if(w <= it->p + it->n) {
            if(id[k] < 0) { id[k] = next++; order.push_back(*it); }
            word(0x90190ull << 40 | (uint64_t)id[k] << 20 | (w - it->p)); continue;
          }
        }
        word(w);
      }
      for(size_t o = b.n & ~(size_t)7; o < b.n; ++o) word(*((const uint8_t*)b.p + o));
    }
  }

  // ---- element registries ----
  long Obj::live = 0; const char* Obj::error = nullptr;
  void Obj::reset() { live = 0; error = nullptr; }
  static const uint32_t MG = 0x0B1EC7ED, DEAD = 0xDEADDEAD;
  static void err(const char* e) { if(!Obj::error) Obj::error = e; }
#define OBJ_OK(o, what) do { if((o).magic != MG) err(what " of an element that is not alive"); else if((o).self != &(o)) err(what " of an element whose bytes were moved without its move constructor"); } while(0)
  Obj::Obj(int x) : v(x), self(this), magic(MG) { ++live; }
  Obj::Obj(const Obj& o) : v(o.v), self(this), magic(MG) { OBJ_OK(o, "copy"); ++live; }
  Obj::Obj(Obj&& o) : v(o.v), self(this), magic(MG) { OBJ_OK(o, "move"); o.v = -77; ++live; }
  Obj::~Obj() { OBJ_OK(*this, "destruction"); magic = DEAD; --live; }
  Obj& Obj::operator=(const Obj& o) { OBJ_OK(*this, "assignment to"); OBJ_OK(o, "assignment from"); v = o.v; return *this; }
  Obj& Obj::operator=(Obj&& o) { OBJ_OK(*this, "assignment to"); OBJ_OK(o, "assignment from"); if(this != &o) { v = o.v; o.v = -77; } return *this; }
#define REL_OK(o, what) do { if((o).magic != MG) err(what " of an element that is not alive"); } while(0)
  Rel::Rel(int x) : v(x), magic(MG) { ++Obj::live; }
  Rel::Rel(const Rel& o) : v(o.v), magic(MG) { REL_OK(o, "copy"); ++Obj::live; }
  Rel::Rel(Rel&& o) : v(o.v), magic(MG) { REL_OK(o, "move"); o.v = -77; ++Obj::live; }
  Rel::~Rel() { REL_OK(*this, "destruction"); magic = DEAD; --Obj::live; }
  Rel& Rel::operator=(const Rel& o) { REL_OK(*this, "assignment to"); REL_OK(o, "assignment from"); v = o.v; return *this; }
  Rel& Rel::operator=(Rel&& o) { REL_OK(*this, "assignment to"); REL_OK(o, "assignment from"); if(this != &o) { v = o.v; o.v = -77; } return *this; }
  MoveOnly::MoveOnly(int x) : v(x), self(this), magic(MG) { ++Obj::live; }
  MoveOnly::MoveOnly(MoveOnly&& o) : v(o.v), self(this), magic(MG) { OBJ_OK(o, "move"); o.v = -77; ++Obj::live; }
  MoveOnly::~MoveOnly() { OBJ_OK(*this, "destruction"); magic = DEAD; --Obj::live; }
  MoveOnly& MoveOnly::operator=(MoveOnly&& o) { OBJ_OK(*this, "assignment to"); OBJ_OK(o, "assignment from"); if(this != &o) { v = o.v; o.v = -77; } return *this; }

  void begin_exec(Ctx&, const std::vector<uint8_t>& h, int op)
  {
    size_t n = std::min<size_t>(h.size(), 4095); for(size_t i = 0; i < n; ++i) shm->hist[i] = h[i];
    if(op >= 0) shm->hist[n++] = op;
    shm->n = n; shm->progress = shm->progress + 1;
  }
  static std::vector<int>* cur_pre = nullptr;
  void begin_exec_i(Ctx&, const std::vector<int>& h)
  {
    size_t n = std::min<size_t>(h.size(), 4096); for(size_t i = 0; i < n; ++i) shm->hist[i] = h[i];
    shm->n = n; shm->progress = shm->progress + 1;
  }
  Config* Config::head = nullptr;
  Config::Config(const char* n, void (*f)(Ctx&), bool t) : name(n), fn(f), thorough_only(t), next(nullptr) { Config** p = &head; while(*p) p = &(*p)->next; *p = this; }

  static std::string jesc(const std::string& s) { std::string r = "\""; for(unsigned char ch : s) { if(ch == '"' || ch == '\\') { r += '\\'; r += ch; } else if(ch < 32 || ch >= 127) r += fmt("\\u%04x", ch); else r += ch; } return r + "\""; }
  static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
  static void rmtree(const char* d) { std::string cmd = d; DIR* dir = opendir(d); if(!dir) return; while(dirent* e = readdir(dir)) { if(!strcmp(e->d_name, ".") || !strcmp(e->d_name, "..")) continue; std::string p = cmd + "/" + e->d_name; struct stat st; if(!lstat(p.c_str(), &st) && S_ISDIR(st.st_mode)) rmtree(p.c_str()); else unlink(p.c_str()); } closedir(dir); rmdir(d); }

  struct Child { Config* cfg; pid_t pid; Shm* shm; std::string out; std::string errf; std::string dir; uint64_t last; double lastt; double t0; bool hung; std::vector<int> replay; bool isreplay; };
  static double cputime(pid_t pid) { // user+system cpu seconds of a process; hangs are judged on this, not on wall time
    char p[64]; snprintf(p, sizeof p, "/proc/%d/stat", pid); FILE* f = fopen(p, "r"); if(!f) return -1;
    char b[1024]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0; char* q = strrchr(b, ')'); if(!q) return -1;
    unsigned long u = 0, s = 0; if(sscanf(q + 2, "%*c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %lu %lu", &u, &s) != 2) return -1;
    return (double)(u + s) / sysconf(_SC_CLK_TCK);
  }

  static int child_main(Child& ch, bool thorough)
  {
    shm = ch.shm;
    snprintf(g_scratch, sizeof g_scratch, "%s", ch.dir.c_str());
    int e = open(ch.errf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); dup2(e, 2);
    if(!ch.isreplay) dup2(e, 1);
    if(chdir(g_scratch)) {}
    rlimit rl{ 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
    Ctx c; c.name = ch.cfg->name; c.thorough = thorough; c.replaying = ch.isreplay; c.replay = ch.replay;
    double t0 = now(); int rc = 0;
    try { ch.cfg->fn(c); }
    catch(Violation& v) { g_track = false; snprintf(shm->msg, sizeof shm->msg, "%s", v.msg.c_str()); if(ch.isreplay) printf("VIOLATED: %s\n", v.msg.c_str()); rc = 3; }
    catch(std::exception& x) { g_track = false; snprintf(shm->msg, sizeof shm->msg, "unexpected exception: %s", x.what()); if(ch.isreplay) printf("VIOLATED: %s\n", shm->msg); rc = 3; }
    g_track = false;
    c.st.outcomes = c.outs.size();
    std::string j = fmt("{\"config\":%s,\"states\":%llu,\"transitions\":%llu,\"execs\":%llu,\"outcomes\":%llu,\"depth\":%d,\"closed\":%s,\"capped\":%s,\"wall\":%.2f,\"note\":%s,",
      jesc(c.name).c_str(), (unsigned long long)c.st.states, (unsigned long long)c.st.transitions, (unsigned long long)c.st.execs, (unsigned long long)c.st.outcomes, c.st.depth,
      c.st.closed ? "true" : "false", c.st.capped ? "true" : "false", now() - t0, jesc(c.note).c_str());
    j += "\"samples\":["; for(size_t i = 0; i < c.samples.size(); ++i) j += (i ? "," : "") + jesc(c.samples[i]); j += "],\"known\":[";
    size_t i = 0; for(auto& k : c.known) j += (i++ ? "," : "") + jesc(k); j += "]}";
    FILE* f = fopen(ch.out.c_str(), "w"); fwrite(j.data(), 1, j.size(), f); fclose(f);
    fflush(stdout); fflush(stderr);
    return rc;
  }
  static std::string slurp(const std::string& p) { std::string s; FILE* f = fopen(p.c_str(), "r"); if(!f) return s; char b[4096]; size_t n; while((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }

  static std::string base; static int seqno = 0;
  static Child start(Config* cfg, bool thorough, bool rep, const std::vector<int>& hist)
  {
    Child ch; ch.cfg = cfg; ch.isreplay = rep; ch.replay = hist; ch.hung = false; ch.last = 0; ch.lastt = 0; ch.t0 = now();
    ch.shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); memset(ch.shm, 0, sizeof(Shm));
    int k = seqno++; ch.out = fmt("%s/r%d.json", base.c_str(), k); ch.errf = fmt("%s/e%d.txt", base.c_str(), k); ch.dir = fmt("%s/d%d", base.c_str(), k);
    mkdir(ch.dir.c_str(), 0755);
    fflush(stdout); fflush(stderr);
    ch.pid = fork();
    if(!ch.pid) { int rc = child_main(ch, thorough); _exit(rc); }
    return ch;
  }
  static bool g_thorough = false; static double g_hang = 20;
  // waits for one child; returns status and whether it was killed for making no progress
  static bool poll_child(Child& ch, int& status, double limit)
  {
    int r = waitpid(ch.pid, &status, WNOHANG);
    if(r == ch.pid) return true;
    uint64_t p = ch.shm->progress; double cpu = cputime(ch.pid);
    if(p != ch.last) { ch.last = p; ch.lastt = cpu; ch.t0 = now(); }
    else if(cpu >= 0 && (cpu - ch.lastt > limit || now() - ch.t0 > limit * 10)) { ch.hung = true; kill(ch.pid, SIGKILL); waitpid(ch.pid, &status, 0); return true; }
    return false;
  }
  static std::string outcome_text(Child& ch, int status)
  {
    if(ch.hung) return fmt("no progress: the operation did not return (stopped after %.0f s of CPU time)", g_hang);
    if(WIFSIGNALED(status)) return fmt("crash: signal %d%s", WTERMSIG(status), WTERMSIG(status) == SIGABRT ? " (abort/assertion)" : "");
    int rc = WEXITSTATUS(status);
    if(rc == 3) return ch.shm->msg;
    if(rc == 99) { std::string e = slurp(ch.errf); size_t p = e.find("ERROR: AddressSanitizer"); return "memory error: " + (p == std::string::npos ? e.substr(0, 300) : e.substr(p, e.find('\n', p) - p)); }
    return fmt("exit status %d", rc);
  }

  static int run_all(const char* only, const char* outf, int jobs)
  {
    std::vector<Config*> todo; for(Config* x = Config::head; x; x = x->next) if((!only || !strcmp(only, x->name)) && (g_thorough || !x->thorough_only)) todo.push_back(x);
    std::vector<Child> running; size_t nexti = 0; std::string js = "{\"configs\":["; bool firstj = true; std::vector<std::string> viols; int errors = 0;
    bool stop = false;
    while((nexti < todo.size() && !stop) || !running.empty()) {
      while(!stop && nexti < todo.size() && (int)running.size() < jobs) running.push_back(start(todo[nexti++], g_thorough, false, {}));
      usleep(3000);
      for(size_t i = 0; i < running.size(); ++i) {
        int st = 0; if(!poll_child(running[i], st, g_hang)) continue;
        Child ch = running[i]; running.erase(running.begin() + i); --i;
        rmtree(ch.dir.c_str());
        if(!ch.hung && WIFEXITED(st) && WEXITSTATUS(st) == 0) { std::string r = slurp(ch.out); js += (firstj ? "" : ",") + r; firstj = false; }
        else if(stop) {}
        else { // a violation: replay it alone, twice, before reporting it
          std::string what = outcome_text(ch, st); std::vector<int> h(ch.shm->hist, ch.shm->hist + ch.shm->n); std::string hs; for(int x : h) hs += fmt("%s%d", hs.empty() ? "" : ",", x);
          std::string what2, trace; bool ok = true;
          for(int rep = 0; rep < 2; ++rep) {
            int pf[2]; if(pipe(pf)) {} (void)pf;
            int save = dup(1); std::string tf = base + fmt("/t%d.txt", rep); int fd = open(tf.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644); fflush(stdout); dup2(fd, 1);
            Child r = start(ch.cfg, g_thorough, true, h);
            fflush(stdout); dup2(save, 1); close(fd); close(save); close(pf[0]); close(pf[1]);
            int s2 = 0; r.t0 = now(); while(!poll_child(r, s2, ch.hung ? g_hang * 3 : g_hang)) usleep(2000);
            rmtree(r.dir.c_str());
            if(!r.hung && WIFEXITED(s2) && WEXITSTATUS(s2) == 0) { ok = false; break; }
            what2 = outcome_text(r, s2); trace = slurp(tf) + slurp(r.errf);
          }
          if(!ok) { fprintf(stderr, "harness error: config %s history [%s] failed (%s) but did not fail when replayed\n%s\n", ch.cfg->name, hs.c_str(), what.c_str(), slurp(ch.errf).substr(0, 2000).c_str()); ++errors; }
          else { viols.push_back(fmt("{\"config\":%s,\"history\":[%s],\"what\":%s,\"trace\":%s}", jesc(ch.cfg->name).c_str(), hs.c_str(), jesc(what2).c_str(), jesc(trace.substr(0, 6000)).c_str()));
            fprintf(stderr, "violation in %s: %s\n", ch.cfg->name, what2.c_str());
            stop = true; for(auto& o : running) kill(o.pid, SIGKILL); }
        }
      }
    }
    js += "],\"violations\":["; for(size_t i = 0; i < viols.size(); ++i) js += (i ? "," : "") + viols[i]; js += fmt("],\"errors\":%d}", errors);
    FILE* f = outf ? fopen(outf, "w") : stdout; fwrite(js.data(), 1, js.size(), f); if(outf) fclose(f); else printf("\n");
    return !viols.empty() ? 1 : (errors ? 2 : 0);
  }
}
int main(int argc, char** argv)
{
  using namespace mc;
  const char* only = nullptr; const char* out = nullptr; const char* rep = nullptr; int jobs = 8;
  for(int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if(a == "--thorough") g_thorough = true;
    else if(a == "--only") only = argv[++i];
    else if(a == "--out") out = argv[++i];
    else if(a == "--replay") rep = argv[++i];
    else if(a == "--jobs") jobs = atoi(argv[++i]);
    else if(a == "--list") { for(Config* x = Config::head; x; x = x->next) puts(x->name); return 0; }
  }
#if defined(__SANITIZE_ADDRESS__)
  __sanitizer_install_malloc_and_free_hooks(&on_malloc, &on_free);
#endif
  char tmpl[] = "/tmp/mcXXXXXX"; base = mkdtemp(tmpl);
  int rc;
  if(rep) {
    std::vector<int> h; for(const char* p = rep; *p;) { h.push_back(strtol(p, (char**)&p, 10)); while(*p == ',' || *p == ' ') ++p; }
    Config* cfg = nullptr; for(Config* x = Config::head; x; x = x->next) if(only && !strcmp(only, x->name)) cfg = x;
    if(!cfg) { fprintf(stderr, "no such config\n"); return 2; }
    Child ch = start(cfg, g_thorough, true, h); int st = 0; while(!poll_child(ch, st, g_hang * 3)) usleep(2000);
    rc = (WIFEXITED(st) && !ch.hung) ? WEXITSTATUS(st) : 3;
    if(rc) printf("RESULT: %s\n%s\n", outcome_text(ch, st).c_str(), slurp(ch.errf).substr(0, 4000).c_str()); else printf("RESULT: ok\n");
  }
  else rc = run_all(only, out, jobs);
  rmtree(base.c_str());
  return rc;
}

extern "C" __attribute__((weak)) void bss_mc_point(const volatile void*, size_t) {}
