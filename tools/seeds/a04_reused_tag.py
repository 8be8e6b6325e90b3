PROP = 'A04'
EDITS = [('include/bss-util/BlockAllocMT.h', '        nval.tag = ret.tag + 1;\n', '        nval.tag = ret.tag;\n'), ('include/bss-util/BlockAllocMT.h', '        nval.tag = prev.tag + 1;', '        nval.tag = prev.tag;')]
NEEDS = 'a thread that has read the first free block and its successor, while another one allocates both and frees the first one again'
BREAKS = 'neither taking a block nor giving one back advances the tag, so the compare and swap succeeds although the list has changed, and a block that is in use is handed out again'
DEMO = r'''
#include "bss-util/lockless.h"
static void (*hook)() = 0; static int countdown = 0;
namespace bss { template<typename T> inline bool hooked(volatile T* pval, T newval, T oldval, T& retval) { if(hook && --countdown == 0) { auto h = hook; hook = 0; h(); } return asmcasr<T>(pval, newval, oldval, retval); } }
#define asmcasr hooked
#include "bss-util/BlockAllocMT.h"
#undef asmcasr
using namespace bss;
struct B { void* p[4]; };
static LocklessBlockPolicy<B>* al; static B *a, *b, *c; static void other() { a = al->allocate(1); b = al->allocate(1); al->deallocate(a); }
static void other2() { a = al->allocate(1); b = al->allocate(1); c = al->allocate(1); al->deallocate(c); al->deallocate(a); }
int main() { for(int k = 0; k < 2; ++k) { LocklessBlockPolicy<B> s(8); al = &s; hook = k ? other2 : other; countdown = 2; B* x = s.allocate(1); hook = 0; B* y = s.allocate(1); if(x == b || y == b || x == y) return 1; B* z = s.allocate(1); if(z == b || z == x || z == y) return 2; } return 0; }
'''
