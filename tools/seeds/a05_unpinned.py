PROP = 'A05'
EDITS = [('include/bss-util/RingAlloc.h', '''        cur = _cur.load(std::memory_order_acquire);

        if(!cur->lock.AttemptRLock()) // If this fails we probably got a bucket that was in the middle of being recycled
        {
          _lock.RUnlock();
          continue;
        }
''', '''        cur = _cur.load(std::memory_order_acquire);
        _lock.RUnlock();

        if(!cur->lock.AttemptRLock()) // If this fails we probably got a bucket that was in the middle of being recycled
          continue;

        _lock.RLock();
''')]
NEEDS = 'a thread that is stopped between reading the current bucket and locking it, while another one replaces, recycles and frees that bucket'
BREAKS = 'the bucket is used although it has been freed'
TIMEOUT = 60
FLAGS = '-fsanitize=address -DNDEBUG'
LIBS = '-lpthread'
DEMO = r'''
#include "bss-util/RWLock.h"
#include <thread>
#include <atomic>
#include <unistd.h>
static thread_local void (*hook)() = 0;
struct Hooked : bss::RWLock { bool AttemptRLock() { if(hook) { auto h = hook; hook = 0; h(); } return bss::RWLock::AttemptRLock(); } };
namespace bss { typedef ::Hooked HookedLock; }
#define RWLock HookedLock
#include "bss-util/RingAlloc.h"
#undef RWLock
using namespace bss;
static RingAllocVoid* al; static void* x; static std::atomic<bool> done(false); static std::thread* th;
static void other() { void* b = al->Alloc(1000); al->Dealloc(x); void* c = al->Alloc(5000); al->Dealloc(b); al->Dealloc(c); done = true; }
static void race() { th = new std::thread(other); for(int i = 0; i < 100 && !done; ++i) usleep(10000); }
int main() { RingAllocVoid a(256); al = &a; x = a.Alloc(16); hook = race; void* y = a.Alloc(16); th->join(); a.Dealloc(y); return 0; }
'''
