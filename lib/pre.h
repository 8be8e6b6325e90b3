/* Force-included before every source of a harness build. */
#include "bss-util/compiler.h"
/* always_inline is a build-speed hint here, and recursive always_inline functions only compile at -O0. */
#undef BSS_FORCEINLINE
#define BSS_FORCEINLINE inline
