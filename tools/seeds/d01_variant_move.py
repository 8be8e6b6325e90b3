PROP = 'D01'
EDITS = [('include/bss-util/Variant.h', '          _destruct();\n          _tag = v._tag;\n          _constructU<U, Arg, Args...>(std::forward<U>(v));', '          if(_tag != -1 && v._tag != -1) _destruct();\n          _tag = v._tag;\n          _constructU<U, Arg, Args...>(std::forward<U>(v));')]
NEEDS = 'assigning an empty Variant to one that holds a value'
BREAKS = 'the value that was held is never destroyed'
DEMO = r'''
#include "bss-util/bss_util.h"
#include "bss-util/Variant.h"
using namespace bss;
static int live = 0;
struct X { X() { ++live; } X(const X&) { ++live; } ~X() { --live; } X& operator=(const X&) { return *this; } };
int main() { { Variant<int, X> a, b; a = X(); b = a; a = Variant<int, X>(); if(live != 1) return 1; } return live ? 2 : 0; }
'''
