PROP = 'C11'
EDITS = [('include/bss-util/Graph.h', '_getData(matrix[(hash[i] * len) + hash[cur->to]], *cur);', '_getData(matrix[(hash[i] * len) + (cur->to < len ? cur->to : hash[cur->to])], *cur);')]
NEEDS = 'ToMatrix after a vertex was removed'
BREAKS = 'edges appear in the wrong column of the matrix'
DEMO = r'''
#include "bss-util/Graph.h"
using namespace bss;
int main() { Graph<int, int> g; int d[4] = { 1, 2, 3, 4 }, e = 9; for(int i = 0; i < 4; ++i) g.AddNode(d + i); g.AddEdge(2, 1, &e); g.AddEdge(3, 2, &e); g.RemoveNode(0); int m[9] = {}, n[3]; g.ToMatrix(m, n); int w[9] = { 0, 0, 0, 9, 0, 0, 0, 9, 0 }; for(int i = 0; i < 9; ++i) if(m[i] != w[i]) return 1; return 0; }
'''
