#!/usr/bin/env python3
# rewrites section 7 of DESIGN.md from the seed files
import os,glob
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
t=open('DESIGN.md').read(); head=t.split('## 7. Planted bugs')[0]
out=head+'''## 7. Planted bugs

Each compiles, passes the 62 stable tests and has a demonstration that fails only with it; the quick check of the property named is the one
that catches it (`tools/seed.py ID` repeats all of that). Changes that the repository's own tests turned out to detect were dropped.

| change | caught by | what it breaks | needs |
|---|---|---|---|
'''
for f in sorted(glob.glob('tools/seeds/*.py')):
    ns={}; exec(open(f).read(),ns)
    out+='| %s | %s quick%s | %s | %s |\n'%(os.path.basename(f)[:-3],ns['PROP'],'' if not ns.get('MISSED') else ' (missed)',ns['BREAKS'].replace('|','/'),ns['NEEDS'].replace('|','/'))
out+='''
Besides these, `tools/automut.py` mutates single lines of the anchored files (operators, constants, deleted statements, dropped moves) and runs
the property's quick check on each; the survivors were read one by one. Most are equivalent, or belong to another property anchored in the
same file; the others led to further configurations.
'''
open('DESIGN.md','w').write(out)
