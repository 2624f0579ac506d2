"""the include lines of a source, relative to the include path"""
import os, re, sys
f = sys.argv[1]
for l in open('/repo/' + f):
    m = re.match(r'#\s*include\s+"(.*)"', l)
    if m:
        p = os.path.normpath(os.path.join(os.path.dirname(f), m.group(1)))
        if os.path.exists('/repo/' + p) and p.startswith('include/'):
            print('#include "%s"' % p[8:])
        else:
            print('#include "%s"' % m.group(1))
    elif re.match(r'#\s*include\s+<', l):
        print(l.strip())
