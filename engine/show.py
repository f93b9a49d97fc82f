import sys
from . import build, mir
lib, bn = build.load()
c = mir.Crate(bn if sys.argv[1] == 'bin' else lib)
for p in sorted(c.bodies):
    if sys.argv[2] == '-l':
        if len(sys.argv) < 4 or sys.argv[3] in p:
            print(p)
    elif p == sys.argv[2] or p.endswith('::' + sys.argv[2]):
        print(mir.show(c.bodies[p]))
