"""Write the reference encodings from the current tree (after vetting, see DESIGN.md)."""
import os, sys
sys.path.insert(0, '/verif/lib')
import check as CK, isa, isaref
P = CK.program(); E = CK.effects()
for arch in (sys.argv[1:] or list(isa.ARCHS)):
    q = set((x[1], x[2], x[3], x[4]) for x in isa.run_all(P, E, [arch]))
    items = []
    for x in isa.run_all(P, E, [arch], True):
        if x[5] is None: print('undecided', x[:5]); continue
        if x[5]['regdiff']: print('register table', x[:5], x[5]['regdiff'])
        items.append(('%s|%s|%s' % (x[1], x[2], x[4]), 'q' if (x[1], x[2], x[3], x[4]) in q else '-', x[3], x[5]))
    isaref.save(arch, items)
    print(arch, len(items), os.path.getsize('/verif/ref/%s.txt' % arch))
import leaf
leaf.save(leaf.run_all(P, E))
