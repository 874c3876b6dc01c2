"""Helper used while preparing fixes: apply the same textual edit to both epochs."""
import sys
def edit(pairs, files):
    for f in files:
        s = open(f).read()
        for old, new in pairs:
            assert s.count(old) == 1, (f, s.count(old), old)
            s = s.replace(old, new)
        open(f, "w").write(s)
