"""sync_tree.py SRC DST: make DST hold the bytes of SRC, touching only files that differ."""
import os, shutil, sys

SKIP = {'target', '.git', 'docs', 'node_modules'}


def files(base):
    for d, ds, fs in os.walk(base):
        ds[:] = sorted(x for x in ds if x not in SKIP)
        for f in fs:
            p = os.path.join(d, f)
            if os.path.islink(p) and not os.path.exists(p):
                continue
            if os.path.isfile(p):
                yield os.path.relpath(p, base)


def main(src, dst):
    os.makedirs(dst, exist_ok=True)
    want = set(files(src))
    for r in list(files(dst)):
        if r not in want:
            os.remove(os.path.join(dst, r))
    for r in sorted(want):
        a, b = os.path.join(src, r), os.path.join(dst, r)
        data = open(a, 'rb').read()
        if os.path.isfile(b) and open(b, 'rb').read() == data:
            continue
        os.makedirs(os.path.dirname(b), exist_ok=True)
        with open(b, 'wb') as f:      # a new modification time
            f.write(data)


main(sys.argv[1], sys.argv[2])
