from pybuild import *
tree(bare=True)
build('minorminer/_extern/rpack/_core.pyx', 'c', ['minorminer/_extern/rpack/src/rpackcore.c'], ['minorminer/_extern/rpack/include'])
from minorminer._extern import rpack
from minorminer._extern.rpack import _core


def check(sizes, pos, W, H):
    if len(pos) != len(sizes):
        fail('%d positions for %d items' % (len(pos), len(sizes)))
    for (w, h), (x, y) in zip(sizes, pos):
        if x < 0 or y < 0 or (W is not None and x + w > W) or (H is not None and y + h > H):
            fail('an item of %dx%d at %d,%d leaves the bounds' % (w, h, x, y))
    bw, bh = rpack.bbox_size(sizes, pos)
    if (bw, bh) != (max(x + w for (w, h), (x, y) in zip(sizes, pos)), max(y + h for (w, h), (x, y) in zip(sizes, pos))):
        fail('the bounding box reported is %dx%d' % (bw, bh))
    for i in range(len(sizes)):
        for j in range(i):
            (w, h), (x, y), (a, b), (u, v) = sizes[i], pos[i], sizes[j], pos[j]
            if x < u + a and u < x + w and y < v + b and v < y + h:
                fail('items %d and %d overlap: %r' % (j, i, pos))


def one():
    n, mx = R.randint(1, R.choice((4, 9, 16))), R.choice((3, 6, 30, 200))
    sizes = [(R.randint(1, mx), R.randint(1, R.choice((mx, 2)))) for _ in range(n)]
    if R.random() < .2:
        sizes = [R.choice(sizes) for _ in sizes]
    mw, mh = max(w for w, h in sizes), max(h for w, h in sizes)
    sw, sh = sum(w for w, h in sizes), sum(h for w, h in sizes)
    W = R.choice((None, None, sw, R.randint(mw, sw), R.randint(1, sw)))
    H = R.choice((None, None, sh, R.randint(mh, sh), R.randint(1, sh)))
    case('rpack.pack(%r, max_width=%r, max_height=%r)' % (sizes, W, H))
    try:
        pos = rpack.pack(list(sizes), max_width=W, max_height=H)
    except rpack.PackingImpossibleError:
        if W is None and H is None:
            fail('packing without bounds is refused')
        if (W is None or W >= sw) and (H is None or H >= mh) or (H is None or H >= sh) and (W is None or W >= mw):
            fail('packing is refused although all items fit side by side')
        return
    check(sizes, pos, W, H)


run(one)
