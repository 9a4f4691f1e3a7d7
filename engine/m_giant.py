"""Pieces of more than 4 GB in every container of bytes."""
from modules import module, split

KINDS = ["region", "ibuf", "obuf", "lsregion", "slab", "small", "mempool",
         "arena"]
DECIDE = [["R01"], ["I01"], ["O01"], ["W01", "W02"], ["C01", "C02"],
          ["S02", "S03"], ["M01", "M02"], ["A01"]]


def size(rng):
    n = rng.choice([rng.randrange(1, 300), rng.randrange(1, 70000),
                    rng.randrange(1 << 21, 1 << 24), 1, 0,
                    (1 << 32) - rng.randrange(1, 5000), 1 << 31,
                    (1 << 31) - rng.randrange(1, 300)])
    return "%d %d" % (rng.choice([0, 0, 1, 1, 2]), n)


def one(rng, kind, nops):
    out = ["init %d %d %d %d %d" % (
        kind, rng.choice([6, 9, 10, 10, 11, 11]),
        rng.choice([rng.randrange(1 << 20, 1 << 27),
                    rng.randrange(1 << 27, 1 << 30), (1 << 27) - 1]),
        rng.choice([0, 0, 1000, 3000, 5000, 12000]),
        rng.choice([2000, 4095, 4096, 6000, 9000, 30000, 60000]))]
    if kind > 5:
        nops *= 3
    if kind == 2 and rng.random() < 0.4:
        return many_buffers(rng, nops)
    for _ in range(nops):
        x = rng.random()
        if x < 0.5:
            out.append("get %s %d" % (size(rng), rng.choice([0, 0, 4, 3, 12])))
        elif x < 0.58:
            out.append("reserve %s" % size(rng))
        elif x < 0.68:
            out.append("keep %d" % rng.randrange(6))
        elif x < 0.8:
            out.append("drop %d" % rng.randrange(5))
        elif x < 0.92:
            out.append("free %d" % rng.randrange(64))
        elif x < 0.94:
            out.append("reset")
        elif x < 0.97:
            out.append("shrink")
        else:
            out.append("flush")
    return out


def many_buffers(rng, nops):
    """An output buffer with (about) as many vectors as there may be."""
    out = ["init 2 %d" % rng.choice([0, 3, 6, 9, 18])]
    for _ in range(rng.choice([60, 70, 100])):
        out.append("fill %d" % rng.choice([0, 0, 0, 1, 500]))
        if rng.random() < 0.1:
            out.append("reserve 0 %d" % rng.choice([1, 500, 5000]))
    for _ in range(nops):
        out.append(rng.choice(["fill 0", "get 0 %d 0" % rng.choice([1, 9000]),
                               "reserve 0 %d" % rng.choice([1, 9000]),
                               "keep %d" % rng.randrange(20, 64), "fill 3"]))
        if rng.random() < 0.03:
            out.append("reset")
    return out


def gen_for(kind):
    def gen(rng, tier, var):
        quick = tier == "quick"
        return split([one(rng, kind, rng.randrange(4, 30))
                      for _ in range(80 if quick else 1500)],
                     1 if quick else 8)
    return gen


for k, name in enumerate(KINDS):
    module([], name="giant-" + name, driver="giant.c", trace="TraceGiant",
           also=DECIDE[k], gen=gen_for(k),
           variants=[dict(name="giant-" + name, cflags=["-DNDEBUG"])])
