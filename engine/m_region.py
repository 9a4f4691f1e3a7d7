from modules import module, split

# The guard is C++.
GUARD = dict(extra_src=["region_guard.cpp"],
             extra_cflags=["-x", "c++", "-fno-exceptions", "-fno-rtti"])
U = 1000     # one unit of the model; a 4 KB block holds four


def mc_convert(ops):
    out = ["init 65536 16"]
    for o in ops:
        if o[0] in ("alloc", "reserve"):
            out.append("%s 0 %d" % (o[0], o[1] * U))
        elif o[0] in ("cut", "join"):
            out.append("%s 0 %d" % (o[0], o[1] * U))
        else:
            out.append("%s 0" % o[0])
    out.append("check 0")
    return out


def size_of(rng, slab):
    x = rng.random()
    if x < 0.35:
        return rng.randrange(1, 200)
    if x < 0.6:
        return rng.randrange(200, 4100)
    if x < 0.75:
        k = rng.randrange(0, 6)
        return max(1, (4096 << k) - rng.choice([0, 1, 63, 64, 65, 71, 72, 73,
                                                79, 80, 81, 95, 100, 4095]))
    if x < 0.95:
        return rng.randrange(1, slab)
    return rng.randrange(slab // 2, 2 * slab)


def one(rng, nops):
    slab = rng.choice([65536, 65536, 131072])
    out = ["init %d %d" % (slab, rng.choice([2, 4, 16, 64]))]
    big = rng.random() < 0.4
    for _ in range(nops):
        r = rng.choice([0, 0, 0, 1])
        x = rng.random()
        al = rng.choice([0, 0, 0, 0, 1, 2, 3, 3, 4, 6, 9, 12])
        size = size_of(rng, slab) if big else rng.choice(
            [rng.randrange(1, 100), rng.randrange(1, 2000),
             rng.randrange(1, 5000)])
        how = rng.choice([0, 0, 1])
        if rng.random() < 0.1:
            # Objects, arrays and what is taken under a guard.
            if rng.random() < 0.6:
                out.append("alloc %d %d 0 %d" % (
                    r, rng.randrange(1, 3000), rng.randrange(2, 10)))
            else:
                out.append("guard %d %s" % (r, " ".join(
                    "%d %d" % (size_of(rng, slab) if big else
                               rng.randrange(1, 3000),
                               rng.choice([0, 0, 0, 3, 6]))
                    for _ in range(rng.randrange(4)))))
        if x < 0.5:
            out.append("alloc %d %d %d %d" % (r, size, al, how))
        elif x < 0.62:
            out.append("reserve %d %d %d %d" % (r, size, al, how))
            if rng.random() < 0.8:
                out.append("alloc %d %d %d %d" %
                           (r, rng.choice([size, rng.randrange(1, size + 1)]),
                            al, how))
        elif x < 0.72:
            out.append("truncate %d %d" % (r, rng.choice([-1, -1, -2, -2, -3,
                                                          -4, -6, -8, 0])))
        elif x < 0.74:
            out.append("near %d %d %d %d" % (
                r, rng.choice([0, 1, 1]), rng.randrange(-8, 0),
                rng.choice([-2, -1, -1, 0, 1, 1, 2])))
        elif x < 0.8:
            out.append("cut %d %d" % (r, rng.choice([0, 1, 7, size,
                                                     rng.randrange(10 ** 6)])))
        elif x < 0.9:
            out.append("join %d %d" % (r, rng.choice([1, size, 2 * size, 4000,
                                                      rng.randrange(1, 50000)])))
        elif x < 0.92:
            out.append("huge %d %d %d" % (r, rng.choice(
                [rng.randrange(64), -rng.randrange(1, 500000)]), al))
        elif x < 0.95:
            out.append("reset %d" % r)
        elif x < 0.96:
            out.append("free %d 1 %d" % (r, size))
        elif x < 0.97:
            out.append("free %d" % r)
        else:
            out.append("check %d" % r)
    out.append("check 0")
    return out


def gen(rng, tier, var):
    n = 300 if tier == "quick" else 4000
    return split([one(rng, rng.randrange(5, 80)) for _ in range(n)],
                 4 if tier == "quick" else 32)


module(
    ["R01", "R02"], name="region", driver="region.c", trace="TraceRegion",
    variants=[dict(GUARD, name="plain"),
              dict(GUARD, name="ndebug", cflags=["-DNDEBUG"])],
    asan_variants=[dict(GUARD, name="asan", asan=True)],
    sources=["util", "slab_arena", "slab_cache", "region"],
    mc=[dict(spec="MCRegion", cfg="MCRegion.cfg",
             thorough_cfg="MCRegionBig.cfg", convert=mc_convert,
             variants=["plain", "asan"],
             limit={"quick": 1500, "thorough": 12000}, chunk=400)],
    gen=gen,
)
