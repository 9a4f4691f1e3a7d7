from modules import module, split

SZ = {1: (990, 1000), 2: (1990, 2000), 3: (3900, 4000), 4: (100, 150)}


def mc_convert(ops):
    # Classes of 1000..4088 bytes share 64 KB slabs; 16 of the greatest fit.
    out = ["init 65536 4 3 1000 2000"]
    for o in ops:
        lo, hi = SZ[o[1]]
        if o[0] == "alloc":
            out.append("alloc %d 8" % hi)
        else:
            out.append("free 0 8 %d %d" % (lo, hi))
    out.append("check")
    return out


def one(rng, nops):
    slab = rng.choice([65536, 65536, 65536, 131072, 262144])
    nslabs = rng.choice([1, 2, 3, 4, 6, 12])
    gran = rng.choice([0, 1, 2, 3, 3, 3, 3, 4, 6, 8])
    mn = rng.choice([8, 8, 16, 24, 40, 100, 333, 1000])
    factor = rng.choice([1050, 1100, 1200, 1300, 1500, 1700, 2000, 1060])
    many = rng.random() < 0.03
    if many:
        # The classes run out before the greatest size is reached.
        slab = 262144
        gran = rng.choice([0, 1, 2, 3, 3])
        mn = rng.choice([8, 16])
        factor = rng.choice([1001, 1002, 1010])
    out = ["init %d %d %d %d %d" % (slab, nslabs, gran, mn, factor)]
    live = 0
    bias = rng.choice([0.4, 0.5, 0.6])
    lim = slab // 16
    focus = [rng.randrange(0, lim) for _ in range(rng.choice([1, 2, 4]))]
    for _ in range(min(nops, 10) if many else nops):
        x = rng.random()
        if x < bias:
            y = rng.random()
            n = rng.choice([1, 1, 2, 5, 10, 20])
            if many and rng.random() < 0.5:
                out.append("cls 1023 %d 1" % rng.choice(
                    [0, 1, 2, 7, 9, 30, 300, 3000, rng.randrange(9000)]))
            elif y < 0.35:
                out.append("cls %d %d %d" % (rng.randrange(1100),
                                             rng.choice([0, 0, 1, -1, -7]), n))
            elif y < 0.75:
                out.append("alloc %d %d" % (rng.choice(focus), n))
            elif y < 0.9:
                out.append("alloc %d %d" % (rng.randrange(0, lim), n))
            elif y < 0.97:
                out.append("alloc %d %d" % (rng.choice(
                    [lim - 1, lim, lim + 1, lim - 8, lim - 9, lim - 16,
                     rng.randrange(0, 4 * slab)]), 1))
            else:
                out.append("huge %d" % rng.choice(
                    [rng.randrange(128), -rng.randrange(1, 500000)]))
            live += n
        elif x < 0.92:
            n = rng.choice([1, 2, 5, 10, 40])
            if rng.random() < 0.3:
                f = rng.choice(focus)
                out.append("free %d %d %d %d" % (rng.randrange(1000), n,
                                                 max(0, f - 20), f + 20))
            else:
                out.append("free %d %d" % (rng.randrange(1000), n))
        elif x < 0.95:
            out.append("misuse %d %d" % (rng.randrange(1000),
                                         rng.randrange(3)))
        elif x < 0.97:
            out.append("free 0 100000")
        else:
            out.append("check")
    if rng.random() < 0.5:
        out.append("free 0 100000")
    out.append("check")
    return out


def gen(rng, tier, var):
    n = 160 if tier == "quick" else 2400
    return split([one(rng, rng.randrange(5, 50)) for _ in range(n)],
                 8 if tier == "quick" else 48)


module(
    ["S02", "S03"], name="small", driver="small.c", trace="TraceSmall",
    variants=[dict(name="plain"), dict(name="branchless",
                                       cflags=["-DNDEBUG",
                                               "-DSMALL_CLASS_BRANCHLESS"])],
    asan_variants=[dict(name="asan", asan=True)],
    sources=["util", "slab_arena", "slab_cache", "mempool", "small_class",
             "small"],
    mc=[dict(spec="MCSmall", cfg="MCSmall.cfg", thorough_cfg="MCSmallBig.cfg",
             convert=mc_convert, variants=["plain", "asan"],
             limit={"quick": 200, "thorough": 3000}, chunk=50)],
    gen=gen,
)
