from modules import module, split

U = 1300     # a 4 KB block holds three units, an 8 KB block six


def mc_convert(ops):
    out = ["init 65536 1 %d" % (2 * U)]
    for o in ops:
        if o[0] in ("alloc", "reserve", "dup"):
            out.append("%s %d" % (o[0], o[1] * U))
        else:
            out.append(" ".join(str(x) for x in o))
    return out


def one(rng, nops, sizes, var):
    slab = rng.choice([65536, 65536, 131072])
    start = rng.choice([1, 16, 100, 1000, 4000, 4096, 16384, 16384, 70000])
    out = ["init %d %d %d" % (slab, rng.choice([1, 2, 4, 8, 16]), start)]
    if var.get("asan") and rng.random() < 0.3:
        # Past the vectors that have a block of their own.
        out += ["alloc %d" % rng.randrange(1, 20) for _ in range(
            rng.randrange(90, 100))]
        sizes = min(sizes, 3000)
    for _ in range(nops):
        x = rng.random()
        r = rng.random()
        if r < 0.3:
            size = rng.randrange(1, 60)
        elif r < 0.7:
            size = rng.randrange(1, sizes)
        elif r < 0.9:
            k = rng.randrange(0, 6)
            size = max(1, (4096 << k) - rng.choice([0, 1, 16, 47, 48, 49, 50,
                                                    64, 1000]))
            if size > 4 * sizes:
                size = rng.randrange(1, sizes)
        else:
            size = rng.randrange(1, 2 * sizes)
        how = rng.choice([0, 0, 1])
        if x < 0.25:
            out.append("alloc %d %d" % (size, how))
        elif x < 0.40:
            out.append("reserve %d %d" % (size, how))
            if rng.random() < 0.85:
                out.append("alloc %d %d" % (rng.choice(
                    [size, size, rng.randrange(1, size + 1)]), how))
        elif x < 0.65:
            out.append("dup %d" % size)
        elif x < 0.78:
            out.append("svp")
        elif x < 0.90:
            out.append("rollback %d" % rng.choice([0, 0, -1, -1, 1, 2, -2]))
        elif x < 0.95:
            out.append("ptr %d" % rng.randrange(16))
        elif x < 0.98:
            out.append("reset %d" % rng.randrange(2))
        else:
            out.append("huge %d %d" % (rng.choice(
                [rng.randrange(100), rng.randrange(200000),
                 -rng.randrange(1, 500000)]),
                rng.randrange(2)))
    return out


def gen(rng, tier, var):
    n = 300 if tier == "quick" else 4000
    return split([one(rng, rng.randrange(5, 60), rng.choice(
        [200, 2000, 9000, 9000, 40000]), var) for _ in range(n)],
        4 if tier == "quick" else 32)


module(
    ["O01"], name="obuf", driver="obuf.c", trace="TraceObuf",
    variants=[dict(name="plain"), dict(name="ndebug", cflags=["-DNDEBUG"])],
    asan_variants=[dict(name="asan", asan=True)],
    sources=["util", "slab_arena", "slab_cache", "obuf"],
    mc=[dict(spec="MCObuf", cfg="MCObuf.cfg", thorough_cfg="MCObufBig.cfg",
             convert=mc_convert, variants=["plain", "asan"],
             limit={"quick": 1500, "thorough": 12000}, chunk=400)],
    gen=gen,
)
