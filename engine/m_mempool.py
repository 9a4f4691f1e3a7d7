from modules import module, split


def mc_convert(ops):
    # 64 KB arena; objects of 230 bytes: 16 or 17 in a 4 KB slab.
    out = ["init 65536 1", "create 0 1000 1", "create 1 230 1"]
    a, b = list(out[:2]), [out[0], out[2]]
    for o in ops:
        if o[0] == "alloc":
            b.append("alloc 1 2")
        else:
            b.append("freeslab 1 %d 2" % o[1])
    b.append("check")
    return b


def one(rng, nops):
    slab = rng.choice([65536, 65536, 131072, 1 << 20])
    nslabs = rng.choice([1, 1, 2, 4])
    out = ["init %d %d" % (slab, nslabs)]
    sizes = []
    npool = rng.choice([1, 1, 2, 3])
    for p in range(npool):
        order = rng.choice([0, 0, 1, 1, 2, 3])
        # The largest object of the chosen slab.
        room = min(slab, 4096 << (order - 1) if order else slab) - 136
        size = rng.choice([8, 9, 12, 16, 24, 64, 100, 500, 504, 1000, 1300,
                           2000, 4000, 4096, 8192, 20000, 30000, 40000,
                           room, room // 2, room // 3, room // 7, room // 8,
                           room // 9, room // 15, room // 16, room // 17,
                           room // 31, room // 33, rng.randrange(8, 4096)])
        if size > room:
            size = rng.randrange(8, room)
        if size * 40 < room and rng.random() < 0.7:
            size = max(size, room // rng.randrange(1, 64))
        sizes.append(size)
        out.append("create %d %d %d" % (p, size, order))
    bias = rng.choice([0.3, 0.45, 0.5, 0.55])
    i = 0
    while i < nops:
        p = rng.randrange(npool)
        x = rng.random()
        burst = rng.choice([1, 1, 1, 2, 3, 5, 8, 20])
        i += 1
        if x < bias:
            out.append("alloc %d %d" % (p, burst))
        elif x < bias + 0.25:
            out.append("free %d %d %d" % (p, rng.randrange(4096), burst))
        elif x < 0.93:
            out.append("freeslab %d %d %d" % (p, rng.randrange(64),
                                              rng.choice([1, 2, burst, 100])))
        elif x < 0.98:
            out.append("check")
        else:
            out.append("destroy %d" % p)
            out.append("create %d %d" % (p, rng.choice(sizes)))
    if rng.random() < 0.5:
        for p in range(npool):
            out.append("free %d 0 4096" % p)
    out.append("check")
    return out


def many(rng):
    """Slabs of more objects than 8 or 16 bits count."""
    slab = rng.choice([1 << 20, 4 << 20, 4 << 20, 65536, 1 << 21])
    size = rng.choice([8, 8, 8, 9, 12, 16, 24, 32, 61])
    out = ["init %d %d" % (slab, rng.choice([1, 1, 2, 3])),
           "create 0 %d %d" % (size, rng.choice(
               [slab.bit_length() - 12, slab.bit_length() - 12,
                slab.bit_length() - 13]))]
    cap = slab // size
    for _ in range(rng.randrange(3, 12)):
        x = rng.random()
        n = rng.choice([cap, cap // 8, cap // 8 + 1, 100, 255, 256, 65536,
                        65535, 3 * cap, rng.randrange(1, cap)])
        if x < 0.5:
            out.append("fill 0 %d" % n)
        elif x < 0.85:
            out.append("drain 0 %d" % n)
        elif x < 0.95:
            out.append("alloc 0 %d" % rng.choice([1, 2, 10]))
        else:
            out.append("free 0 %d 2" % rng.randrange(10))
    if rng.random() < 0.5:
        out += ["drain 0 2000000", "free 0 0 4096"]
    return out + ["check"]


def gen(rng, tier, var):
    n = 60 if tier == "quick" else 1200
    return split([one(rng, rng.randrange(10, 90)) for _ in range(n)] +
                 [many(rng) for _ in range(n // 3)],
                 3 if tier == "quick" else 24)


module(
    ["M01", "M02"], name="mempool", driver="mempool.c", trace="TraceMempool",
    variants=[dict(name="plain"), dict(name="ndebug", cflags=["-DNDEBUG"])],
    sources=["util", "slab_arena", "slab_cache", "mempool"],
    mc=[dict(spec="MCMempool", cfg="MCMempool.cfg",
             thorough_cfg="MCMempoolBig.cfg", convert=mc_convert,
             variants=["plain"], limit={"quick": 250, "thorough": 4000},
             chunk=100)],
    gen=gen,
)
