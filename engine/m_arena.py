from modules import module, split
from m_lifo import program


def mc_convert(s):
    (limit, pre, mask), prog = s[0]
    threads = []
    for ops in prog:
        out = []
        for f in ops:
            out.append({"map": ["map", 0], "unmap": ["unmap", 0],
                        "qused": ["qused"], "quse": ["quse", 0, 31]}[f])
        threads.append(out)
    return program([limit * 32, mask << (1 if pre else 0), 0],
                   [["create", 0, pre * 65536, 65536, 0]], threads,
                   "explore 2 2000")


def arena_ops(rng, n, na):
    return [rng.choice([["map", rng.randrange(na)], ["map", rng.randrange(na)],
                        ["unmap", rng.randrange(na), rng.randrange(3)],
                        ["unmap", rng.randrange(na)],
                        ["map", rng.randrange(na)], ["qused"],
                        ["quse", 0, rng.choice([0, 63, 64, rng.randrange(300)])],
                        ["qfree"], ["unull", rng.randrange(na)]])
            for _ in range(n)]


def one(rng, threads, how):
    na = rng.choice([1, 1, 2])
    slab = rng.choice([0, 65536, 65537, 100000, 131072, 200000, 65535, 1 << 20,
                       (1 << 18) + 1])
    unit = 64
    while unit * 1024 < slab:
        unit *= 2
    slabs = rng.randrange(1, 12)
    total = rng.choice([unit * slabs, unit * slabs + rng.randrange(unit),
                        unit * slabs + unit - 1])
    mask = rng.choice([0, 0, 0, rng.randrange(1 << 12), (1 << 60) - 1,
                       (1 << 60) - (1 << rng.randrange(6))])
    init = [total, mask, rng.choice([0, rng.randrange(1, 16)]),
            rng.choice([0, 0, 0, 0, 1])]
    pre = []
    flags = rng.randrange(6)
    for a in range(na):
        size = slab if a == 0 else rng.choice([slab, 65536, 131072])
        want = rng.choice([0, 0, 1, unit * 1024, unit * 1024 * 2 - 1,
                           unit * 1024 + 1, rng.randrange(1, unit * 1024 * 6),
                           total * 1024, total * 1024 + 1, 1 << 40,
                           (1 << 63) - 1, -1])
        pre.append(["create", a, want, size,
                    flags if rng.random() < 0.7 else rng.randrange(6)])
    if rng.random() < 0.1:
        pre.append(["protect", rng.randrange(na)])
    if rng.random() < 0.2:
        pre.append(["feature", rng.choice([0, 0, 0, 1, 2, 31, 32, 63, 64, 1000,
                                           (1 << 32) - 1])])
    warm = rng.randrange(4) if threads > 0 else rng.randrange(5, 40)
    for o in arena_ops(rng, warm, na):
        # On behalf of a thread.
        o = o + [0] * (4 - len(o)) + [0]
        o[4 if len(o) == 5 else -1] = rng.randrange(3)
        pre.append(o)
        if rng.random() < 0.1:
            pre.append(["sum"])
    if threads == 0 and rng.random() < 0.3:
        pre.insert(rng.randrange(len(pre)), ["destroy", 0])
        pre.append(["create", 0, 1 << 17, 65536, 0])
        pre.append(["map", 0])
    progs = [arena_ops(rng, rng.randrange(1, 6), na) for _ in range(threads)]
    return program(init, pre, progs, how)


def gen(rng, tier, var):
    quick = tier == "quick"
    out = [one(rng, 0, "explore 0 1") for _ in range(200 if quick else 5000)]
    for _ in range(60 if quick else 3000):
        out.append(one(rng, rng.choice([2, 3, 4]), "random %d %d %d" % (
            20 if quick else 100, rng.randrange(1 << 30),
            rng.choice([2, 4, 8]))))
    rng.shuffle(out)
    return split(out, 8 if quick else 40)


module(
    ["A01", "P01"], name="arena", driver="arena_mt.c", trace="TraceArena",
    marker='"op":"script"',
    variants=[dict(name="plain", extra_src=["arena_ops.c"],
                   extra_cflags=["-fsanitize=thread"],
                   lib_cflags=["-fsanitize=thread"])],
    sources=["slab_arena", "small_features"],
    mc=[dict(spec="MCArena", cfg="MCArena.cfg", thorough_cfg="MCArenaBig.cfg",
             convert=mc_convert, workers=4, mem="8g",
             limit={"quick": 500, "thorough": 6000}, chunk=65)],
    gen=gen,
    assumptions=["sequentially consistent memory (the scheduler interleaves "
                 "single accesses)",
                 "the operating system is replaced by one that hands out "
                 "pages of a reserved region and refuses on demand"],
)
