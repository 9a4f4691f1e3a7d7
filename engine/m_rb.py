import random
from modules import module, split

BIG = (1 << 25) + (1 << 24) - 2


def probes(rng, out, n, moves=3):
    """What is asked about a tree."""
    for _ in range(n):
        k = rng.randrange(4)
        mv = " ".join(str(rng.randrange(2)) for _ in range(rng.randrange(moves * 2)))
        if k == 0:
            out.append("findr %d %s" % (rng.randrange(1, 60), mv))
        elif k == 1:
            out.append("fromr %d %d %s" % (rng.randrange(1, 60),
                                           rng.randrange(8), mv))
        elif k == 2:
            out.append("walk " + " ".join(
                str(rng.choice([0, 1, 2, 3, 3, 3, 3]))
                for _ in range(rng.randrange(1, 12))))
        else:
            out.append("find %d %s" % (rng.randrange(1 << 9), mv))


def mc_convert(ops):
    rng = random.Random(str(ops))
    # Either a few nodes have the same key, or every node has its own.
    out = ["init %d" % rng.choice([1, 1 << 26, 1 << 28])]
    out += [" ".join(str(x) for x in o) for o in ops]
    out.append("check")
    probes(rng, out, 3)
    return out


def one(rng, nops):
    w = rng.choice([1, 2, 4, 16])
    out = ["init %d" % w]
    space = rng.choice([12, 40, 40, 200, 1000])
    style = rng.choice(["mix", "mix", "up", "down", "grow"])
    seq = rng.randrange(1000)
    every = 1 if space <= 40 else 25
    for i in range(nops):
        if style == "up":
            seq += 1
        elif style == "down":
            seq -= 1
        dele = rng.random() < (0.45 if i > nops // 3 else 0.15)
        if style == "grow" and i > nops // 2:
            dele = rng.random() < 0.8
        if rng.random() < 0.02:
            out.append("itdel %d %d %d" % (rng.randrange(0, 30),
                                           rng.randrange(16),
                                           rng.randrange(2)))
        elif dele:
            out.append("delr %d" % rng.choice(
                [1, rng.randrange(1, 400), rng.randrange(1, 400), 0]))
        elif style in ("up", "down"):
            out.append("ins %d" % (5000 + seq))
        else:
            out.append("ins %d" % rng.randrange(1, space + 1))
        if i % every == every - 1:
            out.append("check")
            probes(rng, out, rng.randrange(3))
        if rng.random() < 0.05:
            out.append("find %d %s" % (rng.randrange(0, space // w + 2),
                                       "0 1 1 0 0 0"))
            out.append("from %d 3 1 1 0" % rng.randrange(1, space + 1))
    out.append("check")
    probes(rng, out, 3)
    return out


def gen(rng, tier, var):
    n = 60 if tier == "quick" else 1500
    scripts = [one(rng, rng.randrange(5, 160)) for _ in range(n)]
    if tier == "thorough":
        scripts += [one(rng, 1500) for _ in range(40)]
    out = split(scripts, 2 if tier == "quick" else 24)
    if var["name"] == "gen":
        # Fifty million nodes: the tree is 49 levels high.
        out.insert(0, [["init", "grow %d" % BIG]])
    return out


module(
    ["B01", "B02"], name="rb", driver="rb.c", trace="TraceRb",
    variants=[
        dict(name="key-aug", cflags=["-DEXT", "-DAUG"]),
        dict(name="key-tree-compact-aug",
             cflags=["-DEXT", "-DAUG", "-DRB_COMPACT", "-DRB_CMP_TREE_ARG"]),
        dict(name="aug", cflags=["-DAUG", "-DRB_CMP_TREE_ARG"]),
        dict(name="gen", cflags=["-DRB_COMPACT"], opt="-O2"),
        dict(name="key", cflags=["-DEXT"]),
    ],
    sources=["util"],
    mc=[dict(spec="MCRb", cfg="MCRb.cfg", thorough_cfg="MCRbBig.cfg",
             convert=mc_convert,
             limit={"quick": 1500, "thorough": 12000}, chunk=500)],
    gen=gen,
)
