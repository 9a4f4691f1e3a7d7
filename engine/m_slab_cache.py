from modules import module, split

WRAP = ["-Wl,--wrap=mmap,--wrap=malloc"]


def mc_convert(ops):
    out = ["init 65536 0 128"]
    for o in ops:
        if o[0] == "getord":
            out.append("getord %d" % o[1])
        elif o[0] == "puth":
            out.append("puth %d" % o[1])
        elif o[0] == "getlarge":
            out.append("getlarge 1")
    out.append("check")
    return out


def one(rng, nops):
    slab = rng.choice([65536] * 4 + [131072, 262144, 1048576])
    nslabs = rng.choice([1, 2, 3, 4, 6, 10])
    quota = slab // 1024 * nslabs + rng.choice([0, 0, 1, 37])
    prealloc = rng.choice([0, 0, slab, slab * 2, slab * nslabs, 1])
    out = ["init %d %d %d" % (slab, prealloc, quota)]
    hdr = 56
    put_bias = rng.choice([0.35, 0.45, 0.5])
    faults = rng.random() < 0.4
    for _ in range(nops):
        x = rng.random()
        if x < put_bias:
            out.append("put %d" % rng.randrange(64))
        elif x < put_bias + 0.05:
            out.append("check")
        elif x < put_bias + 0.08:
            out.append("realsize %d" % rng.choice(
                [0, 1, 4096 - hdr, 4096 - hdr + 1, rng.randrange(slab * 2),
                 slab - hdr, slab - hdr + 1]))
        elif x < put_bias + 0.11 and faults:
            out.append(rng.choice(["failmap %d %d" % (rng.randrange(2),
                                                      rng.choice([0, 1, 2])),
                                   "failmalloc %d" % rng.choice([0, 1])]))
        elif x < put_bias + 0.13:
            out.append("quota %d" % (slab // 1024 * rng.randrange(1, 10) +
                                     rng.choice([0, 0, 1, -1])))
        elif x < put_bias + 0.14:
            out.append("gethuge %d" % rng.choice([0, 1, hdr, hdr - 1, hdr + 1,
                                                  4096, 1023, 1024,
                                                  -rng.randrange(1, 500000)]))
        elif x < put_bias + 0.4:
            top = slab.bit_length() - 13
            o = min(rng.choice([0, 0, 1, 2, 3, rng.randrange(0, 12)]),
                    rng.randrange(0, top + 1) if rng.random() < .5 else 99)
            out.append("getord %d" % o)
        elif x < put_bias + 0.43:
            out.append("getlarge %d" % rng.choice([0, 1, 1024, 5000, slab]))
        else:
            k = rng.randrange(0, 6)
            size = rng.choice([
                rng.randrange(0, slab + 2000), (4096 << k) - hdr,
                (4096 << k) - hdr + 1, (4096 << k) - hdr - 1, 4096 << k, 0, 1,
                slab - hdr, slab - hdr + 1, slab, rng.randrange(0, 8192)])
            out.append("get %d" % max(0, size))
    out.append("check")
    return out


def gen(rng, tier, var):
    n, ln = (60, 60) if tier == "quick" else (900, 120)
    n //= 1 if var["name"] != "ndebug" else 2
    scripts = [one(rng, rng.randrange(10, ln)) for _ in range(n)]
    return split(scripts, 3 if tier == "quick" else 24)


module(
    ["C01", "C02"], name="slab_cache", driver="slab_cache.c",
    trace="TraceSlabCache",
    variants=[
        dict(name="plain", ldflags=WRAP),
        dict(name="order16k", cflags=["-DSLAB_MIN_ORDER0_SIZE=16384"],
             ldflags=WRAP),
        dict(name="ndebug", cflags=["-DNDEBUG"], ldflags=WRAP),
    ],
    sources=["util", "slab_arena", "slab_cache"],
    mc=[dict(spec="MCSlabCache", cfg="MCSlabCache.cfg",
             thorough_cfg="MCSlabCacheBig.cfg", convert=mc_convert,
             variants=["order16k"], limit={"quick": 1000}, chunk=250)],
    gen=gen,
)
