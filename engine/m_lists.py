from modules import module, split


def mc_convert(ops):
    return ["init"] + [" ".join(str(x) for x in o) for o in ops]


def one(rng, nops):
    out = ["init"]
    kind = rng.choice(["lists", "lists", "lists", "lifo", "slabs"])
    ne = rng.choice([3, 5, 12])
    for _ in range(nops):
        l, k = rng.randrange(1, 4), rng.randrange(1, 4)
        e = rng.randrange(1, ne + 1)
        if kind == "lifo":
            out.append(rng.choice(["push 0 %d" % e, "push 0 %d" % e, "pop"]))
            continue
        if kind == "slabs":
            out.append(rng.choice(["sadd %d %d", "sdel %d %d"]) %
                       (rng.randrange(1 << rng.choice([8, 20, 32, 33, 40])),
                        rng.randrange(1, 9)))
            continue
        op = rng.choice(["add", "addt", "add", "addt", "add", "addt", "del",
                         "shift", "shiftt", "move", "movet", "swap", "splice",
                         "splicet", "cut", "cut", "discard", "create", "purge",
                         "near"])
        if op == "create" and rng.random() < 0.7:
            continue
        if op == "discard" and rng.random() < 0.5:
            continue
        if op in ("add", "addt", "del", "move", "movet", "near"):
            out.append("%s %d %d" % (op, l, e))
        elif op in ("shift", "shiftt", "discard", "create"):
            out.append("%s %d" % (op, l))
        elif op == "purge":
            out.append("purge %d %d %d" % (l, rng.randrange(2),
                                           rng.randrange(2)))
        elif op == "cut":
            out.append("cut %d %d %d" % (l, k, rng.randrange(5)))
        else:
            out.append("%s %d %d" % (op, l, k))
    return out


def gen(rng, tier, var):
    n = 300 if tier == "quick" else 6000
    return split([one(rng, rng.randrange(5, 120)) for _ in range(n)],
                 4 if tier == "quick" else 40)


module(
    ["D01", "D02"], name="lists", driver="lists.c", trace="TraceLists",
    variants=[dict(name="plain")],
    sources=["util"],
    mc=[dict(spec="MCLists", cfg="MCLists.cfg", thorough_cfg="MCListsBig.cfg",
             convert=mc_convert,
             limit={"quick": 4000, "thorough": 30000}, chunk=600)],
    gen=gen,
)
