"""What each check explores. variant/profile letters are interpreted by the driver (see drivers/)."""


def exh(depth, variant, profile="-", **k):
    return dict(mode="exh", depth=depth, variant=variant, profile=profile, **k)


def walk(traces, length, variant, profile="-", **k):
    return dict(mode="walk", traces=traces, len=length, variant=variant, profile=profile, **k)


def mc(module, tag, variants=(0,), profile="-", limit=None, invariants=("Inv",), workers=4, **constants):
    d = dict(module=module, tag=tag, variants=list(variants), profile=profile, invariants=list(invariants),
             workers=workers, constants={k: v for k, v in constants.items()})
    if limit:
        d["limit"] = limit
    return d


def calls(*names):
    return "{" + ", ".join('"%s"' % n for n in names) + "}"


PROPS = {}

# ------------------------------------------------------------------ flat_segment_tree
def fstmc(tag, cs, variants=(0, 1, 2, 3, 4), lo=0, hi=4, nv=2, ns=1, **k):
    return mc("FSTMC", tag, variants, LO=lo, HI=hi, NVALS=nv, NSLOTS=ns, CALLS=calls(*cs), **k)


PROPS["F01"] = dict(
    driver="fst", conf="FSTConf",
    quick=dict(mc=[fstmc("FST-insert", ("insf", "insb", "insp"))],
               runs=[exh(2, 10), exh(2, 10, "b"), walk(1500, 40, 10, "i"), walk(1500, 40, 1, "i"), walk(600, 40, 22, "i"), walk(600, 40, 3, "i"), walk(800, 40, 34, "i")]),
    thorough=dict(mc=[fstmc("FST-insert", ("insf", "insb", "insp"), hi=5, nv=3)],
                  runs=[exh(4, 0), exh(4, 0, "b"), exh(2, 10), exh(2, 10, "b")] + [walk(20000, 60, v, "i") for v in (10, 11, 22, 23, 34, 1, 20)]))
PROPS["F02"] = dict(
    driver="fst", conf="FSTConf",
    quick=dict(mc=[fstmc("FST-lookup", ("insf", "shl", "shr", "build", "find", "findp", "pos", "posp", "tree", "tpos"), variants=(0, 2))],
               runs=[walk(2500, 40, v, "l") for v in (10, 1, 22, 3, 34)] + [walk(800, 40, 10, "ml")]),
    thorough=dict(mc=[fstmc("FST-lookup", ("insf", "shl", "shr", "build", "find", "findp", "pos", "posp", "tree", "tpos"), hi=5)],
                  runs=[walk(20000, 60, v, "l") for v in (10, 1, 22, 3, 34, 20)] + [walk(15000, 60, 10, "mls"), walk(10000, 60, 21, "mls")]))
PROPS["F03"] = dict(
    driver="fst", conf="FSTConf",
    quick=dict(mc=[fstmc("FST-slots", ("insf", "clear", "build", "trav", "copy", "asg", "move", "masg", "swap", "eq"), hi=2, ns=2, variants=(0, 1)),
                   fstmc("FST-trav", ("insb", "shl", "shr", "clear", "trav"), variants=(0, 2))],
               runs=[walk(2500, 40, v, "ms") for v in (10, 1, 22, 3, 34)]),
    thorough=dict(mc=[fstmc("FST-slots", ("insf", "clear", "build", "trav", "copy", "asg", "move", "masg", "swap", "eq"), hi=3, ns=2, variants=(0, 1)),
                      fstmc("FST-trav", ("insb", "shl", "shr", "clear", "trav"), hi=5, variants=(0, 2))],
                  runs=[walk(25000, 60, v, "ms") for v in (10, 1, 22, 3, 34, 20, 11)]))
PROPS["F04"] = dict(
    driver="fst", conf="FSTConf",
    quick=dict(mc=[fstmc("FST-shift", ("insf", "shl", "shr", "build", "tree"), variants=(0, 1, 2, 3, 4))],
               runs=[exh(2, 10, "s")] + [walk(2500, 40, v, "s") for v in (10, 1, 22, 3, 34)]),
    thorough=dict(mc=[fstmc("FST-shift", ("insf", "shl", "shr", "build", "tree"), hi=5, nv=3, variants=(0, 1, 2, 4))],
                  runs=[exh(3, 0, "s"), exh(2, 10, "s")] + [walk(25000, 60, v, "s") for v in (10, 1, 22, 3, 34, 20, 11)]))

# ------------------------------------------------------------------ segment_tree
def segmc(tag, cs, variants=(0, 1, 2, 3), hi=2, nv=2, cap=3, ns=1, **k):
    return mc("SegMC", tag, variants, HI=hi, NVALS=nv, CAP=cap, NSLOTS=ns, CALLS=calls(*cs), **k)


SEGCALLS = ("ins", "build", "search", "erit", "erif", "clear")
PROPS["S01"] = dict(
    driver="seg", conf="SegConf",
    quick=dict(mc=[segmc("Seg-search", SEGCALLS, hi=3, nv=1, cap=3)],
               runs=[exh(4, 0)] + [walk(1500, 60, v) for v in (10, 1, 22, 33, 20)]),
    thorough=dict(mc=[segmc("Seg-search", SEGCALLS, hi=3, nv=2, cap=3), segmc("Seg-search-b", SEGCALLS, hi=4, nv=1, cap=4, limit=60000, variants=(0, 1))],
                  runs=[exh(5, 0, maxsteps=4000000)] + [walk(15000, 80, v) for v in (10, 1, 22, 33, 20, 30)]))
PROPS["S02"] = dict(
    driver="seg", conf="SegConf",
    quick=dict(mc=[segmc("Seg-slots", SEGCALLS + ("copy", "asg", "move", "masg", "swap", "eq", "moveclr"), hi=1, nv=2, cap=2, ns=2, variants=(0, 1))],
               runs=[walk(2500, 60, v, "m") for v in (10, 1, 2, 33, 3)]),
    thorough=dict(mc=[segmc("Seg-slots", SEGCALLS + ("copy", "asg", "move", "masg", "swap", "eq", "moveclr"), hi=2, nv=1, cap=2, ns=2, variants=(0, 1, 3))],
                  runs=[walk(20000, 80, v, "m") for v in (10, 1, 2, 33, 3, 0, 22)]))


# ------------------------------------------------------------------ point_quad_tree
def pqtmc(tag, cs, variants=(0, 1, 2, 3), hi=2, nv=1, cap=3, ns=1, **k):
    return mc("PqtMC", tag, variants, HI=hi, NVALS=nv, CAP=cap, NSLOTS=ns, CALLS=calls(*cs), **k)


PROPS["Q01"] = dict(
    driver="pqt", conf="PqtConf",
    quick=dict(mc=[pqtmc("Pqt-insrem", ("ins", "rem"), cap=4)],
               runs=[exh(4, 0)] + [walk(2000, 40, v) for v in (10, 1, 22, 33, 3)]),
    thorough=dict(mc=[pqtmc("Pqt-insrem", ("ins", "rem"), cap=5), pqtmc("Pqt-grid4", ("ins", "rem", "find"), hi=3, nv=2, cap=3, limit=300000)],
                  runs=[exh(5, 0, maxsteps=6000000)] + [walk(20000, 60, v) for v in (10, 1, 22, 33, 3, 0, 12)]))
PROPS["Q02"] = dict(
    driver="pqt", conf="PqtConf",
    quick=dict(mc=[pqtmc("Pqt-search", ("ins", "rem", "search"), cap=3, variants=(0, 1)),
                   pqtmc("Pqt-slots", ("ins", "rem", "clear", "copy", "asg", "swap", "eq"), hi=1, nv=2, cap=2, ns=2, variants=(0, 1))],
               runs=[walk(1500, 40, v, "q") for v in (10, 1, 22, 33, 3)] + [walk(2000, 40, v, "m") for v in (10, 1, 2)]),
    thorough=dict(mc=[pqtmc("Pqt-search", ("ins", "rem", "search"), cap=4, limit=400000),
                      pqtmc("Pqt-slots", ("ins", "rem", "clear", "copy", "asg", "swap", "eq"), hi=1, nv=2, cap=3, ns=2, limit=300000, variants=(0, 1, 2, 3))],
                  runs=[walk(20000, 60, v, "q") for v in (10, 1, 22, 33, 3, 0)] + [walk(20000, 60, v, "mq") for v in (10, 1, 2, 33)]))


# ------------------------------------------------------------------ sorted_string_map
def ssmmc(tag, variants=(0, 1, 2, 3), letters=2, klen=2, nv=2, **k):
    return mc("SsmMC", tag, variants, LETTERS=letters, KLEN=klen, NVALS=nv, **k)


PROPS["M01"] = dict(
    driver="ssm", conf="SsmConf",
    quick=dict(mc=[ssmmc("Ssm-tables", limit=20000)],
               runs=[exh(3, 0)] + [walk(1000, 60, v) for v in (10, 1, 21, 13, 22, 20)]),
    thorough=dict(mc=[ssmmc("Ssm-tables"), ssmmc("Ssm-values", nv=3, variants=(0, 1))],
                  runs=[exh(4, 0), exh(4, 1)] + [walk(10000, 80, v) for v in (10, 1, 21, 13, 22, 20, 23, 12)]))


# ------------------------------------------------------------------ trie_map / packed_trie_map
def triemc(tag, cs, variants=(0, 1, 2, 3, 4, 5), letters=2, klen=2, nv=2, cap=7, ntrie=1, ns=1, **k):
    return mc("TrieMC", tag, variants, LETTERS=letters, KLEN=klen, NVALS=nv, CAP=cap, NTRIE=ntrie, NSLOTS=ns, CALLS=calls(*cs), **k)


PROPS["T01"] = dict(
    driver="trie", conf="TrieConf",
    quick=dict(mc=[triemc("Trie-map", ("ins", "era", "find", "clear", "eqn"), limit=8000, cap=4),
                   triemc("Trie-slots", ("ins", "era", "copy", "asg", "move", "masg", "mclr", "swap", "eq"), klen=1, nv=2, cap=2, ntrie=3, ns=3, limit=8000, variants=(0, 1))],
               runs=[exh(3, 0)] + [walk(800, 50, v) for v in (10, 1, 22, 23, 14, 5, 30, 32, 34)] + [walk(800, 50, v, "m") for v in (10, 1, 23)]),
    thorough=dict(mc=[triemc("Trie-map", ("ins", "era", "find", "clear", "eqn"), limit=100000),
                      triemc("Trie-slots", ("ins", "era", "copy", "asg", "move", "masg", "mclr", "swap", "eq"), klen=1, nv=2, cap=3, ntrie=3, ns=3, limit=100000)],
                  runs=[exh(4, 0)] + [walk(8000, 60, v) for v in (10, 1, 22, 23, 14, 5, 20, 21, 30, 31, 32, 33, 34, 35)] + [walk(8000, 60, v, "m") for v in (10, 1, 23, 24, 22)]))
PROPS["T02"] = dict(
    driver="trie", conf="TrieConf",
    quick=dict(mc=[triemc("Trie-walk", ("ins", "era", "pre", "walk", "walkb", "pwalk"), nv=1, limit=8000)],
               runs=[exh(3, 0, "w")] + [walk(800, 50, v, "q") for v in (10, 1, 22, 23, 14, 5, 30, 33)] + [walk(800, 50, v, "pq") for v in (10, 21, 24, 32, 35)]),
    thorough=dict(mc=[triemc("Trie-walk", ("ins", "era", "pre", "walk", "walkb", "pwalk"), nv=2, limit=100000)],
                  runs=[exh(4, 0, "w")] + [walk(8000, 60, v, "q") for v in (10, 1, 22, 23, 14, 5, 20, 21, 30, 33)] + [walk(8000, 60, v, "pq") for v in (10, 21, 24, 22, 25, 31, 34)]))
PROPS["P01"] = dict(
    driver="trie", conf="TrieConf",
    quick=dict(mc=[triemc("Trie-pack", ("ins", "pack", "find", "pre", "walk", "walkb", "pwalk"), nv=1, cap=7, ns=2, limit=8000, variants=(0, 1, 2, 3, 4, 5)),
                   triemc("Trie-packed-slots", ("ins", "new", "pack", "copy", "asg", "move", "masg", "swap", "eq", "eqn"), klen=1, nv=2, cap=2, ns=3, limit=8000, variants=(0, 1))],
               runs=[exh(1, 0, "g")] + [walk(900, 50, v, "mpq") for v in (10, 21, 22, 23, 14, 5, 1, 30, 31, 34)]),
    thorough=dict(mc=[triemc("Trie-pack", ("ins", "pack", "find", "pre", "walk", "walkb", "pwalk"), nv=1, cap=7, ns=2, limit=100000),
                      triemc("Trie-packed-slots", ("ins", "new", "pack", "copy", "asg", "move", "masg", "swap", "eq", "eqn"), klen=1, nv=2, cap=3, ns=3, limit=100000)],
                  runs=[exh(1, 0, "g")] + [walk(10000, 60, v, "mpq") for v in (10, 21, 22, 23, 14, 5, 1, 24, 20, 30, 31, 32, 33, 34, 35)]))
PROPS["P02"] = dict(
    driver="trie", conf="TrieConf",
    quick=dict(mc=[triemc("Trie-state", ("ins", "pack", "sl", "trunc", "hdr", "xload"), klen=1, nv=2, cap=3, ns=3, limit=3000)],
               runs=[walk(800, 40, v, "ps") for v in (10, 21, 22, 23, 14, 5, 1, 30, 32)]),
    thorough=dict(mc=[triemc("Trie-state", ("ins", "pack", "sl", "trunc", "hdr", "xload"), klen=1, nv=2, cap=3, ns=3, limit=50000)],
                  runs=[walk(8000, 50, v, "ps") for v in (10, 21, 22, 23, 14, 5, 1, 24, 20, 30, 31, 32, 33, 34, 35)]))


# ------------------------------------------------------------------ multi_type_vector
# variant = scale * 100 + unit (see drivers/mtv_unit.cpp); scale 3 starts from 45 one-cell blocks
def mtvmc(tag, cs, variants, tys, maxlen=3, ns=1, cow=False, far=0, **k):
    return mc("MtvMC", tag, variants, TYS="{" + ", ".join(map(str, tys)) + "}", MAXLEN=maxlen, NSLOTS=ns,
              COW="TRUE" if cow else "FALSE", FAR=far, CALLS=calls(*cs), **k)


def walks(n, length, variants, profile, **k):
    return [walk(n, length, v, profile, **k) for v in variants]


EDIT = ("set", "setr", "push", "emp", "pushe", "ins", "inse", "sete", "era", "res", "clear", "fill", "new")
COPIES = ("copy", "asg", "move", "masg", "mclr", "swp", "eq", "eqn", "clo", "cloh", "cloa")


def mtv(units, quick_mc, quick_runs, thorough_mc, thorough_runs, **k):
    return dict(driver="mtv", conf="MtvConf", units=units, libs=["-ltbb"],
                quick=dict(mc=quick_mc, runs=quick_runs), thorough=dict(mc=thorough_mc, runs=thorough_runs), **k)


PROPS["V01"] = mtv(
    [1, 2, 3, 4, 5, 6, 7, 8],
    [mtvmc("Mtv-edit", EDIT, (1, 2), (1, 2), 4), mtvmc("Mtv-edit-managed", EDIT, (5, 6), (1, 20), 3)],
    walks(1000, 40, (1, 2, 101, 102, 3, 104, 5, 106, 7, 108), "-") + walks(800, 40, (101, 102, 5, 6), "rh") + walks(800, 40, (1, 102, 105, 106, 7, 8), "mr"),
    [mtvmc("Mtv-edit", EDIT, (1, 2, 7, 8), (1, 2), 5, limit=60000), mtvmc("Mtv-edit-managed", EDIT + ("rel", "relr", "rela"), (5, 6), (1, 20), 4, limit=60000)],
    walks(6000, 60, (1, 2, 101, 102, 3, 104, 5, 106, 7, 108, 201, 202, 205, 206), "-") + walks(5000, 60, (101, 102, 5, 6), "rh") + walks(5000, 60, (1, 102, 105, 106, 7, 8), "mrt"))
PROPS["V02"] = mtv(
    [1, 2, 5, 6, 17, 18, 19, 20, 22, 24],
    [mtvmc("Mtv-blocks", EDIT + ("pos",), (1, 2), (1, 2), 4, limit=25000)],
    walks(1200, 40, (1, 2, 101, 102, 5, 106), "h") + walks(1000, 40, (40, 50, 51, 52, 53, 54, 55, 56, 57), "h") +
    walks(120, 25, (301, 302, 340, 341, 342, 343, 350, 351, 352, 353, 354, 355, 356, 357), "h") + walks(120, 25, (358, 359, 360), "h", cpu="avx2") +
    walks(400, 40, (58, 59, 60), "h", cpu="avx2") + walks(800, 40, (1, 2, 105, 106), "mthx"),
    [mtvmc("Mtv-blocks", EDIT + ("pos",), (1, 2, 50, 53, 54), (1, 2), 5, limit=40000)],
    walks(6000, 60, (1, 2, 101, 102, 5, 106, 201, 202), "h") + walks(3000, 60, (40, 41, 42, 43, 50, 51, 52, 53, 54, 55, 56, 57), "h") +
    walks(800, 40, (301, 302, 340, 341, 342, 343, 350, 351, 352, 353, 354, 355, 356, 357), "h") + walks(1000, 40, (358, 359, 360), "h", cpu="avx2") +
    walks(2000, 40, (58, 59, 60), "h", cpu="avx2") + walks(5000, 60, (1, 2, 105, 106), "mthx"), avx2_units=[26, 28])
PROPS["V03"] = mtv(
    [1, 2, 5, 6, 7, 8, 9, 10],
    [mtvmc("Mtv-transfer", ("new", "push", "pushe", "tra", "swr", "swp"), (5, 6), (1, 20), 3, 2),
     mtvmc("Mtv-transfer-plain", ("new", "push", "pushe", "tra", "swr"), (1, 2), (1, 2), 3, 2)],
    walks(1400, 40, (1, 2, 101, 102, 5, 6, 105, 106, 7, 108, 9, 110), "t"),
    [mtvmc("Mtv-transfer", ("new", "push", "pushe", "tra", "swr", "swp"), (5, 6), (1, 20), 4, 2, limit=300000)],
    walks(8000, 60, (1, 2, 101, 102, 5, 6, 105, 106, 7, 108, 9, 110, 205, 206), "t") + walks(6000, 60, (101, 102, 105, 106), "tmxh"))
PROPS["V04"] = mtv(
    [5, 6, 9, 10, 11, 12, 14],
    [mtvmc("Mtv-own", EDIT + ("rel", "rela", "relr"), (5, 6), (1, 20), 3),
     mtvmc("Mtv-own-slots", ("new", "push", "rel", "relr", "rela", "tra", "swr", "swp", "copy", "asg", "move", "masg", "cloa"), (5, 6), (1, 20), 2, 2)],
    walks(1200, 40, (5, 6, 105, 106), "rh") + walks(1000, 40, (9, 110, 11, 112), "rh") + walks(1400, 40, (5, 106, 105, 6, 9, 110, 11, 12, 14), "rtm"),
    [mtvmc("Mtv-own", EDIT + ("rel", "rela", "relr"), (5, 6), (1, 20), 4, limit=80000),
     mtvmc("Mtv-own-slots", ("new", "push", "rel", "relr", "rela", "tra", "swr", "swp", "copy", "asg", "move", "masg", "cloa"), (5, 6), (1, 20), 3, 2, limit=150000)],
    walks(6000, 60, (5, 6, 105, 106, 205, 206), "rh") + walks(5000, 60, (9, 110, 11, 112), "rh") + walks(6000, 60, (5, 106, 105, 6, 9, 110, 11, 12, 14, 114), "rtm"))
PROPS["V05"] = mtv(
    [1, 2, 5, 6, 14],
    [mtvmc("Mtv-events", EDIT + ("rel", "rela", "relr"), (5, 6), (1, 20), 3),
     mtvmc("Mtv-events-slots", ("new", "push", "pushe", "tra", "swr", "swp", "copy", "asg", "move", "masg", "cloh", "mclr"), (5, 6), (1, 20), 2, 2)],
    walks(1200, 40, (1, 2, 101, 102, 5, 106), "rh") + walks(1200, 40, (1, 2, 101, 102, 105, 106, 14, 114), "tmr"),
    [mtvmc("Mtv-events", EDIT + ("rel", "rela", "relr"), (1, 2, 5, 6), (1, 20), 4, limit=80000),
     mtvmc("Mtv-events-slots", ("new", "push", "pushe", "tra", "swr", "swp", "copy", "asg", "move", "masg", "cloh", "mclr"), (5, 6), (1, 20), 3, 2, limit=150000)],
    walks(6000, 60, (1, 2, 101, 102, 5, 106, 201, 202), "rh") + walks(6000, 60, (1, 2, 101, 102, 105, 106, 14, 114), "tmr"))
PROPS["V06"] = mtv(
    [14],
    [mtvmc("Mtv-cow", ("new", "set", "push", "pushe", "copy", "asg", "move", "swp", "cloa", "rel", "rela", "relr", "det", "tra", "era"), (14,), (1, 20), 2, 3, cow=True, limit=60000)],
    walks(3000, 40, (14, 114), "m") + walks(3000, 40, (14, 114), "mrt") + walks(2000, 40, (14, 114), "mdrh") + walks(800, 40, (14, 114), "mtxr"),
    [mtvmc("Mtv-cow", ("new", "set", "push", "pushe", "copy", "asg", "move", "swp", "cloa", "rel", "rela", "relr", "det", "tra", "era"), (14,), (1, 20), 2, 3, cow=True),
     mtvmc("Mtv-cow-edit", EDIT + ("copy", "asg", "clo", "shrink", "rel", "relr"), (14,), (1, 22), 2, 2, cow=True, limit=100000)],
    walks(10000, 60, (14, 114), "m") + walks(10000, 60, (14, 114, 214), "mrt") + walks(8000, 60, (14, 114), "mdrh") + walks(8000, 60, (14, 114), "mtxr"))
PROPS["V07"] = mtv(
    [1, 2, 5, 6, 9, 10, 14],
    [mtvmc("Mtv-reject", EDIT + ("rel", "relr", "q", "pos"), (5, 6), (1, 20), 3, far=1, limit=25000),
     mtvmc("Mtv-reject-two", ("new", "push", "tra", "swr", "copy", "asg"), (9, 10), (1, 22), 2, 2, far=1, limit=12000)],
    walks(1200, 40, (1, 2, 101, 102, 5, 106), "xh") + walks(1200, 40, (1, 2, 105, 106, 9, 10, 14, 114), "xtmr"),
    [mtvmc("Mtv-reject", EDIT + ("rel", "relr", "q", "pos"), (5, 6), (1, 20), 3, far=2, limit=80000),
     mtvmc("Mtv-reject-two", ("new", "push", "tra", "swr", "copy", "asg"), (9, 10), (1, 22), 3, 2, far=1, limit=100000)],
    walks(6000, 60, (1, 2, 101, 102, 5, 106, 201, 202), "xh") + walks(6000, 60, (1, 2, 105, 106, 9, 10, 14, 114), "xtmr"))
PROPS["V08"] = mtv(
    [5, 6, 9, 10, 11, 12, 14, 15, 16],
    [mtvmc("Mtv-dup", ("new", "push", "pushe", "copy", "asg", "clo", "cloh", "cloa", "fdup", "fal"), (5, 6), (20, 21), 3, 2, limit=12000),
     mtvmc("Mtv-dup-clone", ("new", "push", "pushe", "copy", "clo", "cloh", "cloa", "fdup"), (9, 10), (1, 22), 3, 2, limit=10000)],
    walks(1200, 30, (5, 6, 105, 106, 9, 10, 109, 110, 11, 12, 14, 114), "md") + walks(800, 30, (15, 16, 115, 116), "m"),
    [mtvmc("Mtv-dup", ("new", "push", "pushe", "copy", "asg", "clo", "cloh", "cloa", "fdup", "fal"), (5, 6), (20, 21), 3, 2, limit=150000),
     mtvmc("Mtv-dup-clone", ("new", "push", "pushe", "copy", "clo", "cloh", "cloa", "fdup"), (9, 10), (1, 22), 3, 2, limit=100000)],
    walks(6000, 50, (5, 6, 105, 106, 9, 10, 109, 110, 11, 12, 14, 114, 205, 206), "md") + walks(5000, 40, (15, 16, 115, 116), "m"))
PROPS["V09"] = mtv(
    [1, 2, 5, 6, 14],
    [mtvmc("Mtv-collection", ("new", "push", "pushe", "col"), (1, 2), (1, 2), 2, 2, far=1, limit=20000)],
    walks(1400, 40, (1, 2, 101, 102, 5, 106, 14), "c") + walks(1000, 40, (101, 102), "cx"),
    [mtvmc("Mtv-collection", ("new", "push", "pushe", "col"), (1, 2), (1, 2), 3, 2, far=1, limit=150000)],
    walks(6000, 60, (1, 2, 101, 102, 5, 106, 14, 201, 202), "c") + walks(5000, 60, (101, 102, 105, 106), "cx"))


# ------------------------------------------------------------------ multi_type_matrix
def mtmmc(tag, cs, variants=(0, 1, 2), rows=2, cols=2, types=(1, 4), values=(1, 2), ns=1, **k):
    st = lambda xs: "{" + ", ".join(map(str, xs)) + "}"
    return mc("MtmMC", tag, variants, MAXR=rows, MAXC=cols, TYPES=st(types), VALUES=st(values), NSLOTS=ns, CALLS=calls(*cs), **k)


MTMEDIT = ("set", "setp", "sete", "setep", "setel", "setce", "setre", "setr", "setpr", "setc")
MTMSLOTS = ("copy", "asg", "move", "masg", "swap", "eq", "cpy", "clear", "tr")
PROPS["X01"] = dict(
    driver="mtm", conf="MtmConf",
    quick=dict(mc=[mtmmc("Mtm-edit", MTMEDIT, types=(3, 4), limit=20000),
                   mtmmc("Mtm-query", ("set", "sete", "get", "pos", "scan"), types=(1, 2, 4), values=(1,), limit=15000)],
               runs=[walk(1500, 50, v, p) for v in (0, 1, 2, 10, 21, 12) for p in ("-", "q")]),
    thorough=dict(mc=[mtmmc("Mtm-edit", MTMEDIT, types=(3, 4), limit=100000), mtmmc("Mtm-edit32", MTMEDIT, rows=3, types=(1, 2), values=(1,), limit=100000),
                      mtmmc("Mtm-query", ("set", "sete", "get", "pos", "scan"), types=(1, 2, 3, 4), values=(0, 1), limit=100000)],
                  runs=[walk(10000, 60, v, p) for v in (0, 1, 2, 10, 11, 12, 20, 21, 22) for p in ("-", "q")]))
PROPS["X02"] = dict(
    driver="mtm", conf="MtmConf",
    quick=dict(mc=[mtmmc("Mtm-shape", ("set", "sete", "res", "resv", "tr", "cpya", "newv", "newr"), types=(1, 4), values=(1,), limit=15000),
                   mtmmc("Mtm-slots", ("newv", "set") + MTMSLOTS, types=(2, 4), values=(1,), ns=2, limit=10000, variants=(0, 1))],
               runs=[walk(1500, 50, v, p) for v in (0, 1, 2, 10, 21, 12) for p in ("z", "m")]),
    thorough=dict(mc=[mtmmc("Mtm-shape", ("set", "res", "resv", "tr", "cpya", "newv"), rows=2, cols=3, types=(1, 4), values=(1,), limit=100000),
                      mtmmc("Mtm-slots", ("newv", "set") + MTMSLOTS, types=(2, 4), values=(1, 2), ns=2, limit=100000, variants=(0, 1))],
                  runs=[walk(10000, 60, v, p) for v in (0, 1, 2, 10, 11, 12, 20, 21, 22) for p in ("z", "m", "zm")]))
PROPS["X03"] = dict(
    driver="mtm", conf="MtmConf",
    quick=dict(mc=[mtmmc("Mtm-walk", ("set", "sete", "walk", "walks"), types=(1, 3), values=(1,), limit=15000),
                   mtmmc("Mtm-walk2", ("newv", "set", "walk2", "walk2s"), types=(1,), values=(1,), ns=2, limit=15000, variants=(0, 1))],
               runs=[walk(1500, 50, v, p) for v in (0, 1, 2, 10, 21, 12) for p in ("w", "wm")]),
    thorough=dict(mc=[mtmmc("Mtm-walk", ("set", "sete", "walk", "walks"), rows=2, cols=3, types=(1, 3), values=(1,), limit=100000),
                      mtmmc("Mtm-walk2", ("newv", "set", "walk2", "walk2s"), types=(1, 4), values=(1,), ns=2, limit=150000, variants=(0, 1))],
                  runs=[walk(10000, 60, v, p) for v in (0, 1, 2, 10, 11, 12, 20, 21, 22) for p in ("w", "wm")]))


# ------------------------------------------------------------------ delayed_delete_vector
def ddvmc(tag, cs, cap, ns=1, variants=(0, 1, 2), **k):
    return mc("DdvMC", tag, variants, NVALS=2, CAP=cap, NSLOTS=ns, CALLS=calls(*cs), **k)


DDV1 = ("new", "push", "pushs", "ins", "inss", "insr", "era", "erar", "res", "asn", "rsv", "shr", "set", "at")
DDV2 = ("push", "era", "erar", "res", "copy", "asg", "move", "masg", "swap", "eq")
PROPS["V10"] = dict(
    driver="ddv", conf="DdvConf",
    quick=dict(mc=[ddvmc("Ddv-edit", DDV1, 4), ddvmc("Ddv-slots", DDV2, 2, ns=2)],
               runs=[exh(3, 0), exh(3, 1)] + walks(1200, 40, (0, 1, 2, 3, 10, 11, 12), "-") + walks(1200, 40, (0, 1, 2, 3, 10, 11, 12, 21), "m")),
    thorough=dict(mc=[ddvmc("Ddv-edit", DDV1, 6), ddvmc("Ddv-slots", DDV2, 3, ns=2), ddvmc("Ddv-slots3", DDV2, 1, ns=3)],
                  runs=[exh(4, 0), exh(4, 2)] + walks(12000, 60, (0, 1, 2, 3, 10, 11, 12, 21), "-") + walks(12000, 60, (0, 1, 2, 3, 10, 11, 12, 21, 20, 22), "m")))

# ------------------------------------------------- tracing (SoA)
# variant = 10 * (trace function reads the container) + unit: 0 plain, 1 copy-on-write, 2 traits without a trace function
TRCALL = ("new", "cctor", "mctor", "del", "clo", "cloh", "asg", "masg", "swap", "swr", "tra", "set", "setr", "ins", "push", "pushe", "emp", "inse", "era",
          "clr", "rsz", "shr", "det", "get", "type", "ise", "size", "bsz", "empty", "pos", "it", "rel", "rela", "relr", "eq", "evh")
def trcmc(tag, types, cap, ns, variants, **k):
    return mc("TrcMC", tag, variants, TYPES="{" + ", ".join(map(str, types)) + "}", CAP=cap, NSLOTS=ns, CALLS=calls(*TRCALL), **k)


PROPS["V11"] = dict(
    driver="trc", conf="TrcConf",
    quick=dict(mc=[trcmc("Trc-one", (1, 2), 3, 1, (0, 11)), trcmc("Trc-two", (3,), 2, 2, (0, 1, 10))],
               runs=walks(1500, 50, (0, 1, 2, 10, 11), "-")),
    thorough=dict(mc=[trcmc("Trc-one", (1, 2, 3), 3, 1, (0, 1, 2, 10, 11)), trcmc("Trc-two", (1, 2), 2, 2, (0, 1, 10)), trcmc("Trc-three", (3,), 1, 3, (0, 1, 10))],
                  runs=walks(15000, 80, (0, 1, 2, 10, 11), "-")))

# ------------------------------------------------------------------ rtree
# variant = scale * 10 + configuration (see drivers/rtree_unit.cpp); MC menus are two-dimensional
def rtmc(tag, cs, variants=(0, 1, 8, 9), boxes=(1, 3, 4, 6), nv=1, cap=6, ns=1, **k):
    return mc("RtreeMC", tag, variants, BOXES="{" + ", ".join(map(str, boxes)) + "}", NVALS=nv, CAP=cap, NSLOTS=ns, CALLS=calls(*cs), **k)


def rt(quick_mc, quick_runs, thorough_mc, thorough_runs):
    return dict(driver="rtree", conf="RtreeConf", units=list(range(10)),
                quick=dict(mc=quick_mc, runs=quick_runs), thorough=dict(mc=thorough_mc, runs=thorough_runs))


RTSLOTS = ("ins", "era", "copy", "asg", "move", "masg", "swap", "clear")
PROPS["R01"] = rt(
    [rtmc("Rtree-edit", ("ins", "era"), limit=6000), rtmc("Rtree-search", ("ins", "search"), boxes=(1, 3, 4), cap=5, variants=(1, 8))],
    walks(500, 50, (0, 1, 2, 8), "q") + walks(300, 50, (10, 11, 12, 13, 14, 19), "q") + walks(100, 40, (21, 23, 25, 26), "nq"),
    [rtmc("Rtree-edit", ("ins", "era"), cap=7, limit=60000), rtmc("Rtree-search", ("ins", "era", "search"), boxes=(1, 3, 4), cap=6, variants=(1, 8))],
    walks(4000, 60, (0, 1, 2, 3, 8, 9), "q") + walks(2000, 60, (10, 11, 12, 13, 14, 15, 16, 18, 19), "q") + walks(800, 50, (20, 21, 22, 23, 24, 25, 26, 28), "nq") + walks(40, 40, (37, 30), "nq"))
PROPS["R02"] = rt(
    [rtmc("Rtree-grow", ("ins", "era"), boxes=(1, 3, 6), cap=7, limit=5000, variants=(0, 1, 4, 8, 9))],
    walks(500, 50, (0, 1, 2, 8, 9), "-") + walks(200, 60, (10, 11, 12, 13, 14, 15, 16, 18, 19), "-") + walks(80, 40, (20, 21, 22, 23, 24, 26, 28, 29), "n") + walks(5, 30, (37,), "n"),
    [rtmc("Rtree-grow", ("ins", "era"), boxes=(1, 3, 6), cap=8, limit=60000, variants=(0, 1, 4, 8, 9))],
    walks(4000, 60, (0, 1, 2, 3, 8, 9), "-") + walks(2000, 60, (10, 11, 12, 13, 14, 15, 16, 18, 19), "-") + walks(800, 60, (20, 21, 22, 23, 24, 25, 26, 28, 29), "n") + walks(60, 40, (37, 30, 33), "n"))
PROPS["R03"] = rt(
    [rtmc("Rtree-slots", RTSLOTS, boxes=(1, 3), cap=2, ns=3, limit=5000, variants=(1, 8))],
    walks(500, 40, (0, 1, 2, 8), "mb") + walks(250, 40, (10, 11, 12, 13, 14, 15, 16, 18, 19), "mb") + walks(100, 40, (20, 22, 23, 26, 28), "b") + walks(5, 30, (37,), "b") + walks(12, 10, (31, 32, 33, 34, 35, 36, 38, 39), "s"),
    [rtmc("Rtree-slots", RTSLOTS, boxes=(1, 3), cap=3, ns=2, limit=60000, variants=(0, 1, 2 + 6))],
    walks(4000, 60, (0, 1, 2, 3, 8, 9), "mb") + walks(2000, 60, (10, 11, 12, 13, 14, 15, 16, 18, 19), "mbn") + walks(800, 60, (20, 21, 22, 23, 24, 25, 26, 28, 29), "mbn") + walks(60, 40, (37, 30, 33), "mb") + walks(60, 10, tuple(range(30, 40)), "s"))
