"""What every check runs: harness entries, bounds and time limits."""

THREADS = 8
SAMPLES = 12

COMMON_ASSUMPTIONS = [
    "rustc/LLVM translate the source faithfully to the IR executed (release profile, fat LTO, overflow checks on, vectorisation off); sampled paths are re-run against a native debug build",
    "undef/poison values are read as zero; allocation never fails; single thread",
    "bounds as listed per job; inputs outside them are not covered",
]

HARNESS = {
    "cinereus": {"lib": "hcin", "budget": 400_000_000, "own": "cinereus", "sources": ["/repo/cinereus", "/repo/Cargo.toml"]},
    "hotmeal": {"lib": "hhot", "budget": 200_000_000, "own": "hotmeal,cinereus", "sources": ["/repo/cinereus", "/repo/hotmeal/src", "/repo/hotmeal-server/src", "/repo/hotmeal-wasm/src", "/repo/Cargo.toml"]},
}


def gen(lo=1, hi=4, style=0, kinds=2, texts=0, props=0, pvals=0, opaque=0, hashes=0, freetext=0, rootkind=0):
    return [lo, hi, style, kinds, texts, props, pvals, opaque, hashes, freetext, rootkind]


STYLE = {0: "any shape", 1: "flat", 2: "chain", 3: "at most two levels below the root", 4: "caterpillar",
         10: "flat", 11: "chain", 12: "caterpillar", 13: "binary", 14: "records of four nodes", 15: "any shape", 16: "list of lists"}
EDIT = ["new leaf", "deletion", "move", "text", "property", "kind", "copy", "opacity"]
CFG = {0: "default config", 1: "threshold in {0.5,0,0.8,1}, min height 0..2", 2: "threshold in {0.5,0,1,NaN,inf,-inf,-0}, min height in {0,1,2,max}", 3: "threshold 0.5, min height 0..2", 4: "threshold 0.5, min height 0", 5: "threshold in {0,0.5,0.8}"}
SIM = {0: "similarity 1", 1: "similarity from properties", 2: "arbitrary similarity in {1,0.5,0.25} per pair", 3: "arbitrary similarity in {1,0.5,0,NaN} per pair"}


def side(g):
    lo, hi, style, kinds, texts, props, pvals, opaque, hashes, freetext, rootkind = g
    if style >= 10:
        s = "%s nodes, %s, %d patterns of kinds" % ("%d" % lo if lo == hi else "%d..%d" % (lo, hi), STYLE[style], kinds)
        if texts: s += ", leaves with texts (%s)" % (["all different", "all different or all alike", "all different, or every other leaf an element"][texts - 1])
        if props: s += ", a property over %d values" % pvals
        if opaque: s += ", any one node opaque"
        return s
    s = "%s nodes, %s, %d element kinds" % ("%d" % lo if lo == hi else "%d..%d" % (lo, hi), STYLE[style], kinds)
    if texts: s += ", %s over %d texts" % ("free text" if freetext else "text leaves", texts)
    if props: s += ", %d properties over %d values or absent" % (props, pvals)
    if opaque: s += ", any opacity flags" + (" below the root" if opaque == 2 else "")
    s += ", arbitrary hashes over %d values" % hashes if hashes else ", structural hashes"
    if rootkind: s += ", any root kind"
    return s


def J(entry, a, b=None, cfg=0, sim=0, name=None, tier="quick", secs=None, tail=()):
    params = [cfg, sim, 1 if b else 0] + a + (b or [0] * 11) + list(tail)
    j = {"harness": "cinereus", "entry": entry, "params": params, "tier": tier,
         "bounds": "old tree: %s; new tree: %s; %s; %s" % (side(a), side(b or a), CFG[cfg], SIM[sim])}
    if a[2] >= 10:
        new = "the old one after %d edit%s (%s) anywhere" % (a[9], "s" if a[9] > 1 else "", ", ".join(n for k, n in enumerate(EDIT) if a[10] >> k & 1))
        if a[1] > 60: new = new.replace("anywhere", "at the first two, the middle and the last two places and texts")
        if entry == "c04": new = "equal"
        if entry == "c16": new = "the old one with a new text, another property value, an appended leaf or without a last child, " + ("anywhere" if a[1] <= 60 else "at the first two, the middle and the last two nodes")
        j["bounds"] = "old tree: %s; new tree: %s; %s; %s" % (side(a), new, CFG[cfg], SIM[sim])
    if len(tail) > 1: j["bounds"] += "; property order of each new node chosen freely"
    j["name"] = name or "%s-%s" % (entry, "".join("%x" % x if x < 16 else "z" for x in params))
    if secs: j["secs"] = secs
    return j


T = "thorough"


def ed(n, style, patterns=4, texts=1, props=0, opaque=0, edits=1, mask=127, lo=None):
    """Generator of larger trees and an edited copy."""
    return gen(lo or n, n, style, patterns, texts, props, 2 * props, opaque, 0, edits, mask)


def fam(e, tier="quick", only=None, **kw):
    """Families of larger trees with fewer symbolic features, and small trees with more of them."""
    f = {
        "small": lambda: J(e, gen(1, 4, 0, 2), name="any-1-4", **kw),
        "any5": lambda: J(e, gen(1, 5, 0, 2), cfg=5, name="any-1-5", **kw),
        "any5d": lambda: J(e, gen(1, 5, 0, 2), name="any-1-5", **kw),
        "thr": lambda: J(e, gen(1, 4, 0, 2), cfg=5, name="thresholds", **kw),
        "mono67": lambda: J(e, gen(6, 7, 0, 1), name="one-kind-6-7", **kw),
        "kinds3": lambda: J(e, gen(1, 4, 0, 3), name="three-kinds", **kw),
        "flat": lambda: J(e, gen(4, 7, 1, 2), name="flat-4-7", **kw),
        "flat6": lambda: J(e, gen(4, 6, 1, 2), name="flat-4-6", **kw),
        "chain": lambda: J(e, gen(5, 7, 2, 2), name="chain-5-7", **kw),
        "cater": lambda: J(e, gen(5, 7, 4, 2), name="caterpillar-5-7", **kw),
        "cater6": lambda: J(e, gen(5, 6, 4, 2), name="caterpillar-5-6", **kw),
        "mono6": lambda: J(e, gen(5, 6, 0, 1), name="one-kind-5-6", **kw),
        "two5": lambda: J(e, gen(5, 5, 3, 2), name="two-levels-5", **kw),
        "heights": lambda: J(e, gen(1, 4, 0, 2), cfg=3, name="min-heights", **kw),
        "attrs": lambda: J(e, gen(1, 3, 0, 2, 2, 1, 2), sim=1, cfg=5, name="texts-and-properties", **kw),
        "props": lambda: J(e, gen(1, 3, 0, 1, 0, 2, 2), sim=1, name="two-properties", **kw),
        "sims": lambda: J(e, gen(1, 3, 0, 2), cfg=1, sim=2, name="any-similarity", **kw),
        "hashes": lambda: J(e, gen(1, 3, 0, 2, opaque=1, hashes=2, rootkind=1), name="any-hash", **kw),
        "grow": lambda: J(e, gen(1, 3, 0, 2), gen(5, 6, 0, 1), name="growing", **kw),
        "shrink": lambda: J(e, gen(5, 6, 0, 1), gen(1, 3, 0, 2), name="shrinking", **kw),
        "opaque": lambda: J(e, gen(1, 4, 0, 1, opaque=1), name="opaque-one-kind", **kw),
        "opaque2": lambda: J(e, gen(1, 3, 0, 2, opaque=1), name="opaque-two-kinds", **kw),
        "textflat": lambda: J(e, gen(2, 4, 1, 1, 3), name="flat-texts", **kw),
        "edflat": lambda: J(e, ed(20, 10), name="edited-flat-20", **kw),
        "edchain": lambda: J(e, ed(14, 11), name="edited-chain-14", **kw),
        "edcater": lambda: J(e, ed(15, 12), name="edited-caterpillar-15", **kw),
        "edbin": lambda: J(e, ed(15, 13, 5), name="edited-binary-15", **kw),
        "edrec": lambda: J(e, ed(17, 14, 5, 2), name="edited-records-17", **kw),
        "edlist": lambda: J(e, ed(16, 16, 5), name="edited-lists-16", **kw),
        "edprops": lambda: J(e, ed(9, 14, 3, 1, 1), sim=1, cfg=5, name="edited-records-9-properties", **kw),
        "edopaque": lambda: J(e, ed(9, 14, 3, 1, 0, 1, mask=255), name="edited-records-9-opaque", **kw),
        "edtwice": lambda: J(e, ed(7, 13, 2, 1, edits=2, mask=39), name="edited-twice-7", **kw),
        "edany": lambda: J(e, ed(6, 15, 5), cfg=3, name="edited-any-6", **kw),
        "wflat": lambda: J(e, ed(70, 10, 2), name="edited-flat-70", **kw),
        "wflat300": lambda: J(e, ed(300, 10, 1, mask=3), name="edited-flat-300", **kw),
        "wchain": lambda: J(e, ed(70, 11, 2), name="edited-chain-70", **kw),
        "wcater": lambda: J(e, ed(70, 12, 2), name="edited-caterpillar-70", **kw),
        "wbin": lambda: J(e, ed(127, 13, 2), name="edited-binary-127", **kw),
        "wrec": lambda: J(e, ed(101, 14, 2), name="edited-records-101", **kw),
        "wlist": lambda: J(e, ed(100, 16, 2), name="edited-lists-100", **kw),
        # thorough
        "wchain300": lambda: J(e, ed(300, 11, 1, mask=7), name="edited-chain-300", tier=T, secs=600, **kw),
        "wlist400": lambda: J(e, ed(400, 16, 1, mask=7), name="edited-lists-400", tier=T, secs=600, **kw),
        "wtwice": lambda: J(e, ed(80, 16, 1, edits=2, mask=7), name="edited-twice-80", tier=T, secs=600, **kw),
        "edtwice9": lambda: J(e, ed(9, 14, 3, 1, edits=2, mask=39), name="edited-twice-9", tier=T, secs=600, **kw),
        "edany8": lambda: J(e, ed(8, 15, 5, 2), name="edited-any-8", tier=T, secs=600, **kw),
        "edbin31": lambda: J(e, ed(31, 13, 5), name="edited-binary-31", tier=T, secs=600, **kw),
        "edflat40": lambda: J(e, ed(40, 10), name="edited-flat-40", tier=T, secs=600, **kw),
        "two6": lambda: J(e, gen(6, 6, 3, 2), name="two-levels-6", tier=T, secs=600, **kw),
        "flat9": lambda: J(e, gen(8, 8, 1, 2), name="flat-8", tier=T, secs=600, **kw),
        "chain9": lambda: J(e, gen(8, 9, 2, 2), name="chain-8-9", tier=T, secs=600, **kw),
        "cater9": lambda: J(e, gen(8, 9, 4, 2), name="caterpillar-8-9", tier=T, secs=600, **kw),
        "mono7": lambda: J(e, gen(7, 7, 0, 1), name="one-kind-7", tier=T, secs=600, **kw),
        "any6": lambda: J(e, gen(6, 6, 0, 2), name="any-6", tier=T, secs=900, **kw),
        "attrs4": lambda: J(e, gen(1, 4, 0, 2, 2, 1, 2), sim=1, cfg=5, name="texts-and-properties-4", tier=T, secs=900, **kw),
        "opaque4": lambda: J(e, gen(1, 4, 0, 2, opaque=1), name="opaque-two-kinds-4", tier=T, secs=600, **kw),
        "hashes4": lambda: J(e, gen(1, 4, 0, 2, opaque=1, hashes=2, rootkind=1), name="any-hash-4", tier=T, secs=900, **kw),
    }
    return [f[k]() for k in only.split()]


ED = "edflat edchain edcater edbin edrec edlist edprops edopaque edtwice edany "
EDBIG = "edtwice9 edany8 edbin31 edflat40 wflat wflat300 wchain wcater wbin wrec wlist wchain300 wlist400 wtwice "
BIG = "two6 flat9 chain9 cater9 mono7 any6 attrs4 opaque4"
OPS = ["insert", "delete", "move", "set_text", "update_properties"]


def j11(lo, hi, tier="quick", secs=None, style=0):
    if style:
        return {"harness": "cinereus", "entry": "c11", "params": [lo, hi, style], "tier": tier, "name": "%s-%d" % (STYLE[style].replace(" ", "-"), hi), "secs": secs or 60,
                "bounds": "%d nodes, %s, and one more under any of them; arbitrary data; every node queried, through Tree, the trait and the trait's default methods" % (hi - 1, STYLE[style])}
    return {"harness": "cinereus", "entry": "c11", "params": [lo, hi, 0], "tier": tier, "name": "histories-%d-%d" % (lo, hi), "secs": secs or 60,
            "bounds": "%d..%d nodes, each added under any earlier node; arbitrary data; every node queried, through Tree, the trait and the trait's default methods" % (lo, hi)}


def j12(ids, steps, cap, tier="quick", secs=None, far=0):
    if far:
        return {"harness": "cinereus", "entry": "c12", "params": [ids, steps, cap, 1], "tier": tier, "name": "far-ids-%d-%d-%d" % (ids, steps, cap), "secs": secs or 60,
                "bounds": "up to %d registrations over %d old and %d new ids between 0 and 199, created empty, by default or with %d capacities up to 200; every lookup after every step" % (steps, ids, ids, cap + 1)}
    return {"harness": "cinereus", "entry": "c12", "params": [ids, steps, cap, 0], "tier": tier, "name": "histories-%d-%d-%d" % (ids, steps, cap), "secs": secs or 60,
            "bounds": "up to %d registrations over %d old and %d new ids, created empty, by default or with capacities 0..%d; every lookup after every step" % (steps, ids, ids, cap)}


def c14(order, g, **kw):
    return rebuilt(J("c14", g, tail=[order], **kw), order)


def rebuilt(j, order):
    j["bounds"] += "; rebuilt with node ids %s%s" % (["", "reversed", "interleaved", "interleaved and reversed"][order % 4], ", in slots used before" if order > 3 else "")
    return j


PROPS = {
    "C01": {"reach": OPS, "jobs":
        fam("c01_e2e", only=ED + EDBIG + "any5 kinds3 mono67 flat chain cater two5 heights attrs props sims grow shrink opaque opaque2 textflat " + BIG) + [
        J("c01_any", gen(1, 5, 0, 1, hashes=1), name="any-matching"),
        J("c01_any", gen(1, 4, 0, 2, opaque=2, hashes=1), name="any-matching-opaque"),
        J("c01_any", gen(1, 6, 0, 1, hashes=1), name="any-matching-6", tier=T, secs=900),
    ]},
    "C02": {"reach": ["several pairs", "unmatched node"], "jobs":
        fam("c02", only=ED + EDBIG + "any5 kinds3 mono67 flat6 chain cater two5 heights attrs props sims hashes opaque grow shrink " + BIG + " hashes4") + [
        J("c02", gen(1, 4, 0, 2, hashes=2, rootkind=1), name="any-hash-4-transparent"),
        J("c02", gen(1, 3, 0, 2, hashes=2), cfg=2, sim=3, name="any-config"),
    ]},
    "C03": {"reach": ["inner pair"], "jobs":
        fam("c03", only=ED + EDBIG + "any5 kinds3 mono67 flat6 chain cater two5 heights attrs props sims opaque opaque2 grow shrink " + BIG) + [
        J("c03", gen(1, 4, 0, 3, rootkind=1), name="three-kinds", secs=40),
        J("c03", gen(1, 3, 0, 3, opaque=1, rootkind=1), cfg=3, name="root-kinds"),
    ]},
    "C04": {"reach": ["compared"], "jobs": [
        J("c04", gen(1, 6, 0, 2), cfg=1, name="any-1-6"),
        J("c04", gen(1, 5, 0, 3, 2, 1, 1), cfg=1, sim=1, name="texts-and-properties"),
        J("c04", gen(1, 5, 0, 1, opaque=1), cfg=1, name="opaque"),
        J("c04", gen(1, 4, 0, 2, opaque=1), cfg=1, name="opaque-two-kinds"),
        J("c04", gen(5, 9, 1, 2), cfg=1, name="flat"),
        J("c04", gen(5, 9, 2, 2), cfg=1, name="chain"),
        J("c04", gen(5, 9, 4, 2), cfg=1, name="caterpillar"),
        J("c04", gen(1, 4, 0, 2, hashes=2), cfg=1, name="colliding-hashes"),
        J("c04", ed(30, 10, 5, 2, opaque=1, edits=0), cfg=3, name="flat-30"),
        J("c04", ed(20, 11, 5, 2, opaque=1, edits=0), cfg=3, name="chain-20"),
        J("c04", ed(31, 13, 5, 2, opaque=1, edits=0), cfg=3, name="binary-31"),
        J("c04", ed(33, 14, 5, 2, opaque=1, edits=0), cfg=3, name="records-33"),
        J("c04", ed(30, 16, 5, 2, 1, opaque=1, edits=0), cfg=3, sim=1, name="lists-30"),
        J("c04", ed(8, 15, 5, 2, edits=0), cfg=3, name="any-8"),
        J("c04", ed(300, 10, 5, 2, edits=0), name="flat-300"),
        J("c04", ed(120, 11, 5, 2, edits=0), name="chain-120"),
        J("c04", ed(200, 12, 5, 2, edits=0), name="caterpillar-200"),
        J("c04", ed(255, 13, 5, 2, edits=0), name="binary-255"),
        J("c04", ed(401, 14, 5, 2, edits=0), name="records-401"),
        J("c04", ed(400, 16, 5, 2, edits=0), name="lists-400"),
        J("c04", gen(1, 8, 0, 1), cfg=1, name="one-kind-8", tier=T, secs=900),
        J("c04", gen(1, 7, 0, 2), cfg=1, name="any-1-7", tier=T, secs=900),
        J("c04", gen(1, 6, 0, 2, opaque=1), cfg=1, name="opaque-6", tier=T, secs=900),
    ]},
    "C05": {"reach": ["opaque pair", "insert", "delete", "move"], "jobs":
        fam("c05", only=ED + EDBIG + "opaque opaque2 hashes opaque4") + [
        J("c05", gen(1, 4, 1, 2, opaque=1), name="flat"),
        J("c05", gen(1, 5, 2, 1, opaque=1), name="chain"),
        J("c05", gen(5, 5, 4, 1, opaque=1), name="caterpillar"),
        J("c05", gen(2, 5, 3, 1, opaque=2), name="two-levels", secs=40),
        J("c05", gen(1, 3, 0, 1, 2, 1, 1, opaque=1), cfg=3, sim=1, name="texts-and-properties"),
        J("c05", gen(1, 4, 0, 2, opaque=2), name="two-kinds-4", secs=40),
        J("c05", gen(1, 5, 0, 1, opaque=1), name="one-kind-5", tier=T, secs=900),
        J("c05", gen(4, 6, 2, 2, opaque=1), name="chain-6", tier=T, secs=900),
    ]},
    "C06": {"reach": ["set_text", "update_properties"], "jobs":
        fam("c06", only=ED + EDBIG + "attrs two5 chain attrs4 opaque4") + [
        J("c06", gen(1, 2, 0, 1, 2, 2, 2, freetext=1), name="free-text-2"),
        J("c06", gen(1, 3, 0, 1, 2, 0, 0, freetext=1), name="free-text-3"),
        J("c06", gen(1, 1, 0, 1, 3, 3, 2, freetext=1), name="three-properties", tail=(0, 1)),
        J("c06", gen(1, 3, 0, 1, 0, 2, 1), sim=1, name="two-properties-3"),
        J("c06", gen(1, 2, 0, 1, 0, 2, 2), name="reordered-properties", tail=(0, 1)),
        J("c06", gen(1, 3, 0, 1, 2, 1, 1, opaque=2, freetext=1), name="opaque", secs=40),
        J("c06_any", gen(1, 3, 0, 1, 2, 1, 2, freetext=1, hashes=1), name="any-matching"),
        J("c06_any", gen(2, 2, 0, 1, 2, 3, 2, freetext=1, hashes=1), name="any-matching-properties", tail=(0, 1)),
        J("c06", gen(1, 3, 0, 1, 2, 2, 1, freetext=1), name="free-text-two-properties-3", tier=T, secs=1200),
        J("c06_any", gen(1, 4, 0, 1, 2, 1, 2, freetext=1, hashes=1), name="any-matching-4", tier=T, secs=900),
    ]},
    "C07": {"reach": OPS, "jobs":
        fam("c07", only=ED + EDBIG + "any5 kinds3 mono67 flat chain cater two5 heights attrs props sims opaque opaque2 grow shrink textflat " + BIG) + [
        J("c07_any", gen(1, 5, 0, 1, hashes=1), name="any-matching"),
        J("c07_any", gen(1, 4, 0, 2, opaque=2, hashes=1), name="any-matching-opaque"),
        J("c07_any", gen(1, 6, 0, 1, hashes=1), name="any-matching-6", tier=T, secs=900),
    ]},
    "C08": {"reach": ["insert", "delete", "move"], "jobs":
        fam("c08", only=ED + EDBIG + "any5 kinds3 mono67 flat6 chain cater two5 heights attrs props sims opaque opaque2 grow shrink hashes " + BIG) + [
        J("c08_any", gen(1, 5, 0, 1, hashes=1), name="any-matching"),
        J("c08_any", gen(1, 4, 0, 2, opaque=2, hashes=1), name="any-matching-opaque"),
        J("c08_any", gen(1, 6, 0, 1, hashes=1), name="any-matching-6", tier=T, secs=900),
    ]},
    "C09": {"reach": ["similar pair"], "jobs":
        fam("c09", only="edprops edopaque edtwice edany edrec " + EDBIG + "any5 heights attrs hashes opaque attrs4 hashes4") + [
        J("c09", gen(1, 3, 0, 2), cfg=1, sim=2, name="any-similarity-3"),
        J("c09", gen(1, 3, 0, 2), cfg=2, sim=2, name="any-config"),
        J("c09", gen(1, 4, 0, 1), sim=2, name="any-similarity-4", secs=60),
        J("c09", gen(1, 4, 1, 2), sim=2, name="any-similarity-flat-4"),
        J("c09", gen(1, 4, 2, 2), sim=2, name="any-similarity-chain-4"),
        J("c09", gen(1, 3, 0, 2, 2, 2, 2), cfg=1, sim=1, name="two-properties", secs=60),
        J("c09", gen(1, 4, 0, 2), cfg=1, sim=2, name="any-similarity-two-kinds-4", tier=T, secs=1200),
        J("c09", gen(1, 5, 0, 1), sim=2, name="any-similarity-5", tier=T, secs=1200),
    ]},
    "C10": {"reach": ["insert", "delete", "move"], "jobs":
        fam("c10", only=ED + EDBIG + "flat6 chain cater6 two5 heights attrs props sims hashes opaque opaque2 any5d thr kinds3 textflat " + BIG)},
    "C11": {"reach": ["branching tree"], "jobs": [j11(1, 7), j11(8, 8, secs=60), j11(9, 9, T, 1200)] + [j11(1, 24, style=k) for k in (10, 11, 12, 13, 14, 16)]},
    "C12": {"reach": ["several registrations"], "jobs": [j12(3, 3, 4), j12(6, 2, 7), j12(2, 5, 1), j12(4, 3, 1), j12(10, 2, 5, far=1), j12(5, 3, 2, far=1), j12(4, 4, 2, T, 1200), j12(12, 2, 13, T, 600)]},
    "C13": {"reach": ["insert", "delete", "move"], "jobs":
        fam("c13", only=ED + EDBIG + "any5 kinds3 mono67 chain cater heights attrs props hashes grow shrink flat6 " + BIG + " hashes4") + [
        J("c13", gen(1, 3, 0, 2), cfg=2, sim=3, name="any-config"),
        J("c13", gen(1, 3, 0, 1, opaque=1, hashes=2), cfg=2, name="any-config-hash", secs=60),
        J("c13", gen(1, 3, 0, 1, hashes=2), cfg=2, sim=3, name="any-config-similarity-hash", secs=60),
        J("c13", gen(1, 3, 0, 2, opaque=1, hashes=2, rootkind=1), cfg=2, sim=3, name="everything", tier=T, secs=1800),
    ]},
    "C14": {"reach": ["insert", "delete", "move"], "jobs": [
        c14(1, gen(1, 4, 0, 2), name="reversed"), c14(2, gen(1, 4, 0, 2), name="interleaved"), c14(3, gen(1, 4, 0, 2), name="interleaved-reversed"),
        c14(1, gen(5, 5, 0, 1), name="one-kind-5"), c14(3, gen(6, 6, 0, 1), name="one-kind-6"),
        c14(5, gen(5, 6, 1, 2), name="flat"), c14(6, gen(5, 6, 2, 2), name="chain"), c14(7, gen(5, 6, 4, 2), name="caterpillar"), c14(6, gen(1, 4, 0, 2), name="used-slots"),
        c14(1, gen(1, 3, 0, 2, 2, 1, 2), sim=1, cfg=5, name="texts-and-properties"), c14(2, gen(1, 3, 0, 2), sim=2, cfg=1, name="any-similarity"),
        c14(2, gen(1, 3, 0, 2, opaque=1, hashes=2, rootkind=1), name="any-hash"), c14(3, gen(1, 4, 0, 2), cfg=3, name="min-heights"),
        c14(1, gen(4, 4, 0, 2), b=gen(5, 5, 0, 2), cfg=5, name="ties"), c14(2, gen(4, 5, 0, 1), b=gen(4, 5, 0, 2), cfg=5, name="ties-2"),
    ] + [rebuilt(j, 1) for j in fam("c14", only="edflat edcater edlist wflat", tail=[1])] + [rebuilt(j, 2) for j in fam("c14", only="edrec edopaque wcater", tail=[2])] + [rebuilt(j, 3) for j in fam("c14", only="edprops edany wrec wchain", tail=[3])] + [rebuilt(j, 5) for j in fam("c14", only="edtwice wlist wflat300", tail=[5])] + [rebuilt(j, 6) for j in fam("c14", only="edchain wbin", tail=[6])] + [rebuilt(j, 7) for j in fam("c14", only="edbin", tail=[7])] + [
        c14(1, gen(1, 5, 0, 2), name="reversed-5", tier=T, secs=900), c14(2, gen(6, 6, 3, 2), name="two-levels-6", tier=T, secs=900), c14(3, gen(7, 8, 2, 2), name="chain-8", tier=T, secs=600), c14(2, gen(7, 8, 4, 2), name="caterpillar-8", tier=T, secs=600), c14(1, gen(7, 7, 1, 2), name="flat-7", tier=T, secs=900),
    ]},
    "C15": {"reach": ["kept", "insert", "delete", "move"], "jobs":
        fam("c15", only="edflat edchain edcater edbin edrec edlist edprops edtwice edany " + EDBIG + "any5 kinds3 mono67 flat chain cater two5 heights attrs props grow shrink " + "two6 flat9 chain9 cater9 mono7 any6 attrs4")},
    "C16": {"reach": ["insert", "delete", "set_text", "update_properties"], "jobs": [
        J("c16", ed(5, 15, 5, 2, 1, lo=1, mask=0), cfg=3, name="any-1-5-alike"),
        J("c16", ed(6, 15, 5, 3, 1, mask=0), cfg=3, name="any-6"),
        J("c16", ed(5, 15, 5, 3, 1, lo=1, mask=0), cfg=1, sim=1, name="thresholds"),
        J("c16", ed(20, 10, 5, 3, 1, mask=0), cfg=3, name="flat-20"),
        J("c16", ed(12, 11, 5, 3, 1, mask=0), cfg=3, name="chain-12"),
        J("c16", ed(15, 12, 5, 3, 1, mask=0), cfg=3, name="caterpillar-15"),
        J("c16", ed(15, 13, 5, 3, 1, mask=0), cfg=3, name="binary-15"),
        J("c16", ed(17, 14, 5, 3, 1, mask=0), cfg=3, name="records-17"),
        J("c16", ed(16, 16, 5, 3, 1, mask=0), cfg=3, name="lists-16"),
        J("c16", ed(150, 10, 2, 3, 1, mask=0), name="flat-150"),
        J("c16", ed(100, 11, 2, 3, 1, mask=0), name="chain-100"),
        J("c16", ed(100, 12, 2, 3, 1, mask=0), name="caterpillar-100"),
        J("c16", ed(127, 13, 2, 3, 1, mask=0), name="binary-127"),
        J("c16", ed(149, 14, 2, 3, 1, mask=0), name="records-149"),
        J("c16", ed(144, 16, 2, 3, 1, mask=0), name="lists-144"),
        J("c16", ed(8, 15, 5, 3, 1, lo=7, mask=0), cfg=3, name="any-7-8", tier=T, secs=900),
        J("c16", ed(31, 13, 5, 3, 1, mask=0), cfg=3, name="binary-31", tier=T, secs=600),
        J("c16", ed(41, 14, 5, 3, 1, mask=0), cfg=3, name="records-41", tier=T, secs=600),
        J("c16", ed(36, 16, 5, 3, 1, mask=0), cfg=3, name="lists-36", tier=T, secs=600),
    ]},
}


STANDINS = [
    "tendril, html5ever, facet, facet-postcard, facet-json, compact_str, rapidhash, wasm-bindgen, js-sys, web-sys and tracing are not available offline: stand-ins written for these checks (harness/hotmeal/stubs) take their place; everything in hotmeal, hotmeal-server, hotmeal-wasm and cinereus is the real source",
    "hashes of subtrees do not collide (the stand-in hasher gives equal values exactly to equal sequences of writes)",
]
BROWSER = STANDINS + ["the document object model behaves as its stand-in, written from the DOM standard for the calls hotmeal-wasm makes"]
PARSER = STANDINS + ["the HTML parser behaves as its stand-in, written from the HTML standard for the fragment the pages use"]


def page(lo=1, hi=3, style=0, tags=1, leaves=0, chars=1, attrs=0, vals=1, opaque=0, ns=0, body=0):
    return [lo, hi, style, tags, leaves, chars, attrs, vals, opaque, ns, body]


LEAF = {0: "elements only", 1: "leaves elements or text", 2: "leaves elements, text or comments", 3: "leaves text", 4: "leaves elements or text, also next to each other", 5: "leaves elements, text or comments, which may be empty"}


def ep(n, style, tags=3, leaves=1, edits=1, attrs=1, opaque=0, mask=895, lo=None):
    """A page and a copy with edits (harness/hotmeal/src/large.rs)."""
    return page(lo or n, n, style, tags, leaves, edits, attrs, 1, opaque, 0, mask)


LSHAPE = {10: "flat", 11: "a chain", 12: "a caterpillar", 13: "binary", 14: "records of four nodes", 15: "of any shape", 16: "a list of lists"}
LEDIT = ["new leaf", "deletion", "move", "changed text", "changed attributes", "changed name", "copy of a subtree", "changed opacity", "wrapping", "unwrapping"]
LLEAF = ["leaves elements", "leaves texts", "leaves texts or comments", "leaves texts and elements in turn"]


def pside(g):
    lo, hi, style, tags, leaves, chars, attrs, vals, opaque, ns, body = g
    if style >= 10:
        return "body with %s nodes in all, %s, %s, %d patterns of names%s%s" % ("%d" % lo if lo == hi else "%d..%d" % (lo, hi), LSHAPE[style], LLEAF[leaves], tags,
            ", every element with %s" % ("an id" if attrs == 1 else "an id and a class") if attrs else "", ", any one element opaque" if opaque else "")
    s = "body with %s nodes in all, %s, %s" % ("%d" % lo if lo == hi else "%d..%d" % (lo, hi), STYLE[style], LEAF[leaves])
    if leaves: s += " (%d texts%s)" % (chars % 10, ", the first is &" if chars >= 10 else "")
    s += ", SVG%s and HTML names" % (" and MathML" if ns > 1 else "") if ns else ", %s" % ("div or script" if tags >= 20 else "%d element names" % tags)
    if attrs: s += ", any list of %d attributes%s over %d values%s" % (attrs % 10, " (of which one has a namespace)" if attrs // 10 == 2 or attrs == 3 else "", vals % 10, " or empty" if vals >= 10 else "")
    if opaque: s += ", any elements opaque"
    if body: s += ", attributes on the body too"
    return s


MODE = {1: "patch by patch with slots kept outside", 2: "below a mount point", 4: "two updates one after the other", 8: "an attribute name that scripts cannot set", 16: "sent as bytes", 32: "sent as text", 64: "nodes compared with those native patching keeps"}


def H(entry, name, a, b=None, p0=0, mode=None, tier="quick", secs=None):
    bounds = "old page: %s; new page: %s" % (pside(a), pside(b or a))
    if a[2] >= 10:
        n, m = a[1], a[10]
        bounds = "old page: %s; new page: " % pside(a)
        bounds += "that page after one change" if entry == "h13" else "equal" if entry == "h02" else "that page after %d edits (%s)" % (a[5], ", ".join(LEDIT[k] for k in range(10) if m >> k & 1))
        if entry == "h08": bounds += ", and a third after as many more"
        if n > 40 and entry != "h02": bounds += " at the first two, the middle or the last two places"
    if p0 & 1: bounds += "; content of opaque elements compared too"
    if p0 & 4: bounds += "; old page without a body"
    if p0 & 8: bounds += "; new page without a body"
    if p0 & 16: bounds += "; patches sent as bytes"
    if p0 & 32: bounds += "; patch by patch with slots kept outside"
    for k, v in MODE.items():
        if mode and mode & k: bounds += "; " + v
    j = {"harness": "hotmeal", "entry": entry, "params": [p0, 1 if b else 0] + a + (b or [0] * 11) + ([] if mode is None else [mode]), "tier": tier, "name": name, "bounds": bounds}
    if secs: j["secs"] = secs
    return j


def R(entry, name, params, bounds, tier="quick", secs=None):
    j = {"harness": "hotmeal", "entry": entry, "params": [0, 0] + list(params), "tier": tier, "name": name, "bounds": bounds}
    if secs: j["secs"] = secs
    return j


def pages(e, thorough=True, **kw):
    js = [
        H(e, "any-1-4", page(1, 4, 0, 2, 1, 2), p0=3, **kw),
        H(e, "comments-1-4", page(1, 4, 0, 1, 2, 2), p0=3, **kw),
        H(e, "elements-5", page(5, 5, 0, 2), p0=3, **kw),
        H(e, "one-name-6", page(6, 6, 0, 1), p0=3, **kw),
        H(e, "flat-7", page(5, 7, 1, 2), p0=3, **kw),
        H(e, "chain-7", page(5, 7, 2, 2), p0=3, **kw),
        H(e, "caterpillar-6", page(5, 6, 4, 2), p0=3, **kw),
        H(e, "texts-flat", page(2, 6, 1, 1, 1, 3), p0=3, **kw),
        H(e, "attributes", page(1, 3, 0, 1, 1, 1, 2, 1), p0=3, **kw),
        H(e, "attributes-body", page(1, 2, 0, 2, 1, 2, 2, 2, 0, 0, 1), p0=3, **kw),
        H(e, "namespaces", page(1, 4, 0, 1, 0, 1, 0, 1, 0, 2), p0=3, **kw),
        H(e, "namespaces-chain", page(1, 5, 2, 1, 0, 1, 0, 1, 0, 2), p0=3, **kw),
        H(e, "grow", page(1, 2, 0, 2, 1, 1), page(5, 6, 3, 1, 1, 1), p0=3, **kw),
        H(e, "shrink", page(5, 6, 3, 1, 1, 1), page(1, 2, 0, 2, 1, 1), p0=3, **kw),
    ]
    if thorough: js += [
        H(e, "any-1-5", page(1, 5, 0, 2, 1, 2), p0=3, tier=T, secs=900, **kw),
        H(e, "elements-6", page(6, 6, 3, 2), p0=3, tier=T, secs=900, **kw),
        H(e, "one-name-7", page(7, 7, 0, 1), p0=3, tier=T, secs=900, **kw),
        H(e, "flat-8", page(8, 8, 1, 2), p0=3, tier=T, secs=600, **kw),
        H(e, "chain-9", page(8, 9, 2, 2), p0=3, tier=T, secs=600, **kw),
        H(e, "attributes-4", page(1, 4, 0, 1, 1, 1, 1, 2), p0=3, tier=T, secs=900, **kw),
        H(e, "namespaces-5", page(1, 5, 0, 1, 1, 1, 0, 1, 0, 2), p0=3, tier=T, secs=900, **kw),
    ]
    return js


L = {
    "flat": ep(20, 10), "rec": ep(17, 14, 5, 2, 1, 2), "any": ep(5, 15, 4), "opaque": ep(9, 14, 3, 1, 1, 1, 1, 1023), "list": ep(100, 16, 2, 1), "chain": ep(70, 11, 2, 1),
    "flat100": ep(100, 10, 2, 2), "twice": ep(7, 13, 2, 1, 2, 1, 0, 775), "bin": ep(31, 13, 3, 1), "cater": ep(40, 12, 2, 1),
}


def large(e, names, p0=3, mode=None, **kw):
    """Larger pages with edits."""
    return [H(e, "large-" + k, L[k], p0=p0 & ~1 if k == "opaque" else p0, mode=mode, **kw) for k in names.split()]


PATCHES = ["insert_element", "insert_text", "insert_comment", "remove", "move", "update_props", "displaced"]
PROPS.update({
    "H01": {"assumptions": STANDINS, "reach": PATCHES + ["opaque_changed"], "jobs": pages("h01") + large("h01", "flat rec any opaque list chain flat100 twice bin cater") + [
        H("h01", "opaque", page(1, 3, 0, 1, 1, 2, 0, 1, 1), p0=2),
        H("h01", "no-old-body", page(1, 1), page(1, 3, 0, 1, 1, 1, 1, 1, 0, 0, 1), p0=7),
        H("h01", "no-new-body", page(1, 3, 0, 1, 1, 1, 1, 1, 0, 0, 1), page(1, 1), p0=11),
        H("h01", "neighbouring-texts", page(1, 4, 1, 1, 4, 2), p0=3),
        H("h01", "patch-by-patch", page(1, 4, 0, 1, 1, 1), p0=35),
        H("h01", "patch-by-patch-attributes", page(1, 3, 0, 1, 2, 1, 1, 1), p0=35),
        H("h01", "empty-comments", page(1, 4, 1, 1, 5, 1), p0=3),
        H("h01", "empty-values", page(1, 3, 0, 1, 0, 1, 1, 11), p0=3),
        H("h01", "opaque-inserted", page(1, 2), page(1, 5, 0, 1, 2, 1, 0, 1, 1), p0=3),
    ]},
    "H02": {"assumptions": STANDINS, "jobs": [
        H("h02", "any-1-6", page(1, 6, 0, 2, 1, 2)),
        H("h02", "comments-attributes", page(1, 4, 0, 1, 2, 2, 2, 2, 0, 0, 1)),
        H("h02", "opaque", page(1, 5, 0, 1, 1, 1, 0, 1, 1)),
        H("h02", "namespaces", page(1, 5, 0, 1, 1, 1, 1, 1, 0, 2)),
        H("h02", "flat", page(5, 9, 1, 2, 1, 2)), H("h02", "chain", page(5, 9, 2, 2)),
        H("h02", "empty-comments-values", page(1, 4, 0, 1, 5, 1, 1, 11), p0=0),
        H("h02", "no-body", page(1, 1), p0=12),
        H("h02", "large-any", ep(7, 15, 5, 2, 1, 2, lo=1)), H("h02", "large-rec", ep(101, 14, 5, 2, 1, 2)), H("h02", "large-bin", ep(63, 13, 5, 1)),
        H("h02", "large-list", ep(100, 16, 5, 2, 1, 2)), H("h02", "large-chain", ep(70, 11, 5, 2)), H("h02", "large-flat", ep(300, 10, 5, 1)), H("h02", "large-opaque", ep(21, 14, 5, 1, 1, 1, 1)),
        H("h02", "any-1-7", page(1, 7, 0, 2, 1, 2), tier=T, secs=900),
    ]},
    "H03": {"assumptions": STANDINS, "reach": ["update_props"], "jobs": [
        R("h03", "two-elements", [2, 3, 2, 2], "body and one element, up to 2 of 3 attribute names each in any order, 2 values"),
        R("h03", "two-elements-names", [2, 4, 2, 2], "body and one element, up to 2 of 4 attribute names each in any order, 2 values"),
        R("h03", "four-attributes", [1, 5, 4, 1], "body with up to 4 of 5 attribute names in any order, before and after"),
        R("h03", "three-attributes", [1, 4, 3, 2], "body with up to 3 of 4 attribute names in any order, 2 values, before and after"),
        R("h03e", "histories", [4, 3, 2], "4 edits of one element (direct, by patch, whole list), 3 names, 2 values"),
        H("h01", "namespaced", page(2, 2, 0, 1, 0, 1, 3, 1, 0, 1), p0=3),
        H("h01", "namespaced-alike", page(2, 2, 0, 1, 0, 1, 22, 2), p0=3),
        H("h01", "namespaced-alike-third", page(2, 2, 0, 1, 0, 1, 23, 11), p0=3),
        H("h01", "attributes-3", page(1, 3, 0, 1, 0, 1, 2, 1), p0=3),
        H("h01", "large-attributes", ep(9, 14, 5, 0, 2, 2, mask=16), p0=3),
        H("h01", "large-attributes-moves", ep(6, 15, 2, 0, 2, 1, mask=20, lo=4), p0=3),
        R("h03", "four-attributes-values", [1, 5, 4, 2], "body with up to 4 of 5 attribute names in any order, 2 values, before and after", tier=T, secs=900),
        R("h03e", "histories-5", [5, 3, 2], "5 edits of one element, 3 names, 2 values", tier=T, secs=900),
    ]},
    "H04": {"assumptions": PARSER, "jobs": [
        R("h04", "all-elements", [0, 19, 2, 2, 0, 0, 0], "20 kinds of elements (HTML, SVG, MathML; raw text, void and ordinary), attribute value and content of 2 characters each"),
        R("h04", "elements-text", [0, 19, 1, 1, 2, 0, 1], "20 kinds of elements, value and content of 1 character, 2 behind, doctype"),
        R("h04", "elements-comment", [0, 19, 1, 0, 1, 3, 0], "20 kinds of elements, value 1, text 1, comment of 3 characters"),
        R("h04", "several-bytes", [0, 19, 2, 2, 0, 0, 0, 1], "20 kinds of elements, value and content of 2 characters of 1 to 4 bytes"),
        R("h04", "several-bytes-behind", [0, 1, 0, 0, 2, 2, 0, 1], "text and comment of 2 characters of 1 to 4 bytes"),
        R("h04", "all-names", [20, 138, 0, 2, 1, 0, 0], "119 more kinds of elements (every HTML element that may stand in a body, SVG, MathML), content of 2 characters, 1 behind"),
        R("h04", "long-text", [0, 0, 0, 5, 0, 0, 0], "text of 5 characters"),
        R("h04", "long-value", [0, 0, 5, 0, 0, 0, 0], "attribute value of 5 characters"),
        R("h04", "script-style", [1, 2, 1, 4, 1, 0, 0], "script and style with 4 characters"),
        R("h04", "longer-text", [0, 0, 0, 7, 0, 0, 0], "text of 7 characters", tier=T, secs=900),
        R("h04", "longer-value", [0, 0, 7, 0, 0, 0, 0], "attribute value of 7 characters", tier=T, secs=900),
        R("h04", "all-elements-long", [0, 19, 2, 3, 2, 2, 1], "20 kinds of elements, value 2, content 3, text 2, comment 2, doctype", tier=T, secs=1200),
    ]},
    "H05": {"assumptions": STANDINS, "jobs": [
        R("h05", "texts-3", [3], "two texts of up to 3 ASCII characters, each made in 5 ways"),
        R("h05", "texts-3-bytes", [2, 1], "two texts of up to 2 characters of 1 to 4 bytes, each made in 5 ways"),
        R("h05", "texts-5", [5], "two texts of up to 5 ASCII characters, each made in 5 ways"),
        H("h05p", "patches", page(1, 3, 0, 2, 1, 2, 1, 2)),
        H("h05p", "patches-comments", page(1, 3, 0, 1, 2, 2)),
        H("h05p", "patches-opaque", page(1, 3, 0, 1, 1, 2, 0, 1, 1)),
        H("h05p", "patches-nested", page(1, 2), page(3, 5, 0, 1, 2, 1)),
    ] + large("h05p", "flat any opaque list", p0=0) + [
        R("h05", "texts-8", [8], "two texts of up to 8 ASCII characters, each made in 5 ways", tier=T, secs=600),
        H("h05p", "patches-4", page(1, 4, 0, 2, 2, 2), tier=T, secs=600),
    ]},
    "H06": {"assumptions": STANDINS, "reach": ["comment_first", "before_sibling", "text_before_sibling", "reparent", "foster"], "jobs": [
        R("h06", "callbacks-3", [3, 1, 3, 1, 1, 1], "3 elements, a comment, any 3 callbacks, attributes, foster parenting, doctype"),
        R("h06", "callbacks-3-two-elements", [2, 1, 3, 1, 1, 0], "2 elements, a comment, any 3 callbacks"),
        R("h06", "callbacks-3-four-elements", [4, 0, 3, 1, 1, 1], "4 elements, any 3 callbacks"),
        R("h06", "subtree-2", [4, 1, 2, 1, 1, 1, 1], "4 elements, a comment, any 2 callbacks on a page that has an element with a text and an element inside"),
        R("h06", "subtree-3", [3, 0, 3, 1, 1, 0, 1], "3 elements, any 3 callbacks on a page that has an element with a text and an element inside"),
        R("h06", "callbacks-4", [2, 1, 4, 0, 0, 0], "2 elements, a comment, any 4 callbacks without attributes and foster parenting"),
        R("h06", "callbacks-4-attributes", [3, 1, 4, 1, 1, 1], "3 elements, a comment, any 4 callbacks", tier=T, secs=1500),
    ]},
    "H07": {"assumptions": STANDINS, "reach": ["island_stays", "opaque_changed"], "jobs": [
        H("h07", "any-1-4", page(1, 4, 0, 1, 1, 1, 0, 1, 1)),
        H("h07", "names-3", page(1, 3, 0, 2, 1, 2, 0, 1, 1)),
        H("h07", "attributes", page(1, 3, 0, 1, 1, 1, 1, 1, 1)),
        H("h07", "flat", page(2, 4, 1, 2, 1, 1, 0, 1, 1)),
        H("h07", "chain", page(2, 5, 2, 1, 0, 1, 0, 1, 1)),
        H("h07", "two-levels", page(4, 5, 3, 1, 0, 1, 0, 1, 1), page(1, 3, 0, 1, 0, 1, 0, 1, 1)),
        H("h01", "content-3", page(1, 3, 0, 2, 1, 1, 0, 1, 1), p0=3),
        H("h01", "content-4", page(1, 4, 0, 1, 1, 1, 0, 1, 1), p0=3),
        H("h01", "content-svg", page(1, 4, 0, 1, 0, 1, 0, 1, 1, 1), p0=3),
        H("h01", "content-math", page(1, 3, 0, 1, 1, 1, 0, 1, 1, 2), p0=3),
        H("h01", "content-comments", page(1, 3, 0, 1, 5, 1, 0, 1, 1), p0=3),
        H("h01", "content-scripts", page(1, 3, 0, 22, 1, 12, 0, 1, 1), p0=3),
        H("h01", "content-chain", page(1, 5, 2, 1, 1, 1, 0, 1, 1, 1), p0=3),
        H("h07", "large-opaque", L["opaque"]), H("h07", "large-any", ep(5, 15, 3, 1, 1, 0, 1, 1023)), H("h07", "large-list", ep(49, 16, 2, 1, 1, 0, 1, 1023)),
        H("h01", "large-opaque", L["opaque"], p0=2), H("h01", "large-list", ep(49, 16, 2, 1, 1, 0, 1, 1023), p0=2),
        H("h07", "any-5", page(5, 5, 0, 1, 0, 1, 0, 1, 1), tier=T, secs=900),
        H("h07", "names-4", page(4, 4, 0, 2, 1, 1, 0, 1, 1), tier=T, secs=900),
        H("h01", "content-5", page(5, 5, 0, 1, 0, 1, 0, 1, 1), p0=3, tier=T, secs=900),
    ]},
    "H08": {"assumptions": STANDINS, "jobs": [
        H("h08", "any-1-3", page(1, 3, 0, 2, 1, 1), p0=3),
        H("h08", "one-name-4", page(1, 4, 0, 1, 1, 1), page(1, 3, 0, 1, 1, 1), p0=3),
        H("h08", "elements-4", page(4, 4, 0, 1, 0), p0=3),
        H("h08", "flat", page(1, 5, 1, 1, 1, 2), page(1, 3, 1, 1, 1, 1), p0=3),
        H("h08", "chain", page(1, 5, 2, 2, 0), p0=3),
        H("h08", "attributes", page(1, 2, 0, 1, 1, 2, 1, 2, 0, 0, 1), p0=3),
        H("h08", "opaque", page(3, 3, 0, 1, 1, 1, 0, 1, 1), p0=3),
        H("h08", "large-any", ep(4, 15, 2, 1, 1, 1, 0, 783), p0=3), H("h08", "large-rec", ep(9, 14, 1, 1, 1, 0, 0, 783), p0=3),
        H("h08", "large-list", ep(36, 16, 1, 1, 1, 0, 0, 3), p0=3),
        H("h08", "elements-4-names", page(4, 4, 0, 2, 0), p0=3, tier=T, secs=600),
        H("h08", "any-4", page(1, 4, 0, 2, 1, 1), p0=3, tier=T, secs=1200),
        H("h08", "attributes-3", page(1, 3, 0, 1, 1, 2, 1, 2), p0=3, tier=T, secs=600),
    ]},
    "H09": {"assumptions": STANDINS, "reach": ["doctype", "no_doctype", "wrapped"], "jobs": [
        R("h09", "one-piece", [1, 3, 1], "byte order mark or not, a space, comment or declaration with 3 characters or nothing, doctype, html tag or body tag in any case or other content, 1 character behind"),
        R("h09", "two-pieces", [2, 1, 1], "byte order mark or not, up to 2 spaces, comments or declarations with 1 character each, doctype, html tag or body tag in any case or other content, 1 character behind"),
        R("h09", "three-pieces", [3, 0, 0], "byte order mark or not, up to 3 empty comments, declarations or spaces, doctype, html tag or body tag in any case or other content"),
        R("h09a", "any-8", [8], "any 8 ASCII characters"),
        R("h09a", "any-7", [7], "any 7 ASCII characters"),
        R("h09a", "comment-6", [6, 1], "a comment opened, any 0..6 ASCII characters, a doctype"),
        R("h09a", "any-10", [10], "any 10 ASCII characters", tier=T, secs=1200),
        R("h09a", "comment-8", [8, 1], "a comment opened, any 0..8 ASCII characters, a doctype", tier=T, secs=900),
        R("h09", "one-piece-long", [1, 5, 2], "byte order mark or not, one piece with 5 characters in front, 2 behind", tier=T, secs=900),
    ]},
    "H10": {"assumptions": STANDINS, "reach": PATCHES + ["opaque_changed"], "jobs": [
        H("h01", "any-1-4", page(1, 4, 0, 1, 2, 1), p0=19),
        H("h01", "names-3", page(1, 3, 0, 2, 1, 2), p0=19),
        H("h01", "attributes", page(1, 2, 0, 1, 1, 1, 3, 11), p0=19),
        H("h01", "attributes-body", page(1, 2, 0, 1, 1, 2, 2, 2, 0, 0, 1), p0=19),
        H("h01", "xlink-xmlns", page(2, 2, 0, 1, 0, 1, 24, 1), p0=19),
        H("h01", "namespaces", page(1, 4, 0, 1, 0, 1, 0, 1, 0, 2), p0=19),
        H("h01", "names-with-capitals", page(1, 3, 0, 1, 0, 1, 61, 2, 0, 1), p0=19),
        H("h01", "opaque", page(1, 3, 0, 1, 2, 2, 0, 1, 1), p0=19),
        H("h01", "no-old-body", page(1, 1), page(1, 3, 0, 1, 1, 1, 1, 1, 0, 0, 1), p0=23),
        H("h01", "grow", page(1, 2), page(4, 5, 3, 1, 1, 1), p0=19),
    ] + large("h01", "flat any opaque list", p0=19) + [
        H("w01", "browser-bytes", page(1, 3, 0, 1, 2, 1, 1, 1), p0=3, mode=16),
        H("w01", "browser-text", page(1, 3, 0, 1, 2, 1, 1, 1), p0=3, mode=32),
        H("w01", "browser-mount", page(1, 3, 0, 1, 2, 2), p0=3, mode=18),
        H("h01", "any-5", page(5, 5, 0, 1, 1, 1), p0=19, tier=T, secs=900),
        H("h01", "attributes-3", page(1, 3, 0, 1, 1, 1, 2, 2), p0=19, tier=T, secs=900),
    ]},
    "H11": {"assumptions": STANDINS, "reach": ["append", "insert", "remove"], "jobs": [
        R("h11", "edits-3", [2, 1, 3], "2 elements, a text and a comment, any 3 edits"),
        R("h11", "edits-3-body", [2, 2, 3, 1], "2 elements, 2 texts and a comment, any 3 edits, of the body too"),
        R("h11", "edits-4", [1, 1, 4], "an element, a text and a comment, any 4 edits"),
        R("h11", "edits-4-elements", [2, 1, 4], "2 elements, a text and a comment, any 4 edits"),
        R("h11", "edits-4-body", [2, 2, 4, 1], "2 elements, 2 texts and a comment, any 4 edits, of the body too", tier=T, secs=1200),
    ]},
    "H12": {"assumptions": PARSER, "reach": PATCHES + ["opaque_changed"], "jobs": [
        R("h12", "one-piece", [1, 2, 2, 1, 0, 11, 1], "up to 1 of 12 kinds of pieces in 3 frames, 2 letters, 1 attribute name outside of HTML; patches sent as bytes"),
        R("h12", "texts-and-elements", [2, 0, 3, 0, 0, 3, 0], "up to 2 texts, references, paragraphs and comments, 2 letters"),
        R("h12", "foreign", [2, 0, 2, 1, 4, 7, 0], "up to 2 SVG, MathML and img elements, 1 attribute name, 2 letters"),
        R("h12", "raw-nested-opaque", [2, 0, 2, 0, 7, 11, 0], "up to 2 img, script, textarea, nested and opaque elements, 2 letters"),
        R("h12", "foreign-attributes", [1, 0, 2, 4, 4, 4, 1], "an svg element with any list of 4 attribute names with namespaces, 2 values; patches sent as bytes"),
        R("h12", "foreign-attributes-inside", [1, 0, 2, 3, 5, 6, 1], "an element in svg or a math element with any list of 3 attribute names with namespaces, 2 values; patches sent as bytes"),
        R("h12", "self-two-pieces", [2, 2, 3, 2, 0, 11, 0, 1], "pages of up to 2 of 12 kinds of pieces in 3 frames, written and read back"),
        R("h12", "self-attributes", [1, 0, 2, 6, 4, 6, 0, 1], "an element outside of HTML with any list of 6 attribute names, written and read back"),
        R("h12", "texts-and-elements-3", [3, 0, 2, 0, 0, 3, 0], "up to 3 texts, references, paragraphs and comments, 2 letters", tier=T, secs=900),
        R("h12", "two-pieces", [2, 0, 2, 0, 0, 11, 1], "up to 2 of 12 kinds of pieces, 2 letters; patches sent as bytes", tier=T, secs=1200),
        R("h12", "frames-two-pieces", [2, 2, 2, 0, 0, 3, 1], "up to 2 texts, references, paragraphs and comments in 3 frames; patches sent as bytes", tier=T, secs=900),
    ]},
    "S01": {"assumptions": PARSER, "reach": ["patches", "nothing", "reload", "head_changed", "removed", "cleared"], "jobs": [
        R("s01", "history-3", [3, 1, 3, 0, 5, 0, 0], "3 requests for one route, 6 kinds of pages with letters over 3"),
        R("s01", "history-4", [4, 1, 2, 0, 2, 0, 0], "4 requests for one route, 3 kinds of pages with letters over 2"),
        R("s01", "routes-heads", [3, 2, 1, 0, 1, 1, 1], "3 requests for two routes, 2 pages, removal and clearing, head injections"),
        R("s01", "heads", [2, 1, 2, 0, 5, 1, 1], "2 requests for one route, 6 kinds of pages, removal and clearing, head injections"),
        R("s01", "heads-4", [4, 1, 1, 0, 0, 1, 1], "4 requests for one route, one page, removal and clearing, head injections"),
        R("s01", "routes-4", [4, 2, 1, 0, 1, 1, 0], "4 requests for two routes, 2 pages, removal and clearing"),
        R("s01", "routes-heads-4", [4, 2, 1, 0, 1, 1, 1], "4 requests for two routes, 2 pages, removal and clearing, head injections", tier=T, secs=1200),
        R("s01", "heads-3", [3, 1, 2, 0, 5, 1, 1], "3 requests for one route, 6 kinds of pages, removal and clearing, head injections", tier=T, secs=1200),
    ]},
    "S02": {"assumptions": STANDINS, "jobs": [
        R("s02", "head-tags", [0, 7, 2, 1, 1], "8 beginnings, head tag in any case with 2 attributes in any style, values of 1 character, 1 character behind"),
        R("s02", "head-values", [1, 1, 1, 4, 1], "head tag in any case with an attribute of 4 characters in any style"),
        R("s02", "head-three", [1, 1, 3, 1, 1], "head tag with 3 attributes in any style"),
        R("s02", "behind", [0, 7, 0, 0, 5], "8 beginnings, any 5 characters behind the head tag"),
        R("s02a", "any-10", [10], "any 10 ASCII characters"),
        R("s02a", "any-7", [7], "any 7 ASCII characters"),
        R("s02a", "any-11", [11], "any 11 ASCII characters"),
        R("s02a", "any-13", [13], "any 13 ASCII characters", tier=T, secs=900),
        R("s02", "head-values-three", [0, 7, 2, 3, 2], "8 beginnings, 2 attributes with values of 3 characters", tier=T, secs=900),
    ]},
    "S03": {"assumptions": STANDINS, "jobs": [
        R("s03", "ascii-3", [3], "any of the 4 addresses, of up to 3 ASCII characters"),
        R("s03", "several-bytes-2", [2, 1], "any of the 4 addresses, of up to 2 characters of 1 to 4 bytes"),
        R("s03", "ascii-4", [4], "any of the 4 addresses, of up to 4 ASCII characters", tier=T, secs=900),
    ]},
    "W01": {"assumptions": BROWSER, "reach": PATCHES + ["opaque_changed", "island_stays", "island_told"], "jobs": [dict(j, tier=T, secs=600) if j["name"] == "elements-5" else j for j in pages("w01", mode=0)] + [
        H("w01", "two-levels-5", page(5, 5, 3, 2), p0=3, mode=0),
        H("w01", "opaque", page(1, 4, 0, 1, 1, 1, 0, 1, 1), mode=0),
        H("w01", "opaque-names", page(1, 3, 0, 2, 1, 2, 0, 1, 1), mode=0),
        H("w01", "namespaces-attributes", page(1, 3, 0, 1, 0, 1, 1, 2, 0, 2, 1), mode=0),
        H("w01", "xlink", page(2, 2, 0, 1, 0, 1, 3, 1, 0, 1), mode=0),
        H("w01", "xlink-href", page(2, 2, 0, 1, 0, 1, 22, 2), mode=0),
        H("w01", "xlink-href-title", page(2, 2, 0, 1, 0, 1, 23, 11), mode=0),
        H("w01", "names-with-capitals", page(1, 3, 0, 1, 0, 1, 61, 2, 0, 1), p0=3, mode=0),
        H("w01", "xmlns", page(2, 2, 0, 1, 0, 1, 24, 2), p0=3, mode=0),
        H("w01", "xmlns-svg", page(2, 2, 0, 1, 0, 1, 24, 1, 0, 2), p0=3, mode=0),
        H("w01", "patch-by-patch", page(1, 4, 0, 1, 1, 2), mode=1),
        H("w01", "mount", page(1, 4, 0, 1, 1, 2, 0, 1), mode=2),
        H("w01", "mount-patch-by-patch", page(1, 3, 0, 2, 1, 1, 1, 1), mode=3),
        H("w01", "two-updates", page(1, 3, 0, 2, 1, 1), mode=4),
    ] + large("w01", "flat rec any opaque list twice chain", mode=0) + [
        H("w01", "unusual-attributes", page(1, 3, 0, 1, 0, 1, 2, 1, 0, 0, 0), mode=8),
        H("w01", "unusual-attributes-namespaces", page(1, 3, 0, 1, 0, 1, 1, 2, 0, 2, 1), mode=8),
        H("w01", "two-updates-4", page(1, 4, 0, 1, 1, 1), page(1, 3, 0, 1, 1, 1), mode=4, tier=T, secs=900),
        H("w01", "opaque-5", page(5, 5, 0, 1, 0, 1, 0, 1, 1), mode=0, tier=T, secs=900),
    ]},
})

PROPS.update({
    "H13": {"assumptions": STANDINS, "reach": ["set_text", "update_props", "insert_element", "insert_text", "insert_comment", "remove"], "jobs": [
        H("h13", "any-1-4", ep(4, 15, 5, 1, 0, 1, lo=1)), H("h13", "any-5-6", ep(6, 15, 5, 3, 0, 2, lo=5)), H("h13", "comments", ep(5, 15, 3, 2, 0, 1, lo=1)),
        H("h13", "flat", ep(15, 10, 5, 2, 0, 1)), H("h13", "records", ep(17, 14, 5, 2, 0, 2)), H("h13", "binary", ep(31, 13, 5, 2, 0, 1)), H("h13", "chain", ep(12, 11, 5, 2, 0, 1)),
        H("h13", "caterpillar", ep(15, 12, 5, 2, 0, 1)), H("h13", "flat-100", ep(100, 10, 3, 2, 0, 1)), H("h13", "list-100", ep(100, 16, 3, 2, 0, 2)), H("h13", "chain-70", ep(70, 11, 3, 2, 0, 1)),
        H("h13", "any-7", ep(7, 15, 5, 3, 0, 2), tier=T, secs=600), H("h13", "flat-300", ep(300, 10, 3, 2, 0, 1), tier=T, secs=600), H("h13", "list-400", ep(400, 16, 3, 2, 0, 2), tier=T, secs=600),
    ]},
    "H14": {"assumptions": STANDINS, "reach": ["kept", "move", "insert_element", "remove"], "jobs": [dict(j, tier=T, secs=600) if j["name"] == "elements-5" else j for j in pages("h14")]
        + large("h14", "flat rec any twice") + [H("h14", "large-list", ep(49, 16, 2, 1), p0=3), H("h14", "large-bin", ep(15, 13, 3), p0=3), H("h14", "large-chain", ep(20, 11, 2), p0=3), H("h14", "large-cater", ep(20, 12, 2), p0=3)]},
    "W02": {"assumptions": BROWSER, "reach": ["kept", "new"], "jobs": [
        H("w01", "any-1-4", page(1, 4, 0, 2, 1, 2), p0=3, mode=64),
        H("w01", "comments-attributes", page(1, 3, 0, 1, 2, 2, 1, 1), p0=3, mode=64),
        H("w01", "texts", page(1, 4, 1, 1, 1, 3), p0=3, mode=64),
        H("w01", "namespaces", page(1, 4, 0, 1, 0, 1, 0, 1, 0, 2), p0=3, mode=64),
        H("w01", "opaque", page(1, 3, 0, 1, 1, 1, 0, 1, 1), mode=64),
        H("w01", "mount", page(1, 4, 0, 1, 1, 2), mode=66), H("w01", "patch-by-patch", page(1, 4, 0, 1, 1, 2), mode=65), H("w01", "mount-patch-by-patch", page(1, 3, 0, 2, 1, 1), mode=67),
        H("w01", "bytes", page(1, 3, 0, 1, 2, 1), mode=80), H("w01", "text", page(1, 3, 0, 1, 2, 1), mode=96),
    ] + large("w01", "rec any opaque twice", mode=64) + [H("w01", "large-list", ep(49, 16, 2, 1), p0=3, mode=64)]},
})

NOTE = ("Every path of the real code over all inputs within the bounds listed in the evidence is explored symbolically and the property asserted on each; Z3 decides every branch and assertion with a symbolic condition. "
        "Nothing is claimed outside the bounds (tree sizes, numbers of kinds, texts and values). Trusted: rustc's translation to LLVM IR, the symir interpreter (sampled paths are compared with native runs in every check), Z3, the oracles in harness/.")
NOT_APPLICABLE = {}
