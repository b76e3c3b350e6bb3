"""What each check runs: recorded executions (profiles of random drivers, exhaustive scopes
of the implementation) judged by spec/Trace.tla, and models of the specification."""

ALL = ("core prices extreme dust queue zigzag sides fees roles pause fault listing batch bad targets "
       "migrate admin create grid wide legacy volume exit split").split()

def model(module, name, what, q=60, t=1500, heap="10g", num="int", workers=3):
    return dict(module=module, what=what, num=num,
                quick=dict(cfg=name + "_q", workers=workers, timeout=max(q, 400)),
                thorough=dict(cfg=name, workers=8, timeout=t, heap=heap))


MODELS = {
    "queue": model("MC_Queue", "MC_Queue", "one tick side: explicit time priority, offset scheme and sum tree in lock step, "
                   "every schedule of place, fill, cancel, claim"),
    "tree": model("MC_Queue", "MC_Tree", "the same from a queue of unit orders: every order of cancels, all tree shapes and rotations"),
    "book": model("MC_Book", "MC_Book", "the book: place, cancel, claim, swap with and without target; every step judged by Properties"),
    "fees": model("MC_Book", "MC_Fees", "bounties, maker fees, batches and undeliverable payments; every step judged by Properties"),
    "pause": model("MC_Book", "MC_Pause", "switching the book off and on between messages, migration, donations"),
    "list": model("MC_Book", "MC_List", "listings, pages and counts over three ticks and two owners"),
    "roles": model("MC_Roles", "MC_Roles", "role hand-over, fee, recipient and switch for every schedule of configuration messages"),
    "grid": model("MC_Grid", "MC_Grid", "price grid with exact numbers: decades, probes and their neighbours", num="big", workers=2),
}


PRICES = [(3, 2), (1000001, 1000000), (1, 10**12), (2, 3), (340282300000000000000, 1), (999999, 10**8)]
# nodes with two children in every balanced tree of four levels: below the root at least one subtree has three levels
BALANCED = ["{%s}" % ",".join(map(str, sorted({1, 2, 3} | set(a) | set(b))))
            for a in ((), (4,), (5,), (4, 5)) for b in ((), (6,), (7,), (6, 7)) if a or b]
SYMBOLIC = {
    "symqueue": dict(
        module="Sym_Queue", what="one tick side, amounts and number of messages unbounded: the offset scheme answers like "
        "the explicit queue (inductive invariant, at most N orders)",
        obligations=[("Init", "IndInv", 0), ("IndInit", "Promised", 0), ("IndInit", "IndInv", 1)],
        quick=dict(consts=[dict(N=3)], timeout=400), thorough=dict(consts=[dict(N=3), dict(N=4)], timeout=3000)),
    "symmoney": dict(
        module="Sym_Money", what="rounding at one tick, amounts unbounded: claims stay covered and no step lowers the "
        "surplus (inductive invariant, N orders, exact price Num/Den)",
        obligations=[("Init", "IndInv", 0), ("IndInit", "Deal", 0), ("IndInit", "NoGain", 0), ("IndInit", "IndInv", 1)],
        quick=dict(consts=[dict(N=3, Num=a, Den=b) for a, b in PRICES[:2]], timeout=300),
        thorough=dict(consts=[dict(N=n, Num=a, Den=b) for n in (3, 4) for a, b in PRICES], timeout=3000)),
    "symtree": dict(
        module="Sym_Tree", what="the prefix walk of a synchronisation answers like going over all cancels in order, on every "
        "tree of up to four leaves (thorough: every balanced one of four levels), positions and volumes unbounded",
        obligations=[("Init", "Exact", 0)],
        quick=dict(consts=[dict(Levels=3, Twin="{0}")], timeout=300),
        thorough=dict(consts=[dict(Levels=3, Twin="{0}")] + [dict(Levels=4, Twin=t) for t in BALANCED], timeout=3000)),
}
MODELS.update(SYMBOLIC)


# ------------------------------------------- behaviours generated from the models
CREATE = dict(k="create", sender="creator", quote="uquote", base="ubase", qsupply=True, bsupply=True,
              dflrecip="osmo1r9jc2234fljy93z80cevqjt3nmjycec8aj4cc6", dfladmin="osmo10d07y265gmmuvt4z0w9aw880jnsr700jjeq4qp",
              dflmod="osmo1peuxfjj66n2qt2v5jmqlvzz8neakjgduez7vttvemw58uug6546sr60ngl", funds=[], now="1000000000", blk=[])
RESTS = dict(bid="uquote", ask="ubase")


def queue_ops(sizes):
    """one tick side at price 1: place, fill, cancel, claim"""
    def conv(hist, side):
        rest, earn = RESTS[side], RESTS["ask" if side == "bid" else "bid"]
        owners, ops = [], []

        def place(v):
            owners.append("alice bob carol dave".split()[len(owners) % 4])
            ops.append(dict(k="place", sender=owners[-1], tick=0, dir=side, qty=str(v), bounty="none",
                            funds=[dict(d=rest, a=str(v))], now="1000000000", blk=[]))
        for v in sizes:
            place(v)
        for what, x in hist:
            if what == "place":
                place(x)
            elif what == "fill":
                ops.append(dict(k="swap", sender="keeper", din=earn, amt=str(x), dout=rest, min=str(x), fee="0", target="none",
                                bound=0, now="1000000000", blk=[]))
            else:
                ops.append(dict(k=what, sender=owners[x - 1] if what == "cancel" else "keeper", tick=0, id=x - 1, funds=[], blk=[]))
        return ops
    return conv


PEOPLE = dict(u="alice", w="bob", x="keeper", y="carol", a=CREATE["dfladmin"], m=CREATE["dflmod"], r=CREATE["dflrecip"], chain="chain")
TOKENS = dict(q="uquote", b="ubase", z="uother")
E16 = 10 ** 16


def book_ops(ticks, scale):
    """the messages of MC_Book and MC_Roles; ticks: model tick -> (resting tick, bound of a market order)"""
    def conv(hist, _):
        return [book_op(o, ticks, scale) for o in hist]
    return conv


def role_ops(hist, _):
    """the same, from a book with one order, half filled"""
    start = [dict(k="place", sender="u", funds=[dict(d="q", a=4)], blk=[], tick=0, dir="bid", qty=4, bounty=-1),
             dict(k="swap", sender="x", funds=[], blk=[], din="b", dout="q", amt=2, min=0, fee=0, target="none", bound=0)]
    return [book_op(o, NEAR, 1, 0) for o in start + hist]


def book_op(o, ticks, scale, first=1):
    def person(a):
        return {"": "", "?": "X"}.get(a) if a in ("", "?") else PEOPLE[a]
    r = dict(k=o["k"], sender=person(o["sender"]), funds=[dict(d=TOKENS[c["d"]], a=str(c["a"] * scale)) for c in o["funds"]],
             blk=[person(a) for a in o["blk"]], now="1000000000")
    k = o["k"]
    if k == "place":
        r.update(tick=ticks[o["tick"]][0], dir=o["dir"], qty=str(o["qty"] * scale),
                 bounty="none" if o["bounty"] < 0 else str(o["bounty"] * E16))
    elif k in ("cancel", "claim"):
        r.update(tick=ticks[o["tick"]][0], id=o["id"] - first)
    elif k == "batch":
        r.update(items=[[ticks[t][0], max(i - first, 0)] for t, i in o["items"]])
    elif k == "swap":
        r.update(din=TOKENS[o["din"]], dout=TOKENS[o["dout"]], amt=str(o["amt"] * scale), min=str(o["min"] * scale),
                 fee=str(o["fee"]), target=o["target"], bound=ticks[o["bound"]][1])
    elif k in ("auth", "sudo"):
        fee = {0: 0, 1: E16, 2: 5 * E16, 3: 5 * E16 + 1}[o["fee"]]
        r.update(act=o["act"], addr=person(o["addr"]), flag=o["flag"], fee=str(fee))
    elif k == "donate":
        r.update(funds=[dict(d="uquote", a=str(7 * scale))])
    return r


LOW, HIGH = -108000000, 182402823
#         resting tick, bound: prices 1/2, 1, 3/2
NEAR = {-2: (LOW - 1, LOW - 1), -1: (-5000000, -5000000), 0: (0, 0), 1: (500000, 500000), 2: (HIGH + 1, HIGH + 1)}
# the same with the ends of the supported range as bounds, and awkward prices
FAR = {-2: (LOW - 1, LOW - 1), -1: (-9999999, LOW), 0: (-1, -1), 1: (2333333, HIGH), 2: (HIGH + 1, HIGH + 1)}


def questions(ticks, scale):
    """asked after every generated message"""
    ts = [ticks[t][0] for t in (-1, 0, 1)]
    q = [dict(k="calc_out", din=a, dout=b, amt=str(n * scale), fee="0", alt=n > 1)
         for a, b in (("uquote", "ubase"), ("ubase", "uquote")) for n in (1, 3)]
    q += [dict(k="spot", quote=a, base=b) for a, b in (("uquote", "ubase"), ("ubase", "uquote"))]
    q += [dict(k=k) for k in ("liq", "active", "fee", "state", "denoms", "swap_fee")]
    q += [dict(k="auth", who=w) for w in ("admin", "aoff", "mod", "moff")]
    q += [dict(k=k, ids=[t]) for k in ("ticks_by_id", "unreal") for t in ts] + [dict(k="ticks_by_id", ids=[ts[1], ts[2], ts[1]])]
    none = {"from": "none", "to": "none", "limit": "none"}
    q += [dict(none, k="all_ticks"), dict(none, k="all_ticks", **{"from": ts[1], "limit": 1})]
    q += [dict(none, k="by_owner", owner="alice"), dict(none, k="by_owner", owner="alice", **{"from": [ts[1], 1], "limit": 1})]
    q += [dict(none, k="by_tick", tick=t) for t in ts]
    return q


def generator(module, cfg, roots, ask=()):
    return dict(quick=dict(module=module, cfg=cfg + "_q", roots=roots, ask=ask),
                thorough=dict(module=module, cfg=cfg, roots=roots, ask=ask))


GENERATORS = {
    "queue": dict(
        quick=dict(module="Gen_Queue", cfg="Gen_Queue_q", roots=[(d, queue_ops([1] * 7)) for d in ("bid", "ask")]),
        thorough=dict(module="Gen_Queue", cfg="Gen_Queue", roots=[(d, queue_ops([1, 2, 1, 1, 2, 1, 1])) for d in ("bid", "ask")])),
    "book": generator("Gen_Book", "Gen_Book", [("near", book_ops(NEAR, 1)), ("far", book_ops(FAR, 7))], questions(NEAR, 1)),
    "cross": generator("Gen_Book", "Gen_Cross", [("near", book_ops(NEAR, 1)), ("far", book_ops(FAR, 7))], questions(FAR, 7)),
    "fees": generator("Gen_Book", "Gen_Fees", [("near", book_ops(NEAR, 1)), ("scaled", book_ops(FAR, 997))], questions(NEAR, 1)),
    "pause": generator("Gen_Book", "Gen_Pause", [("near", book_ops(NEAR, 1))], questions(NEAR, 1)),
    "roles": generator("Gen_Roles", "Gen_Roles", [("half filled", role_ops)], questions(NEAR, 1)),
}


def plan(focus, scopes, models, facets, gens=(), deep=()):
    """focus: {profile: scale}, scopes: {scope: max}"""
    def traces(tier, seed):
        k = 1.0 if tier == "quick" else 12.0
        jobs = []
        # a little of everything
        jobs.append(("all", ["drive", "--profiles", ",".join(ALL), "--seed", str(seed + 1000), "--scale", str(0.25 * k)]))
        by = {}
        for p, s in focus.items():
            by.setdefault(s, []).append(p)
        for s, ps in sorted(by.items()):
            jobs.append((f"focus{s}", ["drive", "--profiles", ",".join(ps), "--seed", str(seed), "--scale", str(s * k)]))
        for sc, mx in scopes.items():
            m = mx if tier == "quick" else mx * 8
            jobs.append((f"scope-{sc}", ["explore", "--scopes", sc, "--max", str(m)]))
        for g in gens:
            jobs.append((f"generated-{g}", ["generated", g, tier]))
        return jobs
    return dict(traces=traces, models=models, deep=list(deep), facets=facets)


PLAN = {
    "C01": plan(dict(volume=1, core=2, extreme=2, dust=2, prices=1, fees=1, batch=1), {"round": 8000}, ["book", "fees", "symmoney"],
                "coverage of debts, surplus never lowered, contract balance after every message",
                gens=["book", "fees"]),
    "C02": plan(dict(volume=1, queue=3, zigzag=3, sides=2), {"queue": 60000}, ["queue", "tree", "symqueue", "symtree"],
                "filled amounts and queue positions of every order, oldest-first invariant", gens=["queue"]),
    "C03": plan(dict(wide=1, sides=2, targets=4, core=2, extreme=1, prices=1), {"sides": 30000, "round": 8000}, ["book"],
                "ticks skipped, crossed out of order, beyond the target, own side taken, partial exchange",
                gens=["book", "cross"]),
    "C04": plan(dict(prices=3, extreme=4, dust=3, grid=2), {"round": 8000}, ["book", "symmoney"],
                "volume and charge per tick, proceeds of claims, extreme prices",
                gens=["cross"]),
    "C05": plan(dict(volume=1, wide=1, core=2, targets=4, bad=3, extreme=1, fault=1), {"round": 8000, "sides": 15000}, ["book"],
                "acceptance of swaps, output, refund, discarded remainder",
                gens=["book", "cross"], deep=["symmoney"]),
    "C06": plan(dict(volume=1, queue=2, core=2, dust=2, fees=2, batch=1), {"queue": 60000, "round": 8000}, ["queue", "fees"],
                "acceptance of claims, proceeds, remaining size, removal", gens=["queue", "fees"],
                deep=["symqueue", "symmoney"]),
    "C07": plan(dict(fees=4, dust=3, admin=2, bad=2), {"fault": 5000}, ["fees"],
                "split of proceeds, rate limits",
                gens=["fees"]),
    "C08": plan(dict(tall=1, queue=3, zigzag=2, bad=2, sides=1, core=1), {"queue": 60000}, ["queue", "book"],
                "acceptance of cancels, refund, liquidity removed", gens=["queue", "book"], deep=["symqueue"]),
    "C09": plan(dict(wide=1, batch=5, core=1, fault=2), {"batch": 20000}, ["fees"],
                "batch against the specification and against single claims on the implementation",
                gens=["fees"]),
    "C10": plan(dict(wide=1, core=2, bad=4, listing=1, extreme=2, grid=2, create=1), {"sides": 8000}, ["book", "list"],
                "acceptance of placements, recorded order, identifier, queue position, best prices",
                gens=["book"]),
    "C11": plan(dict(volume=1, core=2, sides=2, queue=2, zigzag=1, listing=1, extreme=2), {"sides": 25000}, ["queue", "book", "symqueue"],
                "liquidity, cumulative and swapped totals, reported liquidity, best-tick pointers", gens=["queue", "book", "cross"]),
    "C12": plan(dict(core=3, targets=2, extreme=2, prices=2, bad=2, dust=1, create=1), {"sides": 20000}, ["book"],
                "quotes against executed swaps and the specification, spot prices",
                gens=["book", "cross"]),
    "C13": plan(dict(wide=1, listing=3, core=2, queue=1, sides=1), {}, ["list"],
                "listings by owner, tick, id, bounds, limits, pages, counts",
                gens=["book"]),
    "C14": plan(dict(roles=4, admin=3, pause=1), {"roles": 10000}, ["roles"],
                "role holders, offers, fee and recipient after every message, authority",
                gens=["roles"]),
    "C15": plan(dict(pause=4, roles=2), {"pause": 40000}, ["pause", "roles"],
                "rejection while paused, switch authority, state kept",
                gens=["pause", "roles"]),
    "C16": plan(dict(fault=6), {"fault": 5000}, ["fees"],
                "messages with undeliverable payments, rejected messages without trace",
                gens=["fees"]),
    "C17": plan(dict(grid=6, prices=1, extreme=2, bad=2), {}, ["grid"],
                "prices of the grid, rejection outside the range"),
    "C18": plan(dict(tall=1, wide=1, ladder=1, deep=0.5, zigzag=3, listing=1, queue=2), {"queue6": 20000}, ["tree", "symtree"],
                "storage accesses per message, shape and content of stored trees", gens=["queue"]),
    "C19": plan(dict(core=2, fees=2, batch=3, admin=2, fault=1, targets=1), {"batch": 8000}, ["fees"],
                "attributes, events, return data",
                gens=["book", "fees"]),
    "C20": plan(dict(sides=3, queue=2, admin=2, migrate=1, batch=1), {"sides": 25000, "roles": 3000}, ["book", "roles"],
                "everything a message is not about",
                gens=["book", "roles", "pause"]),
    "C21": plan(dict(create=1, migrate=5, core=1, legacy=2), {"pause": 6000}, ["pause"],
                "creation, initial state, pair, migration",
                gens=["pause"]),
    "C22": plan(dict(queue=3, zigzag=3, sides=2), {"queue": 60000}, ["queue", "tree", "symqueue", "symtree"],
                "published positions and unrealized cancels against filled amounts", gens=["queue"]),
    "C23": plan(dict(exit=3, tall=1, volume=1, dust=1, queue=1), {"round": 8000}, ["book", "fees", "pause", "symqueue"],
                "owners leaving the book in several orders, their claims and cancels refused, what is left behind",
                gens=["queue"]),
    "C24": plan(dict(split=6), {"round": 8000}, ["book", "symmoney"],
                "market orders in pieces against the same order in one go on the same book"),
}
