"""C10: threads querying, mutating results, building models, iterating and inserting on one database under a seeded scheduler, against a plain dictionary."""

from __future__ import annotations

import copy
from uuid import UUID

from .. import sched

RUNS = {"quick": 8000, "thorough": 80000}
RULE = (
    "1 to 3 actors (threads, preempted at seeded lines or byte-codes of the library) run seeded programs on one database: query by name "
    "(any case) or id, list, iterate (nested, with inserts and mutations inside), resolve inheritance, construct models by name / id / "
    "with overrides / by inheritance, insert models and raw entries (new, replacing, inheriting, cyclic, UUID ids), and scramble every "
    "returned value in place. Every result is compared with a plain dictionary of the entries, concurrent ones with what any "
    "linear order of the overlapping inserts allows."
)
REAL = ["testbed_client.fixtures.Fixture / Fixtures, FixturesClient, data-models of content and testbed (pydantic validators)", "real threads"]
STUB = ["thread scheduling (trace-hook baton, one thread at a time)", "locks of the library, if any, give way to the scheduler"]
SHRINK = ["actors.0", "actors.1", "actors.2", "pre"]
STATE_MEASURE = "hash of (operation, overlapped an insert?, preemption site, outcome class)"
MUST_HIT = ["preempted", "nested_iteration", "query_overlaps_insert", "scrambled", "cycle_refused", "unknown_refused", "uuid_id", "two_new_types_at_once", "inherited", "completed", "completion_refused"]

TYPES = ["VirtualSourceConfig", "Firmware", "Thing", "Other"]
MODELS = ["VirtualSourceConfig", "VirtualHarvesterConfig", "EnergyEnvironment", "Target", "Observer", "Testbed", "MCU", "GPIO", "Cape", "Firmware"]
NAMES = ["aa", "bb", "cc", "DD", "Ee"]
DIGITS = ["4", "6"]  # names that look like an ID
EDGES = [None, 0, "", False, [], {}, 1.5, "text"]  # values an entry or caller may set on purpose



def warm() -> None:
    sched.patch_locks()
    import shepherd_core.data_models  # noqa: F401
    from shepherd_core.data_models import task, testbed  # noqa: F401
    from shepherd_core.data_models.experiment import Experiment  # noqa: F401


def gop(rng, depth=0):
    t = rng.choice(["Thing", "Thing", "Thing", "Other", "VirtualSourceConfig"])
    nm = rng.choice(NAMES + DIGITS)
    r = rng.random()
    if r < 0.20:
        return ["name", {"t": t, "n": rng.choice([nm, nm.upper(), nm.lower(), nm.title(), "nope", "BQ25504"]), "via": rng.choice(["client", "fx", "item"])}]
    if r < 0.32:
        return ["id", {"t": t, "i": rng.choice([1, 2, 3, 4, 5, 6, 777, 1011, "u1", "u2"]), "via": rng.choice(["client", "fx", "item"])}]
    if r < 0.38:
        return ["list", {"t": t, "what": rng.choice(["names", "ids", "refs", "keys"])}]
    if r < 0.66:
        if rng.random() < 0.15:
            return ["insert_model", {"n": f"fw {nm}", "i": rng.choice(["u1", "u2", 4001, 4002]), "v": rng.randrange(1 << 16)}]
        return ["insert", {"t": rng.choice(["Thing", "Thing", "Thing", "Other", "Fresh", "thing"]), "n": nm, "i": rng.choice([1, 2, 3, 4, 5, 6, "u1"]), "v": rng.randrange(1 << 16), "inh": rng.choice([None, None, *NAMES, "ghost"])}]
    if r < 0.78 and depth < 2:
        return ["iter", {"t": rng.choice(["Thing", "Other", "Cape", "MCU"]), "in": [gop(rng, depth + 1) for _ in range(rng.randrange(0, 2))], "at": rng.randrange(4), "nest": rng.random() < 0.5, "stop": rng.choice([None, None, None, 1, 2])}]
    if r < 0.90:
        if rng.random() < 0.25:
            return ["complete", {"t": rng.choice(["Thing", "Thing", "VirtualSourceConfig"]), "n": rng.choice([nm, nm.upper(), "ghost", "BQ25504s"]) if rng.random() < 0.6 else None, "i": rng.choice([1, 2, 3, 4, 99, 1011, "u1"])}]
        return ["inherit", {"t": "Thing", "n": rng.choice([None, nm, nm.upper(), "new one"]), "i": rng.choice([None, None, 1, 2, 3, 99]), "inh": rng.choice([None, *NAMES, "ghost", "AA"]), "v": rng.randrange(1 << 16)}]
    return ["model", {"m": rng.choice(MODELS), "k": rng.randrange(50), "how": rng.choice(["name", "id", "over", "inherit", "dump"])}]


def gen(rng, tier, i):
    n = rng.choice([1, 2, 2, 3])
    return {
        "actors": {str(k): [gop(rng) for _ in range(rng.randrange(2, 10))] for k in range(n)},
        "seeded": [gop_insert(rng) for _ in range(rng.randrange(0, 6))],
        "pre": [] if n == 1 else [[int(rng.choice([2, 6, 15, 40, 300]) * rng.random()), rng.randrange(3)] for _ in range(rng.randrange(1, 25))],
        "opcodes": rng.random() < 0.4,
    }


def gop_insert(rng):
    return ["insert", {"t": "Thing", "n": rng.choice(NAMES + DIGITS), "i": rng.choice([1, 2, 3, 4, 5, 6]), "v": rng.randrange(1 << 16), "inh": rng.choice([None, None, None, *NAMES])}]


def uid(x):
    return UUID(int=(7 << 100 | 4 << 76 | 8 << 60 | (1 if x == "u1" else 2))) if isinstance(x, str) else x


def params(a):
    d = {"id": uid(a["i"]), "name": a["n"], "value": a["v"], "lst": [a["v"], {"x": [1, 2, a["v"]]}], "dct": {"k": {"z": a["v"]}}}
    if a["v"] % 3 == 0:
        d[f"only{a['v'] % 5}"] = a["v"]
    if a["v"] % 2:
        d[f"opt{a['v'] // 3 % 3}"] = copy.deepcopy(EDGES[a["v"] // 9 % len(EDGES)])
    if a.get("inh"):
        d["inherit_from"] = a["inh"]
    return d


def scramble(x):
    """What a careless caller does to a value it was given."""
    if isinstance(x, dict):
        for v in list(x.values()):
            scramble(v)
        for k in list(x)[::2]:
            x[k] = "scrambled"
        if len(x) > 1:
            x.pop(list(x)[-1])
        x["added"] = 1
    elif isinstance(x, list):
        for v in x:
            scramble(v)
        x.append("scrambled")
        x[0] = "scrambled"


class Model:
    """A plain dictionary with the history of its inserts in logical time."""

    def __init__(self):
        self.h = {}  # (type, 'n'|'i', key) -> [(begin, end|None, value)]

    def begin(self, t, par, now):
        e = [now, None, copy.deepcopy(par)]
        t = t.lower()
        self.h.setdefault((t, "n", str(par["name"]).lower()), []).append(e)
        self.h.setdefault((t, "i", par["id"]), []).append(e)
        return e

    def candidates(self, t, kind, key, a, b):
        """Values a query running from a to b may return (None: not there)."""
        es = self.h.get((t.lower(), kind, key), [])
        out = []
        done = [e for e in es if e[1] is not None and e[1] < a]
        for e in es:
            if e[0] > b:
                continue
            if any(d[0] > (e[1] if e[1] is not None else 1 << 60) for d in done):
                continue  # replaced before the query began
            out.append(e[2])
        if not done:
            out.append(None)
        return out, any(e[1] is None or e[1] >= a for e in es if e[0] <= b)

    def now(self):
        """Current content when nothing overlaps."""
        out = {}
        for (t, kind, key), es in self.h.items():
            out.setdefault(t, {"n": {}, "i": {}})[kind][key] = es[-1][2]
        return out


class Refused(Exception):
    pass


def resolve(db, values, seen=()):
    values = dict(values)
    if "inherit_from" in values:
        base = values.pop("inherit_from")
        me = [str(values["name"]).lower()] if "name" in values and not seen else []
        seen = (*seen, *me)
        if str(base).lower() in seen:
            raise Refused
        b = db["n"].get(str(base).lower())
        if b is None:
            raise Refused
        b = {**copy.deepcopy(b), "name": base}
        out = resolve(db, b, (*seen, str(base).lower()))
        out.update(values)
        return out
    if values.get("name") is not None and str(values["name"]).lower() in db["n"]:
        b = copy.deepcopy(db["n"][str(values["name"]).lower()])
    elif values.get("id") in db["i"]:
        b = copy.deepcopy(db["i"][values["id"]])
    else:
        return values
    b.update(values)
    if "inherit_from" in b and not seen:
        return resolve(db, b, (str(b["name"]).lower(),))
    if "inherit_from" in b:
        return resolve(db, b, seen)
    return b


def override_by_default(ctx, cls, x, ent, k):
    """A value given by the caller counts, also when it's the one the class would use without any entry."""
    fs = [f for f, i in cls.model_fields.items() if f.startswith(("C_", "V_", "R_", "I_", "interval_", "enable_")) and isinstance(i.default, (int, float)) and getattr(x, f) != i.default]
    if not fs:
        return
    f = fs[k % len(fs)]
    v = cls.model_fields[f].default
    try:
        y = cls(name=ent["name"], **{f: v})
    except ValueError:
        return
    ctx.probe("override_by_class_default")
    ctx.check(getattr(y, f) == v, "override-lost", lambda: f"{cls.__name__}(name={ent['name']}, {f}={v}): {getattr(y, f)}")


def run(sc, ctx):
    import shepherd_core.testbed_client.fixtures as m
    from shepherd_core.data_models import content, testbed
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client import tb_client

    fixtures = m.Fixtures() if not hasattr(tb_client, "_fixtures") else tb_client._fixtures
    model = Model()
    for t in list(fixtures.keys()):
        for e in list(fixtures[t]):
            en = model.begin(t, e, -2)
            en[1] = -1
    for t in list(fixtures.keys()):  # ids that occur twice: the later entry counts
        for i in tb_client.query_ids(t):
            es = model.h[(t, "i", i)]
            es[:] = es[-1:]
    classes = {k: getattr(content, k, None) or getattr(testbed, k, None) for k in MODELS}
    single = len(sc["actors"]) == 1
    s = sched.Sched(sc["pre"], opcodes=sc["opcodes"])
    dumps: dict = {}

    def note(kind, lap, out):
        ctx.state(kind, lap, s.trace[-1] if s.trace else "", out)

    def do(op, a, who):
        t0 = s.now()
        if op in ("name", "id"):
            kind = "n" if op == "name" else "i"
            key = a["n"] if kind == "n" else uid(a["i"])
            try:
                if a["via"] == "item":
                    got = tb_client.query_item(a["t"], **({"name": key} if kind == "n" else {"uid": key}))
                elif a["via"] == "client":
                    got = fixtures[a["t"]].query_name(key) if kind == "n" else fixtures[a["t"]].query_id(key)
                else:
                    got = fixtures[a["t"].upper()][key]
            except ValueError:
                got = None
            t1 = s.now()
            cand, lap = model.candidates(a["t"], kind, key.lower() if kind == "n" else key, t0, t1)
            if kind == "n" and key.isdigit() and a["via"] == "fx" and None in cand:  # then an ID is meant
                cand.remove(None)
                more, lap2 = model.candidates(a["t"], "i", int(key), t0, t1)
                cand, lap = cand + more, lap or lap2
                ctx.probe("name_or_id")
            if lap:
                ctx.probe("query_overlaps_insert")
            if isinstance(key, UUID) and got is not None:
                ctx.probe("uuid_id")
            if got is None:
                ctx.probe("unknown_refused")
            if not any(got == c for c in cand):
                ctx.check(False, "query-differs", f"{who} {op} {a}: got {str(got)[:300]}, dictionary has {str(cand)[:300]}")
            note(op, lap, got is None)
            if got is not None:
                scramble(got)
                ctx.probe("scrambled")
            ctx.ev(who, op, key, got is not None)
        elif op == "list":
            try:
                if a["what"] == "names":
                    got = tb_client.query_names(a["t"])
                elif a["what"] == "ids":
                    got = tb_client.query_ids(a["t"])
                elif a["what"] == "keys":
                    got = list(fixtures[a["t"]].keys())
                else:
                    got = list(fixtures[a["t"]].refs())
            except ValueError:
                got = []
            t1 = s.now()
            kind = "n" if a["what"] in ("names", "keys") else "i"
            must, may = set(), set()
            for (t, k, key), es in model.h.items():
                if t == a["t"].lower() and k == kind:
                    if any(e[1] is not None and e[1] < t0 for e in es):
                        must.add(key)
                    if any(e[0] <= t1 for e in es):
                        may.add(key)
            ctx.check(must <= set(got) <= may and len(got) == len(set(got)), "listing-differs", f"{who} {a}: {got} but must {must} may {may}")
            got.append("scrambled")
            ctx.ev(who, op, a["what"], len(got))
        elif op in ("insert", "insert_model"):
            if op == "insert_model":
                from shepherd_core.data_models.content import Firmware

                fw = Firmware(id=uid(a["i"]), name=a["n"], data="/some/where.elf", data_type="path_elf", mcu={"name": "nrf52"}, description=f"d{a['v']}")
                par = fw.model_dump()
                e = model.begin("Firmware", par, s.now())
                ok = tb_client.insert(fw)
                ctx.check(ok is True, "insert-not-confirmed", ok)
            else:
                par = params(a)
                if a["t"] == "Fresh" and not single:
                    ctx.probe("two_new_types_at_once", 1 if not any(k[0] == "fresh" for k in model.h) or any(e[1] is None for k, es in model.h.items() if k[0] == "fresh" for e in es) else 0)
                e = model.begin(a["t"], par, s.now())
                w = Wrapper(datatype=a["t"], parameters=par)
                fixtures.insert_model(w)
                scramble(par)  # the caller goes on using its own dictionary
                scramble(w.parameters)
            e[1] = s.now()
            ctx.ev(who, op, a["n"], a["i"])
        elif op == "iter":
            try:
                it = iter(fixtures[a["t"]])
            except ValueError:
                ctx.check(not any(k[0] == a["t"].lower() and any(e[1] is not None and e[1] < t0 for e in es) for k, es in model.h.items()), "query-differs", f"iteration refused {a['t']}")
                return
            t1 = s.now()
            seen = []
            for k, x in enumerate(it):
                nm = str(x["name"]).lower()
                seen.append(nm)
                cand, _ = model.candidates(a["t"], "n", nm, t0, s.now())
                ctx.check(any(x == c for c in cand), "iteration-yields-foreign", f"{who} {a['t']}: {str(x)[:200]} not in {str(cand)[:200]}")
                scramble(x)
                if k == a["at"]:
                    if a["nest"]:
                        ctx.probe("nested_iteration")
                        inner = [str(y["name"]).lower() for y in fixtures[a["t"]]]
                        ctx.check(len(inner) == len(set(inner)), "iteration-repeats", inner)
                    for o2, a2 in a["in"]:
                        do(o2, a2, who)
                if a["stop"] is not None and k + 1 >= a["stop"]:
                    return
            must, may = set(), set()
            for (t, k, key), es in model.h.items():
                if t == a["t"].lower() and k == "n":
                    if any(e[1] is not None and e[1] < t0 for e in es):
                        must.add(key)
                    if any(e[0] <= s.now() for e in es):
                        may.add(key)
            ctx.check(len(seen) == len(set(seen)), "iteration-repeats", f"{who} {a['t']}: {seen}")
            ctx.check(must <= set(seen), "iteration-misses", f"{who} {a['t']}: {sorted(must - set(seen))} not visited (visited {seen})")
            ctx.check(set(seen) <= may, "iteration-yields-foreign", f"{sorted(set(seen) - may)}")
            note(op, t1 - t0, len(seen))
            ctx.ev(who, op, a["t"], len(seen))
        elif op == "inherit":
            v = {"value": a["v"]} if a["v"] % 2 else {"dct": {"mine": a["v"]}}
            for k, q in (("n", "name"), ("i", "id"), ("inh", "inherit_from")):
                if a[k] is not None:
                    v[q] = a[k]
            if a["v"] % 5 < 3:
                v[f"opt{a['v'] // 7 % 3}"] = copy.deepcopy(EDGES[a["v"] // 21 % len(EDGES)])
            given = copy.deepcopy(v)
            try:
                got, chain = tb_client.try_inheritance(a["t"], v)
            except ValueError:
                got = None
            ctx.check(v == given, "caller-values-changed", f"{given} -> {v}")
            if single:  # with concurrent inserts the base may change midway
                db = model.now().get(a["t"].lower())
                if db is None:
                    ctx.check(got is None, "inheritance-differs", a)
                    return
                try:
                    want = resolve(db, given)
                except Refused:
                    want = None
                    ctx.probe("cycle_refused")
                ctx.check(got == want, "inheritance-differs", lambda: f"{given}: got {str(got)[:300]}, expected {str(want)[:300]}")
                if want is not None and a["inh"]:
                    ctx.probe("inherited")
            if got is not None:
                scramble(got)
            ctx.ev(who, op, a["n"], a["inh"], got is not None)
        elif op == "complete":  # a single name or id: existing entry or refusal
            v = {"name": a["n"]} if a["n"] is not None else {"id": uid(a["i"])}
            given = copy.deepcopy(v)
            try:
                got, _ = tb_client.try_completing_model(a["t"], v)
            except ValueError:
                got = None
            ctx.check(v == given, "caller-values-changed", f"{given} -> {v}")
            if single:
                db = model.now().get(a["t"].lower(), {"n": {}, "i": {}})
                base = db["n"].get(a["n"].lower()) if a["n"] is not None else db["i"].get(uid(a["i"]))
                try:
                    want = resolve(db, copy.deepcopy(base)) if base is not None else None
                except Refused:
                    want = None
                ctx.check(got == want, "completion-differs", lambda: f"{given}: got {str(got)[:300]}, expected {str(want)[:300]}")
                ctx.probe("completed" if want is not None else "completion_refused")
            if got is not None:
                scramble(got)
            ctx.ev(who, op, a["n"], a["i"], got is not None)
        elif op == "model":
            cls = classes[a["m"]]
            t = a["m"].lower()
            ids = sorted(k[2] for k, es in model.h.items() if k[0] == t and k[1] == "i" and isinstance(k[2], int) and k[2] < 4000 or (k[0] == t and t != "firmware" and k[1] == "i" and isinstance(k[2], int)))
            if not ids:
                return
            i = ids[a["k"] % len(ids)]
            ent = model.h[(t, "i", i)][-1][2]
            key = (a["m"], i if a["how"] == "id" else str(ent["name"]).lower(), a["how"])
            try:
                if a["how"] == "id":
                    x = cls(id=i)
                elif a["how"] in ("name", "dump"):
                    x = cls(name=ent["name"])
                    if a["how"] == "dump":
                        y = cls(**x.model_dump())
                        ctx.check(y == x, "model-of-dump-differs", key)
                elif a["how"] == "over":
                    x = cls(name=ent["name"], comment="mine")
                    ctx.check(x.comment == "mine", "override-lost", key)
                    if cls.__name__ in ("VirtualSourceConfig", "VirtualHarvesterConfig"):
                        override_by_default(ctx, cls, x, ent, a["k"])
                else:
                    x = cls(name="heir", id=9, inherit_from=ent["name"])
                    ctx.check(x.name == "heir" and x.id == 9, "override-lost", key)
            except ValueError:
                x = None
            d = None if x is None else x.model_dump(exclude={"created", "updated_last"})
            if key in dumps:
                ctx.check(dumps[key] == d, "model-differs-later", lambda: f"{key}: {str(dumps[key])[:300]} then {str(d)[:300]}")
            dumps[key] = copy.deepcopy(d)
            if x is not None and a["how"] in ("id", "name"):
                for f, v in ent.items():
                    if f in d and isinstance(v, (int, float, str)) and not isinstance(v, bool) and isinstance(d[f], (int, float, str)) and f not in ("current_limit_uA", "voltage_step_mV"):
                        ctx.check(str(d[f]) == str(v) or d[f] == v, "model-differs-from-entry", f"{key}.{f}: {d[f]} instead of {v}")
            if x is not None:
                scramble(x.model_dump())
                for f in type(x).model_fields:
                    v = getattr(x, f)
                    if isinstance(v, (list, dict)):
                        scramble(v)
            ctx.ev(who, op, *key, x is not None)

    def actor(k, prog):
        def body():
            for op, a in prog:
                do(op, a, f"t{k}")
        return body

    for op, a in sc["seeded"]:
        do(op, a, "setup")
    out = s.run({f"t{k}": actor(k, p) for k, p in sc["actors"].items()})
    if s.switches:
        ctx.probe("preempted")
        ctx.fault("preemption", s.switches)
    ctx.steps += s.points
    ctx.ev(*s.trace[:40])
    ctx.check(not s.deadlock, "deadlock", s.trace[-10:])
    for n, r in out.items():
        if r[0] == "exc":
            raise r[1]
    # afterwards everything reads as the dictionary says
    fin = model.now()
    t_end = s.now()
    for (t, kind, key) in sorted(model.h, key=repr):
        cand, _ = model.candidates(t, kind, key, t_end, t_end)
        f = fixtures[t]
        try:
            got = f.query_name(key) if kind == "n" else f.query_id(key)
        except ValueError:
            got = None
        ctx.check(any(got == c for c in cand), "entry-lost-or-changed", lambda: f"{t} {key}: {str(got)[:300]} instead of {str(cand)[:300]}")
    for t in fin:
        seen = [str(x["name"]).lower() for x in fixtures[t]]
        ctx.check(sorted(seen) == sorted(fin[t]["n"]), "iteration-misses", f"{t}: {seen}")
    # preempted threads race for new types
    del m
