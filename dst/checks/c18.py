"""C18: web clients and a simulated testbed server on a simulated network with loss, delay, duplication, errors, redirects and foreign answers."""

from __future__ import annotations

import io
import json
from urllib.parse import parse_qs, urlsplit

RUNS = {"quick": 8000, "thorough": 100000}
RULE = (
    "seeded histories of connecting (server and token given as text, file or not at all; token with any characters), inserting models, using the library and connecting a second "
    "client in the middle of an exchange; each HTTP exchange may meet refusal, lost request, lost or late response, duplicated request, error status, redirect (keeping or changing "
    "the method), captive portal, truncated, undecodable or foreign body, missing fields; partitions that heal, server restart. Requests as seen by the server model, return "
    "values and the library's global client are compared with what was confirmed."
)
REAL = ["WebClient, AbcClient, User, Wrapper, models", "requests sessions, redirects, JSON handling, urllib3 response decoding"]
STUB = ["transport below requests (HTTPAdapter.send) and testbed server", "clock (delays advance simulated time)"]
SHRINK = ["ops"]
STATE_MEASURE = "hash of (operation, exchange, fault kind, token form, server form, outcome, client before)"
MUST_HIT = ["connected", "connect_failed", "inserted", "insert_failed", "token_text", "token_file", "token_special", "default_token", "nested_connect", "healed", "redirect_lost_method", "second_exchange_failed", "other_server"]

KINDS = ["refuse", "lost_request", "lost_response", "late", "dup", "401", "403", "404", "422", "500", "503", "302", "301", "307", "portal", "truncated", "html", "list", "no_fields", "null", "empty", "gzip_broken", "latin"]
BASES = {"default": "http://127.0.0.1:8000/shepherd", "a": "http://Testbed.local:8000/Shepherd", "b": "https://other.host/api/v1", "ghost": "http://nowhere.invalid/shepherd"}
TOKENS = ["shepherd_token_abcDEF-_123", "a b+c/d=e&f#g%41", "äöü token", "x" * 300, "UPPER lower", "a=b;c?d"]
MODELS = ["vsrc", "vhrv", "eenv", "fw", "xp", "gpio"]


def warm():
    import requests  # noqa: F401
    import shepherd_core  # noqa: F401
    from shepherd_core.data_models.experiment import Experiment  # noqa: F401


def gop(rng, depth=0):
    r = rng.random()
    faults = [rng.choice([None, None, None, rng.choice(KINDS)]) for _ in range(3)] if rng.random() < 0.7 else []
    if r < 0.55:
        op = ["connect", {"server": rng.choice([None, "a", "a", "b", "ghost"]), "token": rng.choice([None, "text", "text", "file", "file", "file_nl", "file_ws", "missing", "wrong"]), "tk": rng.randrange(len(TOKENS)), "faults": faults}]
        if depth == 0 and rng.random() < 0.2:
            op[1]["nested"] = [rng.randrange(2), gop(rng, 1)[1] if rng.random() < 0.1 else {"server": "b", "token": "text", "tk": 0, "faults": []}]
        return op
    if r < 0.9:
        return ["insert", {"m": rng.choice(MODELS), "k": rng.randrange(1000), "faults": faults, "who": rng.randrange(3)}]
    return rng.choice([["heal", {}], ["partition", {"server": rng.choice(["a", "b", "default"])}], ["restart", {"server": rng.choice(["a", "b"])}]])


def gen(rng, tier, i):
    ops = []
    for _ in range(rng.randrange(1, 10)):
        ops.append(gop(rng))
        if ops[-1][0] == "insert" and rng.random() < 0.5:  # tried again, as after a failure
            ops.append(["insert", {**ops[-1][1], "faults": rng.choice([[], [rng.choice(KINDS)]])}])
    return {"ops": ops}


class Server:
    """The testbed server: issues keys, knows users by token, stores models."""

    def __init__(self, name):
        self.name = name
        self.n = 0
        self.db = []  # stored wrappers, in order
        self.log = []  # (method, path, token, body)

    def handle(self, method, path, query, body):
        self.log.append((method, path, query, body))
        if path == "/session_key" and method == "GET":
            self.n += 1
            return 200, json.dumps({"value": f"key-{self.name}-{self.n}"}).encode()
        if path == "/user" and method == "GET":
            t = parse_qs(query, keep_blank_values=True).get("token", [""])[0]
            if t == "basic_public_access":
                u = {"id": 7, "name": "public", "group": "everyone", "email": "pub@testbed.org"}
            elif t in TOKENS:
                u = {"id": 100 + TOKENS.index(t), "name": f"user {TOKENS.index(t)}", "group": f"grp {self.name}", "email": f"u{TOKENS.index(t)}@testbed.org", "token": "tok_" + "z" * 10, "active": True}
            else:
                return 401, b'{"detail": "unknown token"}'
            return 200, json.dumps(u).encode()
        if path == "/add" and method == "POST":
            try:
                w = json.loads(body)
                assert set(w) >= {"datatype", "parameters"}
            except (ValueError, AssertionError, TypeError):
                return 422, b"{}"
            self.db.append(w)
            return 200, b'{"ok": true}'
        return 404, b"{}"


class Net:
    def __init__(self, ctx):
        self.ctx = ctx
        self.servers = {}
        self.faults = []
        self.cut = set()
        self.now = 0.0
        self.exchanges = []  # (base name, path, method, fault, confirmed)
        self.hook = None
        for k, b in BASES.items():
            if k != "ghost":
                self.servers[k] = Server(k)

    def send(self, adapter, request, stream=False, timeout=None, verify=True, cert=None, proxies=None):
        import requests
        import urllib3

        n = len(self.exchanges)
        if self.hook:
            self.hook(n)
        self.ctx.steps += 1
        lim = timeout[1] if isinstance(timeout, tuple) else timeout
        self.ctx.check(lim is not None and 0 < float(lim) <= 3600, "request-unbounded", f"{request.method} {request.url}: timeout={timeout}")
        u = urlsplit(request.url)
        name = path = None
        for k, b in BASES.items():
            bu = urlsplit(b)
            if u.scheme == bu.scheme and u.netloc.lower() == bu.netloc.lower() and u.path.startswith(bu.path + "/") and k != "ghost":
                name, path = k, u.path[len(bu.path) :]
        f = self.faults.pop(0) if self.faults else None
        body = request.body if request.body is not None else b""
        if isinstance(body, str):
            body = body.encode()
        e = {"name": name, "path": path, "method": request.method, "fault": f, "confirmed": False, "body": body}
        self.exchanges.append(e)
        if f:
            self.ctx.fault("net_" + f)

        def resp(status, data, headers=None, url=None):
            r = requests.Response()
            r.status_code = status
            h = urllib3.response.HTTPHeaderDict({"Content-Type": "application/json", **(headers or {})})
            if "Content-Length" not in h and status != 204:
                h["Content-Length"] = str(len(data))
            r.raw = urllib3.HTTPResponse(body=io.BytesIO(data), status=status, headers=h, preload_content=False, enforce_content_length=True, request_method=request.method)
            r.headers = requests.structures.CaseInsensitiveDict(h)
            r.url, r.request, r.reason, r.connection = request.url, request, "x", adapter
            r.encoding = requests.utils.get_encoding_from_headers(r.headers)
            if not stream:
                r.content  # noqa: B018
            return r

        if u.netloc == "portal.lan":
            e["portal"] = True
            return resp(200, b"<html>please log in</html>", {"Content-Type": "text/html"})
        if name is None or name in self.cut or f == "refuse":
            if name is None and u.netloc.lower() in {urlsplit(b).netloc.lower() for k, b in BASES.items() if k != "ghost"}:
                return resp(404, b"{}")
            self.now += 0.01
            raise requests.exceptions.ConnectionError("refused", request=request)
        srv = self.servers[name]
        if f == "lost_request":
            self.now += float(lim)
            raise requests.exceptions.ReadTimeout("timeout", request=request)
        if f == "portal":
            return resp(302, b"", {"Location": "http://portal.lan/login"})
        if f in ("301", "302"):
            return resp(int(f), b"", {"Location": "http://portal.lan/login"})
        if f == "307":
            return resp(307, b"", {"Location": request.url})
        if f in ("401", "403", "404", "422", "500", "503"):
            return resp(int(f), b'{"detail": "no", "value": "not-a-key"}')
        st, data = srv.handle(request.method, path, u.query, body)
        if f == "dup":
            st, data = srv.handle(request.method, path, u.query, body)
        if f == "lost_response" or (f == "late" and lim < 30):
            self.now += float(lim)
            raise requests.exceptions.ReadTimeout("timeout", request=request)
        self.now += 0.02
        if st == 200 and path != "/add":
            data = {"html": b"<html>hello</html>", "list": b'["value"]', "no_fields": b"{}", "null": b"null" if path == "/user" else b'{"value": null}', "empty": b"", "latin": b"\xff\xfe{"}.get(f, data)
        if f == "truncated":
            e["broken"] = True
            return resp(st, data[: len(data) // 2], {"Content-Length": str(len(data))})
        if f == "gzip_broken":
            e["broken"] = True
            return resp(st, b"\x1f\x8b\x08garbage" + data, {"Content-Encoding": "gzip"})
        e["confirmed"] = st == 200 and (path == "/add" or f not in ("html", "list", "no_fields", "null", "empty", "latin"))
        e["answer"] = data
        return resp(st, data)


def model(kind, k):
    from datetime import timedelta

    from shepherd_core.data_models import EnergyEnvironment, Firmware, FirmwareDType, GpioTracing, VirtualHarvesterConfig, VirtualSourceConfig
    from shepherd_core.data_models.experiment import Experiment, TargetConfig

    meta = {"owner": f"own{k}", "group": "grp", "description": f"d {k}"}
    if kind == "vsrc":
        return VirtualSourceConfig(id=k + 1, name=f"src {k}", inherit_from="BQ25504", C_intermediate_uF=k * 0.5, **meta)
    if kind == "vhrv":
        return VirtualHarvesterConfig(id=k + 1, name=f"hrv {k}", inherit_from="mppt_opt", interval_ms=1 + k / 7, **meta)
    if kind == "eenv":
        return EnergyEnvironment(id=k + 1, name=f"env {k}", data_path=f"/data/{k}.h5", data_type="ivcurve", duration=k + 1, energy_Ws=(k + 1) / 3, **meta)
    if kind == "fw":
        return Firmware(id=k + 1, name=f"fw {k}", mcu={"name": "nRF52"}, data="aGVsbG8=" if False else f"/fw/{k}.hex", data_type=FirmwareDType.path_hex, data_local=False, **meta)
    if kind == "gpio":
        return GpioTracing(duration=timedelta(seconds=k), delay=timedelta(milliseconds=k * 3))
    return Experiment(id=k + 1, name=f"xp {k}", duration=timedelta(seconds=k + 1), target_configs=[TargetConfig(target_IDs=[1, 2], energy_env={"name": "SolarSunny"}, firmware1={"name": "nrf52_demo_rf"})], **{"comment": "c", "owner": "o"} if False else {"comment": "c"})


def run(sc, ctx):
    import requests.adapters
    from shepherd_core import WebClient
    from shepherd_core.data_models import VirtualSourceConfig
    from shepherd_core.data_models.base.wrapper import Wrapper
    from shepherd_core.testbed_client import client_abc_fix

    net = Net(ctx)
    requests.adapters.HTTPAdapter.send = lambda a, *b, **c: net.send(a, *b, **c)
    clients = []
    probe_ref = VirtualSourceConfig(name="BQ25504").model_dump()

    def token_arg(o):
        k = TOKENS[o["tk"]]
        t = o["token"]
        if t is None:
            return None, "basic_public_access"
        if t == "text":
            return k, k
        if t == "wrong":
            return "not-a-user", "not-a-user"
        p = ctx.scratch / f"tok{o['tk']}{t}"
        if t != "missing":
            p.write_text({"file_nl": k + "\n", "file_ws": "\n  " + k + " \r\n\n"}.get(t, k))
        return p, k

    def works(why):
        d = VirtualSourceConfig(name="BQ25504").model_dump()
        ctx.check(d == probe_ref, "library-stopped-working", why)

    def connect(o, why, depth=0):
        arg, want = token_arg(o)
        base = BASES[o["server"] or "default"]
        name = o["server"] or "default"
        before = client_abc_fix.tb_client
        n0 = len(net.exchanges)
        old_faults, net.faults = net.faults, list(o["faults"])
        ctx.probe("token_text", int(o["token"] == "text"))
        ctx.probe("token_file", int(o["token"] in ("file", "file_nl", "file_ws")))
        ctx.probe("token_special", int(o["token"] in ("text", "file") and o["tk"] in (1, 2, 5)))
        ctx.probe("default_token", int(o["token"] is None))
        inner = []
        if depth == 0 and o.get("nested"):
            at, sub = o["nested"]

            def hook(n):
                if n - n0 == at and not inner:
                    inner.append(1)
                    net.hook = None
                    ctx.probe("nested_connect")
                    ctx.fault("concurrent_connect")
                    save = client_abc_fix.tb_client
                    c = connect({**sub, "nested": None}, why + " (nested)", 1)
                    inner.append(c if c is not None else save)
                    net.hook = None

            net.hook = hook
        t0 = net.now
        client = err = None
        from ..core import Violation

        try:
            client = WebClient(BASES[o["server"]] if o["server"] else None, arg)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            err = e
        net.hook = None
        net.faults = old_faults
        mine = [e for e in net.exchanges[n0:]]
        if depth == 0 and inner:
            before = inner[1] if len(inner) > 1 else before
            mine = None
        now = client_abc_fix.tb_client
        ctx.state("connect", depth, [f for f in o["faults"]][:2], o["token"], o["server"], type(err).__name__ if err else "ok", type(before).__name__)
        if mine is not None:
            good_key = any(e["confirmed"] and e["path"] == "/session_key" and e["name"] == name for e in mine)
            good_user = any(e["confirmed"] and e["path"] == "/user" and e["name"] == name for e in mine)
        else:
            good_key = good_user = None
        if err is None:
            ctx.probe("connected")
            ctx.probe("other_server", int(name in ("a", "b")))
            ctx.check(client is not None and now is client, "connected-but-not-in-use", why)
            if mine is not None:
                ctx.check(good_key and good_user, "connected-without-confirmation", lambda: f"{why}: {mine}")
                keys = [json.loads(e["answer"])["value"] for e in mine if e["confirmed"] and e["path"] == "/session_key"]
                ctx.check(getattr(client, "_key", keys[-1]) == keys[-1], "wrong-session-key", lambda: f"{why}: {client._key} of {keys}")
                users = [json.loads(e["answer"]) for e in mine if e["confirmed"] and e["path"] == "/user"]
                ctx.check(not hasattr(client, "_user") or client._user is not None and client._user.name == users[-1]["name"] and client._user.group == users[-1]["group"], "wrong-user", lambda: f"{why}: {client._user.name!r} of {users}")
                exp = "public" if want == "basic_public_access" else f"user {TOKENS.index(want)}"
                ctx.check(users[-1]["name"] == exp, "other-token-used", lambda: f"{why}: server saw {users[-1]['name']}, expected {exp} for token {want[:40]!r}")
            if mine is not None:  # models get the user the server named, where the caller gave none
                for part in ({}, {"owner": "me"}, {"group": "us"}, {"owner": None, "group": "us"}, {"owner": "me", "group": "us", "x": 1}):
                    got = client.fill_in_user_data(dict(part))
                    u = users[-1]
                    want_u = {**part, "owner": part.get("owner") or u["name"], "group": part.get("group") or u["group"]}
                    ctx.check(got == want_u, "wrong-user-data", lambda: f"{why}: {part} became {got} with user {u}")
            clients.append((client, name))
        else:
            ctx.probe("connect_failed")
            ctx.check(now is before, "failed-client-in-use", lambda: f"{why}: {type(err).__name__}: {err}; the library uses {now!r} instead of {before!r}")
            ctx.probe("second_exchange_failed", int(mine is not None and bool(good_key) and not good_user))
            if mine is not None and o["token"] not in ("missing", "wrong") and name != "ghost" and name not in net.cut:
                ctx.check(any(e["fault"] or e.get("portal") for e in mine), "connect-fails-without-reason", lambda: f"{why}: {type(err).__name__}: {err}; {[(e['path'], e['method']) for e in mine]} token {want[:40]!r}")
        if o["token"] == "missing":
            ctx.check(isinstance(err, FileNotFoundError) or name in net.cut or name == "ghost" or err is not None, "missing-token-accepted", why)
            ctx.check(err is not None, "missing-token-accepted", why)
        ctx.check(net.now - t0 <= 60, "took-too-long", lambda: f"{why}: {net.now - t0} s")
        works(why)
        ctx.ev("connect", o["server"], o["token"], type(err).__name__ if err else "ok", len(net.exchanges) - n0)
        return client

    def insert(o, why):
        if not clients:
            return
        c, name = clients[o["who"] % len(clients)]
        m = model(o["m"], o["k"])
        n0 = len(net.exchanges)
        net.faults = list(o["faults"])
        err = res = None
        from ..core import Violation

        try:
            res = c.insert(m)
        except Violation:
            raise
        except Exception as e:  # noqa: BLE001
            err = e
        mine = net.exchanges[n0:]
        net.faults = []

        def is_it(e):
            try:
                w = json.loads(e["body"])
            except ValueError:
                return False
            if w.get("datatype") != type(m).__name__:
                return False
            w2 = Wrapper(**w)
            return type(m)(**w2.parameters) == m

        done = [e for e in mine if e["confirmed"] and e["path"] == "/add" and e["method"] == "POST" and e["name"] == name]
        if err is None:
            ctx.check(res is True, "insert-returned-something-else", lambda: f"{why}: {res!r}")
            ctx.check(done, "insert-acknowledged-without-confirmation", lambda: f"{why}: {[(e['method'], e['path'], e['fault'], e['confirmed']) for e in mine]}")
            ctx.check(all(is_it(e) for e in done), "other-model-delivered", lambda: f"{why}: {done[-1]['body'][:300]}")
            ctx.check(any(type(m)(**Wrapper(**w).parameters) == m for w in net.servers[name].db if w["datatype"] == type(m).__name__), "model-not-stored", why)
            ctx.probe("inserted")
        else:
            ctx.probe("insert_failed")
            ctx.check(name in net.cut or any(e["fault"] for e in mine), "insert-fails-without-reason", lambda: f"{why}: {type(err).__name__}: {err}")
        ctx.probe("redirect_lost_method", int(any(e["fault"] in ("301", "302", "portal") for e in mine)))
        ctx.state("insert", [f for f in o["faults"]][:1], o["m"], type(err).__name__ if err else "ok")
        ctx.ev("insert", o["m"], type(err).__name__ if err else "ok", len(mine))
        works(why)

    for j, (op, o) in enumerate(sc["ops"]):
        why = f"op {j} {op} {o}"
        if op == "connect":
            connect(o, why)
        elif op == "insert":
            insert(o, why)
        elif op == "heal":
            net.cut.clear()
            ctx.probe("healed")
        elif op == "partition":
            net.cut.add(o["server"])
            ctx.fault("partition")
        else:
            s = net.servers[o["server"]]
            s.n += 1000
            ctx.fault("server_restart")
    # faults are over: everything works again
    net.cut.clear()
    c = connect({"server": "a", "token": "text", "tk": 0, "faults": []}, "afterwards")
    ctx.check(c is not None, "no-recovery", "a new attempt after the faults fails")
    insert({"m": "vsrc", "k": 5, "faults": [], "who": len(clients) - 1}, "afterwards")
    ctx.simtime(net.now * 1e9)


def simplify(sc):
    import copy

    for k, (op, o) in enumerate(sc["ops"]):
        for key, v in (("faults", []), ("nested", None), ("server", None), ("tk", 0), ("token", None)):
            if o.get(key) not in (None, v):
                s = copy.deepcopy(sc)
                s["ops"][k][1][key] = v
                yield s
