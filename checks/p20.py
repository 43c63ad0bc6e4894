"""P20: where connection parameters come from and which source wins.

`collect` and `open` are interpreted with the containers of parameters known exactly and the values symbols: for every
documented environment variable, every combination of sources of a parameter, every kind of address, and the lookups of
the service file and of the password.  The dictionary that comes out is compared with what the documentation says."""
import ast
import itertools
from sa.rules import *
from sa.datarule import DataRule

MOD = "postgresql.clientparameters"

# documentation/clientparameters.rst and the docstring of envvars
PLAIN = {
    "USER": "user", "DATABASE": "database", "HOST": "host", "PORT": "port", "PASSWORD": "password", "PASSFILE": "pgpassfile",
    "SSLMODE": "sslmode", "SSLKEY": "sslkey", "CONNECT_TIMEOUT": "connect_timeout", "REALM": "kerberos4_realm", "KRBSRVNAME": "kerberos5_service",
}
SETTINGS = {"TZ": "timezone", "DATESTYLE": "datestyle", "CLIENTENCODING": "client_encoding", "GEQO": "geqo"}
OPTIONS = {
    "-U": ("user", True), "-d": ("database", True), "-h": ("host", True), "-p": ("port", True), "--unix": ("unix", True),
    "--ssl-mode": ("sslmode", True), "-W": ("prompt_password", False),
}
FILES = {"sslcrtfile": "postgresql.crt", "sslkeyfile": "postgresql.key", "sslrootcrtfile": "root.crt", "sslrootcrlfile": "root.crl"}


def V(n):
    return ("p", "$" + n)


def T(*xs):
    return ("tuple",) + tuple(xs)


class Params(DataRule):
    modules = (MOD, "postgresql")
    state_cap = 20000
    fresh_dicts = True
    fresh = 800

    def __init__(self, exists=(), services=None, iri=None, tty=True, user="$user"):
        self.exists, self.services, self.iri, self.tty, self.user = exists, services or {}, iri or {}, tty, user
        self.unknown = []
        self.asked = []

    def inline(self, eng, func):
        return func.module.name == MOD or func.module.name == "postgresql" and func.name == "open"

    def decide(self, eng, t, st):
        if t[0] == "p" and str(t[1])[:1] == "$" or t[0] == "path":
            return True
        if t[0] == "cmp" and t[1] in ("is", "==") and len(t) == 4:
            a, b = t[2], t[3]
            if (a[0] == "p") != (b[0] == "p") and (is_const(a) or is_const(b)):
                return False
            if a[0] == "p" and b[0] == "p" and str(a[1])[:1] == "$" and str(b[1])[:1] == "$":
                return a == b
        if t[0] == "cmp" and t[1] == "in" and len(t) == 4 and t[3][0] == "tuple" and t[2][0] == "p":
            return t[2] in t[3][1:]
        return super().decide(eng, t, st)

    def is_instance(self, eng, x, c, st):
        if x[0] == "p":
            return c == G("builtins.str")
        return super().is_instance(eng, x, c, st)

    def getattr(self, eng, node, base, attr, st, fr):
        if attr == "environ" and base == G("os") and getattr(self, "environ", None):
            return [Out("v", st, self.environ)]
        if base == G("sys") and attr == "platform":
            return [Out("v", st, C("linux"))]
        return super().getattr(eng, node, base, attr, st, fr)

    def path(self, args):
        r = ()
        for a in args:
            r += a[1:] if a[0] == "path" else (a,)
        return ("path",) + r

    def call(self, eng, node, f, args, kws, st, fr):
        recv, name = callee(f)
        full = f[1] if f[0] == "g" else f[1][1] + "." + f[2] if f[0] == "attr" and f[1][0] == "g" else None
        Vo = lambda v, s=st: [Out("v", s, v)]
        args = list(args)
        if full in ("os.path.join", "posixpath.join"):
            return Vo(self.path(args))
        if full == "os.path.expanduser":
            return Vo(("path", args[0]) if is_const(args[0]) else ("path", V("home")))
        if full == "os.path.exists":
            return Vo(C(args[0] in self.exists or args[0][0] == "path" and args[0][-1] in self.exists))
        if name == "getuser" and full and full.startswith(("getpass", MOD)):
            return Vo(V("user") if self.user else C(None))
        if full == "sys.stdin.isatty" or name == "isatty":
            return Vo(C(self.tty))
        if name == "readline":
            return Vo(V("line"))
        if name == "endswith":
            return Vo(C(False))
        if f == V("getpass"):
            self.asked.append(args[0])
            return Vo(V("typed"))
        if full == "postgresql.iri.serialize":
            return Vo(C("IRI"))
        if full == "postgresql.iri.parse":
            ob = ("obj", "dict", ("iri", args[0]), 0)
            return Vo(ob, st.hset((ob, "$items"), ("D", tuple((C(k), v) for k, v in self.iri.items()))))
        if full == "postgresql.pgpassfile.lookup_pgpass":
            ps = eng.hget(st, (args[0], "$items"))
            self.asked.append(("lookup", args[1]))
            return Vo(V("found"))
        if full == "configparser.RawConfigParser":
            return Vo(("obj", "config", "$cp", 0), st.hset((("obj", "config", "$cp", 0), "$read"), T()))
        if recv is not None and recv[:2] == ("obj", "config"):
            if name == "read" and args:
                return Vo(NONE, st.hset((recv, "$read"), T(args[0])))
            if name == "items":
                got = self.services.get(st.heap[(recv, "$read")][1])
                if got is None:
                    return [Out("raise", st, ("exc", "configparser.NoSectionError", ("site", node.lineno)), node)]
                if args[0] != V("service"):
                    self.unknown.append(show(args[0]))
                return Vo(T(*[T(C(k), v) for k, v in got]))
        if name == "fit" and recv is not None:
            self.asked.append(("fit", tuple(args), tuple(kws)))
            return Vo(V("connector"))
        if f == V("connector") or recv == V("connection"):
            return Vo(V("connection") if f == V("connector") else NONE)
        if name == "lower" and recv is not None and recv[0] == "p":
            return Vo(("lower", recv))
        if name in ("__add__", "startswith", "endswith", "strip", "lower", "upper", "__contains__") and recv is not None and is_const(recv) and all(is_const(a) for a in args):
            return Vo(C(getattr(recv[2], name)(*[a[2] for a in args])))
        if full == "builtins.getattr" and len(args) == 3 and is_const(args[1]) and (is_const(args[0]) or args[0][:2] == ("obj", "options")):
            return Vo(st.heap.get((args[0], args[1][2]), args[2]))
        if name == "strip" and recv is not None and recv[0] == "p":
            return Vo(recv)
        if name in ("startswith", "endswith") and recv is not None and recv[0] == "p":
            return Vo(C(False))
        return super().call(eng, node, f, args, kws, st, fr)


class Run:
    def __init__(self, ck, p, rule):
        self.ck, self.p, self.rule = ck, p, rule
        self.eng = Engine(p, rule)
        self.st = State(ts=())
        self.n = 0

    def fr(self, mod=MOD):
        return self.eng.module_frame(self.p.module(mod))

    def new(self, kind, items):
        self.n += 1
        x = ast.Pass()
        x.lineno, x.col_offset = -self.n, 0
        ob = self.eng.alloc(kind, x, self.fr(), self.st)
        if kind == "dict":
            items = ("D", tuple((C(k) if isinstance(k, str) else k, v) for k, v in items.items()))
        else:
            items = ("L", tuple(items))
        self.st = self.st.hset((ob, "$items"), items)
        return ob

    def py(self, t, st):
        if t[0] == "obj" and t[1] == "dict":
            d = self.eng.hget(st, (t, "$items"))
            return {k[2] if is_const(k) else k: self.py(v, st) for k, v in d[1]} if d and d[0] == "D" else t
        return t

    def call(self, f, args=(), kws=(), mod=MOD):
        """[("v", python data) or ("raise", class)]"""
        self.ck.count("cases")
        x = ast.parse("f()").body[0].value
        kws = tuple((k, v) for k, v in kws)
        r = []
        for o in self.eng.call(x, G(f.full), tuple(args), kws, self.st, self.fr(mod)):
            r.append(("v", self.py(o.val, o.st), o.st) if o.kind == "v" else ("raise", o.val[1] if o.val[0] == "exc" else show(o.val), o.st))
        return r


def show_d(d):
    if isinstance(d, dict):
        return "{" + ", ".join("%s: %s" % (k if isinstance(k, str) else show(k), show_d(v)) for k, v in sorted(d.items(), key=str)) + "}"
    return show(d).lstrip("$") if isinstance(d, tuple) else repr(d)


def collected(ck, p, rule, what, f, environ, want, cop=None, parameters=None, rulename="sources", construct=None, **kw):
    r = Run(ck, p, rule)
    kws = [("environ", r.new("dict", environ) if environ is not None else NONE), ("prompt_title", kw.pop("prompt_title", NONE))]
    if cop is not None:
        lst = r.new("list", [T(k if isinstance(k, tuple) and k[0] == "tuple" else C(k) if isinstance(k, str) else T(*[C(x) for x in k]), v) for k, v in cop])
        co = ("obj", "options", "$co", 0)
        r.st = r.st.hset((co, "db_client_parameters"), lst)
        kws.append(("parsed_options", co))
    if parameters is not None:
        ps = {k: r.new("dict", v) if isinstance(v, dict) else v for k, v in parameters.items()}
        kws.append(("parameters", r.new("dict", ps)))
    kws += list(kw.items())
    got = r.call(f, (), kws)
    ok = bool(got) and all(x[0] == "v" and x[1] == want for x in got)
    ck.judge(ok, rulename, construct or "collect", "%s:%d" % (f.module.path if hasattr(f.module, "path") else f.module.name, f.node.lineno),
             "%s: expected %s, got %s" % (what, show_d(want), "; ".join("%s %s" % (a, show_d(b)) for a, b, _ in got[:3]) or "nothing"))
    return got


DEFAULTS = {"user": V("user"), "host": None, "port": None}


def run(ck, p):
    ck.rule("environment", "each documented environment variable sets the parameter documented for it, and no other; the prefix is replaceable; no environment, nothing of it")
    ck.rule("sources", "of the sources of a parameter the most specific wins, later over earlier: defaults, given parameters, environment, command line; settings are merged key by key")
    ck.rule("address", "an address of one kind given in a more specific source replaces the other kind of address of the less specific ones")
    ck.rule("service", "the section of a service file is found in the documented file and sets the parameters and settings it names")
    ck.rule("password", "the password is asked for when it is to be, looked up when there is none, and left alone otherwise")
    ck.rule("options", "each option of the command line adds the parameter documented for it")
    m = p.module(MOD)
    f = p.func(MOD + ":collect")
    ck.func(f)
    for n in ("defaults", "envvars", "normalize", "extrapolate", "denormalize_parameters", "resolve_password", "normalize_parameter", "x_pg_service", "append_settings", "append_db_client_parameters", "append_db_client_x_parameters"):
        ck.func(p.func(MOD + ":" + n))
    environment(ck, p, f)
    sources(ck, p, f)
    address(ck, p, f)
    service(ck, p, f)
    password(ck, p)
    options(ck, p)
    standard(ck, p)
    ck.at_least("cases", 150)


def environment(ck, p, f):
    no = {"no_defaults": C(True)}
    E = "environment"
    for prefix in ("PG", "X_"):
        for k, par in PLAIN.items():
            collected(ck, p, Params(), "%s in the environment" % (prefix + k), f, {prefix + k: V("e")}, {par: V("e")}, rulename=E, construct="envvars " + k, environ_prefix=C(prefix), **no)
        for k, par in SETTINGS.items():
            collected(ck, p, Params(), "%s in the environment" % (prefix + k), f, {prefix + k: V("e")}, {"settings": {par: V("e")}}, rulename=E, construct="envvars " + k, environ_prefix=C(prefix), **no)
        collected(ck, p, Params(), "%sREQUIRESSL is 1" % prefix, f, {prefix + "REQUIRESSL": C("1")}, {"sslmode": C("require")}, rulename=E, construct="envvars REQUIRESSL", environ_prefix=C(prefix), **no)
        collected(ck, p, Params(), "%sREQUIRESSL is 0" % prefix, f, {prefix + "REQUIRESSL": C("0")}, {}, rulename=E, construct="envvars REQUIRESSL", environ_prefix=C(prefix), **no)
        collected(ck, p, Params(), "%sHOSTADDR in the environment" % prefix, f, {prefix + "HOSTADDR": V("a")}, {"host": V("a")}, rulename=E, construct="envvars HOSTADDR", environ_prefix=C(prefix), **no)
        for o in (("HOST", "HOSTADDR"), ("HOSTADDR", "HOST")):
            collected(ck, p, Params(), "%s%s and %s in the environment" % (prefix, o[0], o[1]), f, {prefix + x: V(x) for x in o}, {"host": V("HOSTADDR")}, rulename=E, construct="envvars HOSTADDR", environ_prefix=C(prefix), **no)
    every = {**{k: V(k) for k in PLAIN}, **{k: V(k) for k in SETTINGS}}
    want = {**{par: V(k) for k, par in PLAIN.items()}, "settings": {par: V(k) for k, par in SETTINGS.items()}}
    for order in (list(every), list(every)[::-1]):
        collected(ck, p, Params(), "every variable in the environment", f, {"PG" + k: every[k] for k in order}, want, rulename=E, construct="envvars", **no)
    collected(ck, p, Params(), "variables without the prefix", f, every, {}, rulename=E, construct="envvars", **no)
    collected(ck, p, Params(), "no environment", f, None, {}, rulename=E, construct="collect environ", **no)
    collected(ck, p, Params(), "an empty environment", f, {}, {}, rulename=E, construct="collect environ", **no)


def base(files=()):
    d = {"user": V("user"), "host": C("localhost"), "port": C(5432)}
    return d


def sources(ck, p, f):
    S = "sources"
    collected(ck, p, Params(), "the defaults", f, {}, base(), rulename=S, construct="defaults")
    collected(ck, p, Params(user=""), "the defaults without a name of the user", f, {}, {**base(), "user": C("postgres")}, rulename=S, construct="defaults user")
    home = ("path", V("home"))
    have = {k: home + (C(".postgresql"), C(v)) for k, v in FILES.items()}
    have["pgpassfile"] = home + (C(".pgpass"),)
    for names in [(k,) for k in have] + [tuple(have)]:
        collected(ck, p, Params(exists=[have[k] for k in names]), "the defaults with the files of %s" % ", ".join(names), f, {}, {**base(), **{k: have[k] for k in names}}, rulename=S, construct="defaults " + (names[0] if len(names) == 1 else "files"))
    levels = ("defaults", "parameters", "environment", "command line")
    env = {v: k for k, v in PLAIN.items()}
    for par in ("user", "host", "port", "database", "password", "sslmode", "pgpassfile"):
        for n in range(0, 5):
            for use in itertools.combinations(levels, n):
                if par in FILES and "defaults" in use:
                    continue
                exists = [have["pgpassfile"]] if par == "pgpassfile" else []
                want = base() if "defaults" in use else {}
                if exists and "defaults" in use:
                    want["pgpassfile"] = have["pgpassfile"]
                for l in use[::-1]:
                    if l != "defaults":
                        want[par] = V({"parameters": "given", "environment": "e", "command line": "opt"}[l])
                        break
                kw = {} if "defaults" in use else {"no_defaults": C(True)}
                collected(ck, p, Params(exists=exists), "%s from %s" % (par, ", ".join(use) or "nowhere"), f, {"PG" + env[par]: V("e")} if "environment" in use else {}, want,
                          cop=[((par,), V("opt"))] if "command line" in use else None, parameters={par: V("given")} if "parameters" in use else None, rulename=S, construct="collect " + par, **kw)
    no = {"no_defaults": C(True)}
    collected(ck, p, Params(), "an option given twice", f, {}, {"database": V("b")}, cop=[(("database",), V("a")), (("database",), V("b"))], rulename=S, construct="collect command line", **no)
    collected(ck, p, Params(), "PGREQUIRESSL and --ssl-mode", f, {"PGREQUIRESSL": C("1")}, {"sslmode": V("m")}, cop=[(("sslmode",), V("m"))], rulename=S, construct="collect sslmode", **no)
    # settings
    for n in range(1, 4):
        for use in itertools.combinations(levels[1:], n):
            for same in (True, False):
                val = {"parameters": V("given"), "environment": V("e"), "command line": V("opt")}
                key = {l: "timezone" if same or l == "environment" else {"parameters": "search_path", "command line": "geqo"}[l] for l in use}
                want = {}
                for l in use:
                    want[key[l]] = val[l]
                collected(ck, p, Params(), "%s from %s" % ("one setting" if same else "different settings", ", ".join(use)), f, {"PGTZ": V("e")} if "environment" in use else {}, {"settings": want},
                          cop=[(("settings", key["command line"]), V("opt"))] if "command line" in use else None,
                          parameters={"settings": {key["parameters"]: V("given")}} if "parameters" in use else None, rulename=S, construct="collect settings", **no)
    collected(ck, p, Params(), "two settings of the command line", f, {}, {"settings": {"a": V("x"), "b": V("y")}}, cop=[(("settings", "a"), V("x")), (("settings", "b"), V("y"))], rulename=S, construct="collect settings", **no)
    # an IRI of the command line, before and after other options
    iri = {"host": V("ih"), "database": V("id")}
    collected(ck, p, Params(iri=iri), "an IRI, then a database", f, {"PGHOST": V("e")}, {"host": V("ih"), "database": V("d")}, cop=[("pq_iri", V("iri")), (("database",), V("d"))], rulename=S, construct="collect pq_iri", **no)
    collected(ck, p, Params(iri=iri), "a database, then an IRI", f, {"PGPORT": V("e")}, {"host": V("ih"), "database": V("id"), "port": V("e")}, cop=[(("database",), V("d")), ("pq_iri", V("iri"))], rulename=S, construct="collect pq_iri", **no)


def address(ck, p, f):
    A = "address"
    rest = {"user": V("user")}
    collected(ck, p, Params(), "a socket on the command line, the defaults below", f, {}, {**rest, "unix": V("u")}, cop=[(("unix",), V("u"))], rulename=A, construct="collect unix")
    collected(ck, p, Params(), "a socket on the command line, host and port in the environment", f, {"PGHOST": V("h"), "PGPORT": V("p")}, {**rest, "unix": V("u")}, cop=[(("unix",), V("u"))], rulename=A, construct="collect unix")
    collected(ck, p, Params(), "a socket and other options on the command line", f, {"PGDATABASE": V("d")}, {**rest, "database": V("d"), "password": V("w"), "unix": V("u")}, cop=[(("unix",), V("u")), (("password",), V("w"))], rulename=A, construct="collect unix")
    collected(ck, p, Params(iri={"unix": V("u")}), "a socket in an IRI on the command line", f, {}, {**rest, "unix": V("u")}, cop=[("pq_iri", V("iri"))], rulename=A, construct="collect unix")
    collected(ck, p, Params(), "a host on the command line, a socket in the parameters", f, {}, {**base(), "host": V("h")}, cop=[(("host",), V("h"))], parameters={"unix": V("u")}, rulename=A, construct="collect host")
    collected(ck, p, Params(), "a host on the command line alone", f, {}, {**base(), "host": V("h")}, cop=[(("host",), V("h"))], rulename=A, construct="collect host")
    collected(ck, p, Params(), "a port on the command line", f, {"PGHOST": V("h")}, {**base(), "host": V("h"), "port": V("q")}, cop=[(("port",), V("q"))], rulename=A, construct="collect port")


def service(ck, p, f):
    S = "service"
    no = {"no_defaults": C(True)}
    user = ("path", V("home"), C(".pg_service.conf"))
    sysf = lambda d: ("path", d, C("pg_service.conf"))
    sec = [("dbname", V("d")), ("host", V("h")), ("user", V("u")), ("port", V("o")), ("timezone", V("z")), ("sslmode", V("m")), ("password", V("w")), ("connect_timeout", V("t")), ("search_path", V("s"))]
    want = {"database": V("d"), "host": V("h"), "user": V("u"), "port": V("o"), "sslmode": V("m"), "password": V("w"), "connect_timeout": V("t"), "settings": {"timezone": V("z"), "search_path": V("s")}}
    other = [("user", V("other"))]
    svc = {"PGSERVICE": V("service")}

    def one(what, environ, files, exp, **kw):
        collected(ck, p, Params(exists=list(files), services={k: v for k, v in files.items() if v is not None}), what, f, environ, exp, rulename=S, construct="x_pg_service", **{**no, **kw})
    one("the service in the file of the user", svc, {user: sec}, want)
    one("hostaddr in the service", svc, {user: [("hostaddr", V("a"))]}, {"host": V("a")})
    one("names in capitals", svc, {user: [("HOST", V("a")), ("TimeZone", V("z"))]}, {"host": V("a"), "settings": {"timezone": V("z")}})
    one("the service in both files", {**svc, "PGSYSCONFDIR": V("dir")}, {user: sec, sysf(V("dir")): other}, want)
    one("the service in the file of the system", {**svc, "PGSYSCONFDIR": V("dir")}, {user: None, sysf(V("dir")): sec}, want)
    one("no file of the user", {**svc, "PGSYSCONFDIR": V("dir")}, {sysf(V("dir")): sec}, want)
    one("the default directory of the system", svc, {sysf(V("dir0")): sec}, want, default_pg_sysconfdir=V("dir0"))
    one("PGSYSCONFDIR over the default directory", {**svc, "PGSYSCONFDIR": V("dir")}, {sysf(V("dir")): sec, sysf(V("dir0")): other}, want, default_pg_sysconfdir=V("dir0"))
    one("PGSERVICEFILE", {**svc, "PGSERVICEFILE": V("file")}, {user: other, V("file"): sec}, want)
    one("the file given to collect", svc, {user: other, V("file"): sec}, want, pg_service_file=V("file"))
    one("a variable and the service: the service is taken with the environment", {**svc, "PGSSLKEY": V("k")}, {user: sec}, {**want, "sslkey": V("k")})
    r = Run(ck, p, Params())
    got = r.call(f, (), [("environ", r.new("dict", svc)), ("prompt_title", NONE), ("no_defaults", C(True))])
    ck.judge(bool(got) and all(x[0] == "raise" and x[1].endswith("ServiceDoesNotExistError") for x in got), S, "x_pg_service missing", "postgresql/clientparameters.py",
             "a service in no file: expected ServiceDoesNotExistError, got %s" % "; ".join("%s %s" % (a, show_d(b)) for a, b, _ in got[:3]))


def password(ck, p):
    W = "password"
    f = p.func(MOD + ":resolve_password")
    keep = {"user": V("user")}
    cases = []
    for pw in (False, True):
        for pf in (False, True):
            for ask in (False, True):
                for tty in (False, True) if ask else (True,):
                    for title in ("", "kw", "par", "both"):
                        cases.append((pw, pf, ask, tty, title))
    for pw, pf, ask, tty, title in cases:
        rule = Params(tty=tty)
        r = Run(ck, p, rule)
        d = dict(keep)
        if pw:
            d["password"] = V("given")
        if pf:
            d["pgpassfile"] = V("file")
        if ask:
            d["prompt_password"] = C(True)
        if title in ("par", "both"):
            d["prompt_title"] = C("PAR")
        ob = r.new("dict", d)
        kws = [("getpass", V("getpass"))] + ([("prompt_title", C("KW"))] if title in ("kw", "both") else [])
        got = r.call(f, (ob,), kws)
        want = dict(keep)
        if pw:
            want["password"] = V("given")
        asked = []
        if ask:
            want["password"] = V("typed") if tty else V("line")
            if tty:
                asked = [C("Password for " + {"": "", "kw": "KW", "par": "PAR", "both": "KW"}[title] + "[IRI]: ")]
        elif not pw and pf:
            want["password"] = V("found")
            asked = [("lookup", V("file"))]
        what = "%s password, %s password file, %s%s" % ("a" if pw else "no", "a" if pf else "no", "asked for" if ask else "not asked for", {"": "", "kw": ", a title", "par": ", a title in the parameters", "both": ", both titles"}[title])
        ok = bool(got) and all(x[0] == "v" and r.py(ob, x[2]) == want for x in got)
        ck.judge(ok, W, "resolve_password", "postgresql/clientparameters.py:%d" % f.node.lineno, "%s: expected %s, got %s" % (what, show_d(want), "; ".join(show_d(r.py(ob, x[2])) if x[0] == "v" else x[1] for x in got[:3])))
        ck.judge(rule.asked == asked, W, "resolve_password asks", "postgresql/clientparameters.py:%d" % f.node.lineno, "%s: expected to ask %s, asks %s" % (what, [show(x) for x in asked], [show(x) if x[0] != "lookup" else x for x in rule.asked]))


def keyword(call, name, i=None):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def options(ck, p):
    """what each option of the parser appends to the parameters of the command line"""
    m = p.module(MOD)
    assigned = {}
    for n in m.tree.body:
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            assigned[n.targets[0].id] = n.value

    def spec(call):
        """the keyword arguments of an option, those of the partials it goes through included"""
        kws, pos = {k.arg: k.value for k in call.keywords}, [a.value for a in call.args if isinstance(a, ast.Constant)]
        fn = call.func
        for _ in range(5):
            if isinstance(fn, ast.Name) and fn.id in assigned and isinstance(assigned[fn.id], ast.Call):
                c = assigned[fn.id]
                for k in c.keywords:
                    kws.setdefault(k.arg, k.value)
                fn = c.args[0] if c.args else None
        return pos, kws, fn
    found = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Call) and any(isinstance(a, ast.Constant) and isinstance(a.value, str) and a.value[:1] == "-" for a in n.args):
            pos, kws, fn = spec(n)
            for o in pos:
                found[o] = (n, kws)
    for o, (dest, valued) in list(OPTIONS.items()) + [("-s", (("settings", None), True)), ("-I", ("pq_iri", True))]:
        if o not in found:
            ck.judge(False, "options", "option " + o, "postgresql/clientparameters.py", "the option %s is not found" % o)
            continue
        n, kws = found[o]
        where = "postgresql/clientparameters.py:%d" % n.lineno
        cb = kws.get("callback")
        d = kws.get("dest")
        act = kws.get("action")
        if not (isinstance(cb, ast.Name) and isinstance(d, ast.Constant) and isinstance(act, ast.Constant) and act.value == "callback"):
            ck.judge(False, "options", "option " + o, where, "%s: the option is not handled by a callback with a destination" % o)
            continue
        ck.judge(("type" in kws) == valued, "options", "option %s value" % o, where, "%s: the option %s a value" % (o, "does not take" if valued else "takes"))
        f = p.func(MOD + ":" + cb.id)
        for value in ("plain",) if o != "-s" else ("a=b", "a=b=c", "a=", "novalue"):
            r = Run(ck, p, Params())
            lst = r.new("list", [])
            opt, parser, values = ("obj", "options", "$option", 0), ("obj", "options", "$parser", 0), ("obj", "options", "$values", 0)
            r.st = r.st.hset((opt, "dest"), C(d.value)).hset((parser, "values"), values).hset((values, "db_client_parameters"), lst)
            v = C(value) if o == "-s" else V("value") if valued else NONE
            got = r.call(f, (opt, C(o), v, parser))
            if value == "novalue":
                ck.judge(bool(got) and all(x[0] == "raise" for x in got), "options", "option " + o, where, "%s %s: expected OptionValueError, got %s" % (o, value, [x[:2] for x in got]))
                continue
            if o == "-s":
                k, _, x = value.partition("=")
                want = T(T(C("settings"), C(k)), C(x))
            elif o == "-I":
                want = T(C("pq_iri"), v)
            else:
                want = T(T(C(dest)), v if valued else C(True))
            res = [r.eng.exact_items(lst, x[2]) if x[0] == "v" else x[1] for x in got]
            ck.judge(bool(res) and all(x is not None and not isinstance(x, str) and list(x) == [want] for x in res), "options", "option " + o, where,
                     "%s%s: expected to add %s, adds %s" % (o, " " + value if o == "-s" else "", show(want), [[show(y) for y in x] if x is not None and not isinstance(x, str) else x for x in res]))


def standard(ck, p):
    """postgresql.open: keywords over the IRI over the environment and the defaults; a socket replaces host and port of the latter"""
    A = "address"
    f = p.func("postgresql:open")
    ck.func(f)
    srcs = ("iri", "kw")
    for par in ("user", "database", "host", "port", "password"):
        for n in range(3):
            for use in itertools.combinations(srcs, n):
                want = dict(base())
                for l in use:
                    want[par] = V(l)
                opened(ck, p, f, "%s from %s" % (par, ", ".join(use) or "the defaults"), {par: V("iri")} if "iri" in use else {}, {par: V("kw")} if "kw" in use else {}, want, "sources", "open " + par)
    opened(ck, p, f, "a path in the IRI", {"path": V("path"), "host": V("iri")}, {}, {**base(), "host": V("iri")}, "sources", "open path")
    opened(ck, p, f, "a socket in the IRI", {"unix": V("u")}, {}, {"user": V("user"), "unix": V("u")}, A, "open unix")
    opened(ck, p, f, "a socket in the keywords", {}, {"unix": V("u")}, {"user": V("user"), "unix": V("u")}, A, "open unix")
    opened(ck, p, f, "a socket in the keywords, a database in the IRI", {"database": V("d")}, {"unix": V("u")}, {"user": V("user"), "unix": V("u"), "database": V("d")}, A, "open unix")
    opened(ck, p, f, "settings in the IRI and the keywords", {"settings": {"a": V("x"), "b": V("y")}}, {"settings": {"b": V("z"), "c": V("w")}}, {**base(), "settings": {"a": V("x"), "b": V("z"), "c": V("w")}}, "sources", "open settings")


def opened(ck, p, f, what, iri, kw, want, rulename, construct):
    rule = Params()
    r = Run(ck, p, rule)
    rule.iri = {k: r.new("dict", v) if isinstance(v, dict) else v for k, v in iri.items()}
    kws = [(k, r.new("dict", v) if isinstance(v, dict) else v) for k, v in kw.items()]
    env = ("obj", "dict", "$environ", 0)
    r.st = r.st.hset((env, "$items"), ("D", ()))
    rule.environ = env
    got = r.call(f, (V("iri"),), kws, mod="postgresql")
    fits = [x for x in rule.asked if x[0] == "fit"]
    res = [{k: r.py(v, got[0][2]) for k, v in x[2]} for x in fits] if got else []
    ok = bool(fits) and all(not x[1] for x in fits) and all(d == want for d in res) and all(x[0] == "v" and x[1] == V("connection") for x in got)
    ck.judge(ok, rulename, construct, "postgresql/__init__.py:%d" % f.node.lineno, "%s: expected a connection of %s, got %s" % (what, show_d(want), "; ".join(map(show_d, res[:3])) or "; ".join("%s %s" % (a, show_d(b)) for a, b, _ in got[:3])))
