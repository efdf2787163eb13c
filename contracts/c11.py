"""C11: cluster secrets at rest, keys, and freshness of credentials."""
import z3

from pyvc.models import length
from pyvc.verify import *
from . import c10, dbfuncs
from .sqlmodel import SQL

DB = "dask_gateway_server.backends.db_base"
D = DB + ".DataManager."
STR = z3.StringSort()
ENC = z3.Function("fernet_token", STR, STR, STR)  # key, plaintext
A_FERNET = [
    "cryptography.fernet: a Fernet token depends on the key and the text, reveals neither, and decrypts to the text with that key only; MultiFernet "
    "encrypts with the first of its keys, decrypts with any of them and needs at least one; Fernet accepts exactly url-safe base64 of 32 bytes",
    "utf-8 and ascii coding are inverse to decoding",
]
A_UUID = ["uuid.uuid4 is random and never repeats"]

dbfuncs.register("C11", ["setup"])


class Crypto:
    """Fernet, MultiFernet."""

    def __init__(self, v):
        self.v, self.it = v, v.it
        self.keys = None
        it = v.it
        it.lib["cryptography.fernet.Fernet"] = self.fernet
        it.lib["cryptography.fernet.MultiFernet"] = self.multi

    def fernet(self, it, a, k):
        key = it.resolve(a[0])
        return Obj(Fake("Fernet"), {"key": key, **self.methods(lambda: it.bterm(key), lambda t: t == it.bterm(key))}, it.level)

    def methods(self, first, known):
        it = self.it

        def encrypt(it2, a, k):
            return SBytes(ENC(first(), it.bterm(it.resolve(a[0]))))

        def decrypt(it2, a, k):
            t = it.bterm(it.resolve(a[0]))
            if not (z3.is_app(t) and t.decl().eq(ENC)):
                it.unsupported("decryption of something never encrypted")
            if not it.ctx.branch(known(t.arg(0))):
                raise PyRaise(it.make_exc(ExtV("cryptography.fernet.InvalidToken")))
            return SBytes(t.arg(1))

        return {"encrypt": Native("encrypt", encrypt), "decrypt": Native("decrypt", decrypt)}

    def multi(self, it, a, k):
        fs = it.resolve(a[0])
        n = length(it, it.resolve(fs))
        if it.truth(it.mkbool(it.eq(n, 0))):
            it.raise_(ValueError, "MultiFernet requires at least one Fernet instance")
        self.fs = fs
        conf = z3.Function("configured_key", STR, z3.BoolSort())
        self.conf = conf
        key = lambda i: it.bterm(it.resolve(it.getitem(fs, i)).attrs["key"])
        self.key_at = key
        return Obj(Fake("MultiFernet"), {"fs": fs, **self.methods(lambda: key(0), conf)}, it.level)


def manager(v, url, keys):
    """A DataManager made by the real constructor, on an empty database."""
    it, ctx = v.it, v.ctx
    cr = Crypto(v)
    it.lib["sqlalchemy.event.listens_for"] = lambda it, a, k: Native("listens", lambda it, b, kk: b[0])
    c10.loop_lib(v)
    sql = SQL(v, faults=False, on_select=lambda it, st: VList([]))
    dm = v.obj(DB + ".DataManager")
    r = v.attempt(lambda: it.call(v.cls(DB + ".DataManager").lookup("__init__")[0], [dm, url], {"encrypt_keys": keys}))
    return dm, cr, r, sql


MEMORY = ("sqlite://", "sqlite:///:memory:")


def outlives(url):
    return z3.And([url.t != z3.StringVal(m) for m in MEMORY])


def key_list(v):
    n = z3.Int("n_keys")
    v.assume(n >= 0)
    at = z3.Function("key_at", z3.IntSort(), STR)
    return n, at, VList([SSeq(n, lambda i: SBytes(at(i)))])


@contract("C11", D + "__init__", "encoding", assumes=A_FERNET, weight=2)
def encoding(v):
    """What a data manager does with secrets, for every url and key list."""
    it, ctx = v.it, v.ctx
    v.expect_covers("encrypted", "in-memory", "refused")
    url = v.str("url")
    n, at, keys = key_list(v)
    persistent = outlives(url)
    v.case(lambda ev: {"kind": "manager", "url": ev(url), "n": ev(SInt(n))})
    dm, cr, r, sql = manager(v, url, keys)
    if r.kind == "raise":
        v.cover("refused")
        v.prove("refused-only-without-a-key", z3.And(persistent, n == 0))
        return
    v.prove("refused-without-a-key", z3.Implies(persistent, n > 0))
    tok, cert, key = v.str("token"), SBytes(z3.String("cert")), SBytes(z3.String("pem"))
    # PEM armour and base64
    for s in (cert, key):
        v.assume(z3.Not(z3.Contains(s.t, z3.StringVal(";"))))
    enc = v.attempt(lambda: (it.bterm(it.call(it.getattr(dm, "encode_token"), [tok])), it.bterm(it.call(it.getattr(dm, "encode_tls_credentials"), [cert, key]))))
    if not v.ok_or(enc, "secrets-can-be-stored"):
        return
    et, ec = enc.val
    joined = z3.Concat(cert.t, z3.StringVal(";"), key.t)
    secret = z3.And(et == ENC(at(0), tok.t), ec == ENC(at(0), joined))
    v.prove("written-encrypted-under-the-first-key", z3.Implies(persistent, secret))
    if hasattr(cr, "key_at"):
        v.cover("encrypted")
        # whatever was stored under any configured key is read back
        j = z3.Int("j")
        ctx.know("Int", j)
        v.assume(z3.And(j >= 0, j < n))
        m = it.resolve(length(it, it.resolve(cr.fs)))
        v.prove("every-key-can-decrypt", z3.And((m.t if isinstance(m, SInt) else z3.IntVal(m)) == n, cr.key_at(SInt(j)) == at(j)))
        v.assume(cr.conf(at(j)))
        k = at(j)
        wrap = lambda x: SBytes(ENC(k, x))
    else:
        v.cover("in-memory")
        v.prove("written-encrypted-under-the-first-key", z3.Not(persistent))
        wrap = SBytes
    r = v.attempt(lambda: it.call(it.getattr(dm, "decode_token"), [wrap(tok.t)]))
    if v.ok_or(r, "token-decodes"):
        v.prove("token-decodes-to-what-was-stored", v.eq(r.val, tok))
    r = v.attempt(lambda: it.to_pylist(it.call(it.getattr(dm, "decode_tls_credentials"), [wrap(joined)])))
    if v.ok_or(r, "credentials-decode"):
        v.prove("credentials-decode-to-what-was-stored", z3.And(z3.BoolVal(len(r.val) == 2), v.eq(r.val[0], cert), v.eq(r.val[1], key)) if len(r.val) == 2 else z3.BoolVal(False))


@contract("C11", D + "create_cluster", "new_cluster", assumes=A_FERNET + A_UUID + c10.A_SQL, weight=2)
def new_cluster(v):
    it, ctx = v.it, v.ctx
    sql = SQL(v)
    cr = Crypto(v)
    c10.loop_lib(v)
    now = v.int("now", 1)
    it.overrides["dask_gateway_server.utils.timestamp"] = lambda it, a, k: now
    cert, key = SBytes(z3.String("new_cert")), SBytes(z3.String("new_key"))
    for s in (cert, key):
        v.assume(z3.Not(z3.Contains(s.t, z3.StringVal(";"))))
    kp = []
    it.overrides["dask_gateway_server.tls.new_keypair"] = lambda it, a, k: ctx.mut_append(kp, a[0]) or (cert, key)
    it.overrides["dask_gateway_server.utils.FrozenAttrDict"] = Native("FrozenAttrDict", lambda it, a, k: Obj(Fake("Frozen"), {"of": a[0]}))
    k0 = z3.String("first_key")
    fer = Obj(Fake("MultiFernet"), cr.methods(lambda: k0, lambda t: t == k0))
    idx = c10.Indexes(v)
    dm = v.obj(DB + ".DataManager", db=sql.engine, fernet=fer, **idx.attrs)
    user, options, config = v.str("user"), v.opaque("options", "json"), v.opaque("config", "json")
    v.case(lambda ev: {"kind": "create"})
    out = v.run(D + "create_cluster", dm, user, options, config)
    rows = []
    for e in sql.log:
        for x in e[1:]:
            if isinstance(x, Obj) and "vals" in x.attrs:
                row = dict(x.attrs["vals"] or {})
                rows.append(row)
    extra = [it.resolve(x) for e in sql.log for x in e[1:] if isinstance(it.resolve(x), VDict)]
    for d in extra:
        rows.append({k: x for k, x in d.d.values()})
    secrets = [z3.String("new_cert"), z3.String("new_key")]
    uu = list(ctx.state.get("uuids", []))
    if out.kind == "return":
        o = it.resolve(out.val)
        T = it.sterm
        tok, name = T(o.attrs["token"]), T(o.attrs["name"])
        secrets.append(tok)
        v.prove("token-is-random", z3.Or([tok == u for u in uu] or [z3.BoolVal(False)]))
        v.prove("name-is-random", z3.Or([name == u for u in uu] or [z3.BoolVal(False)]))
        v.prove("token-is-not-the-name", tok != name)
        v.prove("own-key-pair", z3.And(z3.BoolVal(len(kp) == 1), v.eq(kp[0], o.attrs["name"]) if kp else z3.BoolVal(False), v.eq(o.attrs["tls_cert"], cert), v.eq(o.attrs["tls_key"], key)))
    else:
        # a failed insertion may still have reached the database
        secrets += uu[1:]
    v.prove("something-is-written", z3.BoolVal(bool(rows)))
    for row in rows:
        for col, x in row.items():
            x = it.resolve(x)
            if isinstance(x, (SStr, SBytes, str, bytes)):
                v.prove("secrets-are-written-encrypted-only", z3.BoolVal(not leaks(it.sterm(x) if isinstance(x, (SStr, str)) else it.bterm(x), secrets)))
            elif isinstance(x, Obj) or isinstance(x, VDict):
                ks = x.d.values() if isinstance(x, VDict) else []
                v.prove("secrets-are-written-encrypted-only", z3.BoolVal(not any(leaks(it.sterm(it.resolve(y)), secrets) for _, y in ks if isinstance(it.resolve(y), (SStr, str)))))
    for row in rows:
        if "token" in row and out.kind == "return":
            v.prove("own-token-is-stored", it.bterm(it.resolve(row["token"])) == ENC(k0, tok))
            v.prove("own-credentials-are-stored", it.bterm(it.resolve(row["tls_credentials"])) == ENC(k0, z3.Concat(cert.t, z3.StringVal(";"), key.t)))


def leaks(t, secrets):
    """A secret occurs in the term outside of an encryption."""
    t = z3.simplify(t)
    if any(t.eq(s) for s in secrets):
        return True
    if z3.is_app(t) and t.decl().eq(ENC):
        return leaks(t.arg(0), secrets)
    return z3.is_app(t) and any(leaks(c, secrets) for c in t.children())


# ------------------------------------------------------------------ the keys
@contract("C11", DB + ".DBBackendBase._db_encrypt_keys_validate", "configured_keys", assumes=["base64.urlsafe_b64decode inverts urlsafe_b64encode and refuses other texts of the same length with ValueError or decodes them to other lengths"])
def configured_keys(v):
    it, ctx = v.it, v.ctx
    it.overrides[DB + "._normalize_encrypt_key"] = lambda it2, a, k: SBytes(z3.Function("normal", STR, STR)(it.bterm(it.resolve(a[0]))))
    url = v.str("url")
    n, at, keys = key_list(v)
    o = v.obj(DB + ".DBBackendBase", db_url=url)
    v.case(lambda ev: {"kind": "keys", "url": ev(url), "n": ev(SInt(n))})
    r = v.attempt(lambda: it.call(it.getattr(o, "_db_encrypt_keys_validate"), [v.pydict({"value": keys})]))
    if r.kind == "raise":
        v.prove("refused-only-without-a-key", z3.And(outlives(url), n == 0))
        return
    v.prove("refused-without-a-key", z3.Implies(outlives(url), n > 0))
    m = it.resolve(length(it, it.resolve(r.val)))
    v.prove("every-key-is-used", (m.t if isinstance(m, SInt) else z3.IntVal(m)) == n)
    if not ctx.branch(n > 0):
        return
    j = z3.Int("j")
    ctx.know("Int", j)
    v.assume(z3.And(j >= 0, j < n))
    v.prove("keys-in-order", it.bterm(it.resolve(it.getitem(r.val, SInt(j)))) == z3.Function("normal", STR, STR)(at(j)))


@contract("C11", DB + "._normalize_encrypt_key", "key_format", assumes=["base64: urlsafe_b64encode of 32 bytes has 44 characters; urlsafe_b64decode inverts it and raises ValueError on texts that are no base64"])
def key_format(v):
    it, ctx = v.it, v.ctx
    v.expect_covers("accepted", "refused")
    b64 = z3.Function("b64", STR, STR)
    valid = z3.Function("is_b64", STR, z3.BoolSort())
    dec = z3.Function("unb64", STR, STR)

    def d(it2, a, k):
        t = it.bterm(it.resolve(a[0]))
        if not ctx.branch(valid(t)):
            it.raise_(ValueError, "Incorrect padding")
        return SBytes(dec(t))

    it.lib["base64.urlsafe_b64decode"] = d
    it.lib["base64.urlsafe_b64encode"] = lambda it2, a, k: SBytes(b64(it.bterm(it.resolve(a[0]))))
    x = v.dyn("key", [("bytes", SBytes(z3.String("raw"))), ("str", v.str("raw"))])
    raw = z3.String("raw")
    L = z3.Length
    v.case(lambda ev: {"kind": "key", "raw": ev(x)})
    r = v.attempt(lambda: it.call(it.get_func(DB + "._normalize_encrypt_key"), [x]))
    key = z3.If(z3.And(L(raw) == 44, valid(raw)), dec(raw), raw)
    if r.kind == "raise":
        v.cover("refused")
        v.prove("only-other-lengths-refused", L(key) != 32)
        return
    v.cover("accepted")
    v.prove("only-32-byte-keys", L(key) == 32)
    v.prove("key-unchanged", it.bterm(it.resolve(r.val)) == b64(key))


@contract("C11", DB + ".DBBackendBase._db_encrypt_keys_default", "keys_from_environment", assumes=["os.environb holds the process's environment"])
def keys_from_environment(v):
    """Keys from the environment are validated like configured ones, in order."""
    it, ctx = v.it, v.ctx
    cases = {b"": [], b"a": [b"a"], b"a;b": [b"a", b"b"], b" a ; b;": [b"a", b"b"], b";;": [], None: []}
    lab = v.choose(*[repr(c) for c in cases])
    val = {repr(c): c for c in cases}[lab]
    it.lib["os.environb"] = v.fake("Environ", get=v.native(lambda it2, a, k: val if a[0] == b"DASK_GATEWAY_ENCRYPT_KEYS" and val is not None else (a[1] if len(a) > 1 else None)))
    seen = []
    o = v.obj(DB + ".DBBackendBase", db_url=v.str("url"))
    res = v.opaque("validated")
    o.attrs["_db_encrypt_keys_validate"] = Native("validate", lambda it2, a, k: seen.append(it.getitem(a[0], "value")) or res)
    r = v.attempt(lambda: it.call(it.getattr(o, "_db_encrypt_keys_default"), []))
    if not v.ok_or(r, "keys-read"):
        return
    v.prove("validated-like-configured-keys", z3.BoolVal(len(seen) == 1 and it.resolve(r.val) is res))
    if seen:
        v.prove("keys-of-the-environment", z3.BoolVal([it.resolve(x) for x in it.to_pylist(seen[0])] == cases[val]))


# ----------------------------------------------------------------- key pairs
TLS = "dask_gateway_server.tls.new_keypair"


@contract("C11", TLS, "key_pair", assumes=["cryptography: generate_private_key returns a new random key each time; the certificate builder puts what it is given into the certificate"])
def key_pair(v):
    it, ctx = v.it, v.ctx
    keys, signed = [], []

    def gen(it2, a, k):
        size = k.get("key_size", a[1] if len(a) > 1 else None)
        exp = k.get("public_exponent", a[0] if a else None)
        n = len(keys)
        o = Obj(Fake("PrivateKey"), {"size": size, "exp": exp})
        o.attrs["private_bytes"] = v.native(lambda it3, a3, k3: SBytes(z3.String(f"pem{n}")))
        o.attrs["public_key"] = v.native(lambda it3, a3, k3: Obj(Fake("PublicKey"), {"of": o}))
        keys.append(o)
        return o

    it.lib["cryptography.hazmat.primitives.asymmetric.rsa.generate_private_key"] = gen
    box = lambda kind: lambda it2, a, k: Obj(Fake(kind), {"args": list(a), "kw": dict(k)})
    for n in ("NameAttribute", "Name", "SubjectAlternativeName", "DNSName"):
        it.lib["cryptography.x509." + n] = box(n)
    it.lib["cryptography.x509.random_serial_number"] = lambda it2, a, k: SInt(z3.Int("serial"))
    it.lib["cryptography.x509.oid.NameOID"] = Obj(Fake("OID"), {"COMMON_NAME": "CN"})
    enum = lambda p, *names: it.lib.__setitem__(p, Obj(Fake(p), {n: Obj(Fake(n), {}) for n in names}))
    it.lib["cryptography.hazmat.primitives.serialization"] = v.fake("serialization", Encoding=v.fake("E", PEM="PEM"), PrivateFormat=v.fake("PF", PKCS8="PKCS8", TraditionalOpenSSL="TO"), NoEncryption=v.native(box("NoEncryption")))
    it.lib["cryptography.hazmat.primitives.hashes.SHA256"] = box("SHA256")
    it.lib["cryptography.hazmat.backends.default_backend"] = lambda it2, a, k: None
    now = z3.Real("now")
    it.lib["datetime.timezone"] = Obj(Fake("timezone"), {"utc": "utc"})
    it.lib["datetime.datetime"] = Obj(Fake("datetime"), {"now": v.native(lambda it2, a, k: SReal(now)), "utcnow": v.native(lambda it2, a, k: SReal(now))})
    it.lib["datetime.timedelta"] = lambda it2, a, k: it.binop("*", k.get("days", a[0] if a else 0), 86400)

    def builder(d):
        o = Obj(Fake("Builder"), {})

        def step(name):
            def f(it2, a, k):
                nd = dict(d)
                nd.setdefault("ext", [])
                if name == "add_extension":
                    nd["ext"] = nd["ext"] + [a[0]]
                else:
                    nd[name] = a[0]
                return builder(nd)

            return f

        for n in ("subject_name", "issuer_name", "add_extension", "public_key", "serial_number", "not_valid_before", "not_valid_after"):
            o.attrs[n] = v.native(step(n))

        def sign(it2, a, k):
            signed.append((d, a[0] if a else k.get("private_key")))
            i = len(signed) - 1
            return Obj(Fake("Certificate"), {"public_bytes": v.native(lambda *x: SBytes(z3.String(f"crt{i}")))})

        o.attrs["sign"] = v.native(sign)
        return o

    it.lib["cryptography.x509.CertificateBuilder"] = lambda it2, a, k: builder({})
    sni = v.str("name")
    v.case(lambda ev: {"kind": "create"})
    f = it.get_func(TLS)
    outs = []
    for i in range(2):
        r = v.attempt(lambda: it.to_pylist(it.call(f, [sni])))
        if not v.ok_or(r, "key-pair-made"):
            return
        outs.append(r.val)
    v.prove("a-new-key-each-time", z3.BoolVal(len(keys) == 2 and len(signed) == 2))
    if len(keys) != 2 or len(signed) != 2:
        return
    for i, (crt, pem) in enumerate(outs):
        d, by = signed[i]
        v.prove("strong-key", z3.BoolVal(isinstance(keys[i].attrs["size"], int) and keys[i].attrs["size"] >= 2048))
        v.prove("certificate-matches-the-key", z3.BoolVal(by is keys[i] and isinstance(d.get("public_key"), Obj) and d["public_key"].attrs.get("of") is keys[i]))
        v.prove("returns-certificate-and-key", z3.And(it.bterm(crt) == z3.String(f"crt{i}"), it.bterm(pem) == z3.String(f"pem{i}")))
        names = [x.attrs["args"][0] for e in d["ext"] if e.cls.name == "SubjectAlternativeName" for x in it.to_pylist(e.attrs["args"][0])]
        v.prove("valid-for-the-cluster", z3.Or([v.eq(x, sni) for x in names] or [z3.BoolVal(False)]))
        v.prove("valid-now", z3.And(v.cmp("<=", d["not_valid_before"], SReal(now)), v.cmp(">", d["not_valid_after"], SReal(now))))


# ---------------------------------------------------------------- kubernetes
KC = "dask_gateway_server.backends.kubernetes.controller.KubeController"


@contract("C11", KC + ".make_secret", "kubernetes_secret", assumes=A_UUID)
def kubernetes_secret(v):
    it, ctx = v.it, v.ctx
    kp = []
    cert, key = SBytes(z3.String("new_cert")), SBytes(z3.String("new_key"))
    it.overrides["dask_gateway_server.tls.new_keypair"] = lambda it, a, k: ctx.mut_append(kp, a[0]) or (cert, key)
    b64 = z3.Function("b64", STR, STR)
    it.lib["base64.b64encode"] = lambda it2, a, k: SBytes(b64(it.bterm(it.resolve(a[0]))))
    o = v.obj(KC, gateway_instance=v.str("instance"), common_labels=v.pydict({}), common_annotations=v.pydict({}))
    o.attrs["get_labels"] = v.native(lambda it2, a, k: v.opaque("labels"))
    name = v.str("cluster")
    v.case(lambda ev: {"kind": "secret", "name": ev(name)})
    toks = []
    for i in range(2):
        r = v.attempt(lambda: it.call(it.getattr(o, "make_secret"), [name]))
        if not v.ok_or(r, "secret-made"):
            return
        d = it.getitem(r.val, "data")
        g = lambda k: it.sterm(it.resolve(it.getitem(d, k)))
        toks.append(g("api-token"))
        v.prove("own-key-pair", z3.And(z3.BoolVal(len(kp) == i + 1), v.eq(kp[-1], name), g("dask.crt") == b64(cert.t), g("dask.pem") == b64(key.t)))
    uu = list(ctx.state.get("uuids", []))
    v.prove("token-is-random", z3.And([z3.Or([t == b64(u) for u in uu] or [z3.BoolVal(False)]) for t in toks]))
    x, y = z3.Strings("x y")
    v.assume(z3.And([z3.Implies(b64(a) == b64(b), a == b) for i, a in enumerate(uu) for b in uu[:i]] or [z3.BoolVal(True)]))
    v.prove("each-cluster-its-own-token", toks[0] != toks[1])
