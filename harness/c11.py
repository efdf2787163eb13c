"""Secrets in real databases: what is written, and what is read back."""
import asyncio
import base64
import os
import random
import shutil
import sqlite3
import tempfile

import cryptography.x509 as x509
from cryptography.fernet import Fernet
from cryptography.hazmat.primitives import serialization

from dask_gateway_server import tls
from dask_gateway_server.backends import db_base as D

PARALLEL = 4
_pairs = []


def cases(tier, seed):
    rng = random.Random(seed)
    yield {"kind": "keys"}
    yield {"kind": "create"}
    yield {"kind": "secret"}
    for _ in range({"quick": 150, "deep": 600, "thorough": 4000}[tier]):
        yield {"kind": "db", "seed": rng.randrange(1 << 30)}


def run(case):
    async def main():
        return run_case(case)

    return asyncio.run(main())


def run_case(case):
    out = []
    bad = lambda c, m: out.append((c, m))
    k = case["kind"]
    if k in ("keys", "key", "manager"):
        keys(bad)
    elif k == "create":
        create(bad)
    elif k == "secret":
        secret(bad)
    elif k == "db":
        database(bad, random.Random(case["seed"]))
    return out


def quick_pair(name):
    """Real key pairs are slow: a few of them, used for different clusters."""
    if len(_pairs) < 3:
        _pairs.append(tls.new_keypair(name))
        return _pairs[-1]
    return _pairs[hash(name) % 3]


def raw_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def database(bad, rng):
    d = tempfile.mkdtemp()
    old = D.new_keypair
    D.new_keypair = quick_pair
    try:
        path = os.path.join(d, "x.sqlite")
        url = "sqlite:///" + path
        ring = [Fernet.generate_key() for _ in range(4)]
        active = rng.sample(ring, rng.randrange(1, 4))
        made = {}
        for rnd in range(rng.randrange(1, 4)):
            dm = D.DataManager(url=url, encrypt_keys=list(active))
            for n, (tok, crt, key) in made.items():
                c = dm.get_cluster(n)
                if c is None or (c.token, c.tls_cert, c.tls_key) != (tok, crt, key):
                    bad("DataManager.decode::decodes-to-what-was-stored", f"after rotation to {len(active)} keys: {c and c.token!r} instead of {tok!r}")
                    return
            for _ in range(rng.randrange(1, 3)):
                c = dm.create_cluster(rng.choice(["ann", "bob"]), {}, {"a": 1})
                if c.token == c.name or c.token in c.name or c.name in made or any(c.token == t for t, _, _ in made.values()):
                    bad("DataManager.create_cluster::token-is-random", f"name {c.name} token {c.token}")
                made[c.name] = (c.token, c.tls_cert, c.tls_key)
                if rng.random() < 0.5:
                    dm.update_cluster(c, status=D.JobStatus.SUBMITTED, state={"x": 1})
            dm.db.dispose()
            con = sqlite3.connect(path)
            rows = con.execute("select name, token, tls_credentials from clusters").fetchall()
            con.close()
            raw = raw_bytes(path)
            for n, (tok, crt, key) in made.items():
                for s in (tok.encode(), crt, key, crt.split(b"\n")[1], key.split(b"\n")[1]):
                    if s in raw or base64.b64encode(s) in raw:
                        bad("DataManager.create_cluster::secrets-are-written-encrypted-only", "a secret is readable in the database file")
                        return
            newest = {n for n in list(made)[-1:]}
            for n, t, c in rows:
                if n in newest:
                    try:
                        f = Fernet(active[0])
                        if f.decrypt(t).decode() != made[n][0] or f.decrypt(c) != made[n][1] + b";" + made[n][2]:
                            bad("DataManager.encode::written-encrypted-under-the-first-key", "other text")
                    except Exception as e:
                        bad("DataManager.encode::written-encrypted-under-the-first-key", repr(e))
                        return
            # rotate: a new first key, the old ones kept
            new = rng.choice(ring)
            active = [new] + [k for k in active if k != new]
            if rng.random() < 0.3:
                rng.shuffle(active)
        try:
            dm = D.DataManager(url=url, encrypt_keys=[])
            bad("DataManager.__init__::refused-without-a-key", "opened without a key")
        except Exception:
            pass
    finally:
        D.new_keypair = old
        shutil.rmtree(d)


class Fake:
    _db_encrypt_keys_validate = D.DBBackendBase._db_encrypt_keys_validate


def keys(bad):
    import types

    val = D.DBBackendBase.__dict__["_db_encrypt_keys_validate"]
    val = getattr(val, "func", None) or getattr(val, "_func", None) or val
    from traitlets.config import Config

    class B(D.DBBackendBase):
        pass

    k32 = [os.urandom(32) for _ in range(40)]
    good = [x for x in k32] + [base64.b64encode(x) for x in k32] + [base64.urlsafe_b64encode(x).decode() for x in k32]
    for x in good:
        want = base64.urlsafe_b64encode(x if isinstance(x, bytes) and len(x) == 32 else base64.urlsafe_b64decode(x))
        try:
            got = D._normalize_encrypt_key(x)
        except Exception as e:
            bad("_normalize_encrypt_key::only-other-lengths-refused", f"{x!r}: {e!r}")
            continue
        if got != want:
            bad("_normalize_encrypt_key::key-unchanged", f"{x!r} became {got!r}")
    for n in list(range(0, 70)):
        for x in (os.urandom(n), base64.b64encode(os.urandom(n)), "a" * n, "?" * n):
            raw = x.encode() if isinstance(x, str) else x
            eff = raw
            if len(raw) == 44:
                try:
                    eff = base64.urlsafe_b64decode(raw)
                except Exception:
                    pass
            try:
                got = D._normalize_encrypt_key(x)
            except ValueError:
                got = None
            except Exception as e:
                bad("_normalize_encrypt_key::only-32-byte-keys", f"{x!r}: {e!r}")
                continue
            if (got is None) != (len(eff) != 32):
                bad("_normalize_encrypt_key::only-32-byte-keys", f"{x!r}: {got!r}")
    ok = base64.urlsafe_b64encode(k32[0]).decode()
    ok2 = base64.urlsafe_b64encode(k32[1]).decode()
    saved = os.environb.pop(b"DASK_GATEWAY_ENCRYPT_KEYS", None)
    try:
        for url, mem in (("sqlite:////tmp/x.sqlite", False), ("sqlite://", True), ("sqlite:///:memory:", True), ("postgresql://x/y", False), ("sqlite:///memory.db", False), ("sqlite:///data/:memory:.db", False), ("sqlite:////tmp/:memory:", False), ("postgresql://x/:memory:", False)):
            for conf in (None, [], [ok], [ok, ok2], ["short"]):
                for env in (None, "", ok, f" {ok} ;{ok2};", "short"):
                    if env is None:
                        os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
                    else:
                        os.environ["DASK_GATEWAY_ENCRYPT_KEYS"] = env
                    used = conf if conf is not None else [x.strip() for x in (env or "").split(";") if x.strip()]
                    want = None if "short" in used or (not used and not mem) else [x.encode() for x in used]
                    for how in ("config", "kwargs"):
                        try:
                            if how == "config":
                                c = Config()
                                c.B.db_url = url
                                if conf is not None:
                                    c.B.db_encrypt_keys = conf
                                got = B(config=c).db_encrypt_keys
                            else:
                                got = B(db_url=url, **({"db_encrypt_keys": conf} if conf is not None else {})).db_encrypt_keys
                        except Exception:
                            got = None
                        if got != want:
                            bad("DBBackendBase._db_encrypt_keys::keys-used", f"{how} url {url} keys {conf} environment {env!r}: {got} instead of {want}")
                            return
    finally:
        os.environ.pop("DASK_GATEWAY_ENCRYPT_KEYS", None)
        if saved is not None:
            os.environb[b"DASK_GATEWAY_ENCRYPT_KEYS"] = saved
    for url in ("sqlite://", "sqlite:///:memory:"):
        dm = D.DataManager(url=url, encrypt_keys=[])
        if dm.decode_token(dm.encode_token("abc")) != "abc":
            bad("DataManager::token-decodes-to-what-was-stored", url)


def create(bad):
    a, b = tls.new_keypair("one"), tls.new_keypair("one")
    if a[1] == b[1]:
        bad("new_keypair::a-new-key-each-time", "same key twice")
    for crt, pem in (a, b):
        c = x509.load_pem_x509_certificate(crt)
        k = serialization.load_pem_private_key(pem, None)
        if c.public_key().public_numbers() != k.public_key().public_numbers():
            bad("new_keypair::certificate-matches-the-key", "other key")
        if k.key_size < 2048:
            bad("new_keypair::strong-key", f"{k.key_size}")
        names = c.extensions.get_extension_for_class(x509.SubjectAlternativeName).value.get_values_for_type(x509.DNSName)
        if "one" not in names:
            bad("new_keypair::valid-for-the-cluster", f"{names}")
        import datetime

        now = datetime.datetime.now(datetime.timezone.utc)
        if not c.not_valid_before_utc <= now < c.not_valid_after_utc:
            bad("new_keypair::valid-now", "expired")
        if b";" in crt + pem:
            bad("new_keypair::no-separator-in-pem", "; in a certificate")
    # what the cluster gets is the pair made for it
    seen = []
    old = D.new_keypair
    D.new_keypair = lambda n: seen.append(n) or (b"C" + n.encode(), b"K" + n.encode())
    try:
        dm = D.DataManager()
        cs = [dm.create_cluster("u", {}, {}) for _ in range(3)]
        for c in cs:
            if (c.tls_cert, c.tls_key) != (b"C" + c.name.encode(), b"K" + c.name.encode()):
                bad("DataManager.create_cluster::own-key-pair", f"{c.name}: {c.tls_cert}")
        if len({c.token for c in cs} | {c.name for c in cs}) != 6:
            bad("DataManager.create_cluster::token-is-random", "tokens and names repeat")
    finally:
        D.new_keypair = old


def secret(bad):
    from dask_gateway_server.backends.kubernetes import controller as K

    class O:
        common_annotations = {}
        make_secret = K.KubeController.make_secret
        make_secret_name = K.KubeController.make_secret_name

        def get_labels(self, *a):
            return {}

    old = K.new_keypair
    K.new_keypair = lambda n: (b"C" + n.encode(), b"K" + n.encode())
    try:
        toks = []
        for n in ("a", "b", "a"):
            d = O().make_secret(n)["data"]
            dec = {k: base64.b64decode(v) for k, v in d.items()}
            if dec["dask.crt"] != b"C" + n.encode() or dec["dask.pem"] != b"K" + n.encode():
                bad("KubeController.make_secret::own-key-pair", f"{n}: {dec}")
            toks.append(dec["api-token"])
        if len(set(toks)) != 3 or min(map(len, toks)) < 32:
            bad("KubeController.make_secret::each-cluster-its-own-token", f"{toks}")
    finally:
        K.new_keypair = old
