"""Generators of verification sessions: messages signed, changed in transit, received under some configuration.
What is expected comes from spec/Verify.tla.  Negative numbers stand for halves of Base64 texts (see there)."""
import copy, json, random, time
from .gen import WSPS, case_mix, idna_rows, fieldvalue

KEYS = [("ed1", "ed25519", 256), ("ed2", "ed25519", 256), ("rsa1024", "rsa", 1024), ("rsa2048", "rsa", 2048), ("rsa512", "rsa", 512), ("rsa1016", "rsa", 1016),
        ("rsa1017", "rsa", 1017), ("rsa1023", "rsa", 1023), ("rsa1025", "rsa", 1025), ("rsa1024b", "rsa", 1024),
        ("rsa511", "rsa", 511), ("rsa513", "rsa", 513), ("rsa3072", "rsa", 3072), ("rsa4096", "rsa", 4096)]
FORMS = {"rsa": ["spki", "pkcs1", "junk", "trunc"], "ed25519": ["raw", "spki", "junk", "trunc", "nopoint"]}
GOODFORMS = {"rsa": 2, "ed25519": 2}

def keysym(k, f):
    return -(100 + 20 * k + 2 * f)

def key_table(used):
    """used: set of (key index, form index)"""
    return [{"sym": keysym(k, f), "id": KEYS[k][0], "type": KEYS[k][1], "bits": KEYS[k][2], "form": FORMS[KEYS[k][1]][f], "ok": f < GOODFORMS[KEYS[k][1]]} for k, f in sorted(used)]

def L(b):
    return list(b) if isinstance(b, (bytes, bytearray)) else list(b.encode())

def valid_value(v):
    b = bytes(x if x >= 0 else 65 for x in v)
    for i, l in enumerate(b.split(b"\r\n")):
        if any((c < 32 and c != 9) or c == 127 for c in l):
            return False
        if i and (not l or l[0] not in b" \t" or not l.strip(b" \t")):
            return False
    return True

HNAMES = [b"From", b"To", b"Subject", b"Date", b"Cc", b"X-A", b"List-Id", b"Received", b"x|y", b"References"]

def words(rnd, n):
    return rnd.choice([b" ", b"", b"  ", b"\t"]) + rnd.choice(WSPS).join(rnd.choice([b"a", b"Bc", b"x;y", b"b=1", b"<u@a.example>", "\u00e4".encode(), b"\xff", b"q:r", b"DKIM", b"1"]) for _ in range(n))

def base_headers(rnd):
    hs = [[L(b"From"), L(words(rnd, rnd.choice([1, 2])))]]
    for _ in range(rnd.choice([1, 2, 3, 4, 6])):
        nm = rnd.choice(HNAMES)
        hs.insert(rnd.randrange(len(hs) + 1), [L(case_mix(rnd, nm) if rnd.random() < 0.2 else nm), L(words(rnd, rnd.choice([0, 1, 2, 3])))])
    return hs

def body(rnd):
    out = b""
    for _ in range(rnd.choice([0, 1, 2, 3, 5])):
        out += rnd.choice([b"", b"", b"a", b"hello  world", b" x\ty ", b"a ", b".", b"\xff", b"a\rb", b"a\nb", b"  "]) + b"\r\n"
    if rnd.random() < 0.35:
        out += rnd.choice([b"end", b"x ", b"\r", b"a b"])
    return out

# Bytes standing for blocks of ordinary bytes, until a record is finished.
BLOBS = (0xF1, 0xF2, 0xF3)
BLOB_SIZES = [100, 255, 256, 1000, 1023, 1024, 4095, 4096, 4097, 8192, 10000, 16384, 32768, 65535, 65536, 65537, 100000, 131072, 300000]

def blob_lines(rnd, b):
    """A body with blocks in it."""
    ls = b.split(b"\r\n")
    for _ in range(rnd.choice([1, 1, 2, 4])):
        x = bytes([rnd.choice(BLOBS)])
        ls.insert(rnd.randrange(len(ls) + 1), rnd.choice([x, x, x + b" ", b"a " + x, x + b"\t " + x, x + b"\r", b" " + x]))
    return b"\r\n".join(ls)

def enlarge(v, sizes):
    return [1000 + sizes[c] if c in sizes else c for c in v]

class Msg:
    """Message under construction with its symbol tables."""
    def __init__(self, rnd):
        self.rnd = rnd
        self.headers = base_headers(rnd)
        self.body = body(rnd)
        self.sizes, self.extra = {}, [0]
        if rnd.random() < 0.12:
            self.body = blob_lines(rnd, self.body)
            self.sizes = {c: rnd.choice(BLOB_SIZES) for c in BLOBS}
            if rnd.random() < 0.3 and self.headers:
                h = rnd.choice(self.headers)
                h[1] = h[1] + L(rnd.choice([b" \xf1", b"\xf2 \t x", b"\r\n \xf1\r\n \xf2"]))
            n = [self.sizes[c] - 1 for c in self.body if c in self.sizes]
            self.extra = [0, sum(n), sum(n), sum(n) // 2, n[0] if n else 0]
        self.bhs, self.signs, self.used, self.dns = [], [], set(), {}
        self.names = set()
        self.spoilt = []

    def add_bh(self, alg, n, bits, text=None):
        sym = -(1000 + 2 * len(self.bhs))
        self.bhs.append({"sym": sym, "alg": alg, "len": n, "body": L(self.body if text is None else text), "bits": bits})
        return sym

    def wsp(self, p=0.25):
        return L(self.rnd.choice(WSPS)) if self.rnd.random() < p else []

    def keydata(self, k, f=None):
        if f is None:
            f = self.rnd.randrange(GOODFORMS[KEYS[k][1]]) if self.rnd.random() < 0.5 else 0
        self.used.add((k, f))
        s = keysym(k, f)
        return [s] + self.wsp(0.1) + [s - 1]

    def record(self, key, f=None, /, **tags):
        """A key record text for key k."""
        rnd = self.rnd
        t = {}
        if rnd.random() < 0.7:
            t["v"] = L("DKIM1")
        if KEYS[key][1] != "rsa" or rnd.random() < 0.5:
            t["k"] = L(KEYS[key][1])
        for n in ("h", "s", "t", "n"):
            if rnd.random() < 0.1:
                t[n] = L({"h": rnd.choice(["sha256", "sha1:sha256", "SHA256:x"]), "s": rnd.choice(["*", "email", "x:email"]), "t": rnd.choice(["y", "x", "y:x"]), "n": "note"}[n])
        t["p"] = self.keydata(key, f)
        for n, v in tags.items():
            if v is None:
                t.pop(n, None)
            else:
                t[n] = v if isinstance(v, list) else L(v)
        out = []
        for n in t:
            out += (L(";") + self.wsp(0.3) if out else []) + L(n) + L("=") + t[n]
        return out

    def publish(self, name, recs=None, err="", delay=0):
        self.dns[bytes(name)] = {"name": L(name), "err": err, "recs": recs or [], "delay": delay}

    def sign(self, key, **opt):
        """Signs the message as it is and prepends the signature."""
        rnd = self.rnd
        rsa = KEYS[key][1] == "rsa"
        alg = opt.get("alg", "rsa-sha256" if rsa else "ed25519-sha256")
        bits = 160 if alg == "rsa-sha1" else 256
        ch, cb = opt.get("ch") or rnd.choice(["simple", "relaxed", "relaxed"]), opt.get("cb") or rnd.choice(["simple", "relaxed"])
        n = opt.get("l")
        if n is None and rnd.random() < 0.25:
            n = rnd.choice([0, 1, len(self.body) // 2, len(self.body) // 2, max(0, len(self.body) - 4), len(self.body) + 3]) + rnd.choice(self.extra)
        if n is not None and n < 0:
            n = None
        d, s = opt.get("d", b"a.example"), opt.get("s", b"s%d" % len(self.signs))
        present = [bytes(h[0]) for h in self.headers if bytes(h[0]).lower() != b"dkim-signature"]
        h = opt.get("h")
        if h is None:
            h = [x for x in present if x.lower() != b"from" and rnd.random() < 0.7]
            froms = [x for x in present if x.lower() == b"from"]
            h += froms if froms else [b"From"]
            if rnd.random() < 0.3:
                h.append(rnd.choice([b"From", b"Subject", b"Nope", b"To"]))
            rnd.shuffle(h)
            if rnd.random() < 0.3:
                h = [case_mix(rnd, x) for x in h]
        bh = opt.get("bh") or self.add_bh(cb, -1 if n is None else n, bits)
        sym = -(2000 + 2 * len(self.signs))
        t = {"v": L("1"), "a": L(alg), "d": L(d), "s": L(s)}
        if (ch, cb) != ("simple", "simple") or rnd.random() < 0.5:
            t["c"] = L("%s/%s" % (ch, cb)) if cb != "simple" or rnd.random() < 0.5 else L(ch)
        hv = []
        for i, x in enumerate(h):
            hv += (self.wsp(0.1) + L(":") + self.wsp(0.15) if i else []) + L(x)
        t["h"] = hv
        if n is not None:
            t["l"] = L("%d" % n) if rnd.random() > 0.06 else L("%d" % (n + rnd.choice([1 << 32, 1 << 31, 1 << 63, 1 << 16, 256])))
        for x in ("t", "x", "i", "q", "z"):
            if opt.get(x) is not None:
                t[x] = L(opt[x])
        if "i" not in t and rnd.random() < 0.2:
            t["i"] = L(rnd.choice([b"me@", b"@", b"me@sub.", b"=6De@"]) + d)
        if rnd.random() < 0.15:
            t["q"] = L("dns/txt")
        for x in ("bb", "B", "r", "zb", "b_"):
            if rnd.random() < 0.08:
                t[x] = L(rnd.choice(["", "b=1", "x y", "b", "x\r\n b=2"]))
        t["bh"] = [bh] + self.wsp(0.2) + [bh - 1] if rnd.random() > 0.03 else [bh]     # or only its first half
        t["b"] = self.wsp(0.1) + [sym] + self.wsp(0.3) + [sym - 1]
        order = list(t)
        if rnd.random() < 0.5:
            rnd.shuffle(order)
        for _ in range(200):
            v = []
            for i, x in enumerate(order):
                v += (L(";") if i else []) + (L(" ") if rnd.random() < 0.6 else self.wsp(0.7)) + L(x) + self.wsp(0.05) + L("=") + self.wsp(0.05) + t[x] + self.wsp(0.05)
            if rnd.random() < 0.3:
                v += L(";")
            if valid_value(v):
                break
        else:
            raise ValueError(bytes(x if x >= 0 else 65 for x in v))
        name = L(opt.get("name") or (case_mix(rnd, b"DKIM-Signature") if rnd.random() < 0.2 else b"DKIM-Signature"))
        hl = {x.lower() for x in h}
        self.signs.append({"sym": sym, "key": KEYS[key][0], "bits": bits, "ch": ch, "name": name, "value": list(v), "h": [L(x) for x in h],
                           "headers": [list(x) for x in self.headers if bytes(x[0]).lower() in hl]})
        self.headers.insert(0, [name, v])
        q = a_form(s) + b"._domainkey." + a_form(d) + b"."
        if opt.get("publish", True) and q not in self.dns:
            self.publish(q, [{"err": "", "txt": self.record(key)}])
        return len(self.signs) - 1

    def scenario(self, theme, legacy=False, **cfg):
        rnd = self.rnd
        c = {"required": [], "forbidden": [L("From")], "minbits": 1024 if not legacy else 512, "sha1": False, "forbidPartial": False, "expired": False, "future": False,
             "tolerance": L("300"), "max": 10, "timeout": 10000}
        c.update(cfg)
        now = c.pop("now", b"1700000000")
        r = {"theme": theme, "legacy": legacy, "headers": self.headers, "body": L(self.body), "cfg": c, "now": L(now), "dns": list(self.dns.values()),
             "keys": key_table(self.used), "bhs": self.bhs, "signs": self.signs, "spoilt": self.spoilt, "cut": [rnd.randrange(max(1, len(self.body) + 1)) for _ in range(rnd.choice([1, 2, 5]))]}
        if self.sizes:
            def hs(h):
                return [[n, v if bytes(n).lower() == b"dkim-signature" else enlarge(v, self.sizes)] for n, v in h]
            r["cut"] = [c + rnd.choice(self.extra) for c in r["cut"]] + [rnd.choice([4096, 65536, 1024])]
            r["headers"], r["body"] = hs(r["headers"]), enlarge(r["body"], self.sizes)
            r["bhs"] = [dict(b, body=enlarge(b["body"], self.sizes)) for b in r["bhs"]]
            r["signs"] = [dict(x, headers=hs(x["headers"])) for x in r["signs"]]
        return r

def a_form(n):
    out = []
    rows = {r[0]: r[1] for r in idna_rows()}
    rows.update({r[2]: r[1] for r in idna_rows()})
    for l in n.replace("\u3002".encode(), b".").split(b"."):
        out.append(rows[l] if l in rows else l.lower())
    return b".".join(out)

# ---------------------------------------------------------------------------- changes in transit

def wspos(v):
    return [i for i, c in enumerate(v) if c in (32, 9)]

SPOILS = ["tail", "tails", "twice", "head", "cut", "cuts", "half", "first", "flipfirst", "flipmid", "fliplast", "hibit", "zeros", "reverse"]

def tamper(m):
    """One change; returns a name for it or None."""
    rnd, hs = m.rnd, m.headers
    k = rnd.randrange(40)
    sigs = [i for i, h in enumerate(hs) if bytes(h[0]).lower() == b"dkim-signature"]
    others = [i for i in range(len(hs)) if i not in sigs]
    def setval(i, v):
        if valid_value(v):
            hs[i] = [hs[i][0], v]
            return True
    if k < 4 and others:          # whitespace in a value
        i = rnd.choice(others)
        v = list(hs[i][1])
        p = wspos(v)
        if p and rnd.random() < 0.7:
            q = rnd.choice(p)
            v[q:q + 1] = L(rnd.choice(WSPS))
        elif rnd.random() < 0.5:
            v += L(rnd.choice([" ", "\t", "  "]))
        else:
            v = L(" ") + v
        return setval(i, v) and "fold"
    if k < 6 and others:
        i = rnd.choice(others)
        hs[i] = [L(case_mix(rnd, bytes(hs[i][0]))), hs[i][1]]
        return "name case"
    if k < 9:
        hs.insert(rnd.choice([0, len(hs), rnd.randrange(len(hs) + 1)]), [L(rnd.choice([b"X-New", b"Received", b"DKIM-Signaturex", b"To", b"Subject", b"From"])), L(words(rnd, 1))])
        return "header added"
    if k < 11 and others:
        i = rnd.choice(others)
        hs.insert(rnd.choice([0, len(hs), i, i + 1]), list(hs[i]))
        return "header doubled"
    if k < 13 and others:
        hs.pop(rnd.choice(others))
        return "header removed"
    if k < 15 and len(hs) > 1:
        i, j = rnd.sample(range(len(hs)), 2)
        hs[i], hs[j] = hs[j], hs[i]
        return "headers swapped"
    if k < 18 and others:
        i = rnd.choice(others)
        v = list(hs[i][1])
        if not v:
            return None
        q = rnd.randrange(len(v))
        v[q] = rnd.choice([97, 65, 32, 59, 255, v[q] ^ 32 if 32 < v[q] < 127 and (v[q] ^ 32) != 127 else 98])
        return setval(i, v) and "value changed"
    if k < 20:
        m.body += rnd.choice([b"\r\n", b"\r\n\r\n", b" \r\n", b"x", b"more\r\n", b"\r"])
        return "body appended"
    if k < 23 and m.body:
        q = rnd.randrange(len(m.body))
        m.body = m.body[:q] + rnd.choice([b" ", b"\t ", b"\r\n", b"z", b"\n", b""]) + m.body[q + rnd.choice([0, 1]):]
        return "body changed"
    if k < 24:
        m.body = m.body[:rnd.randrange(len(m.body) + 1)]
        return "body cut"
    if not sigs:
        return None
    i = rnd.choice(sigs)
    v = list(hs[i][1])
    if k < 26:                    # whitespace somewhere in the signature
        q = rnd.choice([x for x in range(len(v) + 1)])
        v[q:q] = L(rnd.choice(WSPS))
        return setval(i, v) and "space in signature"
    if k < 27:                    # whitespace inside or around b=
        bs = [x for x, c in enumerate(v) if -3000 < c <= -2000]
        if bs:
            q = rnd.choice(bs) + rnd.choice([0, 1])
            v[q:q] = L(rnd.choice(WSPS))
            return setval(i, v) and "space in b="
    if k < 29:
        add = rnd.choice([b";zz=1", b"; b1=x", b";bb=y", b";", b" ", b"; l=1", b";t=1"])
        return setval(i, v + L(add)) and "tag added"
    if k < 30:
        hs[i] = [L(case_mix(rnd, bytes(hs[i][0]))), v]
        return "signature name case"
    if k < 31:
        hs.insert(rnd.choice([0, len(hs)]), list(hs[i]))
        return "signature doubled"
    if k < 32:
        hs.pop(i)
        return "signature removed"
    if k < 34:                    # a symbol is exchanged, cut or replaced
        ss = [x for x, c in enumerate(v) if c < 0]
        if ss:
            q = rnd.choice(ss)
            j = rnd.random()
            if j < 0.3:
                v[q:q + 1] = L("QUJD")
            elif j < 0.5:
                v[q:q + 1] = []
            elif j < 0.8:
                q2 = rnd.choice(ss)
                v[q], v[q2] = v[q2], v[q]
            else:
                lo, hi = (-2000, -1000) if v[q] > -2000 else (-3000, -2000)
                pool = [c for h in hs for c in h[1] if lo < c <= hi or c == lo]
                pool = [c for c in pool if (c % 2) == (v[q] % 2)]
                if pool:
                    v[q] = rnd.choice(pool)
            return setval(i, v) and "base64 exchanged"
        return None
    if k >= 36:                   # signature or body hash data are altered
        ss = [c for c in v if c <= -1000 and c % 2 == 0 and c - 1 in v]
        if ss:
            c = rnd.choice(ss)
            new = -(4000 + 2 * len(m.spoilt))
            m.spoilt.append({"sym": new, "of": c, "how": rnd.choice(SPOILS if c > -4000 else ["tail", "head", "flipmid", "hibit"])})
            v = [{c: new, c - 1: new - 1}.get(x, x) for x in v]
            return setval(i, v) and "data altered"
        return None
    # a character of the signature is changed
    q = rnd.randrange(len(v))
    if v[q] < 0:
        return None
    c = v[q]
    v[q:q + 1] = rnd.choice([[c ^ 32] if chr(c).isalpha() else [48], [], [c, c], L(rnd.choice(["a", "1", ":", "=", ";"]))])
    return setval(i, v) and "signature text changed"

def theme_tamper(rnd):
    m = Msg(rnd)
    for _ in range(rnd.choice([1, 1, 1, 2])):
        m.sign(rnd.choice([0, 0, 1, 2, 3]))
    n = rnd.choice([0, 1, 1, 1, 2, 3])
    for _ in range(n):
        tamper(m)
    cfg = {}
    if rnd.random() < 0.7:
        cfg["forbidden"] = []
    return m.scenario("tamper", **cfg)

def num_near(rnd, x):
    return b"%d" % max(0, x + rnd.choice([-301, -300, -299, -1, 0, 1, 299, 300, 301, -1000000, 1000000]))

def theme_policy(rnd, legacy=False):
    m = Msg(rnd)
    now = rnd.choice([1700000000, 1700000000, 1700000000, 0, 299, 300, 9223372036854775000])
    for _ in range(rnd.choice([1, 1, 2])):
        opt = {}
        if rnd.random() < 0.6:
            opt["x"] = num_near(rnd, now) if rnd.random() < 0.9 else rnd.choice([b"18446744073709551615", b"18446744073709551614"])
        if rnd.random() < 0.5:
            t = int(num_near(rnd, now)) if rnd.random() < 0.9 else rnd.choice([2**64 - 1, 2**64 - 2, 2**63])
            if "x" in opt and int(opt["x"]) <= t and rnd.random() < 0.95:
                t = max(0, int(opt["x"]) - 1)
            opt["t"] = b"%d" % t
        k = rnd.choice([0, 0, 2, 2, 3, 8])
        if legacy and rnd.random() < 0.4:
            k = rnd.choice([2, 3])
            opt["alg"] = "rsa-sha1"
        if rnd.random() < 0.4:
            opt["l"] = rnd.choice([0, 1, len(m.body), len(m.body) // 2, max(0, len(m.body) - 2), len(m.body) + 2, 18446744073709551615]) + rnd.choice(m.extra)
            opt["l"] = min(opt["l"], 18446744073709551615)
        if rnd.random() < 0.4:
            ns = [bytes(h[0]) for h in m.headers if bytes(h[0]).lower() != b"dkim-signature"]
            opt["h"] = rnd.sample(ns, rnd.randrange(len(ns) + 1)) + [b"From"] * rnd.choice([1, 1, 2]) + ([rnd.choice(HNAMES)] if rnd.random() < 0.4 else [])
        if rnd.random() < 0.2:
            m.headers.insert(rnd.randrange(len(m.headers) + 1), [L(rnd.choice([b"From", b"FROM", b"To", b"X-A"])), L(b" x")])
        m.sign(k, **opt)
    pool = [b"From", b"from", b"To", b"X-A", b"Subject", b"Nope", b"cC", b"DATE"]
    sh = [bytes(x) for x in m.signs[-1]["h"]]
    req = rnd.sample(sh, min(len(sh), rnd.choice([0, 1, 2]))) if rnd.random() < 0.75 else rnd.sample(pool, rnd.choice([0, 1, 2]))
    cfg = {"now": b"%d" % now, "expired": rnd.random() < 0.25, "future": rnd.random() < 0.25, "forbidPartial": rnd.random() < 0.4, "sha1": rnd.random() < 0.5,
           "required": [L(case_mix(rnd, x)) for x in req], "forbidden": [L(x) for x in rnd.sample(pool, rnd.choice([0, 1, 1, 2, 3]))],
           "tolerance": L(rnd.choice([b"300", b"300", b"0", b"1", b"1000000", b"4294967295", b"4294967296", b"8589934592", b"18446744073709551615"])), "minbits": rnd.choice([0, 512, 513, 514, 1024, 1024, 1025, 2048, 2049, 3072, 3073, 4096, 4097] if legacy else [0, 512, 1024, 1024, 1025, 2048, 2049, 3072, 3073, 4096, 4097])}
    if rnd.random() < 0.15:
        tamper(m)
    return m.scenario("policy", legacy, **cfg)

def theme_keys(rnd, legacy=False):
    m = Msg(rnd)
    for _ in range(rnd.choice([1, 1, 1, 2])):
        k = rnd.randrange(len(KEYS))
        opt = {"publish": False}
        d = rnd.choice([b"a.example", b"A.Example", idna_rows()[0][0] + b".example", idna_rows()[0][1] + b".example"])
        opt["d"] = d
        if rnd.random() < 0.5:
            other = idna_rows()[0][rnd.choice([0, 1, 2])] + b".example" if b"a." not in d.lower() else rnd.choice([b"a.example", b"A.EXAMPLE"])
            opt["i"] = rnd.choice([b"u@", b"@"]) + rnd.choice([b"", b"sub.", b"x."] ) + rnd.choice([d, other])
        if legacy and KEYS[k][1] == "rsa" and rnd.random() < 0.4:
            opt["alg"] = "rsa-sha1"
        j = m.sign(k, **opt)
        recs = []
        for _ in range(rnd.choice([1, 1, 1, 1, 2, 2, 3, 4, 5])):
            x = rnd.random()
            if x < 0.1:
                recs.append({"err": rnd.choice(["Other", "NotFound", "TimedOut"]), "txt": []})
                continue
            if x < 0.15:
                recs.append({"err": "", "txt": L(b"v=DKIM1; n=\xff; p=")})
                continue
            kk = k if x < 0.75 else rnd.randrange(len(KEYS))
            tags = {}
            ff = None
            y = rnd.random()
            if y < 0.1:
                tags["p"] = []
            elif y < 0.2:
                ff = rnd.randrange(GOODFORMS[KEYS[kk][1]], len(FORMS[KEYS[kk][1]]))
            elif y < 0.3:
                tags["h"] = rnd.choice(["sha1", "sha256", "sha1:sha256", "sha512:sha1", "sha512"])
            elif y < 0.4:
                tags["k"] = rnd.choice(["rsa", "ed25519", "Ed25519", "RSA", "dsa", None])
            elif y < 0.6:
                tags["t"] = rnd.choice(["s", "y:s", "S", "s:y", "ss", "y"])
            elif y < 0.7:
                tags["s"] = rnd.choice(["email", "*", "other", "other:*", "Email"])
            elif y < 0.75:
                tags["v"] = rnd.choice(["DKIM2", "DKIM1", "dkim1"])
            elif y < 0.8:
                tags["n"] = rnd.choice(["=ZZ", "ok"])
            elif y < 0.85:
                tags["p"] = rnd.choice([L("QUJD"), L("A"), None])
            recs.append({"err": "", "txt": m.record(kk, ff, **tags)})
        if rnd.random() < 0.3:
            recs.append({"err": "", "txt": m.record(k)})
        m.publish(a_form(b"s%d" % j) + b"._domainkey." + a_form(d) + b".", recs)
    cfg = {"minbits": rnd.choice([1024, 1024, 1024, 0, 512, 1016, 1017, 1018, 1023, 1025, 2048, 2049] + [0, 1, 511, 512, 513, 514] * legacy), "sha1": rnd.random() < 0.6}
    if rnd.random() < 0.15:
        tamper(m)
    return m.scenario("keys", legacy, **cfg)

def theme_lookup(rnd):
    m = Msg(rnd)
    r0, r1 = idna_rows()[0], idna_rows()[1]
    doms = [b"a.example", b"A.Example", b"b.example", r0[0] + b".example", r0[1] + b".example", r0[2] + b".example"]
    sels = [b"s", b"S", b"t", r1[0], r1[1], b"s.t"]
    timeout = rnd.choice([10000, 10000, 50, 1000])
    for _ in range(rnd.choice([1, 2, 3, 4])):
        m.sign(rnd.choice([0, 0, 0, 1]), d=rnd.choice(doms), s=rnd.choice(sels), publish=False, **({"x": b"5"} if rnd.random() < 0.15 else {}))
    seen = set()
    for h in m.headers:
        pass
    for d in doms:
        for s in sels:
            q = a_form(s) + b"._domainkey." + a_form(d) + b"."
            if q in seen:
                continue
            seen.add(q)
            delay = rnd.choice([0, 0, 5, 20, 40, 300, 700, 9000, 9990, 10010, 60000, 1 << 30])
            if delay == timeout:
                delay += 1
            x = rnd.random()
            if x < 0.55:
                m.publish(q, [{"err": "", "txt": m.record(rnd.choice([0, 0, 0, 1]))} for _ in range(rnd.choice([1, 1, 1, 2]))], delay=delay)
            elif x < 0.9:
                m.publish(q, err=rnd.choice(["NotFound", "InvalidInput", "TimedOut", "Other", "ConnectionRefused", "InvalidData", "UnexpectedEof", "PermissionDenied", "Unsupported", "WouldBlock", "Interrupted"]), delay=delay)
            elif x < 0.95:
                m.publish(q, [], delay=delay)
    cfg = {"timeout": timeout, "forbidden": []}
    if rnd.random() < 0.3:
        cfg["max"] = rnd.choice([0, 1, 2, 3])
    return m.scenario("lookup", **cfg)

def theme_multi(rnd):
    m = Msg(rnd)
    n = rnd.choice([0, 1, 2, 3, 5, 8, 12])
    for _ in range(n):
        x = rnd.random()
        if x < 0.15:
            bad = rnd.choice([L(b" v=1; a=rsa-sha256; b=\xff"), L(b""), L(b" broken"), L(b" v=2; a=rsa-sha256; d=a.example; s=s; h=From; bh=QUJD; b=QUJD"), L(b" v=1; a=ed25519-sha256; d=a.example; s=s; h=To; bh=QUJD; b=QUJD"),
                               L(b" v=1; a=ed25519-sha256; d=a.example; s=s0; h=From; bh=QUJD; b=QUJD"), L(b" v=1; a=rsa-sha1; d=a.example; s=s0; h=From; bh=QUJD; b=QUJD")])
            m.headers.insert(0, [L(case_mix(rnd, b"DKIM-Signature")), bad])
        elif x < 0.25:
            m.headers.insert(0, [L(rnd.choice([b"DKIM-Signature2", b"X-DKIM-Signature", b"ARC-Message-Signature", b"DKIM_Signature"])), L(b" v=1")])
        else:
            opt = {"d": rnd.choice([b"a.example", b"b.example"]), "s": rnd.choice([b"s", b"t", b"u"])}
            if rnd.random() < 0.2:
                opt["x"] = b"7"
            if rnd.random() < 0.2:
                m.body, old = m.body + b"other", m.body
                opt["bh"] = m.add_bh("simple", -1, 256)
                m.body = old
            m.sign(rnd.choice([0, 0, 1, 2]), **opt)
        if rnd.random() < 0.2:
            m.headers.insert(0, [L(b"Received"), L(b" by x")])
    if rnd.random() < 0.3:
        i, j = rnd.randrange(len(m.headers)), rnd.randrange(len(m.headers))
        m.headers[i], m.headers[j] = m.headers[j], m.headers[i]
    if rnd.random() < 0.06:        # a long way down
        p = rnd.choice([0, 0, rnd.randrange(len(m.headers) + 1)])
        m.headers[p:p] = [[L(rnd.choice([b"Received", b"X-A", b"x-b", b"To"])), L(b" %d" % i)] for i in range(rnd.choice([12, 25, 60, 110, 260]))]
    cfg = {"max": rnd.choice([10, 10, 10, 0, 1, 2, 3, 11, 1 << 20])}
    return m.scenario("multi", **cfg)

SETTINGS = ["required", "forbidden", "minbits", "sha1", "forbidPartial", "expired", "future", "tolerance", "max", "timeout"]

def theme_defaults(rnd, legacy=False):
    """Settings left alone must be as documented: messages on the edge of what the defaults take."""
    m = Msg(rnd)
    what = rnd.choice(["max", "time", "time", "clock", "keys", "names", "partial", "delay", "sha1", "mixed"])
    now = int(time.time()) if what == "clock" else 1700000000
    n = rnd.choice([9, 10, 11, 12, 13]) if what == "max" else rnd.choice([1, 1, 2])
    for _ in range(n):
        opt = {"d": rnd.choice([b"a.example", b"b.example"]), "s": rnd.choice([b"s", b"t", b"u"]) if what == "max" else b"s%d" % len(m.signs)}
        k = rnd.choice([0, 0, 1]) if what == "max" else rnd.choice([0, 0, 2, 3])
        if what in ("keys", "mixed"):
            k = rnd.choice([2, 4, 5, 6, 7, 7, 8, 9])
        if what in ("time", "mixed"):
            e = rnd.choice([-301, -300, -299, -1, 0, 1, 299, 300, 301, -600, 600, 3600])
            if rnd.random() < 0.6:
                opt["x"] = b"%d" % (now + e)
            if "x" not in opt or rnd.random() < 0.3:
                f = rnd.choice([-301, -300, -299, 0, 1, 299, 300, 301, 600])
                opt["t"] = b"%d" % (min(now + f, now + e - 1) if "x" in opt else now + f)
        if what == "clock":
            e = rnd.choice([-86400, 86400, 20 * 86400, -20 * 86400])
            opt[rnd.choice(["x", "t"])] = b"%d" % (now + e)
        if what in ("partial", "mixed") and rnd.random() < 0.7:
            opt["l"] = rnd.choice([0, 1, len(m.body) // 2, max(0, len(m.body) - 1)]) + rnd.choice(m.extra)
        if what == "sha1" or legacy and rnd.random() < 0.3:
            if legacy:
                opt["alg"], k = "rsa-sha1", rnd.choice([2, 3])
        if what in ("names", "mixed"):
            ns = [bytes(h[0]) for h in m.headers if bytes(h[0]).lower() != b"dkim-signature"]
            opt["h"] = rnd.sample([x for x in ns if x.lower() != b"from"], rnd.randrange(len([x for x in ns if x.lower() != b"from"]) + 1)) + [b"From"] * rnd.choice([1, 1, 2])
        j = m.sign(k, publish=False, **opt)
        delay = rnd.choice([9990, 9999, 10001, 10010, 20000, 0]) if what in ("delay", "mixed") else 0
        q = a_form(opt["s"]) + b"._domainkey." + a_form(opt["d"]) + b"."
        if q not in m.dns:
            m.publish(q, [{"err": "", "txt": m.record(k)}], delay=delay)
    if what in ("names", "mixed") and rnd.random() < 0.6:
        m.headers.insert(rnd.randrange(len(m.headers) + 1), [L(rnd.choice([b"From", b"FROM", b"To", b"Subject", b"Sender", b"DKIM-Signature"])), L(b" x")])
    cfg = {"required": rnd.choice([[], [L("To")], [L("x-none"), L("From")]]), "forbidden": rnd.choice([[], [L("To")], [L("To"), L("Subject")], [L("X-A")]]),
           "minbits": rnd.choice([0, 512, 1023, 1025, 2048]), "sha1": rnd.random() < 0.8, "forbidPartial": rnd.random() < 0.7, "expired": rnd.random() < 0.7, "future": rnd.random() < 0.7,
           "tolerance": L(rnd.choice([b"0", b"1", b"3600", b"60"])), "max": rnd.choice([0, 1, 5, 11, 100]), "timeout": rnd.choice([5000, 1000, 30000]), "now": b"%d" % now}
    k = rnd.random()
    left = list(SETTINGS) if k < 0.45 else [x for x in SETTINGS if rnd.random() < (0.85 if k < 0.75 else 0.4)]
    if what == "clock":
        left.append("now")
    r = m.scenario("defaults", legacy, **cfg)
    r["left"] = left
    return r

def abstract_sessions(seed, n, timeout):
    """Sessions of spec/Session.tla (mode "given" of MCSession), up to nine signatures at up to five places."""
    rnd = random.Random("abstract %d" % seed)
    kinds = ["syntax", "refused", "broken", "good", "good", "good", "bodybad", "short"]
    outs = ["key", "key", "key", "wrong", "junk", "empty", "NotFound", "InvalidInput", "TimedOut", "Other"]
    res = []
    places = list("pqruv") + ["m%d" % i for i in range(1, 9)]
    for _ in range(n):
        ds = [d for d in rnd.choice([range(timeout + 3), range(timeout), [0], [timeout - 1, timeout + 1]]) if d != timeout]
        if rnd.random() < 0.1:         # many lookups at once
            ks, mx = rnd.choice([["good"], ["good", "good", "broken"], kinds]), rnd.choice([10, 12, 13, 14])
            sigs = [{"kind": rnd.choice(ks), "w": w} for w in rnd.sample(range(1, 17), rnd.choice([8, 11, 13, 15]))]
            ds = rnd.choice([ds, [2], [timeout - 1], [1, 3]])
        else:
            k = rnd.choice([0, 1, 2, 3, 4, 6, 9])
            sigs, mx = [{"kind": rnd.choice(kinds), "w": rnd.randrange(8) + 1} for _ in range(k)], rnd.choice([0, 1, 2, 3, 5, 9, 10, 10, 10])
        res.append({"sigs": sigs, "dns": {p: {"out": rnd.choice(outs), "delay": rnd.choice(ds)} for p in places}, "max": mx})
    return res

THEMES = {"defaults": theme_defaults, "tamper": theme_tamper, "policy": theme_policy, "keys": theme_keys, "lookup": theme_lookup, "multi": theme_multi}

def sessions(seed, theme, n, legacy=False):
    rnd = random.Random("%d %s %s" % (seed, theme, legacy))
    f = THEMES[theme]
    return [f(rnd, True) if legacy else f(rnd) for _ in range(n)]

# ---------------------------------------------------------------------------- sessions side by side (spec/Weave.tla)

def variant(rnd, base, spare):
    """The same session but for one thing: an answer, a setting, the body, a header, the time."""
    r = copy.deepcopy(base)
    k = rnd.choice(["answer", "answer", "answer", "cfg", "cfg", "body", "header", "now", "order", "none"])
    if k == "answer" and r["dns"]:
        e = rnd.choice(r["dns"])
        what = rnd.randrange(6)
        if what == 0:
            e["err"] = rnd.choice(["NotFound", "Other", "InvalidInput", "TimedOut", "ConnectionRefused"])
        elif what == 1:
            e["err"], e["recs"] = "", []
        elif what == 2:
            e["recs"] = [{"err": "", "txt": L(rnd.choice([b"v=DKIM1; p=", b"junk", b"v=DKIM1; k=x; p=QUJD", b"p=QUJD", b"v=DKIM1; h=sha1; p=QUJD"]))}]
        elif what == 3:
            o = rnd.choice(r["dns"])
            e["recs"], o["recs"], e["err"], o["err"] = o["recs"], e["recs"], o["err"], e["err"]
        elif what == 4:
            e["recs"] = [{"err": "", "txt": L(b"junk")}] + e["recs"]
        else:
            e["recs"] = [{"err": x["err"], "txt": x["txt"] + L(b"; t=s" if rnd.random() < 0.5 else b"; s=tlsrpt")} for x in e["recs"]]
    elif k == "cfg":
        r["cfg"][rnd.choice(["minbits"])] = rnd.choice([0, 512, 1024, 1025, 2048, 2049])
        what = rnd.choice(["sha1", "forbidPartial", "max", "required", "forbidden"])
        r["cfg"][what] = {"sha1": not r["cfg"]["sha1"], "forbidPartial": not r["cfg"]["forbidPartial"], "max": rnd.choice([0, 1, 2]), "required": [L(rnd.choice([b"To", b"X-None", b"Subject"]))],
                          "forbidden": rnd.choice([[], [L(b"To"), L(b"From")]])}[what]
    elif k == "body":
        b = r["body"]
        r["body"] = rnd.choice([b + L(b"more\r\n"), b[:-1], b[1:], L(b"other"), [], L(b"  ") + b, b + L(b"\r\n\r\n")])
    elif k == "header" and len(r["headers"]) > 1:
        i = rnd.randrange(len(r["headers"]))
        if rnd.random() < 0.4:
            del r["headers"][i]
        elif bytes(r["headers"][i][0]).lower() != b"dkim-signature":
            r["headers"][i][1] = L(b" changed")
        else:
            r["headers"].insert(0, r["headers"].pop(i))
    elif k == "now":
        r["now"] = L(rnd.choice([b"1700000000", b"1800000000", b"1600000000"]))
    elif k == "order":
        r["headers"].reverse()
    return r

def families(seed, n):
    rnd = random.Random("families %d" % seed)
    res = []
    for f in range(n):
        outage = f % 4 == 3             # many lookups, and none that works in some of the sessions
        theme = rnd.choice(["keys", "keys", "multi", "lookup", "tamper", "policy"]) if not outage else "multi"
        while True:
            base = THEMES[theme](rnd)
            n_sigs = sum(bytes(h[0]).lower() == b"dkim-signature" for h in base["headers"])
            if len(base["headers"]) < 20 and len(json.dumps(base)) < 12000 and (not outage or n_sigs >= 4):
                break
        for e in base["dns"]:
            e["delay"] = rnd.choice([0, 0, 1, 2])
        base["theme"] = theme
        base["cfg"]["timeout"] = 10000
        fam = [base] + [variant(rnd, base, res) for _ in range(4)]
        if outage:
            for r in fam[1:]:
                err = rnd.choice(["Other", "Other", "TimedOut", "ConnectionRefused", "NotFound", "InvalidInput", ""])
                for e in r["dns"]:
                    e["err"], e["recs"] = err, [] if err else [{"err": "Other", "txt": []}]
        res.append(fam)
    return res
