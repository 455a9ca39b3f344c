"""Generator of signing sessions (messages and requests); what results must be comes from spec/Signing.tla."""
import copy, random
from .gen import WSPS, case_mix, idna_rows, fieldvalue, NAMES
from .genmsg import L, body, words, blob_lines, enlarge, BLOBS, BLOB_SIZES

DEFAULTS = [b"From", b"Reply-To", b"Subject", b"Date", b"To", b"Cc", b"Resent-Date", b"Resent-From", b"Resent-To", b"Resent-Cc", b"In-Reply-To", b"References",
            b"List-Id", b"List-Help", b"List-Unsubscribe", b"List-Subscribe", b"List-Post", b"List-Owner", b"List-Archive"]
OTHERS = [b"Received", b"X-A", b"Message-ID", b"Comments", b"x|y", b"a=b", b"X-Very-Long-Header-Field-Name-That-Does-Not-Fit", b"Sender", b"Resent-Sender", b"List", b"Froms", b"!", b"DKIM-Signature"]
KEYS = {"ed1": ("ed25519", 256), "ed2": ("ed25519", 256), "rsa384": ("rsa", 384), "rsa512": ("rsa", 512), "rsa1017": ("rsa", 1017), "rsa1024": ("rsa", 1024),
        "rsa1025": ("rsa", 1025), "rsa2048": ("rsa", 2048), "rsa3072": ("rsa", 3072), "rsa4096": ("rsa", 4096)}

def header_value(rnd):
    k = rnd.random()
    if k < 0.5:
        return words(rnd, rnd.choice([0, 1, 2, 3, 6]))
    if k < 0.8:
        return fieldvalue(rnd)
    if k < 0.9:
        return b" " + rnd.choice([b"x", "ä".encode(), b"|", b";", b"=", b" "]) * rnd.choice([1, 5, 30, 70, 120]) + b"z"
    return b" " + b" ".join(rnd.choice(["我是".encode(), b"\xff\xfe", b"a|b", b"=3B", b"c:d", b"\xf0\x9f\x98\x80", b"=?utf-8?q?x?="]) for _ in range(rnd.randrange(1, 6)))

def message(rnd, frm=True, rich=True):
    hs = []
    if frm:
        hs.append(b"From")
    for _ in range(rnd.choice([0, 1, 2, 4, 8] if rich else [0, 1, 2])):
        hs.append(rnd.choice(DEFAULTS if rnd.random() < 0.6 else OTHERS))
    if hs and rnd.random() < 0.3:
        hs.append(rnd.choice(hs))
    if frm and rnd.random() < 0.1:
        hs.append(b"From")
    rnd.shuffle(hs)
    res = []
    for h in hs:
        v = header_value(rnd) if h != b"DKIM-Signature" else rnd.choice([b" v=1; b=x", b" junk", b" v=1; a=rsa-sha256; d=x; s=y; h=from; bh=QUJD; b=QUJD"])
        res.append([L(case_mix(rnd, h) if rnd.random() < 0.25 else h), L(v)])
    if not res:
        res.append([L(b"To"), L(b" x")])
    if rich and rnd.random() < 0.02:
        p = rnd.randrange(len(res) + 1)
        res[p:p] = [[L(rnd.choice([b"Received", b"To", b"X-A"])), L(b" %d" % i)] for i in range(rnd.choice([20, 60, 110]))]
    return res

def label(rnd):
    return rnd.choice([b"example", b"a", b"b-c", b"mail", b"x_y", b"0", b"Example", b"q" * rnd.choice([20, 50, 63])])

def domain(rnd, idna=0.3):
    ls = [label(rnd) for _ in range(rnd.choice([0, 1, 1, 2]))] + [rnd.choice([b"com", b"example", b"Net", b"x1"])]
    if rnd.random() < idna:
        ls[rnd.randrange(len(ls))] = rnd.choice(rnd.choice(idna_rows()))
    return rnd.choice([b".", b".", b".", b".", "。".encode()] if not all(x < 128 for l in ls for x in l) else [b"."]).join(ls)

def names_list(rnd, hs):
    present = [bytes(h[0]) for h in hs]
    h = [x for x in present if rnd.random() < 0.7]
    if rnd.random() < 0.5:
        h += [rnd.choice(DEFAULTS + OTHERS[:-1]) for _ in range(rnd.choice([1, 1, 2, 5]))]
    if rnd.random() < 0.3 and h:
        h += [rnd.choice(h)] * rnd.choice([1, 2])
    if not any(x.lower() == b"from" for x in h) or rnd.random() < 0.2:
        h.append(b"From")
    rnd.shuffle(h)
    if rnd.random() < 0.4:
        h = [case_mix(rnd, x) for x in h]
    n = sum(1 for x in present if x.lower() == b"dkim-signature")
    out = []
    for x in h:        # listing more DKIM-Signatures than there are would cover later ones
        if x.lower() == b"dkim-signature":
            if n == 0:
                continue
            n -= 1
        out.append(x)
    return out

EXTV = [b"", b"x", b"a b", b"a\r\n b", b"b=1", b"v\t\r\n\tw  z", "\u00e4\u4e2d".encode(), b"x" * 40, b"y" * 100, b"a\r\n b\r\n\tc", b"|:=", b"1:2"]
def ext_tags(rnd):
    pool = [b"r", b"bb", b"zz", b"B", b"b1", b"long_tag_name", b"A", b"xh", b"V", b"y2"]
    return [[n, rnd.choice(EXTV)] for n in rnd.sample(pool, rnd.choice([1, 1, 2, 3]))]

def request(rnd, hs, body_, no, legacy):
    ed = rnd.random() < 0.6
    key = rnd.choice(["ed1", "ed2"]) if ed else rnd.choice(["rsa1024", "rsa1024", "rsa1024", "rsa1025", "rsa2048", "rsa3072" if rnd.random() < 0.7 else "rsa4096"])
    alg = "ed25519-sha256" if ed else "rsa-sha1" if legacy and rnd.random() < 0.4 else "rsa-sha256"
    if not ed and rnd.random() < 0.12:
        key = rnd.choice(["rsa384", "rsa512", "rsa1017"])
    d = domain(rnd)
    r = {"key": key, "alg": alg, "ch": rnd.choice(["simple", "relaxed"]), "cb": rnd.choice(["simple", "relaxed"]),
         "d": d, "s": b"s%d" % no + (b"." + domain(rnd, 0.4) if rnd.random() < 0.4 else b""), "auto": rnd.random() < 0.4, "h": [], "i": None, "bl": "none", "n": b"0",
         "ts": rnd.choice(["none", "now", "exact", "exact"]), "t": b"1700000000", "dur": None, "copy": rnd.random() < 0.35, "ext": [],
         "name": b"DKIM-Signature", "width": 78, "indent": b"\t", "order": "none", "ascii": rnd.random() < 0.3}
    if not r["auto"]:
        r["h"] = names_list(rnd, hs)
    if rnd.random() < 0.45:
        l = rnd.choice([b"", b"me", b"a.b", b"\"a b\"", "\u00e4".encode(), b"\"x;=\\\"\"", b"a|b=c", "\u4e2d\u6587".encode() * 3, b"=", b"x" * 64])
        dd = rnd.choice([b"", b"", b"sub.", rnd.choice(idna_rows())[0] + b"."]) + d
        if rnd.random() < 0.3:
            dd = case_mix(rnd, dd)
        r["i"] = (l, dd)
    k = rnd.random()
    if k < 0.25:
        r["bl"] = "content"
    elif k < 0.55:
        r["bl"], r["n"] = "exact", b"%d" % max(0, rnd.choice([0, 1, len(body_) // 2, len(body_) // 3, len(body_) - 1, len(body_) - 2, len(body_), len(body_) + 2, len(body_) + 1]))
        if rnd.random() < 0.04:
            r["n"] = rnd.choice([b"18446744073709551615", b"4294967296", b"9223372036854775808"])
    if rnd.random() < 0.4:
        r["t"] = rnd.choice([b"0", b"1", b"18446744073709551615", b"18446744073709551614", b"4294967295", b"18446744073709551515", b"9223372036854775807"])
    if rnd.random() < 0.65:
        r["dur"] = (rnd.choice([b"1", b"432000", b"1", b"100", b"101", b"99", b"18446744073709551615", b"18446744073709551614", b"9223372036854775808"]
                               if rnd.random() < 0.5 else [b"1", b"60", b"432000"]), rnd.choice([0, 0, 999999999]))
    if rnd.random() < 0.4:
        r["ext"] = ext_tags(rnd)
    if rnd.random() < 0.3:
        r["name"] = case_mix(rnd, r["name"])
    k = rnd.random()
    if k < 0.75:
        r["width"] = rnd.choice([1, 2, 3, 4, 5, 8, 10, 14, 15, 16, 17, 18, 19, 20, 22, 25, 30, 40, 60, 77, 78, 79, 100, 200, 998, 100000, rnd.randrange(1, 120), rnd.randrange(1, 120), rnd.randrange(16, 90)])
    if rnd.random() < 0.4:
        r["indent"] = rnd.choice([b" ", b"  ", b"\t\t", b" \t", b"        ", b" " * 40, b" " * 90])
    if len(r["indent"]) > max(2, r["width"] // 2) and rnd.random() < 0.9:     # keep the output short
        r["indent"] = b"  "
    if r["width"] - len(r["indent"]) < 6:
        r["copy"] = r["copy"] and rnd.random() < 0.2
    if rnd.random() < 0.4:
        r["order"] = rnd.choice(["alpha", "reverse", "length", "b-last", "b-last", "bh-last", "h-last", "z-last", "i-last", "d-last", "x-last", "r-last", "b-first", "bh-first", "h-first", "z-first", "i-first", "r-first"])
    return r

def spoil(rnd, r):
    """Makes one thing about a request unusable (mostly)."""
    k = rnd.randrange(16)
    if k == 0:
        r["key"] = rnd.choice(["rsa1024", "ed1"])
    elif k == 1:
        r["auto"], r["h"] = False, rnd.choice([[], [b"To"], [b"Froms"], [b"Subject", b"Date"]])
    elif k == 2:
        r["auto"], r["h"] = False, [b"From", rnd.choice([b"a;b", b";", b"X;"])]
    elif k == 3:
        r["i"] = (b"", rnd.choice([b"x" + r["d"], b"other.example", b"-".join([b"sub", r["d"]]), r["d"].split(b".", 1)[-1] if b"." in r["d"] else b"y.example"]))
    elif k < 6:
        r["dur"] = rnd.choice([(b"0", 0), (b"0", 999999999), (b"0", 1), (b"1", 0)])
    elif k < 10:
        r["ext"] = rnd.choice([ext_tags(rnd), []]) + [list(rnd.choice([(b"v", b"1"), (b"b", b""), (b"bh", b"x"), (b"z", b""), (b"l", b"5"), (b"t", b"1"), (b"x", b"1"), (b"i", b"@x"), (b"c", b"simple"), (b"h", b"to"),
            (b"a", b"x"), (b"d", b"x"), (b"s", b"x"), (b"1a", b"x"), (b"", b"x"), (b"a-b", b"x"), (b"a b", b"x"), (b" r", b"x"), (b"_a", b"x"), (b"rr", b"a;b"), (b"rr", b" a"), (b"rr", b"a "),
            (b"rr", b"a\r\nb"), (b"rr", b"a\nb"), (b"rr", b"\r\n x"), (b"rr", b"a\x00b"), (b"rr", b" "), (b"rr", b"a\r\n \r\n b"), (b"rr", b"a\x7f"), ("r\u00e4".encode(), b"x"), (b"rr", b"a\r\n")]))]
        if rnd.random() < 0.3:
            r["ext"].append([r["ext"][0][0], b"again"])
        rnd.shuffle(r["ext"])
    elif k < 12:
        r["name"] = rnd.choice([b"DKIM-Signatur", b"DKIM-Signature ", b"X-DKIM-Signature", b"", b"DKIM_Signature", b"DKIM-SignaturE", b"ARC-Seal", b"DKIM-Signature:"])
    elif k < 14:
        r["indent"] = rnd.choice([b"", b"x", b" x", b"\r\n ", b"\n", "\u00a0".encode(), b" \t ", b"\x0b", "\u3000".encode()])
    elif k == 14:
        r["ext"] = [[b"rr", b"1"], [b"rr", b"2"]]
    else:
        r["ext"] = [[b"rr", b"1"], [b"RR", b"2"]]

def finish(r):
    t, b = KEYS[r["key"]]
    return {"key": {"id": r["key"], "type": t, "bits": b}, "alg": r["alg"], "ch": r["ch"], "cb": r["cb"], "d": L(r["d"]), "s": L(r["s"]), "auto": r["auto"],
            "h": [L(x) for x in r["h"]], "i": [{"local": L(r["i"][0]), "domain": L(r["i"][1])}] if r["i"] else [], "bl": r["bl"], "n": L(r["n"]), "ts": r["ts"], "t": L(r["t"]),
            "dur": [L(r["dur"][0])] if r["dur"] else [], "nanos": r["dur"][1] if r["dur"] else 0, "copy": r["copy"], "ext": [[L(a), L(b)] for a, b in r["ext"]],
            "fmt": {"name": L(r["name"]), "width": r["width"], "indent": L(r["indent"]), "order": r["order"], "ascii": r["ascii"]}}

def sessions(seed, n, legacy=False):
    res = []
    for i in range(n):
        rnd = random.Random((seed * 1000003 + i) * 2 + legacy)
        k = rnd.random()
        hs = message(rnd, frm=rnd.random() > 0.02, rich=k < 0.7)
        b = body(rnd)
        m = rnd.choice([1, 1, 1, 1, 2, 2, 3, 4]) if rnd.random() < 0.93 else rnd.choice([0, 9, 10, 10, 11, 12])
        rs = [request(rnd, hs, b, j, legacy) for j in range(m)]
        if m > 4:
            for r in rs:
                r["copy"], r["ext"] = False, []
                if rnd.random() < 0.8:
                    r["key"], r["alg"] = "ed1", "ed25519-sha256"
        if rs and rnd.random() < 0.25:
            spoil(rnd, rnd.choice(rs))
        sizes = {}
        if rnd.random() < 0.12:        # a large body
            b = blob_lines(rnd, b)
            sizes = {c: rnd.choice(BLOB_SIZES) for c in BLOBS}
            e = [sizes[c] - 1 for c in b if c in sizes]
            for r in rs:
                if r["bl"] == "exact" and len(r["n"]) < 9:
                    r["n"] = b"%d" % (int(r["n"]) + rnd.choice([0, sum(e), sum(e), sum(e) // 2, e[0]]))
        res.append({"headers": hs, "body": enlarge(L(b), sizes), "reqs": [finish(r) for r in rs], "legacy": legacy})
    return res

def families(seed, n):
    """Sessions of signing alike but for one thing (spec/Weave.tla); nothing depends on the time."""
    rnd = random.Random("sign families %d" % seed)
    res = []
    for f in range(n):
        hs, b = message(rnd, rich=False), body(rnd)
        rs = [request(rnd, hs, b, j, False) for j in range(rnd.choice([1, 1, 2, 3]))]
        if rnd.random() < 0.1:
            spoil(rnd, rnd.choice(rs))
        for r in rs:
            if r["key"] not in ("ed1", "ed2", "rsa1024"):
                r["key"], r["alg"] = "ed2", "ed25519-sha256"
            if r["ts"] != "exact":
                r["ts"], r["dur"] = rnd.choice([("exact", r["dur"]), ("none", None)])
        fam = []
        for k in range(4):
            h2, b2, r2 = copy.deepcopy(hs), b, copy.deepcopy(rs)
            what = rnd.randrange(6) if k else 6
            if what == 0:
                b2 = rnd.choice([b + b"more\r\n", b"", b"other", b[1:]])
            elif what == 1:
                h2[rnd.randrange(len(h2))][1] = L(b" changed")
            elif what == 2:
                x = rnd.choice(r2)
                x["key"] = {"ed1": "ed2", "ed2": "ed1", "rsa1024": "rsa1025"}.get(x["key"], x["key"])
            elif what == 3:
                x = rnd.choice(r2)
                x["ch"], x["cb"] = rnd.choice(["simple", "relaxed"]), rnd.choice(["simple", "relaxed"])
            elif what == 4:
                x = rnd.choice(r2)
                x["width"], x["t"], x["bl"] = rnd.choice([20, 60, 998]), rnd.choice([b"5", b"1700000001"]), rnd.choice(["none", "content"])
            elif what == 5:
                r2 = r2[::-1]
            fam.append({"k": "sign", "headers": h2, "body": L(b2), "reqs": [finish(r) for r in r2], "legacy": False, "cut": [rnd.randrange(len(b2) + 1)]})
        res.append(fam)
    return res
