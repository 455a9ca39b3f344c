"""Input generators (inputs only; what is expected comes from the specification)."""
import random

def body_runs(seed, n, huge):
    rnd = random.Random(seed * 7919 + 1)
    res = []
    pool = [b"", b"", b"", b" ", b"\t", b" \t ", b"a", b"a ", b" a", b"a  b", b"a \t b\t ", b"\r", b"\n", b" \r", b"\r ", b"x\ry", b"\ra", b"\n\n",
            b"a\r", b"\xff\xfe", b"\x00", b"\xc3\xa4 \xc3\xb6", b".", b"--", b"\x0b\x0c", b"\xa0", b"\x85"]
    def rndline():
        k = rnd.random()
        if k < 0.6:
            return rnd.choice(pool)
        if k < 0.9:
            return bytes(rnd.choice([32, 9, 97, 98, 13, 46, 200, 0, 11]) for _ in range(rnd.randrange(0, 12)))
        w = rnd.choice([1, 15, 16, 127, 128, 255, 256, 257, 300])
        return rnd.choice([b"", b"q"]) + rnd.choice([b" ", b"\t", b"z"]) * w + rnd.choice([b"", b"q", b"\r"])
    def clean(line):   # a line contains no CRLF, and does not end in CR (which would shift the line end)
        return line.replace(b"\r\n", b"\n")
    counts = [1, 1, 1, 1, 2, 3, 7, 127, 128, 129, 255, 256, 257, 300]
    for i in range(n):
        runs = []
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 4, 6])):
            runs.append({"line": list(clean(rndline())), "n": rnd.choice(counts)})
        tail = clean(rndline()) if rnd.random() < 0.5 else b""
        res.append({"id": seed * 100000 + i, "runs": runs, "tail": list(tail)})
    big = [65535, 65536, 65537, 70000, 32768, 131072]
    for i in range(huge):
        e = {"line": [], "n": big[i % len(big)]}
        a = {"line": list(rnd.choice([b"a", b"a b", b"x "])), "n": 1}
        shape = i % 5
        runs = [[a, e, a], [e], [e, a], [a, {"line": [32], "n": e["n"]}, a], [a, e]][shape]
        tail = [b"", b"x", b"\r", b" ", b" y"][rnd.randrange(5)]
        res.append({"id": seed * 100000 + 50000 + i, "runs": runs, "tail": list(tail)})
    for i, r in enumerate(res):
        r["k"] = "bodyruns"
    return res


WSPS = [b" ", b"\t", b"  ", b" \t", b"\r\n ", b"\r\n\t", b" \r\n  ", b"\t\r\n\t "]
NAMES = [b"From", b"FROM", b"from", b"To", b"tO", b"Subject", b"SUBJECT", b"X", b"x", b"X-Y", b"x-y", b"Xx", b"DKIM-Signature", b"dkim-signature",
         b"List-Id", b"!#$%&'*+-/=?^_`{|}~", b"A;b", b"0", b"Received", b"rECEIVED", b"[", b"{", b"@", b"`", b"x_y", b"x~y"]

def fieldvalue(rnd, ws=True):
    """A legal header field value."""
    parts = []
    for _ in range(rnd.choice([0, 1, 2, 3, 5])):
        w = bytes(rnd.choice([97, 98, 65, 90, 58, 59, 61, 48, 200, 255, 128, 0xc3, 0xa4, 133, 160, 126, 33]) for _ in range(rnd.randrange(1, 5)))
        parts.append(rnd.choice(WSPS) if (parts or rnd.random() < 0.8) else b"")
        parts.append(w)
        if rnd.random() < 0.1:
            parts.append(b"\r\n " + w)
    if rnd.random() < 0.4:
        parts.append(rnd.choice([b" ", b"\t", b"  ", b" \t "]))
    return b"".join(parts)

def header_texts(seed, n):
    rnd = random.Random(seed * 7907 + 2)
    res = []
    frag = [b"a", b"A", b":", b": ", b" ", b"\t", b"\r\n", b"\r\n ", b"\n", b"\n\t", b"\r", b"\x00", b"\x7f", b"\x0b", b"\x0c", b"\xc3\xa4", b"\xff", b"\xc2\x85", b"\xe2\x80\xa8",
            b"From: x", b"To", b";", b"=", b"\r\n\r\n", b"\x1f", b"~", b"!", b"\xf0\x9f\x98\x80", b"\xed\xa0\x80", b"\xc0\x80", b"\xf4\x90\x80\x80", b"\x80", b"\xe0\xa0\x80", b"\xe0\x9f\xbf"]
    for i in range(n):
        k = rnd.random()
        if k < 0.4:
            s = b"".join(rnd.choice(frag) for _ in range(rnd.randrange(1, 14)))
        elif k < 0.55:
            s = fieldvalue(rnd)
        else:   # a mostly fine section, perhaps damaged
            ls = []
            for _ in range(rnd.randrange(1, 6)):
                v = bytes(b if b < 128 else 113 for b in fieldvalue(rnd))
                ls.append(rnd.choice(NAMES) + rnd.choice([b":", b":", b": ", b":\r\n "]) + v)
            eol = rnd.choice([b"\r\n", b"\n"])
            s = eol.join(ls) + rnd.choice([eol, b"", eol])
            if eol == b"\n":
                s = s.replace(b"\r\n", b"\n")
            if rnd.random() < 0.5:
                p = rnd.randrange(len(s) + 1)
                q = min(len(s), p + rnd.choice([0, 1, 2]))
                s = s[:p] + rnd.choice(frag + [b""]) + s[q:]
        res.append({"k": "field", "s": list(s)})
    for m in (76, 77, 78, 127, 128, 255, 256, 257, 998, 1000):       # long names, values, runs of blanks, and many lines
        for s in (b"N" * m + b": x", b"a: " + b"v" * m, b" a" + b" " * m + b"b", b"a: b\r\n" + b" " * m + b"c" + b"\t" * m, b"a:" + b"\r\n b" * (m // 4), b"\r\n".join(b"H%d: x" % j for j in range(m // 4))):
            res.append({"k": "field", "s": list(s)})
    for c in range(256):      # every byte in every place
        for s in (bytes([c]), b"a" + bytes([c]), b" a\r\n " + bytes([c]), b"a\r\n" + bytes([c]) + b"a", b"a: " + bytes([c]) + b"\r\nb: c", bytes([c]) + b": x\n"):
            res.append({"k": "field", "s": list(s)})
    return res

def header_selects(seed, n):
    rnd = random.Random(seed * 7901 + 3)
    res = []
    for i in range(n):
        names = rnd.sample(NAMES, rnd.choice([1, 2, 3, 6])) + ([b"From", b"from"] if rnd.random() < 0.5 else [])
        hs = [[list(rnd.choice(names)), list(fieldvalue(rnd))] for _ in range(rnd.choice([1, 2, 4, 8, 16, 40]))]
        h = [list(rnd.choice(names + rnd.sample(NAMES, 2))) for _ in range(rnd.choice([0, 1, 2, 4, 8, 20, 45]))]
        sv = bytes(b if b < 128 else 113 for b in fieldvalue(rnd))
        res.append({"k": "select", "headers": hs, "h": h, "sn": list(rnd.choice([b"DKIM-Signature", b"dkim-SIGNATURE"])), "sv": list(sv)})
    for _ in range(max(8, n // 60)):       # crowded messages
        names = rnd.sample(NAMES, 4) + [b"From"]
        hs = [[list(rnd.choice(names)), list(b" %d" % i)] for i in range(rnd.choice([70, 101, 130, 257, 300]))]
        if rnd.random() < 0.6:         # one name at one end only
            hs[rnd.choice([0, 0, -1])] = [list(b"Lone"), list(b" x")]
        h = [list(rnd.choice(names)) for _ in range(rnd.choice([0, 3, 30, 120]))] + [list(b"lONE")]
        rnd.shuffle(h)
        res.append({"k": "select", "headers": hs, "h": h, "sn": list(b"DKIM-Signature"), "sv": list(b" b=")})
    for m in (8, 16, 32, 64, 100, 128, 256, 512):                  # two chosen fields far apart
        for k in (m - 1, m, m + 1):
            for end in (0, 3):
                hs = [[list(b"Pad"), list(b" p")] for _ in range(k + 1 + end)]
                hs[0], hs[k] = [list(b"Early"), list(b" e")], [list(b"Late"), list(b" l")]
                res.append({"k": "select", "headers": hs, "h": rnd.choice([[list(b"Early"), list(b"Late")], [list(b"Late"), list(b"Early")], [list(b"Late"), list(b"Late"), list(b"Early"), list(b"Pad")]]), "sn": list(b"DKIM-Signature"), "sv": list(b" b=")})
    for m in (127, 128, 129, 255, 256, 257, 511, 512, 513, 700):   # long runs, values and names
        ws = lambda: bytes(rnd.choice([32, 9]) for _ in range(m))
        for v in (b"a" + ws() + b"b", ws() + b"a", b"a" + ws(), b" a" + ws() + b"\r\n" + ws() + b"b" + ws() + b"c", b"x" * m + b" " + b"y" * m, b" \r\n a" * (m // 4)):
            res.append({"k": "select", "headers": [[[65] * rnd.choice([1, m]), list(v)], [[66], [32, 98]]], "h": [[65], [66], [65] * m], "sn": list(b"DKIM-Signature"), "sv": list(v)})
    for c in range(33, 127):               # names of every character, also twice
        if c != 58:
            res.append({"k": "select", "headers": [[[c], [32, 97]], [[c ^ 32 if 33 <= c ^ 32 <= 126 and c ^ 32 != 58 else c, c], [98]]], "h": [[c], [c, c], [c]], "sn": list(b"DKIM-Signature"), "sv": [c]})
    for _ in range(n):
        a, b = rnd.choice(NAMES), rnd.choice(NAMES)
        if rnd.random() < 0.4:
            b = bytes(c ^ 32 if (chr(c).isalpha() or rnd.random() < 0.1) and rnd.random() < 0.5 else c for c in a)
            b = bytes(c if 33 <= c <= 126 and c != 58 else 65 for c in b)
        res.append({"k": "names", "a": list(a), "b": list(b)})
    for c in range(33, 127):
        for d in (c ^ 32, c):
            if 33 <= d <= 126 and 58 not in (c, d):
                res.append({"k": "names", "a": [c], "b": [d]})
    return res


def b64(b):
    import base64
    return base64.b64encode(b)

def rndbytes(rnd, n):
    k = rnd.random()
    if k < 0.3:
        return bytes(rnd.randrange(256) for _ in range(n))
    if k < 0.6:
        return bytes(rnd.choice([32, 61, 59, 124, 65, 9, 13, 10, 127, 58, 195, 164, 33, 126]) for _ in range(n))
    return "".join(rnd.choice(["a", "ä", "€", "😀", "=", ";", " ", "|", "\u0085", "\u00a0", "\u2028", "\ufeff", "\u0000", "Z", "\r\n"]) for _ in range(n)).encode()

def codecs(seed, n):
    rnd = random.Random(seed * 7883 + 4)
    res = []
    fold = [b"\r\n ", b"\r\n\t", b" ", b"\t", b"  ", b" \r\n  ", b"\r\n", b"\n ", b"\r "]
    for i in range(n):
        s = rndbytes(rnd, rnd.choice([0, 1, 2, 3, 4, 5, 7, 16, 31, 64]) if rnd.random() < 0.98 else rnd.choice([127, 128, 255, 256, 257, 300]))
        sp = rnd.choice([b"|", b"=", b";", b":", b"a", b" ", "ä".encode(), "€".encode(), b"\x00", b"0", b"~", b"!"])
        res.append({"k": "enc", "s": list(s), "sp": list(sp)})
    for i in range(n):
        parts = []
        for _ in range(rnd.choice([1, 2, 3, 5, 9]) if rnd.random() < 0.98 else rnd.choice([80, 130, 260])):
            parts.append(rnd.choice([b"a", b"B", b"=20", b"=0d", b"=fF", b"=C3=A4", "ä".encode(), b"=4", b"=", b"=G0", b"|", b":", b"!", b"~", b"\x7f", b";", b"=3D", b"=\t4 1", "€".encode(), "😀".encode(), "\u0085".encode(), "\u00a0".encode()]))
            if rnd.random() < 0.3:
                parts.append(rnd.choice(fold))
        if rnd.random() < 0.2:
            parts.insert(0, rnd.choice(fold))
        res.append({"k": "qp", "s": list(b"".join(parts))})
    for i in range(n):
        e = b64(rndbytes(rnd, rnd.choice([0, 1, 2, 3, 4, 5, 20]) if rnd.random() < 0.98 else rnd.choice([47, 48, 49, 100, 256, 300])))
        k = rnd.random()
        if k < 0.5 and e:
            p = rnd.randrange(len(e) + 1)
            q = min(len(e), p + rnd.choice([0, 0, 1, 2]))
            e = e[:p] + rnd.choice([b"", b"=", b"==", b"-", b"_", b"A", b"/", b"\xc3\xa4", b".", b"\x00"] + fold) + e[q:]
        elif k < 0.8:
            out = b""
            for c in e:
                out += bytes([c]) + (rnd.choice(fold[:6]) if rnd.random() < 0.1 else b"")
            e = out
        res.append({"k": "b64", "s": list(e)})
    for c in range(256):
        res.append({"k": "enc", "s": [c], "sp": [124]})
        res.append({"k": "enc", "s": [65, c, 66], "sp": [65]})
        if c < 128:
            res.append({"k": "qp", "s": [c]})
            res.append({"k": "qp", "s": [61, c, 65]})
            res.append({"k": "qp", "s": [61, 65, c]})
            res.append({"k": "qp", "s": [97, c, 97]})
            res.append({"k": "b64", "s": [65, 65, 65, c]})
            res.append({"k": "b64", "s": [65, c, 61, 61]})
            res.append({"k": "b64", "s": [65, 65, c, 61]})
    # every character class boundary of UTF-8, encoded
    for cp in (0x7f, 0x80, 0x9f, 0xa0, 0x7ff, 0x800, 0xfff, 0x1000, 0xd7ff, 0xe000, 0xfdd0, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x3ffff, 0x40000, 0x10ffff):
        u = chr(cp).encode()
        res.append({"k": "enc", "s": list(b"a" + u), "sp": list(u)})
        res.append({"k": "qp", "s": list(u)})
        for cut in range(1, len(u)):
            res.append({"k": "enc", "s": list(u[:cut] + b"A"), "sp": [124]})
            res.append({"k": "enc", "s": list(u[cut:]), "sp": [124]})
    for bad in (b"\xc0\x80", b"\xc1\xbf", b"\xed\xa0\x80", b"\xed\xbf\xbf", b"\xf4\x90\x80\x80", b"\xf5\x80\x80\x80", b"\xe0\x80\x80", b"\xf0\x80\x80\x80", b"\xff", b"\xfe"):
        res.append({"k": "enc", "s": list(b"x" + bad + b"y"), "sp": [124]})
    return res

def tag_texts(seed, n):
    rnd = random.Random(seed * 7877 + 5)
    res = []
    ws = [b"", b"", b"", b" ", b"\t", b"\r\n ", b" \r\n\t", b"  ", b"\r\n", b"\n"]
    names = [b"A", b"B", b"a1", b"x_y", b"Zz9_", b"g", b"gg", b"bb", b"q", b"_a", b"1a", b"a-b", b"", "ä".encode(), b"A", b"a.b", b"V", b"P"]
    vals = [b"", b"x", b"x y", b"=", b"a=b", b"x\r\n y", b"x\t\ty", "ä€😀".encode(), b"!~", b"x\x7f", b"\x00", b"x\r\n\r\n y", b"a\r\ny", b"a \r\n b", b"x:y/z", "\u0085".encode(), "\u00a0x".encode(), "x\u2028".encode(), b"\x0b", b"x\x1f"]
    for i in range(n):
        specs = []
        for _ in range(rnd.choice([0, 1, 1, 2, 3, 4, 7])):
            w = lambda: rnd.choice(ws) if rnd.random() < 0.5 else b""
            nm = rnd.choice(names[:6]) if rnd.random() < 0.8 else rnd.choice(names)
            specs.append(w() + nm + w() + (b"=" if rnd.random() < 0.97 else b"") + w() + rnd.choice(vals if rnd.random() < 0.5 else vals[:8]) + w())
        if rnd.random() < 0.7:   # mostly distinct names
            for j in range(len(specs)):
                specs[j] = specs[j].replace(b"A", b"ABCDEFGHIJ"[j:j+1])
        s = b";".join(specs) + rnd.choice([b"", b"", b";", b"; ", b";;", b" ; ;"])
        res.append({"k": "tags", "s": list(s)})
    for c in range(128):
        for pre, post in ((b"A=", b""), (b"A=x", b"y"), (b"A", b"=x"), (b"", b"A=x"), (b"A=x;", b"B=y")):
            if c in b"pvhknst" and not pre:
                continue
            res.append({"k": "tags", "s": list(pre + bytes([c]) + post)})
    for m in (31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 600):        # long names, values and folds
        for t in (b"N" * m + b"=x", b"A=" + b"v" * m, b"A=v" + b" " * m + b"w", b"A=" + b"\r\n\t" + b"v w" * (m // 3), b"x_" * (m // 2) + b"=" + b"v " * (m // 2) + b";B=" + b"=" * m, b" " * m + b"A" + b"\t" * m + b"=" + b" " * m + b";" + b" " * m):
            res.append({"k": "tags", "s": list(t)})
    many = b";".join(b"T%d=%d" % (j, j) for j in range(150))
    res.append({"k": "tags", "s": list(many)})
    res.append({"k": "tags", "s": list(many + b";T149=")})
    res.append({"k": "tags", "s": list(many + b";T0=x")})
    res.append({"k": "tags", "s": list(many + b";t149=")})
    return res

IDNA_ROWS = None
def idna_rows():
    global IDNA_ROWS
    if IDNA_ROWS is None:
        import re, os
        rows = []
        p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "spec", "IdnaTable.tla")
        for m in re.finditer(r"<<<<([\d, ]*)>>, <<([\d, ]*)>>, <<([\d, ]*)>>>>", open(p).read()):
            if all(m.groups()): rows.append(tuple(bytes(int(x) for x in g.split(",") if x.strip()) for g in m.groups()))
        IDNA_ROWS = rows      # only when complete: suites run in parallel
    return IDNA_ROWS

def case_mix(rnd, b):
    return bytes(c ^ 32 if (65 <= (c & ~32) <= 90) and rnd.random() < 0.5 else c for c in b)

def domain_name(rnd, good=True):
    labs = []
    rows = idna_rows()
    for _ in range(rnd.choice([1, 2, 2, 3, 4, 6])):
        k = rnd.random()
        if k < 0.6:
            l = rnd.choice([b"a", b"b", b"example", b"mail", b"x-y", b"a_b", b"_dmarc", b"1", b"x1", b"1x", b"co", b"z9"])
            l = case_mix(rnd, l) if rnd.random() < 0.4 else l
        elif k < 0.75:
            r = rnd.choice(rows)
            l = r[rnd.choice([0, 1, 2])]
            if rnd.random() < 0.3 and l[:4].lower() == b"xn--":
                l = case_mix(rnd, l)
        elif k < 0.85:
            l = b"l" * rnd.choice([1, 2, 62, 63, 63, 64] if not good else [1, 2, 62, 63])
        else:
            l = rnd.choice([b"abc", b"def", b"ghi"])
        if not good and rnd.random() < 0.2:
            l = rnd.choice([b"", b"-a", b"a-", b"a b", b"a*", b"-", b"a--b", b"_", b"12", b"a@b", b"a/b", b"a\x00", b"a\t", b"a:b", b"a%", b"[1]", b"a\x7f", b"a+b", b"a\\", b"a\"", b"--", b"a#"])
        labs.append(l)
    d = rnd.choice([b".", b".", b".", b".", "。".encode(), "．".encode()]).join(labs)
    if not good and rnd.random() < 0.1:
        d = rnd.choice([b"." + d, d + b".", d.replace(b".", b"..", 1), d + b".1", d + b".1a"])
    return d

def names(seed, n):
    rnd = random.Random(seed * 7873 + 6)
    res = []
    for i in range(n):
        res.append({"k": "domain", "s": list(domain_name(rnd, rnd.random() < 0.5))})
    for tot in (252, 253, 254, 255):     # total lengths, also by A-form
        l = b""
        while len(l) < tot:
            l += b"x" * min(63, tot - len(l) - 0)
            if len(l) < tot:
                l += b"."
        if l.endswith(b"."):
            l = l[:-1] + b"y"
        res.append({"k": "domain", "s": list(l)})
        r = idna_rows()[0]
        u = r[0] + b"." + l[:tot - len(r[1]) - 1].rstrip(b".")
        res.append({"k": "domain", "s": list(u)})
    for r in idna_rows():
        for f in r:
            for t in (f, b"a." + f, f + b".b"):
                res.append({"k": "domain", "s": list(t)})
    for c in range(128):
        for t in (bytes([c]), b"a" + bytes([c]) + b"b", b"x." + bytes([c]) + b"a", b"a" + bytes([c])):
            res.append({"k": "domain", "s": list(t)})
    base = [domain_name(rnd) for _ in range(max(8, n // 8))]
    base = [d for d in base if all(1 <= len(x) <= 63 for x in d.split(b"."))]
    def tail_ok(d):
        t = d.replace("。".encode(), b".").replace("．".encode(), b".").split(b".")[-1]
        return not t.isdigit() and len(d) < 150
    base = [d for d in base if tail_ok(d)]
    rows = idna_rows()
    for i in range(n):
        a = rnd.choice(base)
        k = rnd.random()
        if k < 0.3:
            b = a
        elif k < 0.5:
            b = rnd.choice([b"x", b"sub", rows[0][0], rows[1][1]]) + b"." + a
        elif k < 0.65:
            b = rnd.choice([b"x", b"sub"]) + a
        elif k < 0.8:
            b = a.split(b".", 1)[-1]
        else:
            b = rnd.choice(base)
        for r in rows:     # the same domain in another form
            if rnd.random() < 0.6:
                for f in r:
                    if f in b and f != b"":
                        b = b".".join(rnd.choice(r) if x == f else x for x in b.split(b"."))
                        break
        if rnd.random() < 0.5 and b.isascii():
            b = case_mix(rnd, b)
        if rnd.random() < 0.2:
            b = b.replace(b".", "。".encode(), 1)
        if not tail_ok(b) or any(not 1 <= len(x) <= 63 for x in b.split(b".")):
            continue
        if rnd.random() < 0.5:
            a, b = b, a
        res.append({"k": "pair", "a": list(a), "b": list(b)})
    locs = [b"", b"a", b"a.b", b".a", b"a.", b"a..b", b"a+b", b"\"a b\"", b"\"a\\\"b\"", b"\"a\"b\"", b"\"", b"\"\"", b"\"a", b"a\"", b"\"a\\\"", b"\"@\"", b"a@b", b"a b", b"a;b", b"\";\"", "ä".encode(), "\"ä\"".encode(),
            "\"\\ä\"".encode(), b"a\tb", b"\"a\tb\"", b"(a)", b"a,b", b"<a>", b"a:b", b"a\\b", b"[a]", b"x" * 64, b"x" * 65, b"\"" + b"x" * 62 + b"\"", b"\"" + b"x" * 63 + b"\"", b"!#$%&'*+-/=?^_`{|}~", "ä".encode() * 32, "ä".encode() * 33, b"\x7f", b"\x00", b"\"\\\\\"", b"\"\\\x01\"", "\u0085".encode()]
    for l in locs:
        for d in (b"a.example", b"1", b"", b"A", rows[0][0] + b".x", b"a..b"):
            res.append({"k": "identity", "s": list(l + b"@" + d)})
        res.append({"k": "identity", "s": list(l)})
    for i in range(n // 2):
        l = rnd.choice(locs) if rnd.random() < 0.6 else bytes(rnd.choice([97, 46, 34, 92, 32, 64, 43, 40, 65]) for _ in range(rnd.randrange(0, 9)))
        res.append({"k": "identity", "s": list(l + b"@" + domain_name(rnd, rnd.random() < 0.8))})
    for c in range(128):
        for t in (bytes([c]), b"a" + bytes([c]) + b"b", b"\"" + bytes([c]) + b"\"", b"\"\\" + bytes([c]) + b"\""):
            res.append({"k": "identity", "s": list(t + b"@a.b")})
    return res

def qp_enc(rnd, b, always=b""):
    out = b""
    for c in b:
        if c < 128 and 33 <= c <= 126 and c not in b"=;" + always and rnd.random() < 0.9:
            out += bytes([c])
        else:
            out += (b"=%02X" if rnd.random() < 0.7 else b"=%02x") % c
    return out

def fold(rnd, parts, p=0.3):
    """Joins the parts, with folding whitespace between some."""
    out = b""
    for i, x in enumerate(parts):
        if i and rnd.random() < p:
            out += rnd.choice(WSPS)
        out += x
    return out

NUMS = [b"0", b"1", b"5", b"007", b"1700000000", b"18446744073709551614", b"18446744073709551615", b"018446744073709551615"]
BADNUMS = [b"", b"-1", b"+1", b"1.0", b"0x1", b"1e3", b"18446744073709551616", b"99999999999999999999999999", b"1 2", "١".encode(), b"a", b"1_0", b"1,0"]

def signatures(seed, n):
    rnd = random.Random(seed * 7867 + 7)
    res = []
    for i in range(n):
        d = domain_name(rnd)
        h = rnd.sample([b"To", b"Subject", b"X-A", b"x|y", b"Date", b"to", b"!", b"DKIM-Signature", b"Cc", b"List-Id"], rnd.choice([0, 1, 3, 6]))
        if rnd.random() < 0.15:       # names more than once
            h += rnd.choices(h + [b"From", b"TO", b"cc", b"X-Long-" + b"n" * 60], k=rnd.choice([1, 2, 4] if rnd.random() < 0.8 else [10, 33, 70, 130]))
        h.insert(rnd.randrange(len(h) + 1), rnd.choice([b"From", b"from", b"FROM"]))
        hv = fold(rnd, [y for x in h for y in (b":", x)][1:])
        nums = sorted((int(x) for x in rnd.sample(NUMS[:7], 2)))
        t = {b"v": b"1", b"a": case_mix(rnd, rnd.choice([b"rsa-sha256", b"ed25519-sha256", b"rsa-sha1"])) if rnd.random() < 0.3 else rnd.choice([b"rsa-sha256", b"ed25519-sha256"]),
             b"d": d, b"s": domain_name(rnd), b"h": hv,
             b"bh": fold(rnd, [bytes([c]) for c in b64(rndbytes(rnd, rnd.choice([1, 2, 3, 32])))], 0.05),
             b"b": fold(rnd, [bytes([c]) for c in b64(rndbytes(rnd, rnd.choice([1, 2, 3, 64]) if rnd.random() < 0.95 else rnd.choice([128, 256, 257, 384, 512])))], 0.05)}
        if rnd.random() < 0.6:
            t[b"c"] = case_mix(rnd, rnd.choice([b"simple", b"relaxed", b"simple/relaxed", b"relaxed/simple", b"relaxed/relaxed", b"simple/simple"]))
        if rnd.random() < 0.6:
            loc = rnd.choice([b"", b"me", b"a.b", b"\"a b\"", b"\"x;y\"", "ä".encode(), b"\"a@b\"", b"a=b"])
            dom = rnd.choice([d, b"sub." + d, case_mix(rnd, d) if d.isascii() else d, b"x" + d, d.split(b".", 1)[-1], b"other.example"])
            q = qp_enc(rnd, loc + b"@" + dom)
            if rnd.random() < 0.3:
                cut = rnd.randrange(len(q))
                q = q[:cut] + rnd.choice(WSPS) + q[cut:]
            t[b"i"] = q
        if rnd.random() < 0.4:
            t[b"l"] = rnd.choice(NUMS)
        if rnd.random() < 0.3:
            t[b"q"] = rnd.choice([b"dns/txt", b"DNS/TXT", b"x:dns/txt", b"dns/txt : y", b"dns", b"dns/txt::"])
        if rnd.random() < 0.5:
            t[b"t"] = b"%d" % nums[0]
        if rnd.random() < 0.5:
            t[b"x"] = b"%d" % (nums[1] if rnd.random() < 0.8 else nums[0])
        if rnd.random() < 0.4:
            zs = []
            for _ in range(rnd.choice([1, 2, 4]) if rnd.random() < 0.96 else rnd.choice([9, 17, 33, 65, 70])):
                nm = rnd.choice(NAMES)
                val = fieldvalue(rnd) if rnd.random() < 0.7 else rndbytes(rnd, 5)
                zs.append(qp_enc(rnd, nm, b"|") + fold(rnd, [b"", b":", b""], 0.2) + qp_enc(rnd, val, b"|"))
            t[b"z"] = fold(rnd, [y for z in zs for y in (b"|", z)][1:], 0.3)
        for _ in range(rnd.choice([0, 0, 1, 2])):
            t[rnd.choice([b"r", b"V", b"vv", b"B", b"bH", b"x_1", b"dkim"])] = rnd.choice([b"", b"y", b"a b", b"=", "ä".encode()])
        # damage
        k = rnd.random()
        if k < 0.35:
            nm = rnd.choice(sorted(t))
            bad = {b"v": [b"2", b"1.", b"", b"01"], b"a": [b"rsa", b"rsa-sha512", b"ed25519", b"rsa-sha-256", b""], b"d": [domain_name(rnd, False)], b"s": [domain_name(rnd, False)],
                   b"h": [b"", b"To", b"From:", b"Fr om", b"from::to", b"\x7f:From", "ä:From".encode(), b"From=", b"X From", b"rom", b"Fromm:To"], b"bh": [b"", b"=", b"A", b"QQ", b"QQ=", b"Q Q==", b"-_==", b"QUI=="],
                   b"b": [b"", b"=", b"A", b"QQ", b"QQ=", b"-_==", b"QR=="], b"c": [b"", b"relax", b"relaxed/", b"/", b"simple/simple/simple", b"relaxed /simple", b"nowsp"],
                   b"i": [b"", b"me", b"@", b"a@", b"me@1", b"=41", b"m=e@" + d, b"=80@" + d, b"me=40" + d, b"a b@" + d],
                   b"l": BADNUMS, b"t": BADNUMS, b"x": BADNUMS, b"q": [b"", b"dns", b":dns/txt", b"dns/txt:", b"dns/tx t"],
                   b"z": [b"", b"x", b"|", b"a:b|", b"a :b", b"=3A:x", b"a:=8", b":", b"a b:c", b"From:a||To:b"]}
            if nm in bad:
                t[nm] = rnd.choice(bad[nm])
        elif k < 0.45:
            t.pop(rnd.choice(sorted(t)))
        order = list(t)
        if rnd.random() < 0.7:
            rnd.shuffle(order)
        if rnd.random() < 0.05:
            order.append(rnd.choice(order))
        w = lambda: rnd.choice(WSPS) if rnd.random() < 0.25 else b""
        s = b";".join(w() + (case_mix(rnd, x) if rnd.random() < 0.01 else x) + w() + b"=" + w() + t[x] + w() for x in order) + rnd.choice([b"", b";", b"; ", b"\r\n\t;", b";;"] if rnd.random() < 0.3 else [b""])
        if rnd.random() < 0.08 and s:
            p = rnd.randrange(len(s))
            s = s[:p] + rnd.choice([b"\x00", b"\xff", b"=", b";", b" ", b":", "ä".encode(), b"\r\n", b"\n", b""]) + s[p + rnd.choice([0, 1]):]
        res.append({"k": "sig", "s": list(s)})
    return res

def key_records(seed, n):
    rnd = random.Random(seed * 7853 + 8)
    res = []
    for i in range(n):
        t = {}
        if rnd.random() < 0.7:
            t[b"v"] = b"DKIM1"
        def lst(pool):
            k = rnd.random()
            if k < 0.85:
                xs = rnd.sample(pool, rnd.choice([1, 2, 3]))
            elif k < 0.95:
                xs = rnd.choices(pool, k=rnd.choice([2, 3, 5]))
            else:              # many, most of them unknown
                xs = rnd.choices([b"u", b"unknown", b"x1", pool[-1]], k=rnd.choice([7, 8, 9, 16, 33, 70])) + [rnd.choice(pool)]
            return fold(rnd, [y for x in xs for y in (b":", case_mix(rnd, x) if rnd.random() < 0.3 else x)][1:])
        if rnd.random() < 0.5:
            t[b"h"] = lst([b"sha256", b"sha1", b"sha512", b"x"])
        if rnd.random() < 0.6:
            t[b"k"] = case_mix(rnd, rnd.choice([b"rsa", b"ed25519"])) if rnd.random() < 0.3 else rnd.choice([b"rsa", b"ed25519", b"dsa"])
        if rnd.random() < 0.4:
            t[b"n"] = rnd.choice([b"hello", b"a b", b"a=20b", "ä".encode(), b"=E4", b"=C3=A4", b"=c3=a", b"x=3By", b"=\r\n 41", b"a\r\n b", b"a=", "€=e2=82".encode(), b"long=20" * rnd.choice([20, 40, 75])])
        if rnd.random() < 0.5:
            t[b"s"] = lst([b"*", b"email", b"other", b"**"])
        if rnd.random() < 0.5:
            t[b"t"] = lst([b"y", b"s", b"x", b"ys"])
        for _ in range(rnd.choice([0, 0, 1, 2])):
            t[rnd.choice([b"g", b"V", b"pp", b"P", b"x_1"])] = rnd.choice([b"", b"y", b"a b", b"=", "ä".encode()])
        if rnd.random() < 0.95:
            t[b"p"] = fold(rnd, [bytes([c]) for c in b64(rndbytes(rnd, rnd.choice([0, 1, 2, 3, 32]) if rnd.random() < 0.95 else rnd.choice([162, 294, 422, 550])))], 0.05)
        k = rnd.random()
        if k < 0.3 and t:
            nm = rnd.choice(sorted(t))
            bad = {b"v": [b"DKIM2", b"dkim1", b"", b"DKIM1 "], b"h": [b"", b":", b"sha256:", b"sha 256"], b"k": [b"", b"rsa:ed25519", b"dsa"], b"n": [b"=", b"=4", b"=XY"],
                   b"p": [b"=", b"A", b"QQ", b"QR==", b"-_=="], b"s": [b"", b":*", b"other", b"e mail"], b"t": [b"", b"y:", b":", b"y::s"]}
            if nm in bad:
                t[nm] = rnd.choice(bad[nm])
        order = list(t)
        if rnd.random() < 0.5:
            if rnd.random() < 0.8 and b"v" in t:
                order = order[1:]
                rnd.shuffle(order)
                order.insert(0, b"v")
            else:
                rnd.shuffle(order)
        if rnd.random() < 0.04 and order:
            order.append(rnd.choice(order))
        w = lambda: rnd.choice(WSPS) if rnd.random() < 0.25 else b""
        s = b";".join(w() + x + w() + b"=" + w() + t[x] + w() for x in order) + rnd.choice([b"", b"", b";", b"; ", b";;"])
        res.append({"k": "key", "s": list(s)})
    return res
