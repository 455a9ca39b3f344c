"""The suites: each binds a part of the specification to the code."""
import hashlib, json, os, random
from .core import *
from . import gen, genmsg, gensign

def cfg(consts="", inv="", props="", spec="Spec", extra=""):
    s = "SPECIFICATION %s\nCHECK_DEADLOCK FALSE\n" % spec
    if consts:
        s += "CONSTANTS\n" + consts + "\n"
    if inv:
        s += "INVARIANTS " + inv + "\n"
    if props:
        s += "PROPERTIES " + props + "\n"
    return s + extra


def sample(res, path, n=2, cut=700):
    recs = []
    with open(path) as f:
        for i, l in enumerate(f):
            if i in (3, 57, 400):
                recs.append(l.strip()[:cut])
    res.samples += recs[:n]

# --------------------------------------------------------------------------- body

def body_exhaustive(ctx):
    """All small bodies: machine = definition (TLC), then every one on the code, all chunkings."""
    ctx.start_build()
    res = Result("body_exhaustive")
    runs = [("{13, 10, 32, 97}", ctx.pick(6, 7), 3), ("{13, 10, 9, 32, 97}", ctx.pick(5, 6), 2), ("{13, 10, 0, 255}", ctx.pick(4, 6), 2)]
    for i, (alpha, n, deep) in enumerate(runs):
        out = ctx.path("body%d.ndjson" % i)
        t = run_tlc("MCBody", cfg("Alphabet = %s\nMaxLen = %d\nDeepLen = %d\nOut = TRUE" % (alpha, n, deep),
                                  "MachineSimple MachineRelaxed Shape Idempotent Coarser OutSettled SettledStays"),
                    ctx.work, sink=out, workers=6)
        res.tlc(t)
        sample(res, out, 1)
        ctx.replay(res, out, label="bodies (all, len <= %d over %s)" % (n, alpha))
    return res


def body_runs(ctx):
    """Random and huge bodies in run-length form; TLC computes the canonical forms."""
    ctx.start_build()
    res = Result("body_runs")
    inp = ctx.path("runs_in.ndjson")
    write_ndjson(inp, gen.body_runs(ctx.seed, ctx.pick(400, 4000), huge=ctx.pick(6, 40)))
    out = ctx.path("runs.ndjson")
    t = run_tlc("OracleBody", cfg(), ctx.work, {"IN": inp}, sink=out, workers=4)
    res.tlc(t)
    ctx.replay(res, out, label="bodies in run-length form")
    return res


def hasher_design(ctx):
    res = Result("hasher_design")
    t = run_tlc("MCHasher", cfg("Alphabet = {13, 10, 32, 97}\nMaxLen = %d\nMaxLim = %d\nMaxChunk = 2" % ctx.pick((3, 4), (5, 5)),
                "AnswersRight Isolated DoneSound DoneReached", "DoneFinal"), ctx.work, workers=4)
    res.tlc(t)
    return res


def hasher_trace(ctx):
    """Recorded hasher sessions must be behaviours of BodyHash; hashes compared via pre-images."""
    res = Result("hasher_trace")
    for feat in ("", "pre-rfc8301"):
        ctx.start_build(feat)
    for feat in ("", "pre-rfc8301"):
        rec = ctx.record("hasher", ctx.pick(2500, 40000), "hasher%s.ndjson" % feat, feat)
        sess = read_ndjson(rec)
        t = run_tlc("TraceHasher", cfg(), ctx.work, {"TRACE": rec}, workers=4)
        res.tlc(t)
        seen = set()
        for o in t.out:
            s = sess[o["sid"] - 1]
            seen.add(o["sid"])
            if "reject" in o:
                res.bad(o["reject"][:3], "session not allowed by the specification at step %d: %s" % (o["pos"], o["reject"]), s)
                continue
            for i, pres in enumerate(o["pre"]):
                if s["res"][i]["r"] == "ok":
                    h = hashlib.sha256 if s["reqs"][i]["bits"] == 256 else hashlib.sha1
                    if s["res"][i]["h"] not in [h(bytes(p)).hexdigest() for p in pres]:
                        res.bad("P03", "hash of request %d is not that of the canonical body prefix" % i, s)
            res.count("steps", o["steps"])
        if len(seen) != len(sess):
            raise ToolError("TLC judged %d of %d sessions" % (len(seen), len(sess)))
        res.traces += len(sess)
        res.count("hasher sessions validated", len(sess))
        res.samples.append(json.dumps(sess[5])[:600])
    return res


# --------------------------------------------------------------------------- headers

def mc_replay(ctx, name, module, consts, inv, label, workers=6, feats=("",), props="", **kw):
    """Exhaustive TLC run whose states are put out as records and replayed on the code."""
    for f in feats:
        ctx.start_build(f)
    res = Result(name)
    out = ctx.path(name + ".ndjson")
    t = run_tlc(module, cfg(consts, inv, props), ctx.work, sink=out, workers=workers, **kw)
    res.tlc(t)
    sample(res, out, 1)
    for f in feats:
        ctx.replay(res, out, features=f, label=label)
    return res


def oracle_replay(ctx, name, module, recs, label, feats=("",), workers=6, **kw):
    """Generated inputs, judged by the specification (TLC), replayed on the code."""
    for f in feats:
        ctx.start_build(f)
    res = Result(name)
    inp, out = ctx.path(name + "_in.ndjson"), ctx.path(name + ".ndjson")
    write_ndjson(inp, recs)
    t = run_tlc(module, cfg(), ctx.work, {"IN": inp}, sink=out, workers=workers, **kw)
    res.tlc(t)
    n = sum(1 for _ in open(out))
    if n != len(recs):
        raise ToolError("TLC judged %d of %d inputs" % (n, len(recs)))
    sample(res, out, 2)
    for f in feats:
        ctx.replay(res, out, features=f, label=label)
    return res


def header_exhaustive(ctx):
    return mc_replay(ctx, "header_exhaustive", "MCHeader", "Alphabet = {97, 58, 32, 13, 10}\nMaxLen = %d\nOut = TRUE" % ctx.pick(6, 8),
                     "ScannerAgrees RelaxedAgrees RelaxedShape RoundTrip", "texts (all, over a : SP CR LF)")


def select_exhaustive(ctx):
    return mc_replay(ctx, "select_exhaustive", "MCSelect", "MaxH = %d\nMaxL = %d\nOut = TRUE" % ctx.pick((3, 3), (5, 4)),
                     "WalkAgrees EachOnce BottomUp OnTop Oversigned", "header selections (all small)")


def header_random(ctx):
    recs = gen.header_texts(ctx.seed, ctx.pick(2500, 30000))
    return oracle_replay(ctx, "header_random", "OracleHeader", recs, "header texts")


def select_random(ctx):
    recs = gen.header_selects(ctx.seed, ctx.pick(800, 8000))
    return oracle_replay(ctx, "select_random", "OracleHeader", recs, "header selections", feats=("", "pre-rfc8301"))


# --------------------------------------------------------------------------- encodings, tag lists, names, records

def codecs_exhaustive(ctx):
    """Decoders on all short texts; encoders and back on all short byte strings."""
    ctx.start_build()
    res = Result("codecs_exhaustive")
    for mode, n in (("qp", ctx.pick(4, 6)), ("b64", ctx.pick(5, 7)), ("enc", ctx.pick(3, 4))):
        r = mc_replay(ctx, "codecs_" + mode, "MCCodecs", 'Mode = "%s"\nMaxLen = %d\nOut = TRUE' % (mode, n),
                      "QpAgrees SectionInside B64Agrees RoundTrip", "encodings (%s, all <= %d pieces)" % (mode, n))
        res.join(r)
    return res


def codecs_random(ctx):
    return oracle_replay(ctx, "codecs_random", "OracleCodecs", gen.codecs(ctx.seed, ctx.pick(1500, 20000)), "encodings")


def taglist_exhaustive(ctx):
    ctx.start_build()
    res = Result("taglist_exhaustive")
    for mode, n in (("char", ctx.pick(5, 7)), ("part", ctx.pick(4, 6))):
        res.join(mc_replay(ctx, "taglist_" + mode, "MCTagList", 'Mode = "%s"\nMaxLen = %d\nOut = TRUE' % (mode, n),
                           "ScannerAgrees", "tag lists (%s, all <= %d pieces)" % (mode, n)))
    return res


def taglist_random(ctx):
    return oracle_replay(ctx, "taglist_random", "OracleTagList", gen.tag_texts(ctx.seed, ctx.pick(2500, 30000)), "tag lists")


def names_exhaustive(ctx):
    ctx.start_build()
    res = Result("names_exhaustive")
    for mode, n in (("name", ctx.pick(3, 5)), ("local", ctx.pick(4, 6)), ("quoted", ctx.pick(3, 5)), ("pair", 0)):
        res.join(mc_replay(ctx, "names_" + mode, "MCDomain", 'Mode = "%s"\nMaxLen = %d\nOut = TRUE' % (mode, n),
                           "LabelsAgree Order FormsStable", "names (%s)" % mode))
    return res


def names_random(ctx):
    return oracle_replay(ctx, "names_random", "OracleTags", gen.names(ctx.seed, ctx.pick(1500, 20000)), "names, pairs, identities")


def signature_edits(ctx):
    """All signatures some edits away from a complete one, in both feature configurations."""
    return mc_replay(ctx, "signature_edits", "MCSignature", "MaxEdits = %d\nOut = TRUE" % ctx.pick(1, 2), "Sane LegacyOnlySha1",
                     "signatures (edited)", feats=("", "pre-rfc8301"))


def signature_random(ctx):
    return oracle_replay(ctx, "signature_random", "OracleTags", gen.signatures(ctx.seed, ctx.pick(2500, 30000)), "signatures", feats=("", "pre-rfc8301"))


def key_edits(ctx):
    return mc_replay(ctx, "key_edits", "MCKeyRecord", "MaxEdits = %d\nOut = TRUE" % ctx.pick(2, 3), "Sane", "key records (edited)", feats=("", "pre-rfc8301"))


def key_random(ctx):
    return oracle_replay(ctx, "key_random", "OracleTags", gen.key_records(ctx.seed, ctx.pick(3000, 30000)), "key records", feats=("", "pre-rfc8301"))


# --------------------------------------------------------------------------- verification

def sessions(ctx, theme, quick, thorough, legacy=0):
    """Random sessions of a theme, judged by Verify.tla, replayed on the code."""
    n = ctx.pick(quick, thorough)
    res = Result("sessions_" + theme)
    if legacy:
        ctx.start_build("pre-rfc8301")
    res.join(oracle_replay(ctx, "sessions_" + theme, "OracleVerify", genmsg.sessions(ctx.seed, theme, n), "sessions (%s)" % theme))
    if legacy:
        res.join(oracle_replay(ctx, "sessions_%s_legacy" % theme, "OracleVerify", genmsg.sessions(ctx.seed, theme, n // legacy, True),
                               "sessions (%s)" % theme, feats=("pre-rfc8301",)))
    return res

def sessions_tamper(ctx):
    return sessions(ctx, "tamper", 3000, 40000)

def sessions_policy(ctx):
    return sessions(ctx, "policy", 2000, 25000, 2)

def sessions_keys(ctx):
    return sessions(ctx, "keys", 2500, 25000, 2)

def sessions_lookup(ctx):
    return sessions(ctx, "lookup", 2000, 25000)

def sessions_multi(ctx):
    return sessions(ctx, "multi", 1500, 20000)


def sessions_defaults(ctx):
    return sessions(ctx, "defaults", 1500, 20000, 3)


SESSION_INV = "Independent AskedOnce AskedIfNeeded Elapsed Decided OnlyPendingWait Agrees"

def session_consts(ctx, mode, every, timeout):
    return 'Mode = "%s"\nSeed = %d\nEvery = %d\nOut = TRUE\nTimeoutTicks = %d' % (mode, ctx.seed % 1000, every, timeout)

def session_design(ctx):
    """All small sessions as a concurrent machine; a sample of them, in full, on the code."""
    ctx.start_build()
    res = Result("session_design")
    for mode, every in (("tiny", 5), ("pairs", ctx.pick(25, 2)), ("kinds", ctx.pick(40, 4)), ("order", ctx.pick(100, 8))):
        out = ctx.path("session_%s.ndjson" % mode)
        tiny = mode == "tiny"
        t = run_tlc("MCSession", cfg(session_consts(ctx, mode, every, 2), SESSION_INV, "Kept Ends" if tiny else "", spec="Spec" if tiny else "Safe"),
                    ctx.work, sink=out, workers=6)
        res.tlc(t)
        sample(res, out, 1)
        ctx.replay(res, out, label="sessions (small, %s)" % mode)
    return res


def session_trace(ctx):
    """Larger sessions: what the code does and when must be a behaviour of Session.tla."""
    ctx.start_build()
    res = Result("session_trace")
    inp, out, rec = (ctx.path("session_given%s.ndjson" % x) for x in ("_in", "", "_rec"))
    timeout = 4
    n = ctx.pick(600, 8000)
    write_ndjson(inp, genmsg.abstract_sessions(ctx.seed, n, timeout))
    t = run_tlc("MCSession", cfg(session_consts(ctx, "given", 1, timeout), "Independent AskedOnce AskedIfNeeded Elapsed Decided OnlyPendingWait Agrees", spec="Safe"),
                ctx.work, {"IN": inp}, sink=out, workers=6)
    res.tlc(t)
    ctx.replay(res, out, label="sessions (given)")
    r = ctx.run_harness(["sessions", out, rec])
    if r.returncode != 0:
        raise ToolError("recording sessions failed (%s):\n%s" % (r.returncode, r.stdout[-3000:]))
    done = read_ndjson(rec)
    if not done or len(done) != sum(1 for _ in open(out)):
        raise ToolError("%d sessions recorded" % len(done))
    t = run_tlc("TraceSession", cfg("TimeoutTicks = %d" % timeout, "Independent AskedOnce AskedIfNeeded Elapsed"), ctx.work, {"TRACE": rec}, workers=6)
    res.tlc(t)
    by = {}
    for o in t.out:
        by[o["sid"]] = by.get(o["sid"], False) or "accept" in o
    if len(by) != len(done):
        raise ToolError("TLC judged %d of %d sessions" % (len(by), len(done)))
    for o in t.out:
        s = done[o["sid"] - 1]
        if not by[o["sid"]]:
            for p in {"ask": ["P20"], "end": ["P19", "P21"], "panic": ["P28", "P19", "P20", "P21"]}.get(o["reject"], ["P21"]):
                res.bad(p, "not a behaviour of the session machine: %s at event %d, tick %d (%s)" % (o["reject"], o["pos"], o["clock"], o["res"]), s)
    res.traces += len(done)
    res.count("sessions recorded and validated", len(done))
    res.count("events validated", sum(o.get("accept", 0) for o in t.out))
    res.samples.append(json.dumps(done[5])[:700])
    return res


def transit(ctx):
    """All changes in transit to a small signed message, singly and in pairs, classed by rules of their own."""
    return mc_replay(ctx, "transit", "MCTransit", "MaxOps = 2\nSeed = %d\nEvery = %d\nOut = TRUE" % (ctx.seed % 1000, ctx.pick(60, 3)), "Rules", "messages changed in transit")


def errors(ctx):
    return mc_replay(ctx, "errors", "MCErrors", "Out = TRUE", "Covered CausesKnown", "what errors say", workers=2, feats=("", "pre-rfc8301"))


def statuses(ctx):
    return mc_replay(ctx, "statuses", "MCStatus", "Out = TRUE", "Function OnlySuccessPasses Known", "statuses", workers=2, feats=("", "pre-rfc8301"))


# --------------------------------------------------------------------------- signing

def spellings(ctx):
    return mc_replay(ctx, "spellings", "MCNames", "MaxEdits = %d\nOut = TRUE" % ctx.pick(1, 2), "SelfRead Known LegacyAdds Distinct Put",
                     "names of protocol values", feats=("", "pre-rfc8301"))


def counter(ctx):
    """The counting hasher on its own: all sequences of chunks of sizes around the limits and the hash's block size."""
    n, sizes, limits = ctx.pick((4, "0, 1, 2, 63, 64, 65, 4096", "0, 1, 2, 64, 65, 129, 5000"),
                                (5, "0, 1, 2, 63, 64, 65, 128, 40000", "0, 1, 2, 3, 63, 64, 65, 66, 127, 128, 129, 40065, 80000"))
    return mc_replay(ctx, "counter", "MCCounter", "Sizes = {%s}\nLimits = {%s}\nMaxChunks = %d\nOut = TRUE" % (sizes, limits, n),
                     "Counted Truncated Put", "counting hasher", feats=("", "pre-rfc8301"), props="DoneStays")


def key_blocks(ctx):
    return mc_replay(ctx, "key_blocks", "MCKeys", "Out = TRUE", "OwnOnly Floors", "keys on their own", feats=("", "pre-rfc8301"))


def sign_and_judge(ctx, res, inp, n, feat, label):
    """Has the sessions in inp signed by the code; the results are judged by Signing.tla."""
    rec, out = inp + ".rec", inp + ".judged"
    r = ctx.run_harness(["sign", inp, rec], feat)
    if r.returncode != 0:
        raise ToolError("signing failed (%s):\n%s" % (r.returncode, r.stdout[-3000:]))
    done = read_ndjson(rec)
    if len(done) < 0.8 * n:
        raise ToolError("only %d of %d signing sessions can be expressed" % (len(done), n))
    t = run_tlc("OracleSigning", cfg(), ctx.work, {"IN": rec}, workers=8)
    res.tlc(t)
    if len(t.out) != len(done):
        raise ToolError("TLC judged %d of %d sessions" % (len(t.out), len(done)))
    write_ndjson(out, [{"k": "signed", "s": done[o["rec"] - 1], "j": o["j"]} for o in t.out])
    sample(res, out, 1)
    ctx.replay(res, out, features=feat, label=label)

def signing(ctx):
    """The signer's results, judged by Signing.tla; crypto and verification in the harness."""
    res = Result("signing")
    runs = (("", ctx.pick(700, 8000)), ("pre-rfc8301", ctx.pick(120, 1500)))
    for feat, n in runs:
        ctx.start_build(feat)
    for feat, n in runs:
        inp = ctx.path("sign%s_in.ndjson" % feat)
        write_ndjson(inp, gensign.sessions(ctx.seed, n, bool(feat)))
        sign_and_judge(ctx, res, inp, n, feat, "signing sessions")
    return res


def requests(ctx):
    """All requests some edits away from a plain one."""
    ctx.start_build()
    res = Result("requests")
    inp = ctx.path("requests.ndjson")
    t = run_tlc("MCRequest", cfg('Mode = "edits"\nMaxEdits = 2\nEvery = %d\nSeed = %d\nOut = TRUE' % (ctx.pick(5, 1), ctx.seed % 1000), "Independent Put"), ctx.work, sink=inp, workers=6)
    res.tlc(t)
    sign_and_judge(ctx, res, inp, sum(1 for _ in open(inp)), "", "signing requests (edited)")
    return res


def request_defaults(ctx):
    """Requests of which some settings are left alone."""
    ctx.start_build()
    res = Result("request_defaults")
    inp = ctx.path("request_defaults.ndjson")
    t = run_tlc("MCDefaults", cfg('Every = %d\nSeed = %d' % (ctx.pick(4, 1), ctx.seed % 1000), "Put"), ctx.work, sink=inp, workers=6)
    res.tlc(t)
    sign_and_judge(ctx, res, inp, sum(1 for _ in open(inp)), "", "signing requests (settings left alone)")
    return res


def layouts(ctx):
    """Requests with much in them, in all line widths."""
    ctx.start_build()
    res = Result("layouts")
    inp = ctx.path("layouts.ndjson")
    t = run_tlc("MCRequest", cfg('Mode = "widths"\nMaxEdits = 0\nEvery = %d\nSeed = %d\nOut = TRUE' % (ctx.pick(50, 4), ctx.seed % 1000), "Put"), ctx.work, sink=inp, workers=6)
    res.tlc(t)
    sign_and_judge(ctx, res, inp, sum(1 for _ in open(inp)), "", "signing requests (widths)")
    return res


def weave(ctx):
    """Sessions side by side: the schedules of Weave.tla on sessions judged by Verify.tla, and on signing sessions."""
    ctx.start_build()
    res = Result("weave")
    scheds = {}
    for n, wakes, pieces, drops in ((1, 3, 2, 1), (2, 2, 2, 1), (3, 1, 1, ctx.pick(1, 2))):
        t = run_tlc("Weave", cfg("N = %d\nWakes = %d\nPieces = %d\nDrops = %d\nOut = TRUE" % (n, wakes, pieces, drops), "Own Whole Determined Commute Put", "Apart Ends"),
                    ctx.work, workers=4)
        res.tlc(t)
        scheds[n] = [o["sched"] for o in t.out]
        res.count("schedules of %d" % n, len(t.out))
    fams = genmsg.families(ctx.seed, ctx.pick(90, 500))
    inp, out = ctx.path("weave_in.ndjson"), ctx.path("weave_judged.ndjson")
    flat = [dict(r, theme="weave %d" % f) for f, fam in enumerate(fams) for i, r in enumerate(fam)]
    write_ndjson(inp, flat)
    t = run_tlc("OracleVerify", cfg(), ctx.work, {"IN": inp}, sink=out, workers=6)
    res.tlc(t)
    by = {}
    for r in read_ndjson(out):
        by.setdefault(int(r["theme"][6:]), []).append(r)
    if sum(len(x) for x in by.values()) != len(flat):
        raise ToolError("TLC judged %d of %d sessions" % (sum(len(x) for x in by.values()), len(flat)))
    vers, signs = [by[f] for f in sorted(by)], gensign.families(ctx.seed, ctx.pick(40, 250))
    rnd = random.Random("weave %d" % ctx.seed)
    recs = []
    for n, all_ in sorted(scheds.items()):
        todo = all_ if n == 1 else rnd.sample(all_, len(all_))
        for s in todo * (4 if n == 1 else 1) if ctx.quick else todo * {1: 40, 2: 6, 3: 1}[n]:
            k = rnd.random()
            if k < 0.65:
                fam = rnd.choice(vers)
                rs = [rnd.choice(fam) for _ in range(n)]
            elif k < 0.75:
                rs = [rnd.choice(rnd.choice(vers)) for _ in range(n)]
            elif k < 0.95:
                fam = rnd.choice(signs)
                rs = [rnd.choice(fam) for _ in range(n)]
            else:
                rs = [rnd.choice(rnd.choice(rnd.choice([vers, signs]))) for _ in range(n)]
            recs.append({"k": "weave", "sched": s, "recs": rs})
    path = ctx.path("weave.ndjson")
    write_ndjson(path, recs[:ctx.pick(9000, 40000)])
    res.samples.append(json.dumps(recs[40])[:600])
    ctx.replay(res, path, label="sessions side by side")
    return res


# --------------------------------------------------------------------------- hostile input

def hostile(ctx):
    """Recorded cases of hostile input; their outcomes judged by Shape.tla."""
    res = Result("hostile")
    runs = [("", ctx.pick(12000, 150000)), ("pre-rfc8301", ctx.pick(2000, 20000))]
    for feat, _ in runs:
        ctx.start_build(feat)
    for feat, n in runs:
        rec = ctx.path("chaos%s.ndjson" % feat)
        done, start, step = [], 0, 20000
        while start < n:
            r = ctx.record("chaos", min(step, n - start), "chaos%s%d.ndjson" % (feat, start), feat, seed=ctx.seed * 1000 + start // step)
            done += read_ndjson(r)
            start += step
            if any(d["kind"] == "hang" for d in done):
                break
        write_ndjson(rec, done)
        t = run_tlc("OracleShape", cfg(), ctx.work, {"IN": rec}, workers=6)
        res.tlc(t)
        if len(t.out) != len(done):
            raise ToolError("TLC judged %d of %d cases" % (len(t.out), len(done)))
        for o in t.out:
            d = done[o["rec"] - 1]
            for b in o["bad"]:
                res.bad("P28", "%s: %s (case %d of seed %d%s)" % (b, d.get("msg", d["kind"]), d["n"], d["seed"], " " + feat if feat else ""), d)
        res.traces += len(done)
        for d in done:
            res.count("hostile cases: %s %s" % (d["kind"], d.get("out", "")), 1)
            for st in d.get("st", []):
                res.count("hostile verdict " + st.split(":")[0], 1)
        res.samples += [json.dumps(d)[:500] for d in done[:2]]
    return res


SUITES = {n: f for n, f in list(globals().items()) if callable(f) and getattr(f, "__module__", "") == __name__
          and f.__code__.co_varnames[:1] == ("ctx",) and f.__code__.co_argcount == 1}

PROPS = {
    "P01": ["body_exhaustive", "body_runs"],
    "P02": ["body_exhaustive", "body_runs", "sessions_tamper", "signing"],
    "P03": ["body_exhaustive", "body_runs", "hasher_design", "hasher_trace", "sessions_tamper", "signing"],
    "P04": ["body_exhaustive", "hasher_design", "hasher_trace", "sessions_tamper", "signing"],
    "P05": ["select_exhaustive", "select_random", "sessions_tamper", "signing", "transit"],
    "P06": ["header_exhaustive", "header_random", "select_exhaustive", "select_random", "sessions_tamper", "signing"],
    "P07": ["sessions_tamper", "signing", "sessions_multi", "transit"],
    "P08": ["signing", "requests"],
    "P10": ["signing", "requests"],
    "P11": ["signing", "layouts"],
    "P12": ["signing", "requests"],
    "P13": ["signing", "requests"],
    "P09": ["sessions_tamper", "sessions_multi", "transit"],
    "P17": ["sessions_keys", "sessions_multi"],
    "P18": ["sessions_policy", "sessions_keys"],
    "P19": ["sessions_multi", "sessions_lookup", "session_design", "session_trace"],
    "P20": ["sessions_lookup", "sessions_multi", "session_design", "session_trace"],
    "P21": ["sessions_lookup", "sessions_multi", "session_design", "session_trace"],
    "P22": ["sessions_keys"],
    "P23": ["statuses", "sessions_multi"],
    "P27": ["sessions_keys", "sessions_policy", "signing"],
    "P14": ["signature_edits", "signature_random"],
    "P15": ["taglist_exhaustive", "taglist_random"],
    "P16": ["key_edits", "key_random"],
    "P24": ["names_exhaustive", "names_random"],
    "P25": ["codecs_exhaustive", "codecs_random"],
    "P28": ["hostile", "signing", "sessions_policy", "sessions_keys", "sessions_multi", "signature_random", "key_random", "taglist_random",
            "names_random", "codecs_random", "header_random", "select_random", "body_runs", "hasher_trace"],
    "P29": ["sessions_defaults", "request_defaults"],
    "P30": ["spellings"],
    "P31": ["counter", "key_blocks"],
    "P32": ["weave"],
    "P33": ["errors", "signature_edits", "signature_random", "sessions_multi"],
    "P26": ["header_exhaustive", "header_random", "select_random"],
}
