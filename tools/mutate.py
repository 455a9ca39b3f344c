#!/usr/bin/env python3
"""Mutation testing of the checks (development only; no check uses it).

mutate.py list                      prints the mutants
mutate.py run RECDIR OUT [N/M]      runs the Nth of M parts; RECDIR: records put out by the suites (*-def-*.ndjson, *-pre-rfc8301-*.ndjson)

RECDIR may also be a script that has the suites of the signer judge the binary given.  FILES=REGEX selects files.

A mutant that compiles and passes the existing tests is replayed against the records; survivors are put out for inspection.
Works on a copy of /repo and of harness/ under /tmp."""
import glob, json, os, re, shutil, signal, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = ("lookup/", "lib.rs")
RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" <= ", " < "), (r" >= ", " > "), (r"(?<![-=<]) < (?=[\w(&*])", " <= "), (r"(?<![-=]) > (?=[\w(&*])", " >= "),
    (r" && ", " || "), (r" \|\| ", " && "), (r"\bif !", "if "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.any\(", ".all("), (r"\.all\(", ".any("), (r"\.rev\(\)", ""),
    (r"\.max\(", ".min("), (r"\.min\(", ".max("), (r"\bstarts_with\(", "ends_with("), (r"\bends_with\(", "starts_with("),
    (r"trim_start", "trim_end"), (r"trim_end", "trim_start"), (r"\.find\(", ".rfind("), (r"\.rfind\(", ".find("), (r"\.position\(", ".rposition("), (r"\.rposition\(", ".position("),
    (r"\.first\(", ".last("), (r"\.last\(", ".first("), (r"\bbreak;", "continue;"), (r"\bcontinue;", "break;"),
    (r"\.to_ascii_lowercase\(\)", ".to_owned()"), (r" \+ 1\b", ""), (r" - 1\b", ""), (r" \+ ", " - "), (r" - (?=\w)", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\.filter\(", ".skip_while("), (r"\.is_empty\(\)", ".is_empty() == false"), (r"(?<=\()\.\.=", ".."), (r"\.\.=", ".."),
    (r"is_ok\(\)", "is_err()"), (r"is_err\(\)", "is_ok()"), (r"saturating_add", "wrapping_add"), (r"\.unwrap_or_default\(\)", ".unwrap()"),
]

def mutants(root):
    out = []
    for p in sorted(glob.glob(root + "/src/**/*.rs", recursive=True)):
        rel = os.path.relpath(p, root)
        if any(s in rel for s in SKIP):
            continue
        lines = open(p).read().split("\n")
        for i, l in enumerate(lines):
            t = l.strip()
            if t.startswith("#[cfg(test)]") or re.match(r"(pub )?mod tests", t):
                break
            if not t or t.startswith(("//", "#", "use ", "trace!", "debug_assert", "assert", "pub use", "pub mod", "mod ", "impl", "pub fn", "fn ", "pub(crate) fn", "where", "pub struct", "pub enum", "Self::", "write!(f")) or "unreachable!" in t:
                continue
            code = l.split(" // ")[0]
            for pat, rep in RULES:
                for m in re.finditer(pat, code):
                    out.append((rel, i, l[:m.start()] + rep + l[m.end():]))
            for m in re.finditer(r"(?<![\w.'\"])(\d+)(?![\w.'\"x])", code):
                n = int(m.group(1))
                for k in {n + 1, n - 1} if n > 0 else {1}:
                    if k >= 0:
                        out.append((rel, i, l[:m.start()] + str(k) + l[m.end():]))
            for m in re.finditer(r"b?'( |\\t|;|=|:|\\r|\\n|-|\.|@|/|\*|\|)'", code):
                q = m.group(0)
                for c in ("\\t", " ", "~"):
                    n = ("b" if q[0] == "b" else "") + "'" + c + "'"
                    if n != q and (c == "~" or m.group(1) in (" ", "\\t")):
                        out.append((rel, i, l[:m.start()] + n + l[m.end():]))
            m = re.match(r"(\s*(?:\} else )?if )(?!let\b)(.*)( \{)$", l)
            if m:
                out.append((rel, i, m.group(1) + "true || (" + m.group(2) + ")" + m.group(3)))
                out.append((rel, i, m.group(1) + "false && (" + m.group(2) + ")" + m.group(3)))
            if re.match(r"\s*[\w.&*]+(\.\w+\(.*\)|\s*[+|&-]?=\s.*|\(.*\));$", l) and not t.startswith(("let ", "return", "const")):
                out.append((rel, i, re.match(r"\s*", l).group(0) + "// removed"))
            m = re.match(r"(\s*)return (.*);$", l)
            if m and lines[i - 1].strip().endswith("{"):
                out.append((rel, i, m.group(1) + "if false { return " + m.group(2) + "; }"))
            m = re.match(r"(\s*(?:\| )?[\w:]+(?:\(_\))?) \| (.*)$", l)
            if m:
                out.append((rel, i, re.match(r"\s*", l).group(0) + m.group(2)))
    return out

ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="1", HOME="/root")

def sh(cmd, cwd, timeout):
    p = subprocess.Popen(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -99, "timeout"

def main():
    base = subprocess.run(["git", "-C", "/repo", "rev-parse", "HEAD"], stdout=subprocess.PIPE, text=True).stdout.strip()
    part = sys.argv[4] if len(sys.argv) > 4 else "1/1"
    n, m = map(int, part.split("/"))
    work = "/tmp/mw%d" % n
    shutil.rmtree(work + "/repo/src", ignore_errors=True)
    shutil.rmtree(work + "/harness", ignore_errors=True)
    os.makedirs(work + "/repo", exist_ok=True)
    subprocess.run("git -C /repo archive HEAD | tar x -C %s/repo" % work, shell=True, check=True)
    ms = mutants(work + "/repo")
    if sys.argv[1] == "list":
        for x in ms:
            print(x)
        print(len(ms))
        return
    recdir, outp = sys.argv[2], sys.argv[3]
    subprocess.run(["cp", "-r", VERIF + "/harness", work + "/harness"], check=True)
    c = open(work + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % work)
    open(work + "/harness/Cargo.toml", "w").write(c)
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", work + "/repo/Cargo.lock")
    ENV["VERIF_DIR"] = VERIF
    ENV["VH_HANG_SECS"] = "20"
    done = set()
    if os.path.exists(outp):
        done = {json.loads(l)["id"] for l in open(outp)}
    recs = sorted(glob.glob(recdir + "/*-def-*.ndjson"), key=os.path.getsize)
    out = open(outp, "a")
    for k, (rel, i, new) in enumerate(ms):
        if k % m != n - 1 or k in done or not re.search(os.environ.get("FILES", "."), rel):
            continue
        p = os.path.join(work, "repo", rel)
        orig = open(p).read()
        lines = orig.split("\n")
        rec = {"id": k, "file": rel, "line": i + 1, "old": lines[i], "new": new}
        lines[i] = new
        open(p, "w").write("\n".join(lines))
        t0 = time.time()
        rc, o = sh(["cargo", "test", "--offline", "--lib", "--tests"], work + "/repo", 120)
        if rc != 0:
            rec["out"] = "build" if "could not compile" in o else "tests"
        else:
            e = dict(ENV)
            rc, o = sh(["cargo", "build", "--offline", "--locked", "--target-dir", work + "/ht"], work + "/harness", 300)
            if rc != 0:
                rec["out"] = "harness build"
            else:
                rec["out"] = "SURVIVED"
                if recdir.endswith(".py"):      # a script that judges the binary
                    rc, o = sh(["python3", recdir, work + "/ht/debug/vh", work + "/judge"], work, 600)
                    if "VIOL 0 " not in o:
                        rec["out"] = "killed: " + o[-300:]
                for f in recs:
                    rc, o = sh([work + "/ht/debug/vh", "replay", f, work + "/res.json"], work, 300)
                    if rc != 0:
                        rec["out"] = "killed: process died on " + os.path.basename(f)
                        break
                    d = json.load(open(work + "/res.json"))
                    if d["harness_errors"]:
                        rec["out"] = "harness error " + d["harness_errors"][0][:200]
                        break
                    if d["violations"]:
                        rec["out"] = "killed: %s %s" % (",".join(sorted({v["prop"] for v in d["violations"]})), os.path.basename(f))
                        break
        rec["secs"] = round(time.time() - t0, 1)
        out.write(json.dumps(rec) + "\n")
        out.flush()
        open(p, "w").write(orig)

if __name__ == "__main__":
    main()
