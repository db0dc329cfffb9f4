"""Run Verus on a generated file and read its diagnostics."""
import json, os, re, subprocess, time


class Result:
    def __init__(self):
        self.ok = False
        self.verified = 0
        self.errors = 0
        self.diags = []      # (fn label, message, rendered)
        self.wall = 0.0
        self.smt_ms = 0
        self.fatal = None    # front-end failure (unsupported construct, type error)
        self.cmd = ""
        self.by_fn = {}
        self.rlimit = False
        self.raw = ""


MARK = re.compile(r"^\s*// @@item (.*)$")


def items_of(text):
    """line number -> item label, from the markers the assembler writes."""
    cur, m = "(prelude)", []
    for line in text.split("\n"):
        g = MARK.match(line)
        if g:
            cur = g.group(1)
        m.append(cur)
    return m


def run(path, timeout=600, rlimit=None, extra=()):
    r = Result()
    with open(path) as f:
        text = f.read()
    items = items_of(text)
    cmd = ["verus", path, "--crate-type=lib", "--multiple-errors", "5", "--output-json", "--time-expanded", "--num-threads", "6"]
    if rlimit:
        cmd += ["--rlimit", str(rlimit)]
    cmd += list(extra) + ["--", "--error-format=json"]
    r.cmd = " ".join(cmd)
    t = time.time()
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        r.fatal = "timeout after %d s" % timeout
        r.wall = time.time() - t
        r.rlimit = True
        return r
    r.wall = time.time() - t
    try:
        js = json.loads(p.stdout[p.stdout.index("{"):])
    except ValueError:
        js = {}
    for line in p.stderr.split("\n"):
        line = line.strip()
        if not line.startswith("{"):
            continue
        try:
            d = json.loads(line)
        except ValueError:
            continue
        if d.get("level") != "error":
            continue
        msg = d.get("message", "")
        if msg.startswith("aborting due to"):
            continue
        ln = [s["line_start"] for s in d.get("spans", []) if s.get("is_primary")]
        allspans = [(s["line_start"], s.get("label") or "") for s in d.get("spans", [])]
        lab = items[ln[0] - 1] if ln and ln[0] - 1 < len(items) else "?"
        r.diags.append({"item": lab, "message": msg, "line": ln[0] if ln else 0, "spans": allspans,
                        "text": text.split("\n")[ln[0] - 1].strip() if ln and ln[0] - 1 < len(items) else "",
                        "code": (d.get("code") or {}).get("code") if d.get("code") else None,
                        "rendered": d.get("rendered", "")})
    vr = js.get("verification-results", {})
    r.verified = vr.get("verified", 0)
    r.errors = vr.get("errors", 0)
    r.ok = bool(vr.get("success")) and r.errors == 0 and not r.diags
    if vr.get("encountered-vir-error") or not vr or (r.errors == 0 and r.diags):
        r.fatal = r.diags[0]["message"] if r.diags else (p.stderr[-2000:] or "no output")
    for d in r.diags:
        if "rlimit" in d["message"] or "Resource limit" in d["message"]:
            r.rlimit = True
    try:
        tm = js["times-ms"]
        r.smt_ms = tm["smt"]["total"]
        for m in tm["smt"].get("smt-run-module-times", []):
            for f in m.get("function-breakdown", []):
                r.by_fn[f["function"]] = f
    except (KeyError, TypeError):
        pass
    r.raw = p.stderr[-20000:]
    return r
