"""One check = one property: verify its units, then audit the assumed contracts on the real code."""
import concurrent.futures, hashlib, json, os, re, subprocess, sys, time
from . import paths, verus, unitdefs, props
from .extract import Lost

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
CANARY = "\npub mod vx_canary_mod { use super::*;\npub proof fn vx_canary() { assert(false); }\n}\n"


class UnitResult:
    def __init__(self, name):
        self.name = name
        self.state = "?"        # ok | failed | undecided
        self.reason = ""
        self.failed = []        # diags of failed obligations
        self.verified = 0
        self.fns = []
        self.trusted = []
        self.smt_ms = 0
        self.wall = 0.0
        self.cmd = ""
        self.by_fn = {}
        self.gen = ""
        self.unused = []
        self.vacuous = []


def scan_trusted(text):
    """Everything in the generated file that Verus takes on trust."""
    out = []
    item = ""
    lines = text.split("\n")
    for i, l in enumerate(lines):
        m = verus.MARK.match(l)
        if m:
            item = m.group(1)
        if re.search(r"\baxiom fn\b", l):
            out.append("axiom %s" % re.search(r"axiom fn (\w+)", l).group(1))
        elif "assume_specification" in l and "[" in l:
            g = re.search(r"assume_specification[^\[]*\[\s*(.*?)\s*\]\s*\(", l)
            out.append("assumed contract of %s" % (g.group(1) if g else l.strip()))
        elif "#[verifier::external_body]" in l:
            for k in range(i, min(i + 6, len(lines))):
                g = re.search(r"\bfn (\w+)", lines[k])
                if g:
                    out.append(("contract only (verified in its own unit): " if "(contract" in item else "assumed contract: ") + item + " " + g.group(1))
                    break
                g = re.search(r"\bstruct (\w+)", lines[k])
                if g:
                    out.append("opaque type %s" % g.group(1))
                    break
        elif "ASSUMED-EXTRA:" in l:
            out.append("ASSUMED (%s): %s" % (item, l.split("ASSUMED-EXTRA:")[1].strip()))
        elif re.search(r"\b(assume|admit)\s*\(", l) and "assume_spec" not in l and not l.strip().startswith("//"):
            out.append("ASSUME in %s: %s" % (item, l.strip()))
        elif re.search(r"uninterp spec fn (\w+)", l):
            out.append("uninterpreted %s" % re.search(r"uninterp spec fn (\w+)", l).group(1))
    return sorted(set(out))


def run_unit(name, reach=False):
    u = UnitResult(name)
    t0 = time.time()
    try:
        unit = getattr(unitdefs, "unit_" + name)()
        text = unit.text(unitdefs.HDR)
    except Lost as e:
        u.state, u.reason = "undecided", "the contracts no longer attach to the source: %s" % e
        u.wall = time.time() - t0
        return u
    except Exception as e:  # an unreadable source is not a violation
        u.state, u.reason = "undecided", "extraction failed: %r" % e
        u.wall = time.time() - t0
        return u
    u.fns = [f[0] for f in unit.fns if f[3]]
    u.unused = getattr(unit, "unused", [])
    k = text.rindex("} // verus!")
    text = text[:k] + "// @@item (canary)" + CANARY + text[k:]
    d = os.path.join(paths.BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, "%s_%d.rs" % (name, os.getpid()))
    with open(p, "w") as f:
        f.write(text)
    u.gen = p
    u.trusted = scan_trusted(text)
    r = verus.run(p, timeout=600, rlimit=(60 if TIER == "thorough" else 20))
    os.replace(p, os.path.join(d, name + ".rs"))
    u.gen = os.path.join(d, name + ".rs")
    u.cmd = r.cmd.replace(p, u.gen)
    u.smt_ms, u.by_fn = r.smt_ms, r.by_fn
    canary = [x for x in r.diags if x["item"] == "(canary)"]
    diags = [x for x in r.diags if x["item"] != "(canary)"]
    u.verified = r.verified
    if r.fatal and not (canary and not diags):
        u.state, u.reason = "undecided", "the verifier cannot read the extracted code: " + str(r.fatal)[:600]
    elif not canary:
        u.state, u.reason = "undecided", "vacuity guard: false is provable from the assumed contracts"
    elif r.verified == 0:
        u.state, u.reason = "undecided", "no obligation was generated"
    else:
        rl = [x for x in diags if re.search(r"rlimit|Resource limit|timed? ?out", x["message"])]
        u.failed = [x for x in diags if x not in rl]
        u.rl = rl
        u.state = "failed" if u.failed else ("undecided" if rl else "ok")
        if u.failed and unit.rules.soft:
            # An annotation found no place: the failure may only mean that the proof misses it.
            u.state, u.reason, u.failed, u.rl = "undecided", "the contracts no longer attach to the source: " + "; ".join(unit.rules.soft)[:600], [], []
        elif rl and not u.failed:
            u.reason = "the solver gave up on: " + ", ".join(x["item"] for x in rl)
    u.wall = time.time() - t0
    return u


def cargo_env():
    return dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
                CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_INCREMENTAL="1")


def build_replay():
    """The audit crate, built against /repo's current tree."""
    tgt = os.path.join(paths.BUILD, "replay")
    src = os.path.join(paths.VERIF, "replay")
    p = subprocess.run(["cargo", "build", "--offline", "--target-dir", tgt, "--quiet"], cwd=src, capture_output=True, text=True, env=cargo_env())
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    return os.path.join(tgt, "debug", "replay"), ""


def build_cli():
    tgt = os.path.join(paths.BUILD, "cli")
    p = subprocess.run(["cargo", "build", "--offline", "--locked", "--bin", "snapcd", "--target-dir", tgt, "--quiet"], cwd=paths.REPO,
                       capture_output=True, text=True, env=cargo_env())
    if p.returncode != 0:
        return None, p.stderr[-3000:]
    return os.path.join(tgt, "debug", "snapcd"), ""


def scratch():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else "/tmp"
    d = os.path.join(base, "snapver-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    return d


def run_replay(exe, pid, secs, extra_env, only=None):
    d = scratch()
    out = os.path.join(d, "replay.json")
    env = dict(os.environ, REPLAY_SCRATCH=d, TMPDIR=d, HOME=os.path.join(d, "home"), XDG_CACHE_HOME=os.path.join(d, "cache"), **extra_env)
    os.makedirs(env["HOME"], exist_ok=True)
    cmd = [exe, pid, str(SEED), str(secs), out] + (["--only", only] if only else [])
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=secs * 4 + 120, env=env, cwd=d)
        js = json.loads([l for l in p.stdout.split("\n") if l.startswith('{"evaluations"')][-1])
        with open(out) as f:
            fails = json.load(f)["failures"]
        return js, fails, ""
    except subprocess.TimeoutExpired:
        return None, [], "the audit did not finish in time"
    except Exception as e:
        return None, [], "the audit ended abnormally: %r; %s" % (e, (p.stderr[-1500:] if "p" in dir() else ""))
    finally:
        subprocess.run(["rm", "-rf", d])


def known(pid):
    try:
        with open(os.path.join(paths.VERIF, "known_findings.json")) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "known"]
    except (OSError, ValueError):
        return []


def main():
    pid = sys.argv[1]
    t0 = time.time()
    spec = props.PROPS[pid]
    vc = os.path.join(paths.VERIF, "build")
    os.makedirs(vc, exist_ok=True)
    paths.rsdump()
    with concurrent.futures.ThreadPoolExecutor(max_workers=5) as ex:
        fb = ex.submit(build_replay)
        fc = ex.submit(build_cli) if spec.get("cli") else None
        units = list(ex.map(run_unit, spec["units"]))
        exe, berr = fb.result()
        cli, cerr = fc.result() if fc else (None, "")
    relevant, other = [], []
    for u in units:
        pre = spec["units"][u.name]
        for x in u.failed:
            ok = pre is None or any(x["item"] == p or x["item"].startswith(p + " ") for p in pre) or not x["item"].startswith("src/")
            (relevant if ok else other).append((u, x))
    undecided = []
    for u in units:
        pre = spec["units"][u.name]
        if u.state == "undecided" or (u.state == "failed" and getattr(u, "rl", [])):
            rl = getattr(u, "rl", [])
            if u.reason.startswith("the solver gave up") or u.state == "failed":
                hit = [x for x in rl if pre is None or x["item"] in pre]
                if hit:
                    undecided.append((u, "solver gave up on " + ", ".join(x["item"] for x in hit)))
            else:
                undecided.append((u, u.reason))
    secs = float(spec.get("secs", 30 if spec.get("cli") else 12)) * (6 if TIER == "thorough" else 1)
    if relevant or undecided:
        secs *= 2
    env = {}
    if cli:
        env["SNAPCD_BIN"] = cli
    js, fails, rerr = (None, [], berr or cerr)
    if exe and (cli or not spec.get("cli")):
        js, fails, rerr = run_replay(exe, pid, secs, env)
    # Known findings.
    kn = known(pid)
    new = []
    hit = set()
    for f in fails:
        k = [x for x in kn if x["class"] == f["class"]]
        if k:
            hit.add(k[0]["class"])
        else:
            new.append(f)
    obl_known = [x for x in kn if x.get("obligation")]
    rel2 = []
    for u, x in relevant:
        k = [y for y in obl_known if y["obligation"] == x["item"]]
        if k:
            hit.add(k[0]["class"])
        else:
            rel2.append((u, x))
    relevant = rel2
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))

    viol = bool(new) or bool(relevant)
    rdir = os.path.join(paths.VERIF, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    lines = []
    if viol:
        rp = os.path.join(rdir, "%s.txt" % pid)
        with open(rp, "w") as f:
            f.write("property %s\n" % pid)
            for u, x in relevant:
                f.write("\nFAILED OBLIGATION unit=%s function=%s\n  %s\n  at: %s\n%s\n" % (u.name, x["item"], x["message"], x["text"], x["rendered"]))
                f.write("  verifier: %s\n" % u.cmd)
            if new:
                f.write("\nFAILING INPUT(S), found on the real code (seed %d):\n" % SEED)
                for q in new:
                    f.write("  kind: %s\n  case: %s\n  what happened: %s\n" % (q["class"], q["case"], q["detail"]))
                    f.write("  reproduce: %s\n\n" % "cd /verif && VERIF_SEED=%d VERIF_TIER=%s python3 -m snapver.check %s" % (SEED, TIER, pid))
            else:
                f.write("\nNo failing input was found by the bounded search (%s).\n" % (json.dumps(js) if js else rerr))
        lines.append("VIOLATION property=%s replay=%s%s" % (pid, rp, "" if new else " no-failing-input-found"))
    # Evidence.
    obligations = sum(u.verified + len(u.failed) + len(getattr(u, "rl", [])) for u in units)
    discharged = sum(u.verified for u in units)
    proved = not relevant and not undecided
    trusted = sorted(set(t for u in units for t in u.trusted))
    cov = {
        "obligations": obligations, "discharged": discharged,
        "checker_cmd": "; ".join(u.cmd for u in units if u.cmd),
        "trusted_base": trusted,
        "functions_under_contract": {u.name: [f for f in u.fns if spec["units"][u.name] is None or f in spec["units"][u.name]] for u in units},
        "units": {u.name: {"state": u.state, "reason": u.reason, "verified": u.verified, "failed": [x["item"] for x in u.failed],
                           "solver_ms": u.smt_ms, "wall_s": round(u.wall, 2), "contracts_not_used": u.unused} for u in units},
        "back_end": "Verus (Z3), on functions extracted from /repo/src on this run",
        "obligation_unit": "one count is one function or lemma body, itself a conjunction of verification conditions; the per-function solver time is in solver_by_function",
        "solver_by_function": {u.name: {k.split("::")[-1]: {"ms": v.get("time"), "rlimit": v.get("rlimit")} for k, v in list(u.by_fn.items())[:80]} for u in units},
        "all_obligations_of_this_property_discharged": proved,
        "failing_items_of_other_properties": sorted(set(x["item"] for _, x in other)),
        "undecided": [u.name + ": " + r for u, r in undecided],
        "bounded_audit": ({"label": "bounded: search for inputs on the real code that contradict the property or an assumed contract", **js} if js
                          else {"label": "bounded audit not run", "why": rerr}),
        "known_findings_reproduced": sorted(hit),
        "vacuity_guard": "a canary assert(false) next to the assumed contracts must fail, and did" if all(u.state != "undecided" for u in units) else "see units",
    }
    if js and js["evaluations"]:
        cov["evaluations"] = js["evaluations"]
        cov["distinct_nontrivial"] = js["distinct"]
        cov["samples"] = js["samples"]
        cov["rule"] = "bounded audit only: a case is distinct by its text and non-trivial when it is not an empty input"
    ev = {"property": pid, "tier": TIER, "seed": SEED, "level": spec.get("level", "proof") if proved else "other", "coverage": cov,
          "assumptions": spec.get("assumptions", []) + COMMON_ASSUMPTIONS, "wall_s": round(time.time() - t0, 2), "violations": len(new) + len(relevant)}
    if not proved:
        cov["explanation"] = "Not every obligation was discharged on this run: " + "; ".join(
            ["failed %s" % x["item"] for _, x in relevant] + ["%s: %s" % (u.name, r) for u, r in undecided]) + \
            ". The bounded audit stands in; nothing here is counted as proved."
    with open(os.path.join(paths.VERIF, "evidence", "%s.json" % pid), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s: units %s; %d of %d verified; audit %s; %.1f s" % (
        pid, ", ".join("%s=%s" % (u.name, u.state) for u in units), discharged, obligations,
        ("%d cases, %d failing" % (js["evaluations"], len(fails))) if js else "not run (%s)" % rerr[-200:], time.time() - t0))
    for u, r in undecided:
        print("  undecided %s: %s" % (u.name, r))
    for u, x in relevant:
        print("  failed obligation: unit %s, %s: %s" % (u.name, x["item"], x["message"]))
    for q in new:
        print("  failing input: %s: %s: %s" % (q["class"], q["case"][:200], q["detail"][:300]))
    for l in lines:
        print(l)
    sys.stdout.flush()
    sys.exit(1 if viol else 0)


COMMON_ASSUMPTIONS = [
    "the extraction's splices (DESIGN.md, section 3) preserve behaviour: dropped logging and printing, &self of writing store methods read as &mut self, eager iterator adapters",
    "the assumed contracts listed in coverage.trusted_base (std, rusqlite/SQLite, serde_cbor, blake3, bitvec, gearhash) hold; the bounded audit exercises them on the real code",
    "Verus and Z3 are sound; rustc compiles the same text the verifier read",
    "termination is not proved where a function carries exec_allows_no_decreases_clause",
]

if __name__ == "__main__":
    main()
