"""Mechanical extraction of functions from /repo/src into Verus input.

The executable text of every extracted function is the text found in /repo at
the time of the run; this module only splices text at byte offsets reported by
rsdump (a syn-based dumper).  The splices are listed in RULES below and in
DESIGN.md ("What the extraction drops or replaces").
"""
import json, os, re, subprocess, sys, tempfile
from . import inline, paths


class Lost(Exception):
    """The contract no longer attaches to the source (lost anchor / unsupported construct)."""


def _rsdump(files):
    exe = paths.rsdump()
    out = subprocess.run([exe] + files, capture_output=True, text=True)
    if out.returncode != 0:
        raise Lost("rsdump failed: " + out.stderr[-500:])
    return json.loads(out.stdout)


_cache = {}


def load(path):
    if path not in _cache:
        d = _rsdump([path])[path]
        if "error" in d:
            raise Lost("cannot parse %s: %s" % (path, d["error"]))
        with open(path, "rb") as f:
            b = f.read()
        _cache[path] = without_helpers(Source(path, b, d["items"]))
    return _cache[path]


def without_helpers(src):
    """The file with the calls of functions that have no contract replaced by their bodies (inline.py)."""
    rel = os.path.relpath(src.path, paths.REPO) + ":"
    known = {k[len(rel):] for k in shapes() if k.startswith(rel)}
    if not known:
        return src
    for n in range(40):
        t = inline.expand(src, known)
        if t is None:
            break
        with tempfile.TemporaryDirectory() as tmp:
            p = os.path.join(tmp, "inlined.rs")
            with open(p, "w") as fh:
                fh.write(t)
            d = _rsdump([p])[p]
        if "error" in d:
            break
        src = Source(src.path, t.encode(), d["items"])
    return src


class Source:
    def __init__(self, path, data, items):
        self.path, self.data, self.items = path, data, items
        self.fns = {}
        for it in items:
            k = it["kind"]
            if k == "fn":
                self._addfn(it["name"], it, None)
            elif k in ("impl", "trait"):
                for f in it["fns"]:
                    if f["kind"] != "method":
                        continue
                    self._addfn(self.implname(it) + "::" + f["name"], f, it)

    def _addfn(self, name, f, owner):
        f["owner"] = owner
        if name in self.fns:
            n = 2
            while "%s#%d" % (name, n) in self.fns:
                n += 1
            name = "%s#%d" % (name, n)
        f["qual"] = name
        self.fns[name] = f
        if f.get("body"):
            for g in f["body"]["inner_fns"]:
                self._addfn(name + "/" + g["name"], g, owner)

    def implname(self, it):
        if it["kind"] == "trait":
            return it["name"]
        ty = self.txt(it["ty"])
        ty = re.sub(r"\s+", "", ty)
        if it["trait"]:
            return "<%s as %s>" % (ty, re.sub(r"\s+", "", self.txt(it["trait"])))
        return ty

    def txt(self, sp):
        return self.data[sp[0]:sp[1]].decode()


def apply_edits(data, lo, hi, edits):
    """edits: (start, end, text).  Replacements win over anything strictly inside them."""
    dels = [e for e in edits if e[1] > e[0]]
    keep = []
    for i, e in enumerate(edits):
        bad = False
        for d in dels:
            if d is e:
                continue
            if e[0] == e[1]:
                if d[0] < e[0] < d[1]:
                    bad = True
            elif d[0] <= e[0] and e[1] <= d[1] and (d[0], d[1]) != (e[0], e[1]):
                bad = True
        if not bad:
            keep.append((e[0], e[1], i, e[2]))
    # insertions at the same point keep list order; insertions go before replacements starting there
    keep.sort(key=lambda e: (e[0], 0 if e[0] == e[1] else 1, e[2]))
    out, pos = [], lo
    for s, t, _, txt in keep:
        if s < pos:
            raise Lost("overlapping edits at byte %d: %r" % (s, txt[:60]))
        out.append(data[pos:s].decode())
        out.append(txt)
        pos = t
    out.append(data[pos:hi].decode())
    return "".join(out)


class Contract:
    """Parsed contract for one function."""

    def __init__(self, name):
        self.name = name
        self.attrs = []
        self.ret = None
        self.spec = ""
        self.loops = {}
        self.loopstart = {}
        self.loopend = {}
        self.closures = {}
        self.entry = ""
        self.anchors = []  # (before|after, kind, name, idx, text)
        self.opts = {}
        self.rettype = None
        self.subst = []
        self.loop_iter = {}


def parse_contracts(text, fname="<contracts>"):
    res, glob = {}, {"raw": ""}
    cur, sec = None, None
    for ln, line in enumerate(text.split("\n"), 1):
        if line.startswith("@@ "):
            p = line[3:].strip().split(None, 1)
            if p[0] == "fn":
                cur = Contract(p[1].strip())
                res[cur.name] = cur
                sec = None
            elif p[0] == "raw":
                cur, sec = None, ("raw",)
            else:
                raise SystemExit("%s:%d bad directive" % (fname, ln))
            continue
        if line.startswith("@") and cur is not None:
            p = line[1:].strip().split(None, 1)
            d, rest = p[0], (p[1] if len(p) > 1 else "")
            if d == "attr":
                cur.attrs.append(rest); sec = None
            elif d == "ret":
                cur.ret = rest; sec = None
            elif d == "rettype":
                cur.rettype = rest; sec = None
            elif d == "opt":
                k, _, v = rest.partition("="); cur.opts[k.strip()] = v.strip() or "1"; sec = None
            elif d == "spec":
                sec = ("spec",)
            elif d == "entry":
                sec = ("entry",)
            elif d == "loop":
                a = rest.split(None, 1)
                sec = ("loop", int(a[0])); cur.loops[sec[1]] = ""
                if len(a) > 1:
                    cur.loop_iter[sec[1]] = a[1].strip()
            elif d in ("loopstart", "loopend"):
                sec = (d, int(rest)); getattr(cur, d)[sec[1]] = ""
            elif d == "closure":
                i, _, hdr = rest.partition(" ")
                sec = ("closure", int(i)); cur.closures[int(i)] = [hdr.strip(), ""]
            elif d in ("before", "after"):
                a = rest.split()
                # call NAME IDX | text
                sec = ("anchor", len(cur.anchors))
                cur.anchors.append([d, a[0], a[1], int(a[2]) if len(a) > 2 else 0, ""])
            elif d == "subst":
                a, _, b = rest.partition("=>")
                cur.subst.append((a.strip(), b.strip())); sec = None
            else:
                raise SystemExit("%s:%d bad @%s" % (fname, ln, d))
            continue
        if sec is None:
            if line.strip() and not line.startswith("#"):
                raise SystemExit("%s:%d stray text %r" % (fname, ln, line))
            continue
        if sec[0] == "raw":
            glob["raw"] += line + "\n"
        elif sec[0] == "spec":
            cur.spec += line + "\n"
        elif sec[0] == "entry":
            cur.entry += line + "\n"
        elif sec[0] == "loop":
            cur.loops[sec[1]] += line + "\n"
        elif sec[0] in ("loopstart", "loopend"):
            getattr(cur, sec[0])[sec[1]] += line + "\n"
        elif sec[0] == "closure":
            cur.closures[sec[1]][1] += line + "\n"
        elif sec[0] == "anchor":
            cur.anchors[sec[1]][4] += line + "\n"
    return res, glob


DROP_MACROS = {"log::trace", "log::debug", "log::info", "log::warn", "log::error", "trace", "debug",
               "ldbg", "println", "eprintln", "print"}
PRINT_MACROS = {"println": True, "print": False, "std::println": True, "std::print": False}
ABORT_MACROS = {"panic", "unimplemented", "unreachable", "todo"}


class Rules:
    """Per-unit configuration of the splices."""

    def __init__(self, **kw):
        self.method_rename = kw.get("method_rename", {})
        self.path_subst = kw.get("path_subst", [])      # (prefix, replacement) on paths
        self.mutators = set(kw.get("mutators", []))      # functions whose &self becomes &mut self
        self.macro = kw.get("macro", {})                 # name -> callable(src, macro_json) -> replacement edits
        self.lit = kw.get("lit")                         # callable(src, f, lit_json) -> replacement text or None
        self.extra = kw.get("extra", [])                 # callables(src, f, contract) -> edits
        self.wrap_for = kw.get("wrap_for", False)
        self.soft = []                                   # annotations that found no place
        self.drop_debug_assert = kw.get("drop_debug_assert", False)


def fn_edits(src, f, contracts, rules, used):
    """All edits for function f (and nested functions)."""
    ed = []
    q = f["qual"]
    c = contracts.get(q)
    if c is not None:
        used.add(q)
    for a in f["attrs"]:
        ed.append((a["span"][0], a["span"][1], ""))
    start = f["span"][0]
    attrs = list(c.attrs) if c is not None else []
    if f.get("body") and f["body"]["loops"] and not any("loop_isolation" in a for a in attrs):
        attrs.append("#[verifier::loop_isolation(false)]")
    if attrs:
        ed.append((f["span"][0] if not f["attrs"] else f["attrs"][-1]["span"][1], ) * 2 + ("\n".join(attrs) + "\n",))
    # receiver
    if f["name"] in rules.mutators:
        for p in f["params"]:
            if p["self"] and p["ref"] and not p["mut"]:
                t = src.txt(p["span"])
                ed.append((p["span"][0], p["span"][1], re.sub(r"\bself$", "mut self", t)))
    if c and c.opts.get("name"):
        m = re.compile(rb"\bfn\s+(" + f["name"].encode() + rb")\b").search(src.data, f["span"][0], f["block"][0] if f.get("block") else f["span"][1])
        if not m:
            raise Lost("%s: cannot rename" % q)
        ed.append((m.start(1), m.end(1), c.opts["name"]))
    # A filter closure behind a reference: one opaque type.
    filters = []
    for p in f["params"]:
        if not p["self"] and p.get("ty"):
            t = re.sub(r"\s+", " ", src.txt(p["ty"]))
            if re.match(r"&\s*\(?\s*(dyn|impl) Fn\(&\s*(std::fs::)?DirEntry\) -> bool\s*\)?$", t):
                ed.append((p["ty"][0], p["ty"][1], "&EntFilter"))
                filters.append(src.txt(p["pat"]))
        if not p["self"] and p.get("ty") and re.match(r"impl\s+Into<Option<&'a mut (cache::)?SqliteCache>>$", re.sub(r"\s+", " ", src.txt(p["ty"]))):
            # Only ever read through, and only an Option is ever given.
            ed.append((p["ty"][0], p["ty"][1], "Option<&'a SqliteCache>"))
    # Ghost state handed along.
    ghost = (c.opts.get("ghost") or "").split(",") if c else []
    ghost = [g.strip() for g in ghost if g.strip()]
    if ghost:
        gt = "Tracked(w): Tracked<&mut %s>" % c.opts.get("ghosttype", "World")
        if f["params"]:
            last = f["params"][-1]["span"][1]
            ed.append((last, last, ", " + gt))
        else:
            last = f["span"][0] + re.search(rb"\bfn\s+\w+\s*\(", src.data[f["span"][0]:]).end()
            ed.append((last, last, gt))
    # Where a printing function prints to.
    out = [g.strip() for g in c.opts.get("out", "").split(",")] if c and "out" in c.opts else None
    if out is not None:
        last = f["params"][-1]["span"][1]
        ed.append((last, last, ", vx_term: &mut crate::Term"))
    # return name
    spec = c.spec if c else ""
    if f["ret"]:
        nm = (c.ret if c and c.ret else "r")
        rt = src.txt(f["ret"])
        if c and c.rettype:
            ed.append((f["ret"][0], f["ret"][1], "(%s: %s)" % (nm, c.rettype)))
        else:
            ed.append((f["ret"][0], f["ret"][0], "(%s: " % nm))
            ed.append((f["ret"][1], f["ret"][1], ")"))
    b = f.get("body")
    if b is None:
        # trait method without body: ends with ';'
        if spec:
            e = f["span"][1]
            assert src.data[e - 1:e] == b";"
            ed.append((e - 1, e - 1, "\n" + spec))
        ed += path_edits(src, f["sig_paths"], rules)
        return ed
    if spec:
        ed.append((f["block"][0], f["block"][0], "\n" + spec))
    ed += path_edits(src, f["sig_paths"], rules)
    ed += path_edits(src, b["paths"], rules)
    for a in b["attrs"]:
        ed.append((a[0], a[1], ""))
    for u in b["uses"]:
        t = src.txt(u["span"])
        if re.search(r"\b(colored|thiserror|serde|MetadataExt)\b", t) or re.match(r"use\s+(crate::)?(object|diff|dir|commit|file)::", t):
            ed.append((u["span"][0], u["span"][1], ""))
    for g in b["inner_fns"]:
        ed += fn_edits(src, g, contracts, rules, used)
    mode = (c.opts.get("panic") if c else None)
    for m in b["macros"]:
        if out is not None and m["path"] in PRINT_MACROS:
            ed += print_edits(src, m, "vx_term", PRINT_MACROS[m["path"]])
        else:
            ed += macro_edits(src, m, rules, mode)
    for m in b["methods"]:
        r = rules.method_rename.get(m["name"])
        if c and m["name"] in ("unwrap", "expect") and c.opts.get("unwrap") == "abort":
            r = "vx_" + m["name"]
        if r:
            ed.append((m["name_span"][0], m["name_span"][1], r))
    for l in b["loops"]:
        if l["kind"] == "for":
            # The front end has no reference patterns.
            names = []
            for g in re.finditer(r"&\s*(\w+)", src.txt(l["pat"])):
                o = l["pat"][0] + len(src.txt(l["pat"])[:g.start()].encode())
                ed.append((o, o + len(g.group(0).encode()), "vx_" + g.group(1)))
                names.append(g.group(1))
            if names:
                ed.append((l["open"] + 1, l["open"] + 1, " " + " ".join("let %s = *vx_%s;" % (n, n) for n in names)))
            # The front end has no continue in for loops: what follows goes into an else branch.
            for k in l["skips"]:
                ed.append((k["cont"][0], k["cont"][1], ""))
                ed.append((k["end"][1], k["end"][1], " else {"))
                ed.append((l["close"], l["close"], " }"))
    for x in b["calls"]:
        if x["func"] in filters:
            ed.append((x["func_span"][1], x["func_span"][1], ".vx_call"))
    for m in b["methods"] + b["calls"]:
        n = "." + m["name"] if "name" in m else m["func"]
        if any(n == g or n.endswith("::" + g) for g in ghost):
            if m["args"]:
                ed.append((m["args"][-1][1], m["args"][-1][1], ", Tracked(&mut *w)"))
            else:
                ed.append((m["open"], m["open"], "Tracked(&mut *w)"))
        if out is not None and any(n == g or n.endswith("::" + g) for g in out):
            if m["args"]:
                ed.append((m["args"][-1][1], m["args"][-1][1], ", &mut *vx_term"))
            else:
                ed.append((m["open"], m["open"], "&mut *vx_term"))
        if out is not None and re.match(r"((std::)?io::)?stdout$", n):
            ed.append((m["span"][0], m["span"][1], "*vx_term"))
    for l in b["lits"]:
        t = rules.lit(src, f, l) if rules.lit else None
        if t is None:
            t = bytestr(src.txt(l["span"]))
        if True:
            if t is not None:
                ed.append((l["span"][0], l["span"][1], t))
    for x in rules.extra:
        ed += x(src, f, c)
    if c:
        ed += contract_edits(src, f, c, rules.soft)
    if rules.wrap_for:
        for l in b["loops"]:
            if l["kind"] == "for":
                ed.append((l["expr"][0], l["expr"][0], "crate::vx_goes("))
                ed.append((l["expr"][1], l["expr"][1], ")"))
    return ed


def bytestr(t):
    """b"..." literal -> &[..] array literal (the front end has no byte strings)."""
    if not t.startswith('b"'):
        return None
    import ast
    return "&[" + ", ".join("%du8" % x for x in ast.literal_eval(t)) + "]"


def subst_paths(t, rules):
    for a, r in rules.path_subst:
        if a.startswith("="):
            t = re.sub(r"(?<![\w:])" + re.escape(a[1:]) + r"(?![\w:])", r, t)
        else:
            t = re.sub(r"(?<![\w:])" + re.escape(a) + r"::", r + "::", t)
    return t


def path_edits(src, plist, rules):
    ed = []
    for p in plist:
        t = src.txt(p["span"])
        for a, r in rules.path_subst:
            if (a.startswith("=") and t == a[1:]):
                ed.append((p["span"][0], p["span"][1], r))
                break
            if t.startswith(a + "::"):
                ed.append((p["span"][0], p["span"][0] + len(a.encode()), r))
                break
    return ed


def print_edits(src, m, to, newline, close=""):
    """println!/print!/format!: one call for each piece of the format string."""
    a = m["args"]
    s, e = m["span"]
    if a is None or m.get("argkind") not in (None, "exprs"):
        raise Lost("cannot read arguments of %s!" % m["path"])
    fmt = src.txt(a[0]) if a else '""'
    if not re.match(r'"(?:[^"\\\\]|\\[ntr"\\])*"$', fmt):
        raise Lost("%s!: the format string has an unexpected form" % m["path"])
    ed, at, k, pend = [], s, 1, "{ "
    for g in re.finditer(r"(?P<lit>(?:[^{}]|\{\{|\}\})+)|\{(?P<arg>[^{}]*)\}", fmt[1:-1]):
        if g.group("lit") is not None:
            lit = g.group("lit").replace("{{", "{").replace("}}", "}")
            # The escapes of the literal, whole; a line end is a byte of its own on an output.
            pieces = re.findall(r"\\n|(?:[^\\]|\\[^n])+", lit) if to != "vx_s" else [lit]
            for q in pieces:
                pend += "%s.nl(); " % to if q == "\\n" and to != "vx_s" else '%s.put("%s"); ' % (to, q)
        elif re.match(r"[A-Za-z_]\w*$", g.group("arg")):
            pend += "%s.show(&%s); " % (to, g.group("arg"))
        elif g.group("arg") == "" and k < len(a):
            ed.append((at, a[k][0], pend + "%s.show(&(" % to))
            at, pend, k = a[k][1], ")); ", k + 1
        else:
            raise Lost("%s!: unsupported format {%s}" % (m["path"], g.group("arg")))
    if k != len(a) and a:
        raise Lost("%s!: arguments left over" % m["path"])
    ed.append((at, e, pend + ("%s.nl(); " % to if newline else "") + close + "}"))
    return ed


def format_macro(src, m):
    """format!: the text is put together piece by piece."""
    ed = print_edits(src, m, "vx_s", False, close="vx_s.text() ")
    ed[0] = (ed[0][0], ed[0][1], "{ let mut vx_s = crate::VxText::start(); " + ed[0][2][2:])
    return ed


def macro_edits(src, m, rules, mode):
    name = m["path"]
    s, e = m["span"]
    semi = src.data[e - 1:e] == b";"
    if name in rules.macro:
        r = rules.macro[name](src, m)
        if r is not None:
            return r
    if name in DROP_MACROS:
        return [(s, e, "" if m["stmt"] else "()")]
    if name in ("debug_assert", "assert"):
        fn = "vassert" if mode != "abort" else "vassert_or_abort"
        a = m["args"]
        if not a:
            raise Lost("cannot read arguments of %s!" % name)
        return [(s, a[0][0], "%s(" % fn), (a[0][1], e, ");" if semi else ")")]
    if name in ABORT_MACROS:
        fn = "vunreached" if mode != "abort" else "vabort"
        return [(s, e, "%s()" % fn + (";" if semi else ""))]
    if name in ("vec", "matches"):
        return []
    raise Lost("unsupported macro %s!" % name)


SHAPES = None


def shapes():
    """The loops and closures each function had when its contract was written (contracts/shapes.json)."""
    global SHAPES
    if SHAPES is None:
        try:
            with open(os.path.join(paths.VERIF, "contracts", "shapes.json")) as fh:
                SHAPES = json.load(fh)
        except OSError:
            SHAPES = {}
    return SHAPES


def shape(f):
    b = f["body"]
    return " ".join([l["kind"] for l in sorted(b["loops"], key=lambda l: l["span"][0])] + ["closure"] * len(b["closures"])) or "straight"


def contract_edits(src, f, c, soft):
    """Annotations inside a body.  One that has no place any more is left out and noted in `soft`:
    the proof may do without it, but a failure then says nothing."""
    ed = []
    b = f["body"]
    blk = f["block"]
    if c.opts.get("reveal"):
        ts = sorted({src.txt(l["span"]) for l in b["lits"] if l["kind"] == "str" and len(l["value"]) < 40} | set(c.opts["reveal"].split()))
        ed.append((blk[0] + 1, blk[0] + 1, "\nproof { %s }\n" % distinct_strs(ts)))
    if c.entry:
        ed.append((blk[0] + 1, blk[0] + 1, "\n" + c.entry))
    loops = sorted(b["loops"], key=lambda l: l["span"][0])
    want, have = shapes().get(os.path.relpath(src.path, paths.REPO) + ":" + f["qual"]), shape(f)
    if want is not None and want != have:
        soft.append("%s: written with %s, now %s" % (f["qual"], want, have))
    for i, t in c.loops.items():
        if i >= len(loops):
            soft.append("%s: loop %d not found" % (f["qual"], i))
            continue
        ed.append((loops[i]["open"], loops[i]["open"], "\n" + t))
        if i in c.loop_iter:
            if loops[i]["kind"] != "for":
                soft.append("%s: loop %d is not a for loop" % (f["qual"], i))
                continue
            ed.append((loops[i]["expr"][0], loops[i]["expr"][0], c.loop_iter[i] + ": "))
    for i, t in c.loopstart.items():
        if i >= len(loops):
            soft.append("%s: loop %d not found" % (f["qual"], i))
            continue
        ed.append((loops[i]["open"] + 1, loops[i]["open"] + 1, "\n" + t))
    for i, t in c.loopend.items():
        if i >= len(loops):
            soft.append("%s: loop %d not found" % (f["qual"], i))
            continue
        ed.append((loops[i]["close"], loops[i]["close"], ";\n" + t))
    clos = sorted(b["closures"], key=lambda l: l["span"][0])
    for i, (hdr, t) in c.closures.items():
        if i >= len(clos):
            soft.append("%s: closure %d not found" % (f["qual"], i))
            continue
        cl = clos[i]
        pre = ""
        hdr, t = same_names(src, cl, hdr, t)
        for pr in cl["params"]:
            pt = src.txt(pr["span"] if isinstance(pr, dict) else pr)
            g = re.match(r"&\s*(\w+)$", pt)
            if g:
                pre += "let %s = *%s; " % (g.group(1), g.group(1))
            elif not re.match(r"(mut\s+)?\w+(\s*:.*)?$", pt, re.S):
                # The front end has no patterns in closure parameters.
                h = re.match(r"\|\s*(\w+)\s*:", hdr)
                if not h:
                    pre = None
                    break
                if pt != h.group(1):
                    pre += "let %s = %s; " % (pt, h.group(1))
        if pre is None or (pre and cl["block"]):
            soft.append("%s: closure %d: pattern" % (f["qual"], i))
            continue
        ed.append((cl["or1"], cl["body"][0], hdr + " " + t.strip() + (" " if cl["block"] else " { ") + pre))
        if not cl["block"]:
            ed.append((cl["body"][1], cl["body"][1], " }"))
    for pos, kind, name, idx, t in c.anchors:
        st = anchor_stmt(src, f, kind, name, idx)
        if st is None:
            soft.append("%s: anchor %s %s #%d not found" % (f["qual"], kind, name, idx))
            continue
        if pos == "before":
            ed.append((st[0], st[0], t + "\n"))
        else:
            ed.append((st[1], st[1], "\n" + t))
    return ed


def same_names(src, cl, hdr, t):
    """The contract of a closure, with its parameters named as the source names them."""
    m = re.match(r"\|([^|]*)\|", hdr)
    theirs = re.findall(r"(\w+)\s*:(?!:)", m.group(1)) if m else []
    ours = [re.match(r"&?\s*(?:mut\s+)?(\w+)\s*(?::.*)?$", src.txt(pr["span"] if isinstance(pr, dict) else pr), re.S) for pr in cl["params"]]
    if len(theirs) != len(ours) or not all(ours):
        return hdr, t
    to = dict(zip(theirs, [o.group(1) for o in ours]))
    if "_" in to.values() or all(a == b for a, b in to.items()):
        return hdr, t
    ren = lambda x: re.sub(r"(?<![\w.])(%s)\b" % "|".join(map(re.escape, to)), lambda g: to[g.group(1)], x)
    return ren(hdr), ren(t)


def distinct_strs(ts):
    """Facts the solver needs to tell string literals apart."""
    out = ["reveal_strlit(%s); assert(%s@.len() == %d);" % (t, t, len(t) - 2) for t in ts if "\\" not in t and t.isascii()]
    for i, a in enumerate(ts):
        for b in ts[i + 1:]:
            if len(a) == len(b) and "\\" not in a + b and (a + b).isascii():
                k = [x != y for x, y in zip(a, b)].index(True) - 1
                out.append("assert(%s@[%d] != %s@[%d]);" % (a, k, b, k))
    return " ".join(out)


def anchor_stmt(src, f, kind, name, idx):
    b = f["body"]
    if kind == "call":
        hits = [m["name_span"] for m in b["methods"] if m["name"] == name]
        hits += [m["func_span"] for m in b["calls"] if m["func"].split("::")[-1] == name]
        hits.sort()
    elif kind == "macro":
        hits = sorted(m["span"] for m in b["macros"] if m["path"].split("::")[-1] == name)
    elif kind == "return":
        hits = sorted(m["span"] for m in b["returns"] if not m["in_closure"])
    elif kind == "let":
        hits = sorted(s["span"] for s in b["stmts"] if s["kind"] == "local" and s.get("name") == name)
    elif kind == "loop":
        hits = sorted(l["span"] for l in b["loops"])
    else:
        raise Lost("bad anchor kind")
    if idx >= len(hits):
        return None
    h = hits[idx]
    best = None
    for s in b["stmts"]:
        sp = s["span"]
        if sp[0] <= h[0] and h[1] <= sp[1]:
            if best is None or sp[1] - sp[0] < best[1] - best[0]:
                best = sp
    return best


def emit_fn(src, qual, contracts, rules, used, prefix=""):
    f = src.fns.get(qual)
    if f is None:
        raise Lost("function %s not found in %s" % (qual, src.path))
    ed = fn_edits(src, f, contracts, rules, used)
    return prefix + apply_edits(src.data, f["span"][0], f["span"][1], ed)


def emit_type(src, it, rules=None, pub_fields=True):
    ed = []
    s, e = it["span"]
    for a in it["attrs"]:
        ed.append((a["span"][0], a["span"][1], ""))
    fs = list(it.get("fields", []))
    for v in it.get("variants", []):
        for a in v["attrs"]:
            ed.append((a["span"][0], a["span"][1], ""))
        fs += v["fields"]
    for x in fs:
        for a in x["attrs"]:
            ed.append((a["span"][0], a["span"][1], ""))
        if rules:
            t = src.txt(x["ty"])
            t2 = subst_paths(t, rules)
            if t2 != t:
                ed.append((x["ty"][0], x["ty"][1], t2))
    if it["kind"] == "struct" and pub_fields:
        for x in it["fields"]:
            v = x["vis"]
            st = x["ty"][0] if x["name"].isdigit() else None
            if v[0] == v[1] or src.txt(v) == "":
                # insert before the field name
                nm = x["name"]
                if nm.isdigit():
                    ed.append((x["ty"][0], x["ty"][0], "pub "))
                else:
                    seg = src.txt([x["span"][0], x["ty"][0]])
                    off = seg.rfind(nm)
                    p = x["span"][0] + len(seg[:off].encode())
                    ed.append((p, p, "pub "))
    t = apply_edits(src.data, s, e, ed)
    t = re.sub(r"^\s*(///.*\n\s*)*", "", t)
    if not t.startswith("pub"):
        t = "pub " + t
    return t
