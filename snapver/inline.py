"""Puts the body of a helper where it is called.

A helper is a function of the file that was not there when the contracts were written (contracts/shapes.json names
those that were): it has no contract, so a proof of its callers would know nothing of it.  The call is replaced by
the helper's own text, with its parameters bound to (or replaced by) the arguments.  Nothing else is changed, and
where it cannot be done without changing what the code means, the call is left as it is (the unit is then undecided).
"""
import re

IDENT = re.compile(r"[A-Za-z_]\w*$")
PLACE = re.compile(r"(&mut\s+|&\s*)?([A-Za-z_]\w*)$")


class Cannot(Exception):
    pass


def ws(t):
    return re.sub(r"\s+", "", t)


def inside(a, b):
    return b[0] <= a[0] and a[1] <= b[1]


def helpers(src, known):
    return {q: f for q, f in src.fns.items() if f.get("block") and q not in known and "/" not in q and f["kind"] in ("fn", "method")}


def calls_of(src, f, q, h):
    """The calls of helper q in f: (span, args, receiver or None)."""
    b, out = f["body"], []
    own = f.get("owner") and h.get("owner") and src.implname(f["owner"]) == src.implname(h["owner"])
    for c in b["calls"]:
        if h["kind"] == "fn" and c["func"] == h["name"]:
            out.append((c["span"], c["args"], None))
        elif h["kind"] == "method" and not any(p["self"] for p in h["params"]) and \
                (own and c["func"] == "Self::" + h["name"] or ws(c["func"]) == q):
            out.append((c["span"], c["args"], None))
    if h["kind"] == "method" and h["params"] and h["params"][0]["self"]:
        for m in b["methods"]:
            r = src.txt(m["recv"])
            if m["name"] == h["name"] and (own and r == "self" or r != "self" and IDENT.match(r)):
                out.append((m["span"], m["args"], r))
    return out


def error_type(src, t):
    """The error a result type has, or None."""
    t = ws(t)
    for it in src.items:
        if it["kind"] == "type" and it["name"] == t:
            g = re.search(r"=(.*);$", ws(src.txt(it["span"])))
            t = g.group(1) if g else t
    g = re.match(r"((?:\w+::)*)Result<(.*)>$", t)
    if not g:
        return None
    d, cut = 0, None
    for i, ch in enumerate(g.group(2)):
        d += (ch in "<([") - (ch in ">)]")
        if ch == "," and d == 0:
            cut = i
    return g.group(2)[cut + 1:] if cut is not None else g.group(1) + "Error"


def place(src, f, h, call):
    """The edits that put h where it is called."""
    span, args, recv = call
    hb, blk = h["body"], h["block"]
    params = [p for p in h["params"] if not p["self"]]
    if len(params) != len(args) or hb["inner_fns"]:
        raise Cannot("parameters")
    if any(inside(span, m["span"]) for m in f["body"]["macros"]):
        raise Cannot("in a macro")
    text = src.txt(blk)
    if h.get("generics"):
        names = re.findall(r"(?<!')\b([A-Z]\w*)\b(?=\s*[:,>])", src.txt(h["generics"]))
        if any(i["name"] in names for i in hb["idents"]):
            raise Cannot("generic")
    if re.search(r"'[a-z]\w*\b(?!')", text):
        raise Cannot("lifetimes or labels")
    hret = src.txt(h["ret"]) if h["ret"] else "()"
    fret = src.txt(f["ret"]) if f["ret"] else "()"
    closures = sum(1 for c in f["body"]["closures"] if inside(span, c["span"]))
    # where the call stands
    tries = [t for t in f["body"]["tries"] if t["inner"] == span]
    top = f["top_stmts"]
    tail = bool(top) and top[-1]["tail"] and top[-1]["span"] == span or any(r["expr"] == span for r in f["body"]["returns"])
    rets = [r for r in hb["returns"] if not any(inside(r["span"], c["span"]) for c in hb["closures"])]
    early = rets or [t for t in hb["tries"] if not any(inside(t["span"], c["span"]) for c in hb["closures"])]
    same = error_type(src, hret) is not None and error_type(src, hret) == error_type(src, fret)
    whole, leaves = span, None
    if early and closures:
        raise Cannot("in a closure")
    if early and not (tail and ws(hret) == ws(fret)):
        if not tries or not same:
            raise Cannot("leaves early")
        for r in rets:
            if not r["expr"] or not src.txt(r["expr"]).lstrip().startswith("Err("):
                raise Cannot("leaves early")
    if tries and same and h["top_stmts"] and h["top_stmts"][-1]["tail"]:
        last = h["top_stmts"][-1]["span"]
        oks = {tuple(c["span"]): c for c in hb["calls"] if c["func"] == "Ok" and len(c["args"]) == 1}
        ends = [last]
        for m in hb["matches"]:
            if m["span"] == last:
                ends = [a["body"] for a in m["arms"]]
        if not closures and all(tuple(e) in oks for e in ends):
            leaves, whole = [oks[tuple(e)] for e in ends], tries[0]["span"]
    # parameters
    lets, subst, bound, seen = [], {}, [], []
    hbinds = {b["name"] for b in hb["binds"]}
    for p, a in zip(params, args):
        if not p.get("name"):
            raise Cannot("a pattern")
        at, n = src.txt(a).strip(), p["name"]
        g = PLACE.match(at)
        ids = set(re.findall(r"[A-Za-z_]\w*", at))
        if ids & set(bound):
            raise Cannot("names")
        if g and not p["mut"] and at not in ("true", "false"):
            if g.group(2) in seen:
                raise Cannot("the same place twice")
            seen.append(g.group(2))
            if at == n:
                if n in hbinds:
                    raise Cannot("names")
                continue
            if g.group(2) in hbinds or n in hbinds or g.group(2) in [x["name"] for x in params if x is not p]:
                raise Cannot("names")
            subst[n] = (g.group(1) or "", g.group(2))
        else:
            ty = src.txt(p["ty"])
            plain = not re.search(r"\bimpl\b|'|\bSelf\b|\bdyn\b", ty) and not h.get("generics")
            lets.append("let %s%s%s = %s;" % ("mut " if p["mut"] else "", n, ": " + ty if plain else "", at))
            bound.append(n)
    if recv:
        if recv in seen:
            raise Cannot("the same place twice")
        if recv != "self":
            if recv in hbinds or recv in [x["name"] for x in params] or "Self" in [x["name"] for x in hb["idents"]]:
                raise Cannot("names")
            for x in hb["paths"]:
                if x["txt"] == "self" and (not src.data[x["span"][1]:].decode(errors="replace").lstrip().startswith(".") or src.data[:x["span"][0]].decode(errors="replace").rstrip().endswith("*")):
                    raise Cannot("self as a whole")
            subst["self"] = ("", recv)
    for l in hb["lits"]:
        if l["kind"] == "str" and any(re.search(r"\{\s*%s\b" % re.escape(n), l["value"]) for n in subst):
            raise Cannot("a name in a format string")
    where = [tuple(i["span"]) for i in hb["idents"]]
    for m in hb["macros"]:
        if m["argkind"] != "exprs" and any(re.search(r"\b%s\b" % re.escape(n), src.txt(m["span"])) for n in subst):
            raise Cannot("a macro")
    ed = []
    for p in hb["paths"]:
        if p["txt"] not in subst:
            continue
        pre, x = subst[p["txt"]]
        s, e = p["span"]
        if where.count((s, e)) > 1:
            ed.append((s, e, "%s: %s%s" % (p["txt"], pre, x)))
            continue
        if not pre:
            ed.append((s, e, x))
            continue
        before, after = src.data[:s].decode(errors="replace").rstrip(), src.data[e:].decode(errors="replace").lstrip()
        if before.endswith("*") and not re.search(r"[\w)\]]\s*\*$", before):
            k = src.data.rindex(b"*", 0, s)
            ed.append((k, e, x))
        elif after.startswith(".") and not after.startswith(".."):
            ed.append((s, e, x))
        elif before[-1:] in ("(", ",", "=") and after[:1] in (")", ",", ";"):
            ed.append((s, e, pre + x))
        else:
            ed.append((s, e, "(%s%s)" % (pre, x)))
    from .extract import apply_edits
    for c in leaves or []:
        a = c["args"][0]
        s0, e0 = c["span"]
        ed += [(s0, a[0], ""), (a[1], e0, "")]
    # the text, in two: what comes before the value, and the value
    ht = h["top_stmts"]
    if ht and ht[-1]["tail"]:
        lo, hi = ht[-1]["span"]
        value = apply_edits(src.data, lo, hi, [x for x in ed if inside(x, (lo, hi))])
        stmts = apply_edits(src.data, blk[0] + 1, lo, [x for x in ed if inside(x, (blk[0] + 1, lo))])
    else:
        value = ""
        stmts = apply_edits(src.data, blk[0] + 1, blk[1] - 1, ed)
    stmts = "\n".join(lets + [stmts.strip()]).strip()
    # flat, when the call makes up a statement and the names are free
    fnames = [i for i in f["body"]["idents"] if not inside(i["span"], span)]
    own = set(hbinds) | set(bound)
    for st in f["body"]["stmts"]:
        if st["kind"] == "local" and st.get("init") == whole and st.get("name"):
            free = not any(i["name"] in own and (i["name"] != st["name"] or i["span"][0] < st["pat"][0]) for i in fnames) and not own & {p.get("name") for p in f["params"]}
            if free and value and not st.get("typed"):
                p0 = st["span"][0]
                return [(p0, p0, stmts + "\n"), (whole[0], whole[1], value)]
        if st["kind"] in ("expr;", "expr") and (st["span"] == list(whole) or st["kind"] == "expr;" and st["span"][0] == whole[0] and src.txt((whole[1], st["span"][1])).strip() == ";"):
            free = not any(i["name"] in own for i in fnames) and not own & {p.get("name") for p in f["params"]}
            if free:
                sep = ";" if st["kind"] == "expr;" else ""
                if not value and sep:
                    return [(st["span"][0], st["span"][1], stmts)]
                if value and re.match(r"(if|match|for|while|loop|\{)", value):
                    return [(st["span"][0], st["span"][1], stmts + "\n" + value)] if hret == "()" else [(st["span"][0], st["span"][1], stmts + "\n(" + value + ")" + sep)]
                return [(st["span"][0], st["span"][1], stmts + "\n" + value + sep)]
    if value and tries and leaves is None and same:
        # What `?` is for needs its type.
        stmts, value = stmts + "\nlet vx_value: %s = %s;" % (hret, value), "vx_value"
    if not stmts:
        return [(whole[0], whole[1], "(" + value + ")")]
    return [(whole[0], whole[1], "({ " + stmts + "\n" + value + " })")]


def expand(src, known):
    """The text of the file with the first call of a helper replaced, or None when there is none that can be."""
    from .extract import apply_edits
    hs = helpers(src, known)
    if not hs:
        return None
    for q, f in sorted(src.fns.items()):
        if not f.get("block"):
            continue
        for hq, h in sorted(hs.items()):
            if h is f:
                continue
            for call in calls_of(src, f, hq, h):
                # The arguments of a call, and helpers in helpers, first.
                if any(inside(o[0], call[0]) and o[0] != call[0] for oq, oh in hs.items() for o in calls_of(src, f, oq, oh)):
                    continue
                if any(calls_of(src, h, oq, oh) for oq, oh in hs.items()):
                    continue
                try:
                    ed = place(src, f, h, call)
                except Cannot:
                    continue
                return apply_edits(src.data, 0, len(src.data), ed)
    return None
