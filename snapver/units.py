"""Assembly of one Verus input file per unit."""
import os, re
from . import paths
from .extract import (load, parse_contracts, emit_fn, emit_type, fn_edits, apply_edits, subst_paths, Rules, Lost)

ROOT_PATHS = [("crate::" + m, "crate") for m in
              ("key", "ds", "object", "commit", "dir", "file", "cache", "keyish", "diff", "filter", "display", "base32")] + \
             [(m, "crate") for m in ("key", "ds", "object", "commit", "dir", "file", "cache", "keyish", "filter", "display", "snapcd",
                                     "super")] + [("=serde_bytes::ByteBuf::from", "crate::vx_bytebuf"), ("=Default::default", "crate::vx_default")]


def publish(t):
    """Make an item public (visibility has no run-time meaning)."""
    m = re.match(r"((?:\s*(?:#\[[^\n]*\]|///[^\n]*|//[^\n]*))*\s*)", t)
    rest = t[m.end():]
    rest = re.sub(r"^pub(\([a-z]+\))?\s+", "", rest)
    return m.group(1) + "pub " + rest


class Unit:
    def __init__(self, name, vrc=(), **rules):
        self.name = name
        self.contracts = {}
        self.raws = []
        for v in vrc:
            self.load_contracts(v)
        ps = list(rules.pop("path_subst", [])) + ROOT_PATHS
        self.rules = Rules(path_subst=ps, **rules)
        self.parts = []
        self.used = set()
        self.fns = []          # (label, file, qual, has_body)
        self.groups = []       # broadcast groups
        self.errs = []
        self.into_errs = False
        self.sources = set()

    def load_contracts(self, v):
        with open(os.path.join(paths.VERIF, "contracts", v)) as f:
            c, g = parse_contracts(f.read(), v)
        self.contracts.update(c)
        self.raws.append((v, g["raw"]))

    def src(self, f):
        self.sources.add(f)
        return load(os.path.join(paths.REPO, f))

    def raw(self, text, label="(spec)"):
        self.parts.append((label, text))

    def lib(self, *names):
        for n in names:
            with open(os.path.join(paths.VERIF, "lib", n)) as f:
                m = "lib_" + n.split(".")[0]
                self.parts.append(("lib/" + n, "pub mod %s { use super::*;\n%s\n}\npub use %s::*;" % (m, f.read(), m)))

    def contract_raw(self):
        for v, t in self.raws[:1]:
            if t.strip():
                self.parts.append(("contracts/" + v, t))

    def find(self, f, name, kinds=("struct", "enum", "const", "static", "type")):
        s = self.src(f)
        for it in s.items:
            if it.get("name") == name and it["kind"] in kinds:
                return s, it
        raise Lost("%s: item %s not found" % (f, name))

    def typ(self, f, *names, **kw):
        for n in names:
            s, it = self.find(f, n)
            if it["kind"] in ("const", "static", "type"):
                t = apply_edits(s.data, it["span"][0], it["span"][1],
                                [(a["span"][0], a["span"][1], "") for a in it["attrs"]])
                t = t.strip()
                if not t.startswith("pub"):
                    t = "pub " + t
                if it["kind"] == "static":
                    t = kw["static"](t)
                if n in kw.get("consts", {}):
                    g = re.match(r"pub const (\w+): ([^=]*?) = (.*);$", t, re.S)
                    t = "pub exec const %s: %s\n    %s\n{ %s %s }" % (g.group(1), g.group(2), kw["consts"][n][0], kw["consts"][n][1], g.group(3))
            else:
                t = emit_type(s, it, self.rules)
            self.parts.append(("%s:%s" % (f, n), t))

    def err(self, f, *names):
        """A thiserror enum: the type, and the From impls its #[from] attributes generate."""
        for n in names:
            s, it = self.find(f, n)
            t = emit_type(s, it, self.rules)
            out = [t, "#[verifier::external] impl core::fmt::Debug for %s { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }" % n]
            for v in it.get("variants", []):
                for fl in v["fields"]:
                    if any(re.search(r"#\[from\]", s.txt(a["span"])) for a in fl["attrs"]):
                        ty = s.txt(fl["ty"])
                        ty = subst_paths(ty, self.rules)
                        q = n + "::" + v["name"]
                        out.append("impl vstd::std_specs::convert::FromSpecImpl<%s> for %s {\n"
                                   "    open spec fn obeys_from_spec() -> bool { true }\n"
                                   "    open spec fn from_spec(x: %s) -> %s { %s(x) }\n}\n"
                                   "impl From<%s> for %s { fn from(x: %s) -> (r: Self) { %s(x) } }"
                                   % (ty, n, ty, n, q, ty, n, ty, q))
                        if self.into_errs:
                            out.append("impl VxInto<%s> for %s { open spec fn conv(self, r: %s) -> bool { r == %s(self) } fn vx_into(self) -> (r: %s) { %s(self) } }" % (n, ty, n, q, n, q))
                        ax = "q_%s_%s" % (n, v["name"])
                        self.errs.append((ax, "pub broadcast axiom fn %s(e: %s, r: %s)\n    ensures #[trigger] "
                                          "vstd::std_specs::control_flow::spec_from::<%s, %s>(e, r) ==> r == %s(e);"
                                          % (ax, ty, n, n, ty, q)))
            self.parts.append(("%s:%s" % (f, n), "\n".join(out)))

    def fn(self, f, *quals, pub=True):
        s = self.src(f)
        for q in quals:
            t = emit_fn(s, q, self.contracts, self.rules, self.used).strip()
            if pub:
                t = publish(t)
            self.parts.append(("%s:%s" % (f, q), t))
            self.fns.append(("%s:%s" % (f, q), f, q, True))

    def sig(self, f, *quals, pub=True):
        """Only the contract: the body is verified in another unit."""
        s = self.src(f)
        for q in quals:
            g = s.fns.get(q)
            if g is None:
                raise Lost("function %s not found in %s" % (q, f))
            self.parts.append(("%s:%s (contract)" % (f, q), "#[verifier::external_body]\n" + ("pub " if pub else "") + self._sigtext(s, g).lstrip() + " { unimplemented!() }"))

    def _sigtext(self, s, g):
        ed = fn_edits(s, g, self.contracts, self.rules, self.used)
        ed = [e for e in ed if e[1] <= g["block"][0]]
        t = apply_edits(s.data, g["span"][0], g["block"][0], ed).strip()
        t = re.sub(r"#\[verifier::(loop_isolation\(\w+\)|exec_allows_no_decreases_clause|rlimit\(\d+\)|spinoff_prover)\]", "", t).strip()
        return re.sub(r"^pub(\([a-z]+\))?\s+", "", t)

    def sigs_impl(self, f, header, quals, new_header=None):
        self.parts.append(("%s:impl %s (contracts)" % (f, header), (new_header or ("impl %s" % header)) + " {"))
        self.sig(f, *[header + "::" + q for q in quals], pub=" for " not in (new_header or ""))
        self.parts.append(("(end impl)", "}"))

    def impl(self, f, header, quals, new_header=None, extra="", pub=False, exact=False):
        """Methods of an impl block (header as in qualified names, e.g. 'Key' or '<SqliteDS as DataStore>')."""
        s = self.src(f)
        if exact:
            have = {q.split("::")[-1] for q in s.fns if q.startswith(header + "::") and "/" not in q[len(header):]}
            if have != set(quals):
                raise Lost("%s: impl %s has other methods than expected: %s" % (f, header, sorted(have ^ set(quals))))
        self.parts.append(("%s:impl %s" % (f, header), (new_header or ("impl %s" % header)) + " {\n" + extra))
        for q in quals:
            full = header + "::" + q
            t = emit_fn(s, full, self.contracts, self.rules, self.used).strip()
            if pub:
                t = publish(t)
            self.parts.append(("%s:%s" % (f, full), t))
            self.fns.append(("%s:%s" % (f, full), f, full, True))
        self.parts.append(("(end impl)", "}"))

    def trait(self, f, name, header, extra="", bodies=(), skip=()):
        """A trait: signatures with contracts; default bodies kept only for `bodies`."""
        s = self.src(f)
        self.parts.append(("%s:trait %s" % (f, name), header + " {\n" + extra))
        for it in s.items:
            if it["kind"] == "trait" and it["name"] == name:
                for g in it["fns"]:
                    if g["kind"] != "method" or g["name"] in skip:
                        continue
                    q = name + "::" + g["name"]
                    if g.get("body") and g["name"] not in bodies:
                        ed = fn_edits(s, dict(g, body=None, block=None) if False else g, self.contracts, self.rules, self.used)
                        ed = [e for e in ed if e[1] <= g["block"][0]]
                        t = apply_edits(s.data, g["span"][0], g["block"][0], ed).strip()
                        t = t.rstrip() + ";"
                        has = False
                    else:
                        t = emit_fn(s, q, self.contracts, self.rules, self.used).strip()
                        has = bool(g.get("body"))
                    self.parts.append(("%s:%s" % (f, q), t))
                    self.fns.append(("%s:%s" % (f, q), f, q, has))
                break
        else:
            raise Lost("%s: trait %s not found" % (f, name))
        self.parts.append(("(end trait)", "}"))

    def text(self, header="", check_used=True):
        if check_used:
            for n, c in self.contracts.items():
                if n not in self.used and not c.opts.get("optional"):
                    self.unused = getattr(self, "unused", []) + [n]
        out = ["// Generated from /repo/src on every run by /verif/snapver; do not edit.",
               "#![allow(unused_imports, dead_code, unused_variables, unused_mut, unused_parens, unused_braces, non_snake_case, unreachable_code, unused_must_use)]",
               "#![feature(allocator_api)]" if False else "", "use vstd::prelude::*;", header, "verus! {"]
        for lab, t in self.parts:
            out.append("// @@item " + lab)
            out.append(t)
        groups = list(self.groups)
        if self.errs:
            out.append("// @@item (error conversions)")
            out.append("pub mod errx { use super::*;\n" + "\n".join(a for _, a in self.errs) +
                       "\npub broadcast group all { " + ", ".join(n for n, _ in self.errs) + " }\n}")
            groups.append("errx::all")
        if groups:
            out.append("broadcast use {" + ", ".join(groups) + "};")
        out.append("} // verus!")
        return "\n".join(out) + "\n"
