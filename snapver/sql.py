"""The SQL texts in /repo/src, as specification values (lib/sql.vrs: SqlV).

A text this reader does not know makes the extraction Lost (undecided), never accepted.
"""
import re
from .extract import Lost

TBL = {"data": "Tbl::Data", "state": "Tbl::State", "reflog": "Tbl::Reflog", "cache": "Tbl::Cache"}
COL = {"id": "Col::Id", "key": "Col::Key", "value": "Col::Value", "refname": "Col::Refname", "remote": "Col::Remote"}
KVCOLS = ["key", "value"]
REFCOLS = ["id", "refname", "remote", "key"]
OPS = {"=": "Eq", "==": "Eq", "is": "Is", "<": "Lt", "<=": "Le", ">": "Gt", ">=": "Ge", "<>": "Ne", "!=": "Ne"}
WORD = re.compile(r"^\s*(select|insert|replace|update|delete|begin|commit|end|rollback|create|drop|alter|pragma|savepoint|release|with|vacuum)\b", re.I)
KV = "key blob not null unique primary key , value blob not null"
SCHEMA = {
    "data": ("( %s ) without rowid" % KV,), "state": ("( %s ) without rowid" % KV,), "cache": ("( %s ) without rowid" % KV,),
    "reflog": ("( id integer primary key , refname text not null , remote text , key blob )",
               "( id integer primary key , refname text not null , remote text , key blob not null )"),
}


def is_sql(t):
    return bool(WORD.match(t)) and (" " in t.strip() or t.strip().lower().rstrip(";") in ("begin", "commit", "end", "rollback"))


def toks(t):
    out = re.findall(r"\?\d*|<=|>=|<>|!=|==|[<>=(),;*]|[A-Za-z_][A-Za-z_0-9]*|\d+|\S", t)
    return [x.lower() for x in out]


class P:
    def __init__(self, t):
        self.t, self.i, self.n, self.src = toks(t), 0, 0, t

    def bad(self):
        raise Lost("SQL text not understood: %r" % self.src.strip()[:200])

    def peek(self, *w):
        return self.t[self.i:self.i + len(w)] == list(w)

    def eat(self, *w):
        if self.peek(*w):
            self.i += len(w)
            return True
        return False

    def need(self, *w):
        if not self.eat(*w):
            self.bad()

    def word(self, d):
        if self.i < len(self.t) and self.t[self.i] in d:
            self.i += 1
            return self.t[self.i - 1]
        self.bad()

    def param(self):
        if self.i < len(self.t) and self.t[self.i].startswith("?"):
            x = self.t[self.i][1:]
            self.i += 1
            if x:
                self.n = max(self.n, int(x))
                return int(x) - 1
            self.n += 1
            return self.n - 1
        self.bad()

    def end(self):
        self.eat(";")
        if self.i != len(self.t):
            self.bad()

    def stmt(self):
        if self.eat("begin"):
            if self.i < len(self.t) and self.t[self.i] in ("deferred", "immediate", "exclusive"):
                self.i += 1
            self.eat("transaction")
            self.end()
            return "SqlV::Begin"
        if self.eat("commit") or self.eat("end"):
            self.eat("transaction")
            self.end()
            return "SqlV::Commit"
        if self.eat("rollback"):
            self.eat("transaction")
            self.end()
            return "SqlV::Rollback"
        if self.eat("select"):
            return self.select()
        if self.eat("insert") or self.peek("replace"):
            return self.insert()
        if self.peek("create"):
            return self.create()
        self.bad()

    def select(self):
        if self.eat("count", "(", "*", ")"):
            what = "What::Count"
        else:
            what = "What::Col(%s)" % COL[self.word(COL)]
        self.need("from")
        tbl = self.word(TBL)
        conds = []
        if self.eat("where"):
            while True:
                c = COL[self.word(COL)]
                o = OPS[self.word(OPS)]
                if o == "Is" and self.peek("not"):
                    self.bad()
                conds.append("Cond { col: %s, op: CmpOp::%s, p: %d }" % (c, o, self.param()))
                if not self.eat("and"):
                    break
        order = "OrderBy::Any"
        if self.eat("order", "by"):
            self.need("id")
            order = "OrderBy::Desc" if self.eat("desc") else ("OrderBy::Asc" if (self.eat("asc") or True) else "")
        limit = "None"
        if self.eat("limit"):
            if self.i < len(self.t) and self.t[self.i].isdigit():
                limit = "Some(%snat)" % self.t[self.i]
                self.i += 1
            else:
                self.bad()
        self.end()
        return "SqlV::Select { tbl: %s, what: %s, conds: seq![%s], order: %s, limit: %s }" % (TBL[tbl], what, ", ".join(conds), order, limit)

    def insert(self):
        pol = "Abort"
        if self.eat("replace"):
            pol = "Replace"
        elif self.eat("or"):
            pol = {"ignore": "Ignore", "replace": "Replace", "abort": "Abort", "fail": "Abort", "rollback": None}[self.word(("ignore", "replace", "abort", "fail", "rollback"))]
            if pol is None:
                self.bad()
        self.need("into")
        tbl = self.word(TBL)
        cols = list(REFCOLS if tbl == "reflog" else KVCOLS)
        if self.eat("("):
            cols = [self.word(COL)]
            while self.eat(","):
                cols.append(self.word(COL))
            self.need(")")
        self.need("values", "(")
        ps = [self.param()]
        while self.eat(","):
            ps.append(self.param())
        self.need(")")
        self.end()
        if len(ps) != len(cols) or len(set(cols)) != len(cols):
            self.bad()
        want = ("refname", "remote", "key") if tbl == "reflog" else ("key", "value")
        if set(cols) != set(want):
            self.bad()
        d = dict(zip(cols, ps))
        if tbl == "reflog":
            return "SqlV::InsertRef { refname: %d, remote: %d, key: %d }" % (d["refname"], d["remote"], d["key"])
        return "SqlV::Insert { tbl: %s, policy: Policy::%s, key: %d, value: %d }" % (TBL[tbl], pol, d["key"], d["value"])

    def create(self):
        ts, ine = [], True
        while self.i < len(self.t):
            self.need("create", "table")
            if not self.eat("if", "not", "exists"):
                ine = False
            t = self.word(TBL)
            j = self.i
            while j < len(self.t) and self.t[j] != ";":
                j += 1
            if " ".join(self.t[self.i:j]) not in SCHEMA[t]:
                self.bad()
            ts.append(TBL[t])
            self.i = j
            self.eat(";")
        s = "Set::<Tbl>::empty()" + "".join(".insert(%s)" % t for t in ts)
        return "SqlV::Schema { tables: %s, if_not_exists: %s }" % (s, "true" if ine else "false")


def unquote(lit):
    """The text of a Rust string literal."""
    m = re.match(r'r(#*)"(.*)"\1$', lit, re.S)
    if m:
        return m.group(2)
    if not (lit.startswith('"') and lit.endswith('"')):
        return None
    b = re.sub(r"\\\n\s*", "", lit[1:-1])
    return b.replace('\\"', '"').replace("\\n", "\n").replace("\\t", "\t").replace("\\\\", "\\")


def value(text):
    return P(text).stmt()
