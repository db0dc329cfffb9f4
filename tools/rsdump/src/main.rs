//! rsdump FILE.rs : prints, as JSON, the syntactic structure of a Rust source
//! file with byte offsets (into the UTF-8 text), for the mechanical extractor.
//! It decides nothing; it only reports where things are.
use proc_macro2::{LineColumn, Span};
use serde_json::{json, Value};
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

struct Src {
    text: String,
    line_starts: Vec<usize>,
}
impl Src {
    fn off(&self, lc: LineColumn) -> usize {
        // column counts UTF-8 characters
        let ls = self.line_starts[lc.line - 1];
        let rest = &self.text[ls..];
        let mut it = rest.char_indices();
        for _ in 0..lc.column {
            it.next();
        }
        it.next().map(|(i, _)| ls + i).unwrap_or(self.text.len())
    }
    fn sp(&self, s: Span) -> Value {
        json!([self.off(s.start()), self.off(s.end())])
    }
}

struct Body<'a> {
    s: &'a Src,
    loops: Vec<Value>,
    closures: Vec<Value>,
    macros: Vec<Value>,
    methods: Vec<Value>,
    calls: Vec<Value>,
    tries: Vec<Value>,
    returns: Vec<Value>,
    attrs: Vec<Value>,
    paths: Vec<Value>,
    inner_fns: Vec<Value>,
    idents: Vec<Value>,
    stmts: Vec<Value>,
    closure_depth: usize,
    fields: Vec<Value>,
    lits: Vec<Value>,
    uses: Vec<Value>,
    breaks: Vec<Value>,
    matches: Vec<Value>,
    ifs: Vec<Value>,
    binds: Vec<Value>,
    index: Vec<Value>,
    refs: Vec<Value>,
    adds: Vec<Value>,
}

fn path_txt(p: &syn::Path) -> String {
    p.segments
        .iter()
        .map(|s| s.ident.to_string())
        .collect::<Vec<_>>()
        .join("::")
}

impl<'a> Body<'a> {
    fn new(s: &'a Src) -> Self {
        Body {
            s,
            loops: vec![],
            closures: vec![],
            macros: vec![],
            methods: vec![],
            calls: vec![],
            tries: vec![],
            returns: vec![],
            attrs: vec![],
            paths: vec![],
            inner_fns: vec![],
            idents: vec![],
            stmts: vec![],
            closure_depth: 0,
            fields: vec![],
            lits: vec![],
            uses: vec![],
            breaks: vec![],
            matches: vec![],
            ifs: vec![],
            binds: vec![],
            index: vec![],
            refs: vec![],
            adds: vec![],
        }
    }
    fn mac(&mut self, m: &syn::Macro, span: Span, stmt: bool, semi: bool) {
        let toks = match &m.delimiter {
            syn::MacroDelimiter::Paren(p) => (p.span.open(), p.span.close()),
            syn::MacroDelimiter::Brace(p) => (p.span.open(), p.span.close()),
            syn::MacroDelimiter::Bracket(p) => (p.span.open(), p.span.close()),
        };
        let inner = json!([self.s.off(toks.0.end()), self.s.off(toks.1.start())]);
        // try to parse the arguments as comma separated expressions
        let mut args = vec![];
        let mut kind = "tokens";
        if let Ok(list) = m.parse_body_with(
            syn::punctuated::Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated,
        ) {
            kind = "exprs";
            for e in list.iter() {
                args.push(self.s.sp(e.span()));
            }
            for e in list.iter() {
                // structure inside macro arguments is reported as well
                let e2 = e.clone();
                self.visit_expr(&e2);
            }
        }
        self.macros.push(json!({"path": path_txt(&m.path), "span": self.s.sp(span), "inner": inner,
            "stmt": stmt, "semi": semi, "args": args, "argkind": kind}));
    }
    fn json(self) -> Value {
        json!({"loops": self.loops, "closures": self.closures, "macros": self.macros, "methods": self.methods,
          "calls": self.calls, "tries": self.tries, "returns": self.returns, "attrs": self.attrs, "paths": self.paths,
          "inner_fns": self.inner_fns, "idents": self.idents, "stmts": self.stmts, "fields": self.fields, "lits": self.lits, "uses": self.uses,
          "breaks": self.breaks, "matches": self.matches, "ifs": self.ifs, "binds": self.binds, "index": self.index, "refs": self.refs, "adds": self.adds})
    }
}

impl<'a, 'ast> Visit<'ast> for Body<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        self.attrs.push(self.s.sp(a.span()));
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        for a in &f.attrs {
            self.visit_attribute(a);
        }
        let v = func(self.s, &f.sig, Some(&f.block), f.span(), &f.attrs, "fn");
        self.inner_fns.push(v);
    }
    fn visit_item_use(&mut self, u: &'ast syn::ItemUse) {
        self.uses.push(json!({"span": self.s.sp(u.span())}));
    }
    fn visit_stmt(&mut self, st: &'ast syn::Stmt) {
        let kind = match st {
            syn::Stmt::Local(_) => "local",
            syn::Stmt::Item(_) => "item",
            syn::Stmt::Expr(_, Some(_)) => "expr;",
            syn::Stmt::Expr(_, None) => "expr",
            syn::Stmt::Macro(_) => "macro",
        };
        let mut v = json!({"kind": kind, "span": self.s.sp(st.span())});
        if let syn::Stmt::Local(l) = st {
            v["pat"] = self.s.sp(l.pat.span());
            if let Some(i) = &l.init {
                v["init"] = self.s.sp(i.expr.span());
            }
            if let syn::Pat::Ident(pi) = &l.pat {
                v["name"] = json!(pi.ident.to_string());
                v["mut"] = json!(pi.mutability.is_some());
                v["typed"] = json!(false);
            }
            if let syn::Pat::Type(pt) = &l.pat {
                if let syn::Pat::Ident(pi) = &*pt.pat {
                    v["name"] = json!(pi.ident.to_string());
                    v["mut"] = json!(pi.mutability.is_some());
                    v["typed"] = json!(true);
                    v["ty"] = self.s.sp(pt.ty.span());
                }
            }
        }
        self.stmts.push(v);
        if let syn::Stmt::Macro(m) = st {
            for a in &m.attrs {
                self.visit_attribute(a);
            }
            self.mac(&m.mac, st.span(), true, m.semi_token.is_some());
            return;
        }
        visit::visit_stmt(self, st);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) {
        for a in &m.attrs {
            self.visit_attribute(a);
        }
        self.mac(&m.mac, m.span(), false, false);
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let i = self.loops.len();
        self.loops.push(json!({"kind":"loop","span": self.s.sp(l.span()), "open": self.s.off(l.body.brace_token.span.open().start()), "close": self.s.off(l.body.brace_token.span.close().start()), "label": l.label.as_ref().map(|x| x.name.ident.to_string()), "in_closure": self.closure_depth}));
        visit::visit_expr_loop(self, l);
        let _ = i;
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let is_let = matches!(&*l.cond, syn::Expr::Let(_));
        self.loops.push(json!({"kind":"while","span": self.s.sp(l.span()), "cond": self.s.sp(l.cond.span()), "is_let": is_let, "open": self.s.off(l.body.brace_token.span.open().start()), "close": self.s.off(l.body.brace_token.span.close().start()), "label": l.label.as_ref().map(|x| x.name.ident.to_string()), "in_closure": self.closure_depth}));
        visit::visit_expr_while(self, l);
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        // Statements `if c { ..; continue; }` of the loop body.
        let mut skips: Vec<Value> = vec![];
        let n = l.body.stmts.len();
        for (k, st) in l.body.stmts.iter().enumerate() {
            if let syn::Stmt::Expr(syn::Expr::If(i), _) = st {
                if i.else_branch.is_none() && k + 1 < n {
                    if let Some(syn::Stmt::Expr(syn::Expr::Continue(c), _)) = i.then_branch.stmts.last() {
                        if c.label.is_none() {
                            let last = i.then_branch.stmts.last().unwrap();
                            skips.push(json!({"cont": self.s.sp(last.span()), "end": self.s.sp(st.span())}));
                        }
                    }
                }
            }
        }
        self.loops.push(json!({"kind":"for","skips": skips,"span": self.s.sp(l.span()), "pat": self.s.sp(l.pat.span()), "expr": self.s.sp(l.expr.span()), "open": self.s.off(l.body.brace_token.span.open().start()), "close": self.s.off(l.body.brace_token.span.close().start()), "label": l.label.as_ref().map(|x| x.name.ident.to_string()), "in_closure": self.closure_depth}));
        visit::visit_expr_for_loop(self, l);
    }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) {
        let params: Vec<Value> = c.inputs.iter().map(|p| self.s.sp(p.span())).collect();
        let out = match &c.output {
            syn::ReturnType::Default => Value::Null,
            syn::ReturnType::Type(_, t) => self.s.sp(t.span()),
        };
        self.closures.push(json!({"span": self.s.sp(c.span()), "params": params, "or1": self.s.off(c.or1_token.span.start()), "or2": self.s.off(c.or2_token.span.end()), "out": out, "body": self.s.sp(c.body.span()), "block": matches!(&*c.body, syn::Expr::Block(_)), "move": c.capture.is_some()}));
        self.closure_depth += 1;
        visit::visit_expr_closure(self, c);
        self.closure_depth -= 1;
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let args: Vec<Value> = m.args.iter().map(|p| self.s.sp(p.span())).collect();
        let tf = m
            .turbofish
            .as_ref()
            .map(|t| self.s.sp(t.span()))
            .unwrap_or(Value::Null);
        self.methods.push(json!({"name": m.method.to_string(), "name_span": self.s.sp(m.method.span()), "dot": self.s.off(m.dot_token.span().start()), "span": self.s.sp(m.span()), "recv": self.s.sp(m.receiver.span()), "args": args, "turbofish": tf, "close": self.s.off(m.paren_token.span.close().start()), "open": self.s.off(m.paren_token.span.open().end())}));
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        let args: Vec<Value> = c.args.iter().map(|p| self.s.sp(p.span())).collect();
        let name = match &*c.func {
            syn::Expr::Path(p) => path_txt(&p.path),
            _ => String::new(),
        };
        self.calls.push(json!({"func": name, "func_span": self.s.sp(c.func.span()), "span": self.s.sp(c.span()), "args": args, "open": self.s.off(c.paren_token.span.open().end()), "close": self.s.off(c.paren_token.span.close().start())}));
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_try(&mut self, t: &'ast syn::ExprTry) {
        self.tries.push(json!({"span": self.s.sp(t.span()), "inner": self.s.sp(t.expr.span()), "in_closure": self.closure_depth}));
        visit::visit_expr_try(self, t);
    }
    fn visit_expr_return(&mut self, t: &'ast syn::ExprReturn) {
        self.returns.push(json!({"span": self.s.sp(t.span()), "expr": t.expr.as_ref().map(|e| self.s.sp(e.span())), "in_closure": self.closure_depth}));
        visit::visit_expr_return(self, t);
    }
    fn visit_expr_break(&mut self, t: &'ast syn::ExprBreak) {
        self.breaks.push(json!({"span": self.s.sp(t.span()), "in_closure": self.closure_depth}));
        visit::visit_expr_break(self, t);
    }
    fn visit_expr_field(&mut self, t: &'ast syn::ExprField) {
        let nm = match &t.member {
            syn::Member::Named(i) => i.to_string(),
            syn::Member::Unnamed(i) => i.index.to_string(),
        };
        self.fields.push(json!({"span": self.s.sp(t.span()), "base": self.s.sp(t.base.span()), "member": nm}));
        visit::visit_expr_field(self, t);
    }
    fn visit_expr_index(&mut self, t: &'ast syn::ExprIndex) {
        self.index.push(json!({"span": self.s.sp(t.span()), "base": self.s.sp(t.expr.span()), "idx": self.s.sp(t.index.span())}));
        visit::visit_expr_index(self, t);
    }
    fn visit_expr_binary(&mut self, t: &'ast syn::ExprBinary) {
        if let syn::BinOp::AddAssign(o) = &t.op {
            self.adds.push(json!({"left": self.s.sp(t.left.span()), "op": self.s.sp(o.span()), "right": self.s.sp(t.right.span()), "ref": matches!(&*t.right, syn::Expr::Reference(_))}));
        }
        visit::visit_expr_binary(self, t);
    }
    fn visit_expr_reference(&mut self, t: &'ast syn::ExprReference) {
        self.refs.push(json!({"span": self.s.sp(t.span()), "mut": t.mutability.is_some(), "expr": self.s.sp(t.expr.span())}));
        visit::visit_expr_reference(self, t);
    }
    fn visit_expr_if(&mut self, t: &'ast syn::ExprIf) {
        self.ifs.push(json!({"span": self.s.sp(t.span()), "cond": self.s.sp(t.cond.span())}));
        visit::visit_expr_if(self, t);
    }
    fn visit_expr_match(&mut self, t: &'ast syn::ExprMatch) {
        let arms: Vec<Value> = t.arms.iter().map(|a| json!({"span": self.s.sp(a.span()), "pat": self.s.sp(a.pat.span()), "body": self.s.sp(a.body.span()), "guard": a.guard.as_ref().map(|g| self.s.sp(g.1.span()))})).collect();
        self.matches.push(json!({"span": self.s.sp(t.span()), "expr": self.s.sp(t.expr.span()), "arms": arms}));
        visit::visit_expr_match(self, t);
    }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        self.paths.push(json!({"txt": path_txt(p), "span": self.s.sp(p.span())}));
        visit::visit_path(self, p);
    }
    fn visit_pat_ident(&mut self, p: &'ast syn::PatIdent) {
        self.binds.push(json!({"name": p.ident.to_string(), "span": self.s.sp(p.ident.span())}));
        visit::visit_pat_ident(self, p);
    }
    fn visit_ident(&mut self, i: &'ast proc_macro2::Ident) {
        self.idents.push(json!({"name": i.to_string(), "span": self.s.sp(i.span())}));
    }
    fn visit_lit(&mut self, l: &'ast syn::Lit) {
        let (k, v) = match l {
            syn::Lit::Str(s) => ("str", s.value()),
            syn::Lit::ByteStr(s) => ("bytestr", String::from_utf8_lossy(&s.value()).to_string()),
            syn::Lit::Char(c) => ("char", c.value().to_string()),
            syn::Lit::Int(i) => ("int", i.base10_digits().to_string()),
            _ => ("other", String::new()),
        };
        self.lits.push(json!({"kind": k, "value": v, "span": self.s.sp(l.span())}));
    }
}

fn func(s: &Src, sig: &syn::Signature, block: Option<&syn::Block>, span: Span, attrs: &[syn::Attribute], kind: &str) -> Value {
    let ret = match &sig.output {
        syn::ReturnType::Default => Value::Null,
        syn::ReturnType::Type(_, t) => s.sp(t.span()),
    };
    let mut params = vec![];
    for a in &sig.inputs {
        match a {
            syn::FnArg::Receiver(r) => params.push(json!({"self": true, "span": s.sp(r.span()), "ref": r.reference.is_some(), "mut": r.mutability.is_some()})),
            syn::FnArg::Typed(t) => params.push(json!({"self": false, "span": s.sp(t.span()), "pat": s.sp(t.pat.span()), "ty": s.sp(t.ty.span()),
               "name": if let syn::Pat::Ident(pi) = &*t.pat { json!(pi.ident.to_string()) } else { Value::Null },
               "mut": if let syn::Pat::Ident(pi) = &*t.pat { json!(pi.mutability.is_some()) } else { json!(false) } })),
        }
    }
    let mut v = json!({"kind": kind, "name": sig.ident.to_string(), "name_span": s.sp(sig.ident.span()), "span": s.sp(span), "ret": ret, "params": params,
        "paren_close": s.off(sig.paren_token.span.close().end()), "paren_open": s.off(sig.paren_token.span.open().end()),
        "fn_tok": s.off(sig.fn_token.span.start()),
        "constness": sig.constness.is_some(),
        "generics": if sig.generics.params.is_empty() { Value::Null } else { s.sp(sig.generics.span()) },
        "where": sig.generics.where_clause.as_ref().map(|w| s.sp(w.span())),
        "attrs": attrs.iter().map(|a| json!({"span": s.sp(a.span()), "path": path_txt(a.path())})).collect::<Vec<_>>() });
    if let Some(b) = block {
        let mut bv = Body::new(s);
        bv.visit_block(b);
        v["block"] = s.sp(b.span());
        v["body"] = bv.json();
        v["nstmts"] = json!(b.stmts.len());
        v["top_stmts"] = json!(b.stmts.iter().map(|x| json!({"span": s.sp(x.span()), "tail": matches!(x, syn::Stmt::Expr(_, None))})).collect::<Vec<_>>());
    }
    // identifiers in the signature
    let mut bv = Body::new(s);
    bv.visit_signature(sig);
    v["sig_paths"] = json!(bv.paths);
    v["sig_idents"] = json!(bv.idents);
    v
}

fn attrs_json(s: &Src, attrs: &[syn::Attribute]) -> Vec<Value> {
    attrs
        .iter()
        .map(|a| {
            let sp = s.sp(a.span());
            json!({"span": sp, "path": path_txt(a.path())})
        })
        .collect()
}

fn fields_json(s: &Src, f: &syn::Fields) -> Vec<Value> {
    f.iter()
        .enumerate()
        .map(|(i, f)| json!({"name": f.ident.as_ref().map(|x| x.to_string()).unwrap_or(i.to_string()), "ty": s.sp(f.ty.span()), "vis": s.sp(f.vis.span()), "span": s.sp(f.span()), "attrs": attrs_json(s, &f.attrs)}))
        .collect()
}

fn item(s: &Src, it: &syn::Item, out: &mut Vec<Value>, modp: &str) {
    match it {
        syn::Item::Fn(f) => {
            let mut v = func(s, &f.sig, Some(&f.block), f.span(), &f.attrs, "fn");
            v["mod"] = json!(modp);
            v["vis"] = s.sp(f.vis.span());
            out.push(v);
        }
        syn::Item::Struct(x) => out.push(json!({"kind":"struct","name":x.ident.to_string(),"span":s.sp(x.span()),"attrs":attrs_json(s,&x.attrs),"fields":fields_json(s,&x.fields),"mod":modp})),
        syn::Item::Enum(x) => out.push(json!({"kind":"enum","name":x.ident.to_string(),"span":s.sp(x.span()),"attrs":attrs_json(s,&x.attrs),"mod":modp,
            "variants": x.variants.iter().map(|v| json!({"name": v.ident.to_string(), "span": s.sp(v.span()), "attrs": attrs_json(s,&v.attrs), "fields": fields_json(s,&v.fields)})).collect::<Vec<_>>() })),
        syn::Item::Const(x) => out.push(json!({"kind":"const","name":x.ident.to_string(),"span":s.sp(x.span()),"attrs":attrs_json(s,&x.attrs),"ty":s.sp(x.ty.span()),"expr":s.sp(x.expr.span()),"mod":modp})),
        syn::Item::Static(x) => out.push(json!({"kind":"static","name":x.ident.to_string(),"span":s.sp(x.span()),"attrs":attrs_json(s,&x.attrs),"ty":s.sp(x.ty.span()),"expr":s.sp(x.expr.span()),"mod":modp})),
        syn::Item::Type(x) => out.push(json!({"kind":"type","name":x.ident.to_string(),"span":s.sp(x.span()),"attrs":attrs_json(s,&x.attrs),"mod":modp})),
        syn::Item::Use(x) => out.push(json!({"kind":"use","name":"","span":s.sp(x.span()),"attrs":attrs_json(s,&x.attrs),"mod":modp})),
        syn::Item::Mod(x) => {
            let is_test = x.attrs.iter().any(|a| a.path().is_ident("cfg"));
            let m = if modp.is_empty() { x.ident.to_string() } else { format!("{}::{}", modp, x.ident) };
            out.push(json!({"kind":"mod","name":x.ident.to_string(),"span":s.sp(x.span()),"attrs":attrs_json(s,&x.attrs),"inline":x.content.is_some(),"cfg":is_test,"mod":modp}));
            if !is_test {
                if let Some((_, items)) = &x.content {
                    for i in items {
                        item(s, i, out, &m);
                    }
                }
            }
        }
        syn::Item::Impl(x) => {
            let ty = s.sp(x.self_ty.span());
            let tr = x.trait_.as_ref().map(|t| s.sp(t.1.span()));
            let mut fns = vec![];
            for i in &x.items {
                if let syn::ImplItem::Fn(f) = i {
                    let mut v = func(s, &f.sig, Some(&f.block), f.span(), &f.attrs, "method");
                    v["vis"] = s.sp(f.vis.span());
                    fns.push(v);
                } else if let syn::ImplItem::Type(t) = i {
                    fns.push(json!({"kind":"assoc_type","name":t.ident.to_string(),"span":s.sp(t.span()),"ty":s.sp(t.ty.span())}));
                } else if let syn::ImplItem::Const(t) = i {
                    fns.push(json!({"kind":"assoc_const","name":t.ident.to_string(),"span":s.sp(t.span())}));
                }
            }
            out.push(json!({"kind":"impl","name":"","ty":ty,"trait":tr,"span":s.sp(x.span()),"open":s.off(x.brace_token.span.open().end()),"attrs":attrs_json(s,&x.attrs),"generics": if x.generics.params.is_empty() { Value::Null } else { s.sp(x.generics.span()) },"fns":fns,"mod":modp}));
        }
        syn::Item::Trait(x) => {
            let mut fns = vec![];
            for i in &x.items {
                if let syn::TraitItem::Fn(f) = i {
                    fns.push(func(s, &f.sig, f.default.as_ref(), f.span(), &f.attrs, "method"));
                }
            }
            out.push(json!({"kind":"trait","name":x.ident.to_string(),"span":s.sp(x.span()),"open":s.off(x.brace_token.span.open().end()),"attrs":attrs_json(s,&x.attrs),"fns":fns,"mod":modp}));
        }
        syn::Item::Macro(x) => out.push(json!({"kind":"macro","name":path_txt(&x.mac.path),"span":s.sp(x.span()),"mod":modp})),
        other => out.push(json!({"kind":"other","name":"","span":s.sp(other.span()),"mod":modp})),
    }
}

fn main() {
    let mut res = serde_json::Map::new();
    for p in std::env::args().skip(1) {
        let text = std::fs::read_to_string(&p).expect("read");
        let mut line_starts = vec![0];
        for (i, c) in text.bytes().enumerate() {
            if c == b'\n' {
                line_starts.push(i + 1);
            }
        }
        let s = Src { text: text.clone(), line_starts };
        match syn::parse_file(&text) {
            Ok(f) => {
                let mut out = vec![];
                for it in &f.items {
                    item(&s, it, &mut out, "");
                }
                res.insert(p, json!({"items": out}));
            }
            Err(e) => {
                res.insert(p, json!({"error": e.to_string()}));
            }
        }
    }
    println!("{}", Value::Object(res));
}
