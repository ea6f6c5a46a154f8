//! extract FILE [ITEM...]: prints items of a Rust source file as token text, after the syntactic
//! rewrites listed in DESIGN.md ("Extraction"). ITEM is `name`, `Type::name` (inherent impl) or
//! `Trait@Type::name` (trait impl), `struct:Name`, `const:NAME`, `enum:Name`. Fields and consts are printed as they are.
//! Nothing here knows about any particular function: what cannot be rewritten is printed unchanged and the verifier rejects it.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{format_ident, quote, ToTokens};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Default)]
struct Rw {
    loops: usize,
    shapes: Vec<&'static str>,
    sql: Vec<(String, String, usize)>, // text, how (execute|fetch_one|fetch_optional|pending), binds
    fmt: Vec<(String, usize)>,
    dropped: Vec<String>,
}

fn path_str(p: &Path) -> String {
    p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::")
}

impl Rw {
    /// sqlx::query(LIT).bind(a)...execute(db)
    fn sql_chain(&mut self, e: &Expr, awaited: bool) -> Option<Expr> {
        let Expr::MethodCall(m) = e else { return None };
        let how = m.method.to_string();
        if !["execute", "fetch_one", "fetch_optional", "fetch_all"].contains(&how.as_str()) || m.args.len() != 1 {
            return None;
        }
        let db = m.args[0].clone();
        let mut binds = vec![];
        let mut cur = &*m.receiver;
        let (text, _as) = loop {
            match cur {
                Expr::MethodCall(b) if b.method == "bind" && b.args.len() == 1 => {
                    binds.push(b.args[0].clone());
                    cur = &b.receiver;
                }
                Expr::Call(c) => {
                    let Expr::Path(p) = &*c.func else { return None };
                    let n = path_str(&p.path);
                    if n != "sqlx::query" && n != "sqlx::query_as" {
                        return None;
                    }
                    match &c.args[0] {
                        Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => break (s.value(), n),
                        Expr::Path(p) => break (format!("@{}", path_str(&p.path)), n),
                        _ => return None,
                    }
                }
                _ => return None,
            }
        };
        binds.reverse();
        let k = self.sql.len();
        let how = if awaited { how } else { "pending".into() };
        self.sql.push((text, how, binds.len()));
        let f = format_ident!("__sql_{}", k);
        // Databases are changed through a unique reference in the extracted text.
        let db: Expr = match &db {
            Expr::Reference(r) => (*r.expr).clone(),
            o => o.clone(),
        };
        for b in binds.iter_mut() {
            self.visit_expr_mut(b);
        }
        Some(parse_quote!(#f(__db!(#db), #(#binds),*)))
    }
}

fn is_log(p: &str) -> bool {
    let l = p.rsplit("::").next().unwrap();
    (p.starts_with("tracing::") || p.starts_with("log::") || p.starts_with("std::") || !p.contains("::"))
        && ["trace", "debug", "info", "warn", "error", "println", "eprintln", "dbg", "print"].contains(&l)
        || l.starts_with("debug_assert")
}

fn macro_args(m: &Macro) -> Option<Vec<Expr>> {
    m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok().map(|p| p.into_iter().collect())
}

/// `|p| e` applied to the payload of an Option.
fn closure1(e: &Expr) -> Option<(Pat, Expr)> {
    if let Expr::Closure(c) = e {
        if c.inputs.len() == 1 {
            let p = match &c.inputs[0] {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            };
            return Some((p, (*c.body).clone()));
        }
    }
    None
}

struct Deref<'a>(&'a Ident, Expr);
impl<'a> VisitMut for Deref<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Unary(ExprUnary { op: UnOp::Deref(_), expr, .. }) = e {
            if let Expr::Path(p) = &**expr {
                if p.path.is_ident(self.0) {
                    *e = self.1.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

struct RefPats(Vec<Ident>);
impl VisitMut for RefPats {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if let Pat::Ident(i) = &*r.pat {
                self.0.push(i.ident.clone());
                let i = (*r.pat).clone();
                *p = i;
                return;
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
}
/// Does the body `continue` this loop?
struct Cont(bool);
impl VisitMut for Cont {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Continue(_) => self.0 = true,
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
/// The statements of a loop body, the last one closed.
fn closed(b: &Block) -> Vec<Stmt> {
    let mut v = b.stmts.clone();
    if let Some(Stmt::Expr(_, semi @ None)) = v.last_mut() {
        *semi = Some(Default::default());
    }
    v
}
fn is_barrier(f: &Expr) -> bool {
    matches!(f, Expr::Path(p) if p.path.segments.last().map_or(false, |s| s.ident == "catch_unwind_or_fail" || s.ident == "catch_unwind"))
}

fn for_shape(e: &Expr) -> &'static str {
    match e {
        Expr::Paren(p) => for_shape(&p.expr),
        Expr::Range(_) => "for range",
        Expr::MethodCall(m) if m.method == "zip" => "for zip",
        Expr::MethodCall(m) if m.method == "iter_mut" => "for iter_mut",
        _ => "for iter",
    }
}

fn continues(b: &Block) -> bool {
    let mut c = Cont(false);
    c.visit_block_mut(&mut b.clone());
    c.0
}

impl VisitMut for Rw {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let old = std::mem::take(&mut b.stmts);
        for mut s in old {
            if let Stmt::Macro(m) = &s {
                let p = path_str(&m.mac.path);
                if is_log(&p) {
                    self.dropped.push(format!("{}!({})", p, m.mac.tokens));
                    continue;
                }
            }
            // what only debug builds run
            if let Stmt::Expr(Expr::If(i), _) = &s {
                if let (Expr::Macro(m), None) = (&*i.cond, &i.else_branch) {
                    if m.mac.path.is_ident("cfg") && m.mac.tokens.to_string() == "debug_assertions" {
                        self.dropped.push(i.to_token_stream().to_string());
                        continue;
                    }
                }
            }
            // a macro statement becomes an expression statement
            if let Stmt::Macro(m) = &s {
                let mac = m.mac.clone();
                s = Stmt::Expr(Expr::Macro(ExprMacro { attrs: vec![], mac }), m.semi_token.or(Some(Default::default())));
            }
            if let Stmt::Item(Item::Use(u)) = &s {
                self.dropped.push(u.to_token_stream().to_string());
                continue;
            }
            self.visit_stmt_mut(&mut s);
            b.stmts.push(s);
        }
    }

    fn visit_local_mut(&mut self, l: &mut Local) {
        l.attrs.clear();
        visit_mut::visit_local_mut(self, l);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // SQL first: the chain must be seen whole.
        if let Expr::Await(a) = e {
            if let Some(n) = self.sql_chain(&a.base, true) {
                *e = n;
            } else {
                let mut b = (*a.base).clone();
                self.visit_expr_mut(&mut b);
                *e = b;
            }
            return;
        }
        if let Some(n) = self.sql_chain(e, false) {
            *e = n;
            return;
        }
        // RT.block_on(E): E, as an await is dropped
        if let Expr::MethodCall(m) = e {
            if m.method == "block_on" && m.args.len() == 1 {
                let mut b = m.args[0].clone();
                self.visit_expr_mut(&mut b);
                *e = b;
                return;
            }
        }
        match e {
            Expr::Macro(m) => {
                let p = path_str(&m.mac.path);
                let l = p.rsplit("::").next().unwrap().to_string();
                let args = macro_args(&m.mac);
                let new: Option<Expr> = match (l.as_str(), args) {
                    ("assert", Some(a)) => {
                        let c = &a[0];
                        Some(parse_quote!(rt_assert(#c)))
                    }
                    ("assert_eq", Some(a)) => {
                        let (x, y) = (&a[0], &a[1]);
                        Some(parse_quote!(rt_assert(#x == #y)))
                    }
                    ("assert_ne", Some(a)) => {
                        let (x, y) = (&a[0], &a[1]);
                        Some(parse_quote!(rt_assert(#x != #y)))
                    }
                    ("panic" | "unreachable" | "todo" | "unimplemented", _) => Some(parse_quote!(rt_panic())),
                    ("vec", Some(a)) => {
                        if a.is_empty() {
                            Some(parse_quote!(Vec::new()))
                        } else {
                            Some(parse_quote!(vec_of([#(#a),*])))
                        }
                    }
                    ("vec", None) => {
                        // vec![x; n]
                        let ts = m.mac.tokens.to_string();
                        match parse_str::<ExprRepeat>(&format!("[{}]", ts)) {
                            Ok(r) => {
                                let (x, n) = (&r.expr, &r.len);
                                Some(parse_quote!(vec_repeat(#x, #n)))
                            }
                            _ => None,
                        }
                    }
                    ("format", Some(a)) => {
                        let text = match &a[0] {
                            Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => s.value(),
                            _ => String::from("?"),
                        };
                        let k = self.fmt.len();
                        self.fmt.push((text, a.len() - 1));
                        let f = format_ident!("__fmt_{}", k);
                        let rest = &a[1..];
                        Some(parse_quote!(#f(#(&(#rest)),*)))
                    }
                    ("matches", _) => {
                        struct M(Expr, Pat, Option<Expr>);
                        impl parse::Parse for M {
                            fn parse(i: parse::ParseStream) -> Result<M> {
                                let e = i.parse()?;
                                i.parse::<Token![,]>()?;
                                let p = Pat::parse_multi_with_leading_vert(i)?;
                                let g = if i.peek(Token![if]) {
                                    i.parse::<Token![if]>()?;
                                    Some(i.parse()?)
                                } else {
                                    None
                                };
                                let _ = i.parse::<Option<Token![,]>>()?;
                                Ok(M(e, p, g))
                            }
                        }
                        match m.mac.parse_body::<M>() {
                            Ok(M(x, p, None)) => Some(parse_quote!(match #x { #p => true, _ => false })),
                            Ok(M(x, p, Some(g))) => Some(parse_quote!(match #x { #p if #g => true, _ => false })),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(n) = new {
                    *e = n;
                    visit_mut::visit_expr_mut(self, e);
                }
                return;
            }
            Expr::Call(c) if c.args.len() == 1 && is_barrier(&c.func) && matches!(&c.args[0], Expr::Closure(k) if k.inputs.is_empty()) => {
                // what runs behind a panic barrier: whatever it does, it ends in a value or in a caught panic
                c.args[0] = parse_quote!(guarded());
                self.dropped.push("the closure run behind catch_unwind (it may do anything, panicking included)".to_string());
                return;
            }
            Expr::ForLoop(f) => {
                let k = self.loops;
                self.loops += 1;
                self.shapes.push(for_shape(&f.expr));
                let lab = f.label.clone();
                // for (a, b) in X.iter_mut().zip(Y)
                if let Expr::MethodCall(z) = &*f.expr {
                    if z.method == "zip" && z.args.len() == 1 {
                        if let (Expr::MethodCall(im), Pat::Tuple(pt)) = (&*z.receiver, &*f.pat) {
                            if im.method == "iter_mut" && pt.elems.len() == 2 && !continues(&f.body) {
                                if let Pat::Ident(a) = &pt.elems[0] {
                                    let (x, mut y) = ((*im.receiver).clone(), z.args[0].clone());
                                    let mut by_ref = false;
                                    if let Expr::MethodCall(yi) = &y {
                                        if yi.method == "iter" {
                                            by_ref = true;
                                            y = (*yi.receiver).clone();
                                        }
                                    } else if let Expr::Reference(r) = &y {
                                        by_ref = true;
                                        y = (*r.expr).clone();
                                    }
                                    let pb = &pt.elems[1];
                                    let i = format_ident!("__i{}", k);
                                    let mut body = f.body.clone();
                                    Deref(&a.ident, parse_quote!(#x[#i])).visit_block_mut(&mut body);
                                    self.visit_block_mut(&mut body);
                                    let el: Expr = if by_ref { parse_quote!(&#y[#i]) } else { parse_quote!(#y[#i]) };
                                    let k = Index::from(k);
                                    let body = closed(&body);
                                    *e = parse_quote!({
                                        let mut #i: usize = 0;
                                        __before!(#k);
                                        while #i < #x.len() && #i < #y.len() { __inv!(#k); __top!(#k); let #pb = #el; #(#body)* __bot!(#k); #i = #i + 1; }
                                        __after!(#k);
                                    });
                                    return;
                                }
                            }
                        }
                    }
                }
                // for a in X.iter_mut()
                if let (Expr::MethodCall(im), Pat::Ident(a)) = (&*f.expr, &*f.pat) {
                    if im.method == "iter_mut" && im.args.is_empty() && !continues(&f.body) {
                        let x = (*im.receiver).clone();
                        let i = format_ident!("__i{}", k);
                        let mut body = f.body.clone();
                        Deref(&a.ident, parse_quote!(#x[#i])).visit_block_mut(&mut body);
                        self.visit_block_mut(&mut body);
                        let k = Index::from(k);
                        let body = closed(&body);
                        *e = parse_quote!({
                            let mut #i: usize = 0;
                            __before!(#k);
                            while #i < #x.len() { __inv!(#k); __top!(#k); #(#body)* __bot!(#k); #i = #i + 1; }
                            __after!(#k);
                        });
                        return;
                    }
                }
                let it = format_ident!("__it{}", k);
                let i = format_ident!("__i{}", k);
                let end = format_ident!("__end{}", k);
                // for (i, p) in X.enumerate()
                let mut counted: Option<Pat> = None;
                if let (Expr::MethodCall(m), Pat::Tuple(pt)) = (&*f.expr, &*f.pat) {
                    if m.method == "enumerate" && m.args.is_empty() && pt.elems.len() == 2 {
                        let (n, p, x) = (pt.elems[0].clone(), pt.elems[1].clone(), m.receiver.clone());
                        counted = Some(n);
                        f.pat = Box::new(p);
                        f.expr = x;
                    }
                }
                if let Expr::MethodCall(m) = &*f.expr {
                    if m.method == "into_iter" && m.args.is_empty() {
                        let x = m.receiver.clone();
                        f.expr = x;
                    }
                }
                let mut next = format_ident!("model_iter");
                match &*f.expr {
                    Expr::MethodCall(m) if m.method == "iter" && m.args.is_empty() => {
                        let x = m.receiver.clone();
                        f.expr = x;
                        next = format_ident!("model_iter_ref");
                    }
                    Expr::Reference(r) if r.mutability.is_none() => {
                        let x = r.expr.clone();
                        f.expr = x;
                        next = format_ident!("model_iter_ref");
                    }
                    _ => {}
                }
                self.visit_expr_mut(&mut f.expr);
                let mut body = f.body.clone();
                self.visit_block_mut(&mut body);
                let (pat, ex) = (&f.pat, &f.expr);
                let k = Index::from(k);
                let ix = format_ident!("__ix{}", k);
                // `&x` in the pattern: bind the reference, then read through it
                let mut refs = RefPats(vec![]);
                let mut plain = (*pat).clone();
                refs.visit_pat_mut(&mut plain);
                let pat = &plain;
                let derefs: Vec<Stmt> = refs.0.iter().map(|x| parse_quote!(let #x = *#x;)).collect();
                let (take_ix, bind_ix): (Vec<Stmt>, Vec<Stmt>) = match &counted {
                    Some(n) => (vec![parse_quote!(let #ix = #it.index();)], vec![parse_quote!(let #n = #ix;)]),
                    None => (vec![], vec![]),
                };
                if let (Expr::Range(r), None) = (unparen(ex), &counted) {
                    if let (Some(lo), Some(hi)) = (&r.start, &r.end) {
                        // body may `continue`: advance first
                        if continues(&body) {
                            *e = parse_quote!(__unsupported!());
                            return;
                        }
                        let body = closed(&body);
                        let cmp: Expr = match r.limits {
                            RangeLimits::HalfOpen(_) => parse_quote!(#i < #end),
                            RangeLimits::Closed(_) => parse_quote!(#i <= #end),
                        };
                        let fin: Vec<Stmt> = match r.limits {
                            RangeLimits::HalfOpen(_) => vec![parse_quote!(#i = #i + 1;)],
                            RangeLimits::Closed(_) => vec![parse_quote!(if #i == #end { break; }), parse_quote!(#i = #i + 1;)],
                        };
                        *e = parse_quote!({
                            let mut #i = #lo;
                            let #end = #hi;
                            __before!(#k);
                            #lab while #cmp { __inv!(#k); __top!(#k); let #pat = #i; #(#body)* __bot!(#k); #(#fin)* }
                            __after!(#k);
                        });
                        return;
                    }
                }
                let body = closed(&body);
                // the vector iterated by reference may be a temporary
                let src = format_ident!("__src{}", k);
                let (hold, ex): (Vec<Stmt>, Expr) = match (&**ex, next == "model_iter_ref") {
                    (Expr::MethodCall(_), true) => (vec![parse_quote!(let #src = #ex;)], parse_quote!(#src)),
                    _ => (vec![], (**ex).clone()),
                };
                *e = parse_quote!({
                    #(#hold)*
                    let mut #it = (#ex).#next();
                    __before!(#k);
                    #lab loop { __inv!(#k); __top!(#k); #(#take_ix)* match #it.next() { Some(#pat) => { #(#bind_ix)* #(#derefs)* #(#body)* __bot!(#k); } None => { break; } } }
                    __after!(#k);
                });
                return;
            }
            Expr::While(w) => {
                let k = self.loops;
                self.loops += 1;
                self.shapes.push(if let Expr::Let(_) = &*w.cond { "while let" } else { "while" });
                let lab = w.label.clone();
                let mut body = w.body.clone();
                self.visit_block_mut(&mut body);
                let ki = Index::from(k);
                if let Expr::Let(l) = &mut *w.cond {
                    self.visit_expr_mut(&mut l.expr);
                    let (p, x) = (&l.pat, &l.expr);
                    let body = closed(&body);
                    *e = parse_quote!({ __before!(#ki); #lab loop { __inv!(#ki); __top!(#ki); match #x { #p => { #(#body)* __bot!(#ki); } _ => { break; } } } __after!(#ki); });
                } else {
                    self.visit_expr_mut(&mut w.cond);
                    let c = &w.cond;
                    let stmts = closed(&body);
                    *e = parse_quote!({ __before!(#ki); #lab while #c { __inv!(#ki); __top!(#ki); #(#stmts)* __bot!(#ki); } __after!(#ki); });
                }
                return;
            }
            Expr::Loop(l) => {
                let k = Index::from(self.loops);
                self.loops += 1;
                self.shapes.push("loop");
                self.visit_block_mut(&mut l.body);
                let stmts = &l.body.stmts;
                let b: Block = parse_quote!({ __inv!(#k); __top!(#k); #(#stmts)* });
                l.body = b;
                return;
            }
            _ => {}
        }
        if let Expr::Index(ix) = e {
            if let Expr::Range(r) = &mut *ix.index {
                self.visit_expr_mut(&mut ix.expr);
                if let Some(a) = &mut r.start {
                    self.visit_expr_mut(a);
                }
                if let Some(b) = &mut r.end {
                    self.visit_expr_mut(b);
                }
                return;
            }
        }
        // X.iter().any(|p| c), X.iter().all(|p| c): a loop
        if let Expr::MethodCall(m) = e {
            if (m.method == "any" || m.method == "all") && m.args.len() == 1 {
                if let (Expr::MethodCall(it), Some((p, c))) = (&*m.receiver, closure1(&m.args[0])) {
                    if it.method == "iter" || it.method == "into_iter" {
                        let v = format_ident!("__found{}", self.loops);
                        let x = &m.receiver;
                        let mut f: Expr = if m.method == "any" {
                            parse_quote!(for #p in #x { if #c { #v = true; } })
                        } else {
                            parse_quote!(for #p in #x { if !(#c) { #v = false; } })
                        };
                        self.visit_expr_mut(&mut f);
                        let init: Expr = if m.method == "any" { parse_quote!(false) } else { parse_quote!(true) };
                        *e = parse_quote!({ let mut #v = #init; #f #v });
                        return;
                    }
                }
            }
        }
        // X.iter().filter(|p| c).cloned().collect(), V.retain(|p| c), X.fold(a0, |a, p| e): loops
        if let Expr::MethodCall(m) = e {
            if m.method == "collect" && m.args.is_empty() {
                if let Expr::MethodCall(cl) = &*m.receiver {
                    if (cl.method == "cloned" || cl.method == "copied") && cl.args.is_empty() {
                        if let Expr::MethodCall(fi) = &*cl.receiver {
                            if fi.method == "filter" && fi.args.len() == 1 {
                                if let (Expr::MethodCall(it), Some((p, c))) = (&*fi.receiver, closure1(&fi.args[0])) {
                                    if it.method == "iter" {
                                        let v = format_ident!("__kept{}", self.loops);
                                        let x = &fi.receiver;
                                        let mut f: Expr = parse_quote!(for #p in #x { if #c { #v.push(#p.clone()); } });
                                        self.visit_expr_mut(&mut f);
                                        *e = parse_quote!({ let mut #v = Vec::new(); #f #v });
                                        return;
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if m.method == "retain" && m.args.len() == 1 {
                if let Some((p, c)) = closure1(&m.args[0]) {
                    let v = format_ident!("__kept{}", self.loops);
                    let x = m.receiver.clone();
                    let mut f: Expr = parse_quote!(for #p in #x.iter() { if #c { #v.push(#p.clone()); } });
                    self.visit_expr_mut(&mut f);
                    *e = parse_quote!({ let mut #v = Vec::new(); #f #x = #v; });
                    return;
                }
            }
            if m.method == "for_each" && m.args.len() == 1 {
                if let Some((p, c)) = closure1(&m.args[0]) {
                    let mut l = Leaves(false);
                    l.visit_expr_mut(&mut c.clone());
                    if !l.0 {
                        let x = &m.receiver;
                        let mut f: Expr = parse_quote!(for #p in #x { #c; });
                        self.visit_expr_mut(&mut f);
                        *e = f;
                        return;
                    }
                }
            }
            if m.method == "fold" && m.args.len() == 2 {
                if let Expr::Closure(c) = &m.args[1] {
                    if c.inputs.len() == 2 {
                        let (name, ty) = match &c.inputs[0] { Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())), p => (p.clone(), None) };
                        if let Pat::Ident(_) = &name {
                            let (acc, p, b, x, init) = (&name, &c.inputs[1], &c.body, &m.receiver, &m.args[0]);
                            let mut f: Expr = parse_quote!(for #p in #x { #acc = #b; });
                            let mut init = init.clone();
                            self.visit_expr_mut(&mut init);
                            self.visit_expr_mut(&mut f);
                            *e = match ty { Some(t) => parse_quote!({ let mut #acc: #t = #init; #f #acc }), None => parse_quote!({ let mut #acc = #init; #f #acc }) };
                            return;
                        }
                    }
                }
            }
        }
        // A[R].copy_from_slice(S)
        if let Expr::MethodCall(m) = e {
            if m.method == "copy_from_slice" && m.args.len() == 1 {
                if let Expr::Index(ix) = &*m.receiver {
                    let (mut a, mut s) = ((*ix.expr).clone(), m.args[0].clone());
                    self.visit_expr_mut(&mut a);
                    self.visit_expr_mut(&mut s);
                    let n: Option<Expr> = match unparen(&ix.index) {
                        Expr::Range(r) => {
                            let zero: Expr = parse_quote!(0usize);
                            let lo = r.start.as_ref().map(|x| (**x).clone()).unwrap_or(zero);
                            match (&r.end, &r.limits) {
                                (Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#a.copy_at(#lo, #b, #s))),
                                (Some(b), RangeLimits::Closed(_)) => Some(parse_quote!(#a.copy_at(#lo, (#b) + 1, #s))),
                                (None, _) => Some(parse_quote!(#a.copy_from(#lo, #s))),
                            }
                        }
                        i => Some(parse_quote!(#a.copy_range(#i, #s))),
                    };
                    if let Some(n) = n {
                        *e = n;
                        return;
                    }
                }
            }
        }
        if let Expr::Range(r) = e {
            if let (Some(a), Some(b), RangeLimits::Closed(_)) = (&mut r.start, &mut r.end, &r.limits) {
                self.visit_expr_mut(a);
                self.visit_expr_mut(b);
                *e = parse_quote!(RangeInclusive::new(#a, #b));
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        // option.map(|p| e), option.and_then(|p| e)
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let Some((p, b)) = closure1(&m.args[0]) {
                    let r = &m.receiver;
                    *e = parse_quote!(__map!(#r, #p, #b));
                    return;
                }
            }
            if m.method == "map_err" && m.args.len() == 1 {
                if let Some((p, b)) = closure1(&m.args[0]) {
                    let r = &m.receiver;
                    *e = parse_quote!(__map_err!(#r, #p, #b));
                    return;
                }
            }
        }
    }
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        e => e,
    }
}

fn print(ts: TokenStream, out: &mut String, depth: usize) {
    let pad = |out: &mut String, d: usize| {
        out.push('\n');
        for _ in 0..d {
            out.push_str("    ");
        }
    };
    let mut prev_joint = false;
    let mut prev_tick = false;
    for t in ts {
        let glue = prev_joint || prev_tick;
        prev_joint = false;
        prev_tick = false;
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() {
                    Delimiter::Parenthesis => ("(", ")"),
                    Delimiter::Bracket => ("[", "]"),
                    Delimiter::Brace => ("{", "}"),
                    Delimiter::None => ("", ""),
                };
                if !out.ends_with(['(', '[', ' ', '\n']) && g.delimiter() == Delimiter::Brace {
                    out.push(' ');
                }
                out.push_str(o);
                if g.delimiter() == Delimiter::Brace {
                    pad(out, depth + 1);
                    print(g.stream(), out, depth + 1);
                    pad(out, depth);
                    out.push_str(c);
                    out.push(' ');
                } else {
                    print(g.stream(), out, depth);
                    while out.ends_with(' ') {
                        out.pop();
                    }
                    out.push_str(c);
                    out.push(' ');
                }
            }
            TokenTree::Punct(p) => {
                if p.as_char() == '\'' {
                    if !out.ends_with([' ', '\n', '(', '[', '<', '&']) {
                        out.push(' ');
                    }
                    out.push('\'');
                    prev_tick = true;
                    continue;
                }
                if glue || ['.', ';', ',', '?'].contains(&p.as_char()) {
                    while out.ends_with(' ') {
                        out.pop();
                    }
                }
                out.push(p.as_char());
                if p.spacing() == proc_macro2::Spacing::Joint {
                    prev_joint = true;
                } else if p.as_char() == ';' {
                    pad(out, depth);
                } else if p.as_char() != '.' && p.as_char() != '&' {
                    out.push(' ');
                } else if p.as_char() == '&' {
                    // binary or reference: a space is harmless on the right only after binary
                    out.push(' ');
                }
            }
            TokenTree::Ident(i) => {
                let s = i.to_string();
                if !glue && !out.is_empty() && !out.ends_with([' ', '\n', '(', '[', '.']) {
                    out.push(' ');
                }
                out.push_str(&s);
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                if !out.is_empty() && !out.ends_with([' ', '\n', '(', '[', '.']) {
                    out.push(' ');
                }
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}

fn strip_attrs_item(it: &mut Item) {
    match it {
        Item::Struct(s) => {
            s.attrs.clear();
            for f in s.fields.iter_mut() {
                f.attrs.clear();
                f.vis = parse_quote!(pub);
            }
            s.vis = parse_quote!(pub);
        }
        Item::Enum(s) => {
            s.attrs.clear();
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                for f in v.fields.iter_mut() {
                    f.attrs.clear();
                }
            }
            s.vis = parse_quote!(pub);
        }
        Item::Const(c) => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
        }
        Item::Type(c) => {
            c.attrs.clear();
            c.vis = parse_quote!(pub);
        }
        _ => {}
    }
}

fn is_test(attrs: &[Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test"))
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Types of the file with a Drop impl.
fn drop_types(items: &[Item], out: &mut Vec<String>) {
    for it in items {
        match it {
            Item::Impl(i) => {
                if let Some((_, p, _)) = &i.trait_ {
                    if p.segments.last().unwrap().ident == "Drop" {
                        out.push(type_name(&i.self_ty));
                    }
                }
            }
            Item::Mod(m) => {
                if let Some((_, its)) = &m.content {
                    drop_types(its, out);
                }
            }
            _ => {}
        }
    }
}
/// Leaves the block early?
struct Leaves(bool);
impl VisitMut for Leaves {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Return(_) | Expr::Try(_) => self.0 = true,
            Expr::Closure(_) => {}
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
/// `let NAME = T { .. };` where T has a Drop impl: the drop at the end of the function is made explicit.
fn elaborate_drops(block: &mut Block, drops: &[String]) -> Vec<Ident> {
    let mut names = vec![];
    let mut out = vec![];
    for s in std::mem::take(&mut block.stmts) {
        let mut s = s;
        if !names.is_empty() {
            let mut l = Leaves(false);
            l.visit_stmt_mut(&mut s.clone());
            if l.0 {
                s = parse_quote!(__unsupported!(););
            }
        }
        if let Stmt::Local(l) = &s {
            if let Some(init) = &l.init {
                if let Expr::Struct(st) = &*init.expr {
                    let t = st.path.segments.last().unwrap().ident.to_string();
                    if drops.contains(&t) {
                        match &l.pat {
                            Pat::Ident(p) => {
                                let n = p.ident.clone();
                                names.push(n.clone());
                                out.push(s.clone());
                                out.push(parse_quote!(__guard!(#n);));
                                continue;
                            }
                            Pat::Wild(_) => {
                                let x = &init.expr;
                                out.push(parse_quote!(let __now = #x;));
                                out.push(parse_quote!(__drop!(__now);));
                                continue;
                            }
                            _ => {}
                        }
                    }
                }
            }
        }
        out.push(s);
    }
    block.stmts = out;
    names.reverse();
    names
}

fn emit_fn(name: &str, sig: &Signature, block: &Block, drops: &[String]) -> String {
    let mut block = block.clone();
    let mut rw = Rw::default();
    rw.visit_block_mut(&mut block);
    let guards = elaborate_drops(&mut block, drops);
    // the tail becomes a named result
    let mut stmts = block.stmts;
    let has_ret = !matches!(sig.output, ReturnType::Default);
    let tail = match stmts.pop() {
        Some(Stmt::Expr(e, None)) if has_ret => Some(e),
        Some(mut s) => {
            if let Stmt::Expr(_, semi @ None) = &mut s {
                *semi = Some(Default::default());
            }
            stmts.push(s);
            None
        }
        None => None,
    };
    // a tuple pattern as parameter is taken apart in the body
    let mut sig = sig.clone();
    let mut args: Vec<Stmt> = vec![];
    for (i, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            if matches!(&*t.pat, Pat::Tuple(_)) {
                let n = format_ident!("__arg{}", i);
                let p = std::mem::replace(&mut *t.pat, parse_quote!(#n));
                args.push(parse_quote!(let #p = #n;));
            }
        }
    }
    let stmts: Vec<Stmt> = args.into_iter().chain(stmts).collect();
    let body: TokenStream = match tail {
        Some(t) => quote!({ __contract!(); #(#stmts)* let __result = #t; #(__drop!(#guards);)* __end!(); __result }),
        None => quote!({ __contract!(); #(#stmts)* #(__drop!(#guards);)* __end!(); }),
    };
    let mut text = String::new();
    print(body, &mut text, 0);
    sig.asyncness = None;
    let mut inputs = String::new();
    for i in sig.inputs.iter_mut() {
        match i {
            FnArg::Typed(t) => t.attrs.clear(),
            FnArg::Receiver(t) => t.attrs.clear(),
        }
    }
    let ins = &sig.inputs;
    print(quote!(#ins), &mut inputs, 0);
    let mut gen = String::new();
    let g = &sig.generics;
    let (_, _, _) = g.split_for_impl();
    let mut g2 = g.clone();
    let wh = g2.where_clause.take();
    print(quote!(#g2), &mut gen, 0);
    let mut whs = String::new();
    print(quote!(#wh), &mut whs, 0);
    let mut out = String::new();
    if let ReturnType::Type(_, t) = &sig.output {
        print(quote!(#t), &mut out, 0);
    }
    let sql = rw.sql.iter().map(|(t, h, n)| format!("[{},{},{}]", esc(t), esc(h), n)).collect::<Vec<_>>().join(",");
    let fmt = rw.fmt.iter().map(|(t, n)| format!("[{},{}]", esc(t), n)).collect::<Vec<_>>().join(",");
    let dr = rw.dropped.iter().map(|t| esc(t)).collect::<Vec<_>>().join(",");
    format!(
        "{{\"name\":{},\"fn\":{},\"generics\":{},\"inputs\":{},\"output\":{},\"where\":{},\"body\":{},\"loops\":{},\"shapes\":[{}],\"sql\":[{}],\"fmt\":[{}],\"dropped\":[{}]}}",
        esc(name), esc(&sig.ident.to_string()), esc(&gen), esc(&inputs), esc(&out), esc(&whs), esc(&text), rw.loops, rw.shapes.iter().map(|x| esc(x)).collect::<Vec<_>>().join(","), sql, fmt, dr
    )
}

fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => format!("&{}", type_name(&r.elem)),
        t => t.to_token_stream().to_string().replace(' ', ""),
    }
}

fn walk(items: &[Item], res: &mut Vec<String>, drops: &[String]) {
    for it in items {
        match it {
            Item::Fn(f) if !is_test(&f.attrs) => {
                // items within the body stand beside the function
                let mut b = (*f.block).clone();
                let mut inner = vec![];
                b.stmts.retain(|s| match s {
                    Stmt::Item(i @ (Item::Struct(_) | Item::Impl(_) | Item::Fn(_))) => {
                        inner.push(i.clone());
                        false
                    }
                    _ => true,
                });
                walk(&inner, res, drops);
                // what a function runs behind its panic barrier, on its own
                if let Some(Stmt::Expr(Expr::Call(c), None)) = b.stmts.last() {
                    if let (true, Some(Expr::Closure(k))) = (is_barrier(&c.func) && b.stmts.len() == 1, c.args.first()) {
                        if let Expr::Block(kb) = &*k.body {
                            res.push(emit_fn(&format!("{}::guarded", f.sig.ident), &f.sig, &kb.block, drops));
                        }
                    }
                }
                res.push(emit_fn(&f.sig.ident.to_string(), &f.sig, &b, drops))
            }
            Item::Impl(i) if !is_test(&i.attrs) => {
                let ty = type_name(&i.self_ty);
                let pre = match &i.trait_ {
                    Some((_, p, _)) => {
                        let l = p.segments.last().unwrap();
                        format!("{}@{}", l.to_token_stream().to_string().replace(' ', ""), ty)
                    }
                    None => ty,
                };
                for x in &i.items {
                    if let ImplItem::Fn(f) = x {
                        if !is_test(&f.attrs) {
                            res.push(emit_fn(&format!("{}::{}", pre, f.sig.ident), &f.sig, &f.block, drops));
                        }
                    }
                }
            }
            Item::Mod(m) if !is_test(&m.attrs) => {
                if let Some((_, its)) = &m.content {
                    walk(its, res, drops);
                }
            }
            // default methods
            Item::Trait(t) => {
                for x in &t.items {
                    if let TraitItem::Fn(TraitItemFn { sig, default: Some(b), .. }) = x {
                        res.push(emit_fn(&format!("{}::{}", t.ident, sig.ident), sig, b, drops));
                    }
                }
            }
            Item::Struct(_) | Item::Enum(_) | Item::Const(_) | Item::Type(_) => {
                let mut c = it.clone();
                strip_attrs_item(&mut c);
                let (k, n) = match &c {
                    Item::Struct(s) => ("struct", s.ident.to_string()),
                    Item::Enum(s) => ("enum", s.ident.to_string()),
                    Item::Const(s) => ("const", s.ident.to_string()),
                    Item::Type(s) => ("type", s.ident.to_string()),
                    _ => unreachable!(),
                };
                let mut text = String::new();
                print(c.to_token_stream(), &mut text, 0);
                res.push(format!("{{\"name\":{},\"text\":{}}}", esc(&format!("{k}:{n}")), esc(&text)));
            }
            _ => {}
        }
    }
}

/// Expands `m!(arg)` items of macros with the single rule `($x:ident) => { items }`.
fn expand(items: Vec<Item>) -> Vec<Item> {
    let mut rules: Vec<(String, String, TokenStream)> = vec![];
    let mut out = vec![];
    for it in items {
        if let Item::Macro(m) = &it {
            if let (true, Some(name)) = (m.mac.path.is_ident("macro_rules"), &m.ident) {
                let ts: Vec<TokenTree> = m.mac.tokens.clone().into_iter().collect();
                if let [TokenTree::Group(pat), TokenTree::Punct(_), TokenTree::Punct(_), TokenTree::Group(body), ..] = &ts[..] {
                    let p: Vec<String> = pat.stream().into_iter().map(|t| t.to_string()).collect();
                    if p.len() == 4 && p[0] == "$" && p[2] == ":" && p[3] == "ident" && ts.len() <= 5 {
                        rules.push((name.to_string(), p[1].clone(), body.stream()));
                    }
                }
            } else if let Some((_, var, body)) = m.mac.path.get_ident().and_then(|i| rules.iter().find(|r| i == &r.0)) {
                if let Ok(f) = parse2::<File>(subst(body.clone(), var, &m.mac.tokens)) {
                    out.extend(f.items);
                    continue;
                }
            }
        }
        out.push(it);
    }
    out
}
fn subst(body: TokenStream, var: &str, arg: &TokenStream) -> TokenStream {
    let ts: Vec<TokenTree> = body.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < ts.len() {
        match (&ts[i], ts.get(i + 1)) {
            (TokenTree::Punct(p), Some(TokenTree::Ident(x))) if p.as_char() == '$' && x == var => {
                out.extend(arg.clone());
                i += 1;
            }
            (TokenTree::Group(g), _) => {
                out.extend([TokenTree::Group(proc_macro2::Group::new(g.delimiter(), subst(g.stream(), var, arg)))]);
            }
            (t, _) => out.extend([t.clone()]),
        }
        i += 1;
    }
    out
}

fn main() {
    let f = std::env::args().nth(1).unwrap();
    let src = std::fs::read_to_string(&f).unwrap();
    let mut file = match parse_file(&src) {
        Ok(x) => x,
        Err(e) => {
            eprintln!("{e}");
            std::process::exit(2);
        }
    };
    file.items = expand(std::mem::take(&mut file.items));
    let mut res = vec![];
    let mut drops = vec![];
    drop_types(&file.items, &mut drops);
    walk(&file.items, &mut res, &drops);
    println!("[{}]", res.join(",\n"));
}
