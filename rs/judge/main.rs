//! Reads what the spy recorded and decides, for each id, whether the code after the expansion is the code before it
//! up to the generated enums, their constructors, the annotations and the markers.
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

fn take_expr(e: &mut Expr) -> Expr {
    std::mem::replace(e, Expr::PLACEHOLDER)
}

/// Forms that mean the same in both: parentheses, separators, `return` for `return ()`.
struct Plain;
impl VisitMut for Plain {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            match e {
                Expr::Paren(p) => {
                    let mut attrs = std::mem::take(&mut p.attrs);
                    let mut inner = take_expr(&mut p.expr);
                    add_attrs(&mut inner, &mut attrs);
                    *e = inner;
                }
                Expr::Group(p) => {
                    let mut attrs = std::mem::take(&mut p.attrs);
                    let mut inner = take_expr(&mut p.expr);
                    add_attrs(&mut inner, &mut attrs);
                    *e = inner;
                }
                _ => break,
            }
        }
        match e {
            Expr::Return(r) if r.expr.is_none() => r.expr = Some(Box::new(parse_quote!(()))),
            Expr::Break(r) if r.expr.is_none() => r.expr = Some(Box::new(parse_quote!(()))),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        a.comma = None;
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        loop {
            match t {
                Type::Paren(p) => *t = (*p.elem).clone(),
                Type::Group(p) => *t = (*p.elem).clone(),
                _ => break,
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_pat_mut(&mut self, t: &mut Pat) {
        while let Pat::Paren(p) = t {
            *t = (*p.pat).clone();
        }
        visit_mut::visit_pat_mut(self, t);
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        for s in &mut b.stmts {
            // a macro statement is an expression statement
            if let Stmt::Macro(m) = s {
                let semi = m.semi_token;
                let x = Expr::Macro(ExprMacro { attrs: m.attrs.clone(), mac: m.mac.clone() });
                *s = Stmt::Expr(x, semi);
            }
        }
        b.stmts.retain(|s| !matches!(s, Stmt::Expr(Expr::Verbatim(t), _) if t.is_empty()));
        visit_mut::visit_block_mut(self, b);
        // `{ { .. } }` is `{ .. }`
        loop {
            match &mut b.stmts[..] {
                [Stmt::Expr(Expr::Block(x), None)] if x.attrs.is_empty() && x.label.is_none() => *b = x.block.clone(),
                _ => break,
            }
        }
    }
}

fn attrs_of(e: &mut Expr) -> Option<&mut Vec<Attribute>> {
    macro_rules! m { ($($v:ident),*) => { match e { $(Expr::$v(x) => Some(&mut x.attrs),)* _ => None } } }
    m!(Array, Assign, Async, Await, Binary, Block, Break, Call, Cast, Closure, Const, Continue, Field, ForLoop, Group, If, Index, Infer, Let,
       Lit, Loop, Macro, Match, MethodCall, Paren, Path, Range, RawAddr, Reference, Repeat, Return, Struct, Try, TryBlock, Tuple, Unary, Unsafe, While, Yield)
}

fn add_attrs(e: &mut Expr, attrs: &mut Vec<Attribute>) {
    if attrs.is_empty() {
        return;
    }
    if let Some(a) = attrs_of(e) {
        attrs.append(a);
        *a = std::mem::take(attrs);
    }
}

fn last_is(p: &Path, name: &str) -> bool {
    p.segments.last().map_or(false, |s| s.ident == name)
}

fn marker_name(attr: &Attribute) -> String {
    if let Meta::List(l) = &attr.meta {
        let v: Vec<_> = l.tokens.clone().into_iter().collect();
        for w in v.windows(3) {
            if w[0].to_string() == "marker" && w[1].to_string() == "=" {
                return w[2].to_string();
            }
        }
    }
    "marker".to_string()
}

/// What the annotations of the input stand for.
struct Input {
    markers: Vec<String>,
    erased: usize,
}
impl Input {
    fn own_attr(&mut self, attrs: &mut Vec<Attribute>) -> Option<String> {
        let i = attrs.iter().position(|a| a.path().is_ident("auto_enum"))?;
        self.erased += 1;
        let a = attrs.remove(i);
        Some(marker_name(&a))
    }
    fn notes(&mut self, attrs: &mut Vec<Attribute>) {
        if !self.markers.is_empty() {
            for n in ["never", "nested"] {
                if let Some(i) = attrs.iter().position(|a| a.path().is_ident(n)) {
                    self.erased += 1;
                    attrs.remove(i);
                }
            }
        }
    }
    fn is_marker(&self, m: &Macro) -> bool {
        self.markers.iter().any(|n| m.path.is_ident(n))
    }
}
impl VisitMut for Input {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let own = attrs_of(e).map(|a| std::mem::take(a)).and_then(|mut a| {
            let r = self.own_attr(&mut a);
            *attrs_of(e).unwrap() = a;
            r
        });
        let n = self.markers.len();
        self.markers.extend(own);
        if let Some(a) = attrs_of(e) {
            let mut a2 = std::mem::take(a);
            self.notes(&mut a2);
            *attrs_of(e).unwrap() = a2;
        }
        while let Expr::Macro(m) = e {
            if !self.is_marker(&m.mac) {
                break;
            }
            let Ok(mut x) = parse2::<Expr>(m.mac.tokens.clone()) else { break };
            let mut attrs = std::mem::take(&mut m.attrs);
            add_attrs(&mut x, &mut attrs);
            self.erased += 1;
            *e = x;
            Plain.visit_expr_mut(e);
            if let Some(a) = attrs_of(e) {
                let mut a2 = std::mem::take(a);
                self.notes(&mut a2);
                *attrs_of(e).unwrap() = a2;
            }
        }
        visit_mut::visit_expr_mut(self, e);
        self.markers.truncate(n);
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        let own = self.own_attr(&mut l.attrs);
        let n = self.markers.len();
        self.markers.extend(own);
        self.notes(&mut l.attrs);
        visit_mut::visit_local_mut(self, l);
        self.markers.truncate(n);
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        self.notes(&mut a.attrs);
        visit_mut::visit_arm_mut(self, a);
    }
}

/// Removes what the expansion adds to the output.
#[derive(Default)]
struct Output {
    enums: BTreeMap<String, Vec<Vec<String>>>,
    uses: BTreeMap<(String, String), usize>,
    known: BTreeSet<String>,
    unclear: Option<String>,
}
struct Collect<'a>(&'a mut Output);
impl VisitMut for Collect<'_> {
    fn visit_item_mut(&mut self, i: &mut Item) {
        if let Item::Enum(e) = i {
            if e.attrs.iter().any(|a| last_is(a.path(), "enum_derive")) && !self.0.known.contains(&e.ident.to_string()) {
                self.0.enums.entry(e.ident.to_string()).or_default().push(e.variants.iter().map(|v| v.ident.to_string()).collect());
            }
        }
    }
}
/// Names of the enums in the input.
struct Names<'a>(&'a mut BTreeSet<String>);
impl VisitMut for Names<'_> {
    fn visit_item_mut(&mut self, i: &mut Item) {
        if let Item::Enum(e) = i {
            self.0.insert(e.ident.to_string());
        }
        visit_mut::visit_item_mut(self, i);
    }
}
impl Output {
    fn generated(&self, s: &Stmt) -> bool {
        matches!(s, Stmt::Item(Item::Enum(e)) if self.enums.contains_key(&e.ident.to_string()))
    }
    fn ctor(&self, e: &Expr) -> Option<(String, String)> {
        if let Expr::Path(p) = e {
            if p.qself.is_none() && p.path.segments.len() == 2 {
                let (a, b) = (p.path.segments[0].ident.to_string(), p.path.segments[1].ident.to_string());
                if self.enums.get(&a).map_or(false, |v| v.iter().any(|v| v.contains(&b))) {
                    return Some((a, b));
                }
            }
        }
        None
    }
    /// `match e { Ok(v) => v, Err(err) => return Err(Enum::V(err)) }` stands for `e?`
    fn tried(&mut self, m: &ExprMatch) -> Option<(String, String)> {
        if m.arms.len() != 2 || m.arms.iter().any(|a| a.guard.is_some() || !a.attrs.is_empty()) {
            return None;
        }
        let mut ok = false;
        let mut found = None;
        for a in &m.arms {
            let Pat::TupleStruct(p) = &a.pat else { return None };
            if p.elems.len() != 1 {
                return None;
            }
            let Pat::Ident(v) = &p.elems[0] else { return None };
            let mut body = (*a.body).clone();
            while let Expr::Block(b) = &body {
                match &b.block.stmts[..] {
                    [Stmt::Expr(x, _)] if b.label.is_none() && b.attrs.is_empty() => {
                        let x = x.clone();
                        body = x;
                    }
                    _ => return None,
                }
            }
            if last_is(&p.path, "Ok") {
                ok = matches!(&body, Expr::Path(x) if x.path.is_ident(&v.ident));
            } else if last_is(&p.path, "Err") {
                let Expr::Return(r) = &body else { return None };
                let Some(Expr::Call(c)) = r.expr.as_deref() else { return None };
                if !matches!(&*c.func, Expr::Path(x) if last_is(&x.path, "Err")) || c.args.len() != 1 {
                    return None;
                }
                let Expr::Call(w) = &c.args[0] else { return None };
                let k = self.ctor(&w.func)?;
                if w.args.len() != 1 || !matches!(&w.args[0], Expr::Path(x) if x.path.is_ident(&v.ident)) {
                    return None;
                }
                found = Some(k);
            }
        }
        if ok { found } else { None }
    }
}
impl VisitMut for Output {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !self.generated(s));
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        loop {
            match e {
                Expr::Block(b) if b.label.is_none() && b.attrs.is_empty() && b.block.stmts.iter().any(|s| self.generated(s)) => {
                    let mut rest: Vec<Stmt> = b.block.stmts.iter().filter(|s| !self.generated(s)).cloned().collect();
                    match (rest.len(), rest.pop()) {
                        (1, Some(Stmt::Expr(x, None))) => *e = x,
                        _ => break,
                    }
                }
                Expr::Call(c) => {
                    if let (Some(k), 1) = (self.ctor(&c.func), c.args.len()) {
                        *self.uses.entry(k).or_insert(0) += 1;
                        let mut attrs = std::mem::take(&mut c.attrs);
                        let mut x = c.args[0].clone();
                        add_attrs(&mut x, &mut attrs);
                        *e = x;
                    } else {
                        break;
                    }
                }
                Expr::Match(m) => {
                    if let Some(k) = self.tried(&m.clone()) {
                        *self.uses.entry(k).or_insert(0) += 1;
                        *e = Expr::Try(ExprTry { attrs: std::mem::take(&mut m.attrs), expr: m.expr.clone(), question_token: Default::default() });
                    }
                    break;
                }
                Expr::Try(t) => {
                    // e.map_err(Enum::V)?
                    if let Expr::MethodCall(m) = &*t.expr {
                        if m.method == "map_err" && m.args.len() == 1 {
                            let k = match &m.args[0] {
                                Expr::Closure(c) => match &*c.body {
                                    Expr::Call(w) => self.ctor(&w.func),
                                    _ => None,
                                },
                                x => self.ctor(x),
                            };
                            if let Some(k) = k {
                                *self.uses.entry(k).or_insert(0) += 1;
                                let r = m.receiver.clone();
                                t.expr = r;
                            }
                        }
                    }
                    break;
                }
                _ => break,
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

fn attrs_of_stmt(s: &mut Stmt) -> Option<&mut Vec<Attribute>> {
    match s {
        Stmt::Local(l) => Some(&mut l.attrs),
        Stmt::Item(Item::Fn(f)) => Some(&mut f.attrs),
        Stmt::Item(Item::Enum(f)) => Some(&mut f.attrs),
        Stmt::Expr(e, _) => attrs_of(e),
        Stmt::Macro(m) => Some(&mut m.attrs),
        _ => None,
    }
}

fn visit(v: &mut impl VisitMut, s: &mut Stmt) {
    match s {
        Stmt::Item(Item::Fn(f)) => v.visit_item_fn_mut(f),
        s => v.visit_stmt_mut(s),
    }
}

struct Sum(usize, usize);
impl VisitMut for Sum {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.0 += 1;
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, e: &mut Stmt) {
        self.1 += 1;
        visit_mut::visit_stmt_mut(self, e);
    }
}

fn text(s: &Stmt) -> String {
    quote::quote!(#s).to_string()
}

fn judge(before: &str, after: &str) -> std::result::Result<String, String> {
    let Ok(mut b) = parse_str::<Stmt>(before) else { return Ok("SKIP\tinput not modelled".into()) };
    let mut a = parse_str::<Stmt>(after).map_err(|e| format!("the expansion is not the kind of code that was annotated: {}", e))?;
    let attrs = attrs_of_stmt(&mut b).ok_or("SKIP")?;
    attrs.retain(|x| !last_is(x.path(), "after") && !last_is(x.path(), "kept"));
    let pos = attrs.iter().position(|a| last_is(a.path(), "auto_enum") || last_is(a.path(), "enum_derive"));
    let (mut name, mut empty) = (None, true);
    if let Some(i) = pos {
        let at = attrs.remove(i);
        let m = marker_name(&at);
        if let Meta::List(l) = &at.meta {
            let t = l.tokens.to_string();
            if !t.is_empty() && last_is(at.path(), "auto_enum") {
                empty = false;
                name = Some(m);
            }
        }
    }
    if let Stmt::Item(Item::Enum(_)) = b {
        let (mut a, mut b) = (a, b);
        let (Stmt::Item(Item::Enum(y)), Stmt::Item(Item::Enum(x))) = (&mut a, &b) else { return Err("no longer an enum".into()) };
        // what the attribute does not implement itself is handed to one derive, after all other attributes
        if y.attrs.len() == x.attrs.len() + 1 && last_is(y.attrs[x.attrs.len()].path(), "derive") {
            y.attrs.pop();
        }
        Plain_(&mut a);
        Plain_(&mut b);
        // tokens: syn remembers an empty list of bounds
        return if text(&a) == text(&b) { Ok(format!("OK\t{}\t0\t0", before.len())) } else { Err(format!("the enum was changed\nwritten:  {}\nexpanded: {}", text(&b), text(&a))) };
    }
    Plain_(&mut b);
    Plain_(&mut a);
    let mut inp = Input { markers: name.into_iter().collect(), erased: 0 };
    visit(&mut inp, &mut b);
    let mut out = Output::default();
    let mut names = BTreeSet::new();
    {
        let mut n = Names(&mut names);
        visit(&mut n, &mut b);
    }
    out.known = names;
    visit(&mut Collect(&mut out), &mut a);
    visit(&mut out, &mut a);
    Plain_(&mut b);
    Plain_(&mut a);
    let mut sum = Sum(0, 0);
    visit(&mut sum, &mut b);
    let wraps: usize = out.uses.values().sum();
    if a != b {
        let (x, y) = (text(&b), text(&a));
        let (xt, yt): (Vec<&str>, Vec<&str>) = (x.split(' ').collect(), y.split(' ').collect());
        let n = xt.iter().zip(&yt).take_while(|(a, b)| a == b).count();
        let lo = n.saturating_sub(12);
        return Err(format!("the code changed\nwritten:  .. {} ..\nexpanded: .. {} ..", xt[lo..xt.len().min(n + 25)].join(" "), yt[lo..yt.len().min(n + 25)].join(" ")));
    }
    if empty && inp.erased == 0 && !out.enums.is_empty() {
        return Err("an empty attribute added an enum".into());
    }
    for (e, defs) in &out.enums {
        let mut want: BTreeMap<&String, usize> = BTreeMap::new();
        for d in defs {
            let distinct: BTreeSet<_> = d.iter().collect();
            if distinct.len() != d.len() {
                return Err(format!("enum {} has {} variants of which only {} are distinct", e, d.len(), distinct.len()));
            }
            for v in d {
                *want.entry(v).or_insert(0) += 1;
            }
        }
        for (v, n) in want {
            let got = out.uses.get(&(e.clone(), v.clone())).copied().unwrap_or(0);
            if got != n {
                return Err(format!("variant {}::{} is used {} times for {} definition(s)", e, v, got, n));
            }
        }
    }
    Ok(format!("OK\t{}\t{}\t{}", sum.0, wraps, out.enums.values().map(|v| v.len()).sum::<usize>()))
}

#[allow(non_snake_case)]
fn Plain_(s: &mut Stmt) {
    match s {
        Stmt::Macro(m) => {
            let x = Expr::Macro(ExprMacro { attrs: m.attrs.clone(), mac: m.mac.clone() });
            *s = Stmt::Expr(x, m.semi_token);
            Plain.visit_stmt_mut(s)
        }
        s => Plain.visit_stmt_mut(s),
    }
}

fn unescape(s: &str) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        if c == '\\' {
            match it.next() {
                Some('n') => o.push('\n'),
                Some('t') => o.push('\t'),
                Some('r') => o.push('\r'),
                Some(c) => o.push(c),
                None => {}
            }
        } else {
            o.push(c);
        }
    }
    o
}

fn main() {
    let path = std::env::args().nth(1).unwrap();
    let t = std::fs::read_to_string(path).unwrap_or_default();
    let mut rec: BTreeMap<String, (Vec<String>, Vec<String>)> = BTreeMap::new();
    for l in t.lines() {
        let mut p = l.splitn(3, '\t');
        let (id, ph, tx) = (p.next().unwrap(), p.next().unwrap(), unescape(p.next().unwrap()));
        let e = rec.entry(id.to_string()).or_default();
        if ph == "before" { e.0.push(tx) } else { e.1.push(tx) }
    }
    let esc = |s: &str| s.replace('\\', "\\\\").replace('\n', "\\n");
    std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            for (id, (b, a)) in rec {
                if b.len() != 1 {
                    println!("{}\tERR\trecorded {} times", id, b.len());
                } else if a.is_empty() {
                    println!("{}\tNONE", id);
                } else if a.len() != 1 {
                    println!("{}\tBAD\tthe annotated code appears {} times in the expansion", id, a.len());
                } else {
                    match judge(&b[0], &a[0]) {
                        Ok(s) => println!("{}\t{}", id, s),
                        Err(s) => println!("{}\tBAD\t{}", id, esc(&s)),
                    }
                }
            }
        })
        .unwrap()
        .join()
        .unwrap();
}
