// zkdump: a rustc driver that writes the resolved, typed HIR of one crate as JSON.
// It never runs or code-generates the crate: it stops after type checking.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_attr_ir;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_middle::ty::{self, TyCtxt, TypeckResults};
use rustc_span::def_id::{DefId, LocalDefId};
use rustc_span::Span;
use std::fmt::Write as _;

/// names of the type and constant parameters, those of the enclosing impl first
fn generics(tcx: TyCtxt<'_>, id: rustc_hir::def_id::DefId) -> Vec<String> {
    use rustc_hir::def::DefKind::*;
    if !matches!(tcx.def_kind(id), Fn | AssocFn) {
        return Vec::new();
    }
    let g = tcx.generics_of(id);
    let mut out = g.parent.map(|p| { let q = tcx.generics_of(p); q.own_params.iter().filter(|x| !matches!(x.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).map(|x| js(x.name.as_str())).collect::<Vec<_>>() }).unwrap_or_default();
    out.extend(g.own_params.iter().filter(|x| !matches!(x.kind, rustc_middle::ty::GenericParamDefKind::Lifetime)).map(|x| js(x.name.as_str())));
    out
}

struct Cb {
    out: String,
}

fn js(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    tr: Option<&'tcx TypeckResults<'tcx>>,
    owner: LocalDefId,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        let c = self.tcx.crate_name(d.krate);
        let p = self.tcx.def_path(d).to_string_no_crate_verbose();
        format!("{}{}", c, p)
    }
    fn span(&self, s: Span) -> String {
        let s = s.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(s.lo());
        let f = l.file.name.prefer_local_unconditionally().to_string();
        format!("[{},{},{}]", js(&f), l.line, l.col.0)
    }
    fn mac(&self, s: Span) -> String {
        // the outermost macro this expression comes from
        let mut out = String::new();
        for e in s.macro_backtrace() {
            out = e.kind.descr().to_string();
        }
        out
    }
    fn tystr(&self, t: ty::Ty<'tcx>) -> String {
        let t = self.tcx.erase_and_anonymize_regions(t);
        format!("{}", rustc_middle::ty::print::with_no_trimmed_paths!(format!("{}", t)))
    }
    fn res(&self, r: Res) -> String {
        match r {
            Res::Local(id) => format!("{{\"r\":\"local\",\"id\":{},\"name\":{}}}", js(&format!("{}_{}", id.owner.def_id.local_def_index.as_u32(), id.local_id.as_u32())), js(self.tcx.hir_name(id).as_str())),
            Res::Def(k, d) => {
                let mut extra = String::new();
                if let DefKind::Ctor(..) = k {
                    let parent = self.tcx.parent(d);
                    let _ = write!(extra, ",\"ctor_of\":{}", js(&self.path(parent)));
                }
                format!("{{\"r\":\"def\",\"kind\":{},\"path\":{}{}}}", js(&format!("{:?}", k)), js(&self.path(d)), extra)
            }
            Res::SelfTyAlias { alias_to, .. } => format!("{{\"r\":\"selfty\",\"path\":{}}}", js(&self.path(alias_to))),
            Res::SelfTyParam { trait_ } => format!("{{\"r\":\"selfparam\",\"path\":{}}}", js(&self.path(trait_))),
            Res::SelfCtor(d) => {
                let t = self.tcx.type_of(d).instantiate_identity();
                format!("{{\"r\":\"selfctor\",\"ty\":{}}}", js(&format!("{:?}", t)))
            }
            Res::PrimTy(p) => format!("{{\"r\":\"prim\",\"path\":{}}}", js(p.name_str())),
            _ => "{\"r\":\"err\"}".to_string(),
        }
    }
    fn qpath(&self, q: &hir::QPath<'tcx>, id: hir::HirId) -> String {
        let r = match self.tr {
            Some(tr) => tr.qpath_res(q, id),
            None => match q {
                hir::QPath::Resolved(_, p) => p.res,
                _ => Res::Err,
            },
        };
        let mut s = self.res(r);
        // generic arguments
        let mut subs = Vec::new();
        if let Some(tr) = self.tr {
            if let Some(a) = tr.node_args_opt(id) {
                for g in a.iter() {
                    if let Some(t) = g.as_type() {
                        subs.push(js(&self.tystr(t)));
                    } else if let Some(c) = g.as_const() {
                        subs.push(js(&format!("{}", c)));
                    }
                }
            }
        }
        let seg = match q {
            hir::QPath::Resolved(_, p) => p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::"),
            hir::QPath::TypeRelative(t, s) => {
                let base = if let hir::TyKind::Path(hir::QPath::Resolved(_, p)) = &t.kind { p.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>().join("::") } else { "?".into() };
                format!("{}::{}", base, s.ident)
            }
        };
        s.pop();
        let _ = write!(s, ",\"subs\":[{}],\"src\":{}}}", subs.join(","), js(&seg));
        s
    }
    fn ty_of(&self, id: hir::HirId) -> String {
        match self.tr.and_then(|t| t.node_type_opt(id)) {
            Some(t) => js(&self.tystr(t)),
            None => "\"?\"".into(),
        }
    }
    fn exprs(&self, es: &'tcx [hir::Expr<'tcx>]) -> String {
        let v: Vec<String> = es.iter().map(|e| self.expr(e)).collect();
        format!("[{}]", v.join(","))
    }
    fn lit(&self, l: &rustc_ast::LitKind) -> String {
        use rustc_ast::LitKind::*;
        match l {
            Str(s, _) => format!("{{\"l\":\"str\",\"v\":{}}}", js(s.as_str())),
            ByteStr(b, _) | CStr(b, _) => format!("{{\"l\":\"bytes\",\"v\":[{}]}}", b.as_byte_str().iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")),
            Byte(b) => format!("{{\"l\":\"int\",\"v\":{}}}", js(&b.to_string())),
            Char(c) => format!("{{\"l\":\"char\",\"v\":{}}}", js(&c.to_string())),
            Int(i, _) => format!("{{\"l\":\"int\",\"v\":{}}}", js(&i.get().to_string())),
            Float(f, _) => format!("{{\"l\":\"float\",\"v\":{}}}", js(f.as_str())),
            Bool(b) => format!("{{\"l\":\"bool\",\"v\":{}}}", b),
            Err(_) => "{\"l\":\"err\"}".into(),
        }
    }
    fn patexpr(&self, e: &'tcx hir::PatExpr<'tcx>) -> String {
        match &e.kind {
            hir::PatExprKind::Lit { lit, negated } => format!("{{\"k\":\"lit\",\"lit\":{},\"neg\":{}}}", self.lit(&lit.node), negated),
            hir::PatExprKind::Path(q) => format!("{{\"k\":\"path\",\"res\":{}}}", self.qpath(q, e.hir_id)),
        }
    }
    fn pat(&self, p: &'tcx hir::Pat<'tcx>) -> String {
        use hir::PatKind::*;
        let pl = |ps: &'tcx [hir::Pat<'tcx>]| -> String { ps.iter().map(|p| self.pat(p)).collect::<Vec<_>>().join(",") };
        match &p.kind {
            Wild | Missing | Never => "{\"p\":\"wild\"}".into(),
            Binding(m, id, name, sub) => {
                let idm = format!("{}_{}", id.owner.def_id.local_def_index.as_u32(), id.local_id.as_u32());
                format!("{{\"p\":\"bind\",\"id\":{},\"name\":{},\"byref\":{},\"sub\":{},\"ty\":{}}}", js(&idm), js(name.as_str()), js(&format!("{:?}", m.0)), sub.map(|s| self.pat(s)).unwrap_or("null".into()), self.ty_of(p.hir_id))
            }
            Struct(q, fs, _) => {
                let f: Vec<String> = fs.iter().map(|f| format!("[{},{}]", js(f.ident.as_str()), self.pat(f.pat))).collect();
                format!("{{\"p\":\"struct\",\"res\":{},\"fields\":[{}]}}", self.qpath(q, p.hir_id), f.join(","))
            }
            TupleStruct(q, ps, dd) => format!("{{\"p\":\"tstruct\",\"res\":{},\"subs\":[{}],\"dd\":{}}}", self.qpath(q, p.hir_id), pl(ps), dd.as_opt_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Or(ps) => format!("{{\"p\":\"or\",\"subs\":[{}]}}", pl(ps)),
            Tuple(ps, dd) => format!("{{\"p\":\"tuple\",\"subs\":[{}],\"dd\":{}}}", pl(ps), dd.as_opt_usize().map(|x| x.to_string()).unwrap_or("null".into())),
            Deref(p) => self.pat(p),
            Ref(p, ..) => self.pat(p),
            Expr(e) => format!("{{\"p\":\"expr\",\"e\":{}}}", self.patexpr(e)),
            Guard(p, e) => format!("{{\"p\":\"guard\",\"sub\":{},\"e\":{}}}", self.pat(p), self.expr(e)),
            Range(a, b, end) => format!("{{\"p\":\"range\",\"lo\":{},\"hi\":{},\"incl\":{}}}", a.map(|e| self.patexpr(e)).unwrap_or("null".into()), b.map(|e| self.patexpr(e)).unwrap_or("null".into()), matches!(end, hir::RangeEnd::Included)),
            Slice(a, m, b) => format!("{{\"p\":\"slice\",\"pre\":[{}],\"mid\":{},\"post\":[{}]}}", pl(a), m.map(|m| self.pat(m)).unwrap_or("null".into()), pl(b)),
            _ => "{\"p\":\"unk\"}".into(),
        }
    }
    fn block(&self, b: &'tcx hir::Block<'tcx>) -> String {
        let mut st = Vec::new();
        for s in b.stmts {
            match &s.kind {
                hir::StmtKind::Let(l) => st.push(format!(
                    "{{\"s\":\"let\",\"pat\":{},\"init\":{},\"els\":{},\"sp\":{}}}",
                    self.pat(l.pat),
                    l.init.map(|e| self.expr(e)).unwrap_or("null".into()),
                    l.els.map(|b| self.block(b)).unwrap_or("null".into()),
                    self.span(s.span)
                )),
                hir::StmtKind::Item(_) => {}
                hir::StmtKind::Expr(e) => st.push(format!("{{\"s\":\"expr\",\"e\":{}}}", self.expr(e))),
                hir::StmtKind::Semi(e) => st.push(format!("{{\"s\":\"semi\",\"e\":{}}}", self.expr(e))),
            }
        }
        format!("{{\"stmts\":[{}],\"expr\":{},\"unsafe\":{}}}", st.join(","), b.expr.map(|e| self.expr(e)).unwrap_or("null".into()), matches!(b.rules, hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided)))
    }
    fn label(&self, d: &hir::Destination) -> String {
        match d.target_id {
            Ok(id) => js(&format!("{}_{}", id.owner.def_id.local_def_index.as_u32(), id.local_id.as_u32())),
            Err(_) => "null".into(),
        }
    }
    fn expr(&self, e: &'tcx hir::Expr<'tcx>) -> String {
        use hir::ExprKind::*;
        let idm = format!("{}_{}", e.hir_id.owner.def_id.local_def_index.as_u32(), e.hir_id.local_id.as_u32());
        let inner = match &e.kind {
            ConstBlock(_) => "\"k\":\"unk\"".to_string(),
            Array(es) => format!("\"k\":\"array\",\"args\":{}", self.exprs(es)),
            Tup(es) => format!("\"k\":\"tup\",\"args\":{}", self.exprs(es)),
            Call(f, args) => format!("\"k\":\"call\",\"f\":{},\"args\":{}", self.expr(f), self.exprs(args)),
            MethodCall(seg, recv, args, _) => {
                let mut path = "null".to_string();
                let mut subs = Vec::new();
                let mut selfkind = "";
                if let Some(tr) = self.tr {
                    if let Some(d) = tr.type_dependent_def_id(e.hir_id) {
                        path = js(&self.path(d));
                        if let Some(a) = tr.node_args_opt(e.hir_id) {
                            for g in a.iter() {
                                if let Some(t) = g.as_type() {
                                    subs.push(js(&self.tystr(t)));
                                } else if let Some(c) = g.as_const() {
                                    subs.push(js(&format!("{}", c)));
                                }
                            }
                        }
                        let sig = self.tcx.fn_sig(d).instantiate_identity();
                        let sig = sig.skip_norm_wip();
                        let sig = sig.skip_binder();
                        if let Some(t) = sig.inputs().first() {
                            selfkind = match t.kind() {
                                ty::Ref(_, _, m) => {
                                    if m.is_mut() { "mut" } else { "ref" }
                                }
                                _ => "val",
                            };
                        }
                    }
                }
                format!("\"k\":\"mcall\",\"name\":{},\"path\":{},\"subs\":[{}],\"self\":{},\"recv\":{},\"args\":{}", js(seg.ident.as_str()), path, subs.join(","), js(selfkind), self.expr(recv), self.exprs(args))
            }
            Use(x, _) => return self.expr(x),
            Binary(op, a, b) => format!("\"k\":\"bin\",\"op\":{},\"a\":{},\"b\":{}", js(op.node.as_str()), self.expr(a), self.expr(b)),
            Unary(op, a) => format!("\"k\":\"un\",\"op\":{},\"a\":{}", js(op.as_str()), self.expr(a)),
            Lit(l) => format!("\"k\":\"lit\",\"lit\":{}", self.lit(&l.node)),
            Cast(x, _) => format!("\"k\":\"cast\",\"a\":{}", self.expr(x)),
            Type(x, _) => return self.expr(x),
            DropTemps(x) => return self.expr(x),
            Let(l) => format!("\"k\":\"let\",\"pat\":{},\"init\":{}", self.pat(l.pat), self.expr(l.init)),
            If(c, t, el) => format!("\"k\":\"if\",\"c\":{},\"t\":{},\"e\":{}", self.expr(c), self.expr(t), el.map(|x| self.expr(x)).unwrap_or("null".into())),
            Loop(b, _, src, _) => format!("\"k\":\"loop\",\"src\":{},\"id\":{},\"body\":{}", js(&format!("{:?}", src)), js(&idm), self.block(b)),
            Match(x, arms, src) => {
                let a: Vec<String> = arms
                    .iter()
                    .map(|a| format!("{{\"pat\":{},\"guard\":{},\"body\":{}}}", self.pat(a.pat), a.guard.map(|g| self.expr(g)).unwrap_or("null".into()), self.expr(a.body)))
                    .collect();
                let src = match src {
                    hir::MatchSource::Normal => "normal",
                    hir::MatchSource::Postfix => "normal",
                    hir::MatchSource::ForLoopDesugar => "for",
                    hir::MatchSource::TryDesugar(_) => "try",
                    hir::MatchSource::AwaitDesugar => "await",
                    hir::MatchSource::FormatArgs => "format",
                };
                format!("\"k\":\"match\",\"src\":{},\"e\":{},\"arms\":[{}]", js(src), self.expr(x), a.join(","))
            }
            Closure(c) => {
                let body = self.tcx.hir_body(c.body);
                let ps: Vec<String> = body.params.iter().map(|p| self.pat(p.pat)).collect();
                format!("\"k\":\"closure\",\"params\":[{}],\"body\":{}", ps.join(","), self.expr(body.value))
            }
            Block(b, l) => format!("\"k\":\"block\",\"label\":{},\"b\":{}", if l.is_some() { js(&format!("{}_{}", b.hir_id.owner.def_id.local_def_index.as_u32(), b.hir_id.local_id.as_u32())) } else { "null".into() }, self.block(b)),
            Assign(a, b, _) => format!("\"k\":\"assign\",\"a\":{},\"b\":{}", self.expr(a), self.expr(b)),
            AssignOp(op, a, b) => format!("\"k\":\"assignop\",\"op\":{},\"a\":{},\"b\":{}", js(op.node.as_str()), self.expr(a), self.expr(b)),
            Field(a, id) => format!("\"k\":\"field\",\"a\":{},\"name\":{}", self.expr(a), js(id.as_str())),
            Index(a, b, _) => format!("\"k\":\"index\",\"a\":{},\"i\":{}", self.expr(a), self.expr(b)),
            Path(q) => format!("\"k\":\"path\",\"res\":{}", self.qpath(q, e.hir_id)),
            AddrOf(_, m, a) => format!("\"k\":\"ref\",\"mut\":{},\"a\":{}", m.is_mut(), self.expr(a)),
            Break(d, v) => format!("\"k\":\"break\",\"to\":{},\"v\":{}", self.label(d), v.map(|x| self.expr(x)).unwrap_or("null".into())),
            Continue(d) => format!("\"k\":\"continue\",\"to\":{}", self.label(d)),
            Ret(v) => format!("\"k\":\"ret\",\"v\":{}", v.map(|x| self.expr(x)).unwrap_or("null".into())),
            Struct(q, fs, tail) => {
                let f: Vec<String> = fs.iter().map(|f| format!("[{},{}]", js(f.ident.as_str()), self.expr(f.expr))).collect();
                let base = match tail {
                    hir::StructTailExpr::Base(b) => self.expr(b),
                    hir::StructTailExpr::None => "null".into(),
                    _ => "{\"k\":\"unk\",\"ty\":\"?\",\"sp\":[\"?\",0,0]}".into(),
                };
                format!("\"k\":\"struct\",\"res\":{},\"fields\":[{}],\"base\":{}", self.qpath(q, e.hir_id), f.join(","), base)
            }
            Repeat(v, n) => {
                let nn = match &n.kind {
                    _ => {
                        // the type of the repeat expression carries the evaluated length
                        String::new()
                    }
                };
                let _ = nn;
                format!("\"k\":\"repeat\",\"v\":{}", self.expr(v))
            }
            InlineAsm(_) => "\"k\":\"asm\"".to_string(),
            _ => "\"k\":\"unk\"".to_string(),
        };
        let m = self.mac(e.span);
        let mac = if m.is_empty() { String::new() } else { format!(",\"mac\":{}", js(&m)) };
        let adj = match self.tr {
            Some(tr) => {
                let a = tr.expr_adjustments(e);
                let mut s = String::new();
                for x in a {
                    match &x.kind {
                        ty::adjustment::Adjust::Borrow(ty::adjustment::AutoBorrow::Ref(m)) => {
                            if matches!(m, ty::adjustment::AutoBorrowMutability::Mut { .. }) { s.push('M') } else { s.push('R') }
                        }
                        ty::adjustment::Adjust::Deref(_) => s.push('D'),
                        _ => s.push('o'),
                    }
                }
                s
            }
            None => String::new(),
        };
        let adj = if adj.is_empty() { String::new() } else { format!(",\"adj\":{}", js(&adj)) };
        format!("{{{},\"ty\":{},\"sp\":{}{}{}}}", inner, self.ty_of(e.hir_id), self.span(e.span), mac, adj)
    }
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut o = String::from("{\"bodies\":[\n");
        let mut first = true;
        for ld in tcx.hir_body_owners() {
            let kind = tcx.def_kind(ld);
            if matches!(kind, DefKind::Closure | DefKind::AnonConst) {
                continue;
            }
            let tr = tcx.typeck(ld);
            let body = tcx.hir_body_owned_by(ld);
            let d = D { tcx, tr: Some(tr), owner: ld };
            let _ = d.owner;
            let ps: Vec<String> = body.params.iter().map(|p| format!("{{\"pat\":{},\"ty\":{}}}", d.pat(p.pat), d.ty_of(p.hir_id))).collect();
            let ret = d.ty_of(body.value.hir_id);
            let mut sigret = "\"?\"".to_string();
            let mut unsafe_fn = false;
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let s = tcx.fn_sig(ld).instantiate_identity().skip_norm_wip().skip_binder();
                sigret = js(&d.tystr(s.output()));
                unsafe_fn = !s.safety().is_safe();
            }
            let mut imp = String::new();
            if let DefKind::AssocFn = kind {
                let parent = tcx.parent(ld.to_def_id());
                if matches!(tcx.def_kind(parent), DefKind::Impl { .. }) {
                    let st = tcx.type_of(parent).instantiate_identity().skip_norm_wip();
                    let _ = write!(imp, ",\"impl_self\":{}", js(&d.tystr(st)));
                    if let Some(t) = tcx.impl_opt_trait_ref(parent) {
                        let _ = write!(imp, ",\"impl_trait\":{}", js(&d.path(t.skip_binder().def_id)));
                    }
                }
            }
            let vis = tcx.local_visibility(ld);
            if !first {
                o.push_str(",\n");
            }
            first = false;
            let _ = write!(
                o,
                "{{\"path\":{},\"name\":{},\"kind\":{},\"params\":[{}],\"ret\":{},\"sigret\":{},\"pub\":{},\"unsafe\":{},\"sp\":{},\"exp\":{},\"gen\":[{}],\"body\":{}{}}}",
                js(&d.path(ld.to_def_id())),
                js(tcx.opt_item_name(ld.to_def_id()).map(|s| s.to_string()).unwrap_or_default().as_str()),
                js(&format!("{:?}", kind)),
                ps.join(","),
                ret,
                sigret,
                vis.is_public(),
                unsafe_fn,
                d.span(tcx.def_span(ld)),
                tcx.def_span(ld).from_expansion(),
                generics(tcx, ld.to_def_id()).join(","),
                d.expr(body.value),
                imp
            );
        }
        o.push_str("\n],\"types\":[\n");
        first = true;
        for id in tcx.hir_free_items() {
            let ld = id.owner_id.def_id;
            let d = D { tcx, tr: None, owner: ld };
            match tcx.def_kind(ld) {
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let adt = tcx.adt_def(ld);
                    let mut vs = Vec::new();
                    let discr: Vec<u128> = if adt.is_enum() && adt.variants().iter().all(|v| v.fields.is_empty()) { adt.discriminants(tcx).map(|(_, d)| d.val).collect() } else { Vec::new() };
                    for (vi, v) in adt.variants().iter().enumerate() {
                        let fs: Vec<String> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let at = f.did.as_local().map(|l| self.attrs(tcx, l)).unwrap_or_default();
                                let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                format!("{{\"name\":{},\"ty\":{},\"attrs\":[{}],\"pub\":{}}}", js(f.name.as_str()), js(&d.tystr(t)), at, tcx.visibility(f.did).is_public())
                            })
                            .collect();
                        let at = v.def_id.as_local().map(|l| self.attrs(tcx, l)).unwrap_or_default();
                        let dv = discr.get(vi).map(|x| format!("\"discr\":{},", x)).unwrap_or_default();
                        vs.push(format!("{{\"name\":{},{}\"fields\":[{}],\"attrs\":[{}]}}", js(v.name.as_str()), dv, fs.join(","), at));
                    }
                    if !o.ends_with("[\n") {
                        o.push_str(",\n");
                    }
                    let _ = write!(o, "{{\"path\":{},\"kind\":{},\"variants\":[{}],\"attrs\":[{}],\"sp\":{}}}", js(&d.path(ld.to_def_id())), js(&format!("{:?}", tcx.def_kind(ld))), vs.join(","), self.attrs(tcx, ld), d.span(tcx.def_span(ld)));
                }
                _ => {}
            }
        }
        o.push_str("\n],\"impls\":[\n");
        for id in tcx.hir_free_items() {
            let ld = id.owner_id.def_id;
            let d = D { tcx, tr: None, owner: ld };
            if let DefKind::Impl { .. } = tcx.def_kind(ld) {
                let st = tcx.type_of(ld).instantiate_identity().skip_norm_wip();
                let t = tcx.impl_opt_trait_ref(ld).map(|t| js(&d.path(t.skip_binder().def_id))).unwrap_or("null".into());
                if !o.ends_with("[\n") {
                    o.push_str(",\n");
                }
                let _ = write!(o, "{{\"self\":{},\"trait\":{},\"exp\":{},\"sp\":{}}}", js(&d.tystr(st)), t, tcx.def_span(ld).from_expansion(), d.span(tcx.def_span(ld)));
            }
        }
        let ca: Vec<String> = tcx.hir_krate_attrs().iter().map(|a| js(&format!("{:?}", a))).collect();
        let _ = write!(o, "\n],\"crate\":{},\"crate_attrs\":[{}]}}\n", js(tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str()), ca.join(","));
        std::fs::write(&self.out, o).expect("write dump");
        if std::env::var_os("ZKDUMP_CONTINUE").is_some() {
            Compilation::Continue
        } else {
            Compilation::Stop
        }
    }
}

impl Cb {
    fn attrs(&self, tcx: TyCtxt<'_>, l: LocalDefId) -> String {
        let id = tcx.local_def_id_to_hir_id(l);
        let sm = tcx.sess.source_map();
        tcx.hir_attrs(id)
            .iter()
            .filter_map(|a| match a {
                rustc_attr_ir::Attribute::DeriveHelper(u) | rustc_attr_ir::Attribute::Tool(u) => Some(js(&sm.span_to_snippet(u.span).unwrap_or_default())),
                _ => None,
            })
            .collect::<Vec<_>>()
            .join(",")
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    let out = std::env::var("ZKDUMP_OUT").expect("ZKDUMP_OUT");
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let mut cb = Cb { out };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb));
}
