//! Dumps, for every expression of the crate `html5_fuser`, the types and resolved paths the
//! compiler assigned to it, as JSON lines keyed by source file and byte range.  Used by
//! `../extract` to make the source-to-Verus translation type directed.
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::ty::{self, TyCtxt};
use std::io::Write;

struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    tr: &'tcx ty::TypeckResults<'tcx>,
    out: Vec<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'tcx> V<'tcx> {
    fn loc(&self, sp: rustc_span::Span) -> Option<(String, u32, u32)> {
        // spans of the `for`/`while`/`?` desugarings are kept, macro expansions are not
        if sp.from_expansion() && sp.desugaring_kind().is_none() {
            return None;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_byte_offset(sp.lo());
        let hi = sm.lookup_byte_offset(sp.hi());
        Some((format!("{}", lo.sf.name.prefer_local_unconditionally()), lo.pos.0, hi.pos.0))
    }
}

impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        let ty = self.tr.expr_ty_opt(e).map(|t| t.to_string()).unwrap_or_default();
        let aty = self.tr.expr_ty_adjusted_opt(e).map(|t| t.to_string()).unwrap_or_default();
        if let Some((f, lo, hi)) = self.loc(e.span) {
            let (mut k, mut path, mut recv) = ("e", String::new(), String::new());
            match e.kind {
                hir::ExprKind::MethodCall(_, r, _, _) => {
                    k = "m";
                    if let Some(d) = self.tr.type_dependent_def_id(e.hir_id) {
                        path = self.tcx.def_path_str(d);
                    }
                    recv = self.tr.expr_ty_opt(r).map(|t| t.to_string()).unwrap_or_default();
                }
                hir::ExprKind::Path(ref q) => {
                    k = "p";
                    if let Some(d) = self.tr.qpath_res(q, e.hir_id).opt_def_id() {
                        path = self.tcx.def_path_str(d);
                    }
                }
                hir::ExprKind::Closure(_) => {
                    if let Some(t) = self.tr.expr_ty_opt(e) {
                        if let ty::Closure(_, args) = t.kind() {
                            let sig = args.as_closure().sig().skip_binder();
                            let ins: Vec<String> = match sig.inputs()[0].kind() {
                                ty::Tuple(ts) => ts.iter().map(|t| t.to_string()).collect(),
                                _ => vec![],
                            };
                            self.out.push(format!(
                                "{{\"k\":\"c\",\"f\":{},\"lo\":{},\"hi\":{},\"path\":\"\",\"recv\":\"\",\"ty\":{},\"aty\":{}}}",
                                esc(&f), lo, hi, esc(&ins.join(";")), esc(&sig.output().to_string())
                            ));
                        }
                    }
                }
                _ => {}
            }
            self.out.push(format!(
                "{{\"k\":\"{}\",\"f\":{},\"lo\":{},\"hi\":{},\"path\":{},\"recv\":{},\"ty\":{},\"aty\":{}}}",
                k, esc(&f), lo, hi, esc(&path), esc(&recv), esc(&ty), esc(&aty)
            ));
        }
        intravisit::walk_expr(self, e);
    }
}

struct C;

impl rustc_driver_impl::Callbacks for C {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        let Ok(o) = std::env::var("TYPEDUMP_OUT") else {
            return rustc_driver_impl::Compilation::Continue;
        };
        if tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).as_str() != "html5_fuser" {
            return rustc_driver_impl::Compilation::Continue;
        }
        let mut all = Vec::new();
        for id in tcx.hir_body_owners() {
            if tcx.is_typeck_child(id.to_def_id()) {
                continue;
            }
            let tr = tcx.typeck(id);
            let body = tcx.hir_body_owned_by(id);
            let mut v = V { tcx, tr, out: vec![] };
            v.visit_body(body);
            all.extend(v.out);
        }
        let mut f = std::fs::File::create(o).unwrap();
        for l in all {
            writeln!(f, "{}", l).unwrap();
        }
        rustc_driver_impl::Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER, argument 1 is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut C);
}
