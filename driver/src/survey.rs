//! A survey of a crate as such: what of it is unsafe, and which other crates
//! it needs. What is compiled is looked at as HIR; the source files are parsed
//! as well, for what this configuration leaves out.

use rustc_ast as ast;
use rustc_ast::tokenstream::{TokenStream, TokenTree};
use rustc_ast::visit::Visitor as AstVisitor;
use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::ty::TyCtxt;
use rustc_span::{Span, sym};
use std::ops::ControlFlow;
use std::path::{Path, PathBuf};

#[derive(Default)]
struct Found {
    items: usize,
    bodies: usize,
    blocks: usize,
    files: usize,
    file_items: usize,
    unsafes: Vec<(String, String)>,
    externs: Vec<(String, String)>,
    problems: Vec<String>,
}

fn place(tcx: TyCtxt<'_>, sp: Span) -> String {
    tcx.sess.source_map().span_to_diagnostic_string(sp).split(": ").next().unwrap_or("").into()
}

struct Hir<'t> {
    tcx: TyCtxt<'t>,
    f: Found,
}

impl Hir<'_> {
    fn found(&mut self, what: &str, sp: Span) {
        if !sp.in_external_macro(self.tcx.sess.source_map()) {
            self.f.unsafes.push((what.into(), place(self.tcx, sp)));
        }
    }
}

impl<'t> Visitor<'t> for Hir<'t> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'t> {
        self.tcx
    }
    fn visit_item(&mut self, i: &'t hir::Item<'t>) {
        self.f.items += 1;
        match &i.kind {
            hir::ItemKind::Trait { safety: hir::Safety::Unsafe, .. } => {
                self.found("unsafe trait", i.span)
            }
            hir::ItemKind::Impl(m) => {
                if m.of_trait.is_some_and(|t| t.safety == hir::Safety::Unsafe) {
                    self.found("unsafe impl", i.span)
                }
            }
            hir::ItemKind::GlobalAsm { .. } => self.found("global assembly", i.span),
            hir::ItemKind::ForeignMod { .. } => self.found("foreign items", i.span),
            _ => {}
        }
        intravisit::walk_item(self, i)
    }
    fn visit_fn(
        &mut self,
        k: intravisit::FnKind<'t>,
        d: &'t hir::FnDecl<'t>,
        b: hir::BodyId,
        s: Span,
        id: hir::def_id::LocalDefId,
    ) {
        if k.header().is_some_and(|h| h.is_unsafe()) {
            self.found("unsafe function", s)
        }
        intravisit::walk_fn(self, k, d, b, id)
    }
    fn visit_body(&mut self, b: &hir::Body<'t>) {
        self.f.bodies += 1;
        intravisit::walk_body(self, b)
    }
    fn visit_block(&mut self, b: &'t hir::Block<'t>) {
        self.f.blocks += 1;
        if b.rules == hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) {
            self.found("unsafe block", b.span)
        }
        intravisit::walk_block(self, b)
    }
}

struct Ast<'a, 't> {
    tcx: TyCtxt<'t>,
    f: &'a mut Found,
}

impl Ast<'_, '_> {
    fn found(&mut self, what: &str, sp: Span) {
        let p = place(self.tcx, sp);
        self.f.unsafes.push((what.into(), p));
    }
    fn tokens(&mut self, ts: &TokenStream) {
        for t in ts.iter() {
            match t {
                TokenTree::Token(t, _) => {
                    if t.is_keyword(rustc_span::kw::Unsafe) {
                        self.found("unsafe code in a macro", t.span)
                    }
                }
                TokenTree::Delimited(_, _, _, ts) => self.tokens(ts),
            }
        }
    }
}

/// Whether it is compiled for testing only.
fn testing(attrs: &[ast::Attribute]) -> bool {
    attrs.iter().any(|a| {
        a.has_name(sym::test)
            || a.has_name(sym::cfg)
                && a.meta_item_list().is_some_and(|l| l.iter().all(|m| m.has_name(sym::test)))
    })
}

impl<'x> AstVisitor<'x> for Ast<'_, '_> {
    fn visit_item(&mut self, i: &'x ast::Item) {
        if testing(&i.attrs) {
            return;
        }
        self.f.file_items += 1;
        match &i.kind {
            ast::ItemKind::Trait(t) if matches!(t.safety, ast::Safety::Unsafe(_)) => {
                self.found("unsafe trait", i.span)
            }
            ast::ItemKind::Impl(m) => {
                let t = m.of_trait.as_ref();
                if t.is_some_and(|t| matches!(t.safety, ast::Safety::Unsafe(_))) {
                    self.found("unsafe impl", i.span)
                }
            }
            ast::ItemKind::GlobalAsm(_) => self.found("global assembly", i.span),
            ast::ItemKind::ForeignMod(_) => self.found("foreign items", i.span),
            ast::ItemKind::ExternCrate(orig, id) => {
                let n = orig.unwrap_or(id.name);
                let p = place(self.tcx, i.span);
                self.f.externs.push((n.to_string(), p));
            }
            ast::ItemKind::MacroDef(_, d) => self.tokens(&d.body.tokens),
            _ => {}
        }
        ast::visit::walk_item(self, i)
    }
    fn visit_assoc_item(&mut self, i: &'x ast::AssocItem, c: ast::visit::AssocCtxt) {
        if !testing(&i.attrs) {
            ast::visit::walk_assoc_item(self, i, c)
        }
    }
    fn visit_fn(&mut self, k: ast::visit::FnKind<'x>, _: &ast::AttrVec, s: Span, _: ast::NodeId) {
        if let Some(h) = k.header() {
            if matches!(h.safety, ast::Safety::Unsafe(_)) {
                self.found("unsafe function", s)
            }
        }
        ast::visit::walk_fn(self, k)
    }
    fn visit_block(&mut self, b: &'x ast::Block) {
        if b.rules == ast::BlockCheckMode::Unsafe(ast::UserProvided) {
            self.found("unsafe block", b.span)
        }
        ast::visit::walk_block(self, b)
    }
    fn visit_mac_call(&mut self, m: &'x ast::MacCall) {
        self.tokens(&m.args.tokens);
        ast::visit::walk_mac(self, m)
    }
}

fn sources(d: &Path, out: &mut Vec<PathBuf>) {
    let Ok(rd) = std::fs::read_dir(d) else { return };
    let mut v: Vec<PathBuf> = rd.flatten().map(|e| e.path()).collect();
    v.sort();
    for p in v {
        if p.is_dir() {
            sources(&p, out)
        } else if p.extension().is_some_and(|x| x == "rs") {
            out.push(p)
        }
    }
}

pub fn survey(tcx: TyCtxt<'_>) -> ControlFlow<(), ()> {
    let mut h = Hir { tcx, f: Found::default() };
    tcx.hir_walk_toplevel_module(&mut h);
    let mut f = h.f;
    let krate = tcx.crate_name(hir::def_id::LOCAL_CRATE).to_string();
    let crates: Vec<String> = tcx.crates(()).iter().map(|c| tcx.crate_name(*c).to_string()).collect();
    let root = tcx.sess.local_crate_source_file().and_then(|p| p.into_local_path());
    let mut files = vec![];
    match root.as_ref().and_then(|p| p.parent()) {
        Some(d) if krate != "kulv_probe" => sources(d, &mut files),
        _ => files.extend(root),
    }
    for p in files {
        let strip = rustc_parse::lexer::StripTokens::ShebangAndFrontmatter;
        let r = rustc_parse::new_parser_from_file(&tcx.sess.psess, &p, strip, None);
        match r.map(|mut x| x.parse_crate_mod().map_err(|e| e.cancel())) {
            Ok(Ok(c)) => {
                f.files += 1;
                // A file for tests is marked inside where it is not marked
                // outside.
                if testing(&c.attrs) {
                    continue;
                }
                let mut a = Ast { tcx, f: &mut f };
                for i in &c.items {
                    a.visit_item(i)
                }
            }
            Ok(Err(())) => f.problems.push(format!("{} cannot be parsed", p.display())),
            Err(es) => {
                es.into_iter().for_each(|e| e.cancel());
                f.problems.push(format!("{} cannot be read", p.display()));
            }
        }
    }
    let q = crate::report::q;
    let strs = |v: &[String]| v.iter().map(|s| q(s)).collect::<Vec<_>>().join(",");
    let pairs = |v: &[(String, String)]| {
        v.iter().map(|(a, b)| format!("[{},{}]", q(a), q(b))).collect::<Vec<_>>().join(",")
    };
    let js = format!(
        "{{\"crate\":{},\"items\":{},\"bodies\":{},\"blocks\":{},\"files\":{},\"file_items\":{},\"crates\":[{}],\"unsafe\":[{}],\"externs\":[{}],\"problems\":[{}]}}\n",
        q(&krate),
        f.items,
        f.bodies,
        f.blocks,
        f.files,
        f.file_items,
        strs(&crates),
        pairs(&f.unsafes),
        pairs(&f.externs),
        strs(&f.problems),
    );
    let out = std::env::var("KULV_OUT").expect("KULV_OUT");
    std::fs::write(format!("{out}.{krate}"), js).unwrap();
    ControlFlow::Continue(())
}
