//! Models of compiler intrinsics and of the parts of the standard library that
//! are not followed through their own bodies.

use crate::engine::*;
use crate::slices;
use crate::state::*;
use crate::strings;
use crate::val::*;
use rustc_public::mir::mono::InstanceKind;
use rustc_public::mir::BinOp;
use rustc_public::ty::*;
use rustc_public::CrateDef;

pub fn call(e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Act> {
    if cx.inst.kind == InstanceKind::Intrinsic {
        let last = n.rsplit("::").next().unwrap_or("");
        return Ok(match intrinsic(e, st, last, a, cx)? {
            Some(v) => Act::Ret(v),
            None => Act::Body,
        });
    }
    if let Some(v) = measure(st, n, cx) {
        return Ok(Act::Ret(v));
    }
    if let Some(v) = strings::call(e, st, n, a, cx)? {
        return Ok(Act::Ret(v));
    }
    if let Some(v) = shared(e, st, n, a, cx)? {
        return Ok(Act::Ret(v));
    }
    Ok(slices::call(e, st, n, a, cx)?.unwrap_or(Act::Body))
}

/// The size or alignment of an abstract type, which can be any.
fn measure(st: &State, n: &str, cx: &CallCx) -> Option<Val> {
    let last = n.split("::<").next()?.rsplit("::").next()?;
    if !matches!(last, "size_of" | "align_of") || !is_repo(&st.frames.last()?.body.krate) {
        return None;
    }
    let t = cx.inst.args().0.iter().find_map(|k| k.ty().copied())?;
    match t.kind() {
        TyKind::RigidTy(RigidTy::Adt(d, _)) if d.krate().name == "kulv_subject" => Some(Val::T(
            if last == "size_of" { "size" } else { "align" },
            vec![Val::Name(d.name().as_str().into())],
        )),
        _ => None,
    }
}

pub fn drop(_e: &mut Engine, _st: &mut State, _ty: Ty, _p: &Val) -> R<Act> {
    Ok(Act::Body)
}

/// Reference-counted pointers: `rc(cell)` with the cell (strong, weak, value).
fn shared(e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Option<Val>> {
    let krate = cx.inst.def.krate().name;
    if !matches!(krate.as_str(), "core" | "alloc" | "std") {
        return Ok(None);
    }
    let last = n.rsplit("::").next().unwrap_or("");
    if strings::is_shared(cx.ret_ty) && last == "new" && a.len() == 1 {
        return Ok(Some(Val::T("rc", vec![st.alloc(tup(vec![int(1), int(1), a[0].clone()]))])));
    }
    if last == "clone" && strings::is_shared(cx.ret_ty) {
        let v = st.rd(&a[0])?;
        return Ok(Some(e.rc_clone(st, v)?));
    }
    Ok(None)
}

/// The largest value of an unsigned type.
fn umax(t: Ty) -> Option<i128> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Uint(UintTy::U128)) => None,
        TyKind::RigidTy(RigidTy::Uint(u)) => Some((1i128 << (8 * u.num_bytes())) - 1),
        _ => None,
    }
}

fn intrinsic(e: &mut Engine, st: &mut State, n: &str, a: &[Val], cx: &CallCx) -> R<Option<Val>> {
    let ty = cx.arg_tys.first().copied();
    let ints = || match (a.first(), a.get(1)) {
        (Some(Val::Int(x)), Some(Val::Int(y))) => Some((x.clone(), y.clone())),
        _ => None,
    };
    Ok(Some(match n {
        "integer_min" | "integer_max" => match ints() {
            Some((x, y)) => {
                let ge = st.decide_ge(&x.sub(&y))?;
                Val::Int(if ge == (n == "integer_max") { x } else { y })
            }
            None => Val::Top,
        },
        "wrapping_add" | "wrapping_sub" | "saturating_add" | "saturating_sub"
        | "add_with_overflow" | "sub_with_overflow" => {
            let pair = n.ends_with("with_overflow");
            let wrap = |v: Val, o: bool| if pair { tup(vec![v, Val::Bool(o)]) } else { v };
            let (Some((x, y)), Some(max)) = (ints(), ty.and_then(umax)) else {
                return Ok(Some(wrap(Val::Top, false)));
            };
            let r = if n.contains("add") { x.add(&y) } else { x.sub(&y) };
            let sat = n.starts_with("saturating");
            if !st.decide_ge(&r)? {
                wrap(Val::Int(if sat { Lin::k(0) } else { r.plus(max + 1) }), true)
            } else if (n.contains("sub") || !r.is_const() && max >= u64::MAX as i128)
                || st.decide_ge(&Lin::k(max).sub(&r))?
            {
                wrap(Val::Int(r), false)
            } else {
                wrap(Val::Int(if sat { Lin::k(max) } else { r.plus(-max - 1) }), true)
            }
        }
        "mul_with_overflow" => match ints() {
            Some((x, y)) if x.is_const() => tup(vec![Val::Int(y.scale(x.c)), Val::Bool(false)]),
            Some((x, y)) if y.is_const() => tup(vec![Val::Int(x.scale(y.c)), Val::Bool(false)]),
            _ => tup(vec![Val::Top, Val::Bool(false)]),
        },
        "unchecked_add" => e.binop(st, BinOp::Add, a[0].clone(), a[1].clone(), ty.unwrap())?,
        "unchecked_sub" => e.binop(st, BinOp::Sub, a[0].clone(), a[1].clone(), ty.unwrap())?,
        "unchecked_mul" | "wrapping_mul" => {
            e.binop(st, BinOp::Mul, a[0].clone(), a[1].clone(), ty.unwrap())?
        }
        "three_way_compare" => e.binop(st, BinOp::Cmp, a[0].clone(), a[1].clone(), ty.unwrap())?,
        "discriminant_value" => {
            let Some(t) = ty.map(|t| ty_args(t)[0]) else { return Ok(None) };
            let v = st.rd(&a[0])?;
            e.discr(st, v, t)?
        }
        "read_via_copy" | "volatile_load" => st.rd(&a[0])?,
        "write_via_move" => {
            st.wr(&a[0], a[1].clone())?;
            unit()
        }
        "typed_swap_nonoverlapping" => {
            let (x, y) = (st.rd(&a[0])?, st.rd(&a[1])?);
            st.wr(&a[0], y)?;
            st.wr(&a[1], x)?;
            unit()
        }
        "assume" | "cold_path" | "assert_inhabited" | "assert_zero_valid"
        | "assert_mem_uninitialized_valid" => unit(),
        "likely" | "unlikely" | "black_box" => a[0].clone(),
        "ub_checks" | "is_val_statically_known" => Val::Bool(false),
        "overflow_checks" => Val::Bool(true),
        "caller_location" | "type_name" | "type_id" => Val::Top,
        "select_unpredictable" => match a[0] {
            Val::Bool(true) => a[1].clone(),
            Val::Bool(false) => a[2].clone(),
            _ => Val::Top,
        },
        "size_of" | "align_of" | "needs_drop" => {
            let Some(t) = cx.inst.args().0.iter().find_map(|k| k.ty().copied()) else {
                return Ok(None);
            };
            match (n, t.layout()) {
                ("size_of", Ok(l)) => int(l.shape().size.bytes() as i128),
                ("align_of", Ok(l)) => int(l.shape().abi_align as i128),
                ("needs_drop", _) => Val::Bool(
                    !rustc_public::mir::mono::Instance::resolve_drop_in_place(t).is_empty_shim(),
                ),
                _ => Val::Top,
            }
        }
        _ => return Ok(None),
    }))
}
