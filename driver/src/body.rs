//! Function bodies with the control-flow information the engine needs.

use rustc_public::mir::mono::Instance;
use rustc_public::mir::*;
use rustc_public::ty::Ty;
use std::collections::HashSet;

pub struct BodyInfo {
    pub id: usize,
    pub inst: Instance,
    pub name: String,
    pub krate: String,
    pub body: Body,
    pub tys: Vec<Ty>,
    pub arg_count: usize,
    pub heads: HashSet<usize>,
    pub live_in: Vec<Vec<bool>>,
}

/// Successors without the unwinding edges.
pub fn succs(t: &TerminatorKind) -> Vec<usize> {
    use TerminatorKind::*;
    match t {
        Goto { target } | Drop { target, .. } | Assert { target, .. } => vec![*target],
        SwitchInt { targets, .. } => targets.all_targets(),
        Call { target, .. } => target.iter().copied().collect(),
        InlineAsm { destination, .. } => destination.iter().copied().collect(),
        Resume | Abort | Return | Unreachable => vec![],
    }
}

fn place_uses(p: &Place, u: &mut Vec<usize>) {
    u.push(p.local);
    for e in &p.projection {
        if let ProjectionElem::Index(l) = e {
            u.push(*l)
        }
    }
}
fn op_uses(o: &Operand, u: &mut Vec<usize>) {
    match o {
        Operand::Copy(p) | Operand::Move(p) => place_uses(p, u),
        _ => {}
    }
}
fn rv_uses(r: &Rvalue, u: &mut Vec<usize>, addr: &mut Vec<usize>) {
    match r {
        Rvalue::AddressOf(_, p) | Rvalue::Ref(_, _, p) | Rvalue::Reborrow(_, _, p) => {
            place_uses(p, u);
            if !p.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                addr.push(p.local)
            }
        }
        Rvalue::Aggregate(_, os) => os.iter().for_each(|o| op_uses(o, u)),
        Rvalue::BinaryOp(_, a, b) | Rvalue::CheckedBinaryOp(_, a, b) => {
            op_uses(a, u);
            op_uses(b, u)
        }
        Rvalue::Cast(_, o, _)
        | Rvalue::Repeat(o, _)
        | Rvalue::UnaryOp(_, o)
        | Rvalue::Use(o, _) => op_uses(o, u),
        Rvalue::CopyForDeref(p) | Rvalue::Discriminant(p) | Rvalue::Len(p) => place_uses(p, u),
        Rvalue::ThreadLocalRef(_) => {}
    }
}

impl BodyInfo {
    pub fn new(id: usize, inst: Instance, name: String, krate: String, body: Body) -> BodyInfo {
        let n = body.blocks.len();
        let nl = body.locals().len();
        let arg_count = body.arg_locals().len();
        // Loop heads: targets of back edges.
        let mut heads = HashSet::new();
        let mut color = vec![0u8; n];
        let mut stack: Vec<(usize, Vec<usize>)> = vec![];
        color[0] = 1;
        stack.push((0, succs(&body.blocks[0].terminator.kind)));
        while let Some((b, ss)) = stack.last_mut() {
            match ss.pop() {
                Some(s) => match color[s] {
                    0 => {
                        color[s] = 1;
                        stack.push((s, succs(&body.blocks[s].terminator.kind)));
                    }
                    1 => {
                        heads.insert(s);
                    }
                    _ => {}
                },
                None => {
                    color[*b] = 2;
                    stack.pop();
                }
            }
        }
        // Liveness. Locals whose address is taken stay live until their
        // storage is dead.
        let mut addr = vec![];
        let mut gen: Vec<Vec<bool>> = vec![vec![false; nl]; n];
        let mut kill: Vec<Vec<bool>> = vec![vec![false; nl]; n];
        for (b, blk) in body.blocks.iter().enumerate() {
            let mut use_ = |us: Vec<usize>, kill: &Vec<Vec<bool>>| {
                for u in us {
                    if !kill[b][u] {
                        gen[b][u] = true
                    }
                }
            };
            for st in &blk.statements {
                let mut us = vec![];
                match &st.kind {
                    StatementKind::Assign(p, r) => {
                        rv_uses(r, &mut us, &mut addr);
                        if p.projection.is_empty() {
                            use_(us, &kill);
                            kill[b][p.local] = true;
                        } else {
                            place_uses(p, &mut us);
                            use_(us, &kill);
                        }
                    }
                    StatementKind::SetDiscriminant { place, .. } => {
                        place_uses(place, &mut us);
                        use_(us, &kill)
                    }
                    StatementKind::StorageLive(l) | StatementKind::StorageDead(l) => {
                        kill[b][*l] = true
                    }
                    StatementKind::Intrinsic(NonDivergingIntrinsic::CopyNonOverlapping(c)) => {
                        op_uses(&c.src, &mut us);
                        op_uses(&c.dst, &mut us);
                        op_uses(&c.count, &mut us);
                        use_(us, &kill)
                    }
                    _ => {}
                }
            }
            let mut us = vec![];
            match &blk.terminator.kind {
                TerminatorKind::SwitchInt { discr, .. } => op_uses(discr, &mut us),
                TerminatorKind::Return => us.push(0),
                TerminatorKind::Drop { place, .. } => {
                    place_uses(place, &mut us);
                    if !place.projection.iter().any(|e| matches!(e, ProjectionElem::Deref)) {
                        addr.push(place.local)
                    }
                }
                TerminatorKind::Call { func, args, destination, .. } => {
                    op_uses(func, &mut us);
                    args.iter().for_each(|a| op_uses(a, &mut us));
                    if !destination.projection.is_empty() {
                        place_uses(destination, &mut us)
                    }
                }
                TerminatorKind::Assert { cond, msg, .. } => {
                    op_uses(cond, &mut us);
                    if let AssertMessage::BoundsCheck { len, index } = msg {
                        op_uses(len, &mut us);
                        op_uses(index, &mut us);
                    }
                }
                _ => {}
            }
            use_(us, &kill);
            if let TerminatorKind::Call { destination, .. } = &blk.terminator.kind {
                if destination.projection.is_empty() {
                    kill[b][destination.local] = true
                }
            }
        }
        let mut live_in: Vec<Vec<bool>> = gen.clone();
        loop {
            let mut ch = false;
            for b in (0..n).rev() {
                for s in succs(&body.blocks[b].terminator.kind) {
                    for l in 0..nl {
                        if live_in[s][l] && !kill[b][l] && !live_in[b][l] {
                            live_in[b][l] = true;
                            ch = true;
                        }
                    }
                }
                // Destinations with projections are written on return.
            }
            if !ch {
                break;
            }
        }
        for b in 0..n {
            for l in &addr {
                live_in[b][*l] = true
            }
        }
        // A destination place with projections needs its base after the call.
        for b in 0..n {
            if let TerminatorKind::Call { destination, target: Some(t), .. } =
                &body.blocks[b].terminator.kind
            {
                if !destination.projection.is_empty() {
                    live_in[*t][destination.local] = true
                }
            }
        }
        let tys = body.locals().iter().map(|d| d.ty).collect();
        BodyInfo { id, inst, name, krate, body, tys, arg_count, heads, live_in }
    }
}
