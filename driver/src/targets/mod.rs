//! The families of checks.

pub mod classifier;
pub mod collect;
pub mod datums;
pub mod parser;
pub mod streams;
pub mod supply;
pub mod texts;

use crate::engine::*;

/// What one family of checks produced.
pub struct Done {
    pub name: String,
    pub rep: Report,
    /// The number of nodes and of non-consuming edges of the progress graph.
    pub graph: (usize, usize),
    pub stuck: Option<Vec<String>>,
}

impl Done {
    pub fn of(e: Engine) -> Done {
        let mut e = e;
        let stuck = e.stuck_cycle();
        if stuck.is_none() {
            if let Some(c) = e.possible_cycle() {
                let m = format!("progress not decided: {}", c.join(" -> "));
                *e.rep.unknowns.entry(m).or_default() += 1;
            }
        }
        Done { name: e.tname.clone(), graph: e.edge_count(), stuck, rep: e.rep }
    }
}

pub fn run(name: &str) -> Vec<Done> {
    match name {
        "classifier" => classifier::run(),
        "parser" => parser::run(),
        "chunk-streams" => streams::chunks(),
        "char-streams" => streams::chars(),
        "string-streams" => streams::strs(),
        "text-streams" => streams::texts(),
        "slots" => supply::slots(),
        "bindings" => supply::bindings(),
        "collect" => collect::run(),
        "texts" => texts::run(false),
        "text-pairs" => texts::run(true),
        "datums" => datums::run(),
        "refs" => datums::refs(),
        "drops" => datums::drops(),
        _ => panic!("no such target: {name}"),
    }
}
