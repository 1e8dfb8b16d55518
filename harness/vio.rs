//! What the reading functions of the crate return, when the harness supplies it instead of a text.
#![allow(static_mut_refs)]
use crate::core::colocalizations::CoLocalizations;
use crate::core::execution::trace::multitrace::MultiTrace;
use crate::core::general_context::GeneralContext;
use crate::core::language::syntax::interaction::Interaction;
pub static mut HSF: Option<GeneralContext> = None;
pub static mut HIF: Option<Interaction> = None;
pub static mut HTF: Option<(CoLocalizations, MultiTrace)> = None;
/// a second multi-trace, returned by every call after the first
pub static mut HTF2: Option<(CoLocalizations, MultiTrace)> = None;
pub fn hsf() -> Option<GeneralContext> { unsafe { HSF.clone() } }
pub fn hif() -> Option<Interaction> { unsafe { HIF.clone() } }
pub fn htf() -> Option<(CoLocalizations, MultiTrace)> { unsafe { let x = HTF.clone(); if let Some(y) = HTF2.take() { HTF = Some(y); } x } }
pub fn then(t: (CoLocalizations, MultiTrace)) { unsafe { HTF2 = Some(t); } }
pub fn supply(g: GeneralContext, i: Option<Interaction>, t: Option<(CoLocalizations, MultiTrace)>) { unsafe { HSF = Some(g); HIF = i; HTF = t; HTF2 = None; } }
pub fn reset() { unsafe { HSF = None; HIF = None; HTF = None; HTF2 = None; } }
/// the arguments of the program, and what it prints
pub static mut ARGS: Vec<String> = Vec::new();
pub static mut PRINTED: Vec<String> = Vec::new();
pub fn arguments() -> Vec<String> { unsafe { ARGS.clone() } }
pub fn prints(l: &[String]) { unsafe { PRINTED.extend_from_slice(l) } }
pub fn program(a: &[&str]) { unsafe { ARGS = a.iter().map(|x| x.to_string()).collect(); PRINTED = Vec::new(); } }
pub fn printed() -> Vec<String> { unsafe { PRINTED.clone() } }
