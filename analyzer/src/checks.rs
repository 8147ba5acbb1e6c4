use crate::base::*;
use crate::val::*;
use rustc_hir::def::DefKind;
use rustc_middle::mir;
use rustc_middle::ty::TyCtxt;
use std::fmt::Write;

extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// The units of every rule are divided among processes: process k of n takes every n-th unit, and process 0 the
/// obligations recorded outside units.
const SHARDS: usize = 8;

fn rule<'tcx>(c: &mut Ctx<'tcx>, krate: &str, p: &str) -> R<()> {
    match (krate, p) {
        ("plonky", "gates") => c.check_gate_siblings(),
        ("plonky", "gcomb_rec") => c.check_gate_combined(true),
        ("plonky", "gcomb_sel") => c.check_gate_combined(false),
        ("plonky", "ggen") => c.check_gate_generators(),
        ("plonky", "glaw") => c.check_group_law(),
        ("plonky", "fconst") => c.check_field_constants(),
        ("plonky", "cconst") => c.check_curve_constants(),
        ("plonky", "coset") => c.check_cosets(),
        ("plonky", "mds") => c.check_mds(),
        ("plonky", "gbatch") => c.check_point_batches(),
        ("plonky", "gsem") => c.check_gate_semantics(),
        ("plonky", "gadget") => c.check_gadgets(),
        ("plonky", "cgadget") => c.check_curve_gadgets(),
        ("plonky", "rescue") => c.check_rescue(),
        ("plonky", "chal") => c.check_challenger(),
        ("plonky", "verif") => c.check_verifier(),
        ("plonky", "complete") => c.check_completeness(),
        ("plonky", "blind") => c.check_blinding(),
        (_, "effects") => c.check_effects(),
        ("plonky", "history") => c.check_history(),
        ("plonky", "quot") => c.check_quotient(),
        ("plonky", "build") => c.check_build(),
        ("plonky", "msm") => c.check_msm(),
        ("plonky", "commit") => c.check_commit(),
        ("plonky", "poly") => c.check_poly(),
        ("plonky", "wit") => c.check_witness(),
        ("plonky", "fieldops") => c.check_fieldops(),
        ("plonky", "limbs") => c.check_limbs(),
        ("plonky", "serial") => c.check_serialization(),
        ("plonky", "htc") => c.check_htc(),
        ("plonky", "recur") => c.check_recursion(),
        ("plonky", "bigint") => c.check_bigint(),
        ("plonky", "bind") => c.check_transcript(),
        ("plookup", "plk_prove") => c.check_plk_prover(),
        ("plookup", "plk_verif") => c.check_plk_verifier(),
        _ => Ok(()),
    }
}

fn part(c: &mut Ctx<'_>, krate: &str, p: &str) -> String {
    c.cur = p.to_string();
    if let Err(e) = rule(c, krate, p) {
        let m = match e {
            Stop::Panic(s) => format!("diverges: {}", s),
            Stop::Unsupported(s) => s,
        };
        c.ob("whole property", krate, "analysable", St::Undecided, m);
    }
    let mut s = String::new();
    for o in &c.obs {
        let st = match o.st {
            St::Ok => "ok",
            St::Violation => "violation",
            St::Undecided => "undecided",
        };
        writeln!(s, "{{\"prop\":{:?},\"status\":{:?},\"key\":{},\"site\":{},\"rule\":{},\"detail\":{}}}", o.prop, st, js(&o.key), js(&o.site), js(&o.rule), js(&o.detail)).unwrap();
    }
    let cov: Vec<String> = c.it.covered.iter().map(|x| js(x)).collect();
    writeln!(s, "{{\"coverage\":[{}],\"calls\":{}}}", cov.join(","), c.it.calls).unwrap();
    s
}

pub fn run(tcx: TyCtxt<'_>) {
    let props = std::env::var("PLONKY_PROPS").unwrap_or_default();
    let out = std::env::var("PLONKY_OUT").ok();
    let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
    let rules: Vec<&str> = props.split(',').filter(|s| !s.is_empty() && *s != "none").collect();
    let dir = out.clone().unwrap_or_else(|| std::env::temp_dir().to_string_lossy().into_owned());
    let only = std::env::var("PLONKY_SHARDS").ok().and_then(|s| s.parse::<usize>().ok()).unwrap_or(SHARDS);
    let me = std::process::id();
    let file = |i: usize, k: usize| format!("{}/{}-{}-{}-{}.part", dir, krate, me, i, k);
    let mut jobs: Vec<(usize, usize)> = vec![];
    for i in 0..rules.len() {
        for k in 0..only {
            jobs.push((i, k));
        }
    }
    // plain constants: private ones are not part of the metadata that dependent crates see
    let cf = format!("{}/plonky.consts", dir);
    if krate == "plonky" {
        let mut t = String::new();
        for d in tcx.hir_crate_items(()).definitions() {
            let d = d.to_def_id();
            if !matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) || tcx.generics_of(d).count() != 0 {
                continue;
            }
            let ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if !ty.is_integral() && !ty.is_bool() {
                continue;
            }
            if let Ok(mir::ConstValue::Scalar(mir::interpret::Scalar::Int(i))) = tcx.const_eval_poly(d) {
                writeln!(t, "{} {}", tcx.def_path(d).to_string_no_crate_verbose(), i.to_bits(i.size())).unwrap();
            }
        }
        std::fs::write(&cf, t).unwrap();
    }
    let mut foreign = std::collections::HashMap::new();
    if krate != "plonky" {
        for l in std::fs::read_to_string(&cf).unwrap_or_default().lines() {
            if let Some((a, b)) = l.rsplit_once(' ') {
                foreign.insert(a.to_string(), b.parse::<u128>().unwrap());
            }
        }
    }
    let mut live = 0;
    let reap = |live: &mut usize| {
        let mut st = 0;
        let pid = unsafe { waitpid(-1, &mut st, 0) };
        assert!(pid > 0, "waiting for an analysis process");
        assert!(st == 0, "an analysis process ended with status {}", st);
        *live -= 1;
    };
    for &(i, k) in &jobs {
        if live == SHARDS {
            reap(&mut live);
        }
        let pid = unsafe { fork() };
        assert!(pid >= 0, "starting an analysis process");
        if pid == 0 {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut c = Ctx::new(tcx);
                c.it.trace_calls = std::env::var("PLONKY_TRACE").is_ok();
                c.shard = (k, only);
                c.it.foreign_consts = foreign.clone();
                let s = part(&mut c, &krate, rules[i]);
                std::fs::write(file(i, k), s).is_ok()
            }));
            unsafe { _exit(if matches!(r, Ok(true)) { 0 } else { 3 }) }
        }
        live += 1;
    }
    while live > 0 {
        reap(&mut live);
    }
    let mut s = String::new();
    let mut whole = std::collections::BTreeSet::new();
    for &(i, k) in &jobs {
        let f = file(i, k);
        for l in std::fs::read_to_string(&f).expect("result of an analysis process").lines() {
            if !l.contains("\"key\":\"whole property\"") || whole.insert(l.to_string()) {
                s.push_str(l);
                s.push('\n');
            }
        }
        let _ = std::fs::remove_file(&f);
    }
    match out {
        Some(d) => std::fs::write(format!("{}/{}.jsonl", d, krate), s).unwrap(),
        None => print!("{}", s),
    }
}
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars() {
        match ch {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
