mod bdd;
mod core;
mod interp;
mod oracle;
mod unit;
use crate::core::{Class, Diff, Job, Outcome};
use rustc_hash::{FxHashMap, FxHashSet};
use serde_json::json;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

/// run `f` over all items on all cores
pub fn par<T: Sync, R: Send>(items: &[T], f: impl Fn(&T) -> R + Sync) -> Vec<R> {
    let next = AtomicUsize::new(0);
    let outs = Mutex::new(vec![]);
    let n = std::thread::available_parallelism().map(|x| x.get()).unwrap_or(4);
    std::thread::scope(|sc| {
        for _ in 0..n {
            std::thread::Builder::new()
                .stack_size(1 << 28)
                .spawn_scoped(sc, || loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    if i >= items.len() {
                        break;
                    }
                    let o = f(&items[i]);
                    outs.lock().unwrap().push((i, o));
                })
                .unwrap();
        }
    });
    let mut v = outs.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    v.into_iter().map(|x| x.1).collect()
}

pub struct Item {
    pub name: String,
    pub class: String,
    pub o: Outcome,
}

struct Known {
    prop: String,
    at: String,
    what: String,
}

fn known(path: &str) -> Vec<Known> {
    let mut v = vec![];
    for l in std::fs::read_to_string(path).unwrap_or_default().lines() {
        // finding: property=C07 at="..." what="..."
        if let Some(r) = l.strip_prefix("finding: property=") {
            let id = r.split_whitespace().next().unwrap_or("").to_string();
            let q = |k: &str| r.split(&format!("{}=\"", k)).nth(1).and_then(|x| x.split('"').next()).unwrap_or("").to_string();
            v.push(Known { prop: id, at: q("at"), what: q("what") });
        }
    }
    v
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let opt = |k: &str| args.iter().position(|a| a == k).map(|i| args[i + 1].clone());
    std::panic::set_hook(Box::new(|_| {}));
    let t0 = std::time::Instant::now();
    let progs: Vec<(String, interp::Prog)> = args.iter().enumerate().filter(|(_, a)| *a == "--prog").map(|(i, _)| (args[i + 1].clone(), interp::Prog::load(&args[i + 1]))).collect();
    if args.iter().any(|a| a == "--list") {
        // developer view: the functions with a body
        for f in progs.iter().flat_map(|p| &p.1.p.fns).filter(|f| f.body.is_some()) {
            println!("{}\t{}", f.span, f.name);
        }
        return;
    }
    if let Some(f) = opt("--dump") {
        // developer view: every difference of the obligations matching a name
        let jobs: Vec<Job> = core::jobs().into_iter().filter(|j| j.name.contains(&f)).collect();
        let outs = par(&jobs, |j| core::run(&progs[0].1, j));
        let mut n = 0;
        for (j, o) in jobs.iter().zip(&outs) {
            if let Some(s) = &o.stuck {
                println!("STUCK {} {}", j.name, s);
            }
            for d in &o.diffs {
                n += 1;
                println!("{} {} | {:?} {} @ {} :: {}", j.name, o.mnemonic, d.props, d.what, d.loc, d.witness);
            }
        }
        println!("{} jobs {} diffs {:?}", jobs.len(), n, t0.elapsed());
        return;
    }
    let id = opt("--property").expect("--property");
    let tier = std::env::var("VERIF_TIER").unwrap_or("quick".into());
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut items: Vec<Item> = vec![];
    let mut fn_names: FxHashSet<String> = Default::default();
    for (n, (_path, pr)) in progs.iter().enumerate() {
        let prof = if n == 0 || id == "C34" { "" } else { " (release profile)" };
        let mut its = suites(&id, pr, tier == "thorough" && n == 0);
        for i in its.iter_mut() {
            for f in &i.o.fns {
                let f = &pr.p.fns[*f as usize];
                if f.span.contains("/repo/") {
                    fn_names.insert(f.name.clone());
                }
            }
            i.name += prof;
        }
        items.extend(its);
    }
    let fnd = known(&opt("--known").unwrap_or_default());
    // ---- verdict
    let mut bad: Vec<(&Item, &Diff)> = vec![];
    let mut kf: FxHashMap<usize, usize> = Default::default();
    let mut stuck = vec![];
    let mut failed_items: FxHashSet<&str> = Default::default();
    for i in &items {
        if let Some(s) = &i.o.stuck {
            stuck.push((i, s));
        }
        for d in &i.o.diffs {
            if !d.props.iter().any(|p| *p == id) {
                continue;
            }
            if let Some(k) = fnd.iter().position(|k| k.prop == id && i.name.contains(&k.at) && d.what.contains(&k.what)) {
                *kf.entry(k).or_default() += 1;
                continue;
            }
            failed_items.insert(&i.name);
            bad.push((i, d));
        }
    }
    for (k, n) in &kf {
        println!("KNOWN-FINDING: property={} {}: {} ({} obligations)", id, fnd[*k].at, fnd[*k].what, n);
    }
    let mut by_class: std::collections::BTreeMap<String, usize> = Default::default();
    for i in &items {
        *by_class.entry(i.class.clone()).or_default() += 1;
    }
    let sum = |f: &dyn Fn(&Outcome) -> u64| items.iter().map(|i| f(&i.o)).sum::<u64>();
    let nob = items.len();
    let mut fl: Vec<_> = fn_names.into_iter().collect();
    fl.sort();
    let step = (nob / 5).max(1);
    let samples: Vec<_> = items
        .iter()
        .step_by(step)
        .map(|i| json!({"obligation": i.name, "instruction": i.o.mnemonic, "implementation_partitions": i.o.states, "pairs_compared": i.o.pairs, "facts": i.o.facts, "host_calls": i.o.events, "basic_blocks": i.o.blocks}))
        .collect();
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "other",
        "coverage": {
            "explanation": rule(&id),
            "obligations": nob,
            "discharged": items.iter().filter(|i| i.o.stuck.is_none() && !failed_items.contains(i.name.as_str())).count(),
            "obligations_by_class": by_class,
            "functions_analysed": fl.len(),
            "function_names": fl,
            "basic_blocks_interpreted": sum(&|o| o.blocks),
            "state_joins": sum(&|o| o.joins),
            "assertions_decided": sum(&|o| o.asserts),
            "host_call_sites_visited": sum(&|o| o.events),
            "partition_pairs_compared": sum(&|o| o.pairs as u64),
            "facts_compared": sum(&|o| o.facts),
            "undecided": stuck.len(),
            "not_examined_once_settled": LEFT.load(Ordering::Relaxed),
            "samples": samples,
            "exhaustive": true,
        },
        "assumptions": ["the MIR the compiler reports for /repo's sources (opt-level 0) is what they mean", "the analyser's model of MIR and the specification in engine/zcheck/src/oracle.rs", "hosts do not unwind and their answers are arbitrary values"],
        "wall_s": t0.elapsed().as_secs_f64() + opt("--prep").and_then(|s| s.parse::<f64>().ok()).unwrap_or(0.),
        "violations": bad.len(),
    });
    if let Some(p) = opt("--evidence") {
        std::fs::create_dir_all(std::path::Path::new(&p).parent().unwrap()).ok();
        std::fs::write(&p, serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    }
    if !bad.is_empty() {
        let dir = opt("--replay").unwrap_or(".".into());
        std::fs::create_dir_all(&dir).ok();
        let path = format!("{}/{}.txt", dir, id);
        let mut txt = String::new();
        let mut seen: FxHashSet<(String, String)> = Default::default();
        let mut shown = 0;
        for (i, d) in &bad {
            txt += &format!("{} {}\n    {}\n    at {}\n    when {}\n", i.name, i.o.mnemonic, d.what, d.loc, d.witness);
            if shown < 12 && seen.insert((d.what.clone(), d.loc.clone())) {
                shown += 1;
                println!("{}: {} {}: {}\n    at {}\n    when {}", id, i.name, i.o.mnemonic, d.what, d.loc, d.witness);
            }
        }
        std::fs::write(&path, txt).unwrap();
        println!("{} of {} obligations of {} fail", failed_items.len(), nob, id);
        println!("VIOLATION property={} replay={}", id, path);
        std::process::exit(1);
    }
    if !stuck.is_empty() {
        for (i, s) in stuck.iter().take(10) {
            println!("UNDECIDED {} {}", i.name, s);
        }
        println!("{} of {} obligations of {} undecided", stuck.len(), nob, id);
        std::process::exit(2);
    }
    if LEFT.load(Ordering::Relaxed) > 0 {
        println!("{} obligations of {} were not examined", LEFT.load(Ordering::Relaxed), id);
        std::process::exit(2);
    }
    let floor = opt("--floor").and_then(|s| s.parse::<usize>().ok()).unwrap_or(1);
    if nob < floor || ev["coverage"]["functions_analysed"].as_u64() == Some(0) {
        println!("only {} obligations of {} were generated", nob, id);
        std::process::exit(2);
    }
    println!("{}: {} obligations, all discharged ({:.1} s)", id, nob, t0.elapsed().as_secs_f64());
}

/// obligations left out by `until_settled`
static LEFT: AtomicUsize = AtomicUsize::new(0);

/// run the obligations; when thousands fail, or some do and time runs out,
/// the rest would not change the verdict
fn until_settled(jobs: Vec<Job>, id: &str, run: impl Fn(&Job) -> Outcome + Sync) -> (Vec<Job>, Vec<Outcome>) {
    let t0 = std::time::Instant::now();
    let fails = AtomicUsize::new(0);
    let late = matches!(id, "C06" | "C19");
    let outs = par(&jobs, |j| {
        let n = fails.load(Ordering::Relaxed);
        if n >= 3000 && !late || n > 0 && t0.elapsed().as_secs() > if late { 700 } else { 400 } {
            LEFT.fetch_add(1, Ordering::Relaxed);
            return None;
        }
        let o = run(j);
        if o.diffs.iter().any(|d| late || d.props.iter().any(|p| *p == id)) {
            fails.fetch_add(1, Ordering::Relaxed);
        }
        Some(o)
    });
    jobs.into_iter().zip(outs).filter_map(|(j, o)| Some((j, o?))).unzip()
}

fn core_suite(pr: &interp::Prog, id: &str, keep: &dyn Fn(&Job) -> bool) -> Vec<Item> {
    let jobs: Vec<Job> = core::jobs().into_iter().filter(|j| keep(j)).collect();
    let (jobs, mut outs) = until_settled(jobs, id, |j| core::run(pr, j));
    if id == "C06" {
        // whatever only one of the two runs (with and without a debugger) gets
        // wrong is a difference the debugger makes
        let mut by: FxHashMap<String, (Option<usize>, Option<usize>)> = Default::default();
        for (n, j) in jobs.iter().enumerate() {
            let k = j.name.replace("stepd_", "step_").replace("execd_", "exec_").replace("irqd_", "irq_");
            let e = by.entry(k).or_default();
            if j.dbg {
                e.1 = Some(n)
            } else {
                e.0 = Some(n)
            }
        }
        for (_, p) in by {
            if let (Some(a), Some(b)) = p {
                for (x, y) in [(a, b), (b, a)] {
                    let other: FxHashSet<String> = outs[y].diffs.iter().map(|d| d.what.clone()).collect();
                    for d in outs[x].diffs.iter_mut() {
                        if !other.contains(&d.what) && !d.props.contains(&"C07") {
                            d.props.push("C06");
                        }
                    }
                }
            }
        }
    }
    jobs.into_iter().zip(outs).map(|(j, o)| Item { name: j.name, class: format!("{:?}", j.class), o }).collect()
}

/// every core obligation on the concrete and on the runtime-selectable CPU:
/// whatever only one of them gets wrong is a difference between the two
fn selectable_suite(pr: &interp::Prog) -> Vec<Item> {
    let mut jobs: Vec<Job> = vec![];
    for j in core::jobs() {
        if j.class == Class::Limit && j.name.contains("; NOP to") {
            continue;
        }
        let mut k = j.clone();
        k.entry = j.entry.replace("zh_", "zh_any_");
        k.name = j.name.replace("zh_", "zh_any_");
        jobs.push(j);
        jobs.push(k);
    }
    let pairs: Vec<(Job, Job)> = jobs.chunks(2).map(|p| (p[0].clone(), p[1].clone())).collect();
    let t0 = std::time::Instant::now();
    let fails = AtomicUsize::new(0);
    let set = |o: &Outcome| -> FxHashSet<String> { o.diffs.iter().map(|d| d.what.clone()).collect() };
    let outs = par(&pairs, |(j, k)| {
        let n = fails.load(Ordering::Relaxed);
        if n >= 3000 || n > 0 && t0.elapsed().as_secs() > 400 {
            LEFT.fetch_add(1, Ordering::Relaxed);
            return None;
        }
        let (mut x, mut y) = (core::run(pr, j), core::run(pr, k));
        let (a, b) = (set(&x), set(&y));
        if a != b {
            fails.fetch_add(1, Ordering::Relaxed);
        }
        for (o, other) in [(&mut x, &b), (&mut y, &a)] {
            for d in o.diffs.iter_mut() {
                if !other.contains(&d.what) && !d.props.contains(&"C19") {
                    d.props.push("C19");
                }
            }
        }
        y.diffs.extend(x.diffs.into_iter().filter(|d| d.props.contains(&"C19")));
        if y.stuck.is_none() {
            y.stuck = x.stuck;
        }
        Some(y)
    });
    pairs.into_iter().zip(outs).filter_map(|(p, o)| Some(Item { class: format!("{:?}", p.0.class), name: p.1.name, o: o? })).collect()
}

fn suites(id: &str, pr: &interp::Prog, deep: bool) -> Vec<Item> {
    match id {
        // nothing but instructions, with and without the debugger
        "C06" | "C07" => core_suite(pr, id, &|j| j.class != Class::Limit),
        "C19" => {
            let mut v = unit_suite(pr, id);
            v.extend(selectable_suite(pr));
            v
        }
        "C35" => {
            let mut v = unit_suite(pr, id);
            let jobs = core::jobs_own();
            let mut outs = par(&jobs, |j| core::run(pr, j));
            // what the hooks of a flavour decide, and whatever only such a
            // flavour gets wrong
            for (j, o) in jobs.iter().zip(outs.iter_mut()) {
                if !o.diffs.is_empty() {
                    let mut n = j.clone();
                    n.fl = oracle::Fl::Nmos;
                    n.entry = j.entry.replace("_own0", "_nmos").replace("_own1", "_nmos");
                    let same: FxHashSet<String> = core::run(pr, &n).diffs.into_iter().map(|d| d.what).collect();
                    for d in o.diffs.iter_mut() {
                        if !same.contains(&d.what) {
                            d.props.push("C35");
                        }
                    }
                }
                let ld = j.page == 2 && matches!(j.code, 0x57 | 0x5F);
                for d in o.diffs.iter_mut() {
                    if d.props.contains(&"C18") || ld {
                        d.props.push("C35");
                    }
                }
            }
            v.extend(jobs.into_iter().zip(outs).map(|(j, o)| Item { name: j.name, class: format!("{:?}", j.class), o }));
            v
        }
        "C20" | "C23" | "C24" | "C25" | "C26" | "C21" | "C27" | "C28" | "C31" | "C33" | "C34" | "C36" | "C37" | "C38" | "C39" | "C40" => unit_suite(pr, id),
        _ => {
            let mut v = if id == "C22" { unit_suite(pr, id) } else { accessor_suite(pr, id) };
            v.extend(core_suite(pr, id, &|_| true));
            if deep {
                // every two instructions in a row
                let jobs = core::pairs();
                let outs = par(&jobs, |j| core::run(pr, j));
                v.extend(jobs.into_iter().zip(outs).map(|(j, o)| Item { name: j.name, class: "Pair".into(), o }));
            }
            v
        }
    }
}

const IDS: [&str; 40] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28",
    "C29", "C30", "C31", "C32", "C33", "C34", "C35", "C36", "C37", "C38", "C39", "C40",
];

fn unit_suite(pr: &interp::Prog, id: &str) -> Vec<Item> {
    let id: &'static str = IDS.iter().find(|x| **x == id).unwrap();
    let mut jobs = unit::jobs(pr, id);
    if std::env::var("VERIF_TIER").as_deref() != Ok("thorough") {
        jobs.retain(|j| !j.name.starts_with("longer_calm") && !j.name.contains("deep_"));
    }
    // developer option
    if let Some(f) = std::env::args().skip_while(|a| a != "--only").nth(1) {
        jobs.retain(|j| j.name.contains(&f));
    }
    // the longest first
    jobs.sort_by_key(|j| !j.name.starts_with("long"));
    // a hundred failing obligations settle it
    let fails = AtomicUsize::new(0);
    let outs = par(&jobs, |j| {
        if fails.load(Ordering::Relaxed) >= 100 {
            return None;
        }
        let o = unit::run(pr, j, id);
        if o.diffs.iter().any(|d| d.props.contains(&id)) {
            fails.fetch_add(1, Ordering::Relaxed);
        }
        Some(o)
    });
    jobs.into_iter().zip(outs).filter_map(|(j, o)| o.map(|o| (j, o))).map(|(j, o)| Item { class: j.name.split(|c| c == ':' || c == ' ').next().unwrap().to_string(), name: j.name, o }).collect()
}

/// the accessors a property of the instructions speaks of as well: after which
/// of them, and which claims
fn accessor_suite(pr: &interp::Prog, id: &str) -> Vec<Item> {
    let (ops, claim): (&[&str], Option<&str>) = match id {
        "C08" => (&["predicates"], Some("is_irq_allowed")),
        "C10" => (&["predicates"], Some("is_nmi_allowed")),
        "C14" => (&["predicates"], Some("is_after_prefix")),
        "C11" => (&["enable", "disable", "restore_iff1", "iffs", "im"], None),
        "C12" => (&["halt"], None),
        "C13" => (&["inc_r", "add_r", "r", "i", "normalize"], None),
        "C17" => (&["memptr"], None),
        _ => return vec![],
    };
    let id: &'static str = IDS.iter().find(|x| **x == id).unwrap();
    let mut jobs = unit::jobs(pr, "C23");
    jobs.retain(|j| ops.contains(&j.name.rsplit("::").next().unwrap()));
    let mut outs = par(&jobs, |j| unit::run(pr, j, id));
    if let Some(c) = claim {
        for o in outs.iter_mut() {
            o.diffs.retain(|d| d.what.contains(c) || d.what.contains("return normally"));
        }
    }
    jobs.into_iter().zip(outs).map(|(j, o)| Item { class: "Accessor".into(), name: j.name, o }).collect()
}

fn rule(id: &str) -> String {
    let unit = "Abstract interpretation of the MIR of /repo's current sources (forward data flow over each control-flow graph, descending into callees, states joined at merge points, bits as Boolean functions of all unknown inputs). Per obligation a harness entry applies public operations to an arbitrary state and arguments; every equation it states must hold under its reaching condition for all values at once, and every panic must be unreachable. ";
    let claim = match id {
        "C19" => "Rule: after each operation on the runtime-selectable CPU all 23 state components, results, tag and variant equal those of the concrete CPU; and every core obligation through it gives the host calls, state and result it gives on the concrete CPU.",
        "C20" => "Rule: every component after each conversion equals the one before it, the flag history is kept or cleared as documented.",
        "C21" => "Rule: what is written and what is read back agree for every value.",
        "C23" => "Rule: after each accessor exactly the named components of the 23 differ from before and equal the argument; comparison and clone agree with them.",
        "C24" => "Rule: the counter after each cycle, the timestamp returned, the limit test and the default host answers equal the documented ones.",
        "C25" => "Rule: each forwarded method makes exactly one call of the same method, with the same arguments, and returns its answer.",
        "C26" => "Rule: the recorded sequence equals the specification's for the same bytes, and the callback's error ends it.",
        "C27" => "Rule: decode and encode are inverse, conditions agree with flags, constants and builders with the specification's decoder.",
        "C28" => "Rule: no formatting call returns an error or panics.",
        "C33" => "Rule: after each operation every view of the pair (the value, the halves, the halves in place) equals the documented function of the pair before and the arguments; a given operation is called once, with the current value.",
        "C34" => "Rule: the text written names every component in order, each followed by its current value; names, tags and cause texts agree; the writer's refusal is passed on.",
        "C35" => "Rule: with a flavour defined outside the crate, whose hooks are injective functions of their arguments and of unknown inputs, the value put out, MEMPTR, the flags, the polling of the interrupt line and the flavour's state after every instruction equal the ones computed from the hooks called as documented; reset, construction, comparison and conversions go through the flavour's own functions.",
        "C36" => "Rule: the calls the device behind receives (kind, arguments, time, order) and the answers handed back equal those of the documented decoding.",
        "C37" => "Rule: after each of a sequence of unknown operations, the answers, the calls of the attached devices and the interrupt line equal those of a reference of the chip.",
        "C38" => "Rule: counters, output pulses with their times, interrupt line, vectors and forwarded calls equal those of a reference that counts T-state by T-state; lines hand on each edge once, and hints are neither past nor late.",
        "C39" => "Rule: the counter, timestamps, frame lengths and notifications equal the ones computed from the cycle lengths, the limits and the overruns.",
        "C40" => "Rule: bytes, words and opcodes read after any of the enumerated histories equal the contents the map prescribes; accesses outside an allocation or of a released one are faults.",
        "C31" => "Rule: each helper equals the documented mask for every argument.",
        _ => "",
    };
    if claim != "" {
        return format!("{}{}", unit, claim);
    }
    let base = "Abstract interpretation of the MIR of /repo's current sources (forward data flow over each control-flow graph, descending into callees, states joined at merge points, bits as Boolean functions of the unknown start state and host answers). Per obligation (an opcode position or other entry, a CPU flavour, with or without debugger) the abstract host-call sequence and final state are compared with the specification of the Z80 for all values at once. ";
    let own = match id {
        "C01" => "Rule: every panic, failed overflow or bounds assertion and unreachable terminator has an unsatisfiable reaching condition, in the debug and the release profile.",
        "C02" => "Rule: the clock calls, their order, addresses and internal-cycle lengths equal the documented machine cycles on every path.",
        "C03" => "Rule: every memory and I/O call carries the timestamp returned for its own clock call, at the same address, and no timestamp is used twice.",
        "C04" => "Rule: a wait-state call follows exactly the accesses whose answer asks for wait states, with the same number and bus address.",
        "C05" => "Rule: the returned break cause and its token equal the documented one, and no state component depends on the break answer.",
        "C06" => "Rule: host calls, state and result with a debugger equal those without; the debugger is called once per executed instruction.",
        "C07" => "Rule: every field of the debug record equals the documented one.",
        "C08" => "Rule: the interrupt line is probed, and an acknowledge made, exactly under the documented condition.",
        "C09" => "Rule: acknowledge in modes 0 (every vector), 1 and 2 equals the documented sequence.",
        "C10" => "Rule: the NMI entry equals the documented gate and sequence.",
        "C11" => "Rule: IFF1, IFF2, IM, the after-EI latch and RETI notifications equal the documented ones after every instruction.",
        "C12" => "Rule: the HALT flag and the halted step equal the documented ones.",
        "C13" => "Rule: R and IR equal the documented values after every instruction and at every refresh.",
        "C14" => "Rule: with DD or FD pending every observable equals the documented one, and the pending prefix does after every instruction.",
        "C15" => "Rule: registers and data written equal the documented functions of the operands.",
        "C16" => "Rule: all eight flag bits (and F') equal the documented functions.",
        "C17" => "Rule: MEMPTR equals the documented function.",
        "C18" => "Rule: the flag history, SCF/CCF bits 3 and 5 and the flavour-specific values equal the documented ones.",
        "C22" => "Rule: host calls and state of run-until-limit equal those of repeated single steps.",
        "C29" => "Rule: PC, SP and stack writes equal the documented ones.",
        "C30" => "Rule: every observable of the sixteen block instructions equals the documented one.",
        _ => "",
    };
    format!("{}{}", base, own)
}
