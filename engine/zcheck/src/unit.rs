//! Claims stated by the harness (modules `zu_cNN`), decided for all inputs.
use crate::bdd::*;
use crate::core::{witness, Diff, Outcome};
use crate::interp::*;

pub struct UJob {
    pub name: String,
    pub entry: String,
    pub inputs: Vec<(u32, u16)>,
}

impl Outcome {
    pub fn new() -> Outcome {
        Outcome { diffs: vec![], stuck: None, mnemonic: String::new(), states: 0, pairs: 0, blocks: 0, joins: 0, asserts: 0, events: 0, fns: Default::default(), facts: 0, secs: 0., nodes: 0 }
    }
    pub fn finish(&mut self, m: &M, t0: std::time::Instant, r: std::thread::Result<Result<(), Stuck>>) {
        match r {
            Ok(Ok(())) => {}
            Ok(Err(e)) => self.stuck = Some(e.0),
            Err(p) => {
                self.stuck = Some(if p.is::<Blowup>() { "abstract domain too large".into() } else { format!("internal: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()) })
            }
        }
        self.blocks = m.stats.blocks;
        self.joins = m.stats.joins;
        self.asserts = m.stats.asserts;
        self.events = m.stats.events;
        self.fns = m.stats.fns.clone();
        self.nodes = m.m.size();
        self.secs = t0.elapsed().as_secs_f64();
    }
}

pub fn jobs(pr: &Prog, id: &str) -> Vec<UJob> {
    let pre = format!("zu_{}::", id.to_lowercase());
    let mut v: Vec<UJob> = pr.entries.keys().filter(|e| e.starts_with(&pre)).map(|e| UJob { name: e[pre.len()..].to_string(), entry: e.clone(), inputs: vec![] }).collect();
    v.sort_by(|a, b| a.name.cmp(&b.name));
    if id == "C26" {
        v = v.into_iter().flat_map(|j| if j.name.starts_with("long") { vec![j] } else { chunks(j) }).collect();
    }
    if id == "C21" {
        // the pending prefix decides the shape of what is saved
        v = v
            .into_iter()
            .flat_map(|j| {
                let cpu = ["nmos::", "cmos::", "bm1::"].iter().any(|p| j.name.starts_with(p));
                (0..if cpu { 3u16 } else { 1 }).map(move |px| UJob { name: if cpu { format!("{} prefix {}", j.name, ["none", "DD", "FD"][px as usize]) } else { j.name.clone() }, entry: j.entry.clone(), inputs: if cpu { vec![(23, px)] } else { vec![] } }).collect::<Vec<_>>()
            })
            .collect();
    }
    if id == "C28" {
        v = v.into_iter().flat_map(texts).collect();
    }
    v
}

/// memory chunks for the disassembler: what precedes, one instruction at every
/// opcode position (operands unknown), what follows; cut at every length
fn chunks(j: UJob) -> Vec<UJob> {
    let mut v = vec![];
    let once = j.name.starts_with("once");
    let main = j.name.ends_with("nmos");
    let pres: &[&[u8]] = if once {
        &[&[], &[0xFD, 0xDD]]
    } else if main {
        &[&[], &[0xFD, 0xDD], &[0x76], &[0xED, 0xB0, 0xFB]]
    } else {
        &[&[], &[0x76, 0xDD]]
    };
    let tails: &[&[u8]] = if once { &[&[0, 0, 0]] } else { &[&[0, 0x76, 0], &[0xDD, 0xE5, 0xFD]] };
    for px in 0..3u8 {
        for page in 0..3u8 {
            for code in 0..=255u8 {
                if page == 0 && matches!(code, 0xCB | 0xED | 0xDD | 0xFD) {
                    continue;
                }
                let ins = bytes(px, page, code);
                for (pn, pre) in pres.iter().enumerate() {
                    for (tn, tail) in tails.iter().enumerate() {
                        let mut b: Vec<Option<u8>> = pre.iter().map(|x| Some(*x)).collect();
                        b.extend(ins.iter().cloned());
                        let whole = b.len();
                        b.extend(tail.iter().map(|x| Some(*x)));
                        b.truncate(8);
                        for len in 0..=b.len() {
                            // a cut inside the instruction or after it
                            if len < pre.len() || len < whole && tn > 0 {
                                continue;
                            }
                            if (pn > 0 || !main) && len != b.len() && len + 1 != whole && len != whole {
                                continue;
                            }
                            if once && (len == 0 || len > whole) && code != 0 {
                                continue;
                            }
                            for stop in [255u16, 0, 1] {
                                if stop != 255 && (once || pn > 0 || tn > 0 || len + 1 < b.len()) {
                                    continue;
                                }
                                let mut inputs = vec![(210, len as u16), (213, stop)];
                                for k in 0..8 {
                                    match b.get(k) {
                                        Some(Some(x)) => inputs.push((200 + k as u32, *x as u16)),
                                        Some(None) => {}
                                        None => inputs.push((200 + k as u32, 0x11)),
                                    }
                                }
                                let txt: Vec<String> = b.iter().map(|x| x.map(|x| format!("{:02X}", x)).unwrap_or("..".into())).collect();
                                v.push(UJob { name: format!("{} [{}] length {}{}", j.name, txt.join(" "), len, if stop == 255 { String::new() } else { format!(" callback fails at {}", stop) }), entry: j.entry.clone(), inputs });
                            }
                        }
                    }
                }
            }
        }
    }
    v
}

/// the bytes of an instruction; None: operand
fn bytes(px: u8, page: u8, code: u8) -> Vec<Option<u8>> {
    let mut ins: Vec<Option<u8>> = vec![];
    if px > 0 {
        ins.push(Some([0, 0xDD, 0xFD][px as usize]));
    }
    match page {
        0 => {
            ins.push(Some(code));
            let ix = px > 0 && (matches!(code, 0x34..=0x36) || code >= 0x40 && code < 0xC0 && code != 0x76 && (code & 7 == 6 || code < 0x80 && code & 0x38 == 0x30));
            let imm = match code {
                0x01 | 0x11 | 0x21 | 0x31 | 0x22 | 0x2A | 0x32 | 0x3A | 0xC3 | 0xCD => 2,
                0x10 | 0x18 | 0x20 | 0x28 | 0x30 | 0x38 | 0xD3 | 0xDB => 1,
                c if c < 0x40 && c & 7 == 6 || c >= 0xC0 && c & 7 == 6 => 1,
                c if c >= 0xC0 && matches!(c & 7, 2 | 4) && c & 0x38 != 0x38 || matches!(c, 0xFA | 0xFC) => 2,
                _ => 0,
            };
            let imm = if matches!(code, 0xD3 | 0xDB) { 1 } else if matches!(code, 0xE3 | 0xEB | 0xF3 | 0xFB) { 0 } else { imm };
            for _ in 0..imm + ix as usize {
                ins.push(None);
            }
        }
        1 if px > 0 => ins.extend([Some(0xCB), None, Some(code)]),
        1 => ins.extend([Some(0xCB), Some(code)]),
        _ => {
            ins.extend([Some(0xED), Some(code)]);
            if code & 0xC7 == 0x43 {
                ins.extend([None, None]);
            }
        }
    }
    ins
}

/// text of the record of every opcode position
fn texts(j: UJob) -> Vec<UJob> {
    let mut v = vec![];
    for px in 0..3u8 {
        for page in 0..3u8 {
            for code in 0..=255u8 {
                if page == 0 && matches!(code, 0xCB | 0xED | 0xDD | 0xFD) || px > 0 && page == 2 {
                    continue;
                }
                let mut b = bytes(px, page, code);
                let n = b.len();
                b.resize(8, Some(0));
                let txt: Vec<String> = b[..n].iter().map(|x| x.map(|x| format!("{:02X}", x)).unwrap_or("..".into())).collect();
                let mut inputs = vec![(210, n as u16)];
                for k in 0..8 {
                    if let Some(x) = b[k] {
                        inputs.push((200 + k as u32, x as u16));
                    }
                }
                let rooms: &[u16] = if j.name.ends_with("refused") { &[0, 3, 5, 8, 11, 20, 26, 28, 31, 40] } else { &[0] };
                for room in rooms {
                    let mut i = inputs.clone();
                    i.push((213, *room));
                    v.push(UJob { name: format!("{} [{}]{}", j.name, txt.join(" "), if *room > 0 { format!(" room {}", room) } else { String::new() }), entry: j.entry.clone(), inputs: i });
                }
            }
        }
    }
    v
}

pub fn run(pr: &Prog, j: &UJob, id: &'static str) -> Outcome {
    let t0 = std::time::Instant::now();
    let mut cfg = Cfg::default();
    for (i, v) in &j.inputs {
        cfg.inputs.insert(*i, *v);
    }
    let mut m = M::new(pr, cfg);
    if j.name.starts_with("long") {
        m.budget = 100_000_000;
    }
    let mut out = Outcome::new();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> Result<(), Stuck> {
        let sts = m.run(&j.entry)?;
        out.states = sts.len();
        let mut cover = F;
        for s in &sts {
            cover = m.m.or(cover, s.g);
        }
        let faults = m.faults.clone();
        for f in &faults {
            if f.g != F {
                out.diffs.push(Diff { props: vec![id, "C01"], what: format!("does not return normally: {}", f.msg), loc: f.loc.clone(), witness: witness(&m.m, f.g) });
            }
        }
        if cover != T && faults.is_empty() {
            out.diffs.push(Diff { props: vec![id], what: "no normal return for some input".into(), loc: String::new(), witness: witness(&m.m, cover ^ 1) });
        }
        if m.claims.is_empty() && faults.is_empty() {
            return Err(Stuck("no claim was reached".into()));
        }
        let claims = std::mem::take(&mut m.claims);
        out.facts = claims.len() as u64;
        for c in &claims {
            if c.fail != F {
                out.diffs.push(Diff { props: vec![id], what: c.name.clone(), loc: c.loc.clone(), witness: witness(&m.m, c.fail) });
            }
        }
        Ok(())
    }));
    if !matches!(r, Ok(Ok(()))) {
        // what was established before the analysis gave up
        for f in std::mem::take(&mut m.faults) {
            if f.g != F {
                out.diffs.push(Diff { props: vec![id, "C01"], what: format!("does not return normally: {}", f.msg), loc: f.loc, witness: witness(&m.m, f.g) });
            }
        }
        for c in std::mem::take(&mut m.claims) {
            if c.fail != F {
                out.diffs.push(Diff { props: vec![id], what: c.name, loc: c.loc, witness: witness(&m.m, c.fail) });
            }
        }
    }
    out.finish(&m, t0, r);
    out
}
