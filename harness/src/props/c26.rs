//! Results depend on the arguments alone: not on what the process did before, not on what other
//! threads do, not on the environment of the process.
use super::c07::seed;
use super::c22::{exec, name, op, said_doc, Op};
use super::args::*;
use super::c09::hopeless;
use super::common::*;
use super::docs::*;
use crate::engine::*;
use crate::gen::*;
use crate::model::cesr::*;
use crate::model::curves::*;
use crate::types::*;
use crate::ensure_eq;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::Value as J;
use std::cell::RefCell;
use std::io::{BufRead, BufReader, Write};
use std::process::ChildStdout;
use std::sync::Barrier;
use std::result::Result;

#[derive(Debug, Clone, Serialize, Deserialize)]
struct Group {
    ops: Vec<Op>,
    env: u8,
}
extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}
/// `harness --exec-ops`: each line of the standard input is a call, made in a process of its own
/// forked off one that never calls the library itself
pub fn child() {
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap();
        match unsafe { fork() } {
            0 => {
                let r = std::thread::Builder::new().stack_size(16 << 20).spawn(move || serde_json::from_str(&l).map(|op| result(&op))).unwrap().join();
                let done = match r {
                    Ok(Ok(r)) => {
                        let mut o = std::io::stdout().lock();
                        writeln!(o, "{}", serde_json::to_string(&r).unwrap()).and_then(|_| o.flush()).is_ok()
                    }
                    _ => false,
                };
                unsafe { _exit(if done { 0 } else { 9 }) }
            }
            pid => {
                let mut s = 0;
                unsafe { waitpid(pid, &mut s, 0) };
                if s != 0 || pid < 0 {
                    println!("ended with status {s:#x}");
                }
            }
        }
    }
}
fn result(op: &Op) -> Vec<String> {
    no_panic(|| exec(op).0).unwrap_or_else(|m| vec![m])
}
struct Server(std::process::Child, BufReader<ChildStdout>);
impl Drop for Server {
    fn drop(&mut self) {
        drop(self.0.stdin.take());
        let _ = self.0.wait();
    }
}
fn start(env: usize) -> std::io::Result<Server> {
    let mut c = std::process::Command::new(std::env::current_exe()?);
    c.arg("--exec-ops").stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null());
    // an environment the parent does not have
    let (tz, lang, dir) = [("UTC", "C", "/"), ("Asia/Kathmandu", "tr_TR.UTF-8", "/tmp"), ("EST5EDT", "de_DE.UTF-8", "/usr"), ("<-11>11", "ja_JP.EUC-JP", "/proc")][env];
    c.env_clear().env("TZ", tz).env("LANG", lang).env("LC_ALL", lang).env("HOME", "/nonexistent").env("RUST_BACKTRACE", "0").current_dir(dir);
    let mut p = c.spawn()?;
    let out = BufReader::new(p.stdout.take().unwrap());
    Ok(Server(p, out))
}
thread_local! {
    static SERVERS: RefCell<[Option<Server>; 4]> = const { RefCell::new([None, None, None, None]) };
}
/// what a call gives alone in a process; none when the process did not survive it, which C22 is about
fn alone(op: &Op, env: u8) -> Result<Option<Vec<String>>, String> {
    SERVERS.with(|s| {
        let s = &mut s.borrow_mut()[env as usize % 4];
        if s.is_none() {
            *s = Some(start(env as usize % 4).map_err(|e| e.to_string())?);
        }
        let x = s.as_mut().unwrap();
        let mut line = serde_json::to_string(op).unwrap();
        line.push('\n');
        let mut t = String::new();
        let r = x.0.stdin.as_mut().unwrap().write_all(line.as_bytes()).and_then(|_| x.1.read_line(&mut t));
        if r.is_err() || t.is_empty() {
            *s = None;
        }
        Ok(serde_json::from_str(&t).ok())
    })
}
fn same(what: &str, op: &Op, got: &[String], want: &[String]) -> Result<(), String> {
    for (a, b) in got.iter().zip(want) {
        ensure_eq!(a, b, "{}: {what} it is not what it is alone in a process", name(op));
    }
    ensure_eq!(got.len(), want.len(), "{}: {what} results", name(op));
    Ok(())
}
/// the calls as the other process reads them
fn handed_on(c: &Group) -> Option<Group> {
    let c: Group = serde_json::from_str(&serde_json::to_string(c).ok()?).ok()?;
    let text = serde_json::to_string(&c).ok()?;
    let again: Group = serde_json::from_str(&text).ok()?;
    (serde_json::to_string(&again).ok()? == text).then_some(c)
}
fn group(c: &Group) -> R {
    let c = &match handed_on(c) {
        Some(c) => c,
        None => return okc(false, vec!["a number that does not survive being handed on"]),
    };
    let want: Option<Vec<Vec<String>>> = c.ops.iter().map(|o| alone(o, c.env)).collect::<Result<_, _>>()?;
    let Some(want) = want else { return okc(false, vec!["a call no process survives"]) };
    for (o, w) in c.ops.iter().zip(&want) {
        same("after other calls", o, &result(o), w)?;
    }
    for (o, w) in c.ops.iter().zip(&want).rev() {
        same("after its neighbours, in reverse,", o, &result(o), w)?;
    }
    let threads = 2.max(c.ops.len().min(3));
    std::thread::scope(|s| {
        let want = &want;
        let hs: Vec<_> = (0..threads)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        for i in 0..c.ops.len() {
                            let i = (i + t) % c.ops.len();
                            same("beside other threads", &c.ops[i], &result(&c.ops[i]), &want[i])?;
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<()>, String>>()
    })?;
    let differ = want.iter().any(|w| w != &want[0]);
    let good = want.iter().any(|w| w.iter().any(|l| !l.contains(": error ")));
    okc(differ, vec![format!("{} {}{}", name(&c.ops[0]), if good { "ok" } else { "errors" }, if differ { "" } else { ", all the same" })])
}
/// many threads making the same few calls over and over, all starting together
fn hammer(c: &Group) -> R {
    let c = &match handed_on(c) {
        Some(c) => c,
        None => return okc(false, vec!["a number that does not survive being handed on"]),
    };
    let want: Option<Vec<Vec<String>>> = c.ops.iter().map(|o| alone(o, c.env)).collect::<Result<_, _>>()?;
    let Some(want) = want else { return okc(false, vec!["a call no process survives"]) };
    let ready = Barrier::new(4);
    std::thread::scope(|s| {
        let (want, ready) = (&want, &ready);
        let hs: Vec<_> = (0..4)
            .map(|t| {
                std::thread::Builder::new()
                    .stack_size(16 << 20)
                    .spawn_scoped(s, move || {
                        ready.wait();
                        for round in 0..40 {
                            for i in 0..c.ops.len() {
                                let i = (i + t + round / 7) % c.ops.len();
                                same("beside other threads", &c.ops[i], &result(&c.ops[i]), &want[i])?;
                            }
                        }
                        Ok(())
                    })
                    .unwrap()
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect::<Result<Vec<()>, String>>()
    })?;
    let differ = want.iter().any(|w| w != &want[0]);
    okc(differ, vec![format!("{}{}", name(&c.ops[0]), if differ { "" } else { ", all the same" })])
}
// ---- neighbours ------------------------------------------------------------------------------------
/// an operation whose arguments differ from another's in one detail
fn near(op: &Op, at: usize, how: u8, arg: usize) -> Option<Op> {
    fn count(j: &J) -> usize {
        1 + match j {
            J::Array(a) => a.iter().map(count).sum(),
            J::Object(m) => m.values().map(count).sum(),
            _ => 0,
        }
    }
    // `at` counts down to the node
    fn node<'a>(j: &'a mut J, at: &mut usize) -> Option<&'a mut J> {
        if *at == 0 {
            return Some(j);
        }
        *at -= 1;
        match j {
            J::Array(a) => a.iter_mut().find_map(|x| node(x, at)),
            J::Object(m) => m.values_mut().find_map(|x| node(x, at)),
            _ => None,
        }
    }
    let mut j = serde_json::to_value(op).ok()?;
    // the outermost node is the operation itself
    let n = count(&j) - 1;
    let at = 1 + at % n;
    let x = node(&mut j, &mut at.clone())?;
    const WORDS: [&str; 30] = ["A", "J", "Q", "E", "F", "G", "H", "I", "0D", "0E", "0F", "0G", "B", "D", "1AAA", "1AAB", "1AAI", "1AAJ", "M", "0H", "N", "0B", "min", "low", "JSON", "d", "i", "-A", "-V", ""];
    let mut tries = vec![];
    match x {
        J::Null => tries.extend([J::from(WORDS[arg % WORDS.len()]), J::from("00"), J::from(arg % 4), J::from(arg % 2 == 0), serde_json::json!([]), serde_json::json!({})]),
        J::Bool(b) => tries.push(J::from(!*b)),
        J::Number(k) => match k.as_i64() {
            Some(v) => tries.extend([J::from(if how % 2 == 0 { v.wrapping_add(1) } else { v.wrapping_sub(1) }), J::from(v ^ 1)]),
            None => tries.push(J::from(arg)),
        },
        J::String(t) => {
            let mut c: Vec<char> = t.chars().collect();
            let n = c.len();
            let i = arg % n.max(1);
            match how % 6 {
                0 | 1 if n > 0 => c[i] = if c[i] == 'f' { '0' } else { char::from_u32(c[i] as u32 + 1).unwrap_or('a') },
                2 if n > 0 => c.truncate(n - 1 - arg % n.min(4)),
                3 => c.extend(['4', '1'][..1 + arg % 2].iter()),
                4 if n > 1 => c.swap(i, (i + 1) % n),
                5 => c = WORDS[arg % WORDS.len()].chars().collect(),
                _ => c = vec![],
            }
            tries.push(J::from(c.into_iter().collect::<String>()));
            if how % 16 == 15 {
                tries.insert(0, J::Null);
            }
        }
        J::Array(a) => {
            let n = a.len();
            let mut b = a.clone();
            match how % 3 {
                _ if n == 0 => b.push(J::from(arg % 3)),
                0 => b.swap(arg % n, (arg + 1) % n),
                1 => {
                    b.remove(arg % n);
                }
                _ => b.push(a[arg % n].clone()),
            }
            tries.push(J::Array(b));
        }
        J::Object(m) => {
            let keys: Vec<String> = m.keys().cloned().collect();
            let mut b = m.clone();
            if !keys.is_empty() {
                let k = &keys[arg % keys.len()];
                let v = b.shift_remove(k);
                if how % 2 == 0 {
                    b.insert(k.clone(), v.unwrap());
                }
            } else {
                b.insert("d".into(), J::from(""));
            }
            tries.push(J::Object(b));
        }
    }
    // the first of them that the argument's type takes
    for t in tries {
        *node(&mut j, &mut at.clone())? = t;
        if let Ok(op) = serde_json::from_value::<Op>(j.clone()) {
            return Some(cheap(op));
        }
    }
    None
}
/// keeps the cost of stretching and the size of batches down
fn cheap(op: Op) -> Op {
    match op {
        Op::Salt { salt, tier, over, size, path, code, count, start, .. } => {
            let big = hopeless(&code, start);
            Op::Salt { salt, tier, over, temp: Some(true), size: size.filter(|n| *n < 1000 || *n > u32::MAX as usize), path, code, count: count.map(|n| if big { n } else { n.min(3) }), start }
        }
        o => o,
    }
}
/// a signature that holds, under any suite, and what it is over
fn holds() -> BoxedStrategy<Op> {
    (any::<u8>(), seed(), bytes(0..=60), any::<bool>())
        .prop_filter_map("no key", |(s, seed, ser, t)| {
            let suite = Suite::of(s);
            suite.seed_ok(&seed.0).then(|| Op::Verify { key: B(suite.public(&seed.0)), code: suite.key_code(t).into(), sig: B(suite.sign(&seed.0, &ser.0)), ser })
        })
        .boxed()
}
/// calls most of which succeed
fn good() -> BoxedStrategy<Op> {
    let ev = prop_oneof![
        super::c20::event_doc().prop_map(|m| (false, J::Object(insert_at(&m, 0, "v", "KERI10JSON000000_".into())))),
        super::c20::cred_doc().prop_map(|m| (true, J::Object(insert_at(&m, 0, "v", "ACDC10JSON000000_".into())))),
    ];
    let event = (ev, any::<bool>()).prop_flat_map(|((acdc, d), pretty)| {
        said_doc(Just(d).boxed()).prop_map(move |d| {
            let m = d.as_object().cloned().unwrap_or_default();
            let raw = size_doc(&m).map(|x| x.1).unwrap_or_default();
            Op::Event { acdc, doc: d, code: None, kind: None, raw: B(raw.into_bytes()), pretty: pretty.then_some(100) }
        })
    });
    let prefix = super::c12::coded().prop_map(|(d, code)| {
        let text = super::c12::derive_model(&d, code.as_deref(), None).unwrap_or_default();
        let mut other = d.clone();
        if other.contains_key("i") {
            other.insert("i".into(), J::from(text.clone()));
        }
        Op::Prefix { doc: J::Object(d), allows: None, code, text, prefixed: Some(true), other: J::Object(other) }
    });
    let codes = || proptest::sample::select(super::c10::CODES.to_vec());
    let said = (fields(4), codes(), text()).prop_map(|(m, c, t)| {
        let m = insert_at(&m, 1, "d", "".into());
        let other = insert_at(&m, 0, "x", t.into());
        let other = said_model(&other, c, "d", &[]).map(|x| x.1).unwrap_or(other);
        Op::Said { doc: J::Object(m), code: Some(c.into()), kind: None, label: None, ignore: None, prefixed: Some(true), versioned: None, other: J::Object(other) }
    });
    let digest = (codes(), bytes(0..=60)).prop_map(|(c, ser)| {
        let raw = super::c10::digest(c, &ser.0).unwrap_or_default();
        let dig = qualify(c, &raw).into_bytes();
        Op::Digest { made: Args { code: Some(c.into()), raw: Some(B(raw)), ..Args::default() }, ser, dig: Some(B(dig)), other: None }
    });
    let threshold = (super::c13::well_formed(), vec(0u32..6, 0..6)).prop_map(|(e, indices)| Op::Threshold { thold: None, limen: None, sith: Some(e), indices });
    let made = small_mprim().prop_map(|p| {
        let ty = TYPES.iter().position(|t| t.codes.contains(&p.code.as_str())).unwrap_or(TYPES.len());
        Op::Make(ty, Args { qb64: Some(p.encode().0), ..Args::default() })
    });
    prop_oneof![holds(), event, prefix, said, digest, threshold, made].boxed()
}
fn groups() -> BoxedStrategy<Group> {
    (prop_oneof![2 => op(), 1 => good()], vec((any::<usize>(), any::<u8>(), any::<usize>()), 1..4), any::<u8>())
        .prop_map(|(op, ms, env)| {
            let mut ops = vec![op];
            for (at, how, arg) in ms {
                let of = &ops[arg / 7 % ops.len()];
                if let Some(o) = near(of, at, how, arg) {
                    ops.push(o);
                }
            }
            Group { ops, env }
        })
        .boxed()
}
/// the same salt stretched at tiers that cost what they cost
fn tiers(env: &Env) -> impl Iterator<Item = Group> {
    let n = if env.thorough { 12u8 } else { 4 };
    (0..n).map(|k| {
        let t = |tier: &str, over: Option<&str>, temp: bool| Op::Salt {
            salt: B(vec![k + 1; 16]),
            tier: Some(tier.into()),
            over: over.map(String::from),
            temp: Some(temp),
            size: Some([32, 48, 64][k as usize % 3]),
            path: Some("p".into()),
            code: Some("A".into()),
            count: Some(0),
            start: None,
        };
        let (a, b) = [("low", "med"), ("low", "min"), ("med", "low"), ("min", "low")][k as usize % 4];
        Group { ops: vec![t(a, None, false), t(b, None, false), t(a, Some(b), false), t(a, None, true)], env: k }
    })
}
pub fn check() -> Check {
    Check {
        id: "C26",
        rule: "a group of calls that differ in one detail each and of which at least two give different results when each is alone in a process of its own",
        assumptions: vec!["secrets drawn afresh, the present time and randomised signatures are compared by what they are, not by their value"],
        subs: vec![
            prop("neighbouring calls", 12000, 400000, groups, group),
            prop("neighbouring calls, all at once", 1600, 60000, groups, hammer),
            each("neighbouring tiers", tiers, group),
        ],
        probes: vec![],
    }
}
