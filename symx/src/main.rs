//! symx: symbolic execution of LLVM IR with z3.
//!   symx prep IN.ll OUT.ll            replace the bodies of the modelled functions by declarations
//!   symx run MOD.ll ENTRY [options]   explore ENTRY, write a JSON report
mod exec;
mod expr;
mod ir;
mod solver;
use exec::*;
use std::collections::BTreeMap;
use std::fmt::Write as _;
use std::time::{Duration, Instant};

extern "C" {
  fn fork() -> i32;
  fn waitpid(pid: i32, status: *mut i32, opt: i32) -> i32;
  fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
  fn _exit(c: i32) -> !;
}

fn prep(inp: &str, out: &str) {
  let src = std::fs::read_to_string(inp).unwrap();
  let mut o = String::with_capacity(src.len());
  let mut skip = false;
  let mut done: Vec<String> = vec![];
  for l in src.lines() {
    if skip {
      if l == "}" {
        skip = false;
      }
      continue;
    }
    if let Some(rest) = l.strip_prefix("define ") {
      let at = rest.find('@').unwrap();
      let r = &rest[at + 1..];
      let name: &str = if let Some(q) = r.strip_prefix('"') { &q[..q.find('"').unwrap()] } else { &r[..r.find('(').unwrap()] };
      let modelled = matches!(
        stub_for(name),
        Stub::HashOne(_) | Stub::RandomStateNew | Stub::Panic | Stub::PanicMisc | Stub::FormatInner | Stub::Uuid | Stub::MutexLock
      ) && is_model_target(name);
      if modelled {
        // keep the signature
        let open = rest[at..].find('(').unwrap() + at;
        let mut d = 0;
        let mut end = open;
        for (i, c) in rest[open..].char_indices() {
          match c {
            '(' => d += 1,
            ')' => {
              d -= 1;
              if d == 0 {
                end = open + i;
                break;
              }
            },
            _ => {},
          }
        }
        let mut head = rest[..at].to_string();
        for w in ["internal ", "private ", "hidden ", "linkonce_odr ", "weak_odr ", "dso_local ", "local_unnamed_addr ", "unnamed_addr "] {
          head = head.replace(w, "");
        }
        let _ = writeln!(o, "declare {}{}", head, &rest[at..=end]);
        done.push(name.to_string());
        skip = true;
        continue;
      }
    }
    o.push_str(l);
    o.push('\n');
  }
  std::fs::write(out, o).unwrap();
  for n in done {
    println!("{}", n);
  }
}

/// only these definitions are cut out
fn is_model_target(n: &str) -> bool {
  (n.contains("11BuildHasher8hash_one") && n.contains("11RandomState"))
    || (n.contains("4hash6random") && n.contains("11RandomState3new") && n.starts_with("_RNvM"))
    || n.ends_with("9panicking9panic_fmt")
    || n.contains("9panicking14panic_nounwind")
    || n.contains("9panicking18panic_nounwind_fmt")
    || n.contains("9panicking26panic_nounwind_nobacktrace")
    || n.contains("9panicking11begin_panic") && n.starts_with("_RINv")
    || n.contains("3std9panicking20rust_panic_with_hook")
    || n.contains("5alloc18handle_alloc_error")
    || n.contains("3fmt6format12format_inner")
    || n.contains("4Uuid6new_v4")
    || n.contains("5mutex5futex")
}

fn js(s: &str) -> String {
  let mut o = String::from("\"");
  for c in s.chars() {
    match c {
      '"' => o.push_str("\\\""),
      '\\' => o.push_str("\\\\"),
      c if (c as u32) < 32 => {
        let _ = write!(o, "\\u{:04x}", c as u32);
      },
      c => o.push(c),
    }
  }
  o.push('"');
  o
}
fn jlist(v: &[u64]) -> String {
  format!("[{}]", v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(","))
}
fn jmap<K: std::fmt::Display>(m: &BTreeMap<K, u64>) -> String {
  format!("{{{}}}", m.iter().map(|(k, v)| format!("{}:{}", js(&k.to_string()), v)).collect::<Vec<_>>().join(","))
}

fn report(ex: &Exec, complete: bool, wall: f64) -> String {
  let r = &ex.r;
  let s = &ex.solver.st;
  let mut o = String::from("{\n");
  let _ = writeln!(
    o,
    "\"complete\":{},\"wall_s\":{:.3},\"paths\":{},\"infeasible\":{},\"forks\":{},\"bounded\":{},\"instrs\":{},\"asserts\":{},\"assert_queries\":{},\"max_pc\":{},",
    complete, wall, r.paths, r.infeasible, r.forks, r.bounded, r.instrs, r.asserts, r.assert_queries, r.max_depth
  );
  let _ = writeln!(
    o,
    "\"queries\":{},\"cached\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"solver_us\":{},",
    s.queries, s.cached, s.sat, s.unsat, s.unknown, s.time_us
  );
  let _ = writeln!(o, "\"assert_ids\":{},\"reach\":{},\"panics\":{},\"errors\":{},\"vcount\":{},", jmap(&r.assert_ids), jmap(&r.reach), jmap(&r.panics), jmap(&r.errors), jmap(&r.vcount));
  let fs: Vec<String> = (0..ex.m.funcs.len()).filter(|i| r.touched[*i]).map(|i| js(&ex.m.funcs[i].name)).collect();
  let _ = writeln!(o, "\"functions\":[{}],", fs.join(","));
  let sm: Vec<String> = r.samples.iter().map(|v| jlist(v)).collect();
  let _ = writeln!(o, "\"samples\":[{}],", sm.join(","));
  let vs: Vec<String> = r
    .violations
    .iter()
    .map(|v| format!("{{\"kind\":{},\"id\":{},\"what\":{},\"inputs\":{},\"sched\":{}}}", js(&v.kind), v.id, js(&v.what), jlist(&v.inputs), jlist(&v.sched)))
    .collect();
  let _ = writeln!(o, "\"violations\":[{}]\n}}", vs.join(",\n"));
  o
}

fn main() {
  let args: Vec<String> = std::env::args().collect();
  if args.len() >= 4 && args[1] == "prep" {
    prep(&args[2], &args[3]);
    return;
  }
  if args.len() < 4 || args[1] != "run" {
    eprintln!("usage: symx prep IN OUT | symx run MOD.ll ENTRY --out DIR [--time S] [--workers N] [--limit I] [--preempt N] [--frontier N] [--dump DIR]");
    std::process::exit(2);
  }
  let mut outdir = String::from(".");
  let mut time = 600u64;
  let mut workers = 8usize;
  let mut limit = 40_000_000u64;
  let mut frontier = 1024usize;
  let mut maxvio = 0u64;
  let mut preempt = u32::MAX;
  let mut dump: Option<String> = None;
  let mut i = 4;
  while i + 1 < args.len() {
    let v = args[i + 1].clone();
    match args[i].as_str() {
      "--out" => outdir = v,
      "--time" => time = v.parse().unwrap(),
      "--workers" => workers = v.parse().unwrap(),
      "--limit" => limit = v.parse().unwrap(),
      "--maxvio" => maxvio = v.parse().unwrap(),
      "--preempt" => preempt = v.parse().unwrap(),
      "--frontier" => frontier = v.parse().unwrap(),
      "--dump" => dump = Some(v),
      x => panic!("option {}", x),
    }
    i += 2;
  }
  let t0 = Instant::now();
  let src = std::fs::read_to_string(&args[2]).unwrap();
  let m: &'static ir::Module = Box::leak(Box::new(ir::parse_module(&src)));
  drop(src);
  let mut ex = Exec::new(m);
  ex.limit = limit;
  ex.max_preempt = preempt;
  ex.deadline = Some(t0 + Duration::from_secs(time));
  if let Some(d) = dump {
    let _ = std::fs::create_dir_all(&d);
    ex.solver.dump = Some((d.into(), 97));
  }
  let st = ex.initial(&args[3]);
  // breadth first until the frontier is wide enough
  let mut q: std::collections::VecDeque<State> = std::collections::VecDeque::new();
  q.push_back(st);
  ex.bfs = workers > 1;
  while let Some(mut s) = q.pop_front() {
    let r = ex.run(&mut s);
    for p in ex.pending.drain(..) {
      q.push_back(p);
    }
    ex.forked = false;
    match r {
      Stop::Yield => q.push_back(s),
      r => ex.finish(&s, r),
    }
    if maxvio > 0 && ex.r.vcount.values().sum::<u64>() >= maxvio {
      ex.timed_out = true;
    }
    if ex.timed_out || q.len() >= frontier {
      break;
    }
  }
  ex.bfs = false;
  let mut states: Vec<Option<State>> = q.into_iter().map(Some).collect();
  let complete0 = states.is_empty() && !ex.timed_out;
  let base = report(&ex, true, t0.elapsed().as_secs_f64());
  std::fs::write(format!("{}/part0.json", outdir), base).unwrap();
  let mut ok = true;
  if !complete0 {
    if ex.timed_out {
      ok = false;
    } else {
      let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
      let counter = unsafe { &*(shared as *const std::sync::atomic::AtomicUsize) };
      let vios = unsafe { &*((shared as *const std::sync::atomic::AtomicUsize).add(8)) };
      let mut pids = vec![];
      let nw = workers.min(states.len()).max(1);
      for w in 0..nw {
        let pid = unsafe { fork() };
        if pid == 0 {
          // statistics are per process
          let touched = vec![false; m.funcs.len()];
          ex.r = Results { touched, ..Default::default() };
          ex.solver.st = Default::default();
          let mut complete = true;
          let mut mine = 0;
          loop {
            let k = counter.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
            if k >= states.len() {
              break;
            }
            let mut stack = vec![states[k].take().unwrap()];
            while let Some(mut s) = stack.pop() {
              let r = ex.run(&mut s);
              stack.append(&mut ex.pending);
              ex.forked = false;
              ex.finish(&s, r);
              let v: u64 = ex.r.vcount.values().sum();
              let all = vios.fetch_add((v - mine) as usize, std::sync::atomic::Ordering::SeqCst) as u64 + v - mine;
              mine = v;
              if Instant::now() > ex.deadline.unwrap() || (maxvio > 0 && all >= maxvio) {
                ex.timed_out = !stack.is_empty() || counter.load(std::sync::atomic::Ordering::SeqCst) < states.len();
              }
              if ex.timed_out {
                break;
              }
            }
            if ex.timed_out {
              complete = false;
              break;
            }
          }
          let rep = report(&ex, complete, t0.elapsed().as_secs_f64());
          let okw = std::fs::write(format!("{}/part{}.json", outdir, w + 1), rep).is_ok();
          unsafe { _exit(if okw { 0 } else { 1 }) };
        }
        pids.push(pid);
      }
      for p in pids {
        let mut stt = 0;
        unsafe { waitpid(p, &mut stt, 0) };
        if stt != 0 {
          ok = false;
        }
      }
      println!("workers={}", nw);
    }
  } else {
    println!("workers=0");
  }
  if !ok {
    std::process::exit(3);
  }
}
