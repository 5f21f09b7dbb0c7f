mod api;
mod engine;
mod json;
mod script;

use json::{obj, st, J};
use std::cell::RefCell;
use std::io::{BufRead, Write};
use std::rc::Rc;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

fn panic_message(e: Box<dyn std::any::Any + Send>) -> String {
  if let Some(s) = e.downcast_ref::<&str>() {
    s.to_string()
  } else if let Some(s) = e.downcast_ref::<String>() {
    s.clone()
  } else {
    "unknown panic".to_string()
  }
}

fn run_one(mode: &str, case: &J, max_events: usize) -> J {
  let log = Rc::new(RefCell::new(engine::Log {
    events: Vec::new(),
    max_events,
    source: String::new(),
    outs: Vec::new(),
  }));
  let log2 = log.clone();
  let mode = mode.to_string();
  let case2 = case.clone();
  let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
    match mode.as_str() {
      "engine" => engine::run_case(&case2, log2),
      "api" => api::run_case(&case2),
      "script" => script::run_case(&case2),
      m => panic!("harness: unknown mode {}", m),
    }
  }));
  let mut out = vec![("id", case.get("id").clone())];
  match result {
    Ok(r) => {
      out.push(("t", st("done")));
      out.push(("res", r));
    }
    Err(e) => {
      let message = panic_message(e);
      if message.starts_with("harness:") && message != engine::BUDGET {
        eprintln!("{}", message);
        std::process::exit(3);
      }
      out.push((
        "t",
        st(if message == engine::BUDGET {
          "budget"
        } else {
          "panic"
        }),
      ));
      out.push(("msg", st(&message)));
    }
  }
  let events = std::mem::replace(&mut log.borrow_mut().events, Vec::new());
  out.push(("ev", J::Arr(events)));
  let outs = std::mem::replace(&mut log.borrow_mut().outs, Vec::new());
  out.push(("outs", J::Arr(outs)));
  obj(out)
}

/// harness MODE CASES RESULTS START: one result line per case; a case that does not finish in
/// time, or aborts the process, leaves the result file short, and the driver goes on after it.
fn main() {
  let args: Vec<String> = std::env::args().collect();
  let mode = args[1].clone();
  let cases: Vec<String> = std::io::BufReader::new(std::fs::File::open(&args[2]).unwrap())
    .lines()
    .map(|l| l.unwrap())
    .filter(|l| l.trim() != "")
    .collect();
  let out = std::fs::OpenOptions::new()
    .create(true)
    .append(true)
    .open(&args[3])
    .unwrap();
  let start: usize = args[4].parse().unwrap();
  let limit_s: u64 = args[5].parse().unwrap();
  let max_events: usize = args[6].parse().unwrap();
  std::panic::set_hook(Box::new(|_| {}));

  let out = Arc::new(Mutex::new(std::io::BufWriter::new(out)));
  let current = Arc::new(AtomicUsize::new(start));
  let worker = {
    let out = out.clone();
    let current = current.clone();
    std::thread::Builder::new()
      .stack_size(512 * 1024 * 1024)
      .spawn(move || {
        for i in start..cases.len() {
          let case = json::parse(&cases[i]);
          let result = run_one(&mode, &case, max_events);
          let mut line = String::new();
          json::write(&result, &mut line);
          line.push('\n');
          let mut out = out.lock().unwrap();
          out.write_all(line.as_bytes()).unwrap();
          out.flush().unwrap();
          current.store(i + 1, Ordering::SeqCst);
        }
      })
      .unwrap()
  };

  let mut last = start;
  let mut since = std::time::Instant::now();
  loop {
    if worker.is_finished() {
      if worker.join().is_err() {
        std::process::exit(3);
      }
      std::process::exit(0);
    }
    let now = current.load(Ordering::SeqCst);
    if now != last {
      last = now;
      since = std::time::Instant::now();
    } else if since.elapsed().as_secs() >= limit_s {
      std::process::exit(4);
    }
    std::thread::sleep(std::time::Duration::from_millis(10));
  }
}
