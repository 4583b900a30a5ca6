//! Conformance harness: reads programs (one JSON object per line), executes them against
//! cam-geom, and writes one line per program with the calls and their results.
mod bun;
mod cust;
mod mat;
mod sc;
#[cfg(feature = "serde")]
mod ser;
mod vm;
mod wide;

use sc::Sc;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct Now {
    prog: Value,
    events: Vec<Value>,
    ins: Value,
    since: Option<Instant>,
}

fn run<R: Sc>(prog: &Value, now: &Arc<Mutex<Now>>) -> Vec<Value> {
    let mut vm = vm::Vm::<R> { regs: vec![], desk: None, steps: 0 };
    // number the calls, to be able to compare several configurations of the crate
    let numbered = prog.get("numbered").is_some();
    let mut k = 0;
    wide::start(prog["wide"].as_u64());
    {
        let mut n = now.lock().unwrap();
        n.prog = prog.clone();
        n.events = vec![];
    }
    for ins in prog["code"].as_array().expect("code") {
        {
            let mut n = now.lock().unwrap();
            n.ins = ins.clone();
            n.since = Some(Instant::now());
        }
        let ev = vm.step(ins);
        let mut n = now.lock().unwrap();
        n.since = None;
        k += 1;
        if let Some(mut ev) = ev {
            if numbered {
                ev["n"] = json!(k);
            }
            n.events.push(ev);
        }
    }
    std::mem::take(&mut now.lock().unwrap().events)
}

fn line(prog: &Value, mut events: Vec<Value>) -> String {
    wide::finish(&mut events);
    let mut o = prog.as_object().unwrap().clone();
    o.remove("code");
    o.remove("wide");
    o.insert("ev".into(), Value::Array(events));
    Value::Object(o).to_string()
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    let (inp, outp) = (&args[1], &args[2]);
    let limit: u64 = args.get(3).map(|s| s.parse().unwrap()).unwrap_or(30);
    let out = Arc::new(Mutex::new(std::io::BufWriter::new(std::fs::File::create(outp).expect("output"))));
    let now = Arc::new(Mutex::new(Now { prog: json!({}), events: vec![], ins: json!({}), since: None }));
    {
        // A call that does not return is recorded as such and ends the run.
        let (now, out) = (now.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            let mut n = now.lock().unwrap();
            if n.since.map(|t| t.elapsed() > Duration::from_secs(limit)).unwrap_or(false) {
                let mut ev = n.ins.as_object().unwrap().clone();
                ev.insert("r".into(), json!({"panic": "the call does not return"}));
                ev.insert("hang".into(), json!(true));
                let mut events = std::mem::take(&mut n.events);
                events.push(Value::Object(ev));
                let mut o = out.lock().unwrap();
                writeln!(o, "{}", line(&n.prog, events)).unwrap();
                o.flush().unwrap();
                std::process::exit(0);
            }
        });
    }
    let f = std::io::BufReader::new(std::fs::File::open(inp).expect("input"));
    for l in f.lines() {
        let l = l.unwrap();
        if l.trim().is_empty() {
            continue;
        }
        let prog: Value = serde_json::from_str(&l).expect("program");
        let events = match prog["w"].as_str() {
            Some("f32") => run::<f32>(&prog, &now),
            _ => run::<f64>(&prog, &now),
        };
        let mut o = out.lock().unwrap();
        writeln!(o, "{}", line(&prog, events)).unwrap();
        o.flush().unwrap(); // what is written survives a crash of this process
    }
    out.lock().unwrap().flush().unwrap();
}
