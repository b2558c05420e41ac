//! Calls the library's whole-file parser from one or more threads, inside the simulated operating
//! system. Arguments: `MODE PLAN...`, one PLAN per thread, each a comma separated list of source
//! numbers; source N is the file /src/N. Mode `mark` brackets each parse with marker calls that the
//! simulator records; mode `plain` does not. All results are handed to the simulator at the end.

use nom::types::CompleteStr;
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

static HOOK: AtomicUsize = AtomicUsize::new(0);

extern "C" {
    fn write(fd: i32, buf: *const u8, n: usize) -> isize;
}

fn mark(text: &str) {
    // descriptor -777 exists only in the simulated kernel: it puts a marker into the event log
    unsafe { write(-777, text.as_ptr(), text.len()) };
}

fn parse(source: &str, marks: bool) -> String {
    if marks {
        mark("begin");
    }
    let result = catch_unwind(AssertUnwindSafe(|| elm_parser::file(CompleteStr(source))));
    if marks {
        mark("end");
        // is the panic hook still the one installed below?
        let before = HOOK.load(Ordering::SeqCst);
        let _ = catch_unwind(|| panic!());
        if HOOK.load(Ordering::SeqCst) != before + 1 {
            mark("hook");
        }
    }
    match result {
        Ok(Ok((rest, tree))) => format!("OK {:?}\n{:#?}", rest.0, tree),
        Ok(Err(error)) => format!("ERR\n{:#?}", error),
        Err(_) => "PANIC\n".to_string(),
    }
}

/// Every source is read into the same memory before it is parsed, as programs do that reuse a buffer.
fn parse_all(plan: &[usize], sources: &[String], marks: bool) -> Vec<String> {
    let mut buffer = String::new();
    plan.iter()
        .map(|&n| {
            buffer.clear();
            buffer.push_str(&sources[n]);
            parse(&buffer, marks)
        })
        .collect()
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let marks = args[1] == "mark";
    if marks {
        std::panic::set_hook(Box::new(|_| {
            HOOK.fetch_add(1, Ordering::SeqCst);
        }));
    }
    let plans: Vec<Vec<usize>> = args[2..]
        .iter()
        .map(|p| p.split(',').map(|n| n.parse().unwrap()).collect())
        .collect();
    let count = plans.iter().flatten().max().unwrap() + 1;
    let sources: Vec<String> = (0..count)
        .map(|n| std::fs::read_to_string(format!("/src/{}", n)).unwrap())
        .collect();
    let sources = std::sync::Arc::new(sources);
    let results: Vec<Vec<String>> = if plans.len() == 1 {
        vec![parse_all(&plans[0], &sources, marks)]
    } else {
        let threads: Vec<_> = plans
            .iter()
            .cloned()
            .map(|plan| {
                let sources = sources.clone();
                std::thread::spawn(move || parse_all(&plan, &sources, marks))
            })
            .collect();
        threads.into_iter().map(|t| t.join().unwrap()).collect()
    };
    let mut out = Vec::new();
    for (t, plan) in plans.iter().enumerate() {
        for (k, &n) in plan.iter().enumerate() {
            let text = &results[t][k];
            write!(out, "== {} {} {} {}\n{}\n", t, k, n, text.len(), text).unwrap();
        }
    }
    // results leave through a channel of the simulator, descriptor 1 may be failing on purpose
    unsafe { write(-778, out.as_ptr(), out.len()) };
}
