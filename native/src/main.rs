#![allow(dead_code, unused_imports, unused_macros)]
//! Search for inputs on which the real crate breaks a property. Every check compares
//! the crate with an independent reference written here from the property text.
mod bints;
mod ctx;
mod dirs;
mod grids;
mod iters;
mod positions;
mod search;
mod stores;
use ctx::*;
use std::sync::atomic::Ordering;

fn main() {
    let mut args = std::env::args().skip(1);
    let prop = args.next().expect("property");
    let mut c = Ctx {
        seed: 1,
        thorough: false,
        only: None,
        trace: None,
        group: String::new(),
        evals: 0,
        nontrivial: 0,
        groups: 0,
        samples: vec![],
        failure: None,
        budget: std::time::Duration::from_secs(100_000),
        start: std::time::Instant::now(),
        group_start: std::time::Instant::now(),
        skipped: 0,
    };
    let mut hang = 60;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--seed" => c.seed = args.next().unwrap().parse().unwrap(),
            "--thorough" => c.thorough = true,
            "--only" => c.only = args.next(),
            "--budget" => c.budget = std::time::Duration::from_secs(args.next().unwrap().parse().unwrap()),
            "--hang" => hang = args.next().unwrap().parse().unwrap(),
            "--known" => KNOWN.lock().unwrap().push(args.next().unwrap()),
            "--trace" => c.trace = Some(std::fs::File::create(args.next().unwrap()).unwrap()),
            _ => panic!("argument {a}"),
        }
    }
    std::panic::set_hook(Box::new(|i| {
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = if let Some(s) = i.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = i.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            String::new()
        };
        LAST_PANIC.with(|p| *p.borrow_mut() = format!("{m} at {loc}"));
    }));
    std::thread::spawn(move || {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let p = PROGRESS.load(Ordering::Relaxed);
            if p == last { same += 1 } else { same = 0 }
            last = p;
            if same > hang {
                println!("HANG");
                std::process::exit(4);
            }
        }
    });
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || {
            match prop.as_str() {
                #[cfg(feature = "C01")]
                "C01" => bints::c01(&mut c),
                #[cfg(feature = "C02")]
                "C02" => bints::c02(&mut c),
                #[cfg(feature = "C03")]
                "C03" => bints::c03(&mut c),
                #[cfg(feature = "C04")]
                "C04" => positions::c04(&mut c),
                #[cfg(feature = "C05")]
                "C05" => positions::c05(&mut c),
                #[cfg(feature = "C06")]
                "C06" => positions::c06(&mut c),
                #[cfg(feature = "C07")]
                "C07" => dirs::c07(&mut c),
                #[cfg(feature = "C08")]
                "C08" => dirs::c08(&mut c),
                #[cfg(feature = "C09")]
                "C09" => positions::c09(&mut c),
                #[cfg(feature = "C10")]
                "C10" => positions::c10(&mut c),
                #[cfg(feature = "C11")]
                "C11" => positions::c11(&mut c),
                #[cfg(feature = "C12")]
                "C12" => positions::c12(&mut c),
                #[cfg(feature = "C13")]
                "C13" => positions::c13(&mut c),
                #[cfg(feature = "C14")]
                "C14" => grids::c14(&mut c),
                #[cfg(feature = "C15")]
                "C15" => grids::c15(&mut c),
                #[cfg(feature = "C16")]
                "C16" => grids::c16(&mut c),
                #[cfg(feature = "C17")]
                "C17" => grids::c17(&mut c),
                #[cfg(feature = "C18")]
                "C18" => grids::c18(&mut c),
                #[cfg(feature = "C19")]
                "C19" => stores::c19(&mut c),
                #[cfg(feature = "C20")]
                "C20" => search::c20(&mut c),
                #[cfg(feature = "C21")]
                "C21" => search::c21(&mut c),
                #[cfg(feature = "C22")]
                "C22" => search::c22(&mut c),
                #[cfg(feature = "C23")]
                "C23" => search::c23(&mut c),
                #[cfg(feature = "C24")]
                "C24" => search::c24(&mut c),
                #[cfg(feature = "C25")]
                "C25" => grids::c25(&mut c),
                _ => panic!("unknown property"),
            }
            c
        })
        .unwrap();
    let c = h.join().unwrap();
    for s in &c.samples {
        println!("SAMPLE {s}");
    }
    println!("COUNT {} {} {}", c.evals, c.nontrivial, c.groups);
    for k in MET.lock().unwrap().iter() {
        println!("FINDING {k}");
    }
    if c.skipped > 0 {
        println!("SKIPPED {}", c.skipped);
    }
    if let Some((id, msg)) = &c.failure {
        println!("FAIL {id}");
        println!("MSG {}", msg.replace('\n', " "));
        std::process::exit(3);
    }
}
