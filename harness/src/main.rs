#[allow(dead_code)]
mod alloc;
#[allow(dead_code)]
mod api;
#[allow(dead_code)]
mod checks;
#[allow(dead_code)]
mod faults;
mod gen_;
#[allow(dead_code)]
mod jsonr;
#[allow(dead_code)]
mod mutate;
#[allow(dead_code)]
mod render;
#[allow(dead_code)]
mod runner;
#[allow(dead_code)]
mod spec;
mod syntax;
#[allow(dead_code)]
mod tape;

use std::path::PathBuf;

#[global_allocator]
static A: alloc::Counting = alloc::Counting;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let all = checks::all();
    let find = |id: &str| -> &'static runner::Check {
        match all.iter().find(|c| c.id == id) {
            Some(c) => c,
            None => {
                eprintln!("no check {id}");
                std::process::exit(2)
            }
        }
    };
    let code = match a.as_slice() {
        ["list"] => {
            for c in &all {
                println!("{}", c.id);
            }
            0
        }
        ["check", id] => runner::check(find(id)),
        ["replay", f] => runner::replay(&all, &PathBuf::from(f)),
        ["worker", id, s, n, t, out] => {
            runner::worker(find(id), s.parse().unwrap(), n.parse().unwrap(), t.parse().unwrap(), PathBuf::from(out));
            0
        }
        ["one", id, i] => runner::one(find(id), None, i.parse().unwrap()),
        ["onetape", id, f] => runner::one(find(id), Some(PathBuf::from(f)), 0),
        ["tape", id, i, f] => {
            runner::record(find(id), i.parse().unwrap(), PathBuf::from(f));
            0
        }
        ["shrink", id, i] => {
            runner::shrink_case(find(id), i.parse().unwrap());
            0
        }
        ["lex", f] => {
            let src = std::fs::read_to_string(f).unwrap();
            let l = syntax::lex(&src);
            for t in &l.toks {
                println!("{} {:?}", syntax::kind_name(t.kind), &src[t.start..t.end]);
            }
            println!("bad {:?}", l.bad);
            0
        }
        ["probe", f] => {
            let src = std::fs::read_to_string(f).unwrap();
            let c = api::convert(&src);
            match &c.res {
                Ok(v) => println!("{}", serde_json::to_string_pretty(v).unwrap()),
                Err(d) => println!("ERR {}", d.rendered),
            }
            for w in c.warnings.iter().chain(&c.drained) {
                println!("WARN {}", w.rendered);
            }
            0
        }
        ["probefile", f, dirs @ ..] => {
            let dirs: Vec<PathBuf> = dirs.iter().map(PathBuf::from).collect();
            let c = api::convert_file(&PathBuf::from(f), &dirs);
            match &c.res {
                Ok(v) => println!("{}", serde_json::to_string_pretty(v).unwrap()),
                Err(d) => println!("ERR {}", d.rendered),
            }
            for w in c.warnings.iter().chain(&c.drained) {
                println!("WARN {}", w.rendered);
            }
            0
        }
        _ => {
            eprintln!("usage: vh list | check ID | replay FILE | probe FILE");
            2
        }
    };
    std::process::exit(code);
}
