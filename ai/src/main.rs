mod alerts;
mod facts;
mod ideal;
mod interp;
mod join;
mod json;
mod lp;
mod models;
mod mon;
mod parse;
mod prog;
mod rep;
mod state;
mod term;
mod tls;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(4 << 30);
    let ok = h
        .spawn(move || {
            let p: &'static prog::Prog = Box::leak(Box::new(prog::load(&a[1])));
            let mut rep = rep::Rep::default();
            match a[2].as_str() {
                "alerts" => alerts::check(p, &mut rep),
                "tls" => tls::check(p, &a[3], &mut rep),
                "parse" => parse::check(p, &mut rep),
                "shapes" => parse::shapes(p, &mut rep),
                m => debug(p, m),
            }
            rep.print();
        })
        .unwrap()
        .join();
    if ok.is_err() {
        std::process::exit(3);
    }
}

fn debug(p: &'static prog::Prog, mode: &str) {
    println!("{} fns", p.fns.len());
    let m = tls::Mode::parse(mode);
    let mut cx = tls::interpreter(p, &m);
    cx.trace = std::env::var("AI_TRACE").is_ok();
    let r = tls::analyse(&mut cx, &m);
    match r {
        Ok(s) => println!("states {} runs {}", s.states, s.runs),
        Err(e) => println!("ERR {e}"),
    }
    println!("calls {} loops {} joins {} visited {}", cx.calls, cx.loops, cx.joins, cx.visited.len());
    if std::env::var("AI_EV").is_ok() {
        for (f, n) in &cx.visited {
            println!("visited {} {}", n, p.fns[*f].name);
        }
    }
    for e in cx.events.values() {
        println!("[{}] {} @ {} ({})", e.kind, e.msg, e.site, e.line);
        if std::env::var("AI_EV").is_ok() {
            println!("   stack {}", e.stack.join(" > "));
            println!("   {}", e.detail.replace('\n', "\n   "));
        }
    }
}
