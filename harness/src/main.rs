mod api;
mod asy;
mod choices;
mod conc;
mod diff;
mod grow;
mod interpose;
mod pol;
mod props;
mod runner;
mod sched;
mod seq;
mod types;

fn main() {
    runner::install_panic_hook();
    let a: Vec<String> = std::env::args().collect();
    let props = props::all();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") => runner::check(&props, &a[2]),
        Some("worker") => runner::worker(&props, &a[2..]),
        Some("eval") => runner::eval(&props, &a[2..]),
        Some("range") => runner::range(&props, &a[2..]),
        Some("replay") => runner::replay(&props, &a[2]),
        Some("list") => {
            for p in &props {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mvh check <id> | replay <file>");
            2
        }
    };
    std::process::exit(code);
}
