mod chain;
mod co;
mod mocks;
mod ra;
mod ragen;
mod run;
mod tree;
mod util;
mod v1;
mod v1gen;
mod v2;
mod v2gen;
mod v2run;

fn arg(name: &str, def: &str) -> String {
    let a: Vec<String> = std::env::args().collect();
    a.iter().position(|x| x == name).and_then(|i| a.get(i + 1)).cloned().unwrap_or(def.to_string())
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        // panics of the code under test are data; remember where, for harness bugs
        if std::env::var("VH_TRACE").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let sys = arg("--sys", "v2");
    let r = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || match sys.as_str() {
            "v2" => v2run::main(&arg),
            "v1" => run::main::<v1::V1>(&arg),
            "co" => run::main::<co::Co>(&arg),
            "ra" => run::main::<ra::RA>(&arg),
            x => panic!("unknown system {}", x),
        })
        .unwrap()
        .join();
    if r.is_err() {
        eprintln!("harness error");
        std::process::exit(2);
    }
}
