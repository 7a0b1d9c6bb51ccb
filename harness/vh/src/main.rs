mod cost;
mod docs;
mod features;
mod props;
mod run;
mod text;
mod values;
mod work;

fn main() {
    run::hook();
    let args: Vec<String> = std::env::args().skip(1).collect();
    let id = args.first().map(String::as_str).unwrap_or("");
    let props = props::all();
    if id == "list" {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    }
    if id == "literals" {
        // For core/src/known_literals.txt.
        for l in pcore::lits::scan("/repo/src") {
            println!("{l}");
        }
        return;
    }
    if !work::works() {
        println!("error: the code under test is not instrumented");
        std::process::exit(3);
    }
    if id == "work" {
        // The work each entry point does on the standard input.
        let mut text = String::new();
        std::io::Read::read_to_string(&mut std::io::stdin(), &mut text).unwrap();
        std::thread::Builder::new()
            .stack_size(run::STACK)
            .spawn(move || {
                for e in docs::table() {
                    let (r, w) = work::limited(1 << 40, "", || e.run(&text).is_ok());
                    println!("{w} {r} {}", e.name);
                }
            })
            .unwrap()
            .join()
            .unwrap();
        return;
    }
    let Some(p) = props.iter().find(|p| p.id == id) else {
        println!("error: no property {id}");
        std::process::exit(3);
    };
    let crash = format!("{}/evidence/replays/crash-{}.txt", run::root(), p.id);
    let _ = std::fs::create_dir_all(format!("{}/evidence/replays", run::root()));
    if args.get(2).map(String::as_str) == Some("--crashed") {
        std::process::exit(run::crashed(p, &crash));
    }
    work::watch(&crash);
    if args.get(1).map(String::as_str) == Some("--replay") {
        std::process::exit(run::replay(p, &args[2]));
    }
    let tier = args.get(1).map(String::as_str).unwrap_or("quick");
    let seed = run::seed();
    // Shrinking happens here, on a large stack as well.
    let code = std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(run::STACK)
            .spawn_scoped(sc, || run::run(p, tier, seed, "exploration"))
            .unwrap()
            .join()
            .unwrap_or(3)
    });
    std::process::exit(code);
}
