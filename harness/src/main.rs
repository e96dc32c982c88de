mod abs; mod conc; mod enc; mod engine; mod fam; mod gen; mod parse; mod props; mod raw; mod v;
use engine::*;
use std::process::Command;

#[global_allocator]
static ALLOC: Counting = Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let cmd = a.get(1).map(|s| s.as_str()).unwrap_or("");
    if cmd == "dump" {
        let h = std::fs::read_to_string(&a[2]).unwrap();
        let h: String = h.chars().filter(|c| c.is_ascii_hexdigit()).collect();
        let b: Vec<u8> = (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
        println!("independent parser: {:?}", parse::parse_class(&b));
        println!("coffer: {:?}", <coffer::clazz::Class as coffer::ReadWrite>::read_from(&mut &b[..]).map(|c| abs::class(&c)));
        return;
    }
    let tier = if a.iter().any(|x| x == "thorough") { Tier::Thorough } else { Tier::Quick };
    if std::env::var("MC_WORKER").is_ok() {
        install_hook();
        let ctx = Ctx::new(cmd, tier);
        // a big stack for the exploring thread: crashes are attributed by the supervisor
        let c = cmd.to_string();
        let r = std::thread::Builder::new().stack_size(256 << 20).spawn(move || props::run(&c, ctx)).unwrap().join();
        std::process::exit(match r { Ok(c) => c, Err(_) => 2 });
    }
    let run = |trace: Option<&str>| {
        let mut c = Command::new(std::env::current_exe().unwrap());
        c.args(&a[1..]).env("MC_WORKER", "1");
        match trace { Some(t) => { c.env("MC_TRACE", t); } None => { c.env_remove("MC_TRACE"); } }
        c.status().unwrap()
    };
    let st = run(None);
    match st.code() {
        Some(c @ (0 | 1)) => std::process::exit(c),
        Some(97) | None => {
            // abort, signal or hang inside the code under test: run again with tracing to name the case
            eprintln!("worker ended with {st}; tracing");
            let d = format!("{}/trace-{}", std::env::temp_dir().display(), std::process::id());
            std::fs::create_dir_all(&d).unwrap();
            let st2 = run(Some(&d));
            let mut cases = vec![];
            if let Ok(rd) = std::fs::read_dir(&d) { for f in rd.flatten() { if let Ok(s) = std::fs::read_to_string(f.path()) { if !s.is_empty() { cases.push(s) } } } }
            let _ = std::fs::remove_dir_all(&d);
            cases.sort();
            let p = write_replay(cmd, 0, &cases.join("\n  or "), &format!("process ended with {st} (traced run: {st2}); 97 means a case ran for more than {CASE_TIMEOUT_S}s; the case is one of those in flight"));
            write_crash_evidence(cmd, tier, &cases);
            println!("VIOLATION property={cmd} replay={p}");
            std::process::exit(1);
        }
        Some(c) => { eprintln!("worker error {c}"); std::process::exit(2) }
    }
}
