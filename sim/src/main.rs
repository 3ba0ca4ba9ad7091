mod check;
mod exec;
mod gen;
mod img;
mod model;
mod hooks;
mod journal;
mod pa;
mod pb;
mod pc;
mod pd;
mod pe;
mod pf;
mod props;
mod rng;
mod scen;
mod shrink;
mod work;
mod sim;
mod tz;
mod vfs;
#[allow(unused, dead_code)]
mod wbmain { include!(concat!(env!("OUT_DIR"), "/wbmain.rs")); }

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 30 {
        use std::os::unix::process::CommandExt;
        let mut c = std::process::Command::new("/proc/self/exe");
        c.args(&args[1..]);
        for _ in 0..40 { c.arg("-"); }
        panic!("{}", c.exec());
    }
    // the padding arguments are not ours
    let mine: Vec<String> = args.iter().skip(2).filter(|a| *a != "-").cloned().collect();
    match args[1].as_str() {
        "check" => std::process::exit(check::check(&mine[0])),
        "worker" => { check::worker(&mine); return; }
        "shrink" => { check::shrink_cmd(&mine); return; }
        "replay" => std::process::exit(check::replay(&mine)),
        "one" => std::process::exit(check::one(&mine)),
        _ => {}
    }
    if args[1] == "stress" {
        for k in 0..7 { let (mut ok, mut no) = (0, vec![]); for i in 0..60 { match work::stressed(&mut rng::Rng::new(i), k).model() { Ok(_) => ok += 1, Err(b) => no.push(b.what) } } println!("{} {} ok; {:?}", k, ok, no.iter().take(4).collect::<Vec<_>>()); }
        return;
    }
    if args[1] == "gentest" {
        let n: u64 = args[2].parse().unwrap();
        let from: u64 = args[3].parse().unwrap_or(0);
        let mut run = exec::Runner::new();
        let (mut bad, mut bytes) = (0, 0);
        let t = std::time::Instant::now();
        for i in from..from + n {
            let mut r = rng::Rng::new(i);
            let o = gen::Opt::any(&mut r);
            let p = gen::project(&mut r, &o);
            let rep = p.model().unwrap();
            bytes += rep.image.len();
            let mut v = vfs::Vfs::new();
            v.mkdirs(&p.cwd);
            for f in &p.files { v.put(&f.path, &f.bytes()); }
            let o = run.run(&exec::Spec { vfs: &v, kind: exec::Kind::Cli(["waterbear", "assemble", &p.main, "-o", "/out.bin"].iter().map(|s| s.to_string()).collect()), env: &[("PWD".into(), p.cwd.clone())],
                cwd: &p.cwd, faults: &[], modes: &sim::Modes::default(), clk: &sim::Clk::default(), rng: &sim::RngMode::Seeded(i), plan: &sim::Plan::None, pid: 4242 });
            let got = o.vfs.get("/out.bin");
            if got != Some(&rep.image) {
                bad += 1;
                let d = got.map(|g| (g.len(), rep.image.len(), g.iter().zip(&rep.image).position(|(a, b)| a != b)));
                println!("seed {} {:?} {:?}\n{}", i, o.exit, d, o.errs().chars().take(2500).collect::<String>());
                if bad == 1 || n == 1 { for f in &p.files { println!("--- {}\n{}", f.path, String::from_utf8_lossy(&f.bytes()).chars().take(6000).collect::<String>()); } }
                if bad > 5 { break; }
            }
        }
        println!("{} bad, {} bytes {:?}", bad, bytes, t.elapsed());
    }
}
