mod diffs;
mod fw;
mod factors;
mod g2o;
mod groups;
mod imu;
mod kern;
mod loops;
mod noise;
mod opt;
mod prob;
mod refm;
mod resid;
mod solve;
mod store;
mod vars;

fn main() {
    fw::install_hash_control();
    fw::install_panic_hook();
    let mut a = std::env::args().skip(1);
    let prop = a.next().expect("usage: mc <property> [--level 0|1|2] [--replay <case>] [--out file] [--threads n]");
    let mut o = fw::Opts { prop: prop.clone(), thorough: false, deep: false, replay: None, threads: 8, out: "-".into() };
    while let Some(x) = a.next() {
        let v = a.next().expect("missing value");
        match x.as_str() {
            "--level" => {
                let n: u32 = v.parse().unwrap();
                o.thorough = n >= 1;
                o.deep = n >= 2;
            }
            "--replay" => o.replay = Some(v),
            "--out" => o.out = v,
            "--threads" => o.threads = v.parse().unwrap(),
            _ => panic!("unknown option {x}"),
        }
    }
    let f: fn(&mut fw::Ctx) = match prop.as_str() {
        "C01" => store::c01,
        "C02" => store::c02,
        "C03" => store::c03,
        "C04" => factors::c04,
        "C05" => factors::c05,
        "C06" => diffs::c06,
        "C07" => groups::c07,
        "C08" => groups::c08,
        "C09" => groups::c09,
        "C10" => noise::c10,
        "C11" => noise::c11,
        "C12" => solve::c12,
        "C13" => opt::c13,
        "C14" => loops::c14,
        "C15" => loops::c15,
        "C16" => loops::c16,
        "C17" => imu::c17,
        "C18" => g2o::c18,
        "C19" => resid::c19,
        _ => {
            eprintln!("unknown property {prop}");
            std::process::exit(3)
        }
    };
    let r = fw::run(&o, f);
    fw::write_report(&prop, &o.out, o.thorough, &r, "");
    std::process::exit(if r.viols.is_empty() { 0 } else { 1 });
}
