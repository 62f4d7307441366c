mod conv;
mod engine;
mod gen;
mod props;
mod paths;
mod r;
mod report;
mod tg;

use engine::Report;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(String::as_str) == Some("nest") {
        return props::errors::nest(&a[2], a[3].parse().unwrap());
    }
    let (id, tier, replay) = if a.get(1).map(String::as_str) == Some("replay") {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
        let script = v["script"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
        (v["property"].as_str().unwrap().to_string(), v["tier"].as_str().unwrap().to_string(), Some((v["space"].as_str().unwrap().to_string(), script, v["bound"].as_u64().unwrap() as u32)))
    } else if a.len() >= 3 {
        (a[1].clone(), a[2].clone(), None)
    } else {
        eprintln!("usage: mc <property> quick|thorough [space] | mc replay <file>");
        std::process::exit(2);
    };
    let out = format!("{}/out", report::verif_dir());
    let _ = std::fs::create_dir_all(&out);
    engine::install_crash_handler(&id, &out);
    let mut rep = Report::new(&id, &tier);
    rep.replay = replay;
    rep.only = a.get(3).cloned();
    let Some(f) = props::lookup(&id) else {
        eprintln!("no check for {id}");
        std::process::exit(2);
    };
    if rep.thorough() && id != "C31" {
        rep.planning = true;
        f(&mut rep);
        rep.planning = false;
    }
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&mut rep))).is_err() {
        eprintln!("{}", engine::last_panic());
        std::process::exit(2);
    }
    std::process::exit(rep.finish());
}
