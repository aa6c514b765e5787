// refharness ex|fa PROP SEED quick|thorough SCALE K/N [--case TEST IDX]
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let seed: u64 = a[3].parse().unwrap();
    let th = a[4] == "thorough";
    let scale: f64 = a[5].parse().unwrap();
    let (k, n) = a[6].split_once('/').unwrap();
    let w = (k.parse().unwrap(), n.parse().unwrap());
    let only = if a.len() > 9 && a[7] == "--case" { Some((a[8].clone(), a[9].parse().unwrap())) } else { None };
    let ok = match a[1].as_str() {
        "ex" => ref_exchange::ref_verif::run(&a[2], seed, th, only, scale, w),
        _ => ref_farming::ref_verif::run(&a[2], seed, th, only, scale, w),
    };
    std::process::exit(if ok { 0 } else { 1 });
}
