//! The arguments built without parallelism: prints the battery's results.
#[path = "../../harness/src/battery.rs"]
#[allow(dead_code)]
mod battery;
#[path = "../../harness/src/battery_ip.rs"]
mod battery_ip;
#[path = "../../harness/src/mini.rs"]
#[allow(dead_code, unused_imports)]
mod mini;
fn main() {
    let seed: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let part = std::env::args().nth(3).map(|k| k.parse().unwrap());
    let t = match &std::env::args().nth(2).unwrap()[..] {
        "bls12-381" => battery::table::<ark_bls12_381::Bls12_381>(seed, part),
        "mini" => battery::table::<mini::Mini>(seed, part),
        _ => battery::table::<ark_bls12_377::Bls12_377>(seed, part),
    };
    print!("{t}");
}
