//! The inner products built without parallelism: prints the battery's results.
#[path = "../../harness/src/battery_ip.rs"]
mod battery_ip;
#[path = "../../harness/src/mini.rs"]
#[allow(dead_code, unused_imports)]
mod mini;
fn main() {
    let seed: u64 = std::env::args().nth(1).unwrap().parse().unwrap();
    let curve = std::env::args().nth(2).unwrap();
    let out = match &curve[..] {
        "bls12-381" => battery_ip::inner_products::<ark_bls12_381::Bls12_381>(seed),
        "mini" => battery_ip::inner_products::<mini::Mini>(seed),
        _ => battery_ip::inner_products::<ark_bls12_377::Bls12_377>(seed),
    };
    for (n, b) in out {
        println!("{n}\t{}", b.iter().map(|x| format!("{x:02x}")).collect::<String>());
    }
}
