// Demonstrates the repaired defects; build against a tree of /repo with:
//   rustc --edition 2021 -O demo.rs --extern aga8=libaga8.rlib
use aga8::composition::Composition;
use aga8::detail::Detail;
use aga8::gerg2008::Gerg2008;
fn comp(m: f64) -> Composition { Composition { methane: m, ethane: 1.0 - m, ..Default::default() } }
fn main() {
    let c = Composition { methane: f64::NAN, ..Default::default() };
    println!("C03 NaN accepted: {}", c.check().is_ok());
    let mut g = Gerg2008::new();
    g.set_composition(&comp(0.9)).unwrap(); g.t = 300.0; g.p = 5000.0;
    println!("R02 iflag=1 on a plain gas state: ok={}", g.density(1).is_ok());
    g.p = 0.0; g.d = 0.0;
    println!("R02 zero pressure: {:?}", g.density(0).map_err(|e| e as i32));
    let mut g = Gerg2008::new(); g.set_composition(&comp(0.9)).unwrap(); g.t = 300.0; g.d = 5.0; g.pressure();
    let mut d = Detail::new(); d.set_composition(&comp(0.9)).unwrap(); d.t = 300.0; d.d = 5.0; d.pressure();
    for _ in 0..20_000_000u32 / 20 { g.t += 9.0e-8; d.t += 9.0e-8; d.pressure(); }
    let tn = d.t;
    let mut d2 = Detail::new(); d2.set_composition(&comp(0.9)).unwrap(); d2.t = tn; d2.d = 5.0;
    println!("H01 creep: {} vs fresh {}", d.pressure(), d2.pressure());
    let mut m = 0.9; 
    let mut g = Gerg2008::new(); g.t = 300.0; g.d = 5.0; g.set_composition(&comp(m)).unwrap(); g.pressure();
    for _ in 0..100_000 { m -= 9.0e-8; g.set_composition(&comp(m)).unwrap(); g.pressure(); }
    let mut g2 = Gerg2008::new(); g2.t = 300.0; g2.d = 5.0; g2.set_composition(&comp(m)).unwrap();
    println!("H02 creep: {} vs fresh {}", g.pressure(), g2.pressure());
    let mut a = Detail::default(); let mut b = Detail::new();
    for q in [&mut a, &mut b] { q.set_composition(&comp(0.9)).unwrap(); q.t = 300.0; q.d = 5.0; q.pressure(); }
    println!("S04 default z {} new z {}", a.z, b.z);
    let c = Composition { methane: 0.5, propane: 0.5, ..Default::default() };
    let mut d = Detail::new(); d.set_composition(&c).unwrap(); d.t = 300.0; d.p = f64::NAN; let _ = d.density(); d.p = 1000.0;
    println!("R01 after a NaN pressure: ok={} {}", d.density().is_ok(), d.d);
    let mut g = Gerg2008::new(); g.set_composition(&c).unwrap(); g.t = 230.0; g.p = f64::NAN; let _ = g.density(0); g.p = 1000.0;
    println!("R02 after a NaN pressure: ok={} {} (gas: 0.665)", g.density(0).is_ok(), g.d);
}
