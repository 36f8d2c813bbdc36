//! Tiny cases of every property in the interpreter: verif_miri SEED SLOT SLOTS CASES.
use verif_harness::case::{Case, Tier};
use verif_harness::props;

/// Every other case is one of long histories, where the interpreter spends its time on updates.
const IDS: &[&str] = &[
    "C01", "C10", "C19", "C13", "C04", "C12", "C06", "C15", "C11", "C18", "C07", "C16", "C03", "C14", "C09", "C21",
    "C17", "C08", "C02",
];

fn main() {
    let args: Vec<u64> = std::env::args().skip(1).map(|a| a.parse().expect("number")).collect();
    let [seed, slot, slots, cases] = args[..] else { panic!("SEED SLOT SLOTS CASES") };
    let all = props::all();
    for n in (slot..cases).step_by(slots as usize) {
        // not the same half in every slot
        let round = n / slots;
        let id = match (round + slot) % 2 {
            0 => "C20",
            _ => IDS[n as usize % IDS.len()],
        };
        let p = all.iter().find(|p| p.id == id).expect(id);
        let mut case = Case::new(id, seed, n, Tier::Quick);
        case.tiny = true;
        println!("CASE {id} {n}");
        let begin = std::time::Instant::now();
        // what the oracle of that property says is decided by its own check
        let verdict = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut case)));
        let updates = case.stats.get("updates").copied().unwrap_or(0);
        println!("DONE {id} {n} {} {updates} {:.1}", matches!(verdict, Ok(Ok(()))), begin.elapsed().as_secs_f64());
    }
    println!("END");
}
