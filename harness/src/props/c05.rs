use super::mdset::*;
use crate::block_device::BlockDevice;
use crate::engine::*;

pub static PROP: Prop = Prop {
    id: "C05",
    quick: 500_000,
    thorough: 30_000_000,
    rule: "at least two devices in different orders, with at least one disagreement, duplicate, stranger or blank among them, or a readable array",
    assumptions: &["errors are compared as errors, without their kind"],
    run,
    pinned: &[],
};

fn run(g: &mut G) -> R {
    let set = gen_set(g, &SetKnobs { max_mutations: 5, reshape: true, rows: 3 });
    let n = set.devs.len();
    let ident: Vec<usize> = (0..n).collect();
    let mut o1 = ident.clone();
    g.shuffle(&mut o1);
    let mut o2 = ident.clone();
    if g.chance(1, 2) {
        o2.reverse();
    } else {
        g.shuffle(&mut o2);
    }
    g.describe(|| format!("{} orders {o1:?} {o2:?}", set.describe()));
    if n > 1 && o1 != o2 {
        g.nontrivial();
    }
    let mut seen: Option<(Result<u64, ()>, Vec<Result<[u8; 512], ()>>, Norm)> = None;
    for o in [ident, o1, o2] {
        let (mut arr, _) = set.open(&o).map_err(Fail)?;
        let size = arr.block_count().map(|c| c.0).map_err(|_| ());
        let mut reads = vec![];
        for (s, off) in &set.rows {
            for k in 0..set.geo.dd() {
                reads.push(read(&mut arr, set.geo.logical(*s, *off, k)));
            }
        }
        reads.push(read(&mut arr, 0));
        if let Ok(s) = size {
            reads.push(read(&mut arr, s.wrapping_sub(1)));
        }
        if reads.iter().any(|r| r.is_ok()) {
            g.class("some sectors read");
        }
        let now = (size, reads, crate::norm_diagnosis!(arr.diagnose()));
        match &seen {
            None => seen = Some(now),
            Some(first) => {
                ensure_eq!(now.0, first.0, "size in order {o:?} (against the order given)");
                for (i, (a, b)) in now.1.iter().zip(&first.1).enumerate() {
                    ensure!(
                        a == b,
                        "read {i} in order {o:?} {}, in the order given {}",
                        if a.is_ok() { "succeeds" } else { "fails" },
                        if b.is_ok() { "succeeds or differs" } else { "fails" }
                    );
                }
                for (k, v) in &now.2 {
                    ensure_eq!(*v, first.2[k], "{k} in order {o:?} (against the order given)");
                }
            }
        }
    }
    Ok(())
}
