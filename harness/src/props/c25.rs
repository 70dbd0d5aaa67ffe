use crate::engine::*;
use crate::ext4::verif::Ext4String;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeSet, HashSet};
use std::hash::{Hash, Hasher};

pub static PROP: Prop = Prop {
    id: "C25",
    quick: 8_000_000,
    thorough: 60_000_000,
    rule: "a triple of names of which at least two differ, or a name that is not UTF-8, was compared in all pairs, hashed and converted; distinct by the full choice sequence",
    assumptions: &["the reference is the order, equality and hash of the byte strings themselves"],
    run,
    pinned: &[("all-pairs-of-short-names", short)],
};

fn gen(g: &mut G, zeros: bool, base: Option<&Vec<u8>>) -> Vec<u8> {
    let mut v = match base {
        Some(b) if g.chance(3, 4) => {
            let mut v = b.clone();
            match g.draw(5) {
                0 => {}
                1 => {
                    let n = g.us(0, v.len());
                    v.truncate(n);
                }
                2 => v.push(g.draw(255) as u8),
                3 if !v.is_empty() => {
                    let i = g.us(0, v.len() - 1);
                    v[i] = g.draw(255) as u8;
                }
                4 if !v.is_empty() => {
                    let i = g.us(0, v.len() - 1);
                    v[i] ^= 0x80;
                }
                _ => {
                    // the replacement character, as text and as what it replaces
                    let i = g.us(0, v.len());
                    let s: &[u8] = g.pick(&[&b"\xef\xbf\xbd"[..], &b"\xff"[..], &b"\xfe"[..], &b"\xed\xa0\x80"[..], &b"\xc3"[..]]);
                    v.splice(i..i, s.iter().copied());
                }
            }
            v
        }
        _ => {
            let n = match g.draw(4) {
                0 => 0,
                1 => 255,
                _ => g.us(0, 12),
            };
            let mut v = g.bytes(n);
            match g.draw(3) {
                0 => v.iter_mut().for_each(|c| *c = b'a' + *c % 4),
                1 => v.iter_mut().for_each(|c| *c = [0xff, 0xfe, 0x80, b'a', 0xc3, 0xa9][*c as usize % 6]),
                _ => {}
            }
            v
        }
    };
    if !zeros {
        v.iter_mut().for_each(|c| *c = (*c).max(1));
    }
    v
}

fn h<T: Hash>(t: &T) -> u64 {
    let mut s = DefaultHasher::new();
    t.hash(&mut s);
    s.finish()
}

fn check(v: &[&Vec<u8>]) -> R {
    let names: Vec<Ext4String<Vec<u8>>> = v.iter().map(|b| Ext4String::from_null_terminated_bytes(b).to_owned()).collect();
    let cut: Vec<&[u8]> = v.iter().map(|b| &b[..b.iter().position(|c| *c == 0).unwrap_or(b.len())]).collect();
    for (n, b) in names.iter().zip(&cut) {
        ensure_eq!(<&[u8]>::from(n), *b, "bytes of the name");
        ensure_eq!(n.len(), b.len(), "length");
        ensure_eq!(n.is_empty(), b.is_empty(), "emptiness");
        let text = String::try_from(n);
        match std::str::from_utf8(b) {
            Ok(s) => {
                ensure!(text.as_deref() == Ok(s), "text of {b:?}");
                ensure!(Ext4String::from(s) == Ext4String::from_null_terminated_bytes(b), "name from text {s:?}");
                let owned = s.to_string();
                let e = Ext4String::from(&owned);
                ensure_eq!(<&[u8]>::from(&e), *b, "name from owned text");
                ensure_eq!(n.to_string(), s, "displayed");
            }
            Err(_) => match text {
                Ok(t) => return Err(Fail(format!("{b:?} is not UTF-8 but became {t:?}"))),
                Err(e) => ensure_eq!(e.as_bytes(), *b, "bytes given back"),
            },
        }
        ensure_eq!(n.to_str_lossy(), String::from_utf8_lossy(b), "lossy text");
        ensure_eq!(n.clone(), *n, "clone");
    }
    for (i, a) in names.iter().enumerate() {
        for (j, b) in names.iter().enumerate() {
            let (x, y) = (cut[i], cut[j]);
            ensure_eq!(a == b, x == y, "{x:?} == {y:?}");
            ensure_eq!(a != b, x != y, "{x:?} != {y:?}");
            if x == y {
                ensure_eq!(h(a), h(b), "hash of equal names {x:?}");
                ensure_eq!(h(a), h(&Ext4String::from_null_terminated_bytes(v[i])), "hash of a borrowed name {x:?}");
            }
            let o = a.cmp(b);
            ensure_eq!(a.partial_cmp(b), Some(o), "partial order of {x:?} and {y:?}");
            ensure_eq!(b.cmp(a), o.reverse(), "order of {x:?} and {y:?} both ways");
            ensure_eq!(o == Ordering::Equal, x == y, "order says equal for {x:?} and {y:?}");
            ensure_eq!(a < b, o == Ordering::Less, "less");
            for (k, c) in names.iter().enumerate() {
                if o != Ordering::Greater && b.cmp(c) != Ordering::Greater {
                    ensure!(a.cmp(c) != Ordering::Greater, "not transitive: {x:?}, {y:?}, {:?}", cut[k]);
                }
            }
        }
    }
    // what sets and maps make of them
    let distinct: BTreeSet<&[u8]> = cut.iter().copied().collect();
    ensure_eq!(names.iter().collect::<BTreeSet<_>>().len(), distinct.len(), "ordered set");
    ensure_eq!(names.iter().collect::<HashSet<_>>().len(), distinct.len(), "hashed set");
    Ok(())
}

fn run(g: &mut G) -> R {
    let zeros = g.chance(1, 3);
    let a = gen(g, zeros, None);
    let b = gen(g, zeros, Some(&a));
    let c = gen(g, zeros, Some(&b));
    g.describe(|| format!("{a:?} {b:?} {c:?}"));
    if a != b || b != c {
        g.nontrivial();
    }
    if std::str::from_utf8(&a).is_err() {
        g.nontrivial();
        g.class("not UTF-8");
    }
    if zeros && a.contains(&0) {
        g.class("zero byte within");
    }
    if a != b && String::from_utf8_lossy(&a) == String::from_utf8_lossy(&b) {
        g.class("different names with the same lossy text");
    }
    check(&[&a, &b, &c])
}

fn short() -> R {
    let alphabet = [0u8, b'a', b'b', 0x80, 0xc3, 0xa9, 0xff, 0xef, 0xbf, 0xbd];
    let mut all = vec![vec![]];
    for n in 1..=3usize {
        for i in 0..10usize.pow(n as u32) {
            let mut v = vec![];
            let mut k = i;
            for _ in 0..n {
                v.push(alphabet[k % 10]);
                k /= 10;
            }
            all.push(v);
        }
    }
    for (i, a) in all.iter().enumerate() {
        for b in all.iter().skip(i % 7).step_by(7) {
            check(&[a, b])?;
        }
    }
    Ok(())
}
