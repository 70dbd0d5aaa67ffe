use super::mdset::*;
use crate::engine::*;
use crate::md::superblock::Superblock;
use std::collections::{BTreeMap, BTreeSet};
use std::ffi::{OsStr, OsString};
use std::os::unix::ffi::OsStrExt;

pub static PROP: Prop = Prop {
    id: "C07",
    quick: 1_200_000,
    thorough: 40_000_000,
    rule: "at least one problem exists among the supplied devices; distinct by choice sequence",
    assumptions: &[
        "members whose superblock version has no name field take no part in the comparison of names",
        "a version-0.90 superblock older than minor 90 identifies its array by one word",
    ],
    run,
    pinned: &[],
};

fn run(g: &mut G) -> R {
    let set = gen_set(g, &SetKnobs { max_mutations: 4, reshape: true, rows: 0 });
    g.describe(|| set.describe());
    let mut order: Vec<usize> = (0..set.devs.len()).collect();
    g.shuffle(&mut order);
    let (arr, by_name) = set.open(&order).map_err(Fail)?;
    let d = arr.diagnose();
    let norm = crate::norm_diagnosis!(&d);
    let mut any = false;

    // which devices
    let supplied: Vec<_> = set.devs.iter().enumerate().map(|(i, d)| (d.name.clone(), i)).collect();
    for (key, exp) in set.expected(&supplied) {
        any |= exp.is_some();
        let got: Option<Vec<Vec<String>>> = norm[key].as_ref().map(|s| s.iter().map(|(_, n)| n.clone()).collect());
        let n = got.as_ref().map(|v| v.len());
        let got = got.map(|v| v.into_iter().collect::<BTreeSet<_>>());
        ensure_eq!(n, exp.as_ref().map(|e| e.len()), "{key}: number of values");
        ensure_eq!(got, exp, "{key}");
    }
    // devices under the same name, or under none, are devices of their own
    if g.chance(1, 4) {
        let kinds = [Some("sda"), Some("sdb"), None];
        let k = g.us(1, 4);
        let refs: Vec<Option<OsString>> = set
            .devs
            .iter()
            .map(|_| {
                let c = g.us(0, k - 1);
                match c {
                    3 => Some(OsStr::from_bytes(&[b's', b'd', b'a', 0xf0 + g.draw(3) as u8]).to_os_string()),
                    c => kinds[c].map(OsString::from),
                }
            })
            .collect();
        let d = set.open_as(&order, &refs).map_err(Fail)?.diagnose();
        for (key, v) in crate::norm_diagnosis!(&d) {
            let size = |v: &[usize]| {
                let mut v = v.to_vec();
                v.sort();
                v
            };
            let got = v.map(|s| size(&s.iter().map(|(_, n)| n.len()).collect::<Vec<_>>()));
            let exp = norm[key].as_ref().map(|s| size(&s.iter().map(|(_, n)| n.len()).collect::<Vec<_>>()));
            ensure_eq!(got, exp, "{key}: devices listed, opened as {refs:?}");
        }
        g.class("devices that share a name");
    }
    let seen: Vec<(String, Seen)> =
        set.devs.iter().filter_map(|d| d.seen().map(|s| (d.name.clone(), s))).collect();

    // each device is listed under what its own superblock says
    macro_rules! keys {
        ($f:ident, |$s:ident| $acc:expr) => {
            if let Some(m) = &d.$f {
                for (k, ids) in m {
                    for id in ids {
                        let dev = &by_name[&id.to_string()];
                        ensure!(dev.id == *id, "{} names a device that was not supplied", stringify!($f));
                        let Some($s) = dev.superblock.as_option() else {
                            return Err(Fail(format!("{} lists {id}, which has no superblock", stringify!($f))));
                        };
                        ensure!(*k == $acc, "{} lists {id} under {k:?}", stringify!($f));
                    }
                }
            }
        };
    }
    keys!(array_uuid_problem, |s| s.array_uuid());
    keys!(array_name_problem, |s| s.array_name().unwrap().to_os_string());
    keys!(algorithm_problem, |s| s.algorithm());
    keys!(size_problem, |s| s.sectors_per_device());
    keys!(chunk_size_problem, |s| s.chunk_size());
    keys!(device_count_problem, |s| s.raid_device_count());
    keys!(reshape_problem, |s| s.reshape_status());
    keys!(event_count_problem, |s| s.event_count());
    keys!(device_role_index_problem, |s| s.device_role_index());
    keys!(device_roles_problem, |s| s.device_roles());
    // and the values are the stored ones
    let stored: BTreeMap<&String, &Seen> = seen.iter().map(|(n, s)| (n, s)).collect();
    macro_rules! stored {
        ($f:ident, |$k:ident, $s:ident| $eq:expr) => {
            if let Some(m) = &d.$f {
                for ($k, ids) in m {
                    for id in ids {
                        let $s = stored[&id.to_string()];
                        ensure!($eq, "{} lists {id} under {:?}, its superblock holds {:?}", stringify!($f), $k, $s);
                    }
                }
            }
        };
    }
    stored!(array_name_problem, |k, s| Some(k.as_bytes().to_vec()) == s.name);
    stored!(size_problem, |k, s| k.0 == s.size);
    stored!(chunk_size_problem, |k, s| k.0 == s.chunk);
    stored!(device_count_problem, |k, s| k.0 == s.count);
    stored!(event_count_problem, |k, s| k.0 == s.events);
    stored!(device_role_index_problem, |k, s| *k == s.index as usize);
    if any {
        g.nontrivial();
        for (k, v) in &norm {
            if v.is_some() {
                g.class(k);
            }
        }
    } else {
        g.class("no problem");
    }
    Ok(())
}
