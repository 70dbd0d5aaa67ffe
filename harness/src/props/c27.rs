use crate::engine::*;
use crate::ext4::verif::{ext4_crc32c, Superblock, EXT4_CRC32C_INITIAL};
use crate::ext4img::*;

pub static PROP: Prop = Prop {
    id: "C27",
    quick: 10_000_000,
    thorough: 60_000_000,
    rule: "a string of at least two bytes was checksummed from a generated initial value, whole and in pieces, or a superblock's seed was taken with a feature set; distinct by the full choice sequence",
    assumptions: &["the reference is the bit-at-a-time definition of the reflected polynomial 0x82f63b78, checked against the published check value"],
    run,
    pinned: &[("check-values", known), ("every-byte-and-bit", each)],
};

fn bitwise(init: u32, b: &[u8]) -> u32 {
    let mut c = init;
    for x in b {
        for i in 0..8 {
            let bit = (c ^ (*x as u32 >> i)) & 1;
            c = (c >> 1) ^ if bit == 1 { 0x82f6_3b78 } else { 0 };
        }
    }
    c
}

fn seed_of(raw: &[u8]) -> u32 {
    let incompat = get32(raw, 0x60);
    let ro = get32(raw, 0x64);
    if incompat & 0x2000 != 0 {
        get32(raw, 0x270)
    } else if ro & 0x400 != 0 {
        bitwise(!0, &raw[0x68..0x78])
    } else {
        0
    }
}

fn run(g: &mut G) -> R {
    if g.chance(1, 4) {
        let mut raw = match g.draw(2) {
            0 => vec![0u8; 1024],
            _ => g.blob(1024),
        };
        let noise = g.bytes(16);
        raw[0x68..0x78].copy_from_slice(&noise);
        let v = g.u32b();
        put32(&mut raw, 0x270, v);
        let (mut i, mut r) = (get32(&raw, 0x60), get32(&raw, 0x64));
        i = if g.chance(1, 2) { i | 0x2000 } else { i & !0x2000 };
        r = if g.chance(1, 2) { r | 0x400 } else { r & !0x400 };
        if i & 0x2000 != 0 || r & 0x400 != 0 {
            g.nontrivial();
        }
        if i & 0x2000 != 0 && r & 0x400 != 0 {
            g.class("stored seed with metadata checksums");
        }
        put32(&mut raw, 0x60, i);
        put32(&mut raw, 0x64, r);
        g.describe(|| format!("incompat {i:#x} ro {r:#x} seed {v:#x} uuid {noise:02x?}"));
        let s = Superblock::new(raw.clone());
        let want = if i & 0x2000 == 0 && r & 0x400 == 0 { None } else { Some(seed_of(&raw)) };
        if let Some(w) = want {
            ensure_eq!(s.checksum_seed(), w, "checksum seed (incompat {i:#x}, ro {r:#x})");
        }
        ensure_eq!(s.expected_checksum(), bitwise(!0, &raw[..0x3fc]), "superblock checksum");
        return Ok(());
    }
    let n = match g.draw(5) {
        0 => g.us(0, 3),
        1 => g.us(0, 70),
        2 => g.us(0, 1100),
        3 => 4 * g.us(0, 20),
        4 if g.chance(1, 10) => g.us(0, 70000),
        _ => g.us(0, 20),
    };
    let data = if n <= 64 { g.bytes(n) } else { g.blob(n) };
    let init = match g.draw(3) {
        0 => !0,
        1 => 0,
        _ => g.u32b(),
    };
    let pieces = g.us(1, 4);
    let mut cuts: Vec<usize> = (0..pieces - 1).map(|_| g.us(0, n)).collect();
    cuts.sort();
    cuts.push(n);
    if n >= 2 {
        g.nontrivial();
    }
    if cuts.len() > 1 {
        g.class("in pieces");
    }
    g.describe(|| format!("{n} bytes from {init:#x}, cut at {cuts:?}"));
    let want = bitwise(init, &data);
    ensure_eq!(ext4_crc32c(init, &data), want, "checksum of {n} bytes from {init:#x}");
    let (mut c, mut at) = (init, 0);
    for k in cuts {
        c = ext4_crc32c(c, &data[at..k]);
        at = k;
    }
    ensure_eq!(c, want, "checksum in pieces of {n} bytes from {init:#x}");
    Ok(())
}

fn known() -> R {
    ensure_eq!(EXT4_CRC32C_INITIAL, u32::MAX, "initial value");
    // the published check value is after a final inversion
    ensure_eq!(!bitwise(!0, b"123456789"), 0xe306_9283, "the reference itself");
    ensure_eq!(!ext4_crc32c(EXT4_CRC32C_INITIAL, b"123456789"), 0xe306_9283, "check value");
    ensure_eq!(!ext4_crc32c(!0, [0u8; 32]), 0x8a91_36aa, "32 zero bytes");
    ensure_eq!(!ext4_crc32c(!0, [0xffu8; 32]), 0x62a8_ab43, "32 bytes of ff");
    ensure_eq!(ext4_crc32c(0x1234_5678, b""), 0x1234_5678, "nothing");
    Ok(())
}

fn each() -> R {
    for x in 0..=255u8 {
        for i in 0..32 {
            for init in [1u32 << i, !(1 << i), 0, !0] {
                ensure_eq!(ext4_crc32c(init, [x]), bitwise(init, &[x]), "byte {x:#x} from {init:#x}");
                ensure_eq!(ext4_crc32c(init, [0, x]), bitwise(init, &[0, x]), "bytes 0, {x:#x} from {init:#x}");
            }
        }
    }
    for n in 0..300 {
        let d = blob(n, n as usize);
        ensure_eq!(ext4_crc32c(n as u32, &d), bitwise(n as u32, &d), "length {n}");
    }
    Ok(())
}
