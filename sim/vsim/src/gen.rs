//! Building blocks for plans.

use crate::audio::*;
use crate::cli::{Inv, DEFAULT_MODEL};
use crate::rng::Rng;
use crate::sim::{Fault, Noise, F};
use crate::world::Cfg;

/// A small family of recordings that can be compared with each other: two references and four
/// degraded versions, all but the last with the same number of frames.
pub fn scene(seed: u64, k: u64, cheap: bool) -> Vec<Gen> {
    let mut r = Rng::from(&[seed, k, 0x5ce7e]);
    let p = r.below(100);
    let mut rate = match p {
        0..=44 => 1000,
        45..=56 => 1500,
        57..=69 => 2000,
        70..=77 => 1001 + r.below(3000) as u32,
        78..=87 => 4000,
        88..=93 => 8000,
        94..=97 => 16000,
        _ => 48000,
    };
    if cheap {
        rate = if p < 80 { 1000 } else { 1500 };
    }
    let q = r.below(100);
    let mut secs = if q < 70 { 0.96 + 0.3 * (r.unit() * 0.5 + 0.5) } else if q < 84 { 1.3 + 0.9 * (r.unit() * 0.5 + 0.5) } else if q < 94 { 0.66 + 0.26 * (r.unit() * 0.5 + 0.5) } else { 0.02 + 0.4 * (r.unit() * 0.5 + 0.5) };
    if rate >= 16000 && secs > 1.0 {
        secs = 0.97;
    }
    if cheap {
        secs = 0.96 + 0.1 * (r.unit() * 0.5 + 0.5);
    }
    if !cheap && rate <= 1500 && r.chance(5) {
        secs = 2.5 + 4.0 * (r.unit() * 0.5 + 0.5);
    }
    let ch = match r.below(10) {
        0..=6 => 1,
        7 | 8 => 2,
        _ => 3 + r.below(4) as u16,
    };
    let kinds = [0u8, 0, 0, 0, 0, 2, 2, 1, 6, 6, 4, 5, 7, 8, 9, 3];
    let kind = if cheap { 0 } else { *r.pick(&kinds) };
    let frames = (rate as f64 * secs) as usize;
    let base = |s: u64| Gen { kind, rate, frames, ch, seed: s, deg: None };
    let (sa, sb) = (r.next() & 0xffff_ffff, r.next() & 0xffff_ffff);
    let mut deg = |of: u64, fr: usize| {
        let amounts = [1u32, 3, 10, 30, 60, 100, 300, 800];
        let mut g = base(of);
        let shift = if r.chance(50) { 0 } else { (r.unit() * rate as f64 * 0.08) as i64 };
        g.deg = Some(Deg { how: r.below(5) as u8, amount: *r.pick(&amounts), seed: r.next() & 0xffff_ffff, shift, frames: fr });
        g
    };
    // the last one is shorter or longer; by more than a second, sometimes
    let other = if q % 3 == 0 && rate <= 2000 { 2.2 } else if q % 7 == 0 { 0.4 } else { 0.93 };
    let v = vec![deg(sa, frames), deg(sa, frames), deg(sb, frames), deg(sa, (frames as f64 * other) as usize)];
    let mut o = vec![base(sa), base(sb)];
    o.extend(v);
    o
}
/// A recording in one of the other containers.
pub fn exotic(r: &mut Rng, g: &Gen) -> Content { Content::Wav(Wav { gen: g.clone(), dmg: vec![Dmg::Form(r.below(8) as u8)] }) }
/// Nearly the same recording: same header, same beginning, and a difference later that a summary may not show.
pub fn near(r: &mut Rng, g: &Gen) -> Content {
    let f = 2 * g.ch as usize;
    let n = g.frames;
    let at = |r: &mut Rng| 44 + f * (n / 4 + r.below(n / 2 + 1));
    let d = match r.below(5) {
        // the same samples in another order
        0..=2 => {
            let l = n / 8 + r.below(n / 8 + 1);
            Dmg::Swap(44 + f * (n / 3), 44 + f * (n / 3 + l + r.below((n / 3).saturating_sub(l) + 1)), f * l)
        }
        3 => Dmg::Zero(at(r), f * (n / 4)),
        _ => Dmg::Put16(at(r), 0x7000),
    };
    Content::Wav(Wav { gen: g.clone(), dmg: vec![d] })
}
/// Numbers of rows: mostly few, sometimes a long list.
pub fn rows(r: &mut Rng, few: &[usize]) -> usize {
    match r.below(100) {
        0..=7 => r.range(7, 20),
        8 => r.range(21, 70),
        _ => *r.pick(few),
    }
}
pub fn wav(g: &Gen) -> Content { Content::Wav(Wav { gen: g.clone(), dmg: vec![] }) }

pub fn cfg(r: &mut Rng, fb: usize) -> Cfg {
    let windows = [0usize, 1, 3, 8, 60, 60];
    let mode = if r.chance(fb) {
        "fb"
    } else if r.chance(70) {
        "wb"
    } else {
        "wbu"
    };
    Cfg { mode: mode.into(), window: *r.pick(&windows), model: DEFAULT_MODEL.into() }
}

pub fn noise_io(r: &mut Rng) -> Noise {
    Noise { seed: r.next() >> 1, chunk: *r.pick(&[0u8, 1, 2, 2, 3, 4, 4]), ..Noise::default() }
}

pub const READ_ERRNOS: &[i32] = &[libc::EIO, libc::EAGAIN, libc::EISDIR, libc::EINVAL, libc::ESTALE, libc::ETIMEDOUT, libc::ENOMEM, libc::EBADF, libc::ENXIO];
pub const OPEN_ERRNOS: &[i32] = &[libc::ENOENT, libc::EACCES, libc::EMFILE, libc::ENFILE, libc::EIO, libc::ELOOP, libc::ENOTDIR, libc::ESTALE, libc::EPERM];
pub const WRITE_ERRNOS: &[i32] = &[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG, libc::EPIPE, libc::EAGAIN, libc::EPERM, libc::ESTALE];

/// A fault fit for an operation of this kind.
pub fn fault_for(r: &mut Rng, n: u64, kind: &str, arg: i64) -> Fault {
    let what = match kind {
        "open" => F::Errno(*r.pick(if arg & 3 == 0 { OPEN_ERRNOS } else { &[libc::EACCES, libc::EROFS, libc::ENOSPC, libc::EMFILE, libc::EIO, libc::EISDIR, libc::ENOENT, libc::EDQUOT, libc::EINTR] })),
        "read" => match r.below(10) {
            0 => F::Errno(libc::EINTR),
            1 => F::Dead(*r.pick(READ_ERRNOS)),
            2 => F::Short(1 + r.below(arg.clamp(1, 4096) as usize)),
            3 | 4 => F::Eof,
            _ => F::Errno(*r.pick(READ_ERRNOS)),
        },
        "write" => match r.below(10) {
            0 => F::Errno(libc::EINTR),
            1 | 2 => F::Dead(*r.pick(WRITE_ERRNOS)),
            3 => F::Short(1 + r.below(arg.clamp(1, 8192) as usize)),
            4..=6 => F::Full(r.below(arg.clamp(1, 8192) as usize + 1)),
            _ => F::Errno(*r.pick(WRITE_ERRNOS)),
        },
        "seek" => F::Errno(*r.pick(&[libc::EIO, libc::ESPIPE, libc::EINVAL])),
        _ => F::Errno(*r.pick(&[libc::EIO, libc::EACCES, libc::ENOMEM])),
    };
    Fault { op: n, what }
}

pub fn inv(c: &Cfg, pairs: Vec<(String, String)>, batch: bool) -> Inv {
    Inv {
        cfg: c.clone(),
        pairs,
        batch,
        list: "list.csv".into(),
        list_text: None,
        csv: None,
        json: None,
        verbose: false,
        faults: vec![],
        noise: Noise::default(),
        absolute: false,
    }
}

/// What storage does to a recording.
pub fn damages(r: &mut Rng, len: usize, mild: bool) -> Vec<Dmg> {
    let n = if r.chance(60) { 1 } else { r.range(1, 4) };
    let mut v = Vec::new();
    for _ in 0..n {
        let body = 44.min(len);
        let at = if r.chance(30) { r.below(body.max(1)) } else { body + r.below((len - body).max(1)) };
        let span = match r.below(4) {
            0 => 1 + r.below(16),
            1 => 512,
            2 => 4096,
            _ => 1 + r.below(len.max(1)),
        };
        let hdr = |r: &mut Rng| -> Dmg {
            let v32 = [0u32, 1, 2, 3, 7, 44, 100, 101, 103, 120, 150, 199, 250, 333, 400, 8000, 44100, 48000, 96000, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0xffff_fffe, 0x0100_0000, 16, 18, 40];
            let v16 = [0u16, 1, 2, 3, 4, 5, 8, 12, 16, 24, 32, 255, 256, 0x7fff, 0xffff, 0xfffe];
            match r.below(9) {
                0 => Dmg::Put32(24, *r.pick(&v32)),
                1 => Dmg::Put16(22, *r.pick(&v16)),
                2 => Dmg::Put16(34, *r.pick(&v16)),
                3 => Dmg::Put32(40, if r.chance(50) { *r.pick(&v32) } else { r.below(len + 64) as u32 }),
                4 => Dmg::Put32(16, *r.pick(&v32)),
                5 => Dmg::Put16(20, *r.pick(&v16)),
                6 => Dmg::Put16(32, *r.pick(&v16)),
                7 => Dmg::Put32(4, *r.pick(&v32)),
                _ => Dmg::Put32(28, *r.pick(&v32)),
            }
        };
        let k = if mild { 4 + r.below(12) } else { r.below(18) };
        let d = match k {
            0 | 1 => Dmg::Flip(r.below(body.max(1)), r.below(8) as u8),
            2 | 3 => hdr(r),
            4 => Dmg::Trunc(r.below(len + 1)),
            5 => {
                // lost tail, with the header repaired by some tool: a consistent, shorter file
                let keep = r.below(len.saturating_sub(body) / 2 + 1) * 2;
                v.push(Dmg::Trunc(body + keep));
                Dmg::Put32(40, keep as u32)
            }
            6 | 7 => Dmg::Zero(at, span),
            8 => Dmg::Zero(body, len),
            9 => Dmg::Dup(at, span),
            10 => Dmg::Swap(at.min(len / 2), len / 2 + r.below(len / 2 + 1), span.min(len / 4 + 1)),
            11 => Dmg::Junk(at, span, r.next() & 0xffff),
            12 => Dmg::Flip(at, r.below(8) as u8),
            13 => Dmg::Set(at, *r.pick(&[0u8, 255, 128, 127])),
            14 => Dmg::Append(1 + r.below(600), r.next() & 0xffff),
            15 => Dmg::Zero(body + r.below((len - body).max(1)), len),
            16 => Dmg::Cut(at, span),
            _ => Dmg::Junk(0, body, r.next() & 0xffff),
        };
        v.push(d);
    }
    v
}
