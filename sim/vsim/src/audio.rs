//! Generated recordings and the damage storage does to them.

use crate::rng::Rng;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Gen {
    /// 0 speech like, 1 noise, 2 chord, 3 silence, 4 clicks, 5 constant, 6 a few bursts,
    /// 7 full scale square wave, 8 least significant bit only, 9 single impulse
    pub kind: u8,
    pub rate: u32,
    pub frames: usize,
    pub ch: u16,
    pub seed: u64,
    pub deg: Option<Deg>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Deg {
    /// 0 noise, 1 dropouts, 2 low pass, 3 clipping, 4 crackle
    pub how: u8,
    pub amount: u32, // per mille
    pub seed: u64,
    /// Frames of delay (positive) or advance (negative).
    pub shift: i64,
    pub frames: usize,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Dmg {
    Trunc(usize),
    Zero(usize, usize),
    Dup(usize, usize),
    Swap(usize, usize, usize),
    Flip(usize, u8),
    Set(usize, u8),
    Put16(usize, u16),
    Put32(usize, u32),
    Junk(usize, usize, u64),
    Append(usize, u64),
    Cut(usize, usize),
    /// Another container around the samples of an undamaged recording: see `reform`.
    Form(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Wav {
    pub gen: Gen,
    pub dmg: Vec<Dmg>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Content {
    Wav(Wav),
    /// The support vector model shipped with the repository, damaged.
    Model(Vec<Dmg>),
    /// The same without some lines.
    ModelLines(Vec<(usize, usize)>),
    Text(String),
    /// This many bytes of whole records or rows.
    Bulk(u8, usize),
}

fn mono(g: &Gen) -> Vec<f64> {
    let mut r = Rng::from(&[g.seed, g.kind as u64, g.rate as u64]);
    let n = g.frames;
    let rate = g.rate as f64;
    let mut out = vec![0.0; n];
    match g.kind {
        0 | 6 => {
            let mut t = 0usize;
            let mut voiced = r.chance(70);
            let mut ph = [0.0f64; 6];
            while t < n {
                let secs = if g.kind == 0 { 0.08 + 0.3 * (r.unit() * 0.5 + 0.5) } else { 0.1 + 0.5 * (r.unit() * 0.5 + 0.5) };
                let len = ((secs * rate) as usize).max(8);
                let f0 = rate * 0.02 * (1.0 + 0.8 * r.unit()).abs() + rate * 0.01;
                let amp: f64 = if voiced { 0.25 + 0.2 * r.unit() } else { 0.004 };
                let w: Vec<f64> = (0..6).map(|_| r.unit()).collect();
                for k in 0..len {
                    if t + k >= n {
                        break;
                    }
                    let env = (std::f64::consts::PI * k as f64 / len as f64).sin();
                    let mut s = 0.03 * r.unit();
                    for (h, p) in ph.iter_mut().enumerate() {
                        *p += std::f64::consts::TAU * f0 * (h + 1) as f64 / rate;
                        s += w[h] * p.sin() / 2.5;
                    }
                    out[t + k] = amp * env * s;
                }
                t += len;
                voiced = if g.kind == 0 { !voiced || r.chance(50) } else { r.chance(25) };
            }
        }
        1 => out.iter_mut().for_each(|s| *s = 0.3 * r.unit()),
        2 => {
            let fs: Vec<(f64, f64)> = (0..4).map(|_| (rate * (0.01 + 0.2 * (r.unit() * 0.5 + 0.5)), 0.1 + 0.1 * r.unit())).collect();
            let am = 1.0 + 3.0 * (r.unit() * 0.5 + 0.5);
            for (t, s) in out.iter_mut().enumerate() {
                let x = t as f64 / rate;
                *s = fs.iter().map(|(f, a)| a * (std::f64::consts::TAU * f * x).sin()).sum::<f64>()
                    * (0.6 + 0.4 * (std::f64::consts::TAU * am * x).sin());
            }
        }
        3 => {}
        4 => {
            let every = (n / (3 + r.below(20))).max(1);
            for t in (0..n).step_by(every) {
                out[t] = r.unit();
            }
        }
        5 => {
            let v = 0.5 * r.unit();
            out.iter_mut().for_each(|s| *s = v);
        }
        7 => {
            let p = 2 + r.below(40);
            for (t, s) in out.iter_mut().enumerate() {
                *s = if (t / p) % 2 == 0 { 1.0 } else { -1.0 };
            }
        }
        8 => out.iter_mut().for_each(|s| *s = r.unit() / 20000.0),
        _ => {
            if n > 0 {
                let k = r.below(n);
                out[k] = 0.9;
            }
        }
    }
    out
}

fn degrade(x: &[f64], d: &Deg) -> Vec<f64> {
    let mut r = Rng::from(&[d.seed, d.how as u64, 77]);
    let a = d.amount as f64 / 1000.0;
    let mut out: Vec<f64> = (0..d.frames)
        .map(|t| {
            let s = t as i64 - d.shift;
            if s >= 0 && (s as usize) < x.len() {
                x[s as usize]
            } else {
                0.0
            }
        })
        .collect();
    match d.how {
        0 => out.iter_mut().for_each(|s| *s += a * 0.3 * r.unit()),
        1 => {
            let n = out.len();
            for _ in 0..1 + (a * 10.0) as usize {
                let at = r.below(n.max(1));
                let len = (n as f64 * a * 0.1) as usize;
                for s in out.iter_mut().skip(at).take(len) {
                    *s = 0.0;
                }
            }
        }
        2 => {
            let mut y = 0.0;
            let k = 0.05 + 0.9 * (1.0 - a);
            for s in out.iter_mut() {
                y += k * (*s - y);
                *s = y;
            }
        }
        3 => {
            let lim = 0.02 + 0.3 * (1.0 - a);
            out.iter_mut().for_each(|s| *s = s.clamp(-lim, lim));
        }
        _ => {
            for s in out.iter_mut() {
                if r.below(1000) < 1 + (a * 30.0) as usize {
                    *s = r.unit();
                }
            }
        }
    }
    out
}

pub fn header(rate: u32, ch: u16, bits: u16, data: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(44 + data);
    v.extend_from_slice(b"RIFF");
    v.extend_from_slice(&(36 + data as u32).to_le_bytes());
    v.extend_from_slice(b"WAVEfmt ");
    v.extend_from_slice(&16u32.to_le_bytes());
    v.extend_from_slice(&1u16.to_le_bytes());
    v.extend_from_slice(&ch.to_le_bytes());
    v.extend_from_slice(&rate.to_le_bytes());
    v.extend_from_slice(&(rate.wrapping_mul(ch as u32 * bits as u32 / 8)).to_le_bytes());
    v.extend_from_slice(&(ch * bits / 8).to_le_bytes());
    v.extend_from_slice(&bits.to_le_bytes());
    v.extend_from_slice(b"data");
    v.extend_from_slice(&(data as u32).to_le_bytes());
    v
}

pub fn render(g: &Gen) -> Vec<u8> {
    let mut x = mono(g);
    if let Some(d) = &g.deg {
        x = degrade(&x, d);
    }
    let mut r = Rng::from(&[g.seed, 99]);
    let data = x.len() * g.ch as usize * 2;
    let mut v = header(g.rate, g.ch, 16, data);
    for s in &x {
        for c in 0..g.ch {
            let k = if c == 0 { *s } else { *s * 0.8 + 0.01 * r.unit() };
            let q = (k * 32767.0).round().clamp(-32768.0, 32767.0) as i16;
            v.extend_from_slice(&q.to_le_bytes());
        }
    }
    v
}

/// 0 extensible header, 1 a LIST chunk before the samples, 2 one behind them, 3 24 bits, 4 8 bits, 5 32 bits,
/// 6 floating point, 7 extensible with 24 bits
fn reform(v: &[u8], how: u8) -> Vec<u8> {
    if v.len() < 44 {
        return v.to_vec();
    }
    let (rate, ch, _) = peek(v);
    let pcm: Vec<i16> = v[44..].chunks_exact(2).map(|b| i16::from_le_bytes([b[0], b[1]])).collect();
    let bits = match how {
        3 | 7 => 24u16,
        4 => 8,
        5 | 6 => 32,
        _ => 16,
    };
    let mut data = Vec::new();
    for x in &pcm {
        match how {
            3 | 7 => data.extend_from_slice(&((*x as i32) << 8).to_le_bytes()[..3]),
            4 => data.push((*x as i32 / 256 + 128) as u8),
            5 => data.extend_from_slice(&((*x as i32) << 16).to_le_bytes()),
            6 => data.extend_from_slice(&(*x as f32 / 32768.0).to_le_bytes()),
            _ => data.extend_from_slice(&x.to_le_bytes()),
        }
    }
    if data.len() % 2 == 1 {
        data.push(0);
    }
    let mut o = header(rate, ch, bits, data.len())[..40 - 4].to_vec();
    if how == 6 {
        o[20] = 3;
    }
    if how == 0 || how == 7 {
        o[16] = 40;
        o[20..22].copy_from_slice(&0xfffeu16.to_le_bytes());
        o.extend_from_slice(&22u16.to_le_bytes());
        o.extend_from_slice(&bits.to_le_bytes());
        o.extend_from_slice(&((1u32 << ch.min(18)) - 1).to_le_bytes());
        o.extend_from_slice(&[1, 0, 0, 0, 0, 0, 16, 0, 128, 0, 0, 170, 0, 56, 155, 113]);
    }
    let list = |o: &mut Vec<u8>| {
        o.extend_from_slice(b"LIST");
        o.extend_from_slice(&26u32.to_le_bytes());
        o.extend_from_slice(b"INFOISFT\x0e\0\0\0Some Program\0\0");
    };
    if how == 1 {
        list(&mut o);
    }
    o.extend_from_slice(b"data");
    o.extend_from_slice(&(data.len() as u32).to_le_bytes());
    o.extend_from_slice(&data);
    if how == 2 {
        list(&mut o);
    }
    let n = o.len() as u32 - 8;
    o[4..8].copy_from_slice(&n.to_le_bytes());
    o
}

pub fn damage(mut v: Vec<u8>, dmg: &[Dmg]) -> Vec<u8> {
    for d in dmg {
        let n = v.len();
        let clip = |o: usize, l: usize| (o.min(n), (o.saturating_add(l)).min(n));
        match d {
            Dmg::Trunc(k) => v.truncate(*k),
            Dmg::Zero(o, l) => {
                let (a, b) = clip(*o, *l);
                v[a..b].fill(0);
            }
            Dmg::Dup(o, l) => {
                let (a, b) = clip(*o, *l);
                let part = v[a..b].to_vec();
                v.splice(b..b, part);
            }
            Dmg::Swap(a, b, l) => {
                if a.saturating_add(*l) <= *b && b.saturating_add(*l) <= n {
                    for k in 0..*l {
                        v.swap(a + k, b + k);
                    }
                }
            }
            Dmg::Flip(o, bit) => {
                if *o < n {
                    v[*o] ^= 1 << (bit & 7);
                }
            }
            Dmg::Set(o, b) => {
                if *o < n {
                    v[*o] = *b;
                }
            }
            Dmg::Put16(o, x) => {
                if o + 2 <= n {
                    v[*o..o + 2].copy_from_slice(&x.to_le_bytes());
                }
            }
            Dmg::Put32(o, x) => {
                if o + 4 <= n {
                    v[*o..o + 4].copy_from_slice(&x.to_le_bytes());
                }
            }
            Dmg::Junk(o, l, s) => {
                let (a, b) = clip(*o, *l);
                let mut r = Rng::new(*s);
                v[a..b].iter_mut().for_each(|x| *x = r.next() as u8);
            }
            Dmg::Append(l, s) => {
                let mut r = Rng::new(*s);
                v.extend((0..*l).map(|_| r.next() as u8));
            }
            Dmg::Cut(o, l) => {
                let (a, b) = clip(*o, *l);
                v.drain(a..b);
            }
            Dmg::Form(k) => v = reform(&v, *k),
        }
    }
    v
}

/// (sample rate, channels, bytes) as the header claims.
pub fn peek(v: &[u8]) -> (u32, u16, usize) {
    if v.len() < 44 {
        return (0, 0, v.len());
    }
    (u32::from_le_bytes(v[24..28].try_into().unwrap()), u16::from_le_bytes(v[22..24].try_into().unwrap()), v.len())
}

pub fn model_bytes() -> Vec<u8> { std::fs::read("/repo/model/libsvm_nu_svr_model.txt").expect("model file of the repository") }

impl Content {
    pub fn bytes(&self) -> Vec<u8> {
        match self {
            Content::Wav(w) => damage(render(&w.gen), &w.dmg),
            Content::Model(d) => damage(model_bytes(), d),
            Content::ModelLines(cut) => {
                let b = model_bytes();
                let lines: Vec<&[u8]> = b.split_inclusive(|c| *c == b'\n').collect();
                let mut o = Vec::new();
                for (i, l) in lines.iter().enumerate() {
                    if !cut.iter().any(|(a, n)| i >= *a && i < a + n) {
                        o.extend_from_slice(l);
                    }
                }
                o
            }
            Content::Text(s) => s.clone().into_bytes(),
            Content::Bulk(kind, n) => {
                let mut o = if *kind == 0 { String::new() } else { "reference,degraded,moslqo\n".to_string() };
                let mut k = 0;
                while o.len() < *n {
                    o += &if *kind == 0 { format!("{{\"record\": {k}, \"moslqo\": {}}}\n", k % 5) } else { format!("/some/where/ref{k}.wav,/some/where/deg{k}.wav,{}.{k}\n", 1 + k % 4) };
                    k += 1;
                }
                o.into_bytes()
            }
        }
    }
}
