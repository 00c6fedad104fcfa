//! A small baseline JPEG encoder and a floating-point model of what its output decodes to.
use std::f64::consts::PI;

const ZIGZAG: [usize; 64] = [
    0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20,
    13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52,
    45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63,
];

// Annex K tables
const DC_L: ([u8; 16], &[u8]) =
    ([0, 1, 5, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
const DC_C: ([u8; 16], &[u8]) =
    ([0, 3, 1, 1, 1, 1, 1, 1, 1, 1, 1, 0, 0, 0, 0, 0], &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11]);
const AC_L: ([u8; 16], &[u8]) = (
    [0, 2, 1, 3, 3, 2, 4, 3, 5, 5, 4, 4, 0, 0, 1, 0x7d],
    &[
        0x01, 0x02, 0x03, 0x00, 0x04, 0x11, 0x05, 0x12, 0x21, 0x31, 0x41, 0x06, 0x13, 0x51, 0x61,
        0x07, 0x22, 0x71, 0x14, 0x32, 0x81, 0x91, 0xa1, 0x08, 0x23, 0x42, 0xb1, 0xc1, 0x15, 0x52,
        0xd1, 0xf0, 0x24, 0x33, 0x62, 0x72, 0x82, 0x09, 0x0a, 0x16, 0x17, 0x18, 0x19, 0x1a, 0x25,
        0x26, 0x27, 0x28, 0x29, 0x2a, 0x34, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44, 0x45,
        0x46, 0x47, 0x48, 0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63, 0x64,
        0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a, 0x83,
        0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97, 0x98, 0x99,
        0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4, 0xb5, 0xb6,
        0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca, 0xd2, 0xd3,
        0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe1, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7, 0xe8,
        0xe9, 0xea, 0xf1, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa,
    ],
);
const AC_C: ([u8; 16], &[u8]) = (
    [0, 2, 1, 2, 4, 4, 3, 4, 7, 5, 4, 4, 0, 1, 2, 0x77],
    &[
        0x00, 0x01, 0x02, 0x03, 0x11, 0x04, 0x05, 0x21, 0x31, 0x06, 0x12, 0x41, 0x51, 0x07, 0x61,
        0x71, 0x13, 0x22, 0x32, 0x81, 0x08, 0x14, 0x42, 0x91, 0xa1, 0xb1, 0xc1, 0x09, 0x23, 0x33,
        0x52, 0xf0, 0x15, 0x62, 0x72, 0xd1, 0x0a, 0x16, 0x24, 0x34, 0xe1, 0x25, 0xf1, 0x17, 0x18,
        0x19, 0x1a, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x35, 0x36, 0x37, 0x38, 0x39, 0x3a, 0x43, 0x44,
        0x45, 0x46, 0x47, 0x48, 0x49, 0x4a, 0x53, 0x54, 0x55, 0x56, 0x57, 0x58, 0x59, 0x5a, 0x63,
        0x64, 0x65, 0x66, 0x67, 0x68, 0x69, 0x6a, 0x73, 0x74, 0x75, 0x76, 0x77, 0x78, 0x79, 0x7a,
        0x82, 0x83, 0x84, 0x85, 0x86, 0x87, 0x88, 0x89, 0x8a, 0x92, 0x93, 0x94, 0x95, 0x96, 0x97,
        0x98, 0x99, 0x9a, 0xa2, 0xa3, 0xa4, 0xa5, 0xa6, 0xa7, 0xa8, 0xa9, 0xaa, 0xb2, 0xb3, 0xb4,
        0xb5, 0xb6, 0xb7, 0xb8, 0xb9, 0xba, 0xc2, 0xc3, 0xc4, 0xc5, 0xc6, 0xc7, 0xc8, 0xc9, 0xca,
        0xd2, 0xd3, 0xd4, 0xd5, 0xd6, 0xd7, 0xd8, 0xd9, 0xda, 0xe2, 0xe3, 0xe4, 0xe5, 0xe6, 0xe7,
        0xe8, 0xe9, 0xea, 0xf2, 0xf3, 0xf4, 0xf5, 0xf6, 0xf7, 0xf8, 0xf9, 0xfa,
    ],
);

fn codes(t: &([u8; 16], &[u8])) -> Vec<Option<(u32, u8)>> {
    let mut out = vec![None; 256];
    let mut code = 0u32;
    let mut k = 0;
    for (l, n) in t.0.iter().enumerate() {
        for _ in 0..*n {
            out[t.1[k] as usize] = Some((code, l as u8 + 1));
            code += 1;
            k += 1;
        }
        code <<= 1;
    }
    out
}

#[derive(Clone)]
pub struct Jpeg {
    pub w: usize,
    pub h: usize,
    /// per component: samples (own plane, subsampled), horizontal and vertical factors, quant table
    pub comps: Vec<Comp>,
    pub qt: Vec<[u8; 64]>,
    pub restart: u16,
    pub ids: Vec<u8>,
    pub app0: bool,
}

#[derive(Clone)]
pub struct Comp {
    pub hs: usize,
    pub vs: usize,
    pub q: usize,
    /// huffman class 0 or 1 (DC and AC)
    pub huff: usize,
    /// plane of pw x ph samples
    pub plane: Vec<u8>,
}

struct Bits {
    out: Vec<u8>,
    acc: u32,
    n: u32,
}
impl Bits {
    fn put(&mut self, v: u32, len: u8) {
        for i in (0..len).rev() {
            self.acc = (self.acc << 1) | ((v >> i) & 1);
            self.n += 1;
            if self.n == 8 {
                self.out.push(self.acc as u8);
                if self.acc as u8 == 0xff {
                    self.out.push(0);
                }
                self.acc = 0;
                self.n = 0;
            }
        }
    }
    fn flush(&mut self) {
        while self.n != 0 {
            self.put(1, 1);
        }
    }
}

fn basis() -> [[f64; 8]; 8] {
    let mut b = [[0.0; 8]; 8];
    for (u, r) in b.iter_mut().enumerate() {
        let c = if u == 0 { (1.0f64 / 8.0).sqrt() } else { 0.5 };
        for (x, v) in r.iter_mut().enumerate() {
            *v = c * ((2 * x + 1) as f64 * u as f64 * PI / 16.0).cos();
        }
    }
    b
}

fn fdct(px: &[f64; 64], b: &[[f64; 8]; 8]) -> [f64; 64] {
    let mut t = [0.0; 64];
    for y in 0..8 {
        for u in 0..8 {
            t[y * 8 + u] = (0..8).map(|x| px[y * 8 + x] * b[u][x]).sum();
        }
    }
    let mut o = [0.0; 64];
    for v in 0..8 {
        for u in 0..8 {
            o[v * 8 + u] = (0..8).map(|y| t[y * 8 + u] * b[v][y]).sum();
        }
    }
    o
}

fn idct(c: &[f64; 64], b: &[[f64; 8]; 8]) -> [f64; 64] {
    let mut t = [0.0; 64];
    for v in 0..8 {
        for x in 0..8 {
            t[v * 8 + x] = (0..8).map(|u| c[v * 8 + u] * b[u][x]).sum();
        }
    }
    let mut o = [0.0; 64];
    for y in 0..8 {
        for x in 0..8 {
            o[y * 8 + x] = (0..8).map(|v| t[v * 8 + x] * b[v][y]).sum();
        }
    }
    o
}


fn seg(marker: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![0xff, marker];
    v.extend(((body.len() + 2) as u16).to_be_bytes());
    v.extend_from_slice(body);
    v
}

pub struct Encoded {
    /// the table segments, in order
    pub tables: Vec<Vec<u8>>,
    /// SOF onwards, through EOI
    pub rest: Vec<u8>,
    pub app0: Option<Vec<u8>>,
    /// what each component decodes to, full size, before any colour conversion
    pub model: Vec<Vec<f64>>,
}

impl Jpeg {
    fn maxf(&self) -> (usize, usize) {
        (
            self.comps.iter().map(|c| c.hs).max().unwrap(),
            self.comps.iter().map(|c| c.vs).max().unwrap(),
        )
    }
    pub fn plane_dims(w: usize, h: usize, hs: usize, vs: usize, hm: usize, vm: usize) -> (usize, usize) {
        ((w * hs).div_ceil(hm), (h * vs).div_ceil(vm))
    }
    pub fn encode(&self) -> Encoded {
        let b = basis();
        let (hm, vm) = self.maxf();
        let single = self.comps.len() == 1;
        let mut tables = vec![];
        for (i, q) in self.qt.iter().enumerate() {
            let mut body = vec![i as u8];
            for z in ZIGZAG {
                body.push(q[z]);
            }
            tables.push(seg(0xdb, &body));
        }
        let classes = if self.comps.iter().any(|c| c.huff == 1) { 2 } else { 1 };
        for k in 0..classes {
            for (cls, t) in [(0u8, [&DC_L, &DC_C][k]), (1, [&AC_L, &AC_C][k])] {
                let mut body = vec![(cls << 4) | k as u8];
                body.extend_from_slice(&t.0);
                body.extend_from_slice(t.1);
                tables.push(seg(0xc4, &body));
            }
        }
        let mut rest = vec![];
        if self.restart > 0 {
            rest.extend(seg(0xdd, &self.restart.to_be_bytes()));
        }
        let mut sof = vec![8];
        sof.extend((self.h as u16).to_be_bytes());
        sof.extend((self.w as u16).to_be_bytes());
        sof.push(self.comps.len() as u8);
        for (i, c) in self.comps.iter().enumerate() {
            sof.extend([self.ids[i], ((c.hs << 4) | c.vs) as u8, c.q as u8]);
        }
        rest.extend(seg(0xc0, &sof));
        let mut sos = vec![self.comps.len() as u8];
        for (i, c) in self.comps.iter().enumerate() {
            sos.extend([self.ids[i], ((c.huff << 4) | c.huff) as u8]);
        }
        sos.extend([0, 63, 0]);
        rest.extend(seg(0xda, &sos));

        // quantise all blocks
        struct Q {
            bw: usize,
            coef: Vec<[i32; 64]>,
            pw: usize,
            rec: Vec<f64>,
        }
        let (mx, my) = if single {
            (self.w.div_ceil(8), self.h.div_ceil(8))
        } else {
            (self.w.div_ceil(8 * hm), self.h.div_ceil(8 * vm))
        };
        let qs: Vec<Q> = self
            .comps
            .iter()
            .map(|c| {
                let (pw, ph) = Self::plane_dims(self.w, self.h, c.hs, c.vs, hm, vm);
                assert_eq!(c.plane.len(), pw * ph);
                let (bw, bh) = if single { (mx, my) } else { (mx * c.hs, my * c.vs) };
                let mut coef = Vec::with_capacity(bw * bh);
                let mut rec = vec![0.0; pw * ph];
                let q = &self.qt[c.q];
                for by in 0..bh {
                    for bx in 0..bw {
                        let mut px = [0.0; 64];
                        for y in 0..8 {
                            for x in 0..8 {
                                let sy = (by * 8 + y).min(ph - 1);
                                let sx = (bx * 8 + x).min(pw - 1);
                                px[y * 8 + x] = c.plane[sy * pw + sx] as f64 - 128.0;
                            }
                        }
                        let f = fdct(&px, &b);
                        let mut k = [0i32; 64];
                        let mut dq = [0.0; 64];
                        for i in 0..64 {
                            let lim = if i == 0 { 1020.0 } else { 1000.0 };
                            k[i] = (f[i].clamp(-lim, lim) / q[i] as f64).round() as i32;
                            dq[i] = (k[i] * q[i] as i32) as f64;
                        }
                        coef.push(k);
                        let r = idct(&dq, &b);
                        for y in 0..8 {
                            for x in 0..8 {
                                let (sy, sx) = (by * 8 + y, bx * 8 + x);
                                if sy < ph && sx < pw {
                                    rec[sy * pw + sx] = (r[y * 8 + x] + 128.0).clamp(0.0, 255.0);
                                }
                            }
                        }
                    }
                }
                Q { bw, coef, pw, rec }
            })
            .collect();

        let dc: Vec<_> = [&DC_L, &DC_C].iter().map(|t| codes(t)).collect();
        let ac: Vec<_> = [&AC_L, &AC_C].iter().map(|t| codes(t)).collect();
        let mut bits = Bits { out: vec![], acc: 0, n: 0 };
        let mut pred = vec![0i32; self.comps.len()];
        let size = |v: i32| (32 - v.unsigned_abs().leading_zeros()) as u8;
        let put_val = |bits: &mut Bits, v: i32, s: u8| {
            let m = if v < 0 { (v - 1) as u32 & ((1u32 << s) - 1) } else { v as u32 };
            bits.put(m, s);
        };
        let mut mcu = 0usize;
        let mut rst = 0u8;
        for yy in 0..my {
            for xx in 0..mx {
                if self.restart > 0 && mcu > 0 && mcu % self.restart as usize == 0 {
                    bits.flush();
                    bits.out.extend([0xff, 0xd0 + rst]);
                    rst = (rst + 1) % 8;
                    pred.fill(0);
                }
                mcu += 1;
                for (ci, c) in self.comps.iter().enumerate() {
                    let (nh, nv) = if single { (1, 1) } else { (c.hs, c.vs) };
                    for v in 0..nv {
                        for u in 0..nh {
                            let k = &qs[ci].coef[(yy * nv + v) * qs[ci].bw + xx * nh + u];
                            let d = k[0] - pred[ci];
                            pred[ci] = k[0];
                            let s = size(d);
                            let (code, len) = dc[c.huff][s as usize].unwrap();
                            bits.put(code, len);
                            put_val(&mut bits, d, s);
                            let mut run = 0;
                            for z in ZIGZAG.iter().skip(1) {
                                let v = k[*z];
                                if v == 0 {
                                    run += 1;
                                    continue;
                                }
                                while run > 15 {
                                    let (code, len) = ac[c.huff][0xf0].unwrap();
                                    bits.put(code, len);
                                    run -= 16;
                                }
                                let s = size(v);
                                let (code, len) = ac[c.huff][((run as u8) << 4 | s) as usize].unwrap();
                                bits.put(code, len);
                                put_val(&mut bits, v, s);
                                run = 0;
                            }
                            if run > 0 {
                                let (code, len) = ac[c.huff][0].unwrap();
                                bits.put(code, len);
                            }
                        }
                    }
                }
            }
        }
        bits.flush();
        rest.extend(bits.out);
        rest.extend([0xff, 0xd9]);
        // full-size model (subsampled planes are constant, so any upsampling gives the same)
        let model = self
            .comps
            .iter()
            .zip(&qs)
            .map(|(c, q)| {
                let mut v = vec![0.0; self.w * self.h];
                for y in 0..self.h {
                    for x in 0..self.w {
                        let (sx, sy) = (x * c.hs / hm, y * c.vs / vm);
                        v[y * self.w + x] = q.rec[sy * q.pw + sx];
                    }
                }
                v
            })
            .collect();
        let app0 = self.app0.then(|| {
            seg(0xe0, &[b'J', b'F', b'I', b'F', 0, 1, 1, 0, 0, 1, 0, 1, 0, 0])
        });
        Encoded { tables, rest, app0, model }
    }
}

impl Encoded {
    /// `in_tag[i]`: table i goes to the shared tables; the rest stays in the tile.
    pub fn split(&self, in_tag: &[bool]) -> (Vec<u8>, Vec<u8>) {
        let mut tag = vec![0xff, 0xd8];
        let mut tile = vec![0xff, 0xd8];
        if let Some(a) = &self.app0 {
            tile.extend_from_slice(a);
        }
        for (i, t) in self.tables.iter().enumerate() {
            if in_tag[i] {
                tag.extend_from_slice(t);
            } else {
                tile.extend_from_slice(t);
            }
        }
        tag.extend([0xff, 0xd9]);
        tile.extend_from_slice(&self.rest);
        (tag, tile)
    }
}
