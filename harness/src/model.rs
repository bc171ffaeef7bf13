//! Interpreter of what the specification exports (GenTables.tla): formats,
//! conversions, recipes of the destination channels. There is no knowledge
//! about formats or colors in the harness itself.
use serde_json::Value;
use std::collections::HashMap;

#[derive(Clone, Debug)]
pub struct Area {
    pub chan: Vec<String>,
    pub sx: u32,
    pub sy: u32,
}

impl Area {
    pub fn row(&self, w: u64) -> u64 {
        self.chan.len() as u64 * (w >> self.sx)
    }
    pub fn rows(&self, h: u64) -> u64 {
        h >> self.sy
    }
}

pub type Plane = Vec<Area>;

#[derive(Clone, Debug)]
pub struct Desc {
    pub pf: u32,
    pub cs: u32,
    pub np: u32,
    pub planes: Vec<Plane>,
}

pub fn packed(p: &Plane, w: u64) -> u64 {
    p[0].row(w)
}

pub fn total_rows(p: &Plane, h: u64) -> u64 {
    p.iter().map(|a| a.rows(h)).sum()
}

/// Bytes of a buffer that just holds the plane (rows at least a row apart)
pub fn needs(p: &Plane, w: u64, h: u64, stride: u64) -> u64 {
    let last = p.last().unwrap();
    stride.wrapping_mul(total_rows(p, h).wrapping_sub(1)).wrapping_add(last.row(w))
}

#[derive(Clone, Debug)]
pub enum Kind {
    Const(u8),
    Copy(usize),
    Sum { tables: [usize; 3], k: i64, div: i64 },
}

#[derive(Clone, Debug)]
pub struct Recipe {
    pub chan: String,
    pub kind: Kind,
}

#[derive(Clone, Debug)]
pub struct Conv {
    pub id: usize,
    pub src: Desc,
    pub dst: Desc,
    pub group: String,
    pub even_w: bool,
    pub even_h: bool,
    /// source channels, in the order the recipes refer to them
    pub inputs: Vec<String>,
    pub recipes: HashMap<String, Recipe>,
}

pub struct Format {
    pub pf: u32,
    pub name: String,
    pub rgb: bool,
    pub layouts: Vec<(u32, Vec<Plane>)>,
    pub even_w: bool,
    pub even_h: bool,
}

pub struct Spec {
    pub formats: Vec<Format>,
    pub spaces: Vec<String>,
    pub convs: Vec<Conv>,
    pub luts: Vec<Vec<i32>>,
    /// format, color space, planes, odd width, odd height of what describes an image
    pub described: std::collections::HashSet<(u32, u32, u32, bool, bool)>,
    pub pairs: std::collections::HashSet<(u32, u32)>,
    pub raw: Value,
}

fn area(v: &Value) -> Area {
    Area {
        chan: v["chan"].as_array().unwrap().iter().map(|c| c.as_str().unwrap().to_string()).collect(),
        sx: v["sx"].as_u64().unwrap() as u32,
        sy: v["sy"].as_u64().unwrap() as u32,
    }
}

fn planes(v: &Value) -> Vec<Plane> {
    v.as_array().unwrap().iter().map(|p| p.as_array().unwrap().iter().map(area).collect()).collect()
}

fn desc(v: &Value) -> Desc {
    Desc {
        pf: v["pf"].as_u64().unwrap() as u32,
        cs: v["cs"].as_u64().unwrap() as u32,
        np: v["np"].as_u64().unwrap() as u32,
        planes: planes(&v["planes"]),
    }
}

impl Spec {
    pub fn load(path: &str) -> Spec {
        let raw: Value = serde_json::from_str(&std::fs::read_to_string(path).unwrap()).unwrap();
        let mut lut_index = HashMap::new();
        let mut luts = vec![];
        for l in raw["luts"].as_array().unwrap() {
            lut_index.insert(l["name"].as_str().unwrap().to_string(), luts.len());
            luts.push(l["values"].as_array().unwrap().iter().map(|x| x.as_i64().unwrap() as i32).collect());
        }
        let convs = raw["conversions"].as_array().unwrap().iter().enumerate().map(|(id, c)| {
            let mut inputs: Vec<String> = vec![];
            let mut index = |n: &str| {
                inputs.iter().position(|x| x == n).unwrap_or_else(|| {
                    inputs.push(n.to_string());
                    inputs.len() - 1
                })
            };
            let recipes = c["recipes"].as_array().unwrap().iter().map(|r| {
                let chan = r["chan"].as_str().unwrap().to_string();
                let kind = match r["kind"].as_str().unwrap() {
                    "const" => Kind::Const(r["value"].as_u64().unwrap() as u8),
                    "copy" => Kind::Copy(index(r["from"][0].as_str().unwrap())),
                    "sum" => {
                        for k in 0..3 {
                            assert_eq!(index(r["from"][k].as_str().unwrap()), k);
                        }
                        let t = |k: usize| lut_index[r["tables"][k].as_str().unwrap()];
                        Kind::Sum {
                            tables: [t(0), t(1), t(2)],
                            k: r["k"].as_i64().unwrap(),
                            div: r["div"].as_i64().unwrap(),
                        }
                    }
                    x => panic!("recipe {x}"),
                };
                (chan.clone(), Recipe { chan, kind })
            }).collect();
            Conv {
                id,
                src: desc(&c["src"]),
                dst: desc(&c["dst"]),
                group: c["group"].as_str().unwrap().to_string(),
                even_w: c["even_w"].as_bool().unwrap(),
                even_h: c["even_h"].as_bool().unwrap(),
                inputs,
                recipes,
            }
        }).collect();
        let formats = raw["formats"].as_array().unwrap().iter().map(|f| Format {
            pf: f["pf"].as_u64().unwrap() as u32,
            name: f["name"].as_str().unwrap().to_string(),
            rgb: f["rgb"].as_bool().unwrap(),
            layouts: f["plane_counts"].as_array().unwrap().iter().zip(f["layouts"].as_array().unwrap())
                .map(|(n, l)| (n.as_u64().unwrap() as u32, planes(l))).collect(),
            even_w: f["even_w"].as_bool().unwrap(),
            even_h: f["even_h"].as_bool().unwrap(),
        }).collect();
        let spaces = raw["spaces"].as_array().unwrap().iter().map(|s| s.as_str().unwrap().to_string()).collect();
        let ints = |v: &Value| -> Vec<u32> { v.as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect() };
        let described = raw["described"].as_array().unwrap().iter().map(|x| {
            let x = ints(x);
            (x[0], x[1], x[2], x[3] % 2 == 1, x[4] % 2 == 1)
        }).collect();
        let pairs = raw["pairs"].as_array().unwrap().iter().map(|x| { let x = ints(x); (x[0], x[1]) }).collect();
        Spec { formats, spaces, convs, luts, described, pairs, raw }
    }

    pub fn describes(&self, pf: u32, cs: u32, np: u32, w: u32, h: u32) -> bool {
        self.described.contains(&(pf, cs, np, w % 2 == 1, h % 2 == 1))
    }

    pub fn desc_name(&self, d: &Desc) -> String {
        format!("{}/{} {}", self.formats[d.pf as usize].name, d.np, self.spaces[d.cs as usize])
    }
    pub fn name(&self, c: &Conv) -> String {
        format!("{} -> {}", self.desc_name(&c.src), self.desc_name(&c.dst))
    }
}

/// A plane in memory
#[derive(Clone, Copy)]
pub struct View<'a> {
    pub bytes: &'a [u8],
    pub stride: usize,
}

struct Chan<'a> {
    bytes: &'a [u8],
    stride: usize,
    row0: usize,
    step: usize,
    off: usize,
    sx: u32,
    sy: u32,
}

impl Chan<'_> {
    #[inline(always)]
    fn at(&self, x: usize, y: usize) -> u8 {
        self.bytes[(self.row0 + (y >> self.sy)) * self.stride + (x >> self.sx) * self.step + self.off]
    }
}

fn chan<'a>(d: &Desc, views: &[View<'a>], h: usize, name: &str) -> Chan<'a> {
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        for a in plane {
            if let Some(off) = a.chan.iter().position(|c| c == name) {
                return Chan { bytes: views[p].bytes, stride: views[p].stride, row0,
                              step: a.chan.len(), off, sx: a.sx, sy: a.sy };
            }
            row0 += a.rows(h as u64) as usize;
        }
    }
    panic!("channel {name}");
}

impl Conv {
    /// Writes the converted image into `out` (one buffer per plane, with the
    /// given strides), leaving all other bytes alone.
    pub fn expect(&self, spec: &Spec, w: usize, h: usize, src: &[View], out: &mut [(&mut [u8], usize)]) {
        let ins: Vec<Chan> = self.inputs.iter().map(|n| chan(&self.src, src, h, n)).collect();
        for (p, plane) in self.dst.planes.iter().enumerate() {
            let mut row0 = 0;
            let (buf, stride) = &mut out[p];
            for a in plane {
                let (cols, rows) = (w >> a.sx, h >> a.sy);
                let step = a.chan.len();
                for (off, c) in a.chan.iter().enumerate() {
                    match &self.recipes[c].kind {
                        Kind::Const(v) => {
                            for j in 0..rows {
                                let o = (row0 + j) * *stride + off;
                                for i in 0..cols {
                                    buf[o + i * step] = *v;
                                }
                            }
                        }
                        Kind::Copy(k) => {
                            let s = &ins[*k];
                            for j in 0..rows {
                                let o = (row0 + j) * *stride + off;
                                for i in 0..cols {
                                    buf[o + i * step] = s.at(i, j);
                                }
                            }
                        }
                        Kind::Sum { tables, k, div } => {
                            let t: [&[i32]; 3] = [&spec.luts[tables[0]], &spec.luts[tables[1]], &spec.luts[tables[2]]];
                            let (fx, fy) = (1usize << a.sx, 1usize << a.sy);
                            for j in 0..rows {
                                let o = (row0 + j) * *stride + off;
                                for i in 0..cols {
                                    let mut s = *k as i32;
                                    for y in 0..fy {
                                        for x in 0..fx {
                                            let (x, y) = (i * fx + x, j * fy + y);
                                            s += t[0][ins[0].at(x, y) as usize]
                                                + t[1][ins[1].at(x, y) as usize]
                                                + t[2][ins[2].at(x, y) as usize];
                                        }
                                    }
                                    let v = if *div == 64 { s >> 6 } else if *div == 65536 { s >> 16 } else { s.div_euclid(*div as i32) };
                                    buf[o + i * step] = v.clamp(0, 255) as u8;
                                }
                            }
                        }
                    }
                }
                row0 += rows;
            }
        }
    }

    /// Marks, in `out`, the bytes of the destination image with the number of
    /// their channel plus one.
    pub fn footprint(&self, w: usize, h: usize, out: &mut [(&mut [u8], usize)]) {
        footprint(&self.dst, w, h, out);
    }
}

pub fn footprint(d: &Desc, w: usize, h: usize, out: &mut [(&mut [u8], usize)]) {
    let mut n = 0;
    for (p, plane) in d.planes.iter().enumerate() {
        let mut row0 = 0;
        let (buf, stride) = &mut out[p];
        for a in plane {
            let (row, rows) = (a.row(w as u64) as usize, h >> a.sy);
            for j in 0..rows {
                let o = (row0 + j) * *stride;
                for i in 0..row {
                    buf[o + i] = n + 1 + (i % a.chan.len()) as u8;
                }
            }
            row0 += rows;
            n += a.chan.len() as u8;
        }
    }
}

/// Channel names in the numbering of `footprint`
pub fn channels(d: &Desc) -> Vec<String> {
    d.planes.iter().flatten().flat_map(|a| a.chan.clone()).collect()
}
