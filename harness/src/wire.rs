//! Independent AMQP 1.0 type system codec, written from the specification (part 1, section 1.6),
//! sharing nothing with ntex-amqp-codec.  Used as oracle and as generator of alternative encodings.
use crate::rng::Rng;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum V {
    Null,
    Bool(bool),
    Ubyte(u8),
    Ushort(u16),
    Uint(u32),
    Ulong(u64),
    Byte(i8),
    Short(i16),
    Int(i32),
    Long(i64),
    Float(u32),
    Double(u64),
    Dec32([u8; 4]),
    Dec64([u8; 8]),
    Dec128([u8; 16]),
    Char(u32),
    Ts(i64),
    Uuid([u8; 16]),
    Bin(Vec<u8>),
    Str(String),
    Sym(String),
    List(Vec<V>),
    Map(Vec<(V, V)>),
    Array(Vec<V>),
    Desc(Box<V>, Box<V>),
}

pub fn sym(s: &str) -> V {
    V::Sym(s.to_string())
}
pub fn st(s: &str) -> V {
    V::Str(s.to_string())
}
pub fn desc(code: u64, v: V) -> V {
    V::Desc(Box::new(V::Ulong(code)), Box::new(v))
}

impl V {
    /// maps sorted, so that equality is order independent
    pub fn canon(self) -> V {
        match self {
            V::Map(m) => {
                let mut m: Vec<_> = m.into_iter().map(|(k, v)| (k.canon(), v.canon())).collect();
                m.sort();
                V::Map(m)
            }
            V::List(l) => V::List(l.into_iter().map(V::canon).collect()),
            V::Array(l) => V::Array(l.into_iter().map(V::canon).collect()),
            V::Desc(d, v) => V::Desc(d, Box::new(v.canon())),
            v => v,
        }
    }
    pub fn is_null(&self) -> bool {
        matches!(self, V::Null)
    }
    pub fn depth(&self) -> usize {
        1 + match self {
            V::Map(m) => m.iter().map(|(k, v)| k.depth().max(v.depth())).max().unwrap_or(0),
            V::List(l) | V::Array(l) => l.iter().map(V::depth).max().unwrap_or(0),
            V::Desc(_, v) => v.depth(),
            _ => 0,
        }
    }
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub struct WErr(pub String);
type R<T> = Result<T, WErr>;
fn e<T>(s: impl Into<String>) -> R<T> {
    Err(WErr(s.into()))
}

pub struct Dec<'a> {
    pub b: &'a [u8],
    pub pos: usize,
}

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Dec { b, pos: 0 }
    }
    pub fn left(&self) -> usize {
        self.b.len() - self.pos
    }
    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if self.left() < n {
            return e(format!("truncated: need {n} at {} of {}", self.pos, self.b.len()));
        }
        let r = &self.b[self.pos..self.pos + n];
        self.pos += n;
        Ok(r)
    }
    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    fn be(&mut self, n: usize) -> R<u64> {
        Ok(self.take(n)?.iter().fold(0u64, |a, b| (a << 8) | u64::from(*b)))
    }
    pub fn value(&mut self) -> R<V> {
        self.value_d(0)
    }
    fn value_d(&mut self, d: usize) -> R<V> {
        if d > 300 {
            return e("nesting");
        }
        let c = self.u8()?;
        if c == 0 {
            let de = self.value_d(d + 1)?;
            let v = self.value_d(d + 1)?;
            return Ok(V::Desc(Box::new(de), Box::new(v)));
        }
        self.body(c, d)
    }
    fn body(&mut self, c: u8, d: usize) -> R<V> {
        Ok(match c {
            0x40 => V::Null,
            0x41 => V::Bool(true),
            0x42 => V::Bool(false),
            0x56 => match self.u8()? {
                0 => V::Bool(false),
                1 => V::Bool(true),
                x => return e(format!("boolean octet {x}")),
            },
            0x50 => V::Ubyte(self.u8()?),
            0x60 => V::Ushort(self.be(2)? as u16),
            0x70 => V::Uint(self.be(4)? as u32),
            0x52 => V::Uint(u32::from(self.u8()?)),
            0x43 => V::Uint(0),
            0x80 => V::Ulong(self.be(8)?),
            0x53 => V::Ulong(u64::from(self.u8()?)),
            0x44 => V::Ulong(0),
            0x51 => V::Byte(self.u8()? as i8),
            0x61 => V::Short(self.be(2)? as i16),
            0x71 => V::Int(self.be(4)? as i32),
            0x54 => V::Int(i32::from(self.u8()? as i8)),
            0x81 => V::Long(self.be(8)? as i64),
            0x55 => V::Long(i64::from(self.u8()? as i8)),
            0x72 => V::Float(self.be(4)? as u32),
            0x82 => V::Double(self.be(8)?),
            0x74 => V::Dec32(self.take(4)?.try_into().unwrap()),
            0x84 => V::Dec64(self.take(8)?.try_into().unwrap()),
            0x94 => V::Dec128(self.take(16)?.try_into().unwrap()),
            0x73 => {
                let u = self.be(4)? as u32;
                if char::from_u32(u).is_none() {
                    return e(format!("char {u:#x}"));
                }
                V::Char(u)
            }
            0x83 => V::Ts(self.be(8)? as i64),
            0x98 => V::Uuid(self.take(16)?.try_into().unwrap()),
            0xa0 | 0xb0 => {
                let n = self.be(if c == 0xa0 { 1 } else { 4 })? as usize;
                V::Bin(self.take(n)?.to_vec())
            }
            0xa1 | 0xb1 => {
                let n = self.be(if c == 0xa1 { 1 } else { 4 })? as usize;
                match std::str::from_utf8(self.take(n)?) {
                    Ok(s) => V::Str(s.to_string()),
                    Err(_) => return e("utf8"),
                }
            }
            0xa3 | 0xb3 => {
                let n = self.be(if c == 0xa3 { 1 } else { 4 })? as usize;
                let b = self.take(n)?;
                if !b.is_ascii() {
                    return e("symbol not ascii");
                }
                V::Sym(String::from_utf8(b.to_vec()).unwrap())
            }
            0x45 => V::List(vec![]),
            0xc0 | 0xd0 | 0xc1 | 0xd1 => {
                let w = if c & 0xf0 == 0xc0 { 1 } else { 4 };
                let size = self.be(w)? as usize;
                if size < w {
                    return e("compound size smaller than its count");
                }
                let body = self.take(size)?;
                let mut s = Dec::new(body);
                let count = s.be(w)? as usize;
                if count > body.len() {
                    return e("count larger than the bytes present");
                }
                let mut items = vec![];
                for _ in 0..count {
                    items.push(s.value_d(d + 1)?);
                }
                if s.left() != 0 {
                    return e(format!("compound: {} bytes beyond its {count} elements", s.left()));
                }
                if c & 0x0f == 0 {
                    V::List(items)
                } else {
                    if count % 2 != 0 {
                        return e("map with odd count");
                    }
                    let mut m = vec![];
                    let mut it = items.into_iter();
                    while let (Some(k), Some(v)) = (it.next(), it.next()) {
                        m.push((k, v));
                    }
                    V::Map(m)
                }
            }
            0xe0 | 0xf0 => {
                let w = if c == 0xe0 { 1 } else { 4 };
                let size = self.be(w)? as usize;
                if size < w + 1 {
                    return e("array size too small");
                }
                let body = self.take(size)?;
                let mut s = Dec::new(body);
                let count = s.be(w)? as usize;
                let mut ds = vec![];
                let mut code = s.u8()?;
                while code == 0 {
                    ds.push(s.value_d(d + 1)?);
                    code = s.u8()?;
                }
                if count > 1_000_000 {
                    return e("array count");
                }
                let mut items = vec![];
                for _ in 0..count {
                    let mut v = s.body(code, d + 1)?;
                    for de in ds.iter().rev() {
                        v = V::Desc(Box::new(de.clone()), Box::new(v));
                    }
                    items.push(v);
                }
                if s.left() != 0 {
                    return e(format!("array: {} bytes beyond its {count} elements", s.left()));
                }
                V::Array(items)
            }
            _ => return e(format!("unknown constructor {c:#04x}")),
        })
    }
}

pub fn decode_one(b: &[u8]) -> R<V> {
    let mut d = Dec::new(b);
    let v = d.value()?;
    if d.left() != 0 {
        return e(format!("{} trailing bytes", d.left()));
    }
    Ok(v)
}

/// How to choose among the encodings the specification allows.
pub struct Style {
    pub rng: Option<Rng>,
}
impl Style {
    pub fn smallest() -> Self {
        Style { rng: None }
    }
    pub fn random(r: Rng) -> Self {
        Style { rng: Some(r) }
    }
    /// true: use the smallest legal form
    fn small(&mut self) -> bool {
        self.rng.as_mut().is_none_or(|r| r.chance(55))
    }
    fn pct(&mut self, p: usize) -> bool {
        self.rng.as_mut().is_some_and(|r| r.chance(p))
    }
}

fn var(out: &mut Vec<u8>, c8: u8, c32: u8, b: &[u8], st: &mut Style) {
    if b.len() < 256 && st.small() {
        out.push(c8);
        out.push(b.len() as u8);
    } else {
        out.push(c32);
        out.extend((b.len() as u32).to_be_bytes());
    }
    out.extend_from_slice(b);
}
fn compound(out: &mut Vec<u8>, c8: u8, c32: u8, count: usize, b: &[u8], st: &mut Style) {
    if b.len() < 255 && count < 256 && st.small() {
        out.push(c8);
        out.push(b.len() as u8 + 1);
        out.push(count as u8);
    } else {
        out.push(c32);
        out.extend((b.len() as u32 + 4).to_be_bytes());
        out.extend((count as u32).to_be_bytes());
    }
    out.extend_from_slice(b);
}

pub fn encode(v: &V, st: &mut Style) -> Vec<u8> {
    let mut out = vec![];
    enc(v, &mut out, st);
    out
}

pub fn enc(v: &V, out: &mut Vec<u8>, s: &mut Style) {
    match v {
        V::Null => out.push(0x40),
        V::Bool(b) => {
            if s.pct(30) {
                out.push(0x56);
                out.push(u8::from(*b));
            } else {
                out.push(if *b { 0x41 } else { 0x42 });
            }
        }
        V::Ubyte(x) => out.extend([0x50, *x]),
        V::Ushort(x) => {
            out.push(0x60);
            out.extend(x.to_be_bytes());
        }
        V::Uint(x) => {
            if *x == 0 && s.small() {
                out.push(0x43);
            } else if *x < 256 && s.small() {
                out.extend([0x52, *x as u8]);
            } else {
                out.push(0x70);
                out.extend(x.to_be_bytes());
            }
        }
        V::Ulong(x) => {
            if *x == 0 && s.small() {
                out.push(0x44);
            } else if *x < 256 && s.small() {
                out.extend([0x53, *x as u8]);
            } else {
                out.push(0x80);
                out.extend(x.to_be_bytes());
            }
        }
        V::Byte(x) => out.extend([0x51, *x as u8]),
        V::Short(x) => {
            out.push(0x61);
            out.extend(x.to_be_bytes());
        }
        V::Int(x) => {
            if (-128..128).contains(x) && s.small() {
                out.extend([0x54, *x as u8]);
            } else {
                out.push(0x71);
                out.extend(x.to_be_bytes());
            }
        }
        V::Long(x) => {
            if (-128..128).contains(x) && s.small() {
                out.extend([0x55, *x as u8]);
            } else {
                out.push(0x81);
                out.extend(x.to_be_bytes());
            }
        }
        V::Float(x) => {
            out.push(0x72);
            out.extend(x.to_be_bytes());
        }
        V::Double(x) => {
            out.push(0x82);
            out.extend(x.to_be_bytes());
        }
        V::Dec32(x) => {
            out.push(0x74);
            out.extend(x);
        }
        V::Dec64(x) => {
            out.push(0x84);
            out.extend(x);
        }
        V::Dec128(x) => {
            out.push(0x94);
            out.extend(x);
        }
        V::Char(x) => {
            out.push(0x73);
            out.extend(x.to_be_bytes());
        }
        V::Ts(x) => {
            out.push(0x83);
            out.extend(x.to_be_bytes());
        }
        V::Uuid(x) => {
            out.push(0x98);
            out.extend(x);
        }
        V::Bin(b) => var(out, 0xa0, 0xb0, b, s),
        V::Str(b) => var(out, 0xa1, 0xb1, b.as_bytes(), s),
        V::Sym(b) => var(out, 0xa3, 0xb3, b.as_bytes(), s),
        V::List(l) => {
            if l.is_empty() && s.small() {
                out.push(0x45);
            } else {
                let mut b = vec![];
                for x in l {
                    enc(x, &mut b, s);
                }
                compound(out, 0xc0, 0xd0, l.len(), &b, s);
            }
        }
        V::Map(m) => {
            let mut b = vec![];
            for (k, x) in m {
                enc(k, &mut b, s);
                enc(x, &mut b, s);
            }
            compound(out, 0xc1, 0xd1, m.len() * 2, &b, s);
        }
        V::Array(l) => {
            let mut b = vec![];
            // constructor wide enough for every element; an empty array gets the symbol constructor
            let code = array_code(l, s);
            let mut first = l.first().cloned();
            while let Some(V::Desc(d, inner)) = first {
                b.push(0);
                enc(&d, &mut b, s);
                first = Some(*inner);
            }
            b.push(code);
            for x in l {
                let mut x = x;
                while let V::Desc(_, i) = x {
                    x = i;
                }
                array_elem(x, code, &mut b, s);
            }
            compound(out, 0xe0, 0xf0, l.len(), &b, s);
        }
        V::Desc(d, x) => {
            out.push(0);
            enc(d, out, s);
            enc(x, out, s);
        }
    }
}

fn strip(v: &V) -> &V {
    let mut x = v;
    while let V::Desc(_, i) = x {
        x = i;
    }
    x
}

fn array_code(l: &[V], s: &mut Style) -> u8 {
    let Some(f) = l.first() else { return 0xa3 };
    let all = |p: &dyn Fn(&V) -> bool| l.iter().all(|x| p(strip(x)));
    let small = s.small();
    match strip(f) {
        V::Null => 0x40,
        V::Bool(_) => {
            if small && all(&|x| *x == V::Bool(true)) {
                0x41
            } else if small && all(&|x| *x == V::Bool(false)) {
                0x42
            } else {
                0x56
            }
        }
        V::Ubyte(_) => 0x50,
        V::Ushort(_) => 0x60,
        V::Uint(_) => {
            if small && all(&|x| *x == V::Uint(0)) {
                0x43
            } else if small && all(&|x| matches!(x, V::Uint(n) if *n < 256)) {
                0x52
            } else {
                0x70
            }
        }
        V::Ulong(_) => {
            if small && all(&|x| *x == V::Ulong(0)) {
                0x44
            } else if small && all(&|x| matches!(x, V::Ulong(n) if *n < 256)) {
                0x53
            } else {
                0x80
            }
        }
        V::Byte(_) => 0x51,
        V::Short(_) => 0x61,
        V::Int(_) => {
            if small && all(&|x| matches!(x, V::Int(n) if (-128..128).contains(n))) {
                0x54
            } else {
                0x71
            }
        }
        V::Long(_) => {
            if small && all(&|x| matches!(x, V::Long(n) if (-128..128).contains(n))) {
                0x55
            } else {
                0x81
            }
        }
        V::Float(_) => 0x72,
        V::Double(_) => 0x82,
        V::Dec32(_) => 0x74,
        V::Dec64(_) => 0x84,
        V::Dec128(_) => 0x94,
        V::Char(_) => 0x73,
        V::Ts(_) => 0x83,
        V::Uuid(_) => 0x98,
        V::Bin(_) => {
            if small && all(&|x| matches!(x, V::Bin(b) if b.len() < 256)) {
                0xa0
            } else {
                0xb0
            }
        }
        V::Str(_) => {
            if small && all(&|x| matches!(x, V::Str(b) if b.len() < 256)) {
                0xa1
            } else {
                0xb1
            }
        }
        V::Sym(_) => {
            if small && all(&|x| matches!(x, V::Sym(b) if b.len() < 256)) {
                0xa3
            } else {
                0xb3
            }
        }
        V::List(_) => 0xd0,
        V::Map(_) => 0xd1,
        V::Array(_) => 0xf0,
        V::Desc(..) => unreachable!(),
    }
}

fn array_elem(x: &V, code: u8, out: &mut Vec<u8>, s: &mut Style) {
    // encode as full form, forcing the constructor
    match (x, code) {
        (_, 0x40..=0x45) => {}
        (V::Bool(b), _) => out.push(u8::from(*b)),
        (V::Uint(n), 0x52) => out.push(*n as u8),
        (V::Uint(n), _) => out.extend(n.to_be_bytes()),
        (V::Ulong(n), 0x53) => out.push(*n as u8),
        (V::Ulong(n), _) => out.extend(n.to_be_bytes()),
        (V::Int(n), 0x54) => out.push(*n as u8),
        (V::Int(n), _) => out.extend(n.to_be_bytes()),
        (V::Long(n), 0x55) => out.push(*n as u8),
        (V::Long(n), _) => out.extend(n.to_be_bytes()),
        (V::Bin(b), c) => elem_var(b, c == 0xa0, out),
        (V::Str(b), c) => elem_var(b.as_bytes(), c == 0xa1, out),
        (V::Sym(b), c) => elem_var(b.as_bytes(), c == 0xa3, out),
        (V::List(l), _) => {
            let mut b = vec![];
            for i in l {
                enc(i, &mut b, s);
            }
            elem_comp(l.len(), &b, out);
        }
        (V::Map(m), _) => {
            let mut b = vec![];
            for (k, v) in m {
                enc(k, &mut b, s);
                enc(v, &mut b, s);
            }
            elem_comp(m.len() * 2, &b, out);
        }
        (V::Array(_), _) => {
            let mut force32 = Style { rng: None };
            let mut b = vec![];
            enc(x, &mut b, &mut force32);
            // convert to array32 body
            if b[0] == 0xf0 {
                out.extend_from_slice(&b[1..]);
            } else {
                let count = u32::from(b[2]);
                out.extend((b.len() as u32 - 3 + 4).to_be_bytes());
                out.extend(count.to_be_bytes());
                out.extend_from_slice(&b[3..]);
            }
        }
        _ => {
            let mut b = vec![];
            enc(x, &mut b, &mut Style { rng: None });
            out.extend_from_slice(&b[1..]);
        }
    }
}
fn elem_var(b: &[u8], small: bool, out: &mut Vec<u8>) {
    if small {
        out.push(b.len() as u8);
    } else {
        out.extend((b.len() as u32).to_be_bytes());
    }
    out.extend_from_slice(b);
}
fn elem_comp(count: usize, b: &[u8], out: &mut Vec<u8>) {
    out.extend((b.len() as u32 + 4).to_be_bytes());
    out.extend((count as u32).to_be_bytes());
    out.extend_from_slice(b);
}

/// A frame as seen on the wire by the monitor: size/doff/type/channel checked independently.
#[derive(Clone, Debug, PartialEq)]
pub struct WFrame {
    pub size: usize,
    pub doff: u8,
    pub ftype: u8,
    pub channel: u16,
    /// None: empty (heartbeat) frame
    pub perf: Option<V>,
    pub payload: Vec<u8>,
}

/// Splits complete frames off the front of `buf`
pub fn take_frame(buf: &mut Vec<u8>) -> R<Option<WFrame>> {
    if buf.len() < 8 {
        return Ok(None);
    }
    let size = u32::from_be_bytes(buf[..4].try_into().unwrap()) as usize;
    if size < 8 {
        return e(format!("frame size {size} below header"));
    }
    if buf.len() < size {
        return Ok(None);
    }
    let fr: Vec<u8> = buf.drain(..size).collect();
    parse_frame(&fr).map(Some)
}

pub fn parse_frame(fr: &[u8]) -> R<WFrame> {
    let size = u32::from_be_bytes(fr[..4].try_into().unwrap()) as usize;
    if size != fr.len() {
        return e(format!("frame declares {size} bytes but has {}", fr.len()));
    }
    let doff = fr[4];
    if doff < 2 || usize::from(doff) * 4 > size {
        return e(format!("doff {doff}"));
    }
    let mut d = Dec::new(&fr[usize::from(doff) * 4..]);
    let mut perf = None;
    if d.left() > 0 {
        perf = Some(d.value()?);
    }
    let payload = d.b[d.pos..].to_vec();
    Ok(WFrame {
        size,
        doff,
        ftype: fr[5],
        channel: u16::from_be_bytes([fr[6], fr[7]]),
        perf,
        payload,
    })
}

/// Builds a frame around a performative
pub fn build_frame(ftype: u8, channel: u16, perf: Option<&V>, payload: &[u8], st: &mut Style, ext: &[u8]) -> Vec<u8> {
    let mut out = vec![0, 0, 0, 0, 2 + (ext.len() / 4) as u8, ftype];
    out.extend(channel.to_be_bytes());
    out.extend_from_slice(ext);
    if let Some(p) = perf {
        enc(p, &mut out, st);
    }
    out.extend_from_slice(payload);
    let n = out.len() as u32;
    out[..4].copy_from_slice(&n.to_be_bytes());
    out
}

impl WFrame {
    /// (descriptor code, fields) of the performative, symbolic descriptors resolved
    pub fn parts(&self) -> R<Option<(u64, &[V])>> {
        match &self.perf {
            None => Ok(None),
            Some(V::Desc(d, l)) => {
                let code = match &**d {
                    V::Ulong(c) => *c,
                    V::Sym(s) => crate::schema::code_of(s).ok_or_else(|| WErr(format!("descriptor {s}")))?,
                    x => return e(format!("descriptor {x:?}")),
                };
                match &**l {
                    V::List(f) => Ok(Some((code, f))),
                    x => e(format!("performative body is not a list: {x:?}")),
                }
            }
            Some(x) => e(format!("performative is not a described list: {x:?}")),
        }
    }
}
