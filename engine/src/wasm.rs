//! Decoder: WebAssembly binary (memory64) -> flat internal code.
use std::collections::HashMap;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Ty {
    I32,
    I64,
    F32,
    F64,
    Ref,
}

#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct FuncType {
    pub params: Vec<Ty>,
    pub results: Vec<Ty>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ld {
    I32,
    I64,
    I32U8,
    I32S8,
    I32U16,
    I32S16,
    I64U8,
    I64S8,
    I64U16,
    I64S16,
    I64U32,
    I64S32,
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    Unreachable,
    /// target, stack height to keep (relative to frame base), values carried
    Br { to: u32, height: u32, keep: u32 },
    BrIf { to: u32, height: u32, keep: u32 },
    /// branch when zero; no unwinding needed (used for `if`)
    BrZ { to: u32 },
    Jmp { to: u32 },
    BrTable { first: u32, n: u32 },
    Return,
    Call(u32),
    CallIndirect { ty: u32, table: u32 },
    Drop,
    Select,
    LocalGet(u32),
    LocalSet(u32),
    LocalTee(u32),
    GlobalGet(u32),
    GlobalSet(u32),
    Load { k: Ld, off: u64 },
    Store { n: u8, off: u64 },
    MemSize,
    MemGrow,
    Const(u64),
    Un(u8),
    Bin(u8),
    Trunc(u8),
    MemCopy,
    MemFill,
    /// unsupported opcode: error when reached
    Unsupported(u32),
}

pub struct Func {
    pub ty: u32,
    pub nparams: u32,
    pub nlocals: u32, // incl. params
    pub nresults: u32,
    pub code: Vec<Op>,
    pub name: String,
}

#[derive(Clone, Debug)]
pub enum Init {
    Const(u64),
    Global(u32),
}

pub struct Module {
    pub types: Vec<FuncType>,
    pub imports: Vec<(String, String, u32)>,
    pub funcs: Vec<Func>, // defined functions
    pub table: Vec<u32>,  // u32::MAX = null
    pub mem_min: u64,
    pub globals: Vec<Init>,
    pub exports: HashMap<String, u32>,
    pub data: Vec<(u64, Vec<u8>)>,
    pub br_tables: Vec<(u32, u32, u32)>,
    pub names: HashMap<u32, String>,
}

struct R<'a> {
    d: &'a [u8],
    p: usize,
}

impl<'a> R<'a> {
    fn u8(&mut self) -> u8 {
        let b = self.d[self.p];
        self.p += 1;
        b
    }
    fn uleb(&mut self) -> u64 {
        let mut r = 0u64;
        let mut s = 0;
        loop {
            let b = self.u8();
            r |= ((b & 0x7f) as u64) << s;
            s += 7;
            if b & 0x80 == 0 {
                return r;
            }
        }
    }
    fn u32(&mut self) -> u32 {
        self.uleb() as u32
    }
    fn sleb(&mut self) -> i64 {
        let mut r = 0i64;
        let mut s = 0;
        loop {
            let b = self.u8();
            if s < 64 {
                r |= ((b & 0x7f) as i64) << s;
            }
            s += 7;
            if b & 0x80 == 0 {
                if s < 64 && b & 0x40 != 0 {
                    r |= -1i64 << s;
                }
                return r;
            }
        }
    }
    fn bytes(&mut self, n: usize) -> &'a [u8] {
        let r = &self.d[self.p..self.p + n];
        self.p += n;
        r
    }
    fn name(&mut self) -> String {
        let n = self.uleb() as usize;
        String::from_utf8_lossy(self.bytes(n)).into_owned()
    }
    fn ty(&mut self) -> Ty {
        match self.u8() {
            0x7f => Ty::I32,
            0x7e => Ty::I64,
            0x7d => Ty::F32,
            0x7c => Ty::F64,
            0x70 | 0x6f => Ty::Ref,
            b => panic!("valtype {b:#x}"),
        }
    }
    fn limits(&mut self) -> (u64, Option<u64>) {
        let f = self.u8();
        let min = self.uleb();
        let max = if f & 1 != 0 { Some(self.uleb()) } else { None };
        (min, max)
    }
    fn init(&mut self) -> Init {
        let v = match self.u8() {
            0x41 => Init::Const(self.sleb() as i32 as u32 as u64),
            0x42 => Init::Const(self.sleb() as u64),
            0x23 => Init::Global(self.u32()),
            0x44 => {
                let b = self.bytes(8);
                Init::Const(u64::from_le_bytes(b.try_into().unwrap()))
            }
            0x43 => {
                let b = self.bytes(4);
                Init::Const(u32::from_le_bytes(b.try_into().unwrap()) as u64)
            }
            0xd0 => {
                self.u8();
                Init::Const(u64::MAX)
            }
            0xd2 => Init::Const(self.u32() as u64),
            b => panic!("init expr {b:#x}"),
        };
        assert_eq!(self.u8(), 0x0b, "only simple init exprs");
        v
    }
}

struct Ctl {
    kind: u8, // 0 block 1 loop 2 if 3 else 4 func
    height: u32,
    nparams: u32,
    nresults: u32,
    start: u32,
    fixups: Vec<Fix>,
    else_fix: Option<u32>,
    unreachable: bool,
}
enum Fix {
    Code(u32),
    Table(u32),
}

pub fn decode(d: &[u8]) -> Module {
    assert_eq!(&d[0..4], b"\0asm");
    let mut r = R { d, p: 8 };
    let mut m = Module {
        types: vec![],
        imports: vec![],
        funcs: vec![],
        table: vec![],
        mem_min: 0,
        globals: vec![],
        exports: HashMap::new(),
        data: vec![],
        br_tables: vec![],
        names: HashMap::new(),
    };
    let mut ftypes: Vec<u32> = vec![];
    let mut bodies: Vec<(usize, usize)> = vec![];
    let mut gtypes: Vec<Ty> = vec![];
    let mut elems: Vec<(Init, Vec<u32>)> = vec![];
    let mut datas: Vec<(Init, Vec<u8>)> = vec![];
    while r.p < d.len() {
        let id = r.u8();
        let n = r.uleb() as usize;
        let end = r.p + n;
        match id {
            0 => {
                let nm = r.name();
                if nm == "name" {
                    while r.p < end {
                        let sid = r.u8();
                        let sn = r.uleb() as usize;
                        let send = r.p + sn;
                        if sid == 1 {
                            let c = r.uleb();
                            for _ in 0..c {
                                let i = r.u32();
                                let s = r.name();
                                m.names.insert(i, s);
                            }
                        }
                        r.p = send;
                    }
                }
            }
            1 => {
                let c = r.uleb();
                for _ in 0..c {
                    assert_eq!(r.u8(), 0x60);
                    let np = r.uleb();
                    let params = (0..np).map(|_| r.ty()).collect();
                    let nr = r.uleb();
                    let results = (0..nr).map(|_| r.ty()).collect();
                    m.types.push(FuncType { params, results });
                }
            }
            2 => {
                let c = r.uleb();
                for _ in 0..c {
                    let a = r.name();
                    let b = r.name();
                    match r.u8() {
                        0 => {
                            let t = r.u32();
                            m.imports.push((a, b, t));
                        }
                        k => panic!("import kind {k} {a}.{b}"),
                    }
                }
            }
            3 => {
                let c = r.uleb();
                for _ in 0..c {
                    ftypes.push(r.u32());
                }
            }
            4 => {
                let c = r.uleb();
                for _ in 0..c {
                    r.ty();
                    let (min, _) = r.limits();
                    if m.table.is_empty() {
                        m.table = vec![u32::MAX; min as usize];
                    }
                }
            }
            5 => {
                let c = r.uleb();
                assert_eq!(c, 1);
                let (min, _) = r.limits();
                m.mem_min = min;
            }
            6 => {
                let c = r.uleb();
                for _ in 0..c {
                    gtypes.push(r.ty());
                    r.u8();
                    let i = r.init();
                    m.globals.push(i);
                }
            }
            7 => {
                let c = r.uleb();
                for _ in 0..c {
                    let nm = r.name();
                    let k = r.u8();
                    let i = r.u32();
                    if k == 0 {
                        m.exports.insert(nm, i);
                    }
                }
            }
            9 => {
                let c = r.uleb();
                for _ in 0..c {
                    let f = r.uleb();
                    assert!(f == 0 || f == 4 || f == 2, "elem kind {f}");
                    if f == 2 {
                        r.u32();
                    }
                    let off = r.init();
                    if f == 2 {
                        r.u8();
                    }
                    let k = r.uleb();
                    let mut v = vec![];
                    for _ in 0..k {
                        if f == 4 {
                            match r.init() {
                                Init::Const(x) => v.push(x as u32),
                                _ => panic!(),
                            }
                        } else {
                            v.push(r.u32());
                        }
                    }
                    elems.push((off, v));
                }
            }
            10 => {
                let c = r.uleb();
                for _ in 0..c {
                    let n = r.uleb() as usize;
                    bodies.push((r.p, r.p + n));
                    r.p += n;
                }
            }
            11 => {
                let c = r.uleb();
                for _ in 0..c {
                    let f = r.uleb();
                    assert!(f == 0 || f == 2, "passive data");
                    if f == 2 {
                        r.u32();
                    }
                    let off = r.init();
                    let n = r.uleb() as usize;
                    datas.push((off, r.bytes(n).to_vec()));
                }
            }
            _ => {}
        }
        r.p = end;
    }
    let gv = |i: &Init, m: &Module| -> u64 {
        match i {
            Init::Const(c) => *c,
            Init::Global(g) => match m.globals[*g as usize] {
                Init::Const(c) => c,
                _ => panic!(),
            },
        }
    };
    for (off, v) in elems {
        let o = gv(&off, &m) as usize;
        if m.table.len() < o + v.len() {
            m.table.resize(o + v.len(), u32::MAX);
        }
        for (i, f) in v.into_iter().enumerate() {
            m.table[o + i] = f;
        }
    }
    for (off, v) in datas {
        let o = gv(&off, &m);
        m.data.push((o, v));
    }
    let nimp = m.imports.len();
    for (i, (s, e)) in bodies.iter().enumerate() {
        let f = decode_func(d, *s, *e, i, nimp, &ftypes, &mut m);
        m.funcs.push(f);
    }
    m
}

fn decode_func(
    d: &[u8],
    s: usize,
    e: usize,
    idx: usize,
    nimp: usize,
    ftypes: &[u32],
    m: &mut Module,
) -> Func {
    let mut r = R { d, p: s };
    let ty = ftypes[idx];
    let ft = m.types[ty as usize].clone();
    let mut nlocals = ft.params.len() as u32;
    let c = r.uleb();
    for _ in 0..c {
        let n = r.u32();
        r.ty();
        nlocals += n;
    }
    let mut code: Vec<Op> = vec![];
    // h: current operand height (relative to frame base, incl. locals)
    let mut h: u32 = nlocals;
    let mut ctl: Vec<Ctl> = vec![Ctl {
        kind: 4,
        height: nlocals,
        nparams: 0,
        nresults: ft.results.len() as u32,
        start: 0,
        fixups: vec![],
        else_fix: None,
        unreachable: false,
    }];
    fn block_ty(r: &mut R, m: &Module) -> (u32, u32) {
        let b = r.d[r.p];
        match b {
            0x40 => {
                r.p += 1;
                (0, 0)
            }
            0x7f | 0x7e | 0x7d | 0x7c | 0x70 | 0x6f => {
                r.p += 1;
                (0, 1)
            }
            _ => {
                let i = r.sleb() as usize;
                (
                    m.types[i].params.len() as u32,
                    m.types[i].results.len() as u32,
                )
            }
        }
    }
    let callee_type = |f: u32, m: &Module| -> FuncType {
        let t = if (f as usize) < nimp {
            m.imports[f as usize].2
        } else {
            ftypes[f as usize - nimp]
        };
        m.types[t as usize].clone()
    };
    macro_rules! pops {
        ($n:expr) => {
            h = h.saturating_sub($n).max(ctl.last().unwrap().height)
        };
    }
    while r.p < e {
        let op = r.u8();
        match op {
            0x00 => {
                code.push(Op::Unreachable);
                let c = ctl.last_mut().unwrap();
                c.unreachable = true;
                h = c.height;
            }
            0x01 => {}
            0x02 | 0x03 => {
                let (np, nr) = block_ty(&mut r, m);
                ctl.push(Ctl {
                    kind: op - 2,
                    height: h - np.min(h),
                    nparams: np,
                    nresults: nr,
                    start: code.len() as u32,
                    fixups: vec![],
                    else_fix: None,
                    unreachable: false,
                });
            }
            0x04 => {
                let (np, nr) = block_ty(&mut r, m);
                pops!(1);
                let at = code.len() as u32;
                code.push(Op::BrZ { to: 0 });
                ctl.push(Ctl {
                    kind: 2,
                    height: h - np.min(h),
                    nparams: np,
                    nresults: nr,
                    start: at,
                    fixups: vec![],
                    else_fix: Some(at),
                    unreachable: false,
                });
            }
            0x05 => {
                let at = code.len() as u32;
                code.push(Op::Jmp { to: 0 });
                let c = ctl.last_mut().unwrap();
                c.fixups.push(Fix::Code(at));
                let ef = c.else_fix.take().unwrap();
                code[ef as usize] = Op::BrZ { to: at + 1 };
                c.kind = 3;
                c.unreachable = false;
                h = c.height + c.nparams;
            }
            0x0b => {
                let c = ctl.pop().unwrap();
                let here = code.len() as u32;
                if let Some(ef) = c.else_fix {
                    code[ef as usize] = Op::BrZ { to: here };
                }
                for f in c.fixups {
                    match f {
                        Fix::Code(at) => match &mut code[at as usize] {
                            Op::Br { to, .. } | Op::BrIf { to, .. } | Op::Jmp { to } => *to = here,
                            _ => unreachable!(),
                        },
                        Fix::Table(t) => m.br_tables[t as usize].0 = here,
                    }
                }
                h = c.height + c.nresults;
                if c.kind == 4 {
                    code.push(Op::Return);
                }
            }
            0x0c | 0x0d => {
                let l = r.u32() as usize;
                if op == 0x0d {
                    pops!(1);
                }
                let at = code.len() as u32;
                let n = ctl.len();
                let c = &mut ctl[n - 1 - l];
                let (keep, to) = if c.kind == 1 {
                    (c.nparams, c.start)
                } else {
                    c.fixups.push(Fix::Code(at));
                    (c.nresults, 0)
                };
                let height = c.height;
                if op == 0x0c {
                    code.push(Op::Br { to, height, keep });
                    let c = ctl.last_mut().unwrap();
                    c.unreachable = true;
                    h = c.height;
                } else {
                    code.push(Op::BrIf { to, height, keep });
                }
            }
            0x0e => {
                pops!(1);
                let k = r.u32();
                let first = m.br_tables.len() as u32;
                for i in 0..=k {
                    let l = r.u32() as usize;
                    let n = ctl.len();
                    let c = &mut ctl[n - 1 - l];
                    let (keep, to) = if c.kind == 1 {
                        (c.nparams, c.start)
                    } else {
                        c.fixups.push(Fix::Table(first + i));
                        (c.nresults, 0)
                    };
                    m.br_tables.push((to, c.height, keep));
                }
                code.push(Op::BrTable { first, n: k });
                let c = ctl.last_mut().unwrap();
                c.unreachable = true;
                h = c.height;
            }
            0x0f => {
                code.push(Op::Return);
                let c = ctl.last_mut().unwrap();
                c.unreachable = true;
                h = c.height;
            }
            0x10 => {
                let f = r.u32();
                let t = callee_type(f, m);
                pops!(t.params.len() as u32);
                h += t.results.len() as u32;
                code.push(Op::Call(f));
            }
            0x11 => {
                let t = r.u32();
                let table = r.u32();
                let ft = m.types[t as usize].clone();
                pops!(1 + ft.params.len() as u32);
                h += ft.results.len() as u32;
                code.push(Op::CallIndirect { ty: t, table });
            }
            0x1a => {
                pops!(1);
                code.push(Op::Drop);
            }
            0x1b => {
                pops!(3);
                h += 1;
                code.push(Op::Select);
            }
            0x1c => {
                let n = r.uleb();
                for _ in 0..n {
                    r.ty();
                }
                pops!(3);
                h += 1;
                code.push(Op::Select);
            }
            0x20 => {
                code.push(Op::LocalGet(r.u32()));
                h += 1;
            }
            0x21 => {
                code.push(Op::LocalSet(r.u32()));
                pops!(1);
            }
            0x22 => code.push(Op::LocalTee(r.u32())),
            0x23 => {
                code.push(Op::GlobalGet(r.u32()));
                h += 1;
            }
            0x24 => {
                code.push(Op::GlobalSet(r.u32()));
                pops!(1);
            }
            0x28..=0x35 => {
                let _al = r.uleb();
                let off = r.uleb();
                let k = match op {
                    0x28 | 0x2a => Ld::I32,
                    0x29 | 0x2b => Ld::I64,
                    0x2c => Ld::I32S8,
                    0x2d => Ld::I32U8,
                    0x2e => Ld::I32S16,
                    0x2f => Ld::I32U16,
                    0x30 => Ld::I64S8,
                    0x31 => Ld::I64U8,
                    0x32 => Ld::I64S16,
                    0x33 => Ld::I64U16,
                    0x34 => Ld::I64S32,
                    _ => Ld::I64U32,
                };
                code.push(Op::Load { k, off });
            }
            0x36..=0x3e => {
                let _al = r.uleb();
                let off = r.uleb();
                let n = match op {
                    0x36 | 0x38 | 0x3e => 4,
                    0x37 | 0x39 => 8,
                    0x3a | 0x3c => 1,
                    _ => 2,
                };
                pops!(2);
                code.push(Op::Store { n, off });
            }
            0x3f => {
                r.u8();
                code.push(Op::MemSize);
                h += 1;
            }
            0x40 => {
                r.u8();
                code.push(Op::MemGrow);
            }
            0x41 => {
                code.push(Op::Const(r.sleb() as i32 as u32 as u64));
                h += 1;
            }
            0x42 => {
                code.push(Op::Const(r.sleb() as u64));
                h += 1;
            }
            0x43 => {
                let b = r.bytes(4);
                code.push(Op::Const(
                    u32::from_le_bytes(b.try_into().unwrap()) as u64
                ));
                h += 1;
            }
            0x44 => {
                let b = r.bytes(8);
                code.push(Op::Const(u64::from_le_bytes(b.try_into().unwrap())));
                h += 1;
            }
            // unary
            0x45 | 0x50 | 0x67..=0x69 | 0x79..=0x7b | 0x8b..=0x91 | 0x99..=0x9f
            | 0xa7..=0xc4 => code.push(Op::Un(op)),
            // binary
            0x46..=0x4f | 0x51..=0x66 | 0x6a..=0x78 | 0x7c..=0x8a | 0x92..=0x98
            | 0xa0..=0xa6 => {
                pops!(2);
                h += 1;
                code.push(Op::Bin(op));
            }
            0xfc => {
                let s = r.u32();
                match s {
                    0..=7 => code.push(Op::Trunc(s as u8)),
                    10 => {
                        r.u8();
                        r.u8();
                        pops!(3);
                        code.push(Op::MemCopy);
                    }
                    11 => {
                        r.u8();
                        pops!(3);
                        code.push(Op::MemFill);
                    }
                    _ => panic!("0xfc {s}"),
                }
            }
            _ => panic!("opcode {op:#x} in func {idx}"),
        }
    }
    let gi = (idx + nimp) as u32;
    let name = m
        .names
        .get(&gi)
        .cloned()
        .unwrap_or_else(|| format!("f{gi}"));
    Func {
        ty,
        nparams: ft.params.len() as u32,
        nlocals,
        nresults: ft.results.len() as u32,
        code,
        name,
    }
}
