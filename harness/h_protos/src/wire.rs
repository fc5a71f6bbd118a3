//! The protobuf wire format and the message schemas, written down independently of the
//! generated code (tags and types as the .proto files publish them).
use mon::rand::rngs::StdRng;
use mon::rand::seq::SliceRandom;
use mon::rand::Rng;
use mon::GenExt;

#[derive(Clone, Debug, PartialEq)]
pub enum W {
    V(u64),
    F(u64),
    B(Vec<u8>),
    M(Vec<(u32, W)>),
    /// packed varints / fixed64
    PV(Vec<u64>),
    PF(Vec<u64>),
}
pub type Msg = Vec<(u32, W)>;

fn varint(mut v: u64, o: &mut Vec<u8>) {
    while v >= 0x80 {
        o.push(v as u8 | 0x80);
        v >>= 7;
    }
    o.push(v as u8);
}

/// `r` Some: any order of fields, unknown fields in between, repeated numbers unpacked
pub fn encode(m: &Msg, mut r: Option<&mut StdRng>) -> Vec<u8> {
    let mut parts: Vec<(u32, Vec<Vec<u8>>)> = vec![];
    for (t, w) in m {
        let mut ps = vec![];
        let mut one = vec![];
        match w {
            W::V(v) => {
                varint((*t as u64) << 3, &mut one);
                varint(*v, &mut one);
            }
            W::F(v) => {
                varint((*t as u64) << 3 | 1, &mut one);
                one.extend(v.to_le_bytes());
            }
            W::B(b) => {
                varint((*t as u64) << 3 | 2, &mut one);
                varint(b.len() as u64, &mut one);
                one.extend(b);
            }
            W::M(m) => {
                let b = encode(m, r.as_deref_mut());
                varint((*t as u64) << 3 | 2, &mut one);
                varint(b.len() as u64, &mut one);
                one.extend(b);
            }
            W::PV(vs) => {
                if r.as_deref_mut().is_some_and(|r| r.chance(0.5)) {
                    for v in vs {
                        let mut p = vec![];
                        varint((*t as u64) << 3, &mut p);
                        varint(*v, &mut p);
                        ps.push(p);
                    }
                } else {
                    let mut b = vec![];
                    vs.iter().for_each(|v| varint(*v, &mut b));
                    varint((*t as u64) << 3 | 2, &mut one);
                    varint(b.len() as u64, &mut one);
                    one.extend(b);
                }
            }
            W::PF(vs) => {
                let mut b = vec![];
                vs.iter().for_each(|v| b.extend(v.to_le_bytes()));
                varint((*t as u64) << 3 | 2, &mut one);
                varint(b.len() as u64, &mut one);
                one.extend(b);
            }
        }
        if !one.is_empty() {
            ps.push(one);
        }
        // fields of one tag keep their order
        match parts.iter_mut().find(|(x, _)| x == t) {
            Some((_, v)) => v.extend(ps),
            None => parts.push((*t, ps)),
        }
    }
    match r {
        None => parts.sort_by_key(|p| p.0),
        Some(r) => {
            parts.shuffle(r);
            if r.chance(0.5) {
                // what a newer peer may send
                let i = r.gen_range(0..=parts.len());
                let mut u = vec![];
                varint(100 << 3 | 2, &mut u);
                let b = r.bytes(5);
                varint(b.len() as u64, &mut u);
                u.extend(b);
                parts.insert(i, (100, vec![u]));
            }
        }
    }
    parts.into_iter().flat_map(|p| p.1).flatten().collect()
}

pub trait Wire: Sized {
    fn msg(&self) -> Msg;
    fn gen(r: &mut StdRng) -> Self;
}

pub fn zigzag(v: i64) -> u64 {
    ((v << 1) ^ (v >> 63)) as u64
}
pub fn count(r: &mut StdRng) -> usize {
    r.gen_range(0..4)
}
pub fn f64_any(r: &mut StdRng) -> f64 {
    let v = r.edgy_f64();
    if v.is_nan() {
        1.5
    } else {
        v
    }
}

/// message! { Type { tag kind field, ... } }
#[macro_export]
macro_rules! message {
    ($($T:ty { $($tag:literal $kind:ident $f:ident $( ( $($x:tt)* ) )? ),* $(,)? })*) => {$(
        impl Wire for $T {
            #[allow(unused_mut, unused_variables)]
            fn msg(&self) -> Msg {
                let mut m: Msg = vec![];
                $( field!(put $kind m, $tag, self.$f $(, $($x)*)?); )*
                m
            }
            #[allow(unused_variables)]
            fn gen(r: &mut StdRng) -> Self {
                Self { $( $f: field!(gen $kind r $(, $($x)*)?) ),* }
            }
        }
    )*};
}

#[macro_export]
macro_rules! field {
    (put str $m:ident, $t:literal, $v:expr) => { if !$v.is_empty() { $m.push(($t, W::B($v.as_bytes().to_vec()))) } };
    (gen str $r:ident) => { $r.edgy_string(12) };
    (put bytes $m:ident, $t:literal, $v:expr) => { if !$v.is_empty() { $m.push(($t, W::B($v.clone()))) } };
    (gen bytes $r:ident) => { $r.bytes(40) };
    (put u32 $m:ident, $t:literal, $v:expr) => { if $v != 0 { $m.push(($t, W::V($v as u64))) } };
    (gen u32 $r:ident) => { $r.edgy_u64() as u32 };
    (put u64 $m:ident, $t:literal, $v:expr) => { if $v != 0 { $m.push(($t, W::V($v))) } };
    (gen u64 $r:ident) => { $r.edgy_u64() };
    (put i32 $m:ident, $t:literal, $v:expr) => { if $v != 0 { $m.push(($t, W::V($v as i64 as u64))) } };
    (gen i32 $r:ident) => { $r.edgy_i64() as i32 };
    (put i64 $m:ident, $t:literal, $v:expr) => { if $v != 0 { $m.push(($t, W::V($v as u64))) } };
    (gen i64 $r:ident) => { $r.edgy_i64() };
    (put s32 $m:ident, $t:literal, $v:expr) => { if $v != 0 { $m.push(($t, W::V($crate::wire::zigzag($v as i64)))) } };
    (gen s32 $r:ident) => { $r.edgy_i64() as i32 };
    (put bool $m:ident, $t:literal, $v:expr) => { if $v { $m.push(($t, W::V(1))) } };
    (gen bool $r:ident) => { $r.gen::<bool>() };
    (put f64 $m:ident, $t:literal, $v:expr) => { if $v != 0.0 { $m.push(($t, W::F($v.to_bits()))) } };
    (gen f64 $r:ident) => { { let v = $crate::wire::f64_any($r); if v == 0.0 { 0.0 } else { v } } };
    (put enm $m:ident, $t:literal, $v:expr, $n:literal) => { if $v != 0 { $m.push(($t, W::V($v as u64))) } };
    (gen enm $r:ident, $n:literal) => { $r.gen_range(0..$n) };
    (put ostr $m:ident, $t:literal, $v:expr) => { if let Some(x) = &$v { $m.push(($t, W::B(x.as_bytes().to_vec()))) } };
    (gen ostr $r:ident) => { $r.gen::<bool>().then(|| $r.edgy_string(5)) };
    (put obytes $m:ident, $t:literal, $v:expr) => { if let Some(x) = &$v { $m.push(($t, W::B(x.clone()))) } };
    (gen obytes $r:ident) => { $r.gen::<bool>().then(|| $r.bytes(5)) };
    (put omsg $m:ident, $t:literal, $v:expr) => { if let Some(x) = &$v { $m.push(($t, W::M(x.msg()))) } };
    (gen omsg $r:ident) => { $r.gen::<bool>().then(|| Wire::gen($r)) };
    (put rmsg $m:ident, $t:literal, $v:expr) => { for x in &$v { $m.push(($t, W::M(x.msg()))) } };
    (gen rmsg $r:ident) => { (0..$crate::wire::count($r)).map(|_| Wire::gen($r)).collect() };
    (put rstr $m:ident, $t:literal, $v:expr) => { for x in &$v { $m.push(($t, W::B(x.as_bytes().to_vec()))) } };
    (gen rstr $r:ident) => { (0..$crate::wire::count($r)).map(|_| $r.edgy_string(6)).collect() };
    (put rbytes $m:ident, $t:literal, $v:expr) => { for x in &$v { $m.push(($t, W::B(x.clone()))) } };
    (gen rbytes $r:ident) => { (0..$crate::wire::count($r)).map(|_| $r.bytes(6)).collect() };
    (put ru32 $m:ident, $t:literal, $v:expr) => { if !$v.is_empty() { $m.push(($t, W::PV($v.iter().map(|x| *x as u64).collect()))) } };
    (gen ru32 $r:ident) => { (0..$crate::wire::count($r)).map(|_| $r.edgy_u64() as u32).collect() };
    (put renm $m:ident, $t:literal, $v:expr) => { if !$v.is_empty() { $m.push(($t, W::PV($v.iter().map(|x| *x as u64).collect()))) } };
    (gen renm $r:ident) => { (0..$crate::wire::count($r)).map(|_| $r.gen_range(0..2)).collect() };
    (put rs64 $m:ident, $t:literal, $v:expr) => { if !$v.is_empty() { $m.push(($t, W::PV($v.iter().map(|x| $crate::wire::zigzag(*x)).collect()))) } };
    (gen rs64 $r:ident) => { (0..$crate::wire::count($r)).map(|_| $r.edgy_i64()).collect() };
    (put rf64 $m:ident, $t:literal, $v:expr) => { if !$v.is_empty() { $m.push(($t, W::PF($v.iter().map(|x| x.to_bits()).collect()))) } };
    (gen rf64 $r:ident) => { (0..$crate::wire::count($r)).map(|_| $crate::wire::f64_any($r)).collect() };
    // one of several alternatives: (Path { Variant tag kind, ... })
    (put one $m:ident, $t:literal, $v:expr, $P:path { $($V:ident $vt:literal $vk:ident),* }) => {{
        #[allow(unused_imports)]
        use $P as Alt;
        match &$v { None => {}, $( Some(Alt::$V(x)) => field!(putalt $vk $m, $vt, x), )* }
    }};
    (gen one $r:ident, $P:path { $($V:ident $vt:literal $vk:ident),* }) => {{
        use $P as Alt;
        let k = $r.gen_range(0..12u32);
        let mut out = None;
        $( if k == $vt as u32 { out = Some(Alt::$V(field!(genalt $vk $r))); } )*
        out
    }};
    (putalt msg $m:ident, $t:literal, $x:ident) => { $m.push(($t, W::M($x.msg()))) };
    (genalt msg $r:ident) => { Wire::gen($r) };
    (putalt u64 $m:ident, $t:literal, $x:ident) => { $m.push(($t, W::V(*$x))) };
    (genalt u64 $r:ident) => { $r.edgy_u64() };
    (putalt f64 $m:ident, $t:literal, $x:ident) => { $m.push(($t, W::F($x.to_bits()))) };
    (genalt f64 $r:ident) => { $crate::wire::f64_any($r) };
}
