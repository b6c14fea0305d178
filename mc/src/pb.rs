//! A hand-written protobuf wire encoder / decoder / comparator, independent of prost.

/// A protobuf value of a message that the oracle builds by hand.
#[derive(Clone, Debug, PartialEq)]
pub enum V {
    /// varint
    U(u64),
    /// string / bytes
    B(Vec<u8>),
    /// sub message (present even if empty)
    M(Msg),
}

/// Fields in ascending order; repeated fields repeat their number.
pub type Msg = Vec<(u32, V)>;

pub fn s(n: u32, v: &str) -> Option<(u32, V)> {
    (!v.is_empty()).then(|| (n, V::B(v.as_bytes().to_vec())))
}
pub fn b(n: u32, v: &[u8]) -> Option<(u32, V)> {
    (!v.is_empty()).then(|| (n, V::B(v.to_vec())))
}
pub fn u(n: u32, v: u64) -> Option<(u32, V)> {
    (v != 0).then_some((n, V::U(v)))
}
pub fn m(n: u32, v: Msg) -> Option<(u32, V)> {
    Some((n, V::M(v)))
}
pub fn msg(f: impl IntoIterator<Item = Option<(u32, V)>>) -> Msg {
    f.into_iter().flatten().collect()
}

pub fn varint(out: &mut Vec<u8>, mut v: u64) {
    loop {
        if v < 0x80 {
            out.push(v as u8);
            return;
        }
        out.push((v as u8 & 0x7f) | 0x80);
        v >>= 7;
    }
}

pub fn enc(m: &Msg) -> Vec<u8> {
    let mut out = vec![];
    for (n, v) in m {
        match v {
            V::U(x) => {
                varint(&mut out, u64::from(*n) << 3);
                varint(&mut out, *x);
            }
            V::B(x) => {
                varint(&mut out, (u64::from(*n) << 3) | 2);
                varint(&mut out, x.len() as u64);
                out.extend_from_slice(x);
            }
            V::M(x) => {
                let x = enc(x);
                varint(&mut out, (u64::from(*n) << 3) | 2);
                varint(&mut out, x.len() as u64);
                out.extend_from_slice(&x);
            }
        }
    }
    out
}

/// Raw field.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    U(u64),
    B(Vec<u8>),
    F64(u64),
    F32(u32),
}

fn rd_varint(d: &[u8], i: &mut usize) -> Option<u64> {
    let mut r = 0u64;
    for k in 0..10 {
        let x = *d.get(*i)?;
        *i += 1;
        if k == 9 && x > 1 {
            return None;
        }
        r |= u64::from(x & 0x7f) << (7 * k);
        if x & 0x80 == 0 {
            return Some(r);
        }
    }
    None
}

pub fn dec(d: &[u8]) -> Option<Vec<(u32, R)>> {
    let mut i = 0;
    let mut out = vec![];
    while i < d.len() {
        let t = rd_varint(d, &mut i)?;
        let n = u32::try_from(t >> 3).ok()?;
        if n == 0 {
            return None;
        }
        match t & 7 {
            0 => out.push((n, R::U(rd_varint(d, &mut i)?))),
            1 => {
                let x = d.get(i..i + 8)?;
                i += 8;
                out.push((n, R::F64(u64::from_le_bytes(x.try_into().unwrap()))));
            }
            2 => {
                let l = usize::try_from(rd_varint(d, &mut i)?).ok()?;
                let e = i.checked_add(l)?;
                out.push((n, R::B(d.get(i..e)?.to_vec())));
                i = e;
            }
            5 => {
                let x = d.get(i..i + 4)?;
                i += 4;
                out.push((n, R::F32(u32::from_le_bytes(x.try_into().unwrap()))));
            }
            _ => return None,
        }
    }
    Some(out)
}

/// Does `got` encode exactly the message `want`? Field order between different numbers and
/// explicitly encoded defaults are immaterial; everything else must agree.
pub fn same(want: &Msg, got: &[u8]) -> Result<(), String> {
    let g = dec(got).ok_or_else(|| format!("not protobuf: {got:?}"))?;
    let mut nums: Vec<u32> = want.iter().map(|x| x.0).chain(g.iter().map(|x| x.0)).collect();
    nums.sort_unstable();
    nums.dedup();
    for n in nums {
        let w: Vec<&V> = want.iter().filter(|x| x.0 == n).map(|x| &x.1).collect();
        let a: Vec<&R> = g.iter().filter(|x| x.0 == n).map(|x| &x.1).collect();
        if w.is_empty() && a.len() == 1 && matches!(a[0], R::U(0)) {
            continue;
        }
        if w.is_empty() && a.len() == 1 && matches!(a[0], R::B(x) if x.is_empty()) {
            continue;
        }
        if w.len() != a.len() {
            return Err(format!("field {n}: expected {} values, got {} ({a:?})", w.len(), a.len()));
        }
        for (w, a) in w.iter().zip(a) {
            match (w, a) {
                (V::U(x), R::U(y)) if x == y => {}
                (V::B(x), R::B(y)) if x == y => {}
                (V::M(x), R::B(y)) => same(x, y).map_err(|e| format!("field {n}: {e}"))?,
                _ => return Err(format!("field {n}: expected {w:?}, got {a:?}")),
            }
        }
    }
    Ok(())
}

pub fn get_b<'a>(f: &'a [(u32, R)], n: u32) -> &'a [u8] {
    f.iter()
        .rev()
        .find_map(|x| match x {
            (k, R::B(v)) if *k == n => Some(v.as_slice()),
            _ => None,
        })
        .unwrap_or(&[])
}
pub fn get_s(f: &[(u32, R)], n: u32) -> String {
    String::from_utf8_lossy(get_b(f, n)).into_owned()
}
pub fn get_u(f: &[(u32, R)], n: u32) -> u64 {
    f.iter()
        .rev()
        .find_map(|x| match x {
            (k, R::U(v)) if *k == n => Some(*v),
            _ => None,
        })
        .unwrap_or(0)
}
pub fn get_rep(f: &[(u32, R)], n: u32) -> Vec<Vec<u8>> {
    f.iter()
        .filter_map(|x| match x {
            (k, R::B(v)) if *k == n => Some(v.clone()),
            _ => None,
        })
        .collect()
}
