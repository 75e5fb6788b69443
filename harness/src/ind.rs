//! Independent minimal encoder.

pub fn len(n: usize) -> Vec<u8> {
    if n < 128 {
        return vec![n as u8];
    }
    let mut b: Vec<u8> = n.to_be_bytes().to_vec();
    while b[0] == 0 {
        b.remove(0);
    }
    b.insert(0, 0x80 | b.len() as u8);
    b
}

/// form 0: minimal; k: long form with k octets (at least as many as needed)
pub fn len_form(n: usize, form: usize) -> Vec<u8> {
    let m = len(n);
    if form == 0 {
        return m;
    }
    let body: Vec<u8> = if n < 128 { vec![n as u8] } else { m[1..].to_vec() };
    let k = form.max(body.len());
    let mut o = vec![0x80 | k as u8];
    o.extend(std::iter::repeat_n(0u8, k - body.len()));
    o.extend(body);
    o
}

pub fn tlv(tag: u8, body: &[u8]) -> Vec<u8> {
    let mut o = vec![tag];
    o.extend(len(body.len()));
    o.extend(body);
    o
}

pub fn int_body(v: i64) -> Vec<u8> {
    let mut b = v.to_be_bytes().to_vec();
    while b.len() > 1 && ((b[0] == 0 && b[1] < 128) || (b[0] == 255 && b[1] >= 128)) {
        b.remove(0);
    }
    b
}

pub fn int(v: i64) -> Vec<u8> {
    tlv(2, &int_body(v))
}

pub fn sub(mut v: u64) -> Vec<u8> {
    let mut b = vec![(v & 127) as u8];
    v >>= 7;
    while v > 0 {
        b.insert(0, 128 | (v & 127) as u8);
        v >>= 7;
    }
    b
}

pub fn oid_body(a: &[u32]) -> Vec<u8> {
    let mut o = sub(a[0] as u64 * 40 + a[1] as u64);
    for x in &a[2..] {
        o.extend(sub(*x as u64));
    }
    o
}

pub fn dotted(a: &[u32]) -> String {
    a.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(".")
}

pub fn cat(p: &[&[u8]]) -> Vec<u8> {
    p.concat()
}

pub fn varbinds(oids: &[Vec<u32>]) -> Vec<u8> {
    let mut o = Vec::new();
    for a in oids {
        o.extend(tlv(0x30, &cat(&[&tlv(6, &oid_body(a)), &[5, 0]])));
    }
    tlv(0x30, &o)
}

pub fn pdu_body(id: i64, a: i64, b: i64, oids: &[Vec<u32>]) -> Vec<u8> {
    cat(&[&int(id), &int(a), &int(b), &varbinds(oids)])
}
