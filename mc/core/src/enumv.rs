//! Exhaustive enumeration of byte strings over bounded alphabets.
pub const GENERAL: &[u8] = &[0x00, 0x01, 0xff, 0x02, 0x80, 0x03, 0x7f, 0x5a, 0x04, 0xf0, 0x0f, 0xc6, 0x10, 0x08, 0x40, 0x20, 0xfe, 0x55, 0xaa, 0x05, 0x91, 0x3c, 0x06, 0x07];

/// alphabet for one position: program hints, then general boundary bytes, then everything else
pub fn alphabet(hints: &[u8], k: usize) -> Vec<u8> {
    let mut seen = [false; 256];
    let mut v = vec![];
    for b in hints.iter().chain(GENERAL).copied().chain(0..=255u8) {
        if !seen[b as usize] { seen[b as usize] = true; v.push(b); }
    }
    v.truncate(k.max(2).min(256));
    v
}
/// largest alphabet size so that size^len <= budget
pub fn width(len: usize, budget: u64) -> usize {
    if len == 0 { return 1; }
    let mut k = 256u64;
    while k > 2 && (k as f64).powi(len as i32) > budget as f64 { k -= 1; }
    k as usize
}
/// every byte string of exactly `len` over the alphabet
pub fn strings(len: usize, alpha: &[u8], mut f: impl FnMut(&[u8])) {
    let mut idx = vec![0usize; len];
    let mut buf: Vec<u8> = vec![alpha[0]; len];
    loop {
        f(&buf);
        let mut i = len;
        loop {
            if i == 0 { return; }
            i -= 1;
            idx[i] += 1;
            if idx[i] < alpha.len() { buf[i] = alpha[idx[i]]; break; }
            idx[i] = 0;
            buf[i] = alpha[0];
        }
    }
}
/// the ball of radius <= 2 around `base`: all one-byte changes over `a1`, all two-byte changes over `a2`
pub fn ball(base: &[u8], a1: &[u8], a2: &[u8], f: &mut impl FnMut(&[u8])) {
    let mut b = base.to_vec();
    f(&b);
    for i in 0..b.len() {
        for x in a1 { if *x != base[i] { b[i] = *x; f(&b); } }
        for j in i + 1..b.len() {
            for x in a2 { for y in a2 { b[i] = *x; b[j] = *y; f(&b); } }
            b[j] = base[j];
        }
        b[i] = base[i];
    }
}
pub const ASC: &[u8] = &[0x12, 0x34, 0x56, 0x78, 0x9a, 0xbc, 0xde, 0xf1, 0x23, 0x45, 0x67, 0x89, 0xab, 0xcd, 0xef, 0x1f, 0x2e, 0x3d, 0x4c, 0x5b, 0x6a, 0x79, 0x88, 0x97];
/// every byte string of length 0..=max: each length with the largest alphabet fitting the budget; lengths
/// whose two-letter product exceeds the budget use balls around fixed bases instead
pub fn inputs(max: usize, hints: &[u8], budget: u64, mut f: impl FnMut(&[u8])) {
    for len in 0..=max {
        // long messages: the shortest lengths and those around the full one
        if max > 48 && len > 3 && len + 6 < max { continue; }
        let small = len < 60 && (1u64 << len) <= budget;
        if small {
            let a = alphabet(hints, width(len, budget));
            strings(len, &a, &mut f);
        }
        if len >= 3 {
            let asc: Vec<u8> = (0..len).map(|i| ASC[i % ASC.len()]).collect();
            let a1 = alphabet(hints, (budget as usize / 4 / len).clamp(2, 256));
            if small { ball(&asc, &a1, &[], &mut f); continue; }
            let pairs = len * (len - 1) / 2;
            let mut k = 2;
            while (k + 1) * (k + 1) * pairs * 3 <= budget as usize && k < 16 { k += 1; }
            let a2 = if pairs * 12 > budget as usize * 8 { vec![] } else { alphabet(hints, k) };
            ball(&vec![0; len], &a1, &a2, &mut f);
            ball(&vec![0xff; len], &a1, &a2, &mut f);
            ball(&asc, &a1, &a2, &mut f);
        }
    }
}
