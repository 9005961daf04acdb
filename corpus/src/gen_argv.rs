//! Command lines for one definition: first exhaustively short ones over an alphabet derived
//! from the definition, then random structured ones with mutations.
use crate::desc::*;
use crate::oracle::Bytes;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn p(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { let i = self.below(v.len()); &v[i] }
}

fn vals(ty: Ty) -> (Vec<Bytes>, Vec<Bytes>) {
    let s = |l: &[&str]| l.iter().map(|x| x.as_bytes().to_vec()).collect::<Vec<_>>();
    let junk = vec![b"\xff".to_vec(), b"a\xffb".to_vec(), b"-\xff".to_vec()];
    match ty {
        Ty::Bool => (vec![], s(&["true", ""])),
        Ty::Str => (s(&["v", "", "w=x", "=", "a,b", "-", "V", "é", ":", "a b", "--"]), { let mut j = junk; j.extend(s(&["-v", "--v", "-1", "-"])); j }),
        Ty::Os => { let mut g = s(&["p", "", "=p", "a,b;c"]); g.extend(junk); (g, s(&["-p", "-1"])) }
        Ty::U8 => (s(&["0", "7", "255", "+3", "007"]), { let mut j = junk; j.extend(s(&["256", "-1", "x", "", " 7", "7 ", "1.0"])); j }),
        Ty::I32 => (s(&["5", "-5", "0", "2147483647", "-0"]), { let mut j = junk; j.extend(s(&["2147483648", "-5x", "--5", "x", "", "-"])); j }),
        Ty::I64 => (s(&["5", "-9223372036854775808"]), s(&["-x", "9223372036854775808", "--"])),
        Ty::Char => (s(&["c", "é", "-", "="]), s(&["", "cc"])),
        Ty::Even => (s(&["2", "10"]), s(&["3", "x"])),
        Ty::Tag => (vec![b"#t".to_vec(), b"#".to_vec(), b"#\xff".to_vec()], s(&["t", ""])),
        Ty::Enum(t) => {
            let good: Vec<Bytes> = t.iter().map(|x| x.0.as_bytes().to_vec()).collect();
            let mut bad: Vec<Bytes> = t.iter().flat_map(|x| {
                let n = x.0;
                vec![n.to_ascii_uppercase(), n.to_ascii_lowercase(), n.to_uppercase(), format!("{n}x"), n.chars().take(n.chars().count().saturating_sub(1)).collect(), x.1.to_string()]
                    .into_iter().map(String::into_bytes).collect::<Vec<_>>()
            }).collect();
            bad.extend(junk);
            bad.dedup();
            (good, bad)
        }
    }
}

pub fn spellings(a: &ArgD) -> Vec<Bytes> {
    a.names.iter().map(|n| match n { Name::Long(s) => s.clone().into_bytes(), Name::Short(c) => format!("-{c}").into_bytes() }).collect()
}
fn cat(a: &[u8], b: &[u8]) -> Bytes { let mut v = a.to_vec(); v.extend_from_slice(b); v }

/// Every argument in scope of `c` (flattened included), not of its subcommands.
pub fn flat_args<'d>(c: &'d CmdD, out: &mut Vec<&'d ArgD>) {
    out.extend(c.args.iter());
    for f in &c.flats { flat_args(&f.1, out); }
}
fn all_args<'d>(c: &'d CmdD, out: &mut Vec<&'d ArgD>) {
    flat_args(c, out);
    if let Some(s) = &c.sub { for v in &s.variants { all_args(&v.cmd, out); } }
}
fn subs<'d>(c: &'d CmdD, out: &mut Vec<&'d str>) {
    if let Some(s) = &c.sub { for v in &s.variants { out.push(v.name); subs(&v.cmd, out); } }
}

pub fn core_alphabet(d: &CmdD, rng: &mut Rng, cap: usize) -> Vec<Bytes> {
    // Small: one spelling per argument, one value, structure words.
    let mut v: Vec<Bytes> = vec![b"--".to_vec(), b"x".to_vec()];
    let mut args = vec![];
    all_args(d, &mut args);
    for a in &args {
        let sp = spellings(a);
        if let Some(s) = sp.last() { v.push(s.clone()); }
        if sp.len() > 1 { v.push(sp[0].clone()); }
        if a.takes() || a.kind == Kind::OptOpt {
            let (g, _) = vals(a.ty);
            if let Some(s) = sp.first() { v.push(cat(&cat(s, b"="), &g[0])); }
            if let Some(s) = sp.iter().find(|s| !s.starts_with(b"--")) { v.push(cat(s, &g[0])); }
            v.push(g[0].clone());
        }
    }
    let mut ss = vec![];
    subs(d, &mut ss);
    v.extend(ss.iter().map(|s| s.as_bytes().to_vec()));
    v.push(b"-".to_vec()); v.push(b"".to_vec()); v.push(b"-1".to_vec()); v.push(b"--help".to_vec()); v.push(b"-?".to_vec());
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|w| seen.insert(w.clone()));
    while v.len() > cap { let i = 2 + rng.below(v.len() - 2); v.remove(i); }
    v
}
pub fn alphabet(d: &CmdD) -> Vec<Bytes> {
    let mut v: Vec<Bytes> = [&b"--"[..], b"-", b"", b"x", b"-1", b"-12", b"-1a", b"--unknown", b"--unknown=v", b"-?", b"-?=", b"--help", b"-h", b"--help=x", b"--hel", b"--helpx", b"-help", b"help", b"h", b"-=", b"--=", b"--=x", b"---", b"---x", b"-\xff", b"--\xff", b"\xff", b"-\xc3", b"-\xc3\xa9", "é".as_bytes(), b"- ", b"-\n", b"a=b", b"=", b"-H", b"--Help"].iter().map(|b| b.to_vec()).collect();
    let mut args = vec![];
    all_args(d, &mut args);
    let shorts: Vec<(char, &ArgD)> = args.iter().flat_map(|a| a.names.iter().filter_map(move |n| if let Name::Short(c) = n { Some((*c, *a)) } else { None })).collect();
    for a in &args {
        let (g, b) = vals(a.ty);
        let few = args.len() > 40;
        for s in spellings(a) {
            let short = !s.starts_with(b"--");
            v.push(s.clone());
            v.push(cat(&s, b"="));
            let mut xs: Vec<&Bytes> = g.iter().chain(b.iter()).collect();
            if few { xs.truncate(2); }
            for x in xs {
                v.push(cat(&cat(&s, b"="), x));
                if short { v.push(cat(&s, x)); }
            }
            if short { v.push(cat(&s, b"==")); v.push(cat(&s, b"\xff")); v.push(cat(&s, b"?")); v.push(cat(&s, b"-")); v.push(cat(&s, b"h")); v.push(cat(&cat(b"-", &s), b"")); }
            else {
                v.push(cat(&s, b"x")); v.push(s[..s.len() - 1].to_vec()); v.push(s[1..].to_vec());
                v.push(s.to_ascii_uppercase()); v.push(s.to_ascii_lowercase()); v.push(cat(b"-", &s)); v.push(s[2..].to_vec()); v.push(cat(&s, b"\xff"));
                v.push(s.iter().map(|c| if *c == b'-' { b'_' } else { *c }).collect());
            }
        }
        if let Some(dl) = a.delim {
            let mut buf = [0; 4];
            let dl = dl.encode_utf8(&mut buf).as_bytes();
            let x = g[0].clone(); let y = g[g.len() - 1].clone();
            let many = [cat(&cat(&x, dl), &y), cat(dl, &x), cat(&x, dl), cat(&cat(&cat(&x, dl), dl), &y), dl.to_vec(), cat(&cat(&x, dl), b"\xff")];
            for m in many { if let Some(s) = spellings(a).first() { v.push(cat(&cat(s, b"="), &m)); } v.push(m); }
        }
        for x in g.iter().chain(b.iter()).take(if few { 1 } else { 99 }) { v.push(x.clone()); }
    }
    if shorts.len() <= 40 {
        for (c, _) in &shorts {
            for (e, a) in &shorts {
                let w = format!("-{c}{e}").into_bytes();
                v.push(w.clone());
                if shorts.len() <= 12 {
                    v.push(cat(&w, b"=")); v.push(cat(&w, b"=v")); v.push(cat(&w, b"\xff"));
                    for x in vals(a.ty).0.iter().take(2) { v.push(cat(&w, x)); v.push(cat(&cat(&w, b"="), x)); }
                    if shorts.len() <= 6 { for (f, _) in &shorts { v.push(format!("-{c}{e}{f}").into_bytes()); v.push(format!("-{c}{e}{f}=").into_bytes()); } }
                }
            }
        }
    }
    let mut ss = vec![];
    subs(d, &mut ss);
    for s in ss {
        let b = s.as_bytes();
        v.push(b.to_vec()); v.push(cat(b, b"s")); v.push(b[..b.len() - 1].to_vec()); v.push(b.to_ascii_uppercase()); v.push(cat(b, b"\xff")); v.push(cat(b, b"="));
        v.push(b.iter().map(|c| if *c == b'-' { b'_' } else { *c }).collect()); v.push(cat(b"--", b)); v.push(cat(b"-", b)); v.push(cat(b, b" "));
    }
    let mut seen = std::collections::BTreeSet::new();
    v.retain(|w| seen.insert(w.clone()));
    v
}

pub struct Feed<'d> {
    d: &'d CmdD, rng: Rng, small: Vec<Bytes>, full: Vec<Bytes>, phase: u8, ctr: u64, lim: u64, len3: u32, random: u64,
    pub exhaustive: u64,
}
impl<'d> Feed<'d> {
    pub fn new(cli: &'d Cli, seed: u64, scale: f64) -> Self {
        let mut rng = Rng(seed);
        let full = alphabet(&cli.desc);
        let budget = (30_000.0 * scale) as u64;
        // Largest reduced alphabet whose words of length 3 fit the budget.
        let cap = ((budget as f64).powf(1.0 / 3.0) as usize).max(8);
        let small = core_alphabet(&cli.desc, &mut rng, cap);
        let mut len3 = 3;
        while (small.len() as u64).pow(len3 + 1) <= budget { len3 += 1; }
        Feed { d: &cli.desc, rng, small, full, phase: 0, ctr: 0, lim: 1, len3, random: (40_000.0 * scale) as u64, exhaustive: 0 }
    }
    fn nth(al: &[Bytes], mut k: u64, len: u32) -> Vec<Bytes> {
        let n = al.len() as u64;
        (0..len).map(|_| { let w = al[(k % n) as usize].clone(); k /= n; w }).collect()
    }
    pub fn next(&mut self) -> Option<Vec<Bytes>> {
        loop {
            match self.phase {
                // All lines of length 0 and 1 over the full alphabet; length 2 as far as it fits.
                0 => { self.phase = 1; self.ctr = 0; self.lim = self.full.len() as u64; self.exhaustive += 1; return Some(vec![]); }
                1 => { if self.ctr < self.lim { self.ctr += 1; self.exhaustive += 1; return Some(vec![self.full[self.ctr as usize - 1].clone()]); }
                       self.phase = 2; self.ctr = 0; let n = self.full.len() as u64; self.lim = if n * n <= self.random * 2 { n * n } else { self.random / 2 }; }
                2 => { if self.ctr < self.lim { let n = self.full.len() as u64; let k = if n * n == self.lim { self.ctr } else { self.rng.next() % (n * n) }; self.ctr += 1; self.exhaustive += 1; return Some(Self::nth(&self.full, k, 2)); }
                       self.phase = 3; self.ctr = 0; self.lim = (self.small.len() as u64).pow(3); }
                3 => { if self.ctr < self.lim { self.ctr += 1; self.exhaustive += 1; return Some(Self::nth(&self.small, self.ctr - 1, 3)); }
                       self.phase = 4; self.ctr = 0; self.lim = if self.len3 > 3 { (self.small.len() as u64).pow(self.len3.min(5)) } else { 0 }; }
                4 => { if self.ctr < self.lim { self.ctr += 1; self.exhaustive += 1; return Some(Self::nth(&self.small, self.ctr - 1, self.len3.min(5))); }
                       self.phase = 5; self.ctr = 0; }
                5 => { if self.ctr < self.random { self.ctr += 1; return Some(self.random_line()); } self.phase = 6; }
                _ => return None,
            }
        }
    }
    fn value(&mut self, a: &ArgD) -> Bytes {
        let (g, b) = vals(a.ty);
        let mut one = |r: &mut Rng| if b.is_empty() || r.p(92) { r.pick(&g).clone() } else { r.pick(&b).clone() };
        let mut v = one(&mut self.rng);
        if let Some(d) = a.delim {
            let mut buf = [0; 4];
            let d = d.encode_utf8(&mut buf).as_bytes();
            while self.rng.p(40) { v.extend_from_slice(d); let x = one(&mut self.rng); v.extend(x); }
        }
        if self.rng.p(2) { v.extend(std::iter::repeat_n(b'z', 300)); }
        v
    }
    fn occurrence(&mut self, a: &ArgD, out: &mut Vec<Bytes>) {
        let sp = spellings(a);
        if sp.is_empty() { let v = self.value(a); out.push(v); return; }
        let s = self.rng.pick(&sp).clone();
        match a.kind {
            Kind::Bool => out.push(s),
            Kind::OptOpt => if self.rng.p(50) { out.push(s) } else { let v = self.value(a); out.push(cat(&cat(&s, b"="), &v)) },
            _ => {
                let v = self.value(a);
                let k = self.rng.below(3);
                if a.eq || k == 0 { out.push(cat(&cat(&s, b"="), &v)); }
                else if k == 1 && !s.starts_with(b"--") { out.push(cat(&s, &v)); }
                else { out.push(s); out.push(v); }
            }
        }
    }
    fn cmd_line(&mut self, c: &CmdD, outer: &mut Vec<ArgD>, out: &mut Vec<Bytes>) {
        let mut args = vec![];
        flat_args(c, &mut args);
        let n = args.len();
        let dense = self.rng.below(3);
        let mut items: Vec<ArgD> = vec![];
        for a in &args {
            let pct = if a.last || a.trailing { 20 } else if a.required { 93 } else if n > 30 { 6 } else { match dense { 0 => 10, 1 => 35, _ => 70 } };
            if self.rng.p(pct) {
                items.push((*a).clone());
                if a.multi() { while self.rng.p(45) { items.push((*a).clone()); } }
                else if self.rng.p(4) { items.push((*a).clone()); }
            }
        }
        // Shuffle options among positionals, keep last/trailing at the end.
        for i in (1..items.len()).rev() { let j = self.rng.below(i + 1); items.swap(i, j); }
        items.sort_by_key(|a| if a.last { 2 } else if a.trailing { 1 } else { 0 });
        for g in outer.clone() { if self.rng.p(25) { let k = self.rng.below(items.len() + 1); items.insert(k, g); } }
        let sub = c.sub.as_ref().filter(|s| !s.variants.is_empty()).map(|s| (s, self.rng.p(if s.optional { 60 } else { 92 })));
        let mut dashed = false;
        let go_sub = sub.is_some_and(|s| s.1);
        if go_sub { items.retain(|a| (!a.last || a.named()) && !(a.trailing)); }
        let mut w = vec![];
        let k = items.len();
        for (i, a) in items.iter().enumerate() {
            if a.last && !dashed { dashed = true; w.push(b"--".to_vec()); }
            if !dashed && !a.named() && i + 1 == k && self.rng.p(10) && !go_sub { dashed = true; w.push(b"--".to_vec()); }
            self.occurrence(a, &mut w);
        }
        // Join neighbouring short options into bundles.
        let mut joined: Vec<Bytes> = vec![];
        for x in w {
            let short = |b: &Bytes| b.len() >= 2 && b[0] == b'-' && b[1] != b'-';
            if let Some(p) = joined.last_mut() { if short(p) && short(&x) && p.len() <= 3 && !p.contains(&b'=') && self.rng.p(35) { p.extend_from_slice(&x[1..]); continue; } }
            joined.push(x);
        }
        out.extend(joined);
        if let Some((s, true)) = sub {
            let v = self.rng.pick(&s.variants).clone();
            out.push(v.name.as_bytes().to_vec());
            for a in args { if a.glob { outer.push(a.clone()); } }
            self.cmd_line(&v.cmd, outer, out);
        }
    }
    fn random_line(&mut self) -> Vec<Bytes> {
        let mut out = vec![];
        if self.rng.p(88) { let d = self.d; self.cmd_line(d, &mut vec![], &mut out); }
        else { for _ in 0..self.rng.below(6) { out.push(self.rng.pick(&self.full).clone()); } }
        while self.rng.p(38) {
            let n = out.len();
            match self.rng.below(7) {
                0 if n > 0 => { let i = self.rng.below(n); out.remove(i); }
                1 | 2 => { let i = self.rng.below(n + 1); let w = self.rng.pick(&self.full).clone(); out.insert(i, w); }
                3 if n > 0 => { let i = self.rng.below(n); out[i] = self.rng.pick(&self.full).clone(); }
                4 if n > 0 => { let i = self.rng.below(n); let j = self.rng.below(n + 1); let w = out[i].clone(); out.insert(j, w); }
                5 if n > 1 => { let i = self.rng.below(n); let j = self.rng.below(n); out.swap(i, j); }
                6 if n > 0 => {
                    let i = self.rng.below(n);
                    let l = out[i].len();
                    match self.rng.below(3) {
                        0 if l > 0 => { let k = self.rng.below(l); out[i].remove(k); }
                        1 => { let k = self.rng.below(l + 1); let b = *self.rng.pick(b"-=ah1x,\xff\xc3\xa9 "); out[i].insert(k, b); }
                        _ if l > 0 => { let k = self.rng.below(l); out[i][k] ^= 0x20; }
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        out
    }
}
