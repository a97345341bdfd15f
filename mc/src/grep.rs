//! C11, C12: pattern search over raw data, against per-message matching.
use crate::engine::*;
use crate::huge;
use crate::refmodel::*;
use crate::streams::*;
use matchit::searchable::grepit::{GrepIterator, RegExMatcherIterator};
use rapiddlt::dlt_v1::DltStorageEntry;
use rapiddlt::DltGrepIterator;
use regex::bytes::Regex;
use std::rc::Rc;

type Item = (usize, Option<(usize, usize)>); // message offset and, for captures, the first group

struct Pat { text: &'static str, re: Regex }

/// messages (as read from the start) with a match behind marker and offset `o`; where captured, only those
/// whose first match has the group
fn expected<'b, P: Probe<'b>>(b: &'b [u8], re: &Regex, o: usize, msgs: &[(usize, usize)], capture: bool) -> Vec<(Item, usize)> {
    let mut v = vec![];
    for &(m, l) in msgs {
        let s = (m + P::MARK.len()).max(o);
        if s >= m + l { continue }
        let hay = &b[s..m + l];
        if capture {
            if let Some(g) = re.captures(hay).and_then(|c| c.get(1)) { v.push(((m, Some((s + g.start(), s + g.end()))), l)) }
        } else if re.is_match(hay) { v.push(((m, None), l)) }
    }
    v
}

fn grep_case<'b, P: Probe<'b> + 'b>(b: &'b [u8], pats: &[Pat], capture: bool, ctx: &mut Ctx) -> Result<(), String> {
    let msgs = messages::<P>(b);
    if nested::<P>(b, &msgs) { ctx.trivial += 1; return Ok(()) }
    let sh = suffix_hashes(b);
    let base = b.as_ptr() as usize;
    for (pi, p) in pats.iter().enumerate() {
        let hp = mix(pi as u64 + 1);
        let e0 = expected::<P>(b, &p.re, 0, &msgs, capture);
        let mut h = pi as u64;
        for e in &e0 { h = mix(h ^ e.0.0 as u64) ^ e.0.1.map_or(0, |g| (g.0 << 20 | g.1) as u64); }
        ctx.outcome(h);
        // whole iterations from the start, from inside the first message and from the middle
        let mut offs = vec![0, b.len() / 2, b.len(), b.len() + 3, usize::MAX - 2, usize::MAX];
        if let Some(&(m, l)) = msgs.first() { offs.extend([m, m + 1, m + P::MARK.len(), m + l - 1, m + l]) }
        offs.sort(); offs.dedup();
        for &o in &offs {
            let e = expected::<P>(b, &p.re, o, &msgs, capture);
            let mut got: Box<dyn FnMut() -> Result<Option<(Item, Option<usize>)>, String> + 'b> = if capture {
                let mut it = RegExMatcherIterator::<P>::new(p.text, b, o);
                Box::new(move || Ok(it.next().map(|(m, g)| ((m, Some(g)), None))))
            } else {
                let mut it = GrepIterator::<P>::new(p.text, b, o);
                Box::new(move || match it.next() { None => Ok(None), Some((m, t)) => { let (a, n) = t.span()?; if a - base != m { return Err(format!("message reported at {m} refers to offset {}", a - base)) } Ok(Some(((m, None), Some(n)))) } })
            };
            ctx.state(sh[o.min(b.len())] ^ hp);
            for (i, (x, l)) in e.iter().enumerate() {
                ctx.trans(1);
                let g = got()?;
                match g {
                    Some((y, n)) if y == *x && n.is_none_or(|n| n == *l) => ctx.state(sh[x.0 + l] ^ hp),
                    _ => return Err(format!("pattern {:?} from offset {o}: item {i} is {g:?}, expected {x:?} of length {l} (all expected: {e:?})", p.text)),
                }
            }
            for k in 0..3 {
                ctx.trans(1);
                if let Some(g) = got()? { return Err(format!("pattern {:?} from offset {o}: further item {g:?} on call {k} behind the last of {e:?}", p.text)) }
            }
            ctx.exec();
        }
        // single searches from every offset
        let (gi, ci) = (GrepIterator::<P>::new(p.text, b, 0), RegExMatcherIterator::<P>::new(p.text, b, 0));
        for o in 0..=b.len() + 1 {
            let e = expected::<P>(b, &p.re, o, &msgs, capture);
            ctx.trans(1);
            ctx.state(sh[o.min(b.len())] ^ hp);
            let g: Option<Item> = if capture { ci.capture(b, o).map(|(m, g)| (m, Some(g))) } else { gi.search(b, o).map(|(m, _)| (m, None)) };
            let x = e.first().map(|e| e.0);
            if g != x { return Err(format!("pattern {:?}: single search from offset {o} gives {g:?}, expected {x:?}", p.text)) }
        }
        ctx.exec();
    }
    Ok(())
}

fn pats(v: &[&'static str]) -> Rc<Vec<Pat>> { Rc::new(v.iter().map(|p| Pat { text: p, re: Regex::new(p).unwrap() }).collect()) }
fn phase(name: &str, toks: Tokens, p: &[&'static str], chunk: u64, run: impl Fn(&[u8], &[Pat], &mut Ctx) -> Result<(), String> + 'static) -> Phase {
    let (toks, ps) = (Rc::new(toks), pats(p));
    let t2 = toks.clone();
    Phase {
        name: name.into(),
        bounds: format!("all sequences of at most {} of the {} fragments {:?} without nested markers x the patterns {p:?}: iterated from several offsets and searched once from every offset, against matching each message on its own", toks.depth, toks.toks.len(), toks.toks.iter().map(|t| t.0.as_str()).collect::<Vec<_>>()),
        total: toks.total(), chunk, cpu_limit: 10,
        run: Box::new(move |i, ctx| { let b = toks.build(i); ctx.sample(|| format!("{} = {}", toks.describe(i), hex(&b))); run(&b, &ps, ctx) }),
        describe: Box::new(move |i| format!("{} = {}", t2.describe(i), hex(&t2.build(i)))),
    }
}
fn mini(depth: u32) -> Tokens {
    let m = |l: u8, s: &[u8]| [b"MN", &[l][..], s].concat();
    Tokens::new(depth, vec![
        ("[a]", m(4, b"a")), ("[ba]", m(5, b"ba")), ("[a\\n]", m(5, b"a\n")), ("[axb]", m(6, b"axb")), ("[]", m(3, b"")), ("[b]", m(4, b"b")),
        ("bad[a]", m(9, b"a")), ("short[a", m(5, b"a")), ("a", b"a".to_vec()), ("b", b"b".to_vec()), ("M", b"M".to_vec()), ("\\n", b"\n".to_vec()),
    ])
}
fn dlt(depth: u32) -> Tokens {
    let m = |ecu: &[u8; 4], s: &[u8]| { let mut b = head(4 + s.len() as u16, 0x20, 0x11, ecu); b.extend_from_slice(s); b };
    Tokens::new(depth, vec![
        ("[Hello World]", m(b"ECU1", b"Hello World")), ("[H]", m(b"ECU1", b"H")), ("[ World]", m(b"ECU1", b" World")), ("[]", m(b"ECU1", b"")),
        ("[H World World]", m(b"ECU1", b"H World World")), ("[Hello\\n World]", m(b"ECU1", b"Hello\n World")), ("[o World Hell]", m(b"ECU1", b"o World Hell")),
        ("{ecu H}[ World]", m(b"ABCH", b" World")), ("bad[Hello World]", { let mut b = m(b"ECU1", b"Hello World"); b[18] = 0xff; b }), ("bad3", h(3)),
        ("Hello World", b"Hello World".to_vec()), ("H", b"H".to_vec()), ("\\n", b"\n".to_vec()), ("DL", b"DL".to_vec()),
    ])
}
/// long streams of one repeated fragment: the search ends, within stack and time
fn long(t: Tier, p: &[&'static str], capture: bool) -> Phase {
    let size = if capture { t.pick(40 << 10, 64 << 10) } else { t.pick(96 << 10, 192 << 10) };
    let units = dlt(1);
    let n = units.total() - 1;
    let ps = pats(p);
    let k = ps.len() as u64;
    let make = move |i: u64| -> (Vec<u8>, String) {
        let t = dlt(1);
        let (name, u) = &t.toks[(i % n) as usize];
        let mut b: Vec<u8> = vec![];
        while b.len() < size { b.extend_from_slice(u) }
        let last = i / n / k == 1;
        if last { b.extend_from_slice(&t.toks[0].1) }
        (b, format!("{name} repeated to {size} bytes{}", if last { ", then [Hello World]" } else { "" }))
    };
    let ps2 = ps.clone();
    Phase {
        name: "long streams".into(), bounds: format!("{n} repeated fragments to {size} bytes, alone and before a matching message x {k} patterns: 20 s CPU, 8 MB stack"),
        total: n * k * 2, chunk: 1, cpu_limit: 20,
        run: Box::new(move |i, ctx| {
            let (b, _) = make(i);
            let p = &ps[(i / n % k) as usize];
            let msgs = messages::<DltStorageEntry>(&b);
            if nested::<DltStorageEntry>(&b, &msgs) { ctx.trivial += 1; return Ok(()) }
            let e = expected::<DltStorageEntry>(&b, &p.re, 0, &msgs, capture);
            let got: Vec<Item> = if capture { RegExMatcherIterator::<DltStorageEntry>::new(p.text, &b, 0).take(e.len() + 3).map(|(m, g)| (m, Some(g))).collect() }
                else { DltGrepIterator::new(p.text, &b, 0).take(e.len() + 3).map(|(m, _)| (m, None)).collect() };
            ctx.trans(got.len() as u64 + 1);
            ctx.state(mix(i)); ctx.exec(); ctx.outcome(e.len() as u64);
            if !got.iter().eq(e.iter().map(|e| &e.0)) {
                let j = (0..).find(|&j| got.get(j) != e.get(j).map(|e| &e.0)).unwrap();
                return Err(format!("pattern {:?}: {} items instead of {}; item {j} is {:?}, expected {:?}", p.text, got.len(), e.len(), got.get(j), e.get(j)));
            }
            Ok(())
        }),
        describe: Box::new(move |i| format!("{}, pattern {:?}", make(i).1, ps2[(i / n % k) as usize].text)),
    }
}
/// What may be reported of each message for a pattern that looks around its match: the outcome with the message alone,
/// with what is in front of it, with what is behind it, and with both. Where the four agree it is what has to come out.
fn allowed<'b, P: Probe<'b>>(b: &'b [u8], re: &Regex, o: usize, msgs: &[(usize, usize)], capture: bool) -> Vec<(usize, Vec<Option<Item>>)> {
    let mut v = vec![];
    for &(m, l) in msgs {
        let (s, e) = ((m + P::MARK.len()).max(o), m + l);
        if s >= e { continue }
        let mut a: Vec<Option<Item>> = vec![];
        // an empty match at the end may count as one in the message or not
        for (from, to, last) in [(s, e, e), (0, e, e), (s, b.len(), e), (0, b.len(), e), (s, e, e - 1), (0, b.len(), e - 1)] {
            let hay = &b[from..to];
            let r = (s..e).find_map(|i| {
                let c = re.captures_at(hay, i - from)?;
                let f = c.get(0).unwrap();
                // the first of those in the message decides
                (from + f.end() <= e && from + f.start() <= last).then(|| if capture { c.get(1).map(|g| (m, Some((from + g.start(), from + g.end())))) } else { Some((m, None)) })
            }).flatten();
            if !a.contains(&r) { a.push(r) }
        }
        v.push((m, a));
    }
    v
}
/// takes the items one after the other: each message once, in order, and as allowed
fn within(what: &str, got: &[Item], all: &[(usize, Vec<Option<Item>>)]) -> Result<(), String> {
    let mut g = got.iter().peekable();
    for (m, a) in all {
        let x = g.next_if(|x| x.0 == *m).copied();
        if !a.contains(&x) { return Err(format!("{what}: {got:?} have {x:?} of the message at {m}, one of {a:?} is right")) }
    }
    match g.next() { None => Ok(()), Some(x) => Err(format!("{what}: {got:?} have {x:?}, which is no further message")) }
}
fn around(t: Tier, p: &[&'static str], capture: bool) -> Phase {
    let m = |s: &[u8]| [b"MN", &[3 + s.len() as u8][..], s].concat();
    let toks = Tokens::new(t.pick(3, 4), vec![
        ("[a]", m(b"a")), ("[ba]", m(b"ba")), ("[ab]", m(b"ab")), ("[a\\nb]", m(b"a\nb")), ("[a\\rb]", m(b"a\rb")), ("[a\\r\\nb]", m(b"a\r\nb")), ("[ a b]", m(b" a b")), ("[a ]", m(b"a ")), ("[]", m(b"")),
        ("[b\\na\\nb]", m(b"b\na\nb")), ("[bab]", m(b"bab")), ("a", b"a".to_vec()), ("b", b"b".to_vec()), ("\\n", b"\n".to_vec()), (" ", b" ".to_vec()),
    ]);
    let mut ph = phase("patterns that look around", toks, p, 32, move |b, ps, ctx| {
        let msgs = messages::<Mini>(b);
        if nested::<Mini>(b, &msgs) { ctx.trivial += 1; return Ok(()) }
        let sh = suffix_hashes(b);
        for (pi, p) in ps.iter().enumerate() {
            for o in 0..=b.len() {
                let all = allowed::<Mini>(b, &p.re, o, &msgs, capture);
                let n = all.len() + 2;
                let got: Vec<Item> = if capture { RegExMatcherIterator::<Mini>::new(p.text, b, o).take(n).map(|(m, g)| (m, Some(g))).collect() }
                    else { GrepIterator::<Mini>::new(p.text, b, o).take(n).map(|(m, _)| (m, None)).collect() };
                ctx.trans(got.len() as u64 + 1); ctx.state(sh[o] ^ mix(pi as u64 + 77));
                within(&format!("pattern {:?} from offset {o}", p.text), &got, &all)?;
                if o == 0 { ctx.outcome(mix(pi as u64) ^ got.iter().fold(0, |h, x| mix(h ^ x.0 as u64))); if all.iter().any(|a| a.1.len() > 1) { ctx.trivial += 1 } }
            }
            ctx.exec();
        }
        Ok(())
    });
    ph.bounds = ph.bounds.replace("iterated from several offsets and searched once from every offset, against matching each message on its own", "iterated from every offset, against matching each message alone, and with what stands in front of and behind it: where these agree");
    ph
}
/// patterns whose compiled form is large
fn heavy(capture: bool) -> Phase {
    let words: Vec<String> = (0..3000).map(|k| format!("w{:04}x{}", k, k * 7919 % 10007)).collect();
    let pats: Vec<(String, String)> = vec![ // pattern and what it matches
        ("(\\w{150})".into(), "a".repeat(150)), ("(\\w{170})".into(), "ab".repeat(85)), ("([a-z]{3000})".into(), "q".repeat(3000)), ("((?:\\pL\\d){80})".into(), "x4".repeat(80)), ("(\\W{120})".into(), "!".repeat(120)),
        (format!("{}a{}", "(".repeat(200), ")".repeat(200)), "a".into()), (format!("({})", words.join("|")), words[2999].clone()), (format!("((?i){})", "HelloWorld".repeat(60)), "hELLOwORLD".repeat(60)),
        (format!("({})", "abcdefghij".repeat(2000)), "abcdefghij".repeat(2000)), ("((?:a?){300}a{300})".into(), "a".repeat(300)), ("(\\d{1,400}-)".into(), "5-".into()), ("([^x]{1,2000}xx)".into(), "-xx".into()),
    ];
    let pats = Rc::new(pats);
    let p2 = pats.clone();
    Phase {
        name: "large patterns".into(), bounds: format!("{} patterns with many repetitions, groups, words or letters x the text they match in each of 4 arrangements of 5 messages, and the text without its last letter", pats.len()),
        total: pats.len() as u64 * 4, chunk: 1, cpu_limit: 60,
        run: Box::new(move |i, ctx| {
            let (p, text) = &pats[(i / 4) as usize];
            let re = Regex::new(p).map_err(|e| format!("the reference: {e}"))?;
            let mut b = vec![];
            let near = &text.as_bytes()[..text.len() - 1];
            for k in 0..5u64 {
                let body: &[u8] = match (k + i) % 5 { 0 | 3 => text.as_bytes(), 1 => near, 2 => b"--", _ => b"" };
                b.extend(h(body.len() as u16 + 5)); b.extend_from_slice(body); b.push(if i % 4 == 0 { b' ' } else { 1 });
                if i % 2 == 1 { b.extend_from_slice(near) }
            }
            let msgs = messages::<DltStorageEntry>(&b);
            let e: Vec<Item> = expected::<DltStorageEntry>(&b, &re, 0, &msgs, capture).into_iter().map(|e| e.0).collect();
            let got: Vec<Item> = if capture { RegExMatcherIterator::<DltStorageEntry>::new(p, &b, 0).take(9).map(|(m, g)| (m, Some(g))).collect() }
                else { DltGrepIterator::new(p, &b, 0).take(9).map(|(m, _)| (m, None)).collect() };
            ctx.trans(got.len() as u64 + 1); ctx.exec(); ctx.state(mix(i) ^ 0x4ea); ctx.outcome(mix(i) ^ got.len() as u64);
            if got != e { return Err(format!("{got:?}, expected {e:?}")) }
            Ok(())
        }),
        describe: Box::new(move |i| { let p = &p2[(i / 4) as usize].0; format!("pattern {}..., arrangement {}", &p[..p.len().min(40)], i % 4) }),
    }
}
/// messages whose contents are not ASCII, in part or as a whole no valid UTF-8
fn bytes_toks(depth: u32) -> Tokens {
    let m = |s: &[u8]| [b"MN", &[3 + s.len() as u8][..], s].concat();
    Tokens::new(depth, vec![
        ("[ä]", m("ä".as_bytes())), ("[aä]", m("aä".as_bytes())), ("[äb]", m("äb".as_bytes())), ("[€]", m("€".as_bytes())), ("[ff]", m(b"\xff")),
        ("[a ff b]", m(b"a\xffb")), ("[c3]", m(b"\xc3")), ("[a4]", m(b"\xa4")), ("[a c3 b]", m(b"a\xc3b")), ("[A]", m(b"A")), ("[Ä]", m("Ä".as_bytes())), ("[]", m(b"")),
        ("ä", "ä".as_bytes().to_vec()), ("c3", b"\xc3".to_vec()), ("a4", b"\xa4".to_vec()), ("b", b"b".to_vec()),
    ])
}
/// one search after the other in the same process: none may depend on which patterns were used before
fn histories(t: Tier, capture: bool, family: &[&'static str]) -> Phase {
    let f = pats(family);
    let (k, d) = (family.len() as u64, t.pick(3, 4));
    let toks = Tokens { toks: mini(1).toks, depth: d };
    let seqs = Rc::new(Tokens::new(d, family.iter().map(|p| (*p, vec![])).collect()));
    let s2 = seqs.clone();
    // every fragment twice, in two orders
    let b: Vec<u8> = toks.toks.iter().chain(toks.toks.iter().rev()).flat_map(|t| t.1.clone()).collect();
    Phase {
        name: "pattern histories".into(), bounds: format!("all sequences of at most {d} searches in one process, with each of the {k} patterns {family:?}: each finds what it finds alone"),
        total: seqs.total(), chunk: 64, cpu_limit: 10,
        run: Box::new(move |i, ctx| {
            let seq = seqs.seq(i);
            let msgs = messages::<Mini>(&b);
            // the searchers of the sequence exist side by side, and each is used up before the next one is made
            let mut kept: Vec<(usize, Vec<Item>, Box<dyn FnMut() -> Option<Item>>)> = vec![];
            let bytes: &'static [u8] = unsafe { std::mem::transmute::<&[u8], &'static [u8]>(&b) };
            let make = |p: &str| -> Box<dyn FnMut() -> Option<Item>> {
                if capture { let mut it = RegExMatcherIterator::<Mini>::new(p, bytes, 0); Box::new(move || it.next().map(|(m, g)| (m, Some(g)))) }
                else { let mut it = GrepIterator::<Mini>::new(p, bytes, 0); Box::new(move || it.next().map(|(m, _)| (m, None))) }
            };
            for (step, &j) in seq.iter().enumerate() {
                let e = expected::<Mini>(&b, &f[j].re, 0, &msgs, capture);
                let e: Vec<Item> = e.into_iter().map(|e| e.0).collect();
                let mut it = make(f[j].text);
                let mut got = vec![];
                while let Some(x) = it() { got.push(x); ctx.trans(1); if got.len() > e.len() { break } }
                if got != e { return Err(format!("search {step} with {:?} behind {:?} finds {got:?}, expected {e:?}", f[j].text, &seq[..step].iter().map(|&j| f[j].text).collect::<Vec<_>>())) }
                ctx.state(mix(seqs_hash(&seq[..=step])));
                kept.push((j, e, make(f[j].text)));
            }
            for (j, e, mut it) in kept {
                let mut got = vec![];
                while let Some(x) = it() { got.push(x); ctx.trans(1); if got.len() > e.len() { break } }
                if got != e { return Err(format!("the search with {:?}, made in {:?}, finds {got:?}, expected {e:?}", f[j].text, seq.iter().map(|&j| f[j].text).collect::<Vec<_>>())) }
                ctx.outcome(mix(j as u64));
            }
            ctx.exec();
            Ok(())
        }),
        describe: Box::new(move |i| s2.describe(i)),
    }
}
fn seqs_hash(s: &[usize]) -> u64 { s.iter().fold(1, |h, &x| mix(h ^ (x as u64 + 3))) }

const COUNTS: [usize; 7] = [1, 255, 257, 4097, 65535, 65537, 131073];
/// so many messages that counters of 8 or 16 bits do not hold their number
fn many(t: Tier, p: &[&'static str], capture: bool) -> Phase {
    let ps = pats(p);
    let k = ps.len() as u64;
    let n = t.pick(6, 7);
    let word = |x: usize, v: u64| match v { 0 => true, 1 => false, 2 => x % 257 == 256, _ => x % 3 == 0 };
    let make = move |i: u64| -> Vec<u8> {
        let (c, v) = (COUNTS[(i / k / 4) as usize], i / k % 4);
        let (mut hello, other) = (h(26), msg(5, b'-'));
        hello.extend_from_slice(b"- Hello World 1 -12345"); // 22 bytes behind the standard header
        let mut b = vec![];
        for x in 0..c { b.extend_from_slice(if word(x, v) { &hello } else { &other }) }
        b
    };
    let text = move |i: u64, p: &str| format!("{} messages, those with the word are {}, pattern {p:?}", COUNTS[(i / k / 4) as usize], ["all", "none", "each 257th", "each third"][(i / k % 4) as usize]);
    let ps2 = ps.clone();
    Phase {
        name: "many messages".into(), bounds: format!("{n} numbers of messages {:?} x 4 arrangements of those that match x {k} patterns", &COUNTS[..n as usize]),
        total: n * 4 * k, chunk: 1, cpu_limit: 30,
        run: Box::new(move |i, ctx| {
            let b = make(i);
            let p = &ps[(i % k) as usize];
            let msgs = messages::<DltStorageEntry>(&b);
            if msgs.len() != COUNTS[(i / k / 4) as usize] { return Err("the reference is wrong".into()) }
            let e = expected::<DltStorageEntry>(&b, &p.re, 0, &msgs, capture);
            let it: Box<dyn Iterator<Item = Item>> = if capture { Box::new(RegExMatcherIterator::<DltStorageEntry>::new(p.text, &b, 0).map(|(m, g)| (m, Some(g)))) }
                else { Box::new(DltGrepIterator::new(p.text, &b, 0).map(|(m, _)| (m, None))) };
            let mut n = 0;
            for (j, g) in it.enumerate() {
                ctx.trans(1);
                if e.get(j).map(|e| &e.0) != Some(&g) { return Err(format!("item {j} is {g:?}, expected {:?}", e.get(j))) }
                n = j + 1;
                if n % 1024 == 0 { ctx.alive() }
            }
            if n != e.len() { return Err(format!("{n} items instead of {}", e.len())) }
            ctx.state(mix(i)); ctx.exec(); ctx.outcome(n as u64);
            Ok(())
        }),
        describe: Box::new(move |i| text(i, ps2[(i % k) as usize].text)),
    }
}
/// the word at many distances from the beginning of its message, and messages at many distances from each other
fn far(t: Tier, p: &[&'static str], capture: bool) -> Phase {
    let mut lens: Vec<usize> = (0..=t.pick(1500, 5000)).collect();
    for k in 9..=t.pick(19, 21) { lens.extend((1usize << k) - t.pick(5, 24)..=(1 << k) + t.pick(5, 24)) }
    for p in [1000, 10_000, 65535 - 30] { lens.extend(p - 4..=p + 4) }
    lens.sort(); lens.dedup();
    let (n, ps) = (lens.len() as u64, pats(p));
    let k = ps.len() as u64;
    let bounds = format!("the word at each of {n} distances (up to {}) from the begin of its message, where a message can be that long, and that many stray bytes in front of two messages with the word, the bytes zeros, parts of markers, parts of the word or words that match as well x {k} patterns: iterated from the start, against matching each message on its own", lens[lens.len() - 1]);
    const FILL: [&[u8]; 4] = [&[0], b"DLT", b"HeW", b"Would "];
    let make = move |i: u64| -> (Vec<u8>, String) {
        let (l, f, within) = (lens[(i / 8) as usize], FILL[(i % 4) as usize], i / 4 % 2 == 0);
        let fill = |b: &mut Vec<u8>, n: usize| b.extend(f.iter().copied().cycle().take(n));
        let l = if i % 4 == 3 && l > 70_000 { l % 65536 } else { l };
        let mut b = vec![];
        let name = format!("{l} bytes of {:?} {}", String::from_utf8_lossy(f), if within { "in a message in front of the word" } else { "in front of messages" });
        if within {
            if l + 26 <= 65535 { b.extend(h(l as u16 + 26)); fill(&mut b, l); b.extend_from_slice(b"- Hello World 1 -12345"); }
            b.extend(h(l.min(65531) as u16 + 4));
            fill(&mut b, l.min(65531));
        } else {
            for _ in 0..2 { fill(&mut b, l); b.extend(h(26)); b.extend_from_slice(b"- Hello World 1 -12345"); }
            fill(&mut b, l);
        }
        b.extend(h(26));
        b.extend_from_slice(b"- Hello World 2 -12345");
        (b, name)
    };
    let make = Rc::new(make);
    let (m2, ps2) = (make.clone(), ps.clone());
    Phase {
        name: "distances".into(), bounds, total: n * 8, chunk: 4, cpu_limit: 20,
        run: Box::new(move |i, ctx| {
            let (b, _) = make(i);
            let msgs = messages::<DltStorageEntry>(&b);
            if nested::<DltStorageEntry>(&b, &msgs) { return Err("the reference is wrong".into()) }
            for (j, p) in ps.iter().enumerate() {
                let e = expected::<DltStorageEntry>(&b, &p.re, 0, &msgs, capture);
                let got: Vec<Item> = if capture { RegExMatcherIterator::<DltStorageEntry>::new(p.text, &b, 0).take(e.len() + 3).map(|(m, g)| (m, Some(g))).collect() }
                    else { DltGrepIterator::new(p.text, &b, 0).take(e.len() + 3).map(|(m, _)| (m, None)).collect() };
                ctx.trans(got.len() as u64 + 1); ctx.exec(); ctx.state(mix(i * k + j as u64)); ctx.outcome(mix(e.first().map_or(0, |e| e.1 as u64) + e.len() as u64));
                if !got.iter().eq(e.iter().map(|e| &e.0)) { return Err(format!("pattern {:?}: {got:?}, expected {:?}", p.text, e.iter().map(|e| &e.0).collect::<Vec<_>>())) }
            }
            ctx.alive();
            Ok(())
        }),
        describe: Box::new(move |i| { let _ = &ps2; m2(i).1 }),
    }
}
pub fn c11(t: Tier) -> Plan {
    Plan {
        phases: vec![
            phase("small-type fragments", mini(t.pick(4, 5)), &["a", "ab", "a.*b", "(?s)a.*b", "[ab]+", "a*", "", "a.*?b", "N", "MN", "b|ax", "\\x04", "(?s).*b"], 64, |b, p, c| grep_case::<Mini>(b, p, false, c)),
            phase("dlt fragments", dlt(t.pick(3, 4)), &["H.* World", "Hello World", "(?s)H.*World", "W*", "DLT"], 16, |b, p, c| grep_case::<DltStorageEntry>(b, p, false, c)),
            phase("bytes beyond ASCII", bytes_toks(t.pick(3, 4)), &[".", "a.b", "\\w", "(?i)A", "[^b]", "ä", "\\xe4", "..", "(?i)Ä", "[[:^ascii:]]", "\\W", "(?-u)a.b", "(?-u:\\xff)", "(?-u:\\xc3)", "(?-u:[^a])", "(?s-u:a.)", "\\p{L}b?"], 32, |b, p, c| grep_case::<Mini>(b, p, false, c)),
            histories(t, false, &["ab", "ba", "a.", ".a", "[ab]", "[ba]", "a?b", "b?a", "(a)", "(b)", "a|b", "(?i)AB", "(?i)BA", "[]", "", "axb"].map(|p| if p == "[]" { "\\x0a" } else { p })),
            far(t, &["Hello World", "Hello World 2", "(?s)H.* World", "W[a-z]+", "\\d -", "-"], false),
            many(t, &["Hello World", "H.* World", "o", "\\d -", "W*", "-"], false),
            long(t, &["H.* World", "Hello World", "(?s)H.*World", "W*", "H", "\\n", "[A-Z]"], false),
            around(t, &["^a", "a$", "\\Aa", "b\\z", "\\ba\\b", "a\\B", "\\Bb", "(?m)^b", "(?m)a$", "(?m)^a$", "(?mR)^b", "(?mR)a$", "a.b", "(?R)a.b", "(?s)a.b", "a\\s*b", "^", "$", "\\b", "\\b{start}a"], false),
            heavy(false),
            crate::indep::many_patterns(t, false, false),
            huge::phase(t, huge::LEN, "searched for two patterns", Box::new(|b, e, c| {
                for (p, n) in [("Hello.World", 66), ("ppp", 46)] {
                    let e: Vec<(usize, usize)> = e.iter().copied().filter(|m| m.1 == n).collect();
                    crate::reading::lockstep("pattern search", b, 0, DltGrepIterator::new(p, b, 0), &e, c, &|p| mix(p as u64))?;
                    c.alive();
                }
                Ok(())
            })),
        ],
        assumptions: vec!["streams longer than the bounds and other literal or greedy patterns behave like the explored ones".into()],
    }
}
pub fn c12(t: Tier) -> Plan {
    Plan {
        phases: vec![
            phase("small-type fragments", mini(t.pick(4, 5)), &["(a)", "(ab)", "a(.*)b", "(?s)(a.*)b", "([ab])+", "(a*)", "()", "a(.*?)b", "N(.)", "(MN)", "(b|ax)(b)?", "(?s).*(b)", "x?(a|b)", "(a)?b", "b|(a)", "(b)|a", "x|(?:(a)|b)+", "ab"], 64, |b, p, c| grep_case::<Mini>(b, p, true, c)),
            phase("dlt fragments", dlt(t.pick(3, 4)), &["H(.*) World", "(Hello) World", "(?s)H(.*)World", "(W*)", "(\\w)orld", "(Hello)? World", "H|(World)", "Hello"], 16, |b, p, c| grep_case::<DltStorageEntry>(b, p, true, c)),
            phase("bytes beyond ASCII", bytes_toks(t.pick(3, 4)), &["(.)", "a(.)b", "(\\w)", "(?i)(A)", "([^b])", "(ä)", "(\\xe4)", "(.)(.)", "(?i)(Ä)", "([[:^ascii:]])", "(\\W)", "(?-u)a(.)b", "((?-u:\\xff))", "((?-u:\\xc3))", "((?-u:[^a]))", "(?s-u:a(.))", "(\\p{L})b?"], 32, |b, p, c| grep_case::<Mini>(b, p, true, c)),
            histories(t, true, &["(ab)", "(ba)", "(a.)", "(.a)", "([ab])", "([ba])", "a(b)", "b(a)", "(a)b", "(b)a", "(a|b)", "(?i)(AB)", "(?i)(BA)", "(\\x0a)", "()", "a(x)b"]),
            far(t, &["(Hello) World", "Hello (World 2)", "(?s)Hello(.*)World", "(W[a-z]+)", "(\\d) -", "-(-?)"], true),
            many(t, &["(Hello) World", "H(.*) World", "(o)", "(\\d) -", "(W*)", "-(-)"], true),
            long(t, &["H(.*) World", "(Hello) World", "(?s)H(.*)World", "(W*)", "(H)", "(\\n)"], true),
            around(t, &["^(a)", "(a)$", "\\A(a)", "(b)\\z", "\\b(a)\\b", "(a)\\B", "\\B(b)", "(?m)^(b)", "(?m)(a)$", "(?m)^(a)$", "(?mR)^(b)", "(?mR)(a)$", "a(.)b", "(?R)a(.)b", "(?s)a(.)b", "a(\\s*)b", "^()", "()$", "\\b()a", "\\b{start}(a)"], true),
            heavy(true),
            crate::indep::many_patterns(t, false, true),
            huge::phase(t, huge::LEN, "searched for a captured word", Box::new(|b, e, c| {
                let e: Vec<(usize, (usize, usize))> = e.iter().filter(|m| m.1 == 66).map(|m| (m.0, (m.0 + 36, m.0 + 41))).collect();
                let got: Vec<_> = RegExMatcherIterator::<DltStorageEntry>::new("Hello (World)", b, 0).take(e.len() + 2).collect();
                c.exec(); c.trans(got.len() as u64);
                if got != e { return Err(format!("captures {got:?}, expected {e:?}")) }
                Ok(())
            })),
        ],
        assumptions: vec!["streams longer than the bounds and other capturing patterns behave like the explored ones".into()],
    }
}
