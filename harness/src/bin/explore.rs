//! development aid: find failing inputs, shrink them, print them one per line
use bvmon::{gen, input::*, oracle::*, rng::Rng, snap};
use std::panic::{catch_unwind, AssertUnwindSafe};
fn verdict(inp: &Input, kinds: &str) -> Option<String> {
    if inp.n() == 0 || !inp.valid() { return None; }
    let b = catch_unwind(AssertUnwindSafe(|| snap::build(inp).map(|d| snap::snap(&d))));
    let s = match b { Err(_) => return Some("panic".into()), Ok(Err(e)) => return Some(format!("err {e:?}")), Ok(Ok(s)) => s };
    let ctx = Ctx::new(inp, &s);
    let mut st = Stats::default(); let mut o = vec![];
    check_cells(inp, &s, &mut o); if let Some(m) = o.pop() { return Some(format!("cells {m}")); }
    check_topology(&s, ctx.sites.len(), &mut o, &mut st); if let Some(m) = o.pop() { return Some(format!("topo {m}")); }
    check_flags(&ctx, &mut o, &mut st); if let Some(m) = o.pop() { return Some(format!("flags {m}")); }
    check_equidistant(&ctx, K_ULP, &mut o, &mut st); if let Some(m) = o.pop() { return Some(format!("equi {m}")); }
    check_empty(&ctx, K_ULP, &mut o, &mut st); if let Some(m) = o.pop() { return Some(format!("empty {m}")); }
    if kinds.contains('e') { check_edges(&ctx, &mut o, &mut st); if let Some(m) = o.pop() { return Some(format!("edges {m}")); } }
    None
}
fn shrink(mut inp: Input, kinds: &str) -> Input {
    loop {
        let mut better = None;
        for i in 0..inp.points.len() { let mut c = inp.clone(); c.points.remove(i); if verdict(&c, kinds).is_some() { better = Some(c); break; } }
        if better.is_none() { for i in 0..inp.segs.len() { let mut c = inp.clone(); c.segs.remove(i); if verdict(&c, kinds).is_some() { better = Some(c); break; } } }
        if better.is_none() { for i in 0..inp.segs.len() { for h in 0..2 { let mut c = inp.clone(); let s = c.segs.remove(i); c.points.push([s[2*h], s[2*h+1]]); if verdict(&c, kinds).is_some() { better = Some(c); break; } } if better.is_some() {break;} } }
        // translate / scale
        if better.is_none() && inp.max_abs() > 1000 {
            let o = inp.points.first().copied().unwrap_or_else(|| [inp.segs[0][0], inp.segs[0][1]]);
            if o != [0, 0] {
                let c = inp.map(&|p| [p[0] - o[0], p[1] - o[1]]);
                if c.max_abs() <= i32::MAX as i64 && verdict(&c, kinds).is_some() { better = Some(c); }
            }
        }
        if better.is_none() {
            'd: for d in [1000, 100, 10, 7, 5, 3, 2] { let c = inp.map(&|p| [p[0] / d, p[1] / d]); if c != inp && verdict(&c, kinds).is_some() { better = Some(c); break 'd; } }
        }
        match better { Some(c) => inp = c, None => return inp }
    }
}
pub fn parse(s: &str) -> Input {
    let nums = |t: &str| -> Vec<i64> { t.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let (a, b) = s.split_once("segs=").unwrap();
    let (p, q) = (nums(a.split_once("points=").unwrap().1), nums(b));
    Input { points: p.chunks(2).map(|c| [c[0], c[1]]).collect(), segs: q.chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect() }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "find" => {
            let (fam, cases, size, kinds, max) = (&a[2], a[3].parse::<u64>().unwrap(), a[4].parse::<usize>().unwrap(), &a[5], a[6].parse::<usize>().unwrap());
            let seed: u64 = a.get(7).map_or(1, |s| s.parse().unwrap());
            for f in gen::FAMILIES.iter().filter(|f| fam == "all" || f.name == fam) {
                let found = std::sync::Mutex::new(vec![]);
                let found2 = &found;
                std::thread::scope(|sc| for th in 0..8 { sc.spawn(move || { let mut c = th; while c < cases && found2.lock().unwrap().len() < max {
                    let inp = (f.f)(&Rng::new(seed, f.name, c), size); 
                    if verdict(&inp, kinds).is_some() { let m = shrink(inp, kinds); let v = verdict(&m, kinds).unwrap(); found2.lock().unwrap().push((c, m, v)); }
                    c += 8;
                }}); });
                for (c, m, v) in found.into_inner().unwrap() { println!("{} {} {} ## {}", f.name, c, m.text(), v); }
            }
        }
        "show" => { // stdin: lines
            for l in std::io::stdin().lines() { let l = l.unwrap(); let inp = parse(l.split("##").next().unwrap());
                println!("{} valid={} -> {:?}", inp.text(), inp.valid(), verdict(&inp, "e"));
                if let Ok(Ok(s)) = catch_unwind(AssertUnwindSafe(|| snap::build(&inp).map(|d| snap::snap(&d)))) {
                    if a.len() > 2 { for v in &s.verts { println!("  v{} {:?} {:?} deg {}", v.id, v.x, v.y, vertex_cells(&s, v.id).len()); } for (i,c) in s.cells.iter().enumerate() { println!("  c{i} {:?} {:?}", inp.resolve(c.src,c.cat), c.inc); } for e in &s.edges { println!("  {e:?}"); } }
                }
            }
        }
        "bt" => { let _ = std::panic::take_hook(); for l in std::io::stdin().lines() { let inp = parse(l.unwrap().split("##").next().unwrap()); println!("{:?}", snap::build(&inp).map(|_| ())); } }
        "cpp" => { for l in std::io::stdin().lines() { let l = l.unwrap(); let inp = parse(l.split("##").next().unwrap());
            println!("{} {}", inp.points.len(), inp.segs.len()); for p in &inp.points { println!("{} {}", p[0], p[1]); } for s in &inp.segs { println!("{} {} {} {}", s[0], s[1], s[2], s[3]); } } }
        _ => panic!(),
    }
}
