use bvmon::{gen, input::*, oracle::*, rng::Rng, snap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;
use std::collections::BTreeMap;
thread_local!{ static LAST: std::cell::RefCell<String> = Default::default(); }
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let fam = &a[1];
    let cases: u64 = a[2].parse().unwrap();
    let size: usize = a[3].parse().unwrap();
    let seed: u64 = a.get(4).map_or(1, |s| s.parse().unwrap());
    std::panic::set_hook(Box::new(|i| LAST.with(|l| *l.borrow_mut() = format!("{} @ {}", i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s|s.to_string())).unwrap_or_default(), i.location().unwrap()))));
    let fams: Vec<&gen::Family> = gen::FAMILIES.iter().filter(|f| fam == "all" || f.name == fam || (fam=="p" && !f.segs) || (fam=="s" && f.segs)).collect();
    for f in fams {
        let res: Mutex<BTreeMap<String, (u64, String)>> = Default::default();
        let mx = Mutex::new(BTreeMap::<&str,f64>::new());
        let t = std::time::Instant::now();
        let nsz = std::sync::atomic::AtomicU64::new(0);
        std::thread::scope(|sc| {
            for th in 0..8u64 {
                let res = &res; let mx=&mx; let nsz=&nsz;
                sc.spawn(move || {
                    let mut c = th;
                    while c < cases {
                        let r = Rng::new(seed, f.name, c);
                        let inp = (f.f)(&r, size);
                        let c0 = c;
                        c += 8;
                        let mut rec = |k: &str, m: String| {
                            let mut g = res.lock().unwrap();
                            let e = g.entry(k.to_string()).or_insert((0, format!("{} case {c0} n={} {} :: {}", f.name, inp.n(), m, if inp.n() < 12 { inp.text() } else { String::new() })));
                            e.0 += 1;
                        };
                        nsz.fetch_add(inp.n() as u64, std::sync::atomic::Ordering::Relaxed);
                        if !inp.valid() { rec("INVALID", String::new()); continue; }
                        let b = catch_unwind(AssertUnwindSafe(|| snap::build(&inp).map(|d| snap::snap(&d))));
                        let s = match b {
                            Err(_) => { let m = LAST.with(|l| l.borrow().clone()); rec(&format!("PANIC {m}"), m.clone()); continue }
                            Ok(Err(e)) => { rec("ERR", format!("{e:?}")); continue }
                            Ok(Ok(s)) => s,
                        };
                        let ctx = Ctx::new(&inp, &s);
                        let mut st = Stats::default();
                        let mut o = vec![];
                        check_cells(&inp, &s, &mut o); for m in o.drain(..) { rec("cells", m); }
                        check_topology(&s, ctx.sites.len(), &mut o, &mut st); let badtopo=!o.is_empty(); for m in o.drain(..) { rec("topo", m); }
                        if badtopo {continue;}
                        check_flags(&ctx, &mut o, &mut st); for m in o.drain(..) { rec("flags", m); }
                        st.max_ulp=0.0;
                        check_equidistant(&ctx, K_ULP, &mut o, &mut st); for m in o.drain(..) { rec("equi", m); }
                        {let mut g=mx.lock().unwrap(); let e=g.entry("equi").or_default(); *e=e.max(st.max_ulp);} st.max_ulp=0.0;
                        check_empty(&ctx, K_ULP, &mut o, &mut st); for m in o.drain(..) { rec("empty", m); }
                        {let mut g=mx.lock().unwrap(); let e=g.entry("empty").or_default(); *e=e.max(st.max_ulp);let e=g.entry("event").or_default(); *e=e.max(st.max_event);}
                        check_edges(&ctx, &mut o, &mut st); for m in o.drain(..) { rec("edges", m); }
                        check_walk(&ctx, &r, 20, &mut o, &mut st); for m in o.drain(..) { rec("walk", m); }
                        for v in &s.verts { let on=ctx.sites.iter().any(|s| match s {Site::Pt(p)=> p[0] as f64==v.x && p[1] as f64==v.y, _=>false}); if on != v.site { rec(if on {"site_missing"} else {"site_extra"}, format!("{v:?}")); } }
                    }
                });
            }
        });
        println!("{:12} {:6} cases {:8} elems {:.1}s {:?}", f.name, cases, nsz.into_inner(), t.elapsed().as_secs_f64(), mx.into_inner().unwrap());
        for (k, (n, m)) in res.into_inner().unwrap() {
            println!("   {k}: {n}   e.g. {}", m.chars().take(600).collect::<String>());
        }
    }
}
