//! Answers every line "x,y .. ; x,y,x,y .." on its input with the digest of the diagram, on its
//! standard error: the standard output belongs to the library's own debugging aids.
#[path = "../../harness/src/input.rs"]
#[allow(dead_code)]
mod input;
#[path = "../../harness/src/snap.rs"]
#[allow(dead_code)]
mod snap;
use input::Input;

fn parse(l: &str) -> Input {
    let nums = |t: &str| -> Vec<i64> { t.split(|c: char| !(c.is_ascii_digit() || c == '-')).filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect() };
    let (p, q) = l.split_once(';').expect("a line has points and segments");
    Input { points: nums(p).chunks(2).map(|c| [c[0], c[1]]).collect(), segs: nums(q).chunks(4).map(|c| [c[0], c[1], c[2], c[3]]).collect() }
}
fn main() {
    std::panic::set_hook(Box::new(|_| ()));
    let serve = || {
        for l in std::io::stdin().lines() {
            let Ok(l) = l else { break };
            let inp = parse(&l);
            let answer = match std::panic::catch_unwind(|| snap::build(&inp).map(|d| snap::snap(&d).digest_of_sites(&inp))) {
                Ok(Ok(d)) => format!("{d:016x}"),
                Ok(Err(e)) => format!("{e:?}").replace('\n', " "),
                Err(_) => "panic".to_string(),
            };
            eprintln!("@@ {answer}");
        }
    };
    std::thread::Builder::new().stack_size(64 << 20).spawn(serve).unwrap().join().unwrap();
}
