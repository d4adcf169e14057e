//! Inputs, their exact validity test and their set of sites.
use std::collections::BTreeMap;

pub type P = [i64; 2];
pub type S = [i64; 4];

#[derive(Clone, Debug, Default, PartialEq)]
pub struct Input {
    pub points: Vec<P>,
    pub segs: Vec<S>,
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Site {
    Pt(P),
    /// normalised: lexicographically smaller endpoint first
    Seg(P, P),
}

impl Site {
    pub fn is_seg(&self) -> bool {
        matches!(self, Site::Seg(..))
    }
    pub fn seg(a: P, b: P) -> Site {
        if a <= b {
            Site::Seg(a, b)
        } else {
            Site::Seg(b, a)
        }
    }
    pub fn has_endpoint(&self, p: &P) -> bool {
        match self {
            Site::Pt(_) => false,
            Site::Seg(a, b) => a == p || b == p,
        }
    }
    pub fn shift(&self, dx: i64, dy: i64) -> Site {
        match self {
            Site::Pt(p) => Site::Pt([p[0] + dx, p[1] + dy]),
            Site::Seg(a, b) => Site::Seg([a[0] + dx, a[1] + dy], [b[0] + dx, b[1] + dy]),
        }
    }
}

pub fn cross(o: P, a: P, b: P) -> i128 {
    let (ax, ay) = (a[0] as i128 - o[0] as i128, a[1] as i128 - o[1] as i128);
    let (bx, by) = (b[0] as i128 - o[0] as i128, b[1] as i128 - o[1] as i128);
    ax * by - ay * bx
}

/// p in the closed segment ab
pub fn on_segment(a: P, b: P, p: P) -> bool {
    cross(a, b, p) == 0
        && p[0] >= a[0].min(b[0])
        && p[0] <= a[0].max(b[0])
        && p[1] >= a[1].min(b[1])
        && p[1] <= a[1].max(b[1])
}

/// true if the two non-degenerate segments meet anywhere else than in a shared endpoint
pub fn bad_pair(s: &S, t: &S) -> bool {
    let (a, b, c, d) = ([s[0], s[1]], [s[2], s[3]], [t[0], t[1]], [t[2], t[3]]);
    if s[0].max(s[2]) < t[0].min(t[2])
        || t[0].max(t[2]) < s[0].min(s[2])
        || s[1].max(s[3]) < t[1].min(t[3])
        || t[1].max(t[3]) < s[1].min(s[3])
    {
        return false;
    }
    // an endpoint of one in the other, not being an endpoint of it
    for p in [c, d] {
        if p != a && p != b && on_segment(a, b, p) {
            return true;
        }
    }
    for p in [a, b] {
        if p != c && p != d && on_segment(c, d, p) {
            return true;
        }
    }
    // identical (either direction)
    if (a == c && b == d) || (a == d && b == c) {
        return true;
    }
    let (d1, d2, d3, d4) = (cross(a, b, c).signum(), cross(a, b, d).signum(), cross(c, d, a).signum(), cross(c, d, b).signum());
    d1 * d2 < 0 && d3 * d4 < 0
}

impl Input {
    pub fn new(points: &[P], segs: &[S]) -> Input {
        Input { points: points.to_vec(), segs: segs.to_vec() }
    }
    pub fn n(&self) -> usize {
        self.points.len() + self.segs.len()
    }
    /// the documented contract: segments meet only in endpoints, no point inside a segment.
    /// repeated points and zero-length segments are part of it, repeated segments are not.
    pub fn valid(&self) -> bool {
        let mut pts: Vec<P> = self.points.clone();
        let mut segs = Vec::new();
        for s in &self.segs {
            if s[0] == s[2] && s[1] == s[3] {
                pts.push([s[0], s[1]]);
            } else {
                segs.push(*s);
            }
        }
        for (i, s) in segs.iter().enumerate() {
            for t in &segs[..i] {
                if bad_pair(s, t) {
                    return false;
                }
            }
            let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
            for p in &pts {
                if *p != a && *p != b && on_segment(a, b, *p) {
                    return false;
                }
            }
        }
        true
    }
    /// every distinct site, with the list of (source index, category) that may name it.
    /// category: 0 single point, 1 segment start, 2 segment end, 3 segment
    pub fn sites(&self) -> BTreeMap<Site, Vec<(usize, u8)>> {
        let mut m: BTreeMap<Site, Vec<(usize, u8)>> = BTreeMap::new();
        for (i, p) in self.points.iter().enumerate() {
            m.entry(Site::Pt(*p)).or_default().push((i, 0));
        }
        let np = self.points.len();
        for (i, s) in self.segs.iter().enumerate() {
            let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
            if a == b {
                m.entry(Site::Pt(a)).or_default().push((np + i, 0));
            } else {
                m.entry(Site::Pt(a)).or_default().push((np + i, 1));
                m.entry(Site::Pt(b)).or_default().push((np + i, 2));
                m.entry(Site::seg(a, b)).or_default().push((np + i, 3));
            }
        }
        m
    }
    /// the site a (source index, category) names, if it exists
    pub fn resolve(&self, idx: usize, cat: u8) -> Option<Site> {
        let np = self.points.len();
        if idx < np {
            return if cat == 0 { Some(Site::Pt(self.points[idx])) } else { None };
        }
        let s = self.segs.get(idx - np)?;
        let (a, b) = ([s[0], s[1]], [s[2], s[3]]);
        match cat {
            0 if a == b => Some(Site::Pt(a)),
            1 if a != b => Some(Site::Pt(a)),
            2 if a != b => Some(Site::Pt(b)),
            3 if a != b => Some(Site::seg(a, b)),
            _ => None,
        }
    }
    pub fn in_range(&self) -> bool {
        let ok = |v: &i64| *v >= i32::MIN as i64 && *v <= i32::MAX as i64;
        self.points.iter().flatten().all(ok) && self.segs.iter().flatten().all(ok)
    }
    pub fn max_abs(&self) -> i64 {
        let mut m = 0;
        for p in &self.points {
            m = m.max(p[0].abs()).max(p[1].abs());
        }
        for s in &self.segs {
            for c in s {
                m = m.max(c.abs());
            }
        }
        m
    }
    pub fn text(&self) -> String {
        format!("points={:?} segs={:?}", self.points, self.segs)
    }
    pub fn hash64(&self) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut eat = |v: i64| {
            for b in v.to_le_bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        };
        eat(self.points.len() as i64);
        for p in &self.points {
            eat(p[0]);
            eat(p[1]);
        }
        for s in &self.segs {
            for c in s {
                eat(*c);
            }
        }
        h
    }
    pub fn map(&self, f: &dyn Fn(P) -> P) -> Input {
        Input {
            points: self.points.iter().map(|p| f(*p)).collect(),
            segs: self
                .segs
                .iter()
                .map(|s| {
                    let a = f([s[0], s[1]]);
                    let b = f([s[2], s[3]]);
                    [a[0], a[1], b[0], b[1]]
                })
                .collect(),
        }
    }
}
