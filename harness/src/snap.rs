//! A plain copy of what a built diagram shows through its public API.
use crate::input::Input;
use boostvoronoi::{BvError, Builder, CellIndex, Diagram, EdgeIndex, InputType, OutputType, SourceCategory, SyncDiagram, VertexIndex};

#[derive(Clone, Debug, PartialEq)]
pub struct CellS {
    pub id: usize,
    pub src: usize,
    pub cat: u8,
    pub inc: Option<usize>,
    pub pt: bool,
    pub seg: bool,
    pub start: bool,
    pub end: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub struct VertS {
    pub id: usize,
    pub x: f64,
    pub y: f64,
    pub inc: Option<usize>,
    pub site: bool,
    pub color: u32,
}
#[derive(Clone, Debug, PartialEq)]
pub struct EdgeS {
    pub id: usize,
    pub cell: Option<usize>,
    pub v0: Option<usize>,
    pub twin: Option<usize>,
    pub next: Option<usize>,
    pub prev: Option<usize>,
    pub linear: bool,
    pub primary: bool,
    pub color: u32,
}
#[derive(Clone, Debug, Default, PartialEq)]
pub struct Snap {
    pub cells: Vec<CellS>,
    pub verts: Vec<VertS>,
    pub edges: Vec<EdgeS>,
}
pub fn cat(c: SourceCategory) -> u8 {
    match c {
        SourceCategory::SinglePoint => 0,
        SourceCategory::SegmentStart => 1,
        SourceCategory::SegmentEnd => 2,
        SourceCategory::Segment => 3,
    }
}
fn tof<F: OutputType>(f: F) -> f64 {
    f.to_f64().unwrap()
}
fn cell_s(c: &boostvoronoi::Cell) -> CellS {
    CellS {
        id: c.id().0,
        src: c.source_index(),
        cat: cat(c.source_category()),
        inc: c.get_incident_edge().map(|e| e.0),
        pt: c.contains_point(),
        seg: c.contains_segment(),
        start: c.contains_segment_startpoint(),
        end: c.contains_segment_endpoint(),
    }
}
fn vert_s<F: OutputType>(v: &boostvoronoi::Vertex<F>) -> VertS {
    VertS { id: v.get_id().0, x: tof(v.x()), y: tof(v.y()), inc: v.get_incident_edge().ok().map(|e| e.0), site: v.is_site_point(), color: v.get_color() }
}
fn edge_s(e: &boostvoronoi::Edge) -> EdgeS {
    EdgeS {
        id: e.id().0,
        cell: e.cell().ok().map(|c| c.0),
        v0: e.vertex0().map(|v| v.0),
        twin: e.twin().ok().map(|e| e.0),
        next: e.next().ok().map(|e| e.0),
        prev: e.prev().ok().map(|e| e.0),
        linear: e.is_linear(),
        primary: e.is_primary(),
        color: e.get_color(),
    }
}
pub fn snap<F: OutputType>(d: &Diagram<F>) -> Snap {
    Snap {
        cells: d.cells().iter().map(|c| cell_s(&c.get())).collect(),
        verts: d.vertices().iter().map(|c| vert_s(&c.get())).collect(),
        edges: d.edges().iter().map(|c| edge_s(&c.get())).collect(),
    }
}
pub fn snap_sync<F: OutputType>(d: &SyncDiagram<F>) -> Snap {
    Snap {
        cells: d.cells().iter().map(cell_s).collect(),
        verts: d.vertices().iter().map(vert_s).collect(),
        edges: d.edges().iter().map(edge_s).collect(),
    }
}
impl Snap {
    pub fn v1(&self, e: usize) -> Option<usize> {
        self.edges[self.edges[e].twin?].v0
    }
    /// bit-exact fingerprint
    pub fn digest(&self) -> u64 {
        self.digest_with(|c| [c.src as i64, c.cat as i64, 0, 0, 0])
    }
    /// the same with the site of a cell in place of its source: which of several identical points
    /// a cell is named after is nobody's business
    pub fn digest_of_sites(&self, inp: &Input) -> u64 {
        self.digest_with(|c| match inp.resolve(c.src, c.cat) {
            None => [0; 5],
            Some(crate::input::Site::Pt(p)) => [1, p[0], p[1], 0, 0],
            Some(crate::input::Site::Seg(a, b)) => [2, a[0], a[1], b[0], b[1]],
        })
    }
    fn digest_with(&self, site: impl Fn(&CellS) -> [i64; 5]) -> u64 {
        let mut h = 0xcbf29ce484222325u64;
        let mut eat = |v: u64| {
            for b in v.to_le_bytes() {
                h ^= b as u64;
                h = h.wrapping_mul(0x100000001b3);
            }
        };
        let o = |v: Option<usize>| v.map_or(u64::MAX, |x| x as u64);
        for c in &self.cells {
            eat(c.id as u64);
            for x in site(c) {
                eat(x as u64);
            }
            eat(o(c.inc));
        }
        for v in &self.verts {
            eat(v.x.to_bits());
            eat(v.y.to_bits());
            eat(o(v.inc));
            eat(v.site as u64 | (v.color as u64) << 8);
        }
        for e in &self.edges {
            eat(o(e.cell));
            eat(o(e.v0));
            eat(o(e.twin));
            eat(o(e.next));
            eat(o(e.prev));
            eat(e.linear as u64 | (e.primary as u64) << 1 | (e.color as u64) << 8);
        }
        h
    }
}
pub fn build_t<I: InputType, F: OutputType>(inp: &Input) -> Result<Diagram<F>, BvError> {
    let c = |v: i64| -> I { I::from(v).expect("coordinate fits") };
    let pts: Vec<[I; 2]> = inp.points.iter().map(|p| [c(p[0]), c(p[1])]).collect();
    let segs: Vec<[I; 4]> = inp.segs.iter().map(|s| [c(s[0]), c(s[1]), c(s[2]), c(s[3])]).collect();
    Builder::<I, F>::default().with_vertices(pts.iter())?.with_segments(segs.iter())?.build()
}
pub fn build(inp: &Input) -> Result<Diagram<f64>, BvError> {
    build_t::<i32, f64>(inp)
}
pub fn ei(i: usize) -> EdgeIndex {
    EdgeIndex(i)
}
pub fn vi(i: usize) -> VertexIndex {
    VertexIndex(i)
}
pub fn ci(i: usize) -> CellIndex {
    CellIndex(i)
}
