//! Object memory: address = object id << 32 | offset; objects are copy-on-write and may hold symbolic bytes.
use std::rc::Rc;

#[derive(Clone)]
pub struct Obj { pub data: Vec<u8>, pub sym: Vec<u32>, pub ro: bool, pub stack: bool }
const PG: usize = 64;
type Page = [Option<Rc<Obj>>; PG];

#[derive(Clone)]
pub struct Mem { pages: Vec<Rc<Page>>, empty: Rc<Page>, pub next: u32 }

impl Mem {
    pub fn new(first: u32) -> Mem { Mem { pages: vec![], empty: Rc::new(std::array::from_fn(|_| None)), next: first } }
    pub fn put(&mut self, id: u32, o: Obj) {
        let p = id as usize / PG;
        while self.pages.len() <= p { self.pages.push(self.empty.clone()); }
        Rc::make_mut(&mut self.pages[p])[id as usize % PG] = Some(Rc::new(o));
    }
    pub fn alloc(&mut self, size: usize, fill: u8, stack: bool) -> u32 {
        let id = self.next; self.next += 1;
        self.put(id, Obj { data: vec![fill; size], sym: vec![], ro: false, stack });
        id
    }
    pub fn free(&mut self, id: u32) -> bool {
        let p = id as usize / PG;
        if p >= self.pages.len() { return false; }
        let pg = Rc::make_mut(&mut self.pages[p]);
        let r = pg[id as usize % PG].take().is_some();
        if pg.iter().all(|x| x.is_none()) { self.pages[p] = self.empty.clone(); }
        r
    }
    #[inline] pub fn get(&self, id: u32) -> Option<&Rc<Obj>> { self.pages.get(id as usize / PG).and_then(|p| p[id as usize % PG].as_ref()) }
    #[inline] pub fn get_mut(&mut self, id: u32) -> Option<&mut Obj> {
        let p = self.pages.get_mut(id as usize / PG)?;
        let pg = Rc::make_mut(p);
        pg[id as usize % PG].as_mut().map(Rc::make_mut)
    }
    pub fn live(&self) -> usize { self.pages.iter().map(|p| p.iter().filter(|x| x.is_some()).count()).sum() }
}
impl Obj {
    #[inline] pub fn has_sym(&self, off: usize, n: usize) -> bool { !self.sym.is_empty() && self.sym[off..off + n].iter().any(|x| *x != 0) }
    #[inline] pub fn set_conc(&mut self, off: usize, b: &[u8]) {
        self.data[off..off + b.len()].copy_from_slice(b);
        if !self.sym.is_empty() { for x in &mut self.sym[off..off + b.len()] { *x = 0; } }
    }
    #[inline] pub fn set_sym(&mut self, off: usize, e: u32) {
        if self.sym.is_empty() { self.sym = vec![0; self.data.len()]; }
        self.sym[off] = e; self.data[off] = 0xAA;
    }
}
