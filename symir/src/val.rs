use std::rc::Rc;
/// A register value: concrete (≤64 bits or wider), symbolic expression, or aggregate/vector.
#[derive(Clone, Debug)]
pub enum Val { C(u64), W(Rc<u128>), E(u32), A(Rc<[Val]>) }
impl Val {
    #[inline] pub fn from128(v: u128) -> Val { if v >> 64 == 0 { Val::C(v as u64) } else { Val::W(Rc::new(v)) } }
    pub fn c64(&self) -> u64 { match self { Val::C(x) => *x, Val::W(x) => **x as u64, v => panic!("c64 of {:?}", v) } }
    pub fn c128(&self) -> u128 { match self { Val::C(x) => *x as u128, Val::W(x) => **x, v => panic!("c128 of {:?}", v) } }
    #[inline] pub fn is_conc(&self) -> bool { matches!(self, Val::C(_) | Val::W(_)) }
    pub fn agg(&self) -> &Rc<[Val]> { match self { Val::A(x) => x, v => panic!("agg of {:?}", v) } }
}
