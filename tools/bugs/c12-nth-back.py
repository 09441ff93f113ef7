prop='C12'
needs='nth on a position iterator whose back end was advanced before'
what='nth jumps by index arithmetic and forgets where the back end is, so positions already yielded by next_back come again'
edits=[('postrait.rs', '''impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
    type Item = P;
    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        let old = self.cur;
''', '''impl<const XFIRST: bool, P: PosT> Iterator for PosTIter<XFIRST, P> {
    type Item = P;
    fn nth(&mut self, n: usize) -> Option<Self::Item> {
        if XFIRST && n > 0 {
            let last = self.end?;
            let at = self.cur?.to_usize() + n;
            self.cur = P::tryfrom_usize(at).ok();
            if self.cur.is_none() || at > P::last().to_usize() {
                self.end = None;
                return None;
            }
            if self.cur > Some(last) {
                self.end = self.cur;
            }
        }
        let n = if XFIRST { 0 } else { n };
        for _ in 0..n {
            self.next()?;
        }
        self.next()
    }
    #[inline]
    fn next(&mut self) -> Option<Self::Item> {
        let old: Option<P> = self.cur;
''')]
demo='''
use sqrid::PosT;
type P = sqrid::Pos<3, 2>;
fn main() {
    let all: Vec<P> = P::iter().collect();
    for b in 0..all.len() {
        for n in 0..14 {
            let mut it = P::iter();
            for _ in 0..b {
                it.next_back();
            }
            let left = all.len() - b;
            assert_eq!(it.nth(n), if n < left { Some(all[n]) } else { None });
        }
    }
}
'''
