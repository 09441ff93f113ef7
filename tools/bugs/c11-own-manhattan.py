prop='C11'
needs='two positions of one board whose distance exceeds 65535'
what='Pos has a distance of its own, in 16 bits'
edits=[('pos.rs', '''    fn y(&self) -> Self::Ytype {
        self.0 .1
    }
}''', '''    fn y(&self) -> Self::Ytype {
        PosT::tuple(self).1
    }
    fn manhattan(&self, other: &Self) -> usize {
        let (ax, ay) = (self.0 .0.into_inner(), self.0 .1.into_inner());
        let (bx, by) = (other.0 .0.into_inner(), other.0 .1.into_inner());
        ax.abs_diff(bx).wrapping_add(ay.abs_diff(by)) as usize
    }
}''')]
demo='''
use sqrid::PosT;
type P = sqrid::Pos<40000, 40000>;
fn main() {
    assert_eq!(PosT::manhattan(&P::FIRST, &P::LAST), 80000);
}
'''
