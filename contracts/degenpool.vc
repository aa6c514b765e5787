@include utils.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@include rspec.vc DIR=degen_swap P=DegenSwapPool R=degen
@include rpool.vc DIR=degen_swap T=DegenSwap P=DegenSwapPool R=degen RS=degens M=degenmath G=dgate
@verus shared
/// the whole parts of the first n values, added up
pub open spec fn whole(w: Seq<u128>, n: int) -> int decreases n { if n <= 0 { 0 } else { whole(w, n - 1) + w[n - 1] as int / 1_000_000_000_000_000_000_000_000 } }
impl DegenSwapPool {
    /// value of the pool: each reserve times its price, rounded down to whole units, added up
    pub open spec fn tvl(&self) -> int { whole(weigh(self.c_amounts@, self.rt()), self.c_amounts@.len() as int) }
}
@end
@fn DegenSwapPool::get_tvl(self) -> r props=P21
    requires self.shape(),
    ensures r == self.tvl(),
@entry
    proof { e24(); }
@loop 0
    invariant __s0@ == weigh(self.c_amounts@, self.rt()), 0 <= __i0 <= __s0@.len(), __v0 == whole(__s0@, __i0 as int), spow(10, 24) == 1_000_000_000_000_000_000_000_000,
@end
