@verus shared
impl VDefault for SwapVolume { open spec fn dflt(x: SwapVolume) -> bool { x.input.0 == 0 && x.output.0 == 0 } fn dfltx() -> (r: SwapVolume) { SwapVolume { input: U128(0), output: U128(0) } } }
impl SwapVolume { pub fn default() -> (r: SwapVolume) ensures r.input.0 == 0, r.output.0 == 0 { SwapVolume { input: U128(0), output: U128(0) } } }
@end
