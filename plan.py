"""Which contract units and which harness decide each property."""
SM = ["smath", "ratedmath", "degenmath"]
SP = ["spool", "ratedpool", "degenpool"]
UNITS = {
    "P01": ["simple_pool"], "P02": ["simple_pool"], "P03": ["simple_pool"], "P04": ["simple_pool"], "P05": ["simple_pool"],
    "P06": ["simple_pool", "pools"] + SP,
    "P07": SM + SP, "P08": SM + SP, "P09": SP, "P10": SM + SP, "P11": SM + SP + ["simple_pool", "admin", "pools"],
    "P12": ["acct", "ledger", "swap", "vswap", "liq", "mft", "pools"], "P13": ["ledger"], "P14": ["acct", "swap", "vswap", "pools"], "P15": ["acct", "ledger", "vswap"],
    "P16": ["mft", "pools"], "P17": ["acct", "shadow", "mft", "liq", "swap", "vswap", "pooladd", "pools"], "P18": ["admin", "twap", "ledger", "mft", "shadow", "liq", "pooladd"],
    "P19": ["ledger", "shadow", "mft", "liq", "swap", "vswap", "pooladd"],
    "P20": ["twap", "liq", "swap", "vswap"], "P21": SP[1:] + ["rates", "dgate", "degens", "pools", "liq", "vswap"], "P22": ["vswap", "acct", "ledger", "swap", "pools"], "P24": ["swap", "pooladd", "pools"],
    "F01": ["sfarm", "farming"], "F02": ["sfarm", "farming"], "F03": ["sfarm", "farming"], "F04": ["farming"], "F05": ["farming"], "F06": ["sfarm", "farming"],
}
HARNESS = {p: "fa" if p[0] == "F" else "ex" for p in ["P%02d" % i for i in range(1, 25)] + ["F%02d" % i for i in range(1, 7)]}
ASSUMPTIONS = [
    "Partial correctness: a panic is a divergence in the proofs (a NEAR contract call that panics is reverted by the runtime as a whole)",
    "near_sdk collections (LookupMap, UnorderedMap, Vector, ...) behave as maps/sequences and distinct storage prefixes do not collide",
    "borsh (de)serialisation round-trips; the NEAR runtime delivers callbacks once and reverts failed calls",
    "overflow-checks = true (as the release profile sets): machine arithmetic that overflows panics; modelled as such, not as mathematical integers",
    "uint's U256/U384 operations are integer operations that panic on overflow, underflow and division by zero",
    "log output and error texts are dropped by the extraction",
]
DEFAULT_NOTE = ("Every obligation generated from the contracts and the current source of the listed functions is discharged by Verus/Z3 for all inputs "
                "(partial correctness: panics revert). Trusted: near_sdk collections/env models, uint arithmetic, the extractor. The bounded harness is a stand-in "
                "for what lies outside and for concrete failing inputs, and is not counted as proved.")
