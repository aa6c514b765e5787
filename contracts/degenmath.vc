@include utils.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@include rspec.vc DIR=degen_swap P=DegenSwapPool R=degen
@include rmath.vc DIR=degen_swap T=DegenSwap P=DegenSwapPool R=degen RS=degens
