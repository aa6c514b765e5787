@include utils.vc
@include chain.vc
@include feespec.vc
@include curve.vc
@include rspec.vc DIR=rated_swap P=RatedSwapPool R=rate
@include rpool.vc DIR=rated_swap T=RatedSwap P=RatedSwapPool R=rate RS=rates M=ratedmath G=rates
