CONSTANTS
  MinTick <- Lo
  NoBounty <- NoRate
  MaxTick = 1
  PriceOf <- ThreePrices
  RateOne = 10
  MaxBounty = 1
  MaxFee = 2
  MaxBatch = 2
  Self = "self"
  SpotOne = 1
  ValidAddr <- AnyAddr
  Ticks <- AnyTicks
  Users <- TwoUsers
  Claimers <- X
  Qtys = {1}
  Amts = {1, 2, 3}
  Mins = {0, 2}
  Bounties <- PlainBounty
  Fees = {0}
  Targets <- SomeTargets
  Blocks <- NoBlocks
  MaxOrders = 3
  MaxVolume = 6
  Kinds <- ListK
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANT Inv Listings
CHECK_DEADLOCK FALSE
