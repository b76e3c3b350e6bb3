CONSTANTS
  MinTick <- Lo
  NoBounty <- NoRate
  MaxTick = 1
  PriceOf <- ThreePrices
  RateOne = 10
  MaxBounty = 1
  MaxFee = 2
  MaxBatch = 2
  Self = "self"
  SpotOne = 1
  ValidAddr <- AnyAddr
  Ticks <- TwoTicks
  Users <- OneUser
  Claimers <- X
  Qtys = {1, 2}
  Amts = {1, 3}
  Mins = {0, 2}
  Bounties <- PlainBounty
  Fees = {0}
  Targets <- SomeTargets
  Blocks <- NoBlocks
  MaxOrders = 2
  MaxVolume = 6
  Kinds <- Trade
SPECIFICATION Spec
CONSTRAINT Bounded
INVARIANT Inv Listings WoundUp NoGain
CHECK_DEADLOCK FALSE
