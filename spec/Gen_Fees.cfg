CONSTANTS
  MaxLen = 10
  MinTick <- Lo
  NoBounty <- NoRate
  MaxTick = 1
  PriceOf <- ThreePrices
  RateOne = 10
  MaxBounty = 1
  MaxFee = 2
  MaxBatch = 2
  Self = "self"
  SpotOne = 1
  ValidAddr <- AnyAddr
  Ticks <- OneTick
  Users <- OneUser
  Claimers <- X
  Qtys = {10}
  Amts = {7, 20}
  Mins = {0}
  Bounties <- SomeBounty
  Fees = {0, 2, 3}
  Targets <- NoTarget
  Blocks <- SomeBlocks
  MaxOrders = 3
  MaxVolume = 50
  Kinds <- Fee
SPECIFICATION SpecGen
VIEW View
CONSTRAINT Bounded Short
CHECK_DEADLOCK FALSE
