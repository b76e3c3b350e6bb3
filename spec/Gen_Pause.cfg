CONSTANTS
  MaxLen = 10
  MinTick <- Lo
  NoBounty <- NoRate
  MaxTick = 1
  PriceOf <- ThreePrices
  RateOne = 10
  MaxBounty = 1
  MaxFee = 2
  MaxBatch = 2
  Self = "self"
  SpotOne = 1
  ValidAddr <- AnyAddr
  Ticks <- OneTick
  Users <- OneUser
  Claimers <- X
  Qtys = {1, 2}
  Amts = {1, 2}
  Mins = {0}
  Bounties <- PlainBounty
  Fees = {0}
  Targets <- NoTarget
  Blocks <- NoBlocks
  MaxOrders = 3
  MaxVolume = 7
  Kinds <- PauseK
SPECIFICATION SpecGen
VIEW View
CONSTRAINT Bounded Short
CHECK_DEADLOCK FALSE
