CONSTANTS
  MinTick <- Lo
  NoBounty <- NoRate
  MaxTick = 1
  PriceOf <- Flat
  RateOne = 10
  MaxBounty = 1
  MaxFee = 1
  MaxBatch = 2
  Self = "self"
  ValidAddr <- Valid
  People <- P3
  FeeRates = {1, 2}
SPECIFICATION Spec
INVARIANT TradeInv History
PROPERTY Handover
CHECK_DEADLOCK FALSE
