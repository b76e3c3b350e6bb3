CONSTANTS
  MinTick <- Lo
  MaxTick = 1
  PriceOf <- OnePrice
  RateOne = 100
  MaxBounty = 1
  MaxFee = 5
  MaxBatch = 2
  Self = "self"
  ValidAddr <- AnyAddr
  Preplaced <- NoneYet
  MaxOrders = 4
  MaxQty = 2
  MaxVolume = 6
  Dir = "bid"
  Record = FALSE
SPECIFICATION Spec
VIEW View
INVARIANT Inv
PROPERTY Untouched
CHECK_DEADLOCK FALSE
