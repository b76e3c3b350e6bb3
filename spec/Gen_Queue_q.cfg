CONSTANTS
  MinTick <- Lo
  MaxTick = 1
  PriceOf <- OnePrice
  RateOne = 100
  MaxBounty = 1
  MaxFee = 5
  MaxBatch = 2
  Self = "self"
  ValidAddr <- AnyAddr
  Preplaced <- Units7
  MaxOrders = 0
  MaxQty = 2
  MaxVolume = 7
  Dir = "bid"
  Record = TRUE
  WithTree = TRUE
SPECIFICATION SpecGen
ACTION_CONSTRAINT Fresh
VIEW View
CHECK_DEADLOCK FALSE
