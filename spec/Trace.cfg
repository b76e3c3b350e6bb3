CONSTANTS
  MinTick <- MinTickId
  MaxTick <- MaxTickId
  PriceOf <- GridPrice
  RateOne <- E18
  MaxBounty <- Rate1pc
  MaxFee <- Rate5pc
  MaxBatch = 100
  Self <- SelfAddr
  ValidAddr <- AddrOK
  SpotOne <- E36
  CostPlace = 32
  CostSwap = 24
  CostTick = 10
  CostWalk = 80
  CostLevel = 40
  CostClaim = 50
  CostClaimLevel = 16
INIT Init
NEXT Next
VIEW View
CHECK_DEADLOCK FALSE
