INIT Init
NEXT Next
CONSTANTS Depth = 1
 Vs = {"12", "x", ""}
PROPERTY Only
