SPECIFICATION Spec
CONSTANTS XS = {2, 4, 11} YS = {2, 3} CXS = {0, 4, 13} CYS = {1, 3} NP = 3 NB = 2
CellX = {3} CellY = {1, 2} RadX = {1, 2} RadY = {1, 2} Variant = "ok"
INVARIANTS KeysInRange KeysSeparateBatches KeyIsCell DSPartition SearchExact
CHECK_DEADLOCK FALSE
