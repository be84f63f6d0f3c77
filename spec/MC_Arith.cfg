SPECIFICATION Spec
CONSTANTS Window = 8
 Offsets = {0, 250, 65530, 30000, 16777210, 1000000000}
INVARIANTS Adds Muls Cmps Shift Words8 Rats Laws Floats
CHECK_DEADLOCK FALSE
