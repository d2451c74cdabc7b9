SPECIFICATION Spec
INVARIANTS FIPS197 SP38CTR OFB Carries Cuts
CHECK_DEADLOCK FALSE
