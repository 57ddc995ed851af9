SPECIFICATION Spec
CONSTANTS Steps = 5
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Sizes Others Refused Refers
