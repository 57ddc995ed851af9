SPECIFICATION Spec
CONSTANTS Steps = 2
VIEW View
CHECK_DEADLOCK FALSE
INVARIANTS Others Failed Given Whole0 Leads Numbered Named
