INIT Init
NEXT Next
INVARIANTS RoundTrip Spells Distinct LEInverse Total FieldsAreAll PartsAreAll
CHECK_DEADLOCK FALSE
