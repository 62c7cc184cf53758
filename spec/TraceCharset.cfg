SPECIFICATION SpecCS
CHECK_DEADLOCK FALSE
POSTCONDITION Accepted
