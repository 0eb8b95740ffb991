SPECIFICATION Spec
VIEW View
INVARIANT TypeOK
PROPERTY PropertyHolds
CHECK_DEADLOCK FALSE
