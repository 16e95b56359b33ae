SPECIFICATION Spec
VIEW View
INVARIANT Offered Ordered Found
PROPERTY OnlyBefore Chosen
CHECK_DEADLOCK FALSE
