SPECIFICATION Spec
VIEW DesignView
INVARIANTS Repeatable AnsatzRedundant Idempotent NamesFit TypeOk Commute
PROPERTIES RefusalChangesNothing OneFile
CHECK_DEADLOCK FALSE
CONSTANTS Mode = "design" Depth = 2 Sample = 0
