SPECIFICATION Spec
INVARIANTS AsMany Injective OwnCode Beyond DefaultBeyond Legacy
CHECK_DEADLOCK FALSE
