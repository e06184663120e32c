SPECIFICATION Spec
INVARIANTS Views_ OnlyPowers BitsArePowers NoShift NoneIsZero WidthsAre SpacesAre Emit
CHECK_DEADLOCK FALSE
