SPECIFICATION Spec
INVARIANTS Right Filled
PROPERTY Stable
