SPECIFICATION Spec
INVARIANT Faithful
