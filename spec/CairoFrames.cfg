SPECIFICATION Spec
INVARIANT MeansStep
INVARIANT Spoiled
INVARIANT MeansAux
