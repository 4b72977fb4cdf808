SPECIFICATION MCSpec
INVARIANTS Exact ErrorsOnly
PROPERTIES LoadingIsPure
