SPECIFICATION MCSpec
INVARIANT OnEllipse
INVARIANT Centred
INVARIANT Apart
INVARIANT Mirrored
