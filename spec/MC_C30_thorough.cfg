SPECIFICATION MCSpec
INVARIANTS RejectedExactly AcceptedExactly KindKept
PROPERTIES RoundTrip
CHECK_DEADLOCK FALSE
