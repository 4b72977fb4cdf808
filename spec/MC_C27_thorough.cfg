SPECIFICATION MCSpec
CONSTANTS
  NC = 5
  NL = 7
CONSTRAINT Small
INVARIANTS RunsAreMaximal ExactlyTheRuns Ordered Covers
PROPERTIES Monotone
