CONSTANT TOL <- NoTol
SPECIFICATION Spec
INVARIANTS RoomKept OutKept StoresKept SlotsKept OneLoad LoadKnown NeverLate WorkedExactly DoneMeansAll DoneInTheEnd StuckOnlyByRoom
CHECK_DEADLOCK FALSE
