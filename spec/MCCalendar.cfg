SPECIFICATION Spec
INVARIANTS CalendarRight WeekdayKnown MovesRight InRangeAlways NoGap
CHECK_DEADLOCK FALSE
