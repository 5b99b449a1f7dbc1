SPECIFICATION Spec
CONSTANT Steps = 30
INVARIANTS AdvanceIsDraws AdvanceAdds JumpCommutes JumpAdds JumpsAtOnce HalvesMakeAWord DoubleIsTop53
CHECK_DEADLOCK FALSE
