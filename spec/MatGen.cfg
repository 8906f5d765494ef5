SPECIFICATION Spec
CHECK_DEADLOCK FALSE
INVARIANTS DetLaws RankLaws RrefLaws InverseLaws KernelLaws AlgebraLaws FastLaws TextLaws
