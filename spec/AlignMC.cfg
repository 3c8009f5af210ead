SPECIFICATION Spec
INVARIANTS MarkersMeet PadKeeps CropClean CropSkipped Still SameSize Centred AxesFollow
PROPERTIES RedoSame
CHECK_DEADLOCK FALSE
CONSTANT Sizes <- AllSizes
