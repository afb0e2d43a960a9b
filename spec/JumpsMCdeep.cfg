CONSTANTS Size = 7 MaxJump = 5
SPECIFICATION Spec
INVARIANT MovesByNoise
INVARIANT ObeysLaw
INVARIANT NothingLost
INVARIANT FrozenRecognised
INVARIANT OthersRefused
PROPERTY Ends
