CONSTANTS Size = 5 MaxJump = 3
SPECIFICATION Spec
INVARIANT MovesByNoise
INVARIANT ObeysLaw
INVARIANT NothingLost
INVARIANT FrozenRecognised
INVARIANT OthersRefused
PROPERTY Ends
