CONSTANTS MaxOd = 4 MaxPd = 3 MaxRd = 3 Pots = 3 MaxAsk = 5
SPECIFICATION Spec
INVARIANT ExactlyOnce
INVARIANT PrefixFrozen
INVARIANT Bounded
INVARIANT NotStuck
PROPERTY Finishes
