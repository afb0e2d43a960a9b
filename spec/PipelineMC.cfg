CONSTANTS MaxOd = 3 MaxPd = 2 MaxRd = 2 Pots = 2 MaxAsk = 3
SPECIFICATION Spec
INVARIANT ExactlyOnce
INVARIANT PrefixFrozen
INVARIANT Bounded
INVARIANT NotStuck
PROPERTY Finishes
