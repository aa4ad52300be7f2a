CONSTANTS
 Places = 6
 Nodes = 3
 PerNode = 2
 Moves = 3
INIT MInit
NEXT MNext
VIEW MView
INVARIANT OneOwner
INVARIANT Agree
INVARIANT FewMove
CHECK_DEADLOCK FALSE
