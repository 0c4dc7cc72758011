SPECIFICATION Spec
CONSTANTS NGhost = 2
 RootN = {8, 9, 11}
 MaxNp = 4
 EvenRule = TRUE
INVARIANT SomeLegal
CHECK_DEADLOCK FALSE
