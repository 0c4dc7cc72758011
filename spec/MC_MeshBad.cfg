SPECIFICATION Spec
CONSTANTS NGhost = 2
 RootN = {8, 9, 11}
 MaxNp = 4
 EvenRule = FALSE
INVARIANTS Partition Ownership MutualNeighbours SymmetricLinks Covered FacesCovered
CHECK_DEADLOCK FALSE
