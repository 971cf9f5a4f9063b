----------------------------- MODULE MCStorage -----------------------------
EXTENDS Storage
All == {"inode", "grow", "bind", "value"}
NoInode == All \ {"inode"}
NoGrow == All \ {"grow"}
NoBind == All \ {"bind"}
NoValue == All \ {"value"}
Sym == Permutations(Syms) \cup Permutations(Procs) \cup Permutations(Slots) \cup Permutations(Paths)
=============================================================================
