------------------------------ MODULE MCSymbols ------------------------------
EXTENDS Symbols
MCWork == [t \in Threads |-> CASE t = 1 -> <<1, 2>> [] t = 2 -> <<2, 1>> [] OTHER -> <<3>>]
DeepWork == [t \in Threads |-> CASE t = 1 -> <<1, 2, 3>> [] t = 2 -> <<2, 3, 1>> [] OTHER -> <<3, 1>>]
=============================================================================
