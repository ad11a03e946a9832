------------------------------ MODULE MC_Board ------------------------------
EXTENDS Board
Shape == <<1, 2, 2>>
=============================================================================
