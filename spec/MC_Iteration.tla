------------------------------ MODULE MC_Iteration ------------------------------
EXTENDS Iteration
Distinct(x) == x * 7 % 13
Tied(x) == x \div 2
=============================================================================
