-------------------------------- MODULE MC_Par ---------------------------------
EXTENDS Par
MinusOne == -1
MinusTwo == -2
===============================================================================
