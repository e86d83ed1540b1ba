------------------------------ MODULE BitListMC ------------------------------
\* Explores the bit list exhaustively up to a length and writes out every step.
EXTENDS BitList, Json, TLC
Only == bits
Out == PrintT(<<"STEP", ToJson(<<bits, last'.op, last'.arg, bits'>>)>>)
=============================================================================
