------------------------------ MODULE CursorMC ------------------------------
\* Explores the cursor exhaustively over N items and writes out every step.
EXTENDS CursorM, Json, TLC
Only == pos
Out == PrintT(<<"STEP", ToJson(<<pos, last'.op, last'.arg, pos'>>)>>)
=============================================================================
