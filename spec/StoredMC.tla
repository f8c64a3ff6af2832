------------------------------ MODULE StoredMC ------------------------------
EXTENDS Stored
McByte == 0..3
=============================================================================
