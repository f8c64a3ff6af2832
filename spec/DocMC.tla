------------------------------- MODULE DocMC -------------------------------
(* DocEdit with its constants read from a schema file.                            *)
EXTENDS DocEdit, DocCfg
ASSUME PrintT("FIRST " \o FirstSlot)
=============================================================================
