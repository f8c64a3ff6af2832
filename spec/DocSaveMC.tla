----------------------------- MODULE DocSaveMC -----------------------------
(* DocSave with its constants read from a schema file.                            *)
EXTENDS DocSave, DocCfg
ASSUME PrintT("FIRST " \o FirstSlot)
=============================================================================
