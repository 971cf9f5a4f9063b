---- MODULE MCIpcStall ----
EXTENDS Ipc
====
