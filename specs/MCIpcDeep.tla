---- MODULE MCIpcDeep ----
EXTENDS Ipc
====
