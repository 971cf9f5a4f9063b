---- MODULE MCIpcFree ----
EXTENDS Ipc
====
