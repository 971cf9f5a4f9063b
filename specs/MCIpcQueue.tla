---- MODULE MCIpcQueue ----
EXTENDS Ipc
====
