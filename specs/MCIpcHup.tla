---- MODULE MCIpcHup ----
EXTENDS Ipc
====
