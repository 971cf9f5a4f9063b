---- MODULE MCIpcClose ----
EXTENDS Ipc
====
