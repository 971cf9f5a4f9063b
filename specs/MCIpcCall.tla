---- MODULE MCIpcCall ----
EXTENDS IpcCall
====
