---- MODULE MCIpcCallApart ----
EXTENDS IpcCall
====
