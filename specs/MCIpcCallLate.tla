---- MODULE MCIpcCallLate ----
EXTENDS IpcCall
====
