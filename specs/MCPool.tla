---- MODULE MCPool ----
EXTENDS Pool
MCRuns == <<2,3>>
====
