---- MODULE MCPoolSpurious ----
EXTENDS Pool
MCRuns == <<2,1>>
====
