---- MODULE MCPoolDeep ----
EXTENDS Pool
MCRuns == <<2,3>>
====
