---- MODULE MCPoolAsFound ----
EXTENDS Pool
MCRuns == <<2,3>>
====
