---- MODULE SweepPruneMC ----
EXTENDS SweepPrune
MCMax == << 3, 1 >>
MCMaxQ == << 2, 1 >>
====
