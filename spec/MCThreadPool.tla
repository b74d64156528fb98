---- MODULE MCThreadPool ----
EXTENDS ThreadPool
E == <<"enq">>
Wt == <<"wait">>
F(n) == <<"fe", n>>
PA == <<<<E, E, Wt>>>>
PB == <<<<E, Wt, E>>, <<E, Wt>>>>
PC == <<<<F(3), Wt>>, <<E>>>>
PD == <<<<E, F(3), E>>, <<Wt>>>>
PE == <<<<E, E>>, <<E, Wt>>, <<Wt>>>>
PF == <<<<F(5), E, Wt>>, <<Wt, F(2)>>>>

PG == <<<<E, Wt>>, <<Wt>>>>
====
