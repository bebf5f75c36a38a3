---- MODULE BucketResumeMC ----
EXTENDS BucketResume
H == [p \in P |-> IF p = "a" THEN <<<<1, 2>>, <<>>, <<3>>, <<4>>>> ELSE <<<<7>>, <<6>>, <<>>, <<5, 4>>>>]
====
