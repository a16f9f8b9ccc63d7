----------------------------- MODULE MCListing -----------------------------
EXTENDS Listing, TLC, Json
Lines == [kind : {"flash"}, id : 1..2, parent : {0}, values : {<<>>}]
         \cup [kind : {"group"}, id : 1..2, parent : 1..2, values : {<<>>}]
         \cup [kind : {"event"}, id : 1..2, parent : 1..2, values : {<<>>}]
         \cup [kind : {"other"}, id : {0}, parent : {0}, values : {<<>>}]
NoRepeats(s) == \A i, j \in 1..Len(s) : (i # j /\ s[i].kind \in Kinds) => (s[i].kind # s[j].kind \/ s[i].id # s[j].id)
Listings == {s \in UNION {[1..n -> Lines] : n \in 0..4} : NoRepeats(s)}
Init == listing \in Listings /\ Start
Spec == Init /\ [][ReadLine]_rvars
Stay == UNCHANGED rvars
Gen == (at = 0) => PrintT("GEN " \o ToJson(listing))
=============================================================================
