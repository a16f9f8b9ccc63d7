-------------------------- MODULE MCSatelliteView --------------------------
EXTENDS SatelliteView
CONSTANTS Step, Limit
Init == at_dlon = 0 /\ at_lat = 0 /\ at_rev \in 0..1
Next == \E d \in {<<Step, 0>>, <<-Step, 0>>, <<0, Step>>, <<0, -Step>>} :
          /\ Move(d) /\ at_dlon' \in -Limit..Limit /\ at_lat' \in -Limit..Limit
Spec == Init /\ [][Next]_pvars
Nadir == (at_dlon = 0 /\ at_lat = 0) => View(at_dlon, at_lat, at_rev) = <<0, 0>>
(* sin 30 and cos 60 degrees *)
ASSUME Close(FSin(Radians(3000000)), One \div 2, 8) /\ Close(FCos(Radians(6000000)), One \div 2, 8)
         /\ Close(FAtan(FDiv(FSin(Radians(1000000)), FCos(Radians(1000000)))), Radians(1000000), 20)
         /\ Close(FAsin(FSin(Radians(1200000))), Radians(1200000), 20)
=============================================================================
