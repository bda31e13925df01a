---------------------------- MODULE MCSyncState ----------------------------
(* Configurations of SyncState. *)
EXTENDS SyncState
S1 == <<<<1>>, <<2>>>>
S2 == <<<<1, 1>>, <<1>>>>
S3 == <<<<1, 2>>, <<2>>>>
S4 == <<<<1>>, <<2>>, <<3>>>>
S5 == <<<<1, 1>>>>
TD == <<"d">>
TC == <<"c">>
TDC == <<"d", "c">>
TDD == <<"d", "d">>
R2 == <<2>>
R3 == <<3>>
R4 == <<4>>
R21 == <<2, 1>>
R12 == <<1, 2>>
R22 == <<2, 2>>
R32 == <<3, 2>>
=============================================================================
