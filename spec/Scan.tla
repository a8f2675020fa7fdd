-------------------------------- MODULE Scan --------------------------------
(***************************************************************************)
(* How a circuit reads a message.  It reads the start marker 255, then the *)
(* bytes from left to right.  At most one attempt is running: an attempt   *)
(* goes on as long as the definition can read the next byte; when it       *)
(* cannot, the attempt is abandoned and, if the byte can begin a match, a  *)
(* new attempt begins with it.  A zero byte is padding and ends attempts.  *)
(***************************************************************************)
EXTENDS Parts

Idle == Dead
Marker == 255
Continues(As, c, b) == b # 0 /\ c # Idle /\ Step(As, c, b) # Dead
Begins(As, b) == b # 0 /\ Step(As, Start, b) # Dead
Complete(As, c) == c # Idle /\ Accepts(As, c)
=============================================================================
