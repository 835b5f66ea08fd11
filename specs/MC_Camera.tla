------------------------------- MODULE MC_Camera -------------------------------
(* All camera frames of small integer vectors: the view's axes form a right handed      *)
(* frame with the backwards direction, up points upwards in it, leaning or stretching     *)
(* up changes nothing; the view is symmetric and has the aspect of the image.             *)
EXTENDS Camera, TLC
CONSTANT K
V3 == (-K .. K) \X (-K .. K) \X (-K .. K)
VARIABLES up, back, u, size
vars == <<up, back, u, size>>
Init == up = <<0, 1, 0>> /\ back \in V3 /\ u = <<0, 0>> /\ size = <<1, 1>>
Frames == u = <<0, 0>> /\ up = <<0, 1, 0>> /\ up' \in V3 /\ UNCHANGED <<back, u, size>>
Coords == u = <<0, 0>> /\ up = <<0, 1, 0>> /\ back = <<0, 0, 1>> /\ \E k \in -2 .. 10, w \in 1 .. 5, h \in 1 .. 5 : u' = <<k, 3>> /\ size' = <<w, h>> /\ UNCHANGED <<up, back>>
Next == Frames \/ Coords
Spec == Init /\ [][Next]_vars
Usable == Cross(up, back) # <<0, 0, 0>>
FrameOK == Usable =>
  LET r == Right(up, back)
      a == Above(up, back)
  IN /\ Dot(r, a) = 0 /\ Dot(r, back) = 0 /\ Dot(a, back) = 0
     /\ Dot(Cross(r, a), back) > 0
     /\ Dot(a, up) > 0 /\ Dot(r, up) = 0
     /\ \A s \in {-2, 1} : LET up2 == VAdd(VMul(3, up), VMul(s, back)) IN Right(up2, back) = VMul(3, r) /\ Above(up2, back) = VMul(3, a)
Eq(a, b) == a[1] * b[2] = a[2] * b[1]
Neg(a) == <<-a[1], a[2]>>
ViewOK ==
  LET w == size[1]
      h == size[2]
      x == Across(u, <<3, 4>>, w, h)
      y == Upwards(u, <<3, 4>>)
      mirrored == <<Pow(2, u[2]) - u[1], u[2]>>
  IN /\ x[2] > 0 /\ y[2] > 0
     /\ Eq(Across(mirrored, <<3, 4>>, w, h), Neg(x)) /\ Eq(Upwards(mirrored, <<3, 4>>), Neg(y))
     /\ Eq(<<x[1] * h, x[2]>>, <<y[1] * w, y[2]>>)                    \* aspect
     /\ 2 * u[1] = Pow(2, u[2]) => x[1] = 0
     /\ u[1] = Pow(2, u[2]) => Eq(y, <<3, 4>>)                          \* the top at the configured angle
     /\ Sgn(2 * u[1] - Pow(2, u[2])) = Sgn(x[1])
Checked == TLCGet("stats").distinct > 10
=============================================================================
