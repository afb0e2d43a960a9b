-------------------------------- MODULE GlfMC --------------------------------
(* Laws of the generalised logistic function on a grid: bounds, direction, mirror, values at the offset, shift, closed   *)
(* forms for nu = 1, 1/2, 2, and the inverse.                                                                            *)
EXTENDS Glf
VARIABLES p, x
Ps == [al : {0, -200, 700}, ar : {500, 100}, g : {100, -900, 2500}, nu : {5, 50, 100, 200, 400}, q : {10, 100, 300}, c : {100}, o : {0, 3000}]
Init == p \in Ps /\ x = -20000
Next == x < 20000 /\ x' = x + 2000 /\ UNCHANGED p
E5 == Exponent(p.g, 100 * (x - p.o))
Bounded == LET y == Glf(p, x) IN Min2(p.al, p.ar) * 100 - Tol(p) <= y /\ y <= Max2(p.al, p.ar) * 100 + Tol(p)
Monotone == LET d == Glf(p, x + 500) - Glf(p, x) IN Sign(p.g) * Sign(p.ar - p.al) * d >= -2 * Tol(p)
Mirrored == Near(Glf(p, x), Glf([p EXCEPT !.g = -@], 2 * p.o - x), Tol(p))
Moved == Near(Glf(p, x), Glf([p EXCEPT !.o = @ + 777], x + 777), Tol(p))
\* with nu = 1 the function is the logistic one: y/(1-y) = exp(E)/q
Logistic == p.nu = 100 /\ Abs(E5) < 300000 => LET f == Frac(p, E5)   e == Expo(-Abs(E5))
            IN IF E5 >= 0 THEN Near((f \div 10) * ((100 * Unit + p.q * e) \div 1000), Unit * 1000, 300000 * (1 + p.q \div 100))
               ELSE Near((f \div 10) * ((100 * e + p.q * Unit) \div 1000), (e \div 10) * 10000, 300000 * (1 + p.q \div 100))
\* nu = 1/2 squares, nu = 2 takes the root
Powers == LET f == Frac([p EXCEPT !.nu = 100], E5) IN
            /\ Near(Frac([p EXCEPT !.nu = 50], E5), RDiv((f \div 10) * (f \div 10), 1000), 40)
            /\ LET r == Frac([p EXCEPT !.nu = 200], E5) IN Near(f, RDiv((r \div 10) * (r \div 10), 1000), 60)
Ends == /\ Near(Frac(p, 10000000), Unit, FracTol(p)) /\ (p.nu <= 400 => Near(Frac(p, -10000000), 0, FracTol(p)))
Inv == Bounded /\ Monotone /\ Mirrored /\ Moved /\ Logistic /\ Powers /\ Ends
=============================================================================
