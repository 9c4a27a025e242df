------------------------------ MODULE UnitLib ------------------------------
(* Reference definitions of the units (generated once by tools/gen_units.py, reviewed against the SI brochure).
   D(l, parts): numeric factor exp(l/10^6) times the named units to the given powers. *)
EXTENDS Integers, Sequences, TLC
D(l, p) == [l |-> l, p |-> p]
BaseUnits == <<"m", "kg", "s", "A", "K", "mol", "cd", "rad", "sr", "USD", "pax", "byte">>
Prefixes ==
  "Y" :> 55262042 @@ "Z" :> 48354287 @@ "E" :> 41446532 @@ "P" :> 34538776 @@ "T" :> 27631021 @@ "G" :> 20723266 @@
  "M" :> 13815511 @@ "k" :> 6907755 @@ "h" :> 4605170 @@ "da" :> 2302585 @@ "d" :> -2302585 @@ "c" :> -4605170 @@
  "m" :> -6907755 @@ "u" :> -13815511 @@ "n" :> -20723266 @@ "p" :> -27631021 @@ "f" :> -34538776 @@ "a" :> -41446532 @@
  "z" :> -48354287 @@ "y" :> -55262042 @@ "Ei" :> 41588831 @@ "Pi" :> 34657359 @@ "Ti" :> 27725887 @@ "Gi" :> 20794415 @@
  "Mi" :> 13862944 @@ "Ki" :> 6931472
Defs0 ==
  "unitless" :> D(0, <<>>) @@
  "g" :> D(-6907755, <<<<"kg", 1>>>>) @@
  "Hz" :> D(0, <<<<"s", -1>>>>) @@
  "N" :> D(0, <<<<"m", 1>>, <<"kg", 1>>, <<"s", -2>>>>) @@
  "Pa" :> D(0, <<<<"N", 1>>, <<"m", -2>>>>) @@
  "J" :> D(0, <<<<"N", 1>>, <<"m", 1>>>>) @@
  "W" :> D(0, <<<<"J", 1>>, <<"s", -1>>>>) @@
  "C" :> D(0, <<<<"A", 1>>, <<"s", 1>>>>) @@
  "V" :> D(0, <<<<"W", 1>>, <<"A", -1>>>>) @@
  "F" :> D(0, <<<<"C", 1>>, <<"V", -1>>>>) @@
  "ohm" :> D(0, <<<<"V", 1>>, <<"A", -1>>>>) @@
  "S" :> D(0, <<<<"A", 1>>, <<"V", -1>>>>) @@
  "Wb" :> D(0, <<<<"V", 1>>, <<"s", 1>>>>) @@
  "T" :> D(0, <<<<"Wb", 1>>, <<"m", -2>>>>) @@
  "H" :> D(0, <<<<"Wb", 1>>, <<"A", -1>>>>) @@
  "degC" :> D(0, <<<<"K", 1>>>>) @@
  "lm" :> D(0, <<<<"cd", 1>>, <<"sr", 1>>>>) @@
  "lx" :> D(0, <<<<"lm", 1>>, <<"m", -2>>>>) @@
  "Bq" :> D(0, <<<<"s", -1>>>>) @@
  "Gy" :> D(0, <<<<"J", 1>>, <<"kg", -1>>>>) @@
  "Sv" :> D(0, <<<<"J", 1>>, <<"kg", -1>>>>) @@
  "kat" :> D(0, <<<<"mol", 1>>, <<"s", -1>>>>) @@
  "min" :> D(4094345, <<<<"s", 1>>>>) @@
  "h" :> D(8188689, <<<<"s", 1>>>>) @@
  "d" :> D(11366743, <<<<"s", 1>>>>) @@
  "deg" :> D(-4048227, <<<<"rad", 1>>>>) @@
  "arc_minute" :> D(-4094345, <<<<"deg", 1>>>>) @@
  "arc_second" :> D(-4094345, <<<<"arc_minute", 1>>>>) @@
  "ha" :> D(9210340, <<<<"m", 2>>>>) @@
  "L" :> D(-6907755, <<<<"m", 3>>>>)
Defs1 ==
  "t" :> D(6907755, <<<<"kg", 1>>>>) @@
  "e" :> D(-43277754, <<<<"C", 1>>>>) @@
  "eV" :> D(0, <<<<"e", 1>>, <<"V", 1>>>>) @@
  "Da" :> D(-61662655, <<<<"kg", 1>>>>) @@
  "u" :> D(0, <<<<"Da", 1>>>>) @@
  "ua" :> D(25731217, <<<<"m", 1>>>>) @@
  "c0" :> D(19518601, <<<<"m", 1>>, <<"s", -1>>>>) @@
  "hbar" :> D(-78234758, <<<<"J", 1>>, <<"s", 1>>>>) @@
  "me" :> D(-69170833, <<<<"kg", 1>>>>) @@
  "a0" :> D(-23662283, <<<<"m", 1>>>>) @@
  "Eh" :> D(-39974118, <<<<"J", 1>>>>) @@
  "bar" :> D(11512925, <<<<"Pa", 1>>>>) @@
  "Ang" :> D(-23025851, <<<<"m", 1>>>>) @@
  "NM" :> D(7524021, <<<<"m", 1>>>>) @@
  "b" :> D(-64472383, <<<<"m", 2>>>>) @@
  "kn" :> D(0, <<<<"NM", 1>>, <<"h", -1>>>>) @@
  "erg" :> D(-16118096, <<<<"J", 1>>>>) @@
  "dyn" :> D(-11512925, <<<<"N", 1>>>>) @@
  "P" :> D(-2302585, <<<<"Pa", 1>>, <<"s", 1>>>>) @@
  "St" :> D(-9210340, <<<<"m", 2>>, <<"s", -1>>>>) @@
  "sb" :> D(9210340, <<<<"cd", 1>>, <<"m", -2>>>>) @@
  "ph" :> D(9210340, <<<<"lx", 1>>>>) @@
  "Mx" :> D(-18420681, <<<<"Wb", 1>>>>) @@
  "gauss" :> D(-9210340, <<<<"T", 1>>>>) @@
  "Oe" :> D(4376731, <<<<"A", 1>>, <<"m", -1>>>>) @@
  "degK" :> D(0, <<<<"K", 1>>>>) @@
  "nmi" :> D(0, <<<<"NM", 1>>>>) @@
  "knot" :> D(0, <<<<"kn", 1>>>>) @@
  "inch" :> D(-3673006, <<<<"m", 1>>>>) @@
  "ft" :> D(-1188099, <<<<"m", 1>>>>)
Defs2 ==
  "mi" :> D(7383582, <<<<"m", 1>>>>) @@
  "ly" :> D(36785926, <<<<"m", 1>>>>) @@
  "oz" :> D(3344610, <<<<"g", 1>>>>) @@
  "lb" :> D(2772589, <<<<"oz", 1>>>>) @@
  "lbm" :> D(0, <<<<"lb", 1>>>>) @@
  "ton" :> D(7600902, <<<<"lb", 1>>>>) @@
  "slug" :> D(2680604, <<<<"kg", 1>>>>) @@
  "wk" :> D(1945910, <<<<"d", 1>>>>) @@
  "week" :> D(1945910, <<<<"d", 1>>>>) @@
  "a" :> D(5900561, <<<<"d", 1>>>>) @@
  "yr" :> D(0, <<<<"a", 1>>>>) @@
  "year" :> D(0, <<<<"a", 1>>>>) @@
  "mo" :> D(-2484907, <<<<"yr", 1>>>>) @@
  "month" :> D(-2484907, <<<<"yr", 1>>>>) @@
  "degR" :> D(-587787, <<<<"K", 1>>>>) @@
  "degF" :> D(0, <<<<"degR", 1>>>>) @@
  "tsp" :> D(-5312635, <<<<"L", 1>>>>) @@
  "tbsp" :> D(1098612, <<<<"tsp", 1>>>>) @@
  "floz" :> D(693147, <<<<"tbsp", 1>>>>) @@
  "cup" :> D(2079442, <<<<"floz", 1>>>>) @@
  "pt" :> D(2772589, <<<<"floz", 1>>>>) @@
  "qt" :> D(693147, <<<<"pt", 1>>>>) @@
  "galUS" :> D(1331154, <<<<"L", 1>>>>) @@
  "galUK" :> D(1514268, <<<<"L", 1>>>>) @@
  "lbf" :> D(1492504, <<<<"N", 1>>>>) @@
  "rev" :> D(1837877, <<<<"rad", 1>>>>) @@
  "rpm" :> D(1837877, <<<<"rad", 1>>, <<"min", -1>>>>) @@
  "rps" :> D(1837877, <<<<"rad", 1>>, <<"s", -1>>>>) @@
  "cal" :> D(1431268, <<<<"J", 1>>>>) @@
  "cali" :> D(1431937, <<<<"J", 1>>>>)
Defs3 ==
  "Btu" :> D(6961349, <<<<"J", 1>>>>) @@
  "acre" :> D(-6461468, <<<<"mi", 2>>>>) @@
  "hp" :> D(6614323, <<<<"W", 1>>>>) @@
  "atm" :> D(11526088, <<<<"Pa", 1>>>>) @@
  "torr" :> D(-6633318, <<<<"atm", 1>>>>) @@
  "psi" :> D(8838517, <<<<"Pa", 1>>>>) @@
  "psf" :> D(-4969813, <<<<"psi", 1>>>>) @@
  "mu0" :> D(-13587071, <<<<"N", 1>>, <<"A", -2>>>>) @@
  "eps0" :> D(0, <<<<"mu0", -1>>, <<"c0", -2>>>>) @@
  "Grav" :> D(-23430428, <<<<"m", 3>>, <<"kg", -1>>, <<"s", -2>>>>) @@
  "Nav" :> D(54754899, <<<<"mol", -1>>>>) @@
  "R" :> D(2117970, <<<<"J", 1>>, <<"mol", -1>>, <<"K", -1>>>>) @@
  "V0" :> D(-6100672, <<<<"m", 3>>, <<"mol", -1>>>>) @@
  "planck" :> D(1837877, <<<<"hbar", 1>>>>) @@
  "mp" :> D(-61655410, <<<<"kg", 1>>>>) @@
  "mn" :> D(-61654032, <<<<"kg", 1>>>>) @@
  "Rinfinity" :> D(16211015, <<<<"m", -1>>>>) @@
  "re" :> D(-33502771, <<<<"m", 1>>>>) @@
  "lambdac" :> D(-26744650, <<<<"m", 1>>>>) @@
  "lambdap" :> D(-34260054, <<<<"m", 1>>>>) @@
  "lambdan" :> D(-34261431, <<<<"m", 1>>>>) @@
  "mue" :> D(-53033658, <<<<"J", 1>>, <<"T", -1>>>>) @@
  "mup" :> D(-59523183, <<<<"J", 1>>, <<"T", -1>>>>) @@
  "mub" :> D(-53034817, <<<<"J", 1>>, <<"T", -1>>>>) @@
  "mun" :> D(-60550221, <<<<"J", 1>>, <<"T", -1>>>>) @@
  "gammap" :> D(19404678, <<<<"rad", 1>>, <<"s", -1>>, <<"T", -1>>>>) @@
  "gammapc" :> D(19404704, <<<<"rad", 1>>, <<"s", -1>>, <<"T", -1>>>>) @@
  "phi0" :> D(-33812265, <<<<"Wb", 1>>>>) @@
  "hme" :> D(-7226049, <<<<"J", 1>>, <<"s", 1>>, <<"kg", -1>>>>)
Defs == Defs0 @@ Defs1 @@ Defs2 @@ Defs3
\* temperature scales as exact affine maps to kelvin: kelvin = (x + o) * f
Affine == [K |-> [f |-> <<1, 1>>, o |-> <<0, 1>>], degK |-> [f |-> <<1, 1>>, o |-> <<0, 1>>],
           degC |-> [f |-> <<1, 1>>, o |-> <<5463, 20>>], degR |-> [f |-> <<5, 9>>, o |-> <<0, 1>>],
           degF |-> [f |-> <<5, 9>>, o |-> <<45967, 100>>]]
OffsetUnits == {"degC", "degF"}
=============================================================================
