-------------------------------- MODULE Width --------------------------------
(* Widths are Q16.16 fixed-point numbers, represented by their underlying integer.          *)
EXTENDS Integers, Sequences
One == 65536
Floor(w) == w \div One
Ceil(w) == -((-w) \div One)
(* nearest integer, halves downwards for non-negative values *)
Round(w) == LET q == w % One IN IF q <= 32768 THEN w \div One ELSE (w \div One) + 1
(* code point widths of the standard format specification *)
WideRanges == << <<4352, 4447>>,
                 <<9001, 9002>>,
                 <<11904, 12350>>,
                 <<12352, 42191>>,
                 <<44032, 55203>>,
                 <<63744, 64255>>,
                 <<65040, 65049>>,
                 <<65072, 65135>>,
                 <<65280, 65376>>,
                 <<65504, 65510>>,
                 <<127744, 128591>>,
                 <<129280, 129535>>,
                 <<131072, 196605>>,
                 <<196608, 262141>> >>
Wide(cp) == cp >= 4352 /\ \E i \in DOMAIN WideRanges : WideRanges[i][1] <= cp /\ cp <= WideRanges[i][2]
CpWidth(cp) == IF Wide(cp) THEN 2 ELSE 1
=============================================================================
