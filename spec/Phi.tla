-------------------------------- MODULE Phi --------------------------------
(* The normal distribution function in fixed point, times 10^9.              *)
(* Tab and Den hold the distribution function and its density at k/16, for   *)
(* k from 0 to 104; Cdf(n) gives the distribution function at n/2^16 by a     *)
(* Taylor series about the nearest grid point.  MCPhi checks the tables.     *)
EXTENDS Num
One == 1000000000
Grid == 16
LastK == 104
Tab == <<500000000, 524917669, 549738225, 574365688, 598706326, 622669718, 646169767, 669125612, 691462461, 713112298, 734014471, 754116150, 773372648, 791747607, 809213047, 825749288, 841344746, 855995621, 869705483, 882484772, 894350226, 905324257, 915434278, 924712014, 933192799, 940914877, 947918721, 954246375, 959940843, 965045513, 969603638, 973657873, 977249868, 980419921, 983206694, 985646978, 987775527, 989624927, 991225525, 992605393, 993790335, 994803921, 995667552, 996400545, 997020237, 997542099, 997979863, 998345649, 998650102, 998902518, 999110975, 999282458, 999422975, 999537669, 999630922, 999706445, 999767371, 999816330, 999855519, 999886766, 999911583, 999931216, 999946688, 999958833, 999968329, 999975725, 999981463, 999985898, 999989311, 999991929, 999993928, 999995450, 999996602, 999997473, 999998127, 999998617, 999998983, 999999255, 999999456, 999999604, 999999713, 999999793, 999999851, 999999893, 999999924, 999999946, 999999962, 999999973, 999999981, 999999987, 999999991, 999999994, 999999996, 999999997, 999999998, 999999999, 999999999, 999999999, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000, 1000000000>>
Den == <<398942280, 398163857, 395837687, 391990898, 386668117, 379930606, 371855094, 362532317, 352065327, 340567594, 328160969, 314973535, 301137432, 286786668, 272054998, 257073907, 241970725, 226866927, 211876646, 197105402, 182649085, 168593185, 155012265, 141969695, 129517596, 117697011, 106538268, 96061501, 86277319, 77187584, 68786276, 61060405, 53990967, 47553891, 41720985, 36460833, 31739652, 27522081, 23771901, 20452674, 17528300, 14963496, 12724182, 10777802, 9093563, 7642606, 6398120, 5335399, 4431848, 3666962, 3022258, 2481191, 2029048, 1652829, 1341119, 1083952, 872683, 699852, 559062, 444853, 352596, 278382, 218932, 171506, 133830, 104024, 80540, 62115, 47719, 36516, 27834, 21134, 15984, 12042, 9036, 6755, 5030, 3730, 2756, 2028, 1487, 1086, 790, 572, 413, 297, 213, 152, 108, 76, 54, 38, 26, 18, 13, 9, 6, 4, 3, 2, 1, 1, 1, 0, 0>>
\* a * n / 2^k for 0 <= n <= 2^k, without leaving 32 bits (a few units of error)
RECURSIVE MulShift(_,_,_)
MulShift(a, n, k) == IF n = 0 THEN 0 ELSE IF k = 0 THEN a
                     ELSE IF n >= 2^(k-1) THEN (a \div 2) + MulShift(a \div 2, n - 2^(k-1), k-1) ELSE MulShift(a \div 2, n, k-1)
\* the same for a signed n
MulH(a, h) == Sgn(a) * Sgn(h) * MulShift(Abs(a), Abs(h), 16)
CdfPos(n) == LET k  == (n + 2048) \div 4096
                 h  == n - 4096 * k
                 t1 == MulH(Den[k+1], h)
                 t2 == MulH(t1, h)
                 t3 == MulH(t2, h)
                 t4 == MulH(t3, h)
             IN IF k > LastK THEN One
                ELSE Tab[k+1] + t1 - TDiv(t2 * k, 32) + TDiv(t3 * (k*k - 256), 1536) - TDiv(t4 * (k*k*k - 768*k), 98304)
\* the distribution function at n / 2^16
Cdf(n) == IF n < 0 THEN One - CdfPos(-n) ELSE CdfPos(n)
=============================================================================
