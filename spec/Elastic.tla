------------------------------- MODULE Elastic -------------------------------
(* Hyperelastic material models on deformation gradients F = A/2 with integer A (row-major), integer Lame parameters. *)
(* P is the first Piola-Kirchhoff stress, W the energy density; the number in a name is the scaling that makes it    *)
(* an integer.                                                                                                       *)
EXTENDS Lib
MScale(k, a) == TLCEval([i \in 1..9 |-> k * a[i]])
MAdd(a, b) == TLCEval([i \in 1..9 |-> a[i] + b[i]])
Tr(a) == a[1] + a[5] + a[9]
Dot9(a, b) == SumTo([i \in 1..9 |-> a[i] * b[i]], 9)
Sym(a) == a = MTr(a)
Cof(a) == << a[5]*a[9] - a[6]*a[8], a[6]*a[7] - a[4]*a[9], a[4]*a[8] - a[5]*a[7],
             a[3]*a[8] - a[2]*a[9], a[1]*a[9] - a[3]*a[7], a[2]*a[7] - a[1]*a[8],
             a[2]*a[6] - a[3]*a[5], a[3]*a[4] - a[1]*a[6], a[1]*a[5] - a[2]*a[4] >>
RightCauchy4(A) == MMul(MTr(A), A)
Green8(A) == MAdd(RightCauchy4(A), MScale(-4, MId))
(* Saint Venant-Kirchhoff *)
SvkS8(A, la, mu) == LET g == Green8(A) IN MAdd(MScale(la * Tr(g), MId), MScale(2 * mu, g))
SvkP16(A, la, mu) == MMul(A, SvkS8(A, la, mu))
SvkW128(A, la, mu) == LET g == Green8(A) IN la * Tr(g) * Tr(g) + 2 * mu * Dot9(g, g)
(* corotational, for the polar decomposition F = R S with S = U/2 *)
PosDef(U) == Sym(U) /\ U[1] > 0 /\ U[1] * U[5] - U[2] * U[2] > 0 /\ MDet(U) > 0
CorP2(R, U, la, mu) == MAdd(MScale(la * (Tr(U) - 6), R), MScale(2 * mu, MAdd(MMul(R, U), MScale(-2, R))))
CorW8(R, U, la, mu) == LET d == MAdd(MMul(R, U), MScale(-2, R)) IN 2 * mu * Dot9(d, d) + la * (Tr(U) - 6) * (Tr(U) - 6)
(* stable Neo-Hookean with mu = 6 m: the energy is measured from the rest state; 512 m ln is kept apart *)
SnhDen(A) == 32 * (Tr(RightCauchy4(A)) + 4)
SnhPD(A, la, m) == LET t == Tr(RightCauchy4(A))
                   IN MAdd(MScale(128 * m * t, A), MScale(((la + 5 * m) * (MDet(A) - 8) - 48 * m) * (t + 4), Cof(A)))
SnhPoly128(A, la, m) == LET j == MDet(A) - 8 IN 128 * m * (Tr(RightCauchy4(A)) - 12) + (la + 5 * m) * j * j - 96 * m * j
Ln5 == << 0, 69315, 109861, 138629, 160944, 179176, 194591, 207944, 219722, 230259, 239790, 248491, 256495, 263906,
  270805, 277259, 283321, 289037, 294444, 299573, 304452, 309104, 313549, 317805, 321888, 325810, 329584,
  333220, 336730, 340120, 343399, 346574, 349651, 352636, 355535, 358352, 361092, 363759, 366356, 368888,
  371357, 373767, 376120, 378419, 380666, 382864, 385015, 387120, 389182, 391202, 393183, 395124, 397029,
  398898, 400733, 402535, 404305, 406044, 407754, 409434, 411087, 412713, 414313, 415888, 417439, 418965,
  420469, 421951, 423411, 424850, 426268, 427667, 429046, 430407, 431749, 433073, 434381, 435671, 436945,
  438203, 439445, 440672, 441884, 443082, 444265, 445435, 446591, 447734, 448864, 449981, 451086, 452179,
  453260, 454329, 455388, 456435, 457471, 458497, 459512, 460517, 461512, 462497, 463473, 464439, 465396,
  466344, 467283, 468213, 469135, 470048, 470953, 471850, 472739, 473620, 474493, 475359, 476217, 477068,
  477912, 478749, 479579, 480402, 481218, 482028, 482831, 483628, 484419, 485203, 485981, 486753, 487520,
  488280, 489035, 489784, 490527, 491265, 491998, 492725, 493447, 494164, 494876, 495583, 496284, 496981,
  497673, 498361, 499043, 499721, 500395, 501064, 501728, 502388, 503044, 503695, 504343, 504986, 505625,
  506260, 506890, 507517, 508140, 508760, 509375, 509987, 510595, 511199, 511799, 512396, 512990, 513580,
  514166, 514749, 515329, 515906, 516479, 517048, 517615, 518178, 518739, 519296, 519850, 520401, 520949,
  521494, 522036, 522575, 523111, 523644, 524175, 524702, 525227, 525750, 526269, 526786, 527300, 527811,
  528320, 528827, 529330, 529832 >>
SnhW12800(A, la, m) == 100 * SnhPoly128(A, la, m) - (512 * m * (Ln5[Tr(RightCauchy4(A)) + 4] - Ln5[16])) \div 1000
=============================================================================
