------------------------------ MODULE Outputs ------------------------------
(* The result files of a run as a function of its configuration. A run is a sequence of stages; a stage that is configured writes files, *)
(* reads files of earlier stages and may remove intermediate ones. c: record of booleans                                                 *)
(*   vrg, fq, keeppv, keepfq, pv, el, opt, bub, vert, cont, poly, keep   (opt: an optics section is given)                               *)
(* and files are named relative to the run's folder, as sequences of components.                                                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC
T(s) == {<<x>> : x \in s}
In(d, s) == {<<d, x>> : x \in s}
When(b, s) == IF b THEN s ELSE {}

Always == T({"dmft_input.npy", "dga_config.yaml", "wannier_hr.dat", "dga.log", "gamma_dens.npy", "gamma_magn.npy", "chi_dens_loc.npy", "chi_magn_loc.npy", "siw_sde_full.npy",
             "chi_dens_lam.npy", "chi_magn_lam.npy", "lambda.txt", "UniformStaticSusceptibility.txt", "oz_coeff.txt", "siwk_dga.npy", "giwk_dga.npy", "mu.txt", "energies.txt"})
Vrg == T({"vrg_q_dens.npy", "vrg_q_magn.npy"})
Fq == T({"F_dens.npy", "F_magn.npy"})
Poly == In("PolyFits", {"Giwk_dmft_poly_cont_.npy", "Giwk_dga_poly_cont_.npy", "Siwk_poly_cont_.npy", "Siw_DMFT_polyfit.txt"})
Pair == In("Eliashberg", {"F_sing_pp.npy", "F_trip_pp.npy"})
Gap == In("Eliashberg", {"eliashberg_config.yaml", "eliashberg.npy", "eigenvalues.txt", "eigenvalues_s.txt"})
Bub == In("Optics", {"chijj_bubble.npy"})
Vert == In("Optics", {"chijj_vert.npy"})
Cond == In("Optics", {"F_cond.npy"})
Sect == In("Optics", {"optics_config.yaml"})
Cont == In("Optics", {"sigma_bubble_cont.npy", "sigma_full_cont.npy", "w.npy"})
Rank(n) == T({"QRank0000" \o ToString(r) \o ".hdf5" : r \in 0..(n - 1)})          \* up to ten ranks

\* what the run promises to leave behind
Expected(c, n) ==
  Always \cup When(c.vrg, Vrg) \cup When(c.fq, Fq) \cup When(c.poly, Poly) \cup When(c.pv /\ (c.keeppv \/ ~c.el), Pair) \cup When(c.el, Gap)
  \cup When(c.opt, Sect) \cup When(c.bub, Bub) \cup When(c.vert, Vert) \cup When(c.vert /\ c.keepfq, Cond) \cup When(c.cont /\ (c.bub \/ c.vert), Cont) \cup When(c.keep, Rank(n))
\* every file any configuration may leave
Universe(n) == Always \cup Vrg \cup Fq \cup Poly \cup Pair \cup Gap \cup Bub \cup Vert \cup Cond \cup Sect \cup Cont \cup Rank(n)

\* the stages: [on, reads, writes, drops]
Stages(c, n) == <<
  [on |-> TRUE, reads |-> {}, writes |-> T({"dmft_input.npy", "dga.log", "wannier_hr.dat", "dga_config.yaml"}), drops |-> {}],
  [on |-> c.poly, reads |-> {}, writes |-> In("PolyFits", {"Giwk_dmft_poly_cont_.npy", "Siw_DMFT_polyfit.txt"}), drops |-> {}],
  [on |-> TRUE, reads |-> {}, writes |-> T({"gamma_dens.npy", "gamma_magn.npy", "chi_dens_loc.npy", "chi_magn_loc.npy", "siw_sde_full.npy"}), drops |-> {}],
  [on |-> TRUE, reads |-> {}, writes |-> Rank(n), drops |-> {}],
  [on |-> TRUE, reads |-> {}, writes |-> T({"chi_dens_lam.npy", "chi_magn_lam.npy", "lambda.txt", "UniformStaticSusceptibility.txt"}), drops |-> {}],
  [on |-> c.pv, reads |-> Rank(n), writes |-> Pair, drops |-> {}],
  [on |-> c.vert, reads |-> Rank(n), writes |-> Cond, drops |-> {}],
  [on |-> c.fq, reads |-> Rank(n), writes |-> Fq, drops |-> {}],
  [on |-> TRUE, reads |-> T({"chi_magn_lam.npy"}), writes |-> T({"oz_coeff.txt"}), drops |-> {}],
  [on |-> c.vrg, reads |-> {}, writes |-> Vrg, drops |-> {}],
  [on |-> TRUE, reads |-> {}, writes |-> T({"siwk_dga.npy", "giwk_dga.npy", "mu.txt"}), drops |-> {}],
  [on |-> ~c.keep, reads |-> {}, writes |-> {}, drops |-> Rank(n)],
  [on |-> TRUE, reads |-> {}, writes |-> T({"energies.txt"}), drops |-> {}],
  [on |-> c.poly, reads |-> {}, writes |-> In("PolyFits", {"Giwk_dga_poly_cont_.npy", "Siwk_poly_cont_.npy"}), drops |-> {}],
  [on |-> c.el, reads |-> Pair, writes |-> Gap, drops |-> When(~c.keeppv, Pair)],
  [on |-> c.opt, reads |-> {}, writes |-> Sect, drops |-> {}],
  [on |-> c.bub, reads |-> {}, writes |-> Bub, drops |-> {}],
  [on |-> c.vert, reads |-> Cond, writes |-> Vert, drops |-> {}],
  [on |-> c.cont /\ (c.bub \/ c.vert), reads |-> {}, writes |-> Cont, drops |-> {}],
  [on |-> c.opt /\ (c.bub \/ c.vert) /\ ~c.keepfq, reads |-> {}, writes |-> {}, drops |-> Cond] >>
\* admissible: the gap needs its vertex, optics need their section
Legal(c) == (c.el => c.pv) /\ (c.bub \/ c.vert \/ c.cont => c.opt)
=============================================================================
