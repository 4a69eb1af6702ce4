------------------------------- MODULE Config -------------------------------
(***************************************************************************)
(* C17: how a configuration resolves.  -1 means "not given".               *)
(* box    [w, v, s, a]   bosonic core, fermionic core, shell, asymptotic   *)
(* data   [W, V]         ranges stored in the DMFT vertex                  *)
(* optics [w, c, b, v, n] niw_vert, niw_cond, niv_bubble, niv_vert, niw_bubble *)
(***************************************************************************)
EXTENDS Integers, Sequences
None == -1
CMin(a, b) == IF a < b THEN a ELSE b

\* right after reading the file: the asymptotic range can be inferred only from known core ranges
Read(b) == [b EXCEPT !.a = IF b.a = None /\ b.w # None /\ b.v # None THEN b.v + b.s + 2 * b.w ELSE b.a]
BoxRejected(b, d) == (b.v # None /\ b.v > d.V) \/ (b.w # None /\ b.w > d.W)
WithData(b, d) == LET v == IF b.v = None THEN d.V ELSE b.v w == IF b.w = None THEN d.W ELSE b.w IN
  [b EXCEPT !.v = v, !.w = w, !.a = IF b.a <= 0 THEN v + b.s + 2 * w ELSE b.a]
NivPP(b) == CMin(b.w \div 2, b.v \div 2)

OptRejected(o, b) == (o.w # None /\ o.w > b.w) \/ (o.c # None /\ o.c >= b.v)
OptW(o, b) == IF o.w = None THEN b.w ELSE o.w
OptC(o, b) == IF o.c = None THEN CMin(b.w \div 2, b.v - 1) ELSE o.c
OptB(o, b) == IF o.b = None THEN b.a - 2 * OptC(o, b) ELSE o.b
OptN(o, b) == IF o.n = None THEN OptC(o, b) ELSE o.n
OptResolved(o, b) == [w |-> OptW(o, b), c |-> OptC(o, b), b |-> OptB(o, b), v |-> b.v - OptC(o, b), n |-> OptN(o, b)]
BoxAfterOptics(o, b) == [b EXCEPT !.a = IF OptB(o, b) + OptN(o, b) >= b.a THEN OptB(o, b) + OptN(o, b) ELSE b.a]

\* lattice symmetries
NamedSym == [two_dimensional_square |-> <<"x-inv", "y-inv", "x-y-sym">>, quasi_one_dimensional_square |-> <<"x-inv", "y-inv">>,
             simultaneous_x_y_inversion |-> <<"x-y-inv">>, none |-> <<>>]
KnownSym == {"x-inv", "y-inv", "z-inv", "x-y-sym", "x-y-inv"}

\* gap symmetries in frequency implied by the momentum symmetry
GapSing(k) == IF k = "d-wave" THEN "even" ELSE IF k \in {"p-wave-x", "p-wave-y"} THEN "odd" ELSE "random"
GapTrip(k) == IF k = "d-wave" THEN "odd" ELSE IF k \in {"p-wave-x", "p-wave-y"} THEN "even" ELSE "random"

\* documented defaults of the flags and numbers of every section
Defaults == [do_poly_fitting |-> "False", n_fit |-> "4", o_fit |-> "3", type |-> "w2dyn", input_path |-> "./", fname_1p |-> "1p-data.hdf5", fname_2p |-> "g4iw_sym.hdf5",
  do_sym_v_vp |-> "True", save_vrg |-> "False", save_fq |-> "False", keep_fq_optics |-> "False", keep_pairing_vertex |-> "True", verbosity |-> "1", lambda_corr |-> "spch"]
EliashDefaults == [do_pairing_vertex |-> "False", do_eliash |-> "False", n_eig |-> "2", k_sym |-> "random", sym_sing |-> "True", sym_trip |-> "True", eps |-> "1e-06", max_count |-> "10000"]
OpticsDefaults == [do_bubble |-> "False", do_vertex |-> "False", der_a |-> "0", der_b |-> "0"]
DebugDefaults == [keep_rank_files |-> "False"]
=============================================================================
