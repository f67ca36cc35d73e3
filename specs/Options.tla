------------------------------- MODULE Options ------------------------------
(* Options objects: what a calculation that is given one of them is about.     *)
(* Wavelengths are numbered sets (0: never given); the plural name takes       *)
(* precedence whenever it is present. The form (dictionary, ordered            *)
(* dictionary, State filled by key or attribute, default options) has no        *)
(* meaning. Mutable defaults (the wavelengths, the nested dictionary of        *)
(* solver options) belong to one instance.                                     *)
EXTENDS Integers, Sequences
Forms == {"State", "attr", "default", "dict", "odict"}
New(form) == [form |-> form, sing |-> 0, plu |-> 0, nest |-> 0, poked |-> FALSE]
Effective(o) == IF o.plu # 0 THEN o.plu ELSE o.sing
\* operations on one object
Apply(o, op, v) == CASE op = "sing" -> [o EXCEPT !.sing = v, !.poked = FALSE]
                     [] op = "plu" -> [o EXCEPT !.plu = v]
                     [] op = "nest" -> [o EXCEPT !.nest = v]
                     [] op = "poke" -> [o EXCEPT !.poked = TRUE]
                     [] OTHER -> o
\* only default options have contents of their own before anything is set
CanPoke(o) == o.form = "default" /\ o.sing = 0 /\ o.plu = 0
CanNest(o) == o.form = "default"

(* Input that must be rejected with an error rather than give numbers          *)
PolEntries == {"tmm", "tmmprof", "inc", "incprof", "nbr", "gen", "genrcwa", "genmx", "rcwa", "rcwaprof", "mxtmm", "mxrcwa", "mxmirror", "mxlamb",
               "mxrtf", "mxrttmm", "rt", "rtprof", "rttmm"}
\* (amplitudes of s and p polarised light are for the wave-optical solver)
AmpEntries == {"genrcwa", "rcwa", "rcwaprof", "mxrcwa"}
GoodPol == {"s", "p", "u"}
Methods == {"RT_Fresnel", "RT_TMM", "RCWA", "TMM", "Mirror", "Lambertian"}
\* coherence: "all" coherent, or a list of the given number of good entries and of bad ones, or none
MustReject(e) ==
  CASE e.what = "pol" -> /\ e.entry \in PolEntries
                         /\ ~(IF e.amp THEN e.entry \in AmpEntries ELSE e.val \in GoodPol)
    [] e.what = "method" -> e.val \notin Methods
    [] e.what = "coherence" -> ~e.coherent /\ (~e.given \/ e.good # e.layers \/ e.wrong > 0)
    [] OTHER -> FALSE
=============================================================================
