----------------------------- MODULE RcwaSession ----------------------------
(* A wave-optical structure object during a session of edits and calculations *)
(* in any order. The physical structure is given by versions of the layer     *)
(* widths, the unit cell and the shapes; options are numbered. What a          *)
(* calculation must return is a function of the physical structure at that     *)
(* moment and the options of that call only (Want).                            *)
EXTENDS Integers, Sequences
\* a fresh physical structure
New == [w |-> 1, z |-> 1, g |-> 1]
Edited(p, op) == CASE op = "widths" -> [p EXCEPT !.w = 3 - @]
                   [] op = "size" -> [p EXCEPT !.z = 3 - @]
                   [] op = "geom" -> [p EXCEPT !.g = 3 - @]
                   [] OTHER -> p
Edits == {"widths", "size", "geom"}
Looks == {"calc", "prof", "fields"}
Want(p, kind, o) == [w |-> p.w, z |-> p.z, g |-> p.g, o |-> o, kind |-> kind]
=============================================================================
