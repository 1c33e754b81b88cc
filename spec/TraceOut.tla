------------------------------ MODULE TraceOut ------------------------------
(* Recorded refinements, saves and options against module Out. *)
EXTENDS Out, TraceBase

VARIABLES l, disk, opt
vars == <<l, disk, opt>>
E == Trace[l]
Ok(b) == b \/ FALSE

RefineEv ==
  /\ E.ev = "interp"
  /\ LET V == VGrid(2, E.n, E.per, E.h)
         P == PGrid(2, E.n, E.per, E.h)
     IN /\ Same("coarse velocity kept", l, E.xv1, E.xv)
        /\ Same("coarse pressure kept", l, E.xp1, E.xp)
        /\ Same("fine velocity grid", l, E.nv, FineSize(V, E.r))
        /\ Same("fine pressure grid", l, E.npr, FineSize(P, E.r))
        /\ Same("fine velocity", l, E.yv, Interp(V, E.r, E.xv, 2))
        /\ Same("fine pressure", l, E.yp, Interp(P, E.r, E.xp, 1))
  /\ UNCHANGED <<disk, opt>>

(* --- files: disk is name -> [g, v, p] --------------------------------- *)
Steps(g) == IF g = 0 THEN E.h ELSE <<2 * E.h[1], 3 * E.h[2]>>
Sizes(g) == IF g = 0 THEN E.n ELSE E.n2
FileOk(f, w) ==
  LET V == VGrid(2, Sizes(w.g), E.per, E.h)
      P == PGrid(2, Sizes(w.g), E.per, E.h)
      att(m) == {i \in DOMAIN f.att : f.att[i].name = m}
      ok(m, G, F, st, val, kind) ==
        IF Cardinality(att(m)) # 1 THEN Is("attribute " \o m, l, Cardinality(att(m)), 1)
        ELSE LET a == f.att[CHOOSE i \in att(m) : TRUE]
                 d == Described(G, F, st, val)
             IN /\ Same(m \o " nodes", l, a.nodes, d.nodes)
                /\ Same(m \o " origin", l, a.origin, d.origin)
                /\ Same(m \o " step", l, a.step, d.step)
                /\ Same(m \o " announced sizes", l, a.dims, d.dims)
                /\ Same(m \o " stored sizes", l, a.fdims, d.dims)
                /\ Same(m \o " values", l, a.val, d.val)
                /\ Is(m \o " kind", l, a.kind, kind)
                /\ Is(m \o " description", l, <<a.center, a.topo, a.geo, a.format, a.gtype>>,
                      <<"Node", "2DCoRectMesh", "ORIGIN_DXDY", "HDF", "Uniform">>)
  IN /\ Is("well formed", l, f.ok, 1)
     /\ ok("velocity", V, 2, Steps(w.g), w.v, "Vector")
     /\ ok("pressure", P, 1, <<2 * Steps(w.g)[1], 2 * Steps(w.g)[2]>>, w.p, "Scalar")
OpenEv == E.ev = "open" /\ disk' = None /\ UNCHANGED opt
SaveEv ==
  /\ E.ev = "save"
  /\ LET d2 == Save(disk, E.name, [g |-> E.g, v |-> E.xv, p |-> E.xp])
     IN /\ Same("saved velocity kept", l, E.xv1, E.xv)
        /\ Same("saved pressure kept", l, E.xp1, E.xp)
        /\ Is("names", l, {E.files[i].name : i \in DOMAIN E.files}, DOMAIN d2)
        /\ \A i \in DOMAIN E.files : FileOk(E.files[i], d2[E.files[i].name])
        /\ Is("files on disk", l, {E.disk[i] : i \in DOMAIN E.disk},
              {m \o ".h5" : m \in DOMAIN d2} \cup {m \o ".xdmf" : m \in DOMAIN d2})
        /\ disk' = d2
  /\ UNCHANGED opt

(* --- files in pieces: disk is name -> [g, v, p] ------------------------ *)
VSteps(g) == [d \in 1..E.D |-> (g + 1) * E.h[d]]
PieceOk(m, G, F, S, st, X, arr, pc) ==
  LET f == pc.file
      nodes == PieceNodes(pc.ext)
  IN /\ Is(m \o " piece readable", l, f.ok, 1)
     /\ Same(m \o " extent of the piece", l, f.ext, pc.ext)
     /\ Same(m \o " extent of its file", l, f.whole, pc.ext)
     /\ Same(m \o " places", l, f.pts, Places(G, st, nodes))
     /\ Is(m \o " arrays", l, [i \in DOMAIN f.arrays |-> <<f.arrays[i].name, f.arrays[i].comp>>], <<<<arr, S>>>>)
     /\ Same(m \o " values", l, f.arrays[1].val, Shown(G, F, S, X, nodes))
VFileOk(m, f, G, F, S, st, X) ==
  /\ Is(m \o " well formed", l, <<f.ok, f.type>>, <<1, "PStructuredGrid">>)
  /\ Same(m \o " whole", l, f.whole, Whole(G))
  /\ Is(m \o " announced", l, [i \in DOMAIN f.arrays |-> <<f.arrays[i].name, f.arrays[i].type, f.arrays[i].comp>>], <<<<m, "Float64", S>>>>)
  /\ Is(m \o " pieces", l, Len(f.pieces), E.np)
  /\ \A i \in DOMAIN f.pieces : PieceOk(m, G, F, S, st, X, m, f.pieces[i])
  /\ Is(m \o " covered", l, CoverAll(G, [i \in DOMAIN f.pieces |-> f.pieces[i].ext]), TRUE)
VOpenEv == E.ev = "vopen" /\ disk' = None /\ UNCHANGED opt
VSaveEv ==
  /\ E.ev = "vsave"
  /\ LET d2 == Save(disk, E.name, [g |-> E.g, v |-> E.xv, p |-> E.xp])
         n(g) == IF g = 0 THEN E.n ELSE E.n2
     IN /\ Same("saved velocity kept", l, E.xv1, E.xv)
        /\ Same("saved pressure kept", l, E.xp1, E.xp)
        /\ Is("names", l, {E.files[i].name : i \in DOMAIN E.files}, DOMAIN d2)
        /\ \A i \in DOMAIN E.files :
             LET w == d2[E.files[i].name]
                 st == VSteps(w.g)
             IN /\ VFileOk("velocity", E.files[i].v, VGrid(E.D, n(w.g), E.per, E.h), E.D, 3, st, w.v)
                /\ VFileOk("pressure", E.files[i].p, PGrid(E.D, n(w.g), E.per, E.h), 1, 1, [d \in 1..E.D |-> 2 * st[d]], w.p)
        /\ Is("files on disk", l, {E.disk[i] : i \in DOMAIN E.disk},
              UNION {{m \o "_" \o k \o ".pvts" : m \in DOMAIN d2} \cup {m \o "_" \o k \o "_" \o ToString(r) \o ".vts" : m \in DOMAIN d2, r \in 0..(E.np - 1)} : k \in {"velocity", "pressure"}})
        /\ disk' = d2
  /\ UNCHANGED opt
(* particles: place and radius, force and torque of each, in order *)
Padded(v, from, to) == [i \in 1..(Len(v) \div from)*to |-> LET d == ((i-1) % to) + 1 IN IF d > from THEN 0 ELSE v[((i-1) \div to)*from + d]]
VPartsEv ==
  /\ E.ev = "vparts"
  /\ LET D == E.D
         num == Len(E.p) \div (D + 1)
         f == E.file
         arr(m, s, v) == [name |-> m, comp |-> s, val |-> v]
         rad == arr("radius", 1, [i \in 1..num |-> E.p[i*(D+1)]])
     IN /\ Is("one file", l, E.disk, <<E.name \o "_particles.vtp">>)
        /\ Is("readable", l, f.ok, 1)
        /\ Same("centres", l, f.pts, Padded([i \in 1..num*D |-> E.p[((i-1) \div D)*(D+1) + ((i-1) % D) + 1]], D, 3))
        /\ Is("arrays", l, {f.arrays[i] : i \in DOMAIN f.arrays},
              {rad} \cup (IF E.with = 0 THEN {} ELSE {arr("forces", 3, Padded(E.f, D, 3)), arr("torques", IF D = 2 THEN 1 ELSE 3, E.t)}))
        /\ Is("number of arrays", l, Len(f.arrays), IF E.with = 0 THEN 1 ELSE 3)
  /\ UNCHANGED <<disk, opt>>

(* --- options ----------------------------------------------------------- *)
Ksp == <<"gmres", "bcgs", "minres">>
MakeOk ==
  LET w == Problem(opt.cmd)
  IN /\ Same("velocity grid", l, E.nv, w.nv)
     /\ Same("pressure grid", l, E.npr, w.np)
     /\ Same("periodicity", l, E.per, w.per)
     /\ Same("lengths", l, E.len, w.len)
     /\ Is("form", l, E.strain, w.strain)
     /\ Is("matrix-free", l, E.shell, w.shell)
     /\ IF w.pmm = 1 THEN Is("PMM preconditioner", l, E.pc, "fieldsplit")
        ELSE /\ Is("no PMM", l, E.pc = "fieldsplit", FALSE)
             /\ "stokes_ksp_type" \in DOMAIN opt.cmd => Is("Krylov method", l, E.ksp, Ksp[opt.cmd["stokes_ksp_type"]])
OptEv ==
  /\ E.ev = "opt"
  /\ LET o == IF E.op = "start" THEN [cmd |-> None, o2 |-> Default(2), o3 |-> Default(3)] ELSE opt
         y == CASE E.op = "set" -> [o EXCEPT !.cmd = Give(@, E.key, E.val)]
                [] E.op = "clear" -> [o EXCEPT !.cmd = Drop(@, E.key)]
                [] E.op = "proc2" -> [o EXCEPT !.o2 = Process(2, @, o.cmd)]
                [] E.op = "proc3" -> [o EXCEPT !.o3 = Process(3, @, o.cmd)]
                [] E.op = "new2" -> [o EXCEPT !.o2 = Default(2)]
                [] E.op = "new3" -> [o EXCEPT !.o3 = Default(3)]
                [] OTHER -> o
     IN /\ Is("options in 2D", l, E.o2, y.o2)
        /\ Is("options in 3D", l, E.o3, y.o3)
        /\ E.op = "make" => MakeOk
        /\ opt' = y
  /\ UNCHANGED disk

Init == l = 1 /\ disk = None /\ opt = None
Next == /\ l <= Len(Trace)
        /\ \/ RefineEv \/ OpenEv \/ SaveEv \/ OptEv \/ VOpenEv \/ VSaveEv \/ VPartsEv
           \/ (EndOf(l) /\ UNCHANGED <<disk, opt>>)
        /\ l' = l + 1
Spec == Init /\ [][Next]_vars
=============================================================================
