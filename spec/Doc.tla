--------------------------------- MODULE Doc --------------------------------
(* LGR documents and the LGR each stands for (RFC 7940 sections 4 to 7).     *)
(* A document D has meta, refs, items and decls; the LGR keeps entries in    *)
(* code point order, variants in code point order (same code points: order   *)
(* of the document), and splits decls into classes, rules and actions.       *)
EXTENDS Base

RECURSIVE Distinct(_)
Distinct(s) == IF s = <<>> THEN <<>>
               ELSE LET r == Distinct(SubSeq(s, 1, Len(s) - 1)) IN
                    IF s[Len(s)] \in Rng(r) THEN r ELSE Append(r, s[Len(s)])

RECURSIVE ByCp(_, _)
ByCp(vs, C) == IF C = {} THEN <<>>
               ELSE LET m == LexMin(C) IN Filter(vs, LAMBDA v : v.cp = m) \o ByCp(vs, C \ {m})
VarsInOrder(vs) == ByCp(vs, {vs[k].cp : k \in DOMAIN vs})

MetaOf(D) == [D.meta EXCEPT !.langs = Distinct(D.meta.langs), !.uver = IF @ = "" THEN "6.3.0" ELSE @]
EntryOf(it) == [it EXCEPT !.vars = VarsInOrder(it.vars)]
EntriesOf(D) == {EntryOf(D.items[k]) : k \in DOMAIN D.items}
RangesOf(D) == {D.items[k].rng : k \in {j \in DOMAIN D.items : D.items[j].rng # <<>>}}
DeclsOf(D, kind) == Filter(D.decls, LAMBDA d : d.k = kind)
Key(it) == IF it.rng # <<>> THEN <<it.rng[1]>> ELSE it.cp
Size(it) == IF it.rng # <<>> THEN it.rng[2] - it.rng[1] + 1 ELSE 1

\* what must be seen of the LGR p read from D
ReadFails(D, p) == Failing({
    <<"metadata", p.meta = MetaOf(D)>>,
    <<"references", p.refs = D.refs>>,
    <<"entries", Rng(p.chars) = EntriesOf(D) /\ Len(p.chars) = Len(D.items)>>,
    <<"entry-order", \A a, b \in DOMAIN p.chars : a < b => p.chars[a].cp[1] <= p.chars[b].cp[1]>>,
    <<"size", p.nchars = Len(D.items) \/ p.nchars = LET S == SumSet(LAMBDA k : Size(D.items[k]), DOMAIN D.items) IN S>>,
    <<"ranges", Rng(p.ranges) = RangesOf(D)>>,
    <<"classes", Map(p.classes, LAMBDA c : c.name) = Map(DeclsOf(D, "class"), LAMBDA c : c.name)>>,
    <<"class-comments", Map(p.classes, LAMBDA c : c.com) = Map(DeclsOf(D, "class"), LAMBDA c : c.com)>>,
    <<"class-references", Map(p.classes, LAMBDA c : c.refs) = Map(DeclsOf(D, "class"), LAMBDA c : c.refs)>>,
    <<"rules", Map(p.rules, LAMBDA c : <<c.name, c.com, c.refs>>) = Map(DeclsOf(D, "rule"), LAMBDA c : <<c.name, c.com, c.refs>>)>>,
    <<"actions", Map(p.actions, LAMBDA a : <<a.disp, a.match, a.nmatch, a.vk, a.vs, a.com, a.refs>>)
                 = Map(DeclsOf(D, "action"), LAMBDA a : <<a.disp, a.match, a.nmatch, a.vk, a.vs, a.com, a.refs>>)>>})

Kind(t) == IF t.tag \in {"rule", "action"} THEN t.tag ELSE "class"

\* what must be seen in a document x written from the LGR that D stands for
WriteFails(D, x) == Failing({
    <<"written-metadata", x.meta = MetaOf(D)>>,
    <<"written-references", x.refs = D.refs>>,
    <<"written-entries", Rng(x.items) = EntriesOf(D) /\ Len(x.items) = Len(D.items)>>,
    <<"written-order", x.order = <<"meta", "data", "rules">>>>,
    <<"written-declarations", \A kind \in {"class", "rule", "action"} :
        Filter(x.decls, LAMBDA t : Kind(t) = kind) = Map(DeclsOf(D, kind), LAMBDA d : d.tree)>>})
=============================================================================
