------------------------------- MODULE T_C22 --------------------------------
EXTENDS Stats, Json, IOUtils
VARIABLES i, pc
Cases == ndJsonDeserialize(IOEnv.CASES)
Fails(r) ==
    LET I == r.c.items
        o == r.o
    IN IF o.exc # "" THEN {"raised"} ELSE Failing({
       <<"codepoints", o.codepoint_number = Codepoints(I)>>,
       <<"ranges", o.range_number = Ranges(I)>>,
       <<"largest-range", o.largest_range_len = LargestRange(I)>>,
       <<"which-largest-range", IF Ranges(I) = 0 THEN o.largest_range = <<>>
            ELSE \E k \in DOMAIN I : I[k].rng = o.largest_range /\ Members(I[k]) = LargestRange(I)>>,
       <<"sequences", o.sequence_number = Sequences(I)>>,
       <<"largest-sequence", o.largest_sequence_len = LargestSequence(I)>>,
       <<"which-largest-sequence", IF Sequences(I) = 0 THEN o.largest_sequence = <<>>
            ELSE \E k \in DOMAIN I : IsSeq(I[k]) /\ I[k].cp = o.largest_sequence /\ Len(o.largest_sequence) = LargestSequence(I)>>,
       <<"with-variants", o.codepoints_with_variants = WithVariants(I)>>,
       <<"mappings", o.mapping_number = Mappings(I)>>,
       <<"largest-set", o.largest_variant_set = LargestSet(I)>>,
       <<"average", AverageOk(I, o.average10)>>,
       <<"by-type", {b[1] : b \in Rng(o.by_type)} = Types(I) /\ \A k \in DOMAIN o.by_type : o.by_type[k][2] = ByType(I, o.by_type[k][1])>>,
       <<"by-tag", {b[1] : b \in Rng(o.by_tag)} = Tags(I) /\ \A k \in DOMAIN o.by_tag : o.by_tag[k][2] = ByTag(I, o.by_tag[k][1])>>,
       <<"rules", o.rule_number = r.c.nrules>>,
       <<"repeat", o.again>>,
       <<"changed", o.same>>})
INSTANCE TraceRun
=============================================================================
