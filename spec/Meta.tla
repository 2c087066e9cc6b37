-------------------------------- MODULE Meta --------------------------------
(* Metadata of an LGR as a state machine.  Texts are sequences of code       *)
(* points; a language tag is a record of its subtags (raw is how it is       *)
(* written).  A step gives the next metadata and whether it is refused.      *)
EXTENDS Base

Digit(c) == c \in 48..57
Val(s) == LET F[k \in 0..Len(s)] == IF k = 0 THEN 0 ELSE 10 * F[k - 1] + (s[k] - 48) IN F[Len(s)]
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
\* RFC 3339 full-date
ValidDate(s) ==
    /\ Len(s) = 10 /\ s[5] = 45 /\ s[8] = 45
    /\ \A k \in {1, 2, 3, 4, 6, 7, 9, 10} : Digit(s[k])
    /\ LET y == Val(SubSeq(s, 1, 4))
           m == Val(SubSeq(s, 6, 7))
           d == Val(SubSeq(s, 9, 10))
       IN y >= 1 /\ m \in 1..12 /\ d >= 1 /\ d <= DaysIn(y, m)
DayNumber(s) == Val(SubSeq(s, 1, 4)) * 10000 + Val(SubSeq(s, 6, 7)) * 100 + Val(SubSeq(s, 9, 10))
Later(a, b) == DayNumber(a) > DayNumber(b)

\* three dot separated decimal numbers
Dots(s) == {k \in DOMAIN s : s[k] = 46}
ValidUnicodeVersion(s) ==
    /\ Cardinality(Dots(s)) = 2
    /\ \A k \in DOMAIN s : s[k] = 46 \/ Digit(s[k])
    /\ Len(s) > 0 /\ s[1] # 46 /\ s[Len(s)] # 46
    /\ \A k \in Dots(s) : k + 1 \notin Dots(s)
PositiveInteger(s) == Len(s) > 0 /\ (\A k \in DOMAIN s : Digit(s[k])) /\ s[1] # 48

(* ---- extract of the IANA language subtag registry used by the drivers --- *)
Suppress == [en |-> "Latn", fr |-> "Latn", de |-> "Latn", ru |-> "Cyrl", el |-> "Grek", ar |-> "Arab", he |-> "Hebr", ja |-> "Jpan",
             ko |-> "Kore", hy |-> "Armn", und |-> "", sr |-> "", zh |-> "", uz |-> "", pa |-> "Guru", pl |-> "Latn"]
Scripts == {"Latn", "Cyrl", "Grek", "Arab", "Hebr", "Hans", "Hant", "Hani", "Jpan", "Kore", "Hrkt", "Geor", "Geok", "Latf", "Syre", "Aran", "Deva", "Armn", "Guru"}
Regions == {"", "GB", "FR", "RU", "419"}
ValidTag(t) == t.lang \in DOMAIN Suppress /\ (t.script = "" \/ (t.script \in Scripts /\ t.script # Suppress[t.lang])) /\ t.region \in Regions
               /\ t.junk = ""
\* ISO 15924 code -> Unicode scripts
Unicode(sc) == CASE sc = "Aran" -> <<"Arab">> [] sc = "Geok" -> <<"Geor">> [] sc \in {"Hans", "Hant"} -> <<"Hani">>
                 [] sc = "Hrkt" -> <<"Hira", "Kana">> [] sc = "Jpan" -> <<"Hani", "Hira", "Kana">> [] sc = "Kore" -> <<"Hani", "Hang">>
                 [] sc \in {"Latf", "Latg"} -> <<"Latn">> [] sc \in {"Syre", "Syrj", "Syrn"} -> <<"Syrc">> [] OTHER -> <<sc>>
ScriptsOfTag(t) == IF t.script # "" THEN Unicode(t.script) ELSE IF Suppress[t.lang] # "" THEN Unicode(Suppress[t.lang]) ELSE <<>>
ScriptsOf(langs) == FlatSeq([k \in DOMAIN langs |-> IF ValidTag(langs[k]) THEN ScriptsOfTag(langs[k]) ELSE <<>>])

(* ------------------------------- transitions ----------------------------- *)
Fresh == [date |-> <<>>, vstart |-> <<>>, vend |-> <<>>, uver |-> <<54, 46, 51, 46, 48>>, langs |-> <<>>, scopes |-> <<>>,
          version |-> <<>>, hasv |-> FALSE, desc |-> "", hasd |-> FALSE]
Refuse(m) == [m |-> m, ok |-> FALSE]
Accept(m) == [m |-> m, ok |-> TRUE]
Field(e) == e.op
Known(langs, t) == \E k \in DOMAIN langs : langs[k].raw = t.raw
Step(m, e) ==
    CASE e.op \in {"date", "vstart", "vend"} ->
             IF ValidDate(e.txt) \/ e.force THEN Accept([m EXCEPT ![e.op] = e.txt]) ELSE Refuse(m)
      [] e.op = "uver" -> IF ValidUnicodeVersion(e.txt) \/ e.force THEN Accept([m EXCEPT !.uver = e.txt]) ELSE Refuse(m)
      [] e.op = "addlang" -> IF ~ValidTag(e.tag) /\ ~e.force THEN Refuse(m)
                             ELSE IF Known(m.langs, e.tag) THEN Accept(m) ELSE Accept([m EXCEPT !.langs = Append(@, e.tag)])
      [] e.op = "setlangs" -> IF (\A k \in DOMAIN e.tags : ValidTag(e.tags[k])) \/ e.force THEN Accept([m EXCEPT !.langs = e.tags]) ELSE Refuse(m)
      [] e.op = "scope" -> Accept([m EXCEPT !.scopes = Append(@, e.type)])
      [] e.op = "version" -> Accept([m EXCEPT !.version = e.txt, !.hasv = TRUE])
      [] e.op = "desc" -> Accept([m EXCEPT !.desc = e.type, !.hasd = TRUE])
      [] OTHER -> Accept(m)

(* --------------------- what the metadata check reports ------------------- *)
MediaTypes == {"text/plain", "text/html", "application/pdf", "image/png", "text/css"}
Problems(m, today) ==
    (IF m.vend # <<>> /\ Later(today, m.vend) THEN {"validity_end_expiry"} ELSE {})
    \cup (IF m.vstart # <<>> /\ m.vend # <<>> /\ Later(m.vstart, m.vend) THEN {"validity_start_end"} ELSE {})
    \cup (IF m.vstart # <<>> /\ Later(m.vstart, today) THEN {"validity_started"} ELSE {})
    \cup (IF m.hasd /\ m.desc # "" /\ m.desc \notin MediaTypes THEN {"metadata_description_type"} ELSE {})
    \cup (IF \E k \in DOMAIN m.scopes : m.scopes[k] \notin {"", "domain"} THEN {"metadata_scope_type"} ELSE {})
    \cup (IF m.hasv /\ ~PositiveInteger(m.version) THEN {"metadata_version_integer"} ELSE {})
Checked == {"validity_end_expiry", "validity_start_end", "validity_started", "metadata_description_type", "metadata_scope_type", "metadata_version_integer"}
Dated(m) == (m.vend = <<>> \/ ValidDate(m.vend)) /\ (m.vstart = <<>> \/ ValidDate(m.vstart))

\* tests that must / may be recorded as failed by a step
MustFail(m, e, today) ==
    CASE e.op = "uver" -> IF ValidUnicodeVersion(e.txt) THEN {} ELSE {"valid_unicode_version"}
      [] e.op = "addlang" -> IF ValidTag(e.tag) THEN {} ELSE {"metadata_language"}
      [] e.op = "check" -> IF Dated(m) THEN Problems(m, today) ELSE {}
      [] OTHER -> {}
MayFail(m, e, today) ==
    CASE e.op = "setlangs" -> IF \A k \in DOMAIN e.tags : ValidTag(e.tags[k]) THEN {} ELSE {"metadata_language"}
      [] e.op \in {"date", "vstart", "vend"} -> {}
      [] e.op = "check" /\ ~Dated(m) -> Checked
      [] OTHER -> MustFail(m, e, today)
=============================================================================
