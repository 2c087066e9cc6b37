------------------------------ MODULE Notation ------------------------------
(* The notations of a label.  A text is the sequence of its code points.      *)
EXTENDS Base

Space == {9, 10, 11, 12, 13, 28, 29, 30, 31, 32, 133, 160, 5760, 8232, 8233, 8239, 8287, 12288} \cup (8192..8202)
Bom == 65279

RECURSIVE DropLeft(_, _)
DropLeft(t, X) == IF t # <<>> /\ Head(t) \in X THEN DropLeft(Tail(t), X) ELSE t
RECURSIVE DropRight(_, _)
DropRight(t, X) == IF t # <<>> /\ t[Len(t)] \in X THEN DropRight(SubSeq(t, 1, Len(t) - 1), X) ELSE t
Strip(t) == DropRight(DropLeft(t, Space), Space)

RECURSIVE Words(_, _)                            \* cut at white space
Words(t, w) ==
    IF t = <<>> THEN IF w = <<>> THEN <<>> ELSE <<w>>
    ELSE IF Head(t) \in Space THEN (IF w = <<>> THEN <<>> ELSE <<w>>) \o Words(Tail(t), <<>>)
    ELSE Words(Tail(t), Append(w, Head(t)))

(* ----------------------------- hexadecimal ------------------------------ *)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
HexChar(v) == IF v < 10 THEN 48 + v ELSE 55 + v
MaxCp == 1114111
Big == MaxCp + 1
RECURSIVE HexValue(_, _)                         \* saturated at Big; -1 for anything else than hexadecimal digits
HexValue(t, n) ==
    IF t = <<>> THEN n
    ELSE IF HexVal(Head(t)) < 0 THEN -1
    ELSE HexValue(Tail(t), LET m == n * 16 + HexVal(Head(t)) IN IF m > MaxCp THEN Big ELSE m)
PlainHex(t) == IF t = <<>> THEN -1
               ELSE IF Len(t) > 2 /\ t[1] = 48 /\ t[2] \in {88, 120} THEN HexValue(SubSeq(t, 3, Len(t)), 0)
               ELSE HexValue(t, 0)
\* signs, underscores and non-ASCII digits: what the reader makes of them is not described
Odd(t) == \E k \in DOMAIN t : t[k] \in {43, 45, 95} \cup Space \/ t[k] > 127

Bad == [k |-> "bad", v |-> 0]
Code(v) == [k |-> "cp", v |-> v]
Loose == [k |-> "any", v |-> 0]
OneCp(word) ==
    LET w == Strip(word)
        IsU == Len(w) > 1 /\ w[1] \in {85, 117} /\ w[2] = 43
        h == IF IsU THEN SubSeq(w, 3, Len(w)) ELSE w
        v == PlainHex(h)
    IN IF Len(w) = 1 THEN Code(w[1])
       ELSE IF v \in 0..MaxCp THEN Code(v)
       ELSE IF v = Big THEN Bad
       ELSE IF Odd(h) THEN Loose ELSE Bad

Ok(t) == [k |-> "ok", v |-> t]
Refuse == [k |-> "bad", v |-> <<>>]
Free == [k |-> "any", v |-> <<>>]
CpList(t) ==
    LET ws == Words(t, <<>>)
        cs == [n \in DOMAIN ws |-> OneCp(ws[n])]
    IN IF \E n \in DOMAIN cs : cs[n].k = "bad" THEN Refuse
       ELSE IF \E n \in DOMAIN cs : cs[n].k = "any" THEN Free
       ELSE Ok([n \in DOMAIN cs |-> cs[n].v])

RECURSIVE HexDigits(_)
HexDigits(n) == IF n < 16 THEN <<HexChar(n)>> ELSE Append(HexDigits(n \div 16), HexChar(n % 16))
Hex4(n) == LET h == HexDigits(n) IN [k \in 1..(IF Len(h) < 4 THEN 4 - Len(h) ELSE 0) |-> 48] \o h
UPlus(n) == <<85, 43>> \o Hex4(n)
RECURSIVE Spaced(_)
Spaced(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<32>> \o Spaced(Tail(ws))
Format(cps) == Spaced([k \in DOMAIN cps |-> UPlus(cps[k])])

(* ------------------------------- ranges --------------------------------- *)
RECURSIVE Runs(_)                                \* maximal runs of an increasing sequence of code points
Runs(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET n == CHOOSE n \in DOMAIN s : (\A k \in 1..n : s[k] = s[1] + k - 1) /\ (n = Len(s) \/ s[n + 1] # s[n] + 1)
         IN <<<<s[1], s[n]>>>> \o Runs(SubSeq(s, n + 1, Len(s)))
RECURSIVE Increasing(_)
Increasing(X) == IF X = {} THEN <<>> ELSE LET x == CHOOSE y \in X : \A z \in X : y <= z IN <<x>> \o Increasing(X \ {x})
RunText(r) == IF r[1] = r[2] THEN UPlus(r[1])
              ELSE IF r[2] = r[1] + 1 THEN UPlus(r[1]) \o <<32>> \o UPlus(r[2])
              ELSE UPlus(r[1]) \o <<45>> \o UPlus(r[2])
Collapsed(X) == LET R == Runs(Increasing(X)) IN Spaced([k \in DOMAIN R |-> RunText(R[k])])

(* ------------------------ Punycode (RFC 3492) --------------------------- *)
Adapt(delta, n, first) ==
    LET RECURSIVE Go(_, _)
        Go(d, k) == IF d > 455 THEN Go(d \div 35, k + 36) ELSE k + (36 * d) \div (d + 38)
        d0 == IF first THEN delta \div 700 ELSE delta \div 2
    IN Go(d0 + d0 \div n, 0)
Threshold(k, bias) == IF k <= bias THEN 1 ELSE IF k >= bias + 26 THEN 26 ELSE k - bias
PunyDigit(c) == IF c \in 97..122 THEN c - 97 ELSE IF c \in 65..90 THEN c - 65 ELSE IF c \in 48..57 THEN c - 22 ELSE -1
PunyChar(d) == IF d < 26 THEN 97 + d ELSE 22 + d
Cap == 100000000                                 \* beyond any delta of a label

\* one variable-length integer: [ok, i, rest]
RECURSIVE PunyInt(_, _, _, _, _)
PunyInt(t, n, w, k, bias) ==
    IF t = <<>> THEN [ok |-> FALSE, n |-> 0, rest |-> <<>>]
    ELSE LET d == PunyDigit(Head(t))
             th == Threshold(k, bias)
         IN IF d < 0 \/ (d > 0 /\ w > Cap \div d) \/ n > Cap THEN [ok |-> FALSE, n |-> 0, rest |-> <<>>]
            ELSE IF d < th THEN [ok |-> TRUE, n |-> n + d * w, rest |-> Tail(t)]
            ELSE PunyInt(Tail(t), n + d * w, IF w > 2500000 THEN Cap ELSE w * (36 - th), k + 36, bias)
LastDash(t) == LET D == {k \in DOMAIN t : t[k] = 45} IN IF D = {} THEN 0 ELSE CHOOSE k \in D : \A j \in D : j <= k
\* the adaptation is the first one only for the first code point inserted
RECURSIVE PunyGo(_, _, _, _, _, _)
PunyGo(t, out, n, pos, bias, first) ==
    IF t = <<>> THEN Ok(out)
    ELSE LET r == PunyInt(t, 0, 1, 36, bias)
             p == pos + r.n
             size == Len(out) + 1
             c == n + p \div size
             at == p % size
         IN IF ~r.ok \/ c > MaxCp THEN Refuse
            ELSE PunyGo(r.rest, SubSeq(out, 1, at) \o <<c>> \o SubSeq(out, at + 1, Len(out)), c, at + 1,
                        Adapt(r.n, size, first), FALSE)
Decode(t) ==
    LET d == LastDash(t)
        base == IF d > 1 THEN SubSeq(t, 1, d - 1) ELSE <<>>
    IN IF (\E k \in DOMAIN t : t[k] > 127) \/ t = <<>> THEN Refuse
       ELSE PunyGo(SubSeq(t, d + 1, Len(t)), base, 128, 0, 72, TRUE)

RECURSIVE PunyDigits(_, _, _)
PunyDigits(q, k, bias) ==
    LET th == Threshold(k, bias) IN
    IF q < th THEN <<PunyChar(q)>>
    ELSE <<PunyChar(th + ((q - th) % (36 - th)))>> \o PunyDigits((q - th) \div (36 - th), k + 36, bias)
\* insert the remaining code points in order: all occurrences of the smallest one, left to right
RECURSIVE PunyEncode(_, _, _, _, _, _)
PunyEncode(cps, n, delta, done, bias, base) ==
    IF done = Len(cps) THEN <<>>
    ELSE LET m == CHOOSE c \in Rng(cps) : c >= n /\ \A x \in Rng(cps) : x >= n => c <= x
             d0 == delta + (m - n) * (done + 1)
             RECURSIVE Scan(_, _, _, _)
             Scan(k, d, h, b) ==
                 IF k > Len(cps) THEN [out |-> <<>>, d |-> d, h |-> h, b |-> b]
                 ELSE IF cps[k] < m THEN Scan(k + 1, d + 1, h, b)
                 ELSE IF cps[k] = m
                 THEN LET r == Scan(k + 1, 0, h + 1, Adapt(d, h + 1, h = base))
                      IN [r EXCEPT !.out = PunyDigits(d, 36, b) \o @]
                 ELSE Scan(k + 1, d, h, b)
             s == Scan(1, d0, done, bias)
         IN s.out \o PunyEncode(cps, m + 1, s.d + 1, s.h, s.b, base)
Encode(cps) ==
    LET basic == SelectSeq(cps, LAMBDA c : c < 128) IN
    basic \o (IF basic # <<>> THEN <<45>> ELSE <<>>) \o PunyEncode(cps, 128, 0, Len(basic), 72, Len(basic))

(* ------------------------------- labels --------------------------------- *)
Lower(c) == IF c \in 65..90 THEN c + 32 ELSE c
LowerText(t) == [k \in DOMAIN t |-> Lower(t[k])]
IsAce(t) == Len(t) >= 4 /\ LowerText(SubSeq(t, 1, 4)) = <<120, 110, 45, 45>>
HasSpace(t) == 32 \in Rng(t)
HasUPlus(t) == \E k \in 1..(Len(t) - 1) : t[k] \in {85, 117} /\ t[k + 1] = 43
AceText(cps) == <<120, 110, 45, 45>> \o Encode(cps)

\* what a label of the user stands for, the A-label form apart
Plain(t, keep) ==
    IF HasSpace(t) \/ HasUPlus(t)
    THEN LET r == CpList(t) IN IF r.k = "bad" /\ keep /\ HasSpace(t) THEN Ok(t) ELSE r
    ELSE Ok(t)
=============================================================================
