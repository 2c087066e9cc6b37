-------------------------------- MODULE Tags --------------------------------
(* Scripts of labels and of language tags (ISO 15924 codes).                  *)
EXTENDS Base

Neutral == {"Zyyy", "Zinh"}
Kana == {"Hira", "Kana"}
\* scripts: those of the characters of the label; kanaSign: it has U+3006 or U+30FC
LabelScripts(scripts, kanaSign) ==
    LET own == SelectSeq(scripts, LAMBDA s : s \notin Neutral) IN
    IF scripts = <<>> THEN {""}
    ELSE IF own = <<>> THEN IF kanaSign THEN {"und-Jpan"} ELSE {"und-" \o s : s \in Rng(scripts)}
    ELSE IF Head(own) \in Kana \/ (Head(own) = "Hani" /\ Rng(own) \cap Kana # {}) THEN {"und-Jpan"}
    ELSE IF Head(own) = "Hang" THEN {"und-Kore"}
    ELSE {"und-" \o Head(own)}

\* the Unicode scripts a script code of ISO 15924 is written with
Unicode(s) ==
    CASE s = "Aran" -> {"Arab"}
      [] s = "Cyrs" -> {"Cyrl"}
      [] s = "Geok" -> {"Geor"}
      [] s \in {"Hans", "Hant"} -> {"Hani"}
      [] s = "Hanb" -> {"Hani", "Bopo"}
      [] s = "Hrkt" -> {"Hira", "Kana"}
      [] s = "Jamo" -> {"Hang"}
      [] s = "Jpan" -> {"Hani", "Hira", "Kana"}
      [] s = "Kore" -> {"Hani", "Hang"}
      [] s \in {"Latf", "Latg"} -> {"Latn"}
      [] s \in {"Syre", "Syrj", "Syrn"} -> {"Syrc"}
      [] OTHER -> {s}

\* a tag: [lang (two letters, or as registered), long (three-letter code used instead, or ""), script, region, default (script of the language, or "")]
TagLanguage(t) == IF t.lang = "und" THEN "" ELSE t.lang
TagScript(t, suppress) ==
    IF t.script # "" THEN t.script
    ELSE IF t.lang = "zh" THEN "Hani"
    ELSE IF suppress THEN t.default ELSE ""
MetaScripts(t) ==
    LET s == IF t.script # "" THEN t.script ELSE t.default IN IF s = "" THEN {} ELSE Unicode(s)
\* the tag library refuses three-letter codes of languages with a two-letter one, and default scripts spelled out
Standard(t) == t.long = "" /\ (t.script = "" \/ t.script # t.default)
=============================================================================
