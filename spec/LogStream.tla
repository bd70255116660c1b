---- MODULE LogStream ----
(* A stream listener: it writes each message as one line to the stream that is current. *)
EXTENDS Integers, Sequences, TLC
VARIABLES
  current,   \* the stream in use, 0: none
  mode,      \* stream -> "none" (does not exist), "borrowed", "owned" or "shared"
  outside,   \* the streams the program still owns or holds a reference to
  kept,      \* the streams the listener owns or holds a reference to
  closed     \* the listener is gone
svars == <<current, mode, outside, kept, closed>>
Streams == 1..9
InitStream == current = 0 /\ mode = [k \in Streams |-> "none"] /\ outside = {} /\ kept = {} /\ closed = FALSE
ResetStream == current' = 0 /\ mode' = [k \in Streams |-> "none"] /\ outside' = {} /\ kept' = {} /\ closed' = FALSE

Names == <<"CRIT", "ERR ", "WARN", "INFO", "DBG ", "TRC ">>
Name(lv) == IF lv \in 0..5 THEN Names[lv + 1] ELSE "????"
\* what follows date and time; m: <<level, category, directory, file, line, text>>
LineOf(m) == "[" \o Name(m[1]) \o "] " \o (IF m[2] = "" THEN "" ELSE "(" \o m[2] \o ") ") \o m[4] \o ":" \o ToString(m[5]) \o " " \o m[6]

\* ---- date and time: seconds since 1970 -> "yyyy-mm-dd hh:mm:ss" (Gregorian; years counted from March, so that the leap day is the last)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
\* <<year, month, day>>
Calendar(days) ==
  LET z == days + 719468                      \* since 0000-03-01
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d>>
Date(days) == LET c == Calendar(days) IN ToString(c[1]) \o "-" \o Two(c[2]) \o "-" \o Two(c[3])
\* times are seconds since the beginning of the day number first
Stamp(first, t) == Date(first + t \div 86400) \o " " \o Two((t % 86400) \div 3600) \o ":" \o Two((t % 3600) \div 60) \o ":" \o Two(t % 60)
\* zone: <<seconds ahead, kind of summer time, first day>>: an hour more from the 1st of March to the 27th of October (1), or from
\* the 27th of October to the 1st of March (2), at midnight by the time then in force
MonthDay(first, t) == LET c == Calendar(first + t \div 86400) IN c[2] * 100 + c[3]
Summer(kind, first, t) == CASE kind = 0 -> FALSE
                            [] kind = 1 -> MonthDay(first, t) >= 301 /\ MonthDay(first, t + 3600) < 1027
                            [] kind = 2 -> ~(MonthDay(first, t + 3600) >= 301 /\ MonthDay(first, t) < 1027)
Local(zone, t) == LET s == t + zone[1] IN Stamp(zone[3], IF Summer(zone[2], zone[3], s) THEN s + 3600 ELSE s)
\* written somewhere between two moments
TimeOK(stamp, from, to, zone) == \E t \in from..to : stamp = Local(zone, t)

Make(k, how) == /\ mode[k] = "none" /\ mode' = [mode EXCEPT ![k] = how] /\ outside' = outside \cup {k}
                /\ UNCHANGED <<current, kept, closed>>
\* the listener may keep what it does not use any more
Use(k) == /\ ~closed /\ mode[k] # "none" /\ current' = k
          /\ kept' = IF mode[k] = "borrowed" THEN kept ELSE kept \cup {k}
          /\ outside' = IF mode[k] = "owned" THEN outside \ {k} ELSE outside
          /\ UNCHANGED <<mode, closed>>
Let(k) == outside' = outside \ {k} /\ UNCHANGED <<current, mode, kept, closed>>
Close == closed' = TRUE /\ current' = 0 /\ UNCHANGED <<mode, outside, kept>>
\* a stream is released when nobody needs it
Release(k) == /\ mode[k] # "none" /\ k \notin outside /\ k # current
              /\ mode' = [mode EXCEPT ![k] = "none"] /\ kept' = kept \ {k}
              /\ UNCHANGED <<current, outside, closed>>
====
