---- MODULE LogPatterns ----
(* Levels, and the categories and category expressions (ECMAScript regular expressions that have to match the
   whole name) used in the scenarios; which of the names each expression matches.                        *)
EXTENDS Naturals
Levels == 0..5
Categories == 0..7              \* "", "net", "net.io", "db", "netdb", "NET", "net7", " net"
Filters == 0..16                \* "", and the following, the last four of which are not valid
Matches == << {1},              \* net
              {1, 2, 4, 6},     \* net.*
              {1, 3},           \* db|net
              {1, 3, 4},        \* (net|db)+
              {3},              \* [a-m]b
              {2},              \* .*io
              {6},              \* net\d
              {1, 5},           \* (?:net|NET)
              {3, 5, 7},        \* [^n]\w*
              {2},              \* net.io
              {1, 2, 3, 4, 6},  \* (?!N)\w.*
              {1} >>            \* ^net$
Valid(f) == f <= 12             \* then come (  [z  *a  a{2
\* messages without a category pass every filter
Accepts(f, c) == c = 0 \/ f = 0 \/ c \in Matches[f]
====
