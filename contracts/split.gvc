# Library functions that take texts apart and put them together (trusted contracts).
pure extern strings.Split(s, sep) (r) as split
  ensures sep != "" ==> len(r) >= 1
pure extern strings.SplitN(s, sep, n) (r) as splitN
  ensures n != 0 && sep != "" ==> len(r) >= 1
axiom firstPartOfSplit(s string, sep string)
  note "Split: the first part is the text before the first separator"
  requires sep != ""
  ensures len(split(s, sep)) >= 1
  ensures split(s, sep)[0] == ite(contains(s, sep), s[:indexOf(s, sep)], s)
  ensures (len(split(s, sep)) == 1) == !contains(s, sep)
  trigger split(s, sep)
axiom twoParts(s string, sep string)
  note "SplitN with two parts: cuts at the first separator"
  requires sep != ""
  ensures len(splitN(s, sep, 2)) == ite(contains(s, sep), 2, 1)
  ensures !contains(splitN(s, sep, 2)[0], sep) && contains(s, splitN(s, sep, 2)[0])
  trigger splitN(s, sep, 2)
pure extern strings.Join(l, sep) (r) as strJoin
axiom joinBegins(l []string, sep string)
  requires len(l) > 0
  ensures prefix(strJoin(l, sep), l[0])
  trigger strJoin(l, sep)
axiom partsWithoutSeparator(s string, sep string, i int)
  note "parts are pieces of the text without the separator"
  requires sep != "" && 0 <= i && i < len(split(s, sep))
  ensures !contains(split(s, sep)[i], sep) && contains(s, split(s, sep)[i])
  trigger split(s, sep)[i]
