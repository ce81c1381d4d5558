# Library functions on strings (trusted contracts).
pure extern strings.ToLower(s) (r) as lower
  note "ToLower is a function and yields the empty string only for the empty string"
axiom lowerEmpty(s string)
  ensures (lower(s) == "") <==> (s == "")
  trigger lower(s)
