property C16
use strings

# t stands at position i of c
spec sameText(a string, b string, ic bool) bool = ite(ic, lower(a) == lower(b), a == b)
spec standsAt(c string, i int, t string, ic bool) bool = i + len(t) <= len(c) && sameText(c[i:i+len(t)], t, ic)

# position of the closing token at nesting depth n, scanning from i; -1 if there is none
rec spec closing(c string, i int, n int, op string, cl string, ic bool) int =
  ite(i >= len(c), -1,
  ite(!sameText(op, cl, ic) && standsAt(c, i, op, ic), closing(c, i + len(op), n + 1, op, cl, ic),
  ite(standsAt(c, i, cl, ic), ite(n == 0, i, closing(c, i + len(cl), n - 1, op, cl, ic)),
      closing(c, i + 1, n, op, cl, ic))))

verify parser.findCorrespondingCloseToken safety, parser.FindCorrespondingCloseToken safety, parser.FindCorrespondingCloseTokenIgnoreCase safety

func parser.findCorrespondingCloseToken(content, startIndex, openingToken, closingToken, ignoreCase) (r)
  requires startIndex >= 0
  requires len(openingToken) > 0 && len(closingToken) > 0
  ensures [own closing token] r == closing(content, startIndex, 0, openingToken, closingToken, ignoreCase)
  ensures [range] r == -1 || startIndex <= r && r + len(closingToken) <= len(content)
  loop 1
    invariant startIndex <= i
    invariant closeTokenCounter >= 0
    invariant closing(content, startIndex, 0, openingToken, closingToken, ignoreCase) == closing(content, i, closeTokenCounter, openingToken, closingToken, ignoreCase)

func parser.FindCorrespondingCloseToken(content, startIndex, openingToken, closingToken) (r)
  requires startIndex >= 0
  requires len(openingToken) > 0 && len(closingToken) > 0
  ensures [case-sensitive] r == closing(content, startIndex, 0, openingToken, closingToken, false)
  ensures [range] r == -1 || startIndex <= r && r + len(closingToken) <= len(content)

func parser.FindCorrespondingCloseTokenIgnoreCase(content, startIndex, openingToken, closingToken) (r)
  requires startIndex >= 0
  requires len(openingToken) > 0 && len(closingToken) > 0
  ensures [case-insensitive] r == closing(content, startIndex, 0, openingToken, closingToken, true)
  ensures [range] r == -1 || startIndex <= r && r + len(closingToken) <= len(content)
