property C15
use strings

# Which markers are open: 0 none, 1 bold, 2 italic, 3 italic within bold, 4 bold within italic, 5 wrongly nested.
# Item types: 0 bold opens, 1 bold closes, 2 italic opens, 3 italic closes.
spec step(s int, ty int) int = ite(ty == 0, ite(s == 0, 1, ite(s == 2, 4, 5)), ite(ty == 1, ite(s == 1, 0, ite(s == 4, 2, 5)), ite(ty == 2, ite(s == 0, 2, ite(s == 1, 3, 5)), ite(ty == 3, ite(s == 2, 0, ite(s == 3, 1, 5)), 5))))
rec fuel 3 spec nest(s []parser.BoldItalicStackItem, k int) int = ite(k <= 0, 0, step(nest(s, k - 1), s[k-1].itemType))
spec bold(n int) bool = n == 1 || n == 3 || n == 4
spec italic(n int) bool = n == 2 || n == 3 || n == 4

# End of the text that is covered by the first k items.
spec end(s []parser.BoldItalicStackItem, k int) int = ite(k <= 0, 0, s[k-1].index + s[k-1].length)
spec apostrophes(ty int) string = ite(ty == 0 || ty == 1, "'''", "''")
# Each of the first k items is inserted behind the previous one, or replaces an apostrophe pair or triple behind it.
spec fits(c string, s []parser.BoldItalicStackItem, i int) bool = 0 <= s[i].itemType && s[i].itemType <= 3 && end(s, i) <= s[i].index && (s[i].length == 0 || s[i].length == len(apostrophes(s[i].itemType)) && c[s[i].index:s[i].index+s[i].length] == apostrophes(s[i].itemType)) && s[i].index + s[i].length <= len(c)
rec fuel 3 spec placed(c string, s []parser.BoldItalicStackItem, k int) bool = ite(k <= 0, true, placed(c, s, k - 1) && fits(c, s, k - 1))

# Only crossovers are repaired: a marker without apostrophes closes before, or reopens behind, another closing marker.
rec fuel 2 spec repaired(s []parser.BoldItalicStackItem, k int) bool = ite(k <= 0, true, ite(s[k-1].length != 0, repaired(s, k - 1), k >= 3 && s[k-2].length != 0 && s[k-3].length == 0 && s[k-3].itemType == s[k-1].itemType + 1 && s[k-3].index == s[k-2].index && repaired(s, k - 3)))

# Whether the markers behind position i can be read, where s markers are open: each run of apostrophes is used up entirely,
# everything is closed at the end. e: there was a marker already, so that a closed block may end here. rep: crossovers are repaired.
spec pairAt(c string, i int) bool = 0 <= i && i + 2 <= len(c) && c[i:i+2] == "''"
spec tripleAt(c string, i int) bool = 0 <= i && i + 3 <= len(c) && c[i:i+3] == "'''"
rec fuel 2 spec reads(c string, i int, s int, e bool, rep bool) bool =
  ite(i >= len(c), s == 0,
  ite(pairAt(c, i), (s != 4 || rep) && reads(c, i + 2, ite(s == 0, 2, ite(s == 1, 3, ite(s == 2, 0, 1))), true, rep) ||
    tripleAt(c, i) && (s != 3 || rep) && reads(c, i + 3, ite(s == 0, 1, ite(s == 1, 0, ite(s == 2, 4, 2))), true, rep),
  ite(i > 0 && c[i-1:i+1] == "''", false,
  ite(e && s == 0, true, reads(c, i + 1, s, e, rep)))))
lemma tripleIsPair(c string, i int)
  requires 0 <= i && i + 3 <= len(c) && c[i:i+3] == "'''"
  ensures c[i:i+2] == "''"
  trigger c[i:i+3]
# None of the first k items is there without apostrophes.
rec fuel 2 spec plain(s []parser.BoldItalicStackItem, k int) bool = ite(k <= 0, true, plain(s, k - 1) && s[k-1].length != 0)

lemma plainPrefix(s []parser.BoldItalicStackItem, x []parser.BoldItalicStackItem, k int)
  requires 0 <= k && k <= len(s)
  ensures plain(s + x, k) <==> plain(s, k)
  induct k
  trigger plain(s + x, k)
lemma nestOfPrefix(s []parser.BoldItalicStackItem, x []parser.BoldItalicStackItem, k int)
  requires 0 <= k && k <= len(s)
  ensures nest(s + x, k) == nest(s, k)
  induct k
  trigger nest(s + x, k)
lemma placedPrefix(c string, s []parser.BoldItalicStackItem, x []parser.BoldItalicStackItem, k int)
  requires 0 <= k && k <= len(s)
  ensures placed(c, s + x, k) <==> placed(c, s, k)
  induct k
  trigger placed(c, s + x, k)
lemma nestOfPrefix3(s []parser.BoldItalicStackItem, a []parser.BoldItalicStackItem, b []parser.BoldItalicStackItem, c []parser.BoldItalicStackItem, k int)
  requires 0 <= k && k <= len(s)
  ensures nest(s + a + b + c, k) == nest(s, k)
  by nestOfPrefix(s, a + b + c, k)
  trigger nest(s + a + b + c, k)
lemma placedPrefix3(t string, s []parser.BoldItalicStackItem, a []parser.BoldItalicStackItem, b []parser.BoldItalicStackItem, c []parser.BoldItalicStackItem, k int)
  requires 0 <= k && k <= len(s)
  ensures placed(t, s + a + b + c, k) <==> placed(t, s, k)
  by placedPrefix(t, s, a + b + c, k)
  trigger placed(t, s + a + b + c, k)
lemma placedOne(c string, s []parser.BoldItalicStackItem, a parser.BoldItalicStackItem, n int)
  requires n == len(s) + 1 && placed(c, s, len(s)) && end(s, len(s)) <= a.index && 0 <= a.itemType && a.itemType <= 3 && (a.length == 0 || a.length == len(apostrophes(a.itemType)) && c[a.index:a.index+a.length] == apostrophes(a.itemType)) && a.index + a.length <= len(c)
  ensures placed(c, s + seqOf(a), n) && end(s + seqOf(a), n) == a.index + a.length
  by placedPrefix(c, s, seqOf(a), len(s))
  trigger placed(c, s + seqOf(a), n)
lemma repairedPrefix(s []parser.BoldItalicStackItem, x []parser.BoldItalicStackItem, k int)
  requires 0 <= k && k <= len(s)
  ensures (k >= 1 ==> (repaired(s + x, k - 1) <==> repaired(s, k - 1))) && (k >= 2 ==> (repaired(s + x, k - 2) <==> repaired(s, k - 2))) && (repaired(s + x, k) <==> repaired(s, k))
  induct k
  trigger repaired(s + x, k)
lemma repairedPrefix3(s []parser.BoldItalicStackItem, a []parser.BoldItalicStackItem, b []parser.BoldItalicStackItem, c []parser.BoldItalicStackItem, k int)
  requires 0 <= k && k <= len(s)
  ensures repaired(s + a + b + c, k) <==> repaired(s, k)
  by repairedPrefix(s, a + b + c, k)
  trigger repaired(s + a + b + c, k)
lemma staysWrong(s []parser.BoldItalicStackItem, k int, m int)
  requires 0 <= k && k <= m && nest(s, m) != 5
  ensures nest(s, k) != 5 && 0 <= nest(s, k) && nest(s, k) < 5
  induct m
  trigger nest(s, k), nest(s, m)

verify parser.hasOddNumberOfItems, parser.Tokenizer.tokenizeBoldAndItalic, parser.Tokenizer.parseBoldAndItalic

func parser.hasOddNumberOfItems(stack) (r)
  requires nest(stack, len(stack)) != 5
  ensures [everything is closed] r <==> nest(stack, len(stack)) == 0
  loop 1
    invariant numberOfBolds == ite(bold(nest(stack, $idx)), 1, 0)
    invariant numberOfItalics == ite(italic(nest(stack, $idx)), 1, 0)

func parser.Tokenizer.tokenizeBoldAndItalic(t, content, index, stack, repair, isBold, isItalic) (ok, r)
  requires [earlier items are in place] 0 <= index && placed(content, stack, len(stack)) && end(stack, len(stack)) <= index
  requires [only crossovers are repaired so far] repaired(stack, len(stack))
  requires [nothing is wrongly nested] nest(stack, len(stack)) != 5
  requires [the flag says whether bold is open] isBold <==> bold(nest(stack, len(stack)))
  requires [the flag says whether italic is open] isItalic <==> italic(nest(stack, len(stack)))
  requires [within the text] index <= len(content)
  ensures [balanced and properly nested] ok ==> nest(r, len(r)) == 0
  ensures [each marker has its place] ok ==> placed(content, r, len(r))
  ensures [only crossovers are repaired] ok ==> repaired(r, len(r))
  ensures [earlier items are kept] ok ==> len(stack) <= len(r) && (len(stack) > 0 ==> r[0] == stack[0])
  ensures [nothing before the start] ok && len(stack) == 0 && len(r) > 0 ==> r[0].index >= old(index)
  ensures [begins with the first apostrophes] ok && len(stack) == 0 && pairAt(content, old(index)) ==> r[0].index == old(index)
  ensures [finds a reading iff there is one] ok <==> reads(content, old(index), nest(stack, len(stack)), len(stack) > 0, repair)
  ensures [nothing is repaired without need] ok && !repair && plain(stack, len(stack)) ==> plain(r, len(r))
  ensures [an apostrophe pair becomes a marker] ok && content[old(index):old(index)+2] == "''" ==> len(r) > len(stack)
  loop 1
    invariant old(index) <= index && index <= len(content)
    invariant index > old(index) ==> content[old(index):old(index)+2] != "''"
    invariant [same reading from here] reads(content, old(index), nest(stack, len(stack)), len(stack) > 0, repair) <==> reads(content, index, nest(stack, len(stack)), len(stack) > 0, repair)

# The text with the markers of the first k items.
spec marker(ty int) string = ite(ty == 0, "$$MARKER_BOLD_OPEN$$", ite(ty == 1, "$$MARKER_BOLD_CLOSE$$", ite(ty == 2, "$$MARKER_ITALIC_OPEN$$", "$$MARKER_ITALIC_CLOSE$$")))
rec fuel 2 spec weave(c string, s []parser.BoldItalicStackItem, k int) string = ite(k <= 0, "", weave(c, s, k - 1) + c[end(s, k - 1):s[k-1].index] + marker(s[k-1].itemType))

lemma placedSome(c string, s []parser.BoldItalicStackItem, k int, m int)
  requires 0 <= k && k < m && placed(c, s, m)
  ensures placed(c, s, k) && fits(c, s, k)
  induct m
  trigger placed(c, s, m), weave(c, s, k)
lemma endWithin(c string, s []parser.BoldItalicStackItem, k int)
  requires placed(c, s, k)
  ensures 0 <= end(s, k) && end(s, k) <= len(c)
  induct k
  trigger placed(c, s, k)

lemma cut(c string, e int, p int)
  requires 0 <= e && e <= p && p <= len(c)
  ensures c[e:] == c[e:p] + c[p:]
lemma headOfJoin(w string, a string, b string)
  ensures (w + a + b)[0:len(w) + len(a)] == w + a
lemma textBefore(c string, s []parser.BoldItalicStackItem, k int, x string, n int)
  requires 0 <= k && end(s, k) <= s[k].index && s[k].index <= len(c) && 0 <= end(s, k) && x == weave(c, s, k) + c[end(s, k):] && n == s[k].index + len(weave(c, s, k)) - end(s, k)
  ensures x[0:n] == weave(c, s, k) + c[end(s, k):s[k].index]
  hide weave
  by cut(c, end(s, k), s[k].index)
  by headOfJoin(weave(c, s, k), c[end(s, k):s[k].index], c[s[k].index:])
  trigger weave(c, s, k), x[0:n]
lemma textBehind(c string, s []parser.BoldItalicStackItem, k int, x string, n int)
  requires 0 <= k && 0 <= end(s, k) && end(s, k) <= s[k].index && 0 <= s[k].length && s[k].index + s[k].length <= len(c) && x == weave(c, s, k) + c[end(s, k):] && n == s[k].index + s[k].length + len(weave(c, s, k)) - end(s, k)
  ensures x[n:] == c[s[k].index+s[k].length:]
  trigger weave(c, s, k), x[n:]

# No apostrophe pair begins at the positions from i up to (excluding) k.
rec fuel 2 spec quiet(c string, i int, k int) bool = ite(k <= i, true, quiet(c, i, k - 1) && !pairAt(c, k - 1))

# marked(a, b, k): b is the text a with markers for all blocks before k, each of them balanced and properly nested.
spec marked(a string, b string, k int) bool
spec block(b string, s []parser.BoldItalicStackItem, k int) bool = len(s) > 0 && nest(s, len(s)) == 0 && placed(b, s, len(s)) && repaired(s, len(s)) && s[0].index == k && (plain(s, len(s)) || !reads(b, k, 0, false, false))
# finished(a, b): all blocks of a are marked in b, up to the first apostrophes that cannot be read.
spec finished(a string, b string) bool
axiom unmarked(a string)
  note "definition of marked"
  ensures marked(a, a, 0)
  trigger marked(a, a, 0)
axiom oneMore(a string, b string, k int, s []parser.BoldItalicStackItem, n int)
  note "definition of marked"
  requires marked(a, b, k) && block(b, s, k) && n == len(s)
  ensures marked(a, weave(b, s, n) + b[end(s, n):], len(weave(b, s, n)))
  trigger marked(a, b, k), weave(b, s, n)
axiom later(a string, b string, k int, m int)
  note "definition of marked"
  requires marked(a, b, k) && k <= m && quiet(b, k, m)
  ensures marked(a, b, m)
  trigger marked(a, b, k), marked(a, b, m)
axiom allMarked(a string, b string, k int)
  note "definition of finished"
  requires marked(a, b, k) && k >= len(b) - 1
  ensures finished(a, b)
  trigger marked(a, b, k), finished(a, b)
axiom notReadable(a string, b string, k int)
  note "definition of finished"
  requires marked(a, b, k) && pairAt(b, k) && !reads(b, k, 0, false, true)
  ensures finished(a, b)
  trigger marked(a, b, k), finished(a, b)

func parser.Tokenizer.parseBoldAndItalic(t, content) (r)
  ensures [all readable blocks get markers] finished(old(content), r)
  loop 1
    invariant marked(old(content), content, index) && 0 <= index && index <= len(content)
  loop 2
    invariant string(chars) == weave(content, stack, $idx) + content[end(stack, $idx):]
    invariant offset == len(weave(content, stack, $idx)) - end(stack, $idx)
    invariant $idx > 0 ==> index == len(weave(content, stack, $idx))
