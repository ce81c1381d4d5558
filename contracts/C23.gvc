property C23
use strings
timeout 60

pure extern strings.TrimSpace(s) (r) as trim
  ensures trim(r) == r
axiom trimBehind(s string, i int)
  note "TrimSpace removes the whitespace at both ends, a list character is none"
  requires trim(s) == s && 0 <= i && i < len(s) && listChar(s[i])
  ensures trim(s[i:]) == s[i:]
  trigger trim(s[i:])
pure extern strings.Split(s, sep) (r) as split
pure extern strings.Join(l, sep) (r) as join
extern strings.SplitN(s, sep, n) (r)
  ensures n == 2 && contains(s, sep) ==> len(r) == 2 && r[0] == s[0:indexOf(s, sep)] && r[1] == s[indexOf(s, sep)+len(sep):]
  ensures n == 2 && !contains(s, sep) ==> len(r) == 1 && r[0] == s

spec listChar(c int) bool = c == 42 || c == 35 || c == 59 || c == 58
spec listPrefix(p string) bool = p == "*" || p == "#" || p == ";" || p == ":"
opaque spec belongs(l string, p string) bool = len(l) > 0 && ite(p == ";", l[0:1] == ":" || l[0:1] == ";", l[0:1] == p)
spec startsList(l string) bool = len(l) > 0 && listChar(l[0])

# What has to be tokenized for a line: its text behind all list characters, for description lists split into head and item.
spec headAndItem(s string) string = ite(contains(s, ":"), "\n" + s[0:indexOf(s, ":")] + "\n" + s[indexOf(s, ":")+1:], "\n" + s)
spec texts(l string) string
axiom textsOfSub(l string)
  note "definition of texts"
  requires len(l) > 1 && listChar(l[1])
  ensures texts(l) == texts(l[1:])
  trigger texts(l), l[1:]
axiom textsOfOwn(l string)
  note "definition of texts"
  requires len(l) <= 1 || !listChar(l[1])
  ensures texts(l) == ite(l[0:1] == ";", headAndItem(l[1:]), "\n" + l[1:])
  trigger texts(l), l[1:]
lemma belongsText(l string, p string)
  requires belongs(l, p)
  ensures l != ""
  trigger belongs(l, p)
lemma textsTrimmed(l string)
  requires trim(l) == l && (len(l) <= 1 || !listChar(l[1]))
  ensures texts(trim(l)) == ite(l[0:1] == ";", headAndItem(l[1:]), "\n" + l[1:])
  by textsOfOwn(l)
  trigger texts(trim(l)), l[1:]
lemma textsBehind(s string, p string)
  requires belongs(s[1:], p) && listPrefix(p) && trim(s) == s
  ensures trim(s[1:]) == s[1:] && texts(s) == texts(s[1:])
  trigger belongs(s[1:], p)
rec fuel 1 spec lineTexts(ls []string, a int, b int) string = ite(b <= a, "", lineTexts(ls, a, b - 1) + texts(trim(ls[b-1])))

lemma lineTextsPrefix(s []string, x []string, a int, b int)
  requires 0 <= a && b <= len(s)
  ensures lineTexts(s + x, a, b) == lineTexts(s, a, b)
  induct b
  trigger lineTexts(s + x, a, b)
lemma textsJoin(s []string, b int, c int)
  requires 0 <= b && b <= c
  ensures lineTexts(s, 0, b) + lineTexts(s, b, c) == lineTexts(s, 0, c)
  induct c
  trigger lineTexts(s, 0, b), lineTexts(s, b, c)

# Everything that is in the items of a list, in their order.
spec content(l any) string
rec fuel 3 spec subContent(ls []parser.ListToken, k int) string = ite(k <= 0, "", subContent(ls, k - 1) + content(ls[k-1]))
lemma subPrefix(s []parser.ListToken, x []parser.ListToken, k int)
  requires 0 <= k && k <= len(s)
  ensures subContent(s + x, k) == subContent(s, k)
  induct k
  trigger subContent(s + x, k)
opaque spec subs(ls []parser.ListToken) string = subContent(ls, len(ls))
lemma noSub(s []parser.ListToken)
  requires len(s) == 0
  ensures subs(s) == ""
  trigger subs(s)
lemma oneSub(s []parser.ListToken, l any)
  ensures subs(s + seqOf(l)) == subs(s) + content(l)
  by subPrefix(s, seqOf(l), len(s))
lemma firstSub(l any)
  ensures subs(seqOf(l)) == content(l)
  trigger subs(seqOf(l))
opaque spec one(i parser.ListItemToken) string = i.Content + subs(i.SubLists)
rec fuel 2 spec itemContent(is []parser.ListItemToken, k int) string = ite(k <= 0, "", itemContent(is, k - 1) + one(is[k-1]))
opaque spec allItems(is []parser.ListItemToken) string = itemContent(is, len(is))
axiom contentUnordered(l parser.UnorderedListToken)
  note "definition of content"
  ensures content(box(l)) == allItems(l.Items)
  trigger content(box(l))
axiom contentOrdered(l parser.OrderedListToken)
  note "definition of content"
  ensures content(box(l)) == allItems(l.Items)
  trigger content(box(l))
axiom contentDescription(l parser.DescriptionListToken)
  note "definition of content"
  ensures content(box(l)) == allItems(l.Items)
  trigger content(box(l))
lemma itemsPrefix(s []parser.ListItemToken, x []parser.ListItemToken, k int)
  requires 0 <= k && k <= len(s)
  ensures itemContent(s + x, k) == itemContent(s, k)
  induct k
  trigger itemContent(s + x, k)
lemma itemsUpdPrefix(s []parser.ListItemToken, n int, v parser.ListItemToken, k int)
  requires 0 <= k && k <= n && n < len(s)
  ensures itemContent(upd(s, n, v), k) == itemContent(s, k)
  induct k
  trigger itemContent(upd(s, n, v), k)
lemma noItems(s []parser.ListItemToken)
  requires len(s) == 0
  ensures allItems(s) == ""
  trigger allItems(s)
lemma oneMore(s []parser.ListItemToken, v parser.ListItemToken)
  ensures allItems(s + seqOf(v)) == allItems(s) + one(v)
  by itemsPrefix(s, seqOf(v), len(s))
  trigger allItems(s + seqOf(v))
lemma twoMore(s []parser.ListItemToken, v parser.ListItemToken, w parser.ListItemToken)
  ensures allItems(s + seqOf(v) + seqOf(w)) == allItems(s) + one(v) + one(w)
  by oneMore(s, v)
  by oneMore(s + seqOf(v), w)
  trigger allItems(s + seqOf(v) + seqOf(w))
lemma plainItem(v parser.ListItemToken)
  requires len(v.SubLists) == 0
  ensures one(v) == v.Content
  trigger one(v)
lemma dummyItem(v parser.ListItemToken)
  requires len(v.SubLists) == 1
  ensures one(v) == v.Content + subs(v.SubLists)
  trigger one(v)
lemma lastItem(s []parser.ListItemToken)
  requires len(s) > 0
  ensures allItems(s) == itemContent(s, len(s) - 1) + one(s[len(s)-1])
lemma moreSub(s []parser.ListItemToken, n int, v parser.ListItemToken, l any)
  requires 0 <= n && n == len(s) - 1 && v.Content == s[n].Content
  requires v.SubLists == s[n].SubLists + seqOf(l) || len(s[n].SubLists) == 0 && v.SubLists == seqOf(l)
  ensures allItems(upd(s, n, v)) == allItems(s) + content(l)
  by lastItem(s)
  by lastItem(upd(s, n, v))
  by itemsUpdPrefix(s, n, v, n)
  by oneSub(s[n].SubLists, l)
  by firstSub(l)
  by noSub(s[n].SubLists)
  trigger allItems(upd(s, n, v)), content(l)

spec kind(l any, p string) bool = ite(p == "*", isType(l, "parser.UnorderedListToken"), ite(p == "#", isType(l, "parser.OrderedListToken"), isType(l, "parser.DescriptionListToken")))

# given: the texts passed to tokenizeContent; made: what it returned.
ghost given string
ghost made string
# out: the lines of parseLists that are done
ghost out []string
ghost rest []string
extern parser.Tokenizer.tokenizeContent(t, content) (r)
  note "tokenizes the text of one item; given and made record the calls that are not nested in another one"
  modifies t.tokenCounter, t.images, mapof(t.tokenMap)
  set given := given + "\n" + content
  set made := made + r
extern parser.Tokenizer.getToken(t, kind) (r)
  modifies t.tokenCounter
spec stored(key string, l any) bool
extern parser.Tokenizer.setRawToken(t, key, content)
  note "stores the token (verified for C14); stored(key, content) means that this call happened"
  modifies mapof(t.tokenMap)
  ensures stored(key, content)

# run: the lines a until b belong to the list
rec fuel 1 spec run(ls []string, a int, b int, p string) bool = b <= a || run(ls, a, b - 1, p) && belongs(trim(ls[b-1]), p)
lemma runBehind(ls []string, a int, b int, p string)
  requires run(ls, a, b, p) && 0 <= a && a <= b && b <= len(ls)
  ensures run(ls[a:], 0, b - a, p)
  induct b
  trigger run(ls, a, b, p)
# listed: out is the text without its end "rest", with every run of list lines replaced by the key of its list
spec listed(ls []string, rest []string, out []string) bool
axiom listedNothing(ls []string, out []string)
  note "definition of listed"
  requires len(out) == 0
  ensures listed(ls, ls, out)
  trigger listed(ls, ls, out)
axiom listedLine(ls []string, rest []string, out []string, rest2 []string, out2 []string)
  note "definition of listed: a line that starts no list stays"
  requires listed(ls, rest, out) && len(rest) > 0 && !startsList(trim(rest[0])) && rest2 == rest[1:] && out2 == out + seqOf(rest[0])
  ensures listed(ls, rest2, out2)
  trigger listed(ls, rest, out), listed(ls, rest2, out2)
axiom listedRun(ls []string, rest []string, out []string, rest2 []string, out2 []string, r []string, m int, p string, key string, l any)
  note "definition of listed: all lines of a list become its key"
  requires listed(ls, rest, out) && len(rest) > 0 && startsList(trim(rest[0])) && 0 < m && m <= len(rest) && rest2 == rest[m:] && out2 == out + seqOf(key)
  requires r == rest && p == trim(rest[0])[0:1] && run(r, 0, m, p) && (m < len(rest) ==> !belongs(trim(rest[m]), p)) && stored(key, l) && kind(l, p)
  ensures listed(ls, rest2, out2)
  trigger listed(ls, rest, out), listed(ls, rest2, out2), stored(key, l), run(r, 0, m, p)
spec listedText(content string, result string) bool
axiom listedAll(content string, rest []string, out []string)
  note "definition of listedText"
  requires listed(split(content, "\n"), rest, out) && len(rest) == 0
  ensures listedText(content, join(out, "\n"))
  trigger listed(split(content, "\n"), rest, out)

verify parser.Tokenizer.parseLists, parser.Tokenizer.tokenizeList, parser.belongsToListPrefix, parser.isListStartingCharacter

func parser.belongsToListPrefix(line, itemPrefix) (r)
  requires listPrefix(itemPrefix)
  reveal belongs
  ensures [belongs to the list] r <==> belongs(line, itemPrefix)
func parser.isListStartingCharacter(c) (r)
  ensures [list character] r <==> listChar(c)

func parser.Tokenizer.tokenizeList(t, lines, startLineIndex, listPrefix) (l, key, n)
  requires [a list] listPrefix(listPrefix) && 0 <= startLineIndex && startLineIndex <= len(lines)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap), given, made
  ensures [exactly the lines of the list] startLineIndex <= n && n <= len(lines) && (forall i in startLineIndex .. n: belongs(trim(lines[i]), listPrefix)) && (n < len(lines) ==> !belongs(trim(lines[n]), listPrefix))
  ensures [the run of list lines] run(lines, startLineIndex, n, listPrefix)
  ensures [every text of these lines is used] given == old(given) + lineTexts(lines, startLineIndex, n)
  ensures [everything is in the list] made == old(made) + content(l)
  ensures [the kind of the list] kind(l, listPrefix)
  ensures [the key stands for the list] stored(key, l)
  loop 1
    invariant startLineIndex <= i && i <= len(lines)
    invariant len(listLines) == i - startLineIndex
    invariant run(lines, startLineIndex, i, listPrefix)
    invariant forall j in startLineIndex .. i: belongs(trim(lines[j]), listPrefix)
    invariant forall j in 0 .. len(listLines): belongs(listLines[j], listPrefix) && trim(listLines[j]) == listLines[j]
    invariant lineTexts(listLines, 0, len(listLines)) == lineTexts(lines, startLineIndex, i)
  loop 2
    invariant 0 <= lineIndex && lineIndex <= len(listLines)
    invariant given == old(given) + lineTexts(listLines, 0, lineIndex)
    invariant made == old(made) + allItems(allListItemTokens)
  loop 3
    invariant lineIndex <= j && j <= len(listLines) && len(trimmedListLines) == j - lineIndex
    invariant forall k in 0 .. len(trimmedListLines): belongs(trim(trimmedListLines[k]), subListPrefix)
    invariant lineTexts(trimmedListLines, 0, len(trimmedListLines)) == lineTexts(listLines, lineIndex, j)

lemma ownList(l string)
  requires startsList(l)
  ensures belongs(l, l[0:1]) && listPrefix(l[0:1])
  trigger startsList(l)
func parser.Tokenizer.parseLists(t, content) (r)
  modifies t.tokenCounter, t.images, mapof(t.tokenMap), given, made, rest, out
  set rest := split(content, "\n")
  set out := emptySeq("string")
  ensures [lists replaced, other lines kept] listedText(content, r)
  loop 1
    invariant 0 <= i && i <= len(lines)
    invariant rest == lines[i:]
    invariant out == lines[0:i]
    invariant listed(split(content, "\n"), rest, out)
    set rest := lines[i:]
    set out := lines[0:i]
