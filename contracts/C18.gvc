property C18
use strings

# References of one group: the numbers of the names, the number that is handed out next and the collected definitions.
spec numbered(names map[string]int, next int) bool = names != nil && next >= 0 && (forall a string: dom(names, a) ==> 0 <= names[a] && names[a] < next) && (forall a string: (forall b string: dom(names, a) && dom(names, b) && names[a] == names[b] ==> a == b))
spec collected(contents map[int]string, next int) bool = contents != nil && next >= 0 && (forall k int: dom(contents, k) ==> 0 <= k && k < next)

opaque spec keyOf(kind string, n int) string = "$$TOKEN_" + kind + "_" + itoa(n) + "$$"
pure extern strings.TrimRight(s, c) (r) as trimRight

verify parser.Tokenizer.parseNamedReferenceUsage, parser.Tokenizer.parseReferenceDefinition, parser.Tokenizer.parseReferenceEndPlaceholder, parser.Tokenizer.parseReferences

# number of a token key (see C14, which shows that equal keys have equal numbers)
spec num(key string) int
axiom numberOfKey(kind string, n int)
  note "definition (see uniqueKeys in C14)"
  requires n >= 0
  ensures num(keyOf(kind, n)) == n
  trigger keyOf(kind, n)

define TOKENS
  requires t != nil && t.tokenMap != nil && t.tokenCounter >= 0
  modifies t.tokenCounter, mapof(t.tokenMap)
  ensures t.tokenMap == old(t.tokenMap) && t.tokenMap != nil && t.tokenCounter >= old(t.tokenCounter)
enddefine
pure extern parser.FindCorrespondingCloseTokenIgnoreCase(content, start, open, close) (r)
  note "see C16"
pure extern util.EqualsIgnoreCase(a, b) (r)
pure extern util.GetTextAround(s, i, n) (r)
pure extern parser.Tokenizer.getNameAttribute(t, s) (r)
  note "C17 shows that it always returns"
pure extern parser.Tokenizer.getGroupOrDefault(t, s) (r)
  note "C17 shows that it always returns"

func parser.Tokenizer.getToken(t, kind) (r)
  requires t != nil
  modifies t.tokenCounter
  reveal keyOf
  ensures t.tokenCounter == old(t.tokenCounter) + 1 && r == keyOf(kind, old(t.tokenCounter))
verify parser.Tokenizer.getToken
func parser.Tokenizer.setRawToken(t, key, content)
  requires t != nil && t.tokenMap != nil
  modifies mapof(t.tokenMap)
  ensures dom(t.tokenMap, key) && t.tokenMap[key] == content
  ensures forall k string: k != key ==> (dom(t.tokenMap, k) <==> old(dom(t.tokenMap, k))) && t.tokenMap[k] == old(t.tokenMap[k])
verify parser.Tokenizer.setRawToken
extern parser.Tokenizer.tokenizeContent(t, content) (r)
  note "parsing a part of the article uses its own tables of references"
  @TOKENS
  ensures r == parsed
  modifies parsed
ghost parsed string

# a usage of a reference
define NAMES
  ensures [numbers stay unique and without gaps] numbered(nameToRefNumber, n)
  ensures [the next number is used for a new name] name != "" && !old(dom(nameToRefNumber, name)) ==> dom(nameToRefNumber, name) && nameToRefNumber[name] == counter && n == counter + 1
  ensures [a known name keeps its number] name != "" && old(dom(nameToRefNumber, name)) ==> n == counter && nameToRefNumber[name] == old(nameToRefNumber[name])
  ensures [other names keep their numbers] forall a string: a != name ==> (dom(nameToRefNumber, a) <==> old(dom(nameToRefNumber, a))) && (dom(nameToRefNumber, a) ==> nameToRefNumber[a] == old(nameToRefNumber[a]))
enddefine

func parser.Tokenizer.parseNamedReferenceUsage(t, content, i, name, nameToRefNumber, counter, inside, startEnd) (n, r)
  @TOKENS
  requires [numbers of this group] numbered(nameToRefNumber, counter)
  modifies mapof(nameToRefNumber)
  @NAMES
  ensures [no name, no number] name == "" ==> n == counter && r == content
  ensures [shows the number of its name] name != "" && !inside ==> dom(t.tokenMap, keyOf("REF_USAGE", old(t.tokenCounter))) && t.tokenMap[keyOf("REF_USAGE", old(t.tokenCounter))] == box(with(zero("parser.RefUsageToken"), Index, nameToRefNumber[name])) && r == content[0:i] + keyOf("REF_USAGE", old(t.tokenCounter)) + content[startEnd+1:]
  ensures [nothing is shown within a list] name != "" && inside ==> r == content[0:i] + content[startEnd+1:]

# number of the definition
spec number(name string, known bool, names map[string]int, next int) int = ite(name != "" && known, names[name], next)
func parser.Tokenizer.parseReferenceDefinition(t, content, i, startEnd, refEnd, counter, name, nameToRefNumber, refNumberToContent, inside, endLen) (n, r)
  @TOKENS
  requires [numbers of this group] numbered(nameToRefNumber, counter) && collected(refNumberToContent, counter)
  modifies mapof(nameToRefNumber), mapof(refNumberToContent), parsed
  @NAMES
  ensures [definitions without name get the next number] name == "" ==> n == counter + 1
  ensures [the definition is collected under its number] collected(refNumberToContent, n) && dom(refNumberToContent, number(name, old(dom(nameToRefNumber, name)), nameToRefNumber, counter)) && refNumberToContent[number(name, old(dom(nameToRefNumber, name)), nameToRefNumber, counter)] == parsed
  ensures [other definitions are kept] forall k int: k != number(name, old(dom(nameToRefNumber, name)), nameToRefNumber, counter) ==> (dom(refNumberToContent, k) <==> old(dom(refNumberToContent, k))) && refNumberToContent[k] == old(refNumberToContent[k])
  ensures [shows the number of the definition] !inside ==> (exists k int: k >= old(t.tokenCounter) && dom(t.tokenMap, keyOf("REF_USAGE", k)) && t.tokenMap[keyOf("REF_USAGE", k)] == box(with(zero("parser.RefUsageToken"), Index, number(name, old(dom(nameToRefNumber, name)), nameToRefNumber, counter))) && r == content[0:i] + keyOf("REF_USAGE", k) + content[refEnd+endLen:])
  ensures [nothing is shown within a list] inside ==> r == content[0:i] + content[refEnd+endLen:]

# the list of the collected definitions with numbers below k, the first of them being token number c
rec spec count(d arr[int] bool, k int) int = ite(k <= 0, 0, count(d, k - 1) + ite(d[k-1], 1, 0))
lemma countGrows(d arr[int] bool, k int, m int)
  requires 0 <= k && k <= m
  ensures count(d, k) <= count(d, m) && 0 <= count(d, k)
  induct m
  trigger count(d, k), count(d, m)
rec spec list(d arr[int] bool, c int, k int) string = ite(k <= 0, "", list(d, c, k - 1) + ite(d[k-1], keyOf("REF_DEF", c + count(d, k - 1)) + "\n", ""))
spec listed(tokens map[string]parser.Token, key string, n int, text string) bool = dom(tokens, key) && tokens[key] == box(with(with(zero("parser.RefDefinitionToken"), Index, n), Content, text))
func parser.Tokenizer.parseReferenceEndPlaceholder(t, content, i, startEnd, counter, refNumberToContent) (r)
  @TOKENS
  requires [definitions of this group] collected(refNumberToContent, counter)
  modifies mapof(refNumberToContent)
  ensures [the definitions in ascending order, each once] r == trimRight(trimRight(content[0:i], "\n") + "\n" + list(old(mapdom(refNumberToContent)), old(t.tokenCounter), counter), "\n") + content[startEnd+1:]
  ensures [no definition is listed twice] forall k int: !dom(refNumberToContent, k)
  ensures [each definition with its number] forall k in 0 .. counter: old(dom(refNumberToContent, k)) ==> listed(t.tokenMap, keyOf("REF_DEF", old(t.tokenCounter) + count(old(mapdom(refNumberToContent)), k)), k, old(refNumberToContent[k]))
  loop 1
    invariant 0 <= refNumber && refNumber <= counter && count(old(mapdom(refNumberToContent)), refNumber) >= 0
    invariant [grows] forall k in 0 .. refNumber: old(dom(refNumberToContent, k)) ==> count(old(mapdom(refNumberToContent)), k) < count(old(mapdom(refNumberToContent)), refNumber) && 0 <= count(old(mapdom(refNumberToContent)), k)
    invariant [stays] forall k in 0 .. refNumber: old(dom(refNumberToContent, k)) ==> dom(t.tokenMap, keyOf("REF_DEF", old(t.tokenCounter) + count(old(mapdom(refNumberToContent)), k)))
    invariant [holds] forall k in 0 .. refNumber: old(dom(refNumberToContent, k)) ==> listed(t.tokenMap, keyOf("REF_DEF", old(t.tokenCounter) + count(old(mapdom(refNumberToContent)), k)), k, old(refNumberToContent[k]))
    invariant t.tokenCounter == old(t.tokenCounter) + count(old(mapdom(refNumberToContent)), refNumber) && t.tokenMap == old(t.tokenMap)
    invariant contentBefore == trimRight(content[0:i], "\n") + "\n" + list(old(mapdom(refNumberToContent)), old(t.tokenCounter), refNumber)
    invariant forall k int: (dom(refNumberToContent, k) <==> k >= refNumber && old(dom(refNumberToContent, k)))
    invariant forall k int: dom(refNumberToContent, k) ==> refNumberToContent[k] == old(refNumberToContent[k])

func parser.Tokenizer.parseReferences(t, content) (r)
  @TOKENS
  modifies parsed
  loop 1
    invariant t.tokenMap == old(t.tokenMap) && t.tokenMap != nil && t.tokenCounter >= old(t.tokenCounter)
    invariant [kept] mapsKept("map[string]int") && mapsKept("map[int]string")
    invariant [freshN] forall g string: dom(nameToRefNumber, g) ==> fresh(nameToRefNumber[g]) && nameToRefNumber[g] != refNumberCounter
    invariant [freshC] forall g string: dom(refNumberToContent, g) ==> fresh(refNumberToContent[g])
    invariant [numbered] forall g string: dom(nameToRefNumber, g) ==> numbered(nameToRefNumber[g], ite(dom(refNumberCounter, g), refNumberCounter[g], 0))
    invariant [collected] forall g string: dom(refNumberToContent, g) ==> collected(refNumberToContent[g], ite(dom(refNumberCounter, g), refNumberCounter[g], 0))
    invariant [injN] forall g string: (forall h string: dom(nameToRefNumber, g) && dom(nameToRefNumber, h) && nameToRefNumber[g] == nameToRefNumber[h] ==> g == h)
    invariant [injC] forall g string: (forall h string: dom(refNumberToContent, g) && dom(refNumberToContent, h) && refNumberToContent[g] == refNumberToContent[h] ==> g == h)
    invariant [nonneg] forall g string: dom(refNumberCounter, g) ==> refNumberCounter[g] >= 0
