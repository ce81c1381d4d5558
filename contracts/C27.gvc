property C27
use strings
strict

# Evaluating a template depends on its text only (the answers of the server are cached by the text, see C02 and C03).
pure extern util.Hash(s) (r) as hash
axiom hexadecimal(s string)
  note "a hash consists of hexadecimal digits"
  ensures !contains(hash(s), "{") && !contains(hash(s), "}") && !contains(hash(s), "$")
  trigger hash(s)
ghost failed bool              # an evaluation failed
ghost unclosed bool            # a search for a closing token failed
ghost source arr[string] string # text behind each key
ghost known arr[string] bool
pure extern wikipedia.WikipediaService.EvaluateTemplate(s, template, key) (r, err) as evaluated, evalErr
  requires [the key belongs to the template] key == hash(template)
  modifies source, known, failed
  ensures failed == (old(failed) || err != nil)
  ensures source == upd(old(source), key, template) && known == upd(old(known), key, true)
pure extern parser.FindCorrespondingCloseToken(c, i, op, cl) (r) as closeOf
  note "verified as property C16"
  requires [within the text] 0 <= i
  modifies unclosed
  ensures r == -1 || i <= r && r + len(cl) <= len(c)
  ensures unclosed == (old(unclosed) || r == -1)
pure extern strings.Replace(s, a, b, n) (r)
  ensures n == 1 && contains(s, a) ==> r == s[:indexOf(s, a)] + b + s[indexOf(s, a)+len(a):]
pure extern strings.ReplaceAll(s, a, b) (r) as replaceAll

spec opens(c string, i int) bool = 0 <= i && i + 2 <= len(c) && c[i:i+2] == "{{"
spec placeholder(k string) string = "$$TEMPLATE_PLACEHOLDER_" + k + "$$"
spec endAt(c string, i int) int = closeOf(c, i + 2, "{{", "}}")
spec textAt(c string, i int) string = c[i:endAt(c, i)+2]
spec nested(t string) bool = contains(t[2:], "{{")
# put(c, i): the text c with placeholders for all templates from position i on
rec fuel 2 spec put(c string, i int) string = ite(i >= len(c) - 2, c, ite(opens(c, i), put(c[:i] + placeholder(hash(whole(c, i))) + c[endAt(c, i)+2:], i + 1), put(c, i + 1)))
# whole(c, i): the template at position i with placeholders for the templates within it
opaque spec whole(c string, i int) string = ite(nested(textAt(c, i)), "{{" + put(textAt(c, i)[2:], 0), textAt(c, i))

# Other ways to ask for the beginning of a template
lemma opensBytes(c string, i int)
  requires 0 <= i && i + 2 <= len(c)
  ensures (c[i] == '{' && c[i+1] == '{') == (c[i:i+2] == "{{")
  trigger c[i], c[i+1]

# No template begins at the first k positions.
rec fuel 2 spec quiet(c string, k int) bool = ite(k <= 0, true, quiet(c, k - 1) && !opens(c, k - 1))
lemma quietAt(c string, k int, j int)
  requires quiet(c, k) && 0 <= j && j < k
  ensures !opens(c, j)
  induct k
lemma isContained(c string, i int, o string)
  requires 0 <= i && i + len(o) <= len(c) && c[i:i+len(o)] == o
  ensures contains(c, o)
lemma foundInJoin(p string, o string, q string)
  ensures indexOf(p + o + q, o) <= len(p)
lemma joined(c string, i int, o string)
  requires 0 <= i && i + len(o) <= len(c) && c[i:i+len(o)] == o
  ensures c == c[:i] + o + c[i+len(o):]
lemma foundBefore(c string, i int, o string)
  requires 0 <= i && i + len(o) <= len(c) && c[i:i+len(o)] == o
  ensures 0 <= indexOf(c, o) && indexOf(c, o) <= i
  by isContained(c, i, o)
  by joined(c, i, o)
  by foundInJoin(c[:i], o, c[i+len(o):])
lemma foundThere(c string, o string)
  requires contains(c, o) && len(o) >= 2 && o[0:2] == "{{"
  ensures c[indexOf(c, o):indexOf(c, o)+2] == "{{"
lemma firstTemplate(c string, i int, o string)
  requires quiet(c, i) && 0 <= i && i + len(o) <= len(c) && c[i:i+len(o)] == o && len(o) >= 2 && o[0:2] == "{{"
  ensures contains(c, o) && indexOf(c, o) == i
  by isContained(c, i, o)
  by foundBefore(c, i, o)
  by foundThere(c, o)
  by quietAt(c, i, indexOf(c, o))
  trigger quiet(c, i), indexOf(c, o)
lemma quietSame(c string, i int, x string, k int)
  requires quiet(c, k) && 0 <= k && k <= i && i <= len(c) && prefix(x, "$")
  ensures quiet(c[:i] + x, k)
  induct k
lemma quietBehind(c string, i int, x string)
  requires quiet(c, i) && 0 <= i && i <= len(c) && prefix(x, "$")
  ensures quiet(c[:i] + x, i + 1)
  by quietSame(c, i, x, i)
  trigger quiet(c, i), c[:i] + x

verify parser.Tokenizer.replaceTemplateByPlaceholders, parser.Tokenizer.evaluateTemplates, parser.Tokenizer.Tokenize, parser.NewTokenizer

func parser.Tokenizer.replaceTemplateByPlaceholders(t, content, m) (r, err)
  reveal whole
  requires t != nil && t.wikipediaService != nil && m != nil
  requires forall k string: dom(m, k) ==> known[k] && m[k] == evaluated(t.wikipediaService, source[k], k)
  modifies mapof(m), source, known, failed, unclosed
  ensures [a placeholder for every template] err == nil ==> r == put(old(content), 0)
  ensures [no failure goes unnoticed] err == nil ==> failed == old(failed)
  ensures [no other failure] err != nil ==> failed || unclosed
  ensures [the result of each evaluation is kept] err == nil ==> (forall k string: known[k] ==> dom(m, k) || old(known)[k])
  ensures [no result gets lost] err == nil ==> (forall k string: old(dom(m, k)) ==> dom(m, k))
  ensures [under its own key] err == nil ==> (forall k string: dom(m, k) ==> known[k] && m[k] == evaluated(t.wikipediaService, source[k], k))
  loop 1
    invariant [text] put(old(content), 0) == put(content, i)
    invariant [position] 0 <= i
    invariant [nothing before] quiet(content, i)
    invariant [no failure] failed == old(failed)
    invariant [kept] forall k string: known[k] ==> dom(m, k) || old(known)[k]
    invariant [not lost] forall k string: old(dom(m, k)) ==> dom(m, k)
    invariant [own key] forall k string: dom(m, k) ==> known[k] && m[k] == evaluated(t.wikipediaService, source[k], k)

# resolved(m, a, b): b is the text a with the evaluated templates in place of their placeholders
spec resolved(s any, source arr[string] string, a string, b string) bool
axiom nothingResolved(s any, source arr[string] string, a string, b string)
  note "definition of resolved"
  requires a == b
  ensures resolved(s, source, a, b)
  trigger resolved(s, source, a, b)
axiom oneResolved(s any, source arr[string] string, a string, b string, k string, p string, v string)
  note "definition of resolved"
  requires resolved(s, source, a, b) && p == placeholder(k) && v == evaluated(s, source[k], k)
  ensures resolved(s, source, a, replaceAll(b, p, v))
  trigger resolved(s, source, a, b), replaceAll(b, p, v), source[k]
func parser.Tokenizer.evaluateTemplates(t, content) (r, err)
  requires t != nil && t.wikipediaService != nil
  modifies source, known, failed, unclosed
  ensures [each template in its place] err == nil ==> resolved(t.wikipediaService, source, put(old(content), 0), r)
  ensures [no failure goes unnoticed] err == nil ==> failed == old(failed)
  ensures [no other failure] err != nil ==> failed || unclosed
  ensures [no placeholder is left] err == nil ==> !contains(r, "$$TEMPLATE_PLACEHOLDER_")
  loop all
    invariant [resolved so far] resolved(t.wikipediaService, source, put(old(content), 0), content)

# The templates of an article are evaluated after its first cleanup, the result is cleaned and tokenized.
ghost uncleaned string    # text of the last cleanup
ghost handed string       # text handed over to the tokenizer
ghost tokenized string    # its result
pure extern parser.Tokenizer.clean(t, content) (r, err) as cleaned, cleanErr
  note "the cleaned text depends on the text and the configuration only; see C18"
  modifies t.images, uncleaned, failed
  ensures uncleaned == content && failed == (old(failed) || err != nil)
extern parser.Tokenizer.tokenizeContent(t, content) (r)
  note "NewTokenizer sets it to parser.tokenizeContent, which is verified in C14 and C17"
  requires t != nil && t.tokenMap != nil
  modifies mapof(t.tokenMap), t.tokenCounter, t.images, handed, tokenized
  ensures handed == content && tokenized == r
func parser.NewTokenizer(s) (r)
  ensures r.wikipediaService == s && r.tokenMap != nil && isFn(r.tokenizeContent, "parser.tokenizeContent")
func parser.Tokenizer.Tokenize(t, content, title) (r, err)
  requires t != nil && t.wikipediaService != nil && t.tokenMap != nil && isFn(t.tokenizeContent, "parser.tokenizeContent")
  modifies mapof(t.tokenMap), t.tokenCounter, t.images, handed, tokenized, uncleaned, source, known, failed, unclosed
  ensures [no failure goes unnoticed] err == nil ==> r != nil && failed == old(failed)
  ensures [no other failure] err != nil ==> failed || unclosed
  ensures [the article has its title and text] err == nil ==> r.Title == title && r.Content == tokenized
  ensures [the evaluated text is cleaned and tokenized] err == nil ==> handed == cleaned(t, uncleaned)
  ensures [the templates of the article are evaluated] err == nil ==> resolved(t.wikipediaService, source, put(cleaned(t, content), 0), uncleaned)
