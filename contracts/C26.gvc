property C26
use strings
strict

# What a part of an article contributes to the statistics, whatever is nested in it: n(0, part) characters, n(1, part) words,
# n(2, part) internal links, n(3, part) external links, n(4, part) images, n(5, part) formulas, n(6, part) definitions of
# references, n(7, part) usages of references; links(part, x): links to article x.
spec n(kind int, part any) int
spec links(part any, x string) int
ghost failed bool
spec numberOf(m map[string]int, x string) int = ite(dom(m, x), m[x], 0)

extern generator.expand(h, part) (r, err)
  note "verified as property C22; each expansion of a part adds what the handlers of its tokens add, which is verified here handler by handler"
  requires isType(h, "*generator.StatsGenerator") && as(h, "*generator.StatsGenerator") != nil && as(h, "*generator.StatsGenerator").stats != nil && as(h, "*generator.StatsGenerator").stats.InternalLinks != nil
  modifies as(h, "*generator.StatsGenerator").stats.NumberOfCharacters, as(h, "*generator.StatsGenerator").stats.NumberOfWords, as(h, "*generator.StatsGenerator").stats.NumberOfInternalLinks, as(h, "*generator.StatsGenerator").stats.NumberOfExternalLinks, as(h, "*generator.StatsGenerator").stats.NumberOfImages, as(h, "*generator.StatsGenerator").stats.NumberOfMath, as(h, "*generator.StatsGenerator").stats.NumberOfRefDefinitions, as(h, "*generator.StatsGenerator").stats.NumberOfRefUsages, mapof(as(h, "*generator.StatsGenerator").stats.InternalLinks), failed
  ensures failed == (old(failed) || err != nil)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfCharacters == old(as(h, "*generator.StatsGenerator").stats.NumberOfCharacters) + n(0, part)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfWords == old(as(h, "*generator.StatsGenerator").stats.NumberOfWords) + n(1, part)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfInternalLinks == old(as(h, "*generator.StatsGenerator").stats.NumberOfInternalLinks) + n(2, part)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfExternalLinks == old(as(h, "*generator.StatsGenerator").stats.NumberOfExternalLinks) + n(3, part)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfImages == old(as(h, "*generator.StatsGenerator").stats.NumberOfImages) + n(4, part)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfMath == old(as(h, "*generator.StatsGenerator").stats.NumberOfMath) + n(5, part)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfRefDefinitions == old(as(h, "*generator.StatsGenerator").stats.NumberOfRefDefinitions) + n(6, part)
  ensures err == nil ==> as(h, "*generator.StatsGenerator").stats.NumberOfRefUsages == old(as(h, "*generator.StatsGenerator").stats.NumberOfRefUsages) + n(7, part)
  ensures err == nil ==> (forall x string: numberOf(as(h, "*generator.StatsGenerator").stats.InternalLinks, x) == old(numberOf(as(h, "*generator.StatsGenerator").stats.InternalLinks, x)) + links(part, x))

rec spec rows(kind int, l []parser.TableRowToken, k int) int = ite(k <= 0, 0, rows(kind, l, k - 1) + n(kind, box(l[k-1])))
rec spec rowsLinks(x string, l []parser.TableRowToken, k int) int = ite(k <= 0, 0, rowsLinks(x, l, k - 1) + links(box(l[k-1]), x))
rec spec cells(kind int, l []parser.TableColToken, k int) int = ite(k <= 0, 0, cells(kind, l, k - 1) + n(kind, box(l[k-1])))
rec spec cellsLinks(x string, l []parser.TableColToken, k int) int = ite(k <= 0, 0, cellsLinks(x, l, k - 1) + links(box(l[k-1]), x))
rec spec items(kind int, l []parser.ListItemToken, k int) int = ite(k <= 0, 0, items(kind, l, k - 1) + n(kind, box(l[k-1])))
rec spec itemsLinks(x string, l []parser.ListItemToken, k int) int = ite(k <= 0, 0, itemsLinks(x, l, k - 1) + links(box(l[k-1]), x))
rec spec subLists(kind int, l []parser.ListToken, k int) int = ite(k <= 0, 0, subLists(kind, l, k - 1) + n(kind, l[k-1]))
rec spec subListsLinks(x string, l []parser.ListToken, k int) int = ite(k <= 0, 0, subListsLinks(x, l, k - 1) + links(l[k-1], x))

verify generator.StatsGenerator.expandHeadings, generator.StatsGenerator.expandInlineImage, generator.StatsGenerator.expandImage, generator.StatsGenerator.expandInternalLink, generator.StatsGenerator.expandExternalLink, generator.StatsGenerator.expandTable, generator.StatsGenerator.expandTableRow, generator.StatsGenerator.expandTableColumn, generator.StatsGenerator.expandTableCaption, generator.StatsGenerator.expandUnorderedList, generator.StatsGenerator.expandOrderedList, generator.StatsGenerator.expandDescriptionList, generator.StatsGenerator.expandListItems, generator.StatsGenerator.expandListItem, generator.StatsGenerator.expandRefDefinition, generator.StatsGenerator.expandRefUsage, generator.StatsGenerator.expandMath

func generator.StatsGenerator.expandHeadings(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.Content))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.Content))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.Content))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.Content))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.Content))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.Content))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.Content))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.Content))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.Content), x))

func generator.StatsGenerator.expandInlineImage(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters)
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords)
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks)
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks)
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + 1
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath)
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions)
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages)
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)))

func generator.StatsGenerator.expandImage(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.Caption.Content))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.Caption.Content))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.Caption.Content))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.Caption.Content))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + 1 + n(4, box(token.Caption.Content))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.Caption.Content))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.Caption.Content))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.Caption.Content))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.Caption.Content), x))

func generator.StatsGenerator.expandInternalLink(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.LinkText))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.LinkText))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + 1 + n(2, box(token.LinkText))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.LinkText))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.LinkText))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.LinkText))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.LinkText))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.LinkText))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + ite(x == token.ArticleName, 1, 0) + links(box(token.LinkText), x))

func generator.StatsGenerator.expandExternalLink(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.LinkText))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.LinkText))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.LinkText))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + 1 + n(3, box(token.LinkText))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.LinkText))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.LinkText))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.LinkText))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.LinkText))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.LinkText), x))

func generator.StatsGenerator.expandTable(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.Caption)) + rows(0, token.Rows, len(token.Rows))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.Caption)) + rows(1, token.Rows, len(token.Rows))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.Caption)) + rows(2, token.Rows, len(token.Rows))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.Caption)) + rows(3, token.Rows, len(token.Rows))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.Caption)) + rows(4, token.Rows, len(token.Rows))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.Caption)) + rows(5, token.Rows, len(token.Rows))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.Caption)) + rows(6, token.Rows, len(token.Rows))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.Caption)) + rows(7, token.Rows, len(token.Rows))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.Caption), x) + rowsLinks(x, token.Rows, len(token.Rows)))
  loop 1
    invariant [no error so far] !failed
    invariant [characters] g.stats.NumberOfCharacters == entry(g.stats.NumberOfCharacters) + rows(0, token.Rows, $idx)
    invariant [words] g.stats.NumberOfWords == entry(g.stats.NumberOfWords) + rows(1, token.Rows, $idx)
    invariant [internal links] g.stats.NumberOfInternalLinks == entry(g.stats.NumberOfInternalLinks) + rows(2, token.Rows, $idx)
    invariant [external links] g.stats.NumberOfExternalLinks == entry(g.stats.NumberOfExternalLinks) + rows(3, token.Rows, $idx)
    invariant [images] g.stats.NumberOfImages == entry(g.stats.NumberOfImages) + rows(4, token.Rows, $idx)
    invariant [formulas] g.stats.NumberOfMath == entry(g.stats.NumberOfMath) + rows(5, token.Rows, $idx)
    invariant [reference definitions] g.stats.NumberOfRefDefinitions == entry(g.stats.NumberOfRefDefinitions) + rows(6, token.Rows, $idx)
    invariant [reference usages] g.stats.NumberOfRefUsages == entry(g.stats.NumberOfRefUsages) + rows(7, token.Rows, $idx)
    invariant [links] forall x string: numberOf(g.stats.InternalLinks, x) == entry(numberOf(g.stats.InternalLinks, x)) + rowsLinks(x, token.Rows, $idx)

func generator.StatsGenerator.expandTableRow(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + cells(0, token.Columns, len(token.Columns))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + cells(1, token.Columns, len(token.Columns))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + cells(2, token.Columns, len(token.Columns))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + cells(3, token.Columns, len(token.Columns))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + cells(4, token.Columns, len(token.Columns))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + cells(5, token.Columns, len(token.Columns))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + cells(6, token.Columns, len(token.Columns))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + cells(7, token.Columns, len(token.Columns))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + cellsLinks(x, token.Columns, len(token.Columns)))
  loop 1
    invariant [no error so far] !failed
    invariant [characters] g.stats.NumberOfCharacters == entry(g.stats.NumberOfCharacters) + cells(0, token.Columns, $idx)
    invariant [words] g.stats.NumberOfWords == entry(g.stats.NumberOfWords) + cells(1, token.Columns, $idx)
    invariant [internal links] g.stats.NumberOfInternalLinks == entry(g.stats.NumberOfInternalLinks) + cells(2, token.Columns, $idx)
    invariant [external links] g.stats.NumberOfExternalLinks == entry(g.stats.NumberOfExternalLinks) + cells(3, token.Columns, $idx)
    invariant [images] g.stats.NumberOfImages == entry(g.stats.NumberOfImages) + cells(4, token.Columns, $idx)
    invariant [formulas] g.stats.NumberOfMath == entry(g.stats.NumberOfMath) + cells(5, token.Columns, $idx)
    invariant [reference definitions] g.stats.NumberOfRefDefinitions == entry(g.stats.NumberOfRefDefinitions) + cells(6, token.Columns, $idx)
    invariant [reference usages] g.stats.NumberOfRefUsages == entry(g.stats.NumberOfRefUsages) + cells(7, token.Columns, $idx)
    invariant [links] forall x string: numberOf(g.stats.InternalLinks, x) == entry(numberOf(g.stats.InternalLinks, x)) + cellsLinks(x, token.Columns, $idx)

func generator.StatsGenerator.expandTableColumn(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.Content))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.Content))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.Content))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.Content))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.Content))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.Content))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.Content))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.Content))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.Content), x))

func generator.StatsGenerator.expandTableCaption(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.Content))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.Content))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.Content))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.Content))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.Content))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.Content))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.Content))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.Content))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.Content), x))

func generator.StatsGenerator.expandUnorderedList(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + items(0, token.Items, len(token.Items))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + items(1, token.Items, len(token.Items))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + items(2, token.Items, len(token.Items))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + items(3, token.Items, len(token.Items))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + items(4, token.Items, len(token.Items))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + items(5, token.Items, len(token.Items))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + items(6, token.Items, len(token.Items))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + items(7, token.Items, len(token.Items))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + itemsLinks(x, token.Items, len(token.Items)))

func generator.StatsGenerator.expandOrderedList(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + items(0, token.Items, len(token.Items))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + items(1, token.Items, len(token.Items))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + items(2, token.Items, len(token.Items))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + items(3, token.Items, len(token.Items))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + items(4, token.Items, len(token.Items))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + items(5, token.Items, len(token.Items))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + items(6, token.Items, len(token.Items))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + items(7, token.Items, len(token.Items))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + itemsLinks(x, token.Items, len(token.Items)))

func generator.StatsGenerator.expandDescriptionList(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + items(0, token.Items, len(token.Items))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + items(1, token.Items, len(token.Items))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + items(2, token.Items, len(token.Items))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + items(3, token.Items, len(token.Items))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + items(4, token.Items, len(token.Items))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + items(5, token.Items, len(token.Items))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + items(6, token.Items, len(token.Items))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + items(7, token.Items, len(token.Items))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + itemsLinks(x, token.Items, len(token.Items)))

func generator.StatsGenerator.expandListItems(g, items) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + items(0, items, len(items))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + items(1, items, len(items))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + items(2, items, len(items))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + items(3, items, len(items))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + items(4, items, len(items))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + items(5, items, len(items))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + items(6, items, len(items))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + items(7, items, len(items))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + itemsLinks(x, items, len(items)))
  loop 1
    invariant [no error so far] !failed
    invariant [characters] g.stats.NumberOfCharacters == entry(g.stats.NumberOfCharacters) + items(0, items, $idx)
    invariant [words] g.stats.NumberOfWords == entry(g.stats.NumberOfWords) + items(1, items, $idx)
    invariant [internal links] g.stats.NumberOfInternalLinks == entry(g.stats.NumberOfInternalLinks) + items(2, items, $idx)
    invariant [external links] g.stats.NumberOfExternalLinks == entry(g.stats.NumberOfExternalLinks) + items(3, items, $idx)
    invariant [images] g.stats.NumberOfImages == entry(g.stats.NumberOfImages) + items(4, items, $idx)
    invariant [formulas] g.stats.NumberOfMath == entry(g.stats.NumberOfMath) + items(5, items, $idx)
    invariant [reference definitions] g.stats.NumberOfRefDefinitions == entry(g.stats.NumberOfRefDefinitions) + items(6, items, $idx)
    invariant [reference usages] g.stats.NumberOfRefUsages == entry(g.stats.NumberOfRefUsages) + items(7, items, $idx)
    invariant [links] forall x string: numberOf(g.stats.InternalLinks, x) == entry(numberOf(g.stats.InternalLinks, x)) + itemsLinks(x, items, $idx)

func generator.StatsGenerator.expandListItem(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.Content)) + subLists(0, token.SubLists, len(token.SubLists))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.Content)) + subLists(1, token.SubLists, len(token.SubLists))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.Content)) + subLists(2, token.SubLists, len(token.SubLists))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.Content)) + subLists(3, token.SubLists, len(token.SubLists))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.Content)) + subLists(4, token.SubLists, len(token.SubLists))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.Content)) + subLists(5, token.SubLists, len(token.SubLists))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + n(6, box(token.Content)) + subLists(6, token.SubLists, len(token.SubLists))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.Content)) + subLists(7, token.SubLists, len(token.SubLists))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.Content), x) + subListsLinks(x, token.SubLists, len(token.SubLists)))
  loop 1
    invariant [no error so far] !failed
    invariant [characters] g.stats.NumberOfCharacters == entry(g.stats.NumberOfCharacters) + subLists(0, token.SubLists, $idx)
    invariant [words] g.stats.NumberOfWords == entry(g.stats.NumberOfWords) + subLists(1, token.SubLists, $idx)
    invariant [internal links] g.stats.NumberOfInternalLinks == entry(g.stats.NumberOfInternalLinks) + subLists(2, token.SubLists, $idx)
    invariant [external links] g.stats.NumberOfExternalLinks == entry(g.stats.NumberOfExternalLinks) + subLists(3, token.SubLists, $idx)
    invariant [images] g.stats.NumberOfImages == entry(g.stats.NumberOfImages) + subLists(4, token.SubLists, $idx)
    invariant [formulas] g.stats.NumberOfMath == entry(g.stats.NumberOfMath) + subLists(5, token.SubLists, $idx)
    invariant [reference definitions] g.stats.NumberOfRefDefinitions == entry(g.stats.NumberOfRefDefinitions) + subLists(6, token.SubLists, $idx)
    invariant [reference usages] g.stats.NumberOfRefUsages == entry(g.stats.NumberOfRefUsages) + subLists(7, token.SubLists, $idx)
    invariant [links] forall x string: numberOf(g.stats.InternalLinks, x) == entry(numberOf(g.stats.InternalLinks, x)) + subListsLinks(x, token.SubLists, $idx)

func generator.StatsGenerator.expandRefDefinition(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + n(0, box(token.Content))
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords) + n(1, box(token.Content))
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks) + n(2, box(token.Content))
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks) + n(3, box(token.Content))
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages) + n(4, box(token.Content))
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + n(5, box(token.Content))
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions) + 1 + n(6, box(token.Content))
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + n(7, box(token.Content))
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)) + links(box(token.Content), x))

func generator.StatsGenerator.expandRefUsage(g, token) (r)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures !failed
  ensures [characters] g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters)
  ensures [words] g.stats.NumberOfWords == old(g.stats.NumberOfWords)
  ensures [internal links] g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks)
  ensures [external links] g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks)
  ensures [images] g.stats.NumberOfImages == old(g.stats.NumberOfImages)
  ensures [formulas] g.stats.NumberOfMath == old(g.stats.NumberOfMath)
  ensures [reference definitions] g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions)
  ensures [reference usages] g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages) + 1
  ensures [links to each article] (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)))

func generator.StatsGenerator.expandMath(g, token) (r, err)
  requires g != nil && g.stats != nil && g.stats.InternalLinks != nil && !failed
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords, g.stats.NumberOfInternalLinks, g.stats.NumberOfExternalLinks, g.stats.NumberOfImages, g.stats.NumberOfMath, g.stats.NumberOfRefDefinitions, g.stats.NumberOfRefUsages, mapof(g.stats.InternalLinks), failed
  ensures [errors are passed on] failed ==> err != nil
  ensures [characters] err == nil ==> g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters)
  ensures [words] err == nil ==> g.stats.NumberOfWords == old(g.stats.NumberOfWords)
  ensures [internal links] err == nil ==> g.stats.NumberOfInternalLinks == old(g.stats.NumberOfInternalLinks)
  ensures [external links] err == nil ==> g.stats.NumberOfExternalLinks == old(g.stats.NumberOfExternalLinks)
  ensures [images] err == nil ==> g.stats.NumberOfImages == old(g.stats.NumberOfImages)
  ensures [formulas] err == nil ==> g.stats.NumberOfMath == old(g.stats.NumberOfMath) + 1
  ensures [reference definitions] err == nil ==> g.stats.NumberOfRefDefinitions == old(g.stats.NumberOfRefDefinitions)
  ensures [reference usages] err == nil ==> g.stats.NumberOfRefUsages == old(g.stats.NumberOfRefUsages)
  ensures [links to each article] err == nil ==> (forall x string: numberOf(g.stats.InternalLinks, x) == old(numberOf(g.stats.InternalLinks, x)))

# Words are maximal runs of letters and digits.
verify generator.StatsGenerator.expandSimpleString, generator.StatsGenerator.getToken
pure extern unicode.IsLetter(r) (b) as isLetter
pure extern unicode.IsNumber(r) (b) as isNumber
pure extern unicode/utf8.RuneCountInString(s) (k)
  ensures k == len(runes(s))
spec inWord(s []rune, i int) bool = isLetter(s[i]) || isNumber(s[i])
rec fuel 2 spec words(s []rune, k int) int = ite(k <= 0, 0, words(s, k - 1) + ite(inWord(s, k - 1) && (k == 1 || !inWord(s, k - 2)), 1, 0))
func generator.StatsGenerator.expandSimpleString(g, content) (r)
  requires g != nil && g.stats != nil
  modifies g.stats.NumberOfCharacters, g.stats.NumberOfWords
  ensures [text is kept] r == content
  ensures [characters] g.stats.NumberOfCharacters == old(g.stats.NumberOfCharacters) + len(runes(old(content)))
  ensures [words] g.stats.NumberOfWords == old(g.stats.NumberOfWords) + words(runes(old(content)), len(runes(old(content))))
  loop 1
    invariant [words so far] g.stats.NumberOfWords == entry(g.stats.NumberOfWords) + words(runes(content), $idx)
    invariant [words so far] any(n int) n == entry(n) + words(runes(content), $idx)
    invariant [characters so far] any(n int) n == entry(n) + $idx
    invariant [characters so far] g.stats.NumberOfCharacters == entry(g.stats.NumberOfCharacters) + $idx
    invariant [characters known] g.stats.NumberOfCharacters == entry(g.stats.NumberOfCharacters)
    invariant [within a word] any(b bool) b <==> $idx > 0 && inWord(runes(content), $idx - 1)
func generator.StatsGenerator.getToken(g, k) (t, ok)
  requires g != nil
  ensures [the stored token] (ok <==> g.tokenMap != nil && dom(g.tokenMap, k)) && (ok ==> t == g.tokenMap[k])

# The statistics file of an article contains the numbers of the whole article.
verify generator.NewStatsGenerator, generator.StatsGenerator.Generate, generator.StatsGenerator.getEstimatedReadingTimeInMinutes safety
ghost json string
ghost stored bool
ghost storedPath string
spec fresh0(s *generator.articleStats) bool = s.NumberOfCharacters == 0 && s.NumberOfWords == 0 && s.NumberOfInternalLinks == 0 && s.NumberOfExternalLinks == 0 && s.NumberOfImages == 0 && s.NumberOfMath == 0 && s.NumberOfRefDefinitions == 0 && s.NumberOfRefUsages == 0
ghost article *parser.Article
spec whole(s *generator.articleStats, a any) bool = s.NumberOfCharacters == n(0, a) && s.NumberOfWords == n(1, a) && s.NumberOfInternalLinks == n(2, a) && s.NumberOfExternalLinks == n(3, a) && s.NumberOfImages == n(4, a) && s.NumberOfMath == n(5, a) && s.NumberOfRefDefinitions == n(6, a) && s.NumberOfRefUsages == n(7, a)
pure extern strings.NewReader(s) (r) as newReader
extern encoding/json.MarshalIndent(v, p, i) (b, err)
  requires [the whole article is counted] whole(as(v, "*generator.articleStats"), box(article.Content)) && !failed
  requires [all links are counted] forall x string: numberOf(as(v, "*generator.articleStats").InternalLinks, x) == links(box(article.Content), x)
  requires [name of the article] as(v, "*generator.articleStats").ArticleName == article.Title
  modifies json
  ensures json == string(b)
extern cache.CacheToFile(folder, file, reader) (path, err)
  note "verified as properties C03 and C04"
  requires [the statistics of this article] folder == "stats" && file == article.Title + ".json" && reader == box(newReader(json))
  modifies stored, storedPath
  ensures stored == (err == nil) && storedPath == path
func generator.StatsGenerator.getEstimatedReadingTimeInMinutes(g) (r)
  requires g != nil && g.stats != nil
func generator.NewStatsGenerator(m) (g)
  ensures [nothing is counted yet] g != nil && g.stats != nil && fresh0(g.stats) && g.tokenMap == m
func generator.StatsGenerator.Generate(g, wikiArticle) (r, err)
  noframe
  requires g != nil && g.stats != nil && fresh0(g.stats) && !failed && !stored
  requires wikiArticle != nil && article == wikiArticle
  modifies failed, json, stored, storedPath
  ensures [written] err == nil ==> stored && r == storedPath
